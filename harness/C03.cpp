// C03: several connections to one database file, explored in every order of their statements and of their busy waits.
#include "SQLite.hpp"
#include "coro.hpp"
#include "hmat_io.hpp"

struct Tx {
    int conn;
    std::vector<int> rows;
    bool committed = false;
    long done = 0; // logical time of the end
};
struct Seen {
    std::set<int> rows;
    int conn;
    long begin;
};
struct Run {
    std::vector<Tx> tx;
    std::vector<std::string> errors;
    std::vector<Seen> reads;
    std::string broken;
    long time = 0;
    bool upgrade = false;
};
static Run *R_;
static std::string g_file;
static std::string const letters = "WPTDBRQUCMNSOI";
static bool uses_upgrade(std::string const &p) { return p.find('U') != std::string::npos; }
static void pt() { coro::point(); }
static void check_read(Seen const &s, bool snapshot_of_own = true) {
    (void)snapshot_of_own;
    Run &r = *R_;
    for (auto &t : r.tx) {
        if (t.conn == s.conn && !t.committed) continue;
        size_t n = 0;
        for (int x : t.rows) n += s.rows.count(x);
        if (n != 0 && n != t.rows.size()) r.broken = mc::cat("a reader sees ", n, " of ", t.rows.size(), " rows of a transaction");
        if (t.committed && t.done < s.begin && n != t.rows.size()) r.broken = "a reader misses rows that were committed before it started";
    }
    for (int x : s.rows) {
        bool known = false;
        for (auto &t : r.tx)
            for (int y : t.rows) known = known || x == y;
        if (!known) r.broken = mc::cat("a reader sees a row that was never written or was taken back: ", x);
    }
}
static std::set<int> select(sqlite::handle &db, bool give_way) {
    sqlite::statement s(db, "select a, b from t order by a;");
    s.prepare();
    std::set<int> rows;
    while (s.step()) {
        int a = s.get<int>(0);
        if (s.get<std::string>(1) != mc::cat("row ", a)) R_->broken = mc::cat("row ", a, " reads ", s.get<std::string>(1));
        if (!rows.insert(a).second) R_->broken = mc::cat("row ", a, " twice");
        if (give_way) pt();
    }
    return rows;
}
static std::string ins(int a) { return mc::cat("insert into t values(", a, ",'row ", a, "');"); }
// a handle whose memory is used for something else after its end
struct Slot {
    alignas(sqlite::handle) unsigned char mem[sizeof(sqlite::handle)];
    bool alive = true;
    explicit Slot(std::string const &file) { new (mem) sqlite::handle(file); }
    explicit Slot(sqlite::handle &&h) { new (mem) sqlite::handle(std::move(h)); }
    Slot(Slot const &) = delete;
    sqlite::handle &operator*() { return *std::launder(reinterpret_cast<sqlite::handle *>(mem)); }
    void end() {
        if (!alive) return;
        alive = false;
        (**this).~handle();
        for (auto &b : mem) *const_cast<unsigned char volatile *>(&b) = 0x80;
    }
    ~Slot() { end(); }
};
static void one(char l, sqlite::handle &db, int conn, int base) {
    Run &r = *R_;
    auto tx = [&](std::vector<int> rows) {
        r.tx.push_back({conn, rows, false, 0});
        return r.tx.size() - 1;
    };
    auto commit = [&](size_t t) { r.tx[t].committed = true, r.tx[t].done = ++r.time; };
    sqlite::statement s(db);
    long begin = r.time;
    switch (l) {
    case 'M': { // moved handles
        Slot first(std::move(db)), second(std::move(*first));
        first.end();
        auto t = tx({base});
        { sqlite::statement q(*second); q.exec(ins(base)); }
        commit(t);
        pt();
        db = std::move(*second);
        second.end();
        auto u = tx({base + 1});
        { sqlite::statement q(db); q.exec(ins(base + 1)); }
        commit(u);
        break;
    }
    case 'N': { // assigned over an open handle
        Slot origin(g_file), other(std::move(*origin));
        origin.end();
        auto t = tx({base + 1});
        { sqlite::statement q(*other); q.exec(ins(base + 1)); }
        commit(t);
        db = std::move(*other);
        other.end();
        auto u = tx({base});
        { sqlite::statement q(db); q.exec(ins(base)); }
        commit(u);
        break;
    }
    case 'W': {
        auto t = tx({base});
        s.exec(ins(base));
        commit(t);
        break;
    }
    case 'P': {
        s.set("insert into t values(?1,?2);");
        s.prepare();
        for (int k = 0; k < 2; ++k) {
            auto t = tx({base + k});
            std::string text = mc::cat("row ", base + k);
            s.bind(1, base + k), s.bind(2, text);
            s.step();
            s.reset();
            commit(t);
            pt();
        }
        break;
    }
    case 'T':
    case 'D':
    case 'B':
    case 'I': {
        s.exec(l == 'D' || l == 'I' ? "begin transaction;" : "begin immediate transaction;");
        pt();
        auto t = tx({base, base + 1});
        for (int k = 0; k < 2; ++k) {
            if (l == 'I') { // as the library does
                s.set("insert or ignore into t values(?1,?2);");
                s.prepare();
                std::string text = mc::cat("row ", base + k);
                s.bind(1, base + k), s.bind(2, text);
                s.step();
                s.reset();
            } else {
                s.exec(ins(base + k));
            }
            pt();
        }
        if (l == 'B') {
            r.tx[t].rows.clear();
            s.exec("rollback;");
        } else {
            s.exec("commit transaction;");
            commit(t);
        }
        break;
    }
    case 'S': {
        auto t = tx({base, base + 1});
        s.exec("begin immediate;" + ins(base) + ins(base + 1) + "commit;");
        commit(t);
        break;
    }
    case 'C': {
        s.exec("create table if not exists extra (a int);");
        pt();
        s.exec(mc::cat("insert into extra values(", base, ");"));
        break;
    }
    case 'O': {
        auto t = tx({base});
        {
            sqlite::handle other(g_file);
            pt();
            sqlite::statement q(other);
            q.exec(ins(base));
        }
        commit(t);
        break;
    }
    case 'R': {
        auto rows = select(db, true);
        check_read({rows, conn, begin});
        break;
    }
    case 'Q': {
        s.exec("begin transaction;");
        auto a = select(db, false);
        check_read({a, conn, begin});
        pt();
        auto b = select(db, true);
        s.exec("commit;");
        if (a != b) r.broken = "two readings in one transaction differ";
        break;
    }
    case 'U': { // reads, then writes: of two such transactions one has to give up
        s.exec("begin transaction;");
        auto a = select(db, false);
        check_read({a, conn, begin});
        pt();
        auto t = tx({base});
        try {
            s.exec(ins(base));
        } catch (sqlite::error &e) {
            r.tx[t].rows.clear();
            if (std::string(e.what()).find("locked") == std::string::npos) throw;
            s.exec("rollback;");
            return;
        }
        pt();
        s.exec("commit;");
        commit(t);
        break;
    }
    }
}
struct Plan {
    std::vector<std::string> conn;
    int bound;
};
static void explore(Plan const &p, mc::Scratch &dir, std::string const &fresh) {
    std::string label;
    for (auto &c : p.conn) label += (label.empty() ? "" : " | ") + c;
    label = mc::cat("connections ", label, ", preemptions ", p.bound);
    if (!mc::enter(label)) return;
    int k = 0;
    Run run;
    bool upgrade = false;
    for (auto &c : p.conn) upgrade = upgrade || uses_upgrade(c);
    std::set<std::string> outcomes;
    auto st = coro::explore(
        [&] {
            run = Run();
            R_ = &run;
            g_file = dir / mc::cat("db", ++k);
            spit(g_file, fresh);
            std::vector<std::function<void()>> b;
            for (size_t i = 0; i < p.conn.size(); ++i)
                b.push_back([&, i] {
                    try {
                        sqlite::handle db(g_file);
                        for (size_t m = 0; m < p.conn[i].size(); ++m) {
                            pt();
                            one(p.conn[i][m], db, i, 100 * (i + 1) + 10 * m);
                        }
                    } catch (std::exception &e) {
                        R_->errors.push_back(mc::cat("connection ", i, ": ", e.what()));
                    }
                });
            return b;
        },
        [&](bool stuck, std::string const &order) {
            std::string bad;
            if (stuck) bad = "the connections wait for each other";
            else if (!run.errors.empty()) bad = "a statement fails: " + run.errors[0];
            else if (!run.broken.empty()) bad = run.broken;
            else {
                std::set<int> want, got;
                for (auto &t : run.tx)
                    if (t.committed) want.insert(t.rows.begin(), t.rows.end());
                sqlite::handle db(g_file);
                got = select(db, false);
                sqlite::statement s(db, "pragma integrity_check;");
                s.prepare();
                s.step();
                if (s.get<std::string>(0) != "ok") bad = "the file is damaged: " + s.get<std::string>(0);
                if (got != want) {
                    bad = "rows in the file:";
                    for (int x : got) bad += mc::cat(" ", x);
                    bad += " | reported as written:";
                    for (int x : want) bad += mc::cat(" ", x);
                }
                std::string o;
                for (auto &t : run.tx) o += mc::cat(t.conn, t.committed, t.done, ' ');
                outcomes.insert(o);
            }
            unlink(g_file.c_str());
            unlink((g_file + "-journal").c_str());
            mc::R().evaluations++;
            if (!bad.empty()) {
                mc::violation(bad.substr(0, bad.find(':')), bad + " | order of steps " + order);
                return false;
            }
            return true;
        },
        p.bound);
    auto &r = mc::R();

    r.traces += st.executions, r.transitions += st.steps, r.states += st.steps + 1;
    for (auto &o : outcomes) mc::outcome(label + o);
}
extern "C" int fsync(int) { return 0; } // no power failures here
extern "C" int fdatasync(int) { return 0; }
int main() {
    mc::Scratch dir;
    std::string fresh;
    {
        sqlite::handle db(dir / "fresh");
        sqlite::statement s(db);
        s.exec("create table t (a integer primary key, b text);");
    }
    fresh = slurp(dir / "fresh");
    std::vector<Plan> plans;
    auto all = [&](int len, std::string const &of) {
        std::vector<std::string> r{""};
        for (int i = 0; i < len; ++i) {
            std::vector<std::string> n;
            for (auto &x : r)
                for (char c : of) n.push_back(x + c);
            r = n;
        }
        return r;
    };
    auto one = all(1, letters), two = all(2, letters), some = all(2, mc::thorough() ? "WTDRUPM" : "WTRU");
    for (size_t i = 0; i < one.size(); ++i)
        for (size_t j = i; j < one.size(); ++j) plans.push_back({{one[i], one[j]}, 1000});
    for (auto &x : one)
        for (auto &y : two) plans.push_back({{x, y}, mc::tier(4, 6)});
    for (size_t i = 0; i < some.size(); ++i)
        for (size_t j = i; j < some.size(); ++j) plans.push_back({{some[i], some[j]}, mc::tier(3, 4)});
    for (size_t i = 0; i < one.size(); ++i)
        for (size_t j = i; j < one.size(); ++j)
            for (size_t k = j; k < one.size(); ++k) plans.push_back({{one[i], one[j], one[k]}, mc::tier(1, 2)});
    if (mc::thorough())
        for (auto &x : all(4, "WTDR")) plans.push_back({{x.substr(0, 1), x.substr(1, 1), x.substr(2, 1), x.substr(3, 1)}, 1});
    mc::info("programs", (long long)plans.size());
    int chunks = std::min<int>(1500, plans.size());
    mc::parallel(chunks, [&](int c) {
        mc::Scratch d;
        for (size_t i = c; i < plans.size(); i += chunks) explore(plans[i], d, fresh);
    });
    // long waits: one connection holds the file while another asks again and again
    std::vector<long> waits{1, 2, 3, 5, 10, 100, 1000, 20000};
    if (mc::thorough()) waits.push_back(90000);
    std::vector<std::pair<std::string, std::string>> holders{{"begin immediate;", "commit;"}, {"begin exclusive;", "commit;"}, {"begin exclusive;", "rollback;"}};
    mc::parallel(waits.size() * holders.size() * 4, [&](int job) {
        long n = waits[job / 4 / holders.size()];
        auto &h = holders[job / 4 % holders.size()];
        int kind = job % 4;
        std::string label = mc::cat("wait of ", n, " attempts: ", h.first, " ", h.second, " kind ", kind);
        if (!mc::enter(label)) return;
        mc::Scratch d;
        g_file = d / "db";
        spit(g_file, fresh);
        std::string bad;
        long slept = 0;
        coro::explore(
            [&] {
                return std::vector<std::function<void()>>{
                    [&] {
                        sqlite::handle db(g_file);
                        sqlite::statement s(db);
                        s.exec(h.first);
                        s.exec(ins(1));
                        coro::asleep(); // the other one waits from here on
                        s.exec(h.second);
                    },
                    [&] {
                        try {
                            coro::point();
                            sqlite::handle a(g_file), b(g_file);
                            if (kind == 1) a = std::move(b);
                            sqlite::handle c(std::move(a));
                            sqlite::statement s(c);
                            coro::world()->free_sleeps = n;
                            long before = n;
                            if (kind == 2) {
                                s.set("insert into t values(?1,?2);");
                                s.prepare();
                                s.bind(1, 2), s.bind(2, std::string("row 2"));
                                s.step();
                                s.reset();
                            } else if (kind == 3) {
                                s.exec("begin immediate;");
                                s.exec(ins(2));
                                s.exec("commit;");
                            } else
                                s.exec(ins(2));
                            slept = before - coro::world()->free_sleeps;
                        } catch (std::exception &e) {
                            bad = e.what();
                        }
                    }};
            },
            [&](bool stuck, std::string const &) {
                if (stuck) bad = "stuck";
                return false; // the first order only: the holder goes first
            },
            0);
        auto &r = mc::R();
        r.evaluations++, r.states++, r.traces++;
        mc::outcome(label + (slept ? " waited" : ""));
        if (bad.empty() && slept < n) bad = mc::cat("did not wait as often as arranged: ", slept);
        if (!bad.empty()) mc::violation("a statement that has to wait fails", bad);
    });
    mc::sample("connections T | RW, preemptions 3"), mc::sample("wait of 20000 attempts: begin exclusive; commit; kind 2");
    return mc::finish();
}
