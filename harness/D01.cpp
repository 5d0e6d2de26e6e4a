// D01: all operation sequences on a prepared statement up to a depth, compared step by step with a
// reference model; all result sizes for iteration; all byte values for bound texts.
#include "SQLite.hpp"
#include "mc.hpp"
#include <limits>

struct Row {
    int id;
    std::string txt;
    double num;
    bool operator==(Row const &o) const { return id == o.id && txt == o.txt && num == o.num; }
};
static std::string rowtext(int i) { return mc::cat("row'", i, "\"; --"); }
static Row rowval(int i) { return {i, rowtext(i), i + .1}; }
static std::string show(Row const &r) { return mc::cat("(", r.id, ",", r.txt, ",", r.num, ")"); }
static std::string show(std::vector<Row> const &v) {
    std::string s = "[";
    for (auto &r : v) s += show(r);
    return s + "]";
}
// fill with the C interface: independent of the code under test
static sqlite3 *raw(sqlite::handle &h) { return h; }
static void fill(sqlite3 *db, int n) {
    sqlite3_exec(db, "create table t(id int, txt text, num real, unique(id));", nullptr, nullptr, nullptr);
    for (int i = 1; i <= n; ++i) {
        sqlite3_stmt *s;
        sqlite3_prepare_v2(db, "insert into t values(?,?,?)", -1, &s, nullptr);
        auto t = rowtext(i);
        sqlite3_bind_int(s, 1, i);
        sqlite3_bind_text(s, 2, t.c_str(), t.size(), SQLITE_TRANSIENT);
        sqlite3_bind_double(s, 3, i + .1);
        sqlite3_step(s);
        sqlite3_finalize(s);
    }
}
static std::vector<Row> content(sqlite3 *db) {
    std::vector<Row> v;
    sqlite3_stmt *s;
    if (sqlite3_prepare_v2(db, "select id,txt,num from t order by id", -1, &s, nullptr) != SQLITE_OK) return v;
    while (sqlite3_step(s) == SQLITE_ROW)
        v.push_back({sqlite3_column_int(s, 0),
                     std::string(static_cast<const char *>(sqlite3_column_blob(s, 1)), sqlite3_column_bytes(s, 1)), sqlite3_column_double(s, 2)});
    sqlite3_finalize(s);
    return v;
}

// --- the model of a statement ----------------------------------------------------------------
enum Q { SEL_ALL, SEL_GE, INS, BAD, NQ };
static const char *SQL[] = {"select id,txt,num from t order by id", "select id,txt,num from t where id>=?1 order by id desc",
                            "insert into t values(?1,?2,7.5)", "selec nonsense"};
struct Model {
    std::vector<Row> table; // ordered by id
    int text = -1;          // query text set: index, -1: none
    bool prepared = false;  // the current text is prepared
    int q = -1;             // compiled query
    int b1 = 0;             // bound values (0: null)
    std::string b2;
    bool b1set = false, b2set = false;
    bool started = false, done = false, failed = false;
    std::vector<Row> res;
    size_t pos = 0;
    bool writer = false; // compiled query modifies
};
enum Op { SET0, SET1, SET2, SETBAD, PREPARE, STEP, RESET, BIND1, BIND3, BINDT, ITER, ITER1, EXECI, EXECBAD, SETSS, NOP };
static const char *ON[] = {"set(all)", "set(ge?)", "set(ins?)", "set(bad)", "prepare", "step", "reset", "bind(1,1)", "bind(1,9)", "bind(2,txt)",
                           "iterate", "iterate-one", "exec(ins)", "exec(bad)", "set(stream all)"};
static const std::string TXT = "it's \"x\"; \n\x01\xff";

// Perform one step in the model: 1 row, 0 done, -1 error
static int mstep(Model &m) {
    if (!m.prepared || m.q < 0) return -1;
    if (m.done) return -1;
    if (!m.started) {
        m.started = true;
        m.pos = 0;
        m.res.clear();
        if (m.q == SEL_ALL) m.res = m.table;
        if (m.q == SEL_GE) {
            if (m.b1set)
                for (size_t i = m.table.size(); i-- > 0;)
                    if (m.table[i].id >= m.b1) m.res.push_back(m.table[i]);
        }
        if (m.q == INS) {
            for (auto &r : m.table)
                if (m.b1set && r.id == m.b1) {
                    m.failed = true;
                    m.done = true;
                    return -1;
                }
            Row r{m.b1set ? m.b1 : -1000, m.b2set ? m.b2 : "", 7.5};
            size_t at = 0;
            while (at < m.table.size() && m.table[at].id < r.id) ++at;
            m.table.insert(m.table.begin() + at, r);
        }
    }
    if (m.pos < m.res.size()) {
        ++m.pos;
        return 1;
    }
    m.done = true;
    return 0;
}

static bool applicable(Model const &m, int op) {
    switch (op) {
    // inserting unbound values is uninteresting: null ids and texts
    case STEP:
    case ITER:
    case ITER1: return !(m.prepared && m.q == INS && !(m.b1set && m.b2set) && !m.started);
    // the engine's own rules for binding to a missing or running statement are not this library's
    case BIND1:
    case BIND3: return m.q == SEL_GE || m.q == INS ? !m.started : m.q < 0;
    case BINDT: return m.q == INS ? !m.started : m.q < 0;
    // writing a table while a query on the same table is under way is the engine's business
    case EXECI: return !(m.started && !m.done);
    case RESET: return !m.failed;
    case PREPARE: return true;
    }
    return true;
}

static bool run_seq(std::vector<int> const &seq, int rows) {
    sqlite::handle db(":memory:");
    fill(raw(db), rows);
    auto &r = mc::R();
    Model m;
    for (int i = 1; i <= rows; ++i) m.table.push_back(rowval(i));
    std::string lvalue = TXT;
    sqlite::statement st(db);
    std::string what;
    auto getrow = [&] { return Row{st.get<int>(0), st.get<std::string>(1), st.get<double>(2)}; };
    auto rowok = [&](const char *by) {
        Row got = getrow();
        Row const &want = m.res[m.pos - 1];
        if (!(got == want)) what = mc::cat(by, " delivers the wrong row; ", show(got), " instead of ", show(want));
    };
    int execs = 0;
    for (size_t i = 0; i < seq.size() && what.empty(); ++i) {
        int op = seq[i];
        if (!applicable(m, op)) return false;
        ++r.transitions;
        bool threw = false, want_throw = false;
        std::string emsg;
        try {
            switch (op) {
            case SET0:
            case SET1:
            case SET2:
            case SETBAD:
                m.text = op - SET0;
                m.prepared = false;
                st.set(SQL[m.text]);
                break;
            case SETSS: {
                m.text = SEL_ALL;
                m.prepared = false;
                std::stringstream ss;
                ss << SQL[SEL_ALL];
                st.set(ss);
                break;
            }
            case PREPARE:
                // the previous compiled statement ends
                m.q = -1;
                m.started = m.done = m.failed = m.b1set = m.b2set = false;
                want_throw = m.text == BAD;
                if (m.text == -1) want_throw = false;
                if (!want_throw && m.text >= 0) {
                    m.prepared = true;
                    m.q = m.text;
                }
                if (m.text == -1) return false; // empty text: the engine's business
                if (m.text == 100) {            // text left by exec
                    want_throw = false;
                    return false;
                }
                st.prepare();
                break;
            case STEP: {
                int w = mstep(m);
                want_throw = w < 0;
                bool got = st.step();
                if (want_throw) break;
                if (got != (w == 1)) what = mc::cat("step reports ", got ? "a row" : "the end", " instead of ", w == 1 ? "a row" : "the end");
                else if (got) rowok("step");
                break;
            }
            case RESET:
                m.started = m.done = false;
                st.reset();
                break;
            case BIND1:
            case BIND3:
                want_throw = m.q < 0;
                if (!want_throw) {
                    m.b1 = op == BIND1 ? 1 : 9;
                    m.b1set = true;
                }
                st.bind(1, op == BIND1 ? 1 : 9);
                break;
            case BINDT:
                want_throw = m.q < 0;
                if (!want_throw) {
                    m.b2 = TXT;
                    m.b2set = true;
                }
                if (i % 2) st.bind(2, lvalue);
                else st.bind(2, std::string(TXT));
                break;
            case ITER:
            case ITER1: {
                std::vector<Row> want, got;
                int w = 0;
                while ((w = mstep(m)) == 1) {
                    want.push_back(m.res[m.pos - 1]);
                    if (op == ITER1) break;
                }
                want_throw = w < 0;
                int guard = 0;
                for (auto &row : st) {
                    (void)row;
                    got.push_back(getrow());
                    if (op == ITER1) break;
                    if (++guard > 100) break;
                }
                if (!want_throw && !(got == want)) what = mc::cat("iteration delivers the wrong rows; ", show(got), " instead of ", show(want));
                break;
            }
            case EXECI: {
                int id = 50 + execs++;
                m.text = 100;
                m.prepared = false;
                m.table.push_back({id, "e'", 1.5});
                st.exec(mc::cat("insert into t values(", id, ",'e''',1.5);"));
                break;
            }
            case EXECBAD:
                m.text = 100;
                m.prepared = false;
                want_throw = true;
                st.exec("insert nonsense");
                break;
            }
        } catch (std::exception &e) {
            threw = true;
            emsg = e.what();
        }
        if (what.empty() && threw != want_throw)
            what = threw ? mc::cat(ON[op], " fails; ", emsg) : mc::cat(ON[op], " succeeds although it has to fail; ");
        // ids above 50 are appended behind 9: keep the model table sorted
        std::sort(m.table.begin(), m.table.end(), [](Row const &a, Row const &b) { return a.id < b.id; });
    }
    ++r.evaluations;
    ++r.traces;
    if (what.empty()) {
        auto c = content(raw(db));
        if (!(c == m.table)) what = mc::cat("the table has the wrong content; ", show(c), " instead of ", show(m.table));
    }
    mc::outcome(mc::cat(m.text, m.prepared, m.q, m.started, m.done, m.pos, m.table.size(), m.b1, m.b2set, m.failed, rows));
    if (!what.empty()) {
        auto cut = what.find(';');
        mc::violation(what.substr(0, cut), what);
    }
    return true;
}

int main() {
    int depth = mc::tier(5, 6);
    mc::info("sequence_depth", depth);
    // (1) operation sequences
    const int J = NOP * NOP;
    mc::parallel(J * 4, [&](int job) {
        int rows = job / J, a = job % J / NOP, b = job % NOP;
        auto name = [&](std::vector<int> const &s) {
            std::string n = mc::cat(rows, " rows: ");
            for (auto o : s) n += std::string(ON[o]) + " ; ";
            return n;
        };
        std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &s) {
            if (static_cast<int>(s.size()) == depth || !mc::R().violations.empty()) {
                return;
            }
            for (int o = 0; o < NOP; ++o) {
                s.push_back(o);
                if (!mc::R().has_only || mc::R().only.compare(0, name(s).size(), name(s)) == 0) {
                    mc::R().label = name(s);
                    if (mc::R().cur) snprintf(mc::R().cur, 8000, "%s", mc::R().label.c_str());
                    ++mc::R().states;
                    if (run_seq(s, rows)) rec(s);
                }
                s.pop_back();
            }
        };
        std::vector<int> s{a};
        if (mc::R().has_only && mc::R().only.compare(0, name(s).size(), name(s)) != 0) return;
        mc::R().label = name(s);
        if (b == 0) run_seq(s, rows);
        s.push_back(b);
        if (mc::R().has_only && mc::R().only.compare(0, name(s).size(), name(s)) != 0) return;
        mc::R().label = name(s);
        ++mc::R().states;
        if (run_seq(s, rows)) rec(s);
    });
    mc::sample("3 rows: set(all) ; prepare ; iterate-one ; iterate ; step");
    mc::sample("2 rows: set(ge?) ; prepare ; bind(1,1) ; step ; prepare");
    // (2) result sizes and the position at which a loop is left
    for (int n = 0; n <= mc::tier(12, 40); ++n)
        for (int leave = 0; leave <= n; ++leave)
            for (int resume = 0; resume < 3; ++resume) {
                if (!mc::enter(mc::cat("iterate ", n, " rows, leave after ", leave, ", resume by ", resume))) continue;
                sqlite::handle db(":memory:");
                fill(raw(db), n);
                std::vector<Row> got, want;
                for (int i = 1; i <= n; ++i) want.push_back(rowval(i));
                try {
                    sqlite::statement st(db, SQL[SEL_ALL]);
                    st.prepare();
                    auto row = [](sqlite::statement &s) { return Row{s.get<int>(0), s.get<std::string>(1), s.get<double>(2)}; };
                    if (leave > 0)
                        for (auto &s : st) {
                            got.push_back(row(s));
                            if (static_cast<int>(got.size()) >= leave || got.size() > 100) break;
                        }
                    if (resume == 0)
                        while (st.step()) got.push_back(row(st));
                    if (resume == 1)
                        for (auto &s : st) {
                            got.push_back(row(s));
                            if (got.size() > 100) break;
                        }
                    if (resume == 2) { // start over
                        st.reset();
                        got.clear();
                        auto it = st.begin(), end = st.end();
                        for (; it != end && got.size() < 100; ++it) got.push_back(row(*it));
                    }
                } catch (std::exception &e) {
                    mc::violation("a loop over the rows fails", e.what());
                }
                ++mc::R().evaluations;
                ++mc::R().traces;
                ++mc::R().states;
                mc::R().transitions += n + 1;
                mc::outcome(mc::cat("it", n, leave, resume));
                if (got != want) mc::violation("a loop delivers the wrong rows", mc::cat(show(got), " instead of ", show(want)));
            }
    // (3) bound and read values
    std::vector<std::string> texts = {"", "'", "''", "\"", "a'b\"c", ";", "--", "?1", "%", std::string(5000, 'x'), "\xc3\xa4\xe2\x82\xac",
                                      std::string("a\0b", 3), std::string("\0", 1), "NULL", " ", "\t\n", "1e5", "007"};
    for (int c = 1; c < 256; ++c) texts.push_back(std::string(1, static_cast<char>(c)) + "x");
    for (size_t i = 0; i < texts.size(); ++i)
        for (int how = 0; how < 2; ++how) {
            if (!mc::enter(mc::cat("text ", i, how ? " bound as lvalue" : " bound as rvalue"))) continue;
            sqlite::handle db(":memory:");
            fill(raw(db), 0);
            sqlite::statement st(db, "insert into t values(1,?1,0)");
            std::string got;
            bool ok = true;
            try {
                st.prepare();
                if (how) st.bind(1, texts[i]);
                else st.bind(1, std::string(texts[i]));
                st.step();
                auto c = content(raw(db));
                if (c.size() != 1 || c[0].txt != texts[i]) ok = false;
                st.reset();
                st.set("select txt from t");
                st.prepare();
                st.step();
                got = st.get<std::string>(0);
            } catch (std::exception &e) {
                mc::violation("binding or reading a text fails", e.what());
            }
            ++mc::R().evaluations;
            ++mc::R().traces;
            ++mc::R().states;
            mc::R().transitions += 2;
            if (!ok) mc::violation("a bound text arrives changed", texts[i]);
            if (got != texts[i]) mc::violation("a text is read back changed", mc::cat("'", got, "' instead of '", texts[i], "'"));
        }
    std::vector<int> ints = {0, 1, -1, 255, 65536, -65536, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
    std::vector<double> dbls = {0, -0., .1, 1. / 3, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123456789,
                                4503599627370497.5, 9007199254740993., INFINITY, -INFINITY};
    for (int e = -60; e <= 60; ++e) dbls.push_back(std::ldexp(1.0000000000000002, e));
    for (size_t i = 0; i < ints.size() + dbls.size(); ++i) {
        if (!mc::enter(mc::cat("number ", i))) continue;
        sqlite::handle db(":memory:");
        fill(raw(db), 0);
        bool isint = i < ints.size();
        try {
            sqlite::statement st(db, isint ? "insert into t values(?1,'',0)" : "insert into t values(1,'',?1)");
            st.prepare();
            if (isint) st.bind(1, ints[i]);
            else st.bind(1, dbls[i - ints.size()]);
            st.step();
            st.reset();
            st.set("select id,num from t");
            st.prepare();
            st.step();
            if (isint && st.get<int>(0) != ints[i]) mc::violation("an integer is read back changed", mc::cat(st.get<int>(0), " instead of ", ints[i]));
            if (!isint && st.get<double>(1) != dbls[i - ints.size()])
                mc::violation("a number is read back changed", mc::cat(st.get<double>(1), " instead of ", dbls[i - ints.size()]));
        } catch (std::exception &e) {
            mc::violation("binding or reading a number fails", e.what());
        }
        ++mc::R().evaluations;
        ++mc::R().traces;
        ++mc::R().states;
        mc::R().transitions += 2;
    }
    // null columns read as zero or an empty text
    if (mc::enter("null column")) {
        sqlite::handle db(":memory:");
        sqlite::statement st(db, "select null,null,null");
        try {
            st.prepare();
            st.step();
            if (st.get<int>(0) != 0 || st.get<double>(1) != 0 || !st.get<std::string>(2).empty()) mc::violation("a null column reads as something else");
        } catch (std::exception &e) {
            mc::violation("reading a null column fails", e.what());
        }
        ++mc::R().evaluations;
    }
    return mc::finish();
}
