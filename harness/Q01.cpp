// Q01: all histories of quantum-defect lookups up to a depth (process forked at every node of the
// history tree), each result compared with an independent evaluation of the database's rows; plus a
// scan of the embedded table.
#include "QuantumDefect.hpp"
#include "dbfiles.hpp"
#include "mc.hpp"
#include <memory>
#include <sqlite3.h>

struct Rows {
    bool ok = true;
    Db d;
};
static Rows read_rows(std::string const &sql) {
    Rows r;
    sqlite3 *db;
    sqlite3_open(":memory:", &db);
    if (sqlite3_exec(db, sql.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK) r.ok = false;
    auto q = [&](const char *s, std::function<void(sqlite3_stmt *)> f) {
        sqlite3_stmt *st = nullptr;
        if (sqlite3_prepare_v2(db, s, -1, &st, nullptr) != SQLITE_OK) {
            r.ok = false;
            return;
        }
        while (sqlite3_step(st) == SQLITE_ROW) f(st);
        sqlite3_finalize(st);
    };
    auto D = [](sqlite3_stmt *s, int i) { return sqlite3_column_double(s, i); };
    auto T = [](sqlite3_stmt *s, int i) { return std::string(reinterpret_cast<const char *>(sqlite3_column_text(s, i))); };
    q("select element,L,ac,Z,a1,a2,a3,a4,rc from model_potential order by rowid", [&](sqlite3_stmt *s) {
        r.d.mp.push_back({T(s, 0), sqlite3_column_int(s, 1), D(s, 2), sqlite3_column_int(s, 3), D(s, 4), D(s, 5), D(s, 6), D(s, 7), D(s, 8)});
    });
    q("select element,L,J,d0,d2,d4,d6,d8,Ry from rydberg_ritz order by rowid", [&](sqlite3_stmt *s) {
        r.d.rr.push_back({T(s, 0), sqlite3_column_int(s, 1), D(s, 2), D(s, 3), D(s, 4), D(s, 5), D(s, 6), D(s, 7), D(s, 8)});
    });
    sqlite3_close(db);
    return r;
}

struct Val {
    bool ok = false;
    double ac, a1, a2, a3, a4, rc, nstar, energy;
    int Z;
};
static Val eval(Rows const &r, std::string const &sp, int n, int l, double j) {
    Val v;
    if (!r.ok) return v;
    int ml = -1, rl = -1;
    for (auto &m : r.d.mp)
        if (m.el == sp) ml = std::max(ml, m.L);
    for (auto &x : r.d.rr)
        if (x.el == sp) rl = std::max(rl, x.L);
    if (ml < 0 || rl < 0) return v;
    ml = std::min(ml, l);
    rl = std::min(rl, l);
    double mj = -1;
    for (auto &x : r.d.rr)
        if (x.el == sp && x.L == rl) mj = std::max(mj, x.J);
    double jj = std::min(j, mj);
    const MP *m = nullptr;
    const RR *x = nullptr;
    for (auto &y : r.d.mp)
        if (!m && y.el == sp && y.L == ml) m = &y;
    for (auto &y : r.d.rr)
        if (!x && y.el == sp && y.L == rl && y.J == jj) x = &y;
    if (!m || !x) return v;
    v.ok = true;
    v.ac = m->ac, v.Z = m->Z, v.a1 = m->a1, v.a2 = m->a2, v.a3 = m->a3, v.a4 = m->a4, v.rc = m->rc;
    double d = n - x->d0;
    v.nstar = n - x->d0 - x->d2 / (d * d) - x->d4 / (d * d * d * d) - x->d6 / std::pow(d, 6) - x->d8 / std::pow(d, 8);
    v.energy = -0.5 * (x->Ry / 109737.31568525) / (v.nstar * v.nstar) * 6579683.920729;
    return v;
}

struct Look {
    std::string sp;
    int n, l;
    double j;
    int db; // -1: embedded by default constructor argument, -2: embedded by empty name, else file
    std::string name() const {
        return mc::cat(db == -1 ? "E" : db == -2 ? "E'" : mc::cat("db", db), ":", sp, n, "l", l, "j", j);
    }
};
static std::string g_dir;
static std::vector<Rows> g_rows;
static Rows g_emb;
static std::string path(int db) { return mc::cat(g_dir, "/db", db, ".sql"); }

static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
static std::string compare(Val const &v, QuantumDefect const &q, Look const &L) {
    if (!v.ok) return mc::cat("a lookup that the database cannot answer succeeded (energy ", q.energy, ")");
    if (q.species != L.sp || q.n != L.n || q.l != L.l || q.j != L.j) return "the result names another state";
    if (!near(v.nstar, q.nstar)) return mc::cat("effective quantum number ", q.nstar, " instead of ", v.nstar);
    if (!near(v.energy, q.energy)) return mc::cat("energy ", q.energy, " instead of ", v.energy);
    if (v.ac != q.ac || v.Z != q.Z || v.a1 != q.a1 || v.a2 != q.a2 || v.a3 != q.a3 || v.a4 != q.a4 || v.rc != q.rc)
        return mc::cat("model potential ", q.ac, " ", q.Z, " ", q.a1, " ", q.a2, " ", q.a3, " ", q.a4, " ", q.rc, " instead of ", v.ac, " ", v.Z,
                       " ", v.a1, " ", v.a2, " ", v.a3, " ", v.a4, " ", v.rc);
    return "";
}
// the returned object is constructed in place: no copy is involved
static QuantumDefect make(Look const &L) {
    if (L.db == -1) return QuantumDefect(L.sp, L.n, L.l, L.j);
    return QuantumDefect(L.sp, L.n, L.l, L.j, L.db == -2 ? std::string() : path(L.db));
}
static Val expect(Look const &L) { return eval(L.db < 0 ? g_emb : g_rows[L.db], L.sp, L.n, L.l, L.j); }

struct Held {
    Look L;
    std::unique_ptr<QuantumDefect> q;
};
static std::vector<Held> g_held;

// one step of a history in the current process
static void step(Look const &L) {
    auto &r = mc::R();
    ++r.transitions;
    ++r.evaluations;
    std::string what;
    Val v = expect(L);
    try {
        std::unique_ptr<QuantumDefect> q(new QuantumDefect(make(L)));
        what = compare(v, *q, L);
        // a copy outlives its original, whose storage is overwritten
        struct Buf {
            alignas(QuantumDefect) char b[sizeof(QuantumDefect)];
        };
        auto *buf = new Buf;
        auto *orig = new (buf->b) QuantumDefect(make(L));
        auto copy = std::make_unique<QuantumDefect>(*orig);
        orig->~QuantumDefect();
        memset(static_cast<void *>(buf->b), 0x5a, sizeof buf->b);
        auto w = compare(v, *copy, L);
        if (what.empty() && !w.empty()) what = "a copy changed when its original was destroyed: " + w;
        delete buf;
        if (what.empty()) g_held.push_back({L, std::move(q)});
        mc::outcome(mc::cat(L.name(), v.energy));
    } catch (std::exception &e) {
        if (v.ok) what = mc::cat("a lookup that the database answers failed: ", e.what());
        mc::outcome(L.name() + "error");
    }
    if (what.empty())
        for (auto &h : g_held) {
            auto w = compare(expect(h.L), *h.q, h.L);
            if (!w.empty()) what = mc::cat("an earlier result (", h.L.name(), ") changed: ", w);
        }
    if (what.empty() && (L.db == -2 || L.db >= 0)) {
        try {
            double e = energy_level(L.sp, L.n, L.l, L.j, L.db == -2 ? "" : path(L.db));
            double s = nstar(L.sp, L.n, L.l, L.j, L.db == -2 ? "" : path(L.db));
            if (!v.ok) what = "a lookup that the database cannot answer succeeded when repeated";
            else if (!near(e, v.energy) || !near(s, v.nstar)) what = mc::cat("energy_level/nstar give ", e, ", ", s, " instead of ", v.energy, ", ", v.nstar);
        } catch (std::exception &e) {
            if (v.ok) what = mc::cat("a repeated lookup failed: ", e.what());
        }
    }
    if (!what.empty()) {
        auto cut = what.find(" (");
        mc::violation(what.substr(0, std::min<size_t>(60, cut)), what);
    }
}

static std::vector<Look> A;

int main() {
    mc::Scratch dir;
    g_dir = dir.path;
    const char *repo = getenv("VERIF_REPO");
    {
        std::ifstream f(std::string(repo ? repo : "/repo") + "/pairinteraction/databases/quantum_defects.sql");
        std::stringstream b;
        b << f.rdbuf();
        g_emb = read_rows(b.str());
    }
    std::vector<std::string> sql = {
        db_sql(user_db(0)), db_sql(user_db(1)), "" /*2: missing file*/, "" /*3: empty file*/,
        db_sql(user_db(2), true, false) /*4: no model potentials*/, db_sql(user_db(3), true, true, false) /*5: plain CREATE*/,
        db_sql(user_db(0)).substr(0, 300) + "';garbage" /*6: breaks off inside a transaction*/,
    };
    for (size_t i = 0; i < sql.size(); ++i) {
        if (i != 2) write_file(path(i), sql[i]);
        g_rows.push_back(read_rows(sql[i]));
    }
    for (int db : {-1, 0, 1, 2, 3, 4, 5, 6}) {
        A.push_back({"Rb", 50, 0, .5, db});
        if (db == -1 || db == 0 || db == 1) {
            A.push_back({"Xa", 50, 0, .5, db});
            A.push_back({"Rb", 50, 3, 3.5, db == -1 ? -2 : db});
        }
    }
    A.push_back({"Rb", 50, 1, .5, 5});
    A.push_back({"Rb", 50, 1, 1.5, 5});
    A.push_back({"Rb", 51, 0, .5, 0});
    int depth = mc::tier(3, 4);
    mc::info("history_depth", depth);
    mc::info("alphabet", static_cast<long long>(A.size()));
    // scan of the embedded table
    std::set<std::string> species;
    for (auto &m : g_emb.d.rr) species.insert(m.el);
    for (auto &s : species)
        for (int l = 0; l <= 7; ++l) {
            std::string lab = mc::cat("scan ", s, " l=", l);
            if (!mc::enter(lab)) continue;
            for (double j = std::max(0., l - 1.); j <= l + 1; j += .5)
                for (int n = std::max(l + 1, 6); n <= mc::tier(90, 250); n += (n < 20 ? 1 : 7)) {
                    Look L{s, n, l, j, -1};
                    ++mc::R().states;
                    step(L);
                    g_held.clear();
                }
        }
    mc::Tree t;
    for (auto &L : A) t.names.push_back(L.name());
    t.depth = depth;
    t.step = [&](int i, std::vector<int> const &) {
        step(A[i]);
        --mc::R().transitions;
        return true;
    };
    t.run();
    mc::sample(mc::cat("history: ", A[0].name(), " ; ", A[4].name(), " ; ", A[0].name()));
    mc::sample(mc::cat("history: ", A[3].name(), " ; ", A[9].name(), " ; ", A[1].name()));
    return mc::finish();
}
