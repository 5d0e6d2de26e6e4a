// K01: all histories (up to a depth) of requests, precalculations, setting changes, failing requests, loaded elements and
// archive round trips of one element cache, in memory and with a store on disk, against fresh caches.
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "dbfiles.hpp"
#include "mc.hpp"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <map>
#include <sys/mman.h>

static std::string dir;
static Db altered(int i) { // rubidium-like databases; number 1 also knows the species Xa
    Db d;
    for (int l = 0; l <= 2; ++l) {
        for (auto *sp : {"Rb", "Xa"}) {
            if (sp[0] == 'X' && i == 0) continue;
            d.mp.push_back({sp, l, 9.07 + i, 37, 3.7 + .1 * i, 1.6, -9.9, 1.95 - .05 * l, 1.66});
            for (int k = 0; k < (l ? 2 : 1); ++k)
                d.rr.push_back({sp, l, l ? l - .5 + k : .5, 3.1 + .03 * i - .6 * l - .01 * k, .2, 0, 0, 0, 109736.6});
        }
    }
    return d;
}
static const double LOADED = 3.25;

struct Settings {
    int method = 0;
    std::string db;
    std::set<int> loaded; // methods with loaded elements
};
struct Request {
    std::string name;
    std::function<double(MatrixElementCache &)> get;
    int loadable = 0; // 1: dipole of the loaded pair, 2: its radial element
};
static std::vector<Request> requests;
static std::vector<std::string> dbs;
struct Answer {
    bool ok = false;
    double v = 0;
};
static Answer ask(MatrixElementCache &c, Request const &r) {
    try {
        return {true, r.get(c)};
    } catch (std::exception &) {
        return {};
    }
}
static std::map<std::string, Answer> table;
static std::string key(int m, std::string const &db, int r) { return mc::cat(m, "|", db, "|", r); }
static Answer expected(Settings const &s, int r) {
    Answer a = table.at(key(s.method, s.db, r));
    if (requests[r].loadable && s.loaded.count(s.method)) {
        // reduced element LOADED; the requested states have <1/2 1/2|C_0|1/2 1/2> = -1/3 or the other sign
        double dip = LOADED / std::sqrt(6.) * au2um;
        a.ok = true;
        a.v = requests[r].loadable == 1 ? dip * elementary_charge : -3 * dip;
    }
    return a;
}

struct World {
    std::unique_ptr<MatrixElementCache> c;
    Settings s;
    std::string store; // directory of the persistent store, or empty
    World(std::string st) : store(std::move(st)) { reopen(); }
    void reopen() {
        c.reset();
        c.reset(store.empty() ? new MatrixElementCache() : new MatrixElementCache(store));
        s = Settings();
    }
};
struct Letter {
    std::string name;
    int request = -1;
    std::function<void(World &)> act;
};
static std::vector<Letter> letters;

static bool apply(Letter const &L, World &w) {
    if (L.request < 0) {
        L.act(w);
        return true;
    }
    Answer e = expected(w.s, L.request), a = ask(*w.c, requests[L.request]);
    mc::R().evaluations++;
    if (a.ok != e.ok) {
        mc::violation(e.ok ? "request fails" : "request succeeds", L.name);
        return false;
    }
    if (a.ok && !(std::abs(a.v - e.v) <= 3e-7 * std::abs(e.v))) {
        mc::violation("wrong element", mc::cat(L.name, ": ", a.v, " instead of ", e.v));
        return false;
    }
    mc::outcome(mc::cat(L.name, a.ok, a.v));
    return true;
}
template <class In, class Out> static void restore(World &w, bool used) {
    std::stringstream ss;
    {
        Out a(ss);
        a(cereal::make_nvp("c", *w.c));
    }
    std::unique_ptr<MatrixElementCache> n(new MatrixElementCache());
    if (used) {
        n->setMethod(WHITTAKER);
        n->setDefectDB(dbs[2]);
        ask(*n, requests[0]);
        ask(*n, requests[6]);
    }
    In b(ss);
    b(cereal::make_nvp("c", *n));
    w.c = std::move(n);
}

int main() {
    mc::Scratch scratch;
    dir = scratch.path;
    write_file(dir + "/u0.sql", db_sql(altered(0)));
    write_file(dir + "/u1.sql", db_sql(altered(1)));
    dbs = {"", dir + "/u0.sql", dir + "/u1.sql", dir + "/missing.sql"};
    write_file(dir + "/dipole.csv",
               mc::cat("\"n1\";\"l1\";\"j1\";\"n2\";\"l2\";\"j2\";\"value\";\"comment\"\n7;0;0.5;9;1;0.5;1.5;\"x\"\n\n7;0;0.5;9\n7;0;x;9;1;0.5;1.5\n"
                       "8;0;0.5;8;1;0.5;",
                       LOADED, ";\"y\"\n99999999999999;0;0.5;9;1;0.5;1.5;\"x\"\n"));
    StateOne s1("Rb", 8, 0, .5, .5), p1("Rb", 8, 1, .5, .5), p3("Rb", 8, 1, 1.5, .5), d3("Rb", 8, 2, 1.5, .5), d5("Rb", 8, 2, 2.5, 1.5), s9("Rb", 9, 0, .5, .5);
    StateOne t1("Sr3", 15, 1, 1, 1), t2("Sr3", 15, 2, 2, 1), x1("Xx", 8, 0, .5, .5), x2("Xx", 8, 1, .5, .5), a1("Xa", 8, 0, .5, .5), a2("Xa", 8, 1, 1.5, -.5);
    requests = {
        {"dipole(S,P1)", [=](MatrixElementCache &c) { return c.getElectricDipole(s1, p1); }, 1},
        {"dipole(P1,S)", [=](MatrixElementCache &c) { return c.getElectricDipole(p1, s1); }, 1},
        {"radial(P1,S)", [=](MatrixElementCache &c) { return c.getRadial(p1, s1, 1); }, 2},
        {"dipole(P3,S9)", [=](MatrixElementCache &c) { return c.getElectricDipole(p3, s9); }},
        {"quadrupole(D5,S)", [=](MatrixElementCache &c) { return c.getElectricMultipole(d5, StateOne("Rb", 8, 0, .5, -.5), 2); }},
        {"magnetic(P1,P3)", [=](MatrixElementCache &c) { return c.getMagneticDipole(p1, p3); }},
        {"diamagnetic(D3,D3)", [=](MatrixElementCache &c) { return c.getDiamagnetism(d3, d3, 0); }},
        {"dipole(Sr)", [=](MatrixElementCache &c) { return c.getElectricDipole(t2, t1); }},
        {"magnetic(Sr)", [=](MatrixElementCache &c) { return c.getMagneticDipole(t2, t2); }},
        {"dipole(Xx)", [=](MatrixElementCache &c) { return c.getElectricDipole(x1, x2); }},
        {"dipole(Xa)", [=](MatrixElementCache &c) { return c.getElectricDipole(a1, a2); }},
        {"dipole(Rb,Xx)", [=](MatrixElementCache &c) { return c.getElectricDipole(s1, x2); }},
    };
    // reference values, each from a cache of its own
    for (int m = 0; m < 2; ++m)
        for (auto &d : dbs)
            for (size_t r = 0; r < requests.size(); ++r) {
                auto f = mc::isolated([&] {
                    MatrixElementCache c;
                    c.setMethod(m ? WHITTAKER : NUMEROV);
                    c.setDefectDB(d);
                    Answer a = ask(c, requests[r]);
                    std::ostringstream o;
                    o.precision(17);
                    o << a.ok << " " << a.v;
                    return o.str();
                });
                std::istringstream i(f.out);
                Answer a;
                i >> a.ok >> a.v;
                table[key(m, d, r)] = a;
                if (mc::enter(mc::cat("fresh ", requests[r].name, " ", m, " ", d.substr(dir.size() < d.size() ? dir.size() : 0)))) {
                    bool want = r == 9 || r == 11 ? false : d == dbs[3] ? false : r == 10 ? d == dbs[2] : (r == 7 || r == 8) ? d.empty() : true;
                    if (a.ok != want) mc::violation(want ? "fresh request fails" : "fresh request succeeds");
                    if (a.ok && (a.v == 0 || !std::isfinite(a.v))) mc::violation("fresh value is zero", mc::cat(a.v));
                }
            }
    std::vector<StateOne> rb{s1, p1, p3, d3, d5}, bad{x1, s1, x2, p1, p3}, mixed{t1, s1, t2, p1, StateOne("ghost"), p3, a1};
    auto add = [&](std::string n, std::function<void(World &)> f) { letters.push_back({n, -1, f}); };
    for (size_t r = 0; r < requests.size(); ++r) letters.push_back({requests[r].name, (int)r, nullptr});
    size_t gets = letters.size();
    add("precalculate(Rb)", [=](World &w) { w.c->precalculateMultipole(rb, 1), w.c->precalculateMultipole(rb, 2); });
    add("precalculate(Xx,Rb)", [=](World &w) {
        w.c->precalculateElectricMomentum(bad, 0), w.c->precalculateMagneticMomentum(bad, 0), w.c->precalculateRadial(bad, 1);
    });
    add("precalculate(mixed)", [=](World &w) {
        w.c->precalculateMultipole(mixed, 1), w.c->precalculateMagneticMomentum(mixed, 0), w.c->precalculateDiamagnetism(mixed, 0, 0);
        w.c->precalculateRadial(mixed, 1);
    });
    add("numerov", [](World &w) { w.c->setMethod(NUMEROV), w.s.method = 0; });
    add("whittaker", [](World &w) { w.c->setMethod(WHITTAKER), w.s.method = 1; });
    for (int i = 0; i < 4; ++i)
        add(std::vector<std::string>{"embedded", "user0", "user1", "nofile"}[i], [i](World &w) { w.c->setDefectDB(dbs[i]), w.s.db = dbs[i]; });
    add("load", [](World &w) { w.c->loadElectricDipoleDB(dir + "/dipole.csv", "Rb"), w.s.loaded.insert(w.s.method); });
    add("archive", [](World &w) { restore<cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(w, false); });
    add("archive over another", [](World &w) { restore<cereal::JSONInputArchive, cereal::JSONOutputArchive>(w, true); });
    size_t common = letters.size();
    add("new object", [](World &w) { w.reopen(); });
    add("fork", nullptr); // the rest of the history happens in a forked process
    // the warnings of loadElectricDipoleDB are expected
    struct Mute : std::streambuf {
        int overflow(int c) override { return c; }
    } mute;
    auto *old = std::cerr.rdbuf(&mute);
    // 1. in memory: all letters, and fewer letters one deeper
    for (int round = 0; round < 2; ++round) {
        World w("");
        mc::Tree t;
        t.depth = round + mc::tier(3, 4);
        t.prefix = "memory: ";
        std::vector<int> some;
        for (size_t i = 0; i < common; ++i)
            if (round == 0 || std::set<std::string>{"dipole(S,P1)", "radial(P1,S)", "magnetic(P1,P3)", "dipole(Sr)", "dipole(Xx)", "precalculate(Xx,Rb)",
                                                    "precalculate(mixed)", "numerov", "whittaker", "embedded", "user0", "load", "archive over another"}
                                  .count(letters[i].name))
                some.push_back(i);
        for (int i : some) t.names.push_back(letters[i].name);
        t.enabled = [&](int l, std::vector<int> const &h) { // the last operation is a request
            return h.size() + 1 < (size_t)t.depth || letters[some[l]].request >= 0;
        };
        t.step = [&](int l, std::vector<int> const &) { return apply(letters[some[l]], w); };
        t.run();
    }
    // 2. with a store, every history in a process of its own, from scratch
    {
        int depth = mc::tier(3, 4);
        std::vector<int> some{0, 2, 5, 7, 9};
        for (size_t i = gets; i < letters.size(); ++i) some.push_back(i);
        long total = 1;
        for (int i = 0; i < depth; ++i) total *= some.size();
        int jobs = some.size() * some.size();
        mc::parallel(jobs, [&](int job) {
            for (long rest = 0; rest < total / jobs; ++rest) {
                std::vector<int> h{some[job / some.size()], some[job % some.size()]};
                for (long r = rest, i = 2; i < depth; ++i, r /= some.size()) h.push_back(some[r % some.size()]);
                if (letters[h.back()].request < 0) continue;
                std::string label = "store: ";
                for (size_t i = 0; i < h.size(); ++i) label += (i ? " ; " : "") + letters[h[i]].name;
                if (!mc::enter(label)) continue;
                mc::in_child(
                    [&] {
                        mc::Scratch sc;
                        {
                            World w(sc.path);
                            std::function<void(size_t)> from = [&](size_t i) {
                                if (i == h.size()) return;
                                mc::R().transitions++;
                                if (letters[h[i]].name == "fork") {
                                    mc::in_child([&] { from(i + 1); });
                                } else if (apply(letters[h[i]], w)) {
                                    from(i + 1);
                                }
                            };
                            from(0);
                        }
                        mc::R().states++;
                        mc::R().traces++;
                    },
                    60);
            }
        });
    }
    // 3. every element after every other one: all elements of three species with every function, requested from one object in
    // orders in which each comes before and after each other; also through a store
    {
        struct Any {
            std::string sp;
            int fn;
            StateOne a, b;
        };
        std::vector<Any> every;
        for (auto *sp : {"Rb", "Sr1", "Sr3"}) {
            float s = sp[0] == 'R' ? .5f : sp[2] == '1' ? 0 : 1;
            std::vector<StateOne> st;
            for (int l = 0; l <= 2; ++l)
                for (float j = std::abs(l - s); j <= l + s; ++j)
                    for (float m : {-1.f, 0.f, 1.f})
                        if (float q = m + (s == .5f ? .5f : 0); std::abs(q) <= j && (l < 2 || m == 0)) st.push_back(StateOne(sp, 15, l, j, q));
            for (int fn = 0; fn < 8; ++fn)
                for (auto &a : st)
                    for (auto &b : st) every.push_back({sp, fn, a, b});
        }
        auto get = [](MatrixElementCache &c, Any const &r) {
            switch (r.fn) {
            case 0: return c.getElectricDipole(r.a, r.b);
            case 1: return c.getElectricMultipole(r.a, r.b, 2);
            case 2: return c.getElectricMultipole(r.a, r.b, 3, 1);
            case 3: return c.getDiamagnetism(r.a, r.b, 0);
            case 4: return c.getDiamagnetism(r.a, r.b, 2);
            case 5: return c.getMagneticDipole(r.a, r.b);
            case 6: return c.getRadial(r.a, r.b, 1);
            default: return c.getRadial(r.a, r.b, 2);
            }
        };
        int const N = every.size(), parts = 8;
        // reference: each request alone
        double *alone = (double *)mmap(nullptr, N * sizeof(double), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < N; ++i) alone[i] = NAN;
        mc::parallel(parts * 8, [&](int p) {
            for (int i = p; i < N; i += parts * 8) {
                MatrixElementCache c;
                alone[i] = get(c, every[i]);
            }
        });
        mc::info("elements requested after each other", (long long)N);
        int rotations = mc::tier(64, 1024);
        mc::parallel(rotations * 4, [&](int job) {
            int kind = job % 4, start = (long)(job / 4) * N / rotations;
            if (kind >= 2 && job / 4 % 16) return;
            static char const *const kinds[] = {"forwards", "backwards", "store, forwards then backwards", "store, backwards then forwards"};
            if (!mc::enter(mc::cat("all elements from ", start, ", ", kinds[kind]))) return;
            mc::Scratch sc;
            for (int round = 0; round < (kind < 2 ? 1 : 2); ++round) {
                std::unique_ptr<MatrixElementCache> c(kind < 2 ? new MatrixElementCache() : new MatrixElementCache(sc.path));
                std::vector<StateOne> warm;
                bool back = (kind + round) % 2;
                if (kind >= 2 && !round) // fill the store at once
                    for (auto &r : every)
                        if (r.sp == every[start].sp) warm.push_back(r.a);
                if (!warm.empty()) c->precalculateMultipole(warm, 1), c->precalculateMagneticMomentum(warm, 0), c->precalculateDiamagnetism(warm, 2, 0);
                for (int k = 0; k < N; ++k) {
                    int i = back ? ((start - k) % N + N) % N : (start + k) % N;
                    double v = get(*c, every[i]);
                    mc::R().evaluations++, mc::R().transitions++;
                    if (!(std::abs(v - alone[i]) <= 3e-7 * std::abs(alone[i]))) {
                        mc::violation("an element differs from the one requested alone",
                                      mc::cat("function ", every[i].fn, ", ", every[i].a.str(), " and ", every[i].b.str(), ": ", v, " instead of ", alone[i]));
                        return;
                    }
                }
                mc::R().states++;
            }
            mc::R().traces++;
        });
    }
    std::cerr.rdbuf(old);
    return mc::finish();
}
