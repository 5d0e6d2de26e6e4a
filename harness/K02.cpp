// K02: a persistent element store under (1) all histories of two cache objects on one directory, (2) every crash point
// (death before, in the middle of, or after each write call of the database engine), also twice in a row, and (3) every
// failing write call.
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "mc.hpp"
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <sqlite3.h>

// ---- the write calls of the database engine
enum Mode { NONE, BEFORE, TORN, AFTER, FAIL, FAIL_ON };
static Mode mode = NONE;
static long at = 0, seen = 0;
static int (*o_open)(const char *, int, int);
static ssize_t (*o_write)(int, const void *, size_t);
static ssize_t (*o_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*o_pwrite64)(int, const void *, size_t, off_t);
static int (*o_ftruncate)(int, off_t);
static int (*o_unlink)(const char *);
static void die() { _exit(77); }
// true: the call fails; the second part runs after the call
static bool gate() {
    if (mode == NONE) return false;
    ++seen;
    if (mode == FAIL && seen == at) return errno = ENOSPC, true;
    if (mode == FAIL_ON && seen >= at) return errno = ENOSPC, true;
    if (mode == BEFORE && seen == at) die();
    return false;
}
static void after() {
    if ((mode == AFTER || mode == TORN) && seen == at) die();
}
template <class F> static ssize_t put(size_t n, F f) {
    if (gate()) return -1;
    if (mode == TORN && seen == at) f(n / 2), die();
    ssize_t r = f(n);
    after();
    return r;
}
static ssize_t h_write(int fd, const void *b, size_t n) {
    return put(n, [&](size_t k) { return o_write(fd, b, k); });
}
static ssize_t h_pwrite(int fd, const void *b, size_t n, off_t o) {
    return put(n, [&](size_t k) { return o_pwrite(fd, b, k, o); });
}
static ssize_t h_pwrite64(int fd, const void *b, size_t n, off_t o) {
    return put(n, [&](size_t k) { return o_pwrite64(fd, b, k, o); });
}
static int h_ftruncate(int fd, off_t n) {
    if (gate()) return -1;
    int r = o_ftruncate(fd, n);
    after();
    return r;
}
static int h_unlink(const char *p) {
    if (gate()) return -1;
    int r = o_unlink(p);
    after();
    return r;
}
static int h_open(const char *p, int f, int m) {
    if ((f & O_CREAT) == 0) return o_open(p, f, m);
    if (gate()) return -1;
    int r = o_open(p, f, m);
    after();
    return r;
}
static void hook() {
    sqlite3_initialize();
    auto *v = sqlite3_vfs_find(nullptr);
    auto one = [&](const char *n, void *mine, void *old) {
        auto f = v->xGetSystemCall(v, n);
        if (!f) return;
        *reinterpret_cast<sqlite3_syscall_ptr *>(old) = f;
        v->xSetSystemCall(v, n, reinterpret_cast<sqlite3_syscall_ptr>(mine));
    };
    one("open", (void *)h_open, &o_open);
    one("write", (void *)h_write, &o_write);
    one("pwrite", (void *)h_pwrite, &o_pwrite);
    one("pwrite64", (void *)h_pwrite64, &o_pwrite64);
    one("ftruncate", (void *)h_ftruncate, &o_ftruncate);
    one("unlink", (void *)h_unlink, &o_unlink);
}

// ---- requests
struct Request {
    std::string name;
    std::function<double(MatrixElementCache &)> get;
};
static std::vector<std::vector<Request>> sets; // several sets of requests
static std::map<std::string, double> table;
static std::string key(int m, std::string const &n) { return mc::cat(m, n); }
static bool close(double a, double b) { return std::abs(a - b) <= 3e-7 * std::abs(b) + 1e-300; }
struct Client {
    std::unique_ptr<MatrixElementCache> c;
    int m = 0;
    std::string dir;
    explicit Client(std::string d) : dir(std::move(d)) { open(); }
    void open() {
        c.reset();
        c.reset(new MatrixElementCache(dir));
        m = 0;
    }
    void method(int k) { c->setMethod(k ? WHITTAKER : NUMEROV), m = k; }
    // every element of a set; may_fail: errors of the store may be reported
    bool ask(std::vector<Request> const &s, bool may_fail = false) {
        for (auto &r : s) {
            double want = table.at(key(m, r.name)), got;
            mc::R().evaluations++;
            try {
                got = r.get(*c);
            } catch (std::exception &e) {
                if (may_fail) continue;
                mc::violation("request fails", mc::cat(r.name, ": ", e.what()));
                return false;
            }
            if (!close(got, want)) {
                mc::violation("wrong element", mc::cat(r.name, ": ", got, " instead of ", want));
                return false;
            }
        }
        return true;
    }
};
static std::vector<StateOne> states(std::string const &sp, int n) {
    std::vector<StateOne> r;
    double s = isdigit(sp.back()) ? ((sp.back() - '0') - 1) / 2. : .5;
    for (int l = 0; l <= 2; ++l)
        for (double j = std::abs(l - s); j <= l + s; ++j)
            for (double m : {-j, j - 1})
                if (m >= -j) r.emplace_back(sp, n, l, (float)j, (float)m);
    return r;
}
static void request_set(std::vector<StateOne> const &v, int step, int first) {
    std::vector<Request> s;
    int i = 0;
    for (auto &a : v)
        for (auto &b : v) {
            if (i++ % step != first) continue;
            auto n = mc::cat(a.getSpecies(), a.getN(), " ", a.getL(), " ", a.getJ(), " ", a.getM(), " - ", b.getN(), " ", b.getL(), " ", b.getJ(), " ", b.getM());
            for (int k : {1, 2}) s.push_back({mc::cat("multipole", k, " ", n), [=](MatrixElementCache &c) { return c.getElectricMultipole(a, b, k); }});
            s.push_back({"diamagnetic " + n, [=](MatrixElementCache &c) { return c.getDiamagnetism(a, b, 0); }});
            s.push_back({"radial " + n, [=](MatrixElementCache &c) { return c.getRadial(a, b, 1); }});
            s.push_back({"magnetic " + n, [=](MatrixElementCache &c) { return c.getMagneticDipole(a, b); }});
        }
    sets.push_back(s);
}
static std::vector<Request> cut(std::vector<Request> const &s, size_t n) { return {s.begin(), s.begin() + std::min(n, s.size())}; }

// ---- what a process does before it dies
struct Script {
    std::string name;
    std::function<void(std::string const &dir)> prepare, run;
};

int main() {
    auto rb = states("Rb", 8), rb9 = states("Rb", 9), sr1 = states("Sr1", 15), sr3 = states("Sr3", 15);
    auto both = rb;
    both.insert(both.end(), rb9.begin(), rb9.end());
    request_set(rb, 7, 2);    // 0
    request_set(rb, 1, 0);    // 1
    request_set(sr3, 5, 1);   // 2
    request_set(sr1, 2, 1);   // 3
    request_set(both, 11, 5); // 4
    for (int m = 0; m < 2; ++m) {
        MatrixElementCache c;
        c.setMethod(m ? WHITTAKER : NUMEROV);
        for (auto &s : sets)
            for (auto &r : s) table[key(m, r.name)] = r.get(c);
    }
    hook();
    auto bulk = [=](MatrixElementCache &c) {
        c.precalculateMultipole(rb, 1);
        c.precalculateMultipole(rb, 2);
        c.precalculateMagneticMomentum(rb, 0);
    };

    // 1. histories of two objects
    struct Letter {
        std::string name;
        std::function<bool(Client &)> act;
    };
    std::vector<Letter> ops;
    for (size_t i = 0; i < sets.size(); ++i)
        if (i != 1) ops.push_back({mc::cat("ask", i), [i](Client &c) { return c.ask(sets[i]); }});
    ops.push_back({"bulk", [&](Client &c) { return bulk(*c.c), c.ask(cut(sets[1], 1)); }});
    ops.push_back({"whittaker", [](Client &c) { return c.method(1), true; }});
    ops.push_back({"reopen", [](Client &c) { return c.open(), true; }});
    {
        int depth = mc::tier(3, 4), n = 2 * ops.size();
        mc::parallel(n * n, [&](int job) {
            std::vector<int> h{job / n, job % n};
            if (h[0] >= (int)ops.size()) return; // by symmetry the first operation is the first object's
            std::function<void()> rec = [&] {
                if ((int)h.size() < depth) {
                    for (int i = 0; i < n; ++i) {
                        h.push_back(i);
                        rec();
                        h.pop_back();
                    }
                    return;
                }
                if (ops[h.back() % ops.size()].name[0] != 'a') return; // the last operation is a request
                std::string l = "two objects: ";
                for (size_t i = 0; i < h.size(); ++i) l += (i ? " ; " : "") + std::string(h[i] < (int)ops.size() ? "A." : "B.") + ops[h[i] % ops.size()].name;
                if (!mc::enter(l)) return;
                mc::in_child(
                    [&] {
                        mc::Scratch d;
                        Client a(d.path), b(d.path);
                        for (int i : h) {
                            mc::R().transitions++;
                            if (!ops[i % ops.size()].act(i < (int)ops.size() ? a : b)) break;
                        }
                        mc::R().states++;
                        mc::R().traces++;
                        mc::outcome(l);
                    },
                    60);
            };
            rec();
        });
    }
    // 2. and 3. crashes and failing writes
    std::vector<Script> scripts;
    auto nothing = [](std::string const &) {};
    scripts.push_back({"create", nothing, [](std::string const &d) { Client c(d); }});
    scripts.push_back({"create and one element", nothing, [](std::string const &d) { Client(d).ask(cut(sets[0], 1), true); }});
    scripts.push_back({"one more element", [](std::string const &d) { Client(d).ask(cut(sets[0], 5)); }, [](std::string const &d) {
                           Client(d).ask({sets[4][7]}, true);
                       }});
    scripts.push_back({"many at once", [](std::string const &d) { Client(d).ask(cut(sets[3], 9)); }, [=](std::string const &d) {
                           Client c(d);
                           try {
                               bulk(*c.c);
                           } catch (std::exception &) {
                           }
                           c.ask({sets[1][3]}, true);
                       }});
    // a store large enough for its tables to fill several pages
    auto huge = [=](std::string const &d) {
        Client c(d);
        std::vector<StateOne> v;
        for (int n = 8; n < 14; ++n)
            for (auto &s : states("Rb", n)) v.push_back(s);
        c.c->precalculateMultipole(v, 1);
        c.c->precalculateMagneticMomentum(v, 0);
        c.ask(cut(sets[1], 2), true);
    };
    scripts.push_back({"many pages", nothing, huge});
    scripts.push_back({"on many pages", huge, [=](std::string const &d) {
                           Client c(d);
                           c.ask(cut(sets[0], 4), true);
                           bulk(*c.c);
                           c.ask({sets[2][0]}, true);
                       }});
    scripts.push_back({"several", [](std::string const &d) { Client(d).ask(cut(sets[0], 5)); }, [](std::string const &d) {
                           Client c(d);
                           c.ask(cut(sets[3], 11), true);
                       }});
    auto check = [&](std::string const &d, Client *open) {
        std::vector<Request> some = mc::thorough() ? cut(sets[1], 200) : cut(sets[0], 25);
        if (open && (!open->ask(some) || !open->ask(cut(sets[2], 3)))) return;
        for (int again = 0; again < 2; ++again) {
            std::unique_ptr<Client> p;
            try {
                p.reset(new Client(d));
            } catch (std::exception &e) {
                return mc::violation("the store cannot be opened any more", e.what());
            }
            Client &c = *p;
            if (!c.ask(some) || !c.ask(cut(sets[3], 6)) || !c.ask({sets[4][7], sets[1][3]})) return;
        }
    };
    // runs the script in a process that dies; returns the number of write calls it saw, or -1 if it died
    auto doomed = [&](Script const &s, std::string const &d, Mode m, long k) {
        auto r = mc::isolated([&] {
            mode = m, at = k, seen = 0;
            try {
                s.run(d);
            } catch (std::exception &) { // reported
            }
            long n = seen;
            mode = NONE;
            return mc::cat(n);
        });
        return r.ok ? atol(r.out.c_str()) : -1;
    };
    for (auto &s : scripts) {
        long calls;
        {
            mc::Scratch d;
            s.prepare(d.path);
            calls = doomed(s, d.path, FAIL, -1);
        }
        mc::info("write calls of '" + s.name + "'", calls);
        if (calls < 1) {
            mc::enter("count " + s.name);
            mc::violation("process dies", "without a fault");
            continue;
        }
        const char *names[] = {"", "before", "inside", "after", "fails", "fails from then on"};
        mc::parallel(calls, [&](int i) {
            for (Mode m : {BEFORE, TORN, AFTER, FAIL, FAIL_ON})
                for (bool bystander : {false, true}) {
                    long k = i + 1;
                    std::string l = mc::cat("fault: ", s.name, " call ", k, " ", names[m], bystander ? " with a bystander" : "");
                    if (!mc::enter(l)) continue;
                    mc::in_child(
                        [&] {
                            mc::Scratch d;
                            s.prepare(d.path);
                            std::unique_ptr<Client> open;
                            if (bystander) {
                                open.reset(new Client(d.path));
                                open->ask(cut(sets[0], 2));
                            }
                            doomed(s, d.path, m, k);
                            mc::R().states++;
                            mc::R().transitions++;
                            mc::R().traces++;
                            check(d.path, open.get());
                            mc::outcome(l);
                        },
                        120);
                }
        });
        // the same object goes on after failing writes
        mc::parallel(calls, [&](int i) {
            for (Mode m : {FAIL, FAIL_ON}) {
                std::string l = mc::cat("going on: ", s.name, " call ", i + 1, " ", names[m]);
                if (!mc::enter(l)) continue;
                mc::in_child(
                    [&] {
                        mc::Scratch d;
                        s.prepare(d.path);
                        std::unique_ptr<Client> c(new Client(d.path));
                        mode = m, at = i + 1, seen = 0;
                        c->ask(cut(sets[0], 6), true);
                        bulk(*c->c);
                        c->ask(cut(sets[1], 2), true);
                        mode = NONE;
                        mc::R().states++;
                        mc::R().traces++;
                        c->ask(sets[0]);
                        check(d.path, c.get());
                        mc::outcome(l);
                    },
                    120);
            }
        });
        // a second death while the store is opened and used again
        if (s.name == "many pages" || s.name == "on many pages") {
            if (!mc::thorough()) continue;
        }
        Script again{"", nothing, [](std::string const &d) { Client(d).ask(cut(sets[0], 3), true); }};
        mc::parallel(calls, [&](int i) {
            for (Mode m : {BEFORE, TORN, AFTER})
                for (Mode m2 : {BEFORE, TORN, AFTER})
                    for (long k2 = 1; k2 < 200; ++k2) {
                        if (!mc::thorough() && (m != TORN || m2 != TORN)) continue;
                        std::string l = mc::cat("twice: ", s.name, " call ", i + 1, " ", names[m], ", then call ", k2, " ", names[m2]);
                        if (!mc::enter(l)) continue;
                        long n = 0;
                        bool done = mc::in_child(
                            [&] {
                                mc::Scratch d;
                                s.prepare(d.path);
                                doomed(s, d.path, m, i + 1);
                                n = doomed(again, d.path, m2, k2);
                                mc::R().states++;
                                mc::R().transitions += 2;
                                mc::R().traces++;
                                check(d.path, nullptr);
                                if (n >= 0) mc::count("end");
                            },
                            120);
                        (void)done;
                        if (mc::R().counts["end"]) {
                            mc::R().counts["end"] = 0;
                            break;
                        }
                    }
        });
        mc::R().counts.erase("end");
    }
    return mc::finish();
}
