// C01: every interleaving of short programs on one Cache, each execution checked for
// linearizability against a map.
#include "Cache.hpp"
#include "mc.hpp"
#include "sched.hpp"
#include <algorithm>

struct Key {
    int k;
    bool operator==(Key const &o) const {
        sched::point();
        return k == o.k;
    }
};
struct KeyHash { // all keys collide
    size_t operator()(Key const &) const {
        sched::point();
        return 7;
    }
};
static thread_local int t_throw = 0; // the n-th copy throws
struct CopyFailed : std::exception {};
struct Elem {
    int v = 0, w = 0;
    std::string s;
    Elem() = default;
    explicit Elem(int x) : v(x), w(-x), s("value-with-a-heap-allocation-" + std::to_string(x)) {}
    Elem(Elem const &o) {
        if (t_throw && --t_throw == 0) throw CopyFailed();
        v = o.v;
        s = o.s;
        sched::point();
        w = o.w;
    }
    Elem &operator=(Elem const &o) {
        v = o.v;
        s = o.s;
        w = o.w;
        return *this;
    }
    bool whole() const { return w == -v && s == "value-with-a-heap-allocation-" + std::to_string(v); }
};

enum Op { SAVE0, SAVE1, REST0, REST1, CLEAR, SAVEX0, RESTX0, NOP };
static const char *NAME[] = {"save(a)", "save(b)", "get(a)", "get(b)", "clear", "save!(a)", "get!(a)"};
// results: >=0 value, else
enum { V_OK = -1, V_REFUSED = -2, V_NONE = -3, V_TORN = -4, V_OTHER = -5, V_COPYFAIL = -6 };

struct Rec {
    int op, arg, res;
    long call, ret;
};
static Rec g_rec[4][4];
static int g_nrec[4];
static Cache<Key, Elem, KeyHash> *g_cache;

static int run_op(int op, int arg) {
    try {
        switch (op) {
        case SAVE0:
        case SAVE1:
        case SAVEX0: {
            Elem e(arg);
            if (op == SAVEX0) t_throw = 1;
            g_cache->save(Key{op == SAVE1}, e);
            t_throw = 0;
            return V_OK;
        }
        case REST0:
        case REST1:
        case RESTX0: {
            if (op == RESTX0) t_throw = 1;
            auto r = g_cache->restore(Key{op == REST1});
            t_throw = 0;
            if (!r) return V_NONE;
            return r->whole() ? r->v : V_TORN;
        }
        case CLEAR:
            g_cache->clear();
            return V_OK;
        }
    } catch (CopyFailed &) {
        t_throw = 0;
        return V_COPYFAIL;
    } catch (std::runtime_error &) {
        t_throw = 0;
        return V_REFUSED;
    } catch (std::exception &) {
        t_throw = 0;
        return V_OTHER;
    }
    return V_OTHER;
}

// Is the recorded history a linearization of the map? Final probe reads are part of it.
static bool lin(std::vector<Rec> const &h, unsigned done, int a, int b) {
    if (done == (1u << h.size()) - 1) return true;
    for (size_t i = 0; i < h.size(); ++i) {
        if (done >> i & 1) continue;
        bool first = true;
        for (size_t k = 0; k < h.size(); ++k)
            if (!(done >> k & 1) && k != i && h[k].ret < h[i].call) first = false;
        if (!first) continue;
        int na = a, nb = b;
        int &slot = (h[i].op == SAVE1 || h[i].op == REST1) ? nb : na;
        bool ok = false;
        switch (h[i].op) {
        case SAVE0:
        case SAVE1:
            if (slot == V_NONE) {
                ok = h[i].res == V_OK;
                slot = h[i].arg;
            } else
                ok = h[i].res == V_REFUSED;
            break;
        case SAVEX0: // storing fails while copying: no effect; or refused before copying
            ok = h[i].res == V_COPYFAIL || (slot != V_NONE && h[i].res == V_REFUSED);
            break;
        case REST0:
        case REST1: ok = h[i].res == slot; break;
        case RESTX0: ok = slot == V_NONE ? h[i].res == V_NONE : (h[i].res == V_COPYFAIL || h[i].res == slot); break;
        case CLEAR:
            ok = h[i].res == V_OK;
            na = nb = V_NONE;
            break;
        }
        if (ok && lin(h, done | 1u << i, na, nb)) return true;
    }
    return false;
}

struct Prog {
    std::vector<std::vector<int>> th;
    bool pre;
    std::string name() const {
        std::string s = pre ? "[a=100] " : "[] ";
        for (size_t i = 0; i < th.size(); ++i) {
            s += i ? " || " : "";
            for (size_t k = 0; k < th[i].size(); ++k) s += (k ? ";" : "") + std::string(NAME[th[i][k]]);
        }
        return s;
    }
};

static void run_prog(Prog const &p, int bound) {
    sched::Program q;
    q.label = p.name();
    if (!mc::enter(q.label)) return;
    q.nthreads = p.th.size();
    q.setup = [&] {
        g_cache = new Cache<Key, Elem, KeyHash>;
        if (p.pre) g_cache->save(Key{0}, Elem(100));
    };
    q.thread = [&](int i) {
        for (size_t k = 0; k < p.th[i].size(); ++k) {
            Rec &r = g_rec[i][k];
            r.op = p.th[i][k];
            r.arg = 10 * (i + 1) + static_cast<int>(k);
            r.call = sched::now();
            r.res = run_op(r.op, r.arg);
            r.ret = sched::now();
            g_nrec[i] = k + 1;
        }
    };
    q.verdict = [&](std::string &out, std::string &viol) {
        std::vector<Rec> h;
        for (size_t i = 0; i < p.th.size(); ++i)
            for (int k = 0; k < g_nrec[i]; ++k) {
                h.push_back(g_rec[i][k]);
                out += mc::cat("t", i, ":", NAME[g_rec[i][k].op], "=", g_rec[i][k].res, " ");
            }
        Rec ra{REST0, 0, run_op(REST0, 0), sched::now(), 0}, rb{REST1, 0, run_op(REST1, 0), 0, 0};
        ra.ret = sched::now();
        rb.call = sched::now();
        rb.ret = sched::now();
        ra.call = ra.ret - 1;
        h.push_back(ra);
        h.push_back(rb);
        out += mc::cat("final a=", ra.res, " b=", rb.res);
        if (!lin(h, 0, p.pre ? 100 : V_NONE, V_NONE)) viol = "not linearizable;" + out;
    };
    auto st = sched::explore(q, bound);
    mc::count("programs");
    if (st.executions > 1) mc::count("programs_with_several_schedules");
    if (mc::R().traces % 977 < st.executions) mc::sample(mc::cat(q.label, " : ", st.executions, " schedules, longest ", st.max_len, " steps"));
}

int main() {
    std::vector<Prog> progs;
    std::vector<std::vector<int>> seqs;
    auto build = [&](int nops, int maxlen) {
        seqs.clear();
        std::vector<std::vector<int>> cur{{}};
        for (int l = 0; l < maxlen; ++l) {
            std::vector<std::vector<int>> nxt;
            for (auto &c : cur)
                for (int o = 0; o < nops; ++o) {
                    auto d = c;
                    d.push_back(o);
                    nxt.push_back(d);
                }
            seqs.insert(seqs.end(), nxt.begin(), nxt.end());
            cur = nxt;
        }
    };
    int bound2 = mc::tier(2, 3), bound3 = mc::tier(2, 2);
    // two threads, up to two operations each (three in the thorough tier without the failing ones)
    build(7, 2);
    for (bool pre : {false, true})
        for (size_t i = 0; i < seqs.size(); ++i)
            for (size_t k = i; k < seqs.size(); ++k) progs.push_back({{seqs[i], seqs[k]}, pre});
    if (mc::thorough()) {
        build(5, 3);
        for (bool pre : {false, true})
            for (size_t i = 0; i < seqs.size(); ++i)
                for (size_t k = i; k < seqs.size(); ++k)
                    if (seqs[i].size() == 3 || seqs[k].size() == 3) progs.push_back({{seqs[i], seqs[k]}, pre});
    }
    size_t two = progs.size();
    for (bool pre : {false, true})
        for (int a = 0; a < 7; ++a)
            for (int b = a; b < 7; ++b)
                for (int c = b; c < 7; ++c) progs.push_back({{{a}, {b}, {c}}, pre});
    mc::info("programs", static_cast<long long>(progs.size()));
    mc::info("preemption_bound", bound2);
    // spread: job i takes every 256th program
    const int J = 256;
    mc::parallel(J, [&](int j) {
        for (size_t i = j; i < progs.size(); i += J)
            run_prog(progs[i], i >= two ? bound3 : (progs[i].th[0].size() == 3 || progs[i].th[1].size() == 3) ? 2 : bound2);
    });
    return mc::finish();
}
