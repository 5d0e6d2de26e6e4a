// C02: every interleaving of concurrent quantum-defect lookups, compared with the same lookup made
// alone in a fresh process.
#include "QuantumDefect.hpp"
#include "dbfiles.hpp"
#include "mc.hpp"
#include "sched.hpp"

struct Look {
    const char *name, *species;
    int n, l;
    double j;
    int db; // -1: two-argument-less constructor (embedded), -2: database "", >=0: user database
};
static std::vector<Look> A = {
    {"E:Rb50S", "Rb", 50, 0, .5, -1},  {"E:Rb51P", "Rb", 51, 1, 1.5, -2}, {"A:Rb50S", "Rb", 50, 0, .5, 0},
    {"B:Rb50S", "Rb", 50, 0, .5, 1},   {"E:Xa50S(unknown)", "Xa", 50, 0, .5, -1}, {"B:Xa50S", "Xa", 50, 0, .5, 1},
};
static std::string g_dir;
static std::string fmt(QuantumDefect const &q) {
    char b[600];
    snprintf(b, sizeof b, "%s %d %d %.17g %.17g %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g", q.species.c_str(), q.n, q.l, q.j,
             q.ac, q.Z, q.a1, q.a2, q.a3, q.a4, q.rc, q.nstar, q.energy);
    return b;
}
static std::string look(int i) {
    Look const &a = A[i];
    try {
        if (a.db == -1) return fmt(QuantumDefect(a.species, a.n, a.l, a.j));
        return fmt(QuantumDefect(a.species, a.n, a.l, a.j, a.db == -2 ? std::string() : g_dir + "/db" + std::to_string(a.db) + ".sql"));
    } catch (std::exception &e) {
        return std::string("error: ") + e.what();
    }
}
static char (*g_res)[3][600]; // results, per thread and operation

struct Prog {
    std::vector<std::vector<int>> th;
    int warm; // lookup made before the threads start, or -1
    int bound;
};
int main() {
    mc::Scratch dir;
    g_dir = dir.path;
    for (int i = 0; i < 2; ++i) write_file(mc::cat(g_dir, "/db", i, ".sql"), db_sql(user_db(i)));
    std::vector<std::string> ref;
    for (size_t i = 0; i < A.size(); ++i) {
        mc::enter("alone: " + std::string(A[i].name));
        auto r = mc::isolated([&] { return look(i); });
        if (!r.ok) mc::violation("a single lookup fails to return", r.out);
        ref.push_back(r.out);
        mc::sample(mc::cat(A[i].name, " alone -> ", r.out));
    }
    std::vector<Prog> progs;
    int n = A.size();
    int b1 = mc::tier(2, 3), b2 = mc::tier(1, 2), b3 = 1;
    for (int w : {-1, 0, 2})
        for (int a = 0; a < n; ++a)
            for (int b = a; b < n; ++b) progs.push_back({{{a}, {b}}, w, (w == -1 || mc::thorough()) ? b1 : b2});
    std::vector<int> sub = mc::thorough() ? std::vector<int>{0, 2, 3, 4} : std::vector<int>{0, 2, 3};
    for (int a : sub)
        for (int b : sub)
            for (int c : sub)
                for (int d : sub)
                    if (std::make_pair(a, b) <= std::make_pair(c, d)) progs.push_back({{{a, b}, {c, d}}, -1, b2});
    for (int a : sub)
        for (int b : sub)
            for (int c : sub)
                if (a <= b && b <= c) progs.push_back({{{a}, {b}, {c}}, -1, mc::tier(b3, 2)});
    mc::info("programs", static_cast<long long>(progs.size()));
    mc::parallel(progs.size(), [&](int k) {
        Prog const &p = progs[progs.size() - 1 - k];
        sched::Program q;
        q.label = p.warm < 0 ? "[cold] " : mc::cat("[after ", A[p.warm].name, "] ");
        for (size_t i = 0; i < p.th.size(); ++i) {
            q.label += i ? " || " : "";
            for (size_t m = 0; m < p.th[i].size(); ++m) q.label += (m ? ";" : "") + std::string(A[p.th[i][m]].name);
        }
        if (!mc::enter(q.label)) return;
        g_res = static_cast<char(*)[3][600]>(mmap(nullptr, 4 * sizeof *g_res, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        q.nthreads = p.th.size();
        q.setup = [&] {
            memset(g_res, 0, 4 * sizeof *g_res);
            if (p.warm >= 0) look(p.warm);
        };
        q.thread = [&](int i) {
            for (size_t m = 0; m < p.th[i].size(); ++m) {
                std::string s = look(p.th[i][m]);
                memcpy(g_res[i][m], s.c_str(), std::min<size_t>(s.size() + 1, 599));
            }
        };
        q.verdict = [&](std::string &out, std::string &viol) {
            for (size_t i = 0; i < p.th.size(); ++i)
                for (size_t m = 0; m < p.th[i].size(); ++m) {
                    std::string got = g_res[i][m];
                    out += got.substr(0, 100) + " | ";
                    if (got != ref[p.th[i][m]] && viol.empty())
                        viol = mc::cat("a concurrent lookup differs from the lone one; ", A[p.th[i][m]].name, " gave ", got, " instead of ",
                                       ref[p.th[i][m]]);
                }
        };
        auto st = sched::explore(q, p.bound);
        if (k % 13 == 0) mc::sample(mc::cat(q.label, " : ", st.executions, " schedules, longest ", st.max_len, " steps, preemptions <= ", p.bound));
        munmap(g_res, 4 * sizeof *g_res);
    });
    return mc::finish();
}
