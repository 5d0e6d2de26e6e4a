// L03: the parallel loops of the calculation backend under every interleaving of their threads: the result must be the
// one of a single thread, and no access to shared data may be unordered.
#include "given.hpp"
#include "sched.hpp"
#include <dlfcn.h>
#include <filesystem>
#include <stdarg.h>
#include <chrono>

// calls on files are scheduling points, too
template <class F>
static F real(char const *n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
extern "C" {
int fsync(int) { return 0; } // nothing is lost here
int fdatasync(int) { return 0; }
FILE *fopen(char const *p, char const *m) {
    static auto f = real<FILE *(*)(char const *, char const *)>("fopen");
    sched::point();
    return f(p, m);
}
FILE *fopen64(char const *p, char const *m) {
    static auto f = real<FILE *(*)(char const *, char const *)>("fopen64");
    sched::point();
    return f(p, m);
}
int fclose(FILE *o) {
    static auto f = real<int (*)(FILE *)>("fclose");
    sched::point();
    return f(o);
}
int rename(char const *a, char const *b) {
    static auto f = real<int (*)(char const *, char const *)>("rename");
    sched::point();
    return f(a, b);
}
int remove(char const *a) {
    static auto f = real<int (*)(char const *)>("remove");
    sched::point();
    return f(a);
}
}
struct Prog {
    Job job;
    int threads, bound, part = 0, parts = 1;
    int before; // calculation that left the cache directory: -1 none, -2 the same, -3 the same, its last files cut
};
int main() {
    Conf one = with(base_conf(), {{"deltaLSingle", "1"}, {"deltaJSingle", "0"}, {"deltaMSingle", "0"}, {"maxEz", "3"}, {"steps", "2"}});
    Conf pair = with(pair_conf(), {{"deltaLSingle", "1"}, {"deltaJSingle", "0"}, {"deltaMSingle", "0"}, {"j2", "1.5"}, {"m2", "0.5"}, {"minEz", "1"}, {"maxEz", "1"}, {"maxR", "8"}, {"steps", "2"}});
    auto steps = [](Conf c, int n) { return with(c, {{"steps", std::to_string(n)}}); };
    Conf same_ = with(pair, {{"samebasis", "true"}, {"minEz", "0"}, {"maxEz", "0"}});
    Conf sweep = with(pair, {{"maxEz", "4"}});
    std::vector<Job> jobs{{"one atom, two fields", one, false},
                          {"one atom, three fields", steps(one, 3), false},
                          {"one atom, magnetic fields, complex", with(one, {{"maxEz", "0"}, {"minBz", "5"}, {"maxBz", "900"}, {"diamagnetism", "true"}}), true},
                          {"two distances", pair, false},
                          {"two distances, small cutoff", with(pair, {{"deltaEPair", "20"}}), false},
                          {"two distances, inversion", with(same_, {{"invE", "true"}, {"invO", "true"}}), false},
                          {"two distances, momenta, complex", with(same_, {{"conserveM", "true"}, {"deltaMSingle", "1"}}), true},
                          {"two fields", sweep, false},
                          {"two fields, small cutoff", with(sweep, {{"deltaEPair", "100"}, {"deltaMSingle", "1"}, {"deltaJSingle", "1"}}), false},
                          {"three fields, small cutoff", steps(with(sweep, {{"deltaEPair", "100"}}), 3), false},
                          {"two fields, permutation", with(sweep, {{"samebasis", "true"}, {"perE", "true"}, {"perO", "true"}}), false}};
    std::vector<Prog> progs;
    auto add = [&](int j, int threads, int bound, int before, int parts = 4) {
        if (mc::R().has_only) parts = 1;
        for (int i = 0; i < parts; ++i) progs.push_back({jobs[j], threads, bound, i, parts, before});
    };
    for (size_t j = 0; j < jobs.size(); ++j) {
        bool three = jobs[j].name.find("three") != std::string::npos;
        int bound = mc::thorough() && (j == 0 || j == 2 || j == 3) ? 2 : 1;
        add(j, 2, bound, -1, bound == 2 ? 16 : 4);
        if (three) add(j, 3, 1, -1);
        if (j % 3 == 0 || mc::thorough()) add(j, 2, 1, -2);
        if (j % 3 == 1 || mc::thorough()) add(j, 2, 1, -3);
    }
    mc::parallel(progs.size(), [&](int k) {
        Prog const &p = progs[k];
        sched::Program q;
        q.label = mc::cat(p.job.name, ", ", p.threads, " threads", p.before == -1 ? "" : p.before == -2 ? ", again" : ", with damaged files");
        if (!mc::enter(q.label)) return;
        mc::Scratch dir;
        mkdir((dir / "before").c_str(), 0755), mkdir((dir / "tmp").c_str(), 0755);
        std::string before = dir / "before", cache = dir / "cache";
        Given alone = run(p.job, before, dir / "tmp");
        if (!alone.ok) return mc::violation("calculation fails", alone.error);
        if (p.before == -1) (void)!system(mc::cat("rm -rf '", before, "'/cache_matrix*").c_str()); // matrix elements stay
        if (p.before == -3) (void)!system(mc::cat("cd '", before, "' && for f in cache_matrix*/*.mat; do truncate -s 40 $f; done").c_str());
        Given got, after;
        q.setup = [&] {
            sched::atomic_points(false);
            print_hook = sched::point;
            namespace fs = std::filesystem;
            fs::remove_all(cache), fs::copy(before, cache, fs::copy_options::recursive);
            sched::team(p.threads);
            got = run(p.job, cache, dir / "tmp");
            sched::team(0);
            after = run(p.job, cache, dir / "tmp"); // one thread, on the cache left behind
        };
        q.verdict = [&](std::string &out, std::string &viol) {
            out = got.head;
            auto d = same(got, alone);
            if (!d.empty()) viol = "another result than with one thread; " + d;
            if (viol.empty() && !(d = same(after, alone)).empty()) viol = "another result from the cache left behind; " + d;
        };
        auto st = sched::explore(q, p.bound, 1LL << 60, p.part, p.parts);
        if (p.part == 0) mc::sample(mc::cat(q.label, " : ", st.executions, " schedules in one of ", p.parts, " parts, longest ", st.max_len, " steps, preemptions <= ", p.bound));
    });
    return mc::finish();
}
