// L01: the calculation backend on any state of its cache directory: (1) every history of calculations over a set of
// configurations that differ in one setting each, (2) every point at which a calculation is killed - before, in the
// middle of, or after each call that writes below the cache directory - followed by the same and by other calculations.
#include "given.hpp"
#include <dlfcn.h>
#include <stdarg.h>

// ---- the calls that write below the cache directory
enum Mode { NONE, COUNT, BEFORE, TORN, AFTER };
static Mode mode = NONE;
static long at = 0, seen = 0;
static std::string root;
static std::vector<std::string> what_calls;
template <class F>
static F real(char const *n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
static bool below(char const *p) { return mode != NONE && p && strncmp(p, root.c_str(), root.size()) == 0; }
static bool below(int fd) {
    if (mode == NONE) return false;
    char l[64], b[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n < 0) return false;
    b[n] = 0;
    return below(b);
}
static void die() { _exit(77); }
struct Gate {
    bool on;
    Gate(bool o, char const *n) : on(o) {
        if (!on) return;
        ++seen;
        if (mode == COUNT) what_calls.push_back(n);
        if (mode == BEFORE && seen == at) die();
    }
    bool torn() const { return on && mode == TORN && seen == at; }
    ~Gate() {
        if (on && (mode == AFTER || mode == TORN) && seen == at) die();
    }
};
extern "C" {
ssize_t write(int fd, void const *b, size_t n) {
    static auto f = real<ssize_t (*)(int, void const *, size_t)>("write");
    Gate g(below(fd), "write");
    return f(fd, b, g.torn() ? n / 2 : n);
}
ssize_t writev(int fd, struct iovec const *v, int c) {
    static auto f = real<ssize_t (*)(int, struct iovec const *, int)>("writev");
    Gate g(below(fd), "writev");
    return f(fd, v, g.torn() ? std::max(1, c / 2) : c);
}
ssize_t pwrite(int fd, void const *b, size_t n, off_t o) {
    static auto f = real<ssize_t (*)(int, void const *, size_t, off_t)>("pwrite");
    Gate g(below(fd), "pwrite");
    return f(fd, b, g.torn() ? n / 2 : n, o);
}
ssize_t pwrite64(int fd, void const *b, size_t n, off64_t o) {
    static auto f = real<ssize_t (*)(int, void const *, size_t, off64_t)>("pwrite64");
    Gate g(below(fd), "pwrite64");
    return f(fd, b, g.torn() ? n / 2 : n, o);
}
int ftruncate(int fd, off_t n) {
    static auto f = real<int (*)(int, off_t)>("ftruncate");
    Gate g(below(fd), "ftruncate");
    return f(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    static auto f = real<int (*)(int, off64_t)>("ftruncate64");
    Gate g(below(fd), "ftruncate64");
    return f(fd, n);
}
int unlink(char const *p) {
    static auto f = real<int (*)(char const *)>("unlink");
    Gate g(below(p), "unlink");
    return f(p);
}
int rename(char const *a, char const *b) {
    static auto f = real<int (*)(char const *, char const *)>("rename");
    Gate g(below(a) || below(b), "rename");
    return f(a, b);
}
int mkdir(char const *p, mode_t m) {
    static auto f = real<int (*)(char const *, mode_t)>("mkdir");
    Gate g(below(p), "mkdir");
    return f(p, m);
}
int open64(char const *p, int fl, ...) {
    static auto f = real<int (*)(char const *, int, ...)>("open64");
    va_list a;
    va_start(a, fl);
    int m = va_arg(a, int);
    va_end(a);
    Gate g((fl & (O_CREAT | O_TRUNC)) && below(p), "open");
    return f(p, fl, m);
}
int open(char const *p, int fl, ...) {
    static auto f = real<int (*)(char const *, int, ...)>("open");
    va_list a;
    va_start(a, fl);
    int m = va_arg(a, int);
    va_end(a);
    Gate g((fl & (O_CREAT | O_TRUNC)) && below(p), "open");
    return f(p, fl, m);
}
FILE *fopen(char const *p, char const *m) {
    static auto f = real<FILE *(*)(char const *, char const *)>("fopen");
    Gate g(m[0] != 'r' && below(p), "fopen");
    return f(p, m);
}
FILE *fopen64(char const *p, char const *m) {
    static auto f = real<FILE *(*)(char const *, char const *)>("fopen64");
    Gate g(m[0] != 'r' && below(p), "fopen");
    return f(p, m);
}
size_t fwrite(void const *b, size_t s, size_t n, FILE *o) {
    static auto f = real<size_t (*)(void const *, size_t, size_t, FILE *)>("fwrite");
    if (mode == NONE) return f(b, s, n, o);
    Gate g(below(fileno(o)), "fwrite");
    size_t r = g.torn() ? f(b, 1, s * n / 2, o) : f(b, s, n, o);
    if (g.on && (mode == TORN || mode == AFTER) && seen == at) fflush(o);
    return r;
}
int fclose(FILE *o) {
    static auto f = real<int (*)(FILE *)>("fclose");
    if (mode == NONE) return f(o);
    bool w = (fcntl(fileno(o), F_GETFL) & O_ACCMODE) != O_RDONLY;
    Gate g(w && below(fileno(o)), "fclose");
    return f(o);
}
}

static std::vector<Job> jobs;
static std::vector<Given> fresh; // results on an empty cache
struct Dir {
    mc::Scratch s;
    std::string cache, tmp;
    Dir() : cache(s / "cache"), tmp(s / "tmp") { ::mkdir(cache.c_str(), 0755), ::mkdir(tmp.c_str(), 0755); }
};
static void copy(std::string const &from, std::string const &to) {
    if (system(mc::cat("cp -a '", from, "/.' '", to, "/'").c_str()) != 0) abort();
}
// the files of an earlier calculation still hold its results
static void files_intact(Given const &g, int job) {
    for (auto &e : g.files) {
        Matrix m;
        std::string d = read(g, e.second, m) ? differ(m, fresh[job].matrices.at(e.first)) : "cannot be read";
        if (!d.empty()) return mc::violation("file of an earlier calculation changed", mc::cat(jobs[job].name, " ", e.first, ": ", d));
    }
}
static void check(Given const &g, int job) {
    mc::R().evaluations++;
    auto d = same(g, fresh[job]);
    if (!d.empty()) mc::violation("another result", jobs[job].name + ": " + d);
    mc::outcome(mc::cat(job, g.head));
}
static void histories(std::string const &base, std::vector<int> h, Dir &dir, std::vector<Given> past, std::vector<int> const &letters, int depth) {
    for (int l : letters) {
        auto k = h;
        k.push_back(l);
        std::string label = base;
        for (size_t i = 0; i < k.size(); ++i) label += (i ? " ; " : "") + jobs[k[i]].name;
        if (mc::R().has_only && mc::R().only.compare(0, label.size(), label) != 0) continue;
        mc::enter(label);
        auto &r = mc::R();
        r.states++, r.transitions++;
        Dir d;
        copy(dir.cache, d.cache);
        auto g = run(jobs[l], d.cache, d.tmp);
        check(g, l);
        if ((int)k.size() < depth) {
            auto p = past;
            p.push_back(g);
            histories(base, k, d, p, letters, depth);
        } else {
            r.traces++;
            // the same calculations again, in the same order, and what their files hold then
            std::vector<Given> again;
            for (int i : k) again.push_back(run(jobs[i], d.cache, d.tmp)), check(again.back(), i);
            for (size_t i = 0; i < k.size(); ++i) files_intact(again[i], k[i]);
        }
    }
}
static bool crash(Dir &d, Job const &j, Mode m, long k) { // true: died at the call
    fflush(stdout), fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        root = d.cache, mode = m, at = k, seen = 0;
        run(j, d.cache, d.tmp);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) mc::violation("process dies", strsignal(WTERMSIG(st)));
    return WIFEXITED(st) && WEXITSTATUS(st) == 77;
}
static std::vector<std::string> calls(std::vector<int> const &before, int job) {
    Dir d;
    for (int b : before) run(jobs[b], d.cache, d.tmp);
    root = d.cache, mode = COUNT, seen = 0, what_calls.clear();
    run(jobs[job], d.cache, d.tmp);
    mode = NONE;
    return what_calls;
}
static int find(std::string const &n) {
    for (size_t i = 0; i < jobs.size(); ++i)
        if (jobs[i].name == n) return i;
    fprintf(stderr, "no configuration %s\n", n.c_str()), exit(2);
}
int main() {
    setenv("OMP_NUM_THREADS", "1", 1);
    Conf base = with(pair_conf(), {{"deltaJSingle", "0"}, {"deltaMSingle", "0"}, {"minEz", "100"}, {"maxEz", "100"}, {"l1", "0"}, {"l2", "0"}, {"j1", "0.5"}, {"j2", "0.5"}, {"m2", "0.5"}, {"minR", "0.3"}, {"maxR", "0.3"}});
    auto add = [&](std::string const &n, Conf const &c) { jobs.push_back({n, with(base, c), false}); };
    add("base", {});
    jobs.push_back({"complex", base, true});
    for (auto &e : std::vector<std::pair<std::string, std::string>>{
             {"species1", "Cs"}, {"species2", "Cs"}, {"n1", "21"}, {"n2", "21"}, {"l1", "1"}, {"l2", "1"}, {"m1", "-0.5"}, {"m2", "-0.5"},
             {"deltaNSingle", "1"}, {"deltaLSingle", "0"}, {"deltaLSingle", "-1"}, {"deltaJSingle", "1"}, {"deltaMSingle", "1"}, {"deltaESingle", "600"}, {"deltaESingle", "500"},
             {"missingCalc", "false"}, {"exponent", "4"}, {"exponent", "2"}, {"exponent", "5"}, {"deltaEPair", "300"}, {"deltaEPair", "2"}, {"deltaNPair", "0"}, {"deltaLPair", "0"},
             {"deltaJPair", "0"}, {"deltaMPair", "0"}, {"conserveM", "true"}, {"refE", "true"}, {"minR", "0.25"}, {"maxR", "0.5"}, {"minEz", "50"}, {"maxEz", "300"}, {"samebasis", "true"}}) {
        Conf c{e};
        if (e.first == "missingCalc") c["missingWhittaker"] = "true";
        if (e.first == "minR" || e.first == "maxR" || e.first == "minEz" || e.first == "maxEz") c["steps"] = "2";
        if (e.first == "refE") c["minEz"] = c["maxEz"] = "0", c["deltaMSingle"] = "1";
        add(e.first + "=" + e.second, c);
    }
    add("distance 0.300001", {{"minR", "0.300001"}, {"maxR", "0.300001"}});
    add("distance 0.300000000001", {{"minR", "0.300000000001"}, {"maxR", "0.300000000001"}});
    add("distance 0.7", {{"minR", "0.7"}, {"maxR", "0.7"}});
    add("E=(0,0,100.000001)", {{"minEz", "100.000001"}, {"maxEz", "100.000001"}});
    add("E=(0,0,100)..(0,0,-100)", {{"maxEz", "-100"}, {"steps", "3"}});
    add("E=(100,0,0)", {{"minEx", "100"}, {"maxEx", "100"}, {"minEz", "0"}, {"maxEz", "0"}});
    add("E=(0,0,0)", {{"minEz", "0"}, {"maxEz", "0"}});
    add("B=(0,0,9)", {{"minBz", "9"}, {"maxBz", "9"}});
    add("B=(0,0,900) dia", {{"minBz", "900"}, {"maxBz", "900"}, {"diamagnetism", "true"}});
    add("B=(0,0,900)", {{"minBz", "900"}, {"maxBz", "900"}});
    add("B=(9,0,0)", {{"minBx", "9"}, {"maxBx", "9"}});
    jobs.push_back({"E=(0,100,0) complex", with(base, {{"minEy", "100"}, {"maxEy", "100"}, {"minEz", "0"}, {"maxEz", "0"}}), true});
    jobs.push_back({"B=(0,9,0) complex", with(base, {{"minBy", "9"}, {"maxBy", "9"}}), true});
    jobs.push_back({"distances complex", with(base, {{"maxR", "0.5"}, {"steps", "2"}}), true});
    add("distances 0.3..0.5, 3", {{"maxR", "0.5"}, {"steps", "3"}});
    add("distances 0.5..0.3, 3", {{"minR", "0.5"}, {"steps", "3"}});
    Conf sb{{"samebasis", "true"}, {"minEz", "0"}, {"maxEz", "0"}};
    add("same basis, invE", with(sb, {{"invE", "true"}}));
    add("same basis, invO", with(sb, {{"invO", "true"}}));
    add("same basis, both inv", with(sb, {{"invO", "true"}, {"invE", "true"}}));
    add("same basis, perO", with(sb, {{"perO", "true"}}));
    add("same basis, invO perO same", with(sb, {{"invO", "true"}, {"perO", "true"}, {"sametrafo", "true"}}));
    add("same basis, invE perE", with(sb, {{"invE", "true"}, {"perE", "true"}}));
    add("same basis, E=0", sb);
    add("same basis, M same", with(sb, {{"conserveM", "true"}, {"sametrafo", "true"}, {"zerotheta", "true"}, {"deltaMSingle", "1"}}));
    add("same basis, M, deltaM 1", with(sb, {{"conserveM", "true"}, {"deltaMSingle", "1"}}));
    add("l=1, j1=1.5", {{"l1", "1"}, {"j1", "1.5"}});
    add("l=1, j2=1.5", {{"l2", "1"}, {"j2", "1.5"}});
    // settings that are told apart from another base only
    Conf wn{{"deltaNSingle", "1"}}, wj{{"deltaJSingle", "1"}}, wm{{"deltaMSingle", "1"}}, two{{"steps", "2"}};
    add("n, deltaNPair=0", with(wn, {{"deltaNPair", "0"}}));
    add("j, deltaJPair=0", with(wj, {{"deltaJPair", "0"}}));
    add("m, deltaMPair=0", with(wm, {{"deltaMPair", "0"}}));
    add("m, conserveM", with(wm, {{"conserveM", "true"}}));
    Conf ref = with(wm, {{"minEz", "0"}, {"maxEz", "0"}});
    add("m, E=0", ref);
    add("m, refE", with(ref, {{"refE", "true"}}));
    add("m, refO", with(ref, {{"refO", "true"}}));
    add("m, refE refO", with(ref, {{"refE", "true"}, {"refO", "true"}}));
    add("Numerov, Whittaker allowed", {{"missingWhittaker", "true"}});
    add("two steps", two);
    jobs.push_back({"two steps complex", with(base, two), true});
    for (auto k : {"minBx", "maxBx", "minBz", "maxBz", "minEx", "maxEx"}) add(mc::cat("two steps, ", k), with(two, {{k, "70"}}));
    for (auto k : {"minBy", "maxBy", "minEy", "maxEy"}) jobs.push_back({mc::cat("two steps, ", k), with(base, with(two, {{k, "70"}})), true});
    add("distance 0.3000004", {{"minR", "0.3000004"}, {"maxR", "0.3000004"}});
    Conf quad = with(wj, {{"exponent", "5"}});
    add("j, exponent 5", quad);
    add("j", wj);
    add("same basis, invO perO", with(sb, {{"invO", "true"}, {"perO", "true"}}));
    add("same basis, M, zerotheta", with(sb, {{"conserveM", "true"}, {"zerotheta", "true"}, {"deltaMSingle", "1"}}));
    add("same basis, M, sametrafo", with(sb, {{"conserveM", "true"}, {"sametrafo", "true"}, {"deltaMSingle", "1"}}));
    {
        Conf c = base;
        c.erase("minR");
        jobs.push_back({"no interaction", c, false});
        for (auto k : {"species2", "n2", "l2", "j2", "m2"}) c.erase(k);
        jobs.push_back({"one atom", c, false});
        jobs.push_back({"one atom n=21", with(c, {{"n1", "21"}}), false});
        jobs.push_back({"one atom Cs", with(c, {{"species1", "Cs"}}), false});
    }
    int n = jobs.size();
    // the results on an empty cache; the configurations are distinguishable
    fresh.resize(n);
    std::set<std::string> distinct;
    for (int i = 0; i < n; ++i) {
        mc::enter("empty cache: " + jobs[i].name);
        Dir d;
        fresh[i] = run(jobs[i], d.cache, d.tmp);
        if (!fresh[i].ok) mc::violation("calculation fails", fresh[i].error);
        std::string s = fresh[i].head;
        for (auto &e : fresh[i].matrices) {
            std::ostringstream o;
            o << e.second.H.diagonal().transpose().format(Eigen::IOFormat(15)) << big(e.second.V);
            s += o.str();
        }
        distinct.insert(s);
    }
    // for which settings do two configurations that differ in nothing else give different results?
    std::set<std::string> told;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) {
            std::string key;
            int differs = jobs[i].complex_ != jobs[j].complex_ || jobs[i].c.size() != jobs[j].c.size();
            for (auto &e : jobs[i].c) {
                auto it = jobs[j].c.find(e.first);
                if (it == jobs[j].c.end() || it->second != e.second) ++differs, key = e.first;
            }
            if (differs == 1 && !key.empty() && !same(fresh[i], fresh[j]).empty()) told.insert(key);
        }
    std::string untold;
    for (auto &e : jobs[0].c)
        if (!told.count(e.first)) untold += " " + e.first;
    mc::sample("settings without two results that differ in them alone:" + (untold.empty() ? " none" : untold));
    if (getenv("L01_KEYS")) puts(untold.c_str()), exit(0);
    mc::count("configurations", n);
    mc::count("distinct results on an empty cache", distinct.size());
    if (!mc::R().violations.empty()) return mc::finish();

    std::vector<int> all(n);
    for (int i = 0; i < n; ++i) all[i] = i;
    std::vector<int> few;
    for (auto k : {"base", "complex", "m2=-0.5", "deltaESingle=600", "missingCalc=false", "exponent=4", "deltaEPair=300", "maxR=0.5", "samebasis=true", "same basis, invO", "E=(0,0,0)", "one atom"}) few.push_back(find(k));
    // histories of two, and of three (four) over fewer configurations
    mc::parallel(n, [&](int i) {
        std::string label = "history: " + jobs[i].name;
        if (mc::R().has_only && mc::R().only.compare(0, label.size(), label) != 0) return;
        Dir d;
        mc::enter(label);
        mc::R().states++;
        auto g = run(jobs[i], d.cache, d.tmp);
        check(g, i);
        histories("history: ", {i}, d, {g}, all, 2);
    });
    int m = few.size();
    mc::parallel(m * m, [&](int k) {
        int i = few[k / m], j = few[k % m];
        std::string label = "history: " + jobs[i].name + " ; " + jobs[j].name;
        if (mc::R().has_only && mc::R().only.compare(0, label.size(), label) != 0) return;
        Dir d;
        mc::enter(label);
        auto g = run(jobs[i], d.cache, d.tmp), h = run(jobs[j], d.cache, d.tmp);
        histories("history: ", {i, j}, d, {g, h}, few, mc::tier(3, 4));
    });
    // killed at every write
    struct Kill {
        std::vector<int> before;
        int job;
        std::vector<int> then;
    };
    std::vector<Kill> kills{{{}, find("base"), {find("m2=-0.5")}},
                            {{find("base")}, find("m2=-0.5"), {find("base")}},
                            {{}, find("maxR=0.5"), {find("base")}},
                            {{find("base")}, find("base"), {}},
                            {{find("complex")}, find("base"), {find("complex")}},
                            {{}, find("B=(0,0,900) dia"), {find("B=(0,0,900)")}},
                            {{find("base")}, find("E=(0,0,100)..(0,0,-100)"), {}},
                            {{}, find("same basis, both inv"), {find("same basis, invE")}}};
    if (mc::thorough())
        for (int i : few) kills.push_back({{}, i, {find("base")}}), kills.push_back({{i}, find("deltaNSingle=1"), {i}});
    struct Point {
        int kill;
        Mode m;
        long k;
        std::string call;
    };
    std::vector<Point> points;
    for (size_t q = 0; q < kills.size(); ++q) {
        auto c = calls(kills[q].before, kills[q].job);
        mc::count("write calls", c.size());
        bool fw = false;
        for (auto &x : c) fw = fw || x == "fwrite" || x == "write" || x == "writev";
        if (!fw && kills[q].before != std::vector<int>{kills[q].job}) fprintf(stderr, "no writes seen\n"), exit(2);
        for (long k = 1; k <= (long)c.size(); ++k)
            for (Mode mo : {BEFORE, TORN, AFTER}) {
                bool data = c[k - 1].find("write") != std::string::npos;
                if (mo == TORN && !data) continue;
                if (mo == BEFORE && k > 1 && c[k - 2] != "fwrite") continue; // as after the call before
                points.push_back({(int)q, mo, k, c[k - 1]});
            }
    }
    int const chunk = 16;
    mc::parallel((points.size() + chunk - 1) / chunk, [&](int w) {
        for (size_t i = w * chunk; i < std::min<size_t>(points.size(), (w + 1) * chunk); ++i) {
            auto &p = points[i];
            auto &q = kills[p.kill];
            std::string label = "killed: ";
            for (int b : q.before) label += jobs[b].name + " ; ";
            label += jobs[q.job].name + mc::cat(" dies ", p.m == BEFORE ? "before" : p.m == TORN ? "inside" : "after", " write call ", p.k, " (", p.call, ")");
            if (!mc::enter(label)) continue;
            mc::R().states++, mc::R().transitions++;
            Dir d;
            for (int b : q.before) run(jobs[b], d.cache, d.tmp);
            if (!crash(d, jobs[q.job], p.m, p.k)) {
                mc::violation("the calls are not the same as before", "");
                continue;
            }
            if (mc::thorough() && i % 3 == 0) crash(d, jobs[q.job], TORN, 2); // and once more
            std::vector<std::vector<int>> tails{{q.job}};
            if (!q.then.empty()) {
                auto t = q.then;
                t.push_back(q.job);
                tails.push_back(t);
            }
            for (size_t t = 0; t < tails.size(); ++t) {
                Dir e;
                copy(d.cache, e.cache);
                std::vector<Given> gs;
                for (int j : tails[t]) gs.push_back(run(jobs[j], e.cache, e.tmp)), check(gs.back(), j);
                for (size_t x = 0; x < gs.size(); ++x) files_intact(gs[x], tails[t][x]);
            }
            mc::R().traces++;
        }
    });
    mc::count("points of death", points.size());
    for (size_t i = 0; i < points.size(); i += points.size() / 6 + 1) mc::sample(mc::cat("killed ", jobs[kills[points[i].kill].job].name, " at call ", points[i].k, " ", points[i].call));
    return mc::finish();
}
