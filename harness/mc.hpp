// Common reporting layer of all harnesses: case labels, violations, coverage counters, samples.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
    std::string key, label, detail;
};

struct Report {
    long long states = 0, transitions = 0, evaluations = 0, traces = 0;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::string> info;
    std::map<std::string, long long> counts;
    std::vector<Violation> violations;
    std::set<std::string> vkeys;
    std::string label;
    std::string only;
    bool has_only = false;
    char *cur = nullptr;
    size_t max_violations = 200;
    bool in_worker = false;
};

inline Report &R() {
    static Report *r = [] {
        auto *p = new Report;
        if (const char *o = getenv("MC_ONLY")) {
            p->only = o;
            p->has_only = true;
        }
        if (const char *c = getenv("MC_CUR")) {
            int fd = open(c, O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, 8192) == 0) {
                void *m = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) p->cur = static_cast<char *>(m);
            }
            if (fd >= 0) close(fd);
        }
        return p;
    }();
    return *r;
}

inline bool thorough() {
    const char *t = getenv("VERIF_TIER");
    return t && std::string(t) == "thorough";
}
inline int tier(int quick, int thor) { return thorough() ? thor : quick; }

inline uint64_t hash(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

// Start a case. Returns false if a replay is restricted to another case.
inline bool enter(const std::string &label) {
    auto &r = R();
    if (r.has_only && label != r.only) return false;
    r.label = label;
    if (r.cur) {
        size_t n = std::min<size_t>(label.size(), 8000);
        memcpy(r.cur, label.data(), n);
        r.cur[n] = 0;
    }
    return true;
}
inline bool selected(const std::string &label) {
    auto &r = R();
    return !r.has_only || label == r.only;
}

inline void outcome(const std::string &s) { R().distinct.insert(hash(s)); }
inline void sample(const std::string &s, size_t max = 12) {
    if (R().samples.size() < max) R().samples.push_back(s);
}
inline void info(const std::string &k, const std::string &v) { R().info[k] = v; }
inline void info(const std::string &k, long long v) { R().info[k] = std::to_string(v); }
inline void count(const std::string &k, long long n = 1) { R().counts[k] += n; }

inline std::string esc(const std::string &s) {
    std::string o;
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            o += buf;
        } else
            o += static_cast<char>(c);
    }
    return o;
}

inline int finish();

inline void violation(const std::string &what, const std::string &detail = "") {
    auto &r = R();
    std::string key = r.label + " | " + what;
    if (r.violations.size() >= r.max_violations || !r.vkeys.insert(key).second) return;
    r.violations.push_back({key, r.label, detail});
    fprintf(stderr, "violation: %s :: %s\n", key.c_str(), detail.substr(0, 600).c_str());
    if (r.violations.size() >= r.max_violations) info("stopped_early", "too many violations");
}

inline int finish() {
    auto &r = R();
    if (const char *f = getenv("MC_OUT")) {
        FILE *o = fopen(f, "w");
        if (!o) return 3;
        fprintf(o, "{\"states\":%lld,\"transitions\":%lld,\"evaluations\":%lld,\"traces\":%lld,"
                   "\"distinct\":%zu,\n\"samples\":[",
                r.states, r.transitions, r.evaluations, r.traces, r.distinct.size());
        for (size_t i = 0; i < r.samples.size(); ++i)
            fprintf(o, "%s\"%s\"", i ? "," : "", esc(r.samples[i]).c_str());
        fprintf(o, "],\n\"info\":{");
        bool first = true;
        for (auto &kv : r.info) {
            fprintf(o, "%s\"%s\":\"%s\"", first ? "" : ",", esc(kv.first).c_str(),
                    esc(kv.second).c_str());
            first = false;
        }
        fprintf(o, "},\n\"counts\":{");
        first = true;
        for (auto &kv : r.counts) {
            fprintf(o, "%s\"%s\":%lld", first ? "" : ",", esc(kv.first).c_str(), kv.second);
            first = false;
        }
        fprintf(o, "},\n\"violations\":[");
        for (size_t i = 0; i < r.violations.size(); ++i) {
            auto &v = r.violations[i];
            fprintf(o, "%s{\"key\":\"%s\",\"label\":\"%s\",\"detail\":\"%s\"}", i ? ",\n" : "",
                    esc(v.key).c_str(), esc(v.label).c_str(), esc(v.detail.substr(0, 4000)).c_str());
        }
        fprintf(o, "]}\n");
        fclose(o);
    }
    return r.violations.empty() ? 0 : 1;
}

template <class... A>
std::string cat(const A &... a) {
    std::ostringstream os;
    os.precision(17);
    (void)std::initializer_list<int>{((os << a), 0)...};
    return os.str();
}

// Run f in a forked child; returns the string it produced, or a description of how it died.
struct Isolated {
    bool ok;
    std::string out;
};
inline Isolated isolated(const std::function<std::string()> &f, int timeout_s = 60) {
    int fd[2];
    if (pipe(fd) != 0) abort();
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        alarm(timeout_s);
        std::string s;
        int rc = 0;
        try {
            s = f();
        } catch (std::exception &e) {
            s = std::string("uncaught exception: ") + e.what();
            rc = 7;
        } catch (...) {
            s = "uncaught unknown exception";
            rc = 7;
        }
        size_t off = 0;
        while (off < s.size()) {
            ssize_t n = write(fd[1], s.data() + off, s.size() - off);
            if (n <= 0) break;
            off += n;
        }
        close(fd[1]);
        _exit(rc);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return {false, cat("died with signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")")};
    if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 7)
        return {false, cat("exited with status ", WEXITSTATUS(st))};
    return {WEXITSTATUS(st) == 0, s};
}

// --- moving a report between processes -------------------------------------------------------
inline void dump(FILE *v) {
    auto &q = R();
    auto put = [&](const std::string &s) {
        size_t l = s.size();
        fwrite(&l, sizeof l, 1, v);
        fwrite(s.data(), 1, l, v);
    };
    auto putn = [&](size_t k) { fwrite(&k, sizeof k, 1, v); };
    putn(0x600d);
    putn(q.states);
    putn(q.transitions);
    putn(q.evaluations);
    putn(q.traces);
    putn(q.violations.size());
    for (auto &x : q.violations) {
        put(x.key);
        put(x.label);
        put(x.detail);
    }
    putn(q.samples.size());
    for (auto &x : q.samples) put(x);
    putn(q.counts.size());
    for (auto &x : q.counts) {
        put(x.first);
        putn(x.second);
    }
    putn(q.info.size());
    for (auto &x : q.info) {
        put(x.first);
        put(x.second);
    }
    putn(q.distinct.size());
    for (auto h : q.distinct) fwrite(&h, 8, 1, v);
    putn(0x600d);
}
inline bool merge(FILE *v) {
    auto &r = R();
    bool ok = true;
    auto getn = [&] {
        size_t l = 0;
        if (fread(&l, sizeof l, 1, v) != 1) ok = false;
        return ok ? l : 0;
    };
    auto get = [&] {
        size_t l = getn();
        std::string s(l, 0);
        if (l && fread(&s[0], 1, l, v) != l) ok = false;
        return s;
    };
    if (getn() != 0x600d) return false;
    long long a = getn(), b = getn(), c = getn(), d = getn();
    r.states += a;
    r.transitions += b;
    r.evaluations += c;
    r.traces += d;
    for (size_t k = getn(); k; --k) {
        Violation x;
        x.key = get();
        x.label = get();
        x.detail = get();
        if (r.vkeys.insert(x.key).second && r.violations.size() < r.max_violations) r.violations.push_back(x);
    }
    for (size_t k = getn(); k; --k) sample(get());
    for (size_t k = getn(); k; --k) {
        auto s = get();
        count(s, getn());
    }
    for (size_t k = getn(); k; --k) {
        auto s = get();
        r.info[s] = get();
    }
    for (size_t k = getn(); k; --k) {
        uint64_t h;
        if (fread(&h, 8, 1, v) == 1) r.distinct.insert(h);
    }
    return getn() == 0x600d && ok;
}
inline void fresh_report() {
    auto &q = R();
    q.states = q.transitions = q.evaluations = q.traces = 0;
    q.distinct.clear();
    q.samples.clear();
    q.counts.clear();
    q.info.clear();
    q.violations.clear();
    q.vkeys.clear();
}

// Run `body` in a forked child that inherits this process's state; merge what it reports.
// A dying child is a violation labelled with the case it had entered.
inline bool in_child(const std::function<void()> &body, int timeout_s = 0) {
    auto &r = R();
    char *cur = static_cast<char *>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    snprintf(cur, 8000, "%s", r.label.c_str());
    int fd[2];
    if (pipe(fd)) abort();
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        fresh_report();
        R().cur = cur;
        R().max_violations = 50;
        if (timeout_s) alarm(timeout_s);
        struct Early {};
        body();
        FILE *o = fdopen(fd[1], "w");
        dump(o);
        fclose(o);
        _exit(0);
    }
    close(fd[1]);
    FILE *in = fdopen(fd[0], "r");
    bool got = merge(in);
    fclose(in);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!got) {
        std::string save = r.label;
        r.label = cur;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        violation(hang ? "does not terminate" : "process dies",
                  WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : cat("exit status ", WEXITSTATUS(st)));
        r.label = save;
    }
    munmap(cur, 8192);
    return got;
}

// Partition `n` independent jobs over worker processes; each worker gets its own Report, which is
// merged into the parent's.
inline void parallel(int n, const std::function<void(int)> &job, int workers = 0) {
    auto &r = R();
    if (workers == 0) {
        workers = 8;
        if (const char *w = getenv("MC_WORKERS")) workers = atoi(w);
    }
    if (r.has_only) workers = 1;
    auto *next = static_cast<int *>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *next = 0;
    auto *curs = static_cast<char *>(mmap(nullptr, 8192 * static_cast<size_t>(workers),
                                          PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const char *tmp = getenv("MC_TMP");
    std::string base = std::string(tmp ? tmp : "/tmp") + "/mcw." + std::to_string(getpid());
    fflush(stdout);
    fflush(stderr);
    std::vector<pid_t> ws;
    for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            fresh_report();
            R().cur = curs + 8192 * w;
            R().in_worker = true;
            for (;;) {
                int i = __atomic_fetch_add(next, 1, __ATOMIC_SEQ_CST);
                if (i >= n || R().violations.size() >= R().max_violations) break;
                job(i);
            }
            FILE *d = fopen(cat(base, ".", w).c_str(), "wb");
            if (d) {
                dump(d);
                fclose(d);
            }
            fflush(stdout);
            fflush(stderr);
            _exit(0);
        }
        ws.push_back(p);
    }
    for (int w = 0; w < workers; ++w) {
        int st = 0;
        while (waitpid(ws[w], &st, 0) < 0 && errno == EINTR) {}
        std::string file = cat(base, ".", w);
        FILE *v = fopen(file.c_str(), "rb");
        bool got = v && merge(v);
        if (v) fclose(v);
        if (!got) {
            r.label = curs + 8192 * w;
            violation("process dies", WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : cat("exit status ", WEXITSTATUS(st)));
        }
        unlink(file.c_str());
    }
    munmap(next, 4096);
    munmap(curs, 8192 * static_cast<size_t>(workers));
}

// Explore the tree of all letter sequences of length <= depth. Every node is executed in a process
// forked from its parent node's process, so that each history runs exactly once on real state and
// leaves nothing behind. step(letter, history so far including it) returns false to cut the branch.
// States: nodes; transitions: steps executed; traces: maximal histories.
struct Tree {
    std::vector<std::string> names;
    int depth;
    std::function<bool(int letter, const std::vector<int> &hist)> step;
    std::function<bool(int letter, const std::vector<int> &hist)> enabled;
    std::function<void()> before; // once per worker job, in the root process
    std::string prefix;
    int timeout_s = 120;
    std::string label(const std::vector<int> &h) const {
        std::string s = prefix;
        for (size_t i = 0; i < h.size(); ++i) s += (i ? " ; " : "") + names[h[i]];
        return s;
    }
    void node(std::vector<int> h, int letter) const {
        if (enabled && !enabled(letter, h)) return;
        h.push_back(letter);
        std::string l = label(h);
        auto &r = R();
        if (r.has_only && r.only.compare(0, l.size(), l) != 0) return;
        r.label = l;
        in_child(
            [&] {
                auto &q = R();
                q.label = l;
                snprintf(q.cur, 8000, "%s", l.c_str());
                ++q.states;
                ++q.transitions;
                bool go = step(letter, h) && q.violations.empty();
                if (go && static_cast<int>(h.size()) < depth)
                    for (size_t i = 0; i < names.size(); ++i) node(h, static_cast<int>(i));
                else
                    ++q.traces;
            },
            static_cast<int>(h.size()) == depth ? timeout_s : 0);
    }
    // jobs are the sequences of length one (or two), distributed over the workers
    void run() const {
        int n = static_cast<int>(names.size());
        parallel(n, [&](int i) {
            in_child([&] {
                if (before) before();
                node({}, i);
            });
        });
    }
};

// A private scratch directory, removed at exit of the process that created it.
struct Scratch {
    std::string path;
    pid_t owner;
    Scratch() : owner(getpid()) {
        const char *t = getenv("MC_TMP");
        std::string p = std::string(t ? t : "/tmp") + "/mcs.XXXXXX";
        std::vector<char> b(p.begin(), p.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) abort();
        path = b.data();
    }
    ~Scratch() {
        if (getpid() == owner && path.size() > 5)
            (void)!system(("rm -rf '" + path + "'").c_str());
    }
    std::string operator/(const std::string &s) const { return path + "/" + s; }
};

} // namespace mc
#endif
