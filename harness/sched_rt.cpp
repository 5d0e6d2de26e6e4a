// Runtime behind sched.hpp. Linked instead of the ThreadSanitizer runtime: it receives every
// instrumented memory access, atomic operation, lock and static-initialisation guard of the code
// under test, lets exactly one thread run at a time, and checks a happens-before relation.
#include "sched.hpp"
#include "mc.hpp"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <execinfo.h>
#include <sys/syscall.h>
#include <map>

namespace {
constexpr int MAXT = 4;          // controlled threads
constexpr int NT = MAXT + 1;     // + main (index MAXT)
constexpr int MAXSTEP = 1 << 15;

struct StepRec {
    unsigned char chosen, cur, enabled, yield, region;
};
struct Shared {
    int nprefix;
    unsigned char prefix[MAXSTEP];
    int nsteps;
    StepRec steps[MAXSTEP];
    int diverged, truncated, finished;
    char violation[4096];
    char outcome[8192];
};
Shared *S = nullptr;

// --- execution state (in the child process) -------------------------------------------------
bool g_on = false; // controlled phase
unsigned char g_region = 0; // its number
int g_nthreads = 0;
sem_t g_sem[NT];
enum St { RUN, BLOCK_MUTEX, BLOCK_GUARD, BLOCK_COND, DONE, SLEEPING };
struct Th {
    St st = DONE;
    void *on = nullptr;
    bool cond_signalled = false;
    bool rd = false;
    int fresh_yield = 0;
};
Th g_th[NT];
int g_cur = MAXT;
long g_clockcount = 0;
__thread int t_self = -1;
__thread int t_inrt = 0; // inside the runtime: pass everything through
int g_spin = 0;

// plain open-addressing containers on mmap'd memory, so that the runtime itself never allocates
struct VC {
    unsigned c[NT];
};
VC g_vc[NT];

void vcjoin(VC &a, const VC &b) {
    for (int i = 0; i < NT; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

template <class V, unsigned LOG>
struct Table {
    struct E {
        uintptr_t k;
        V v;
    };
    E *e = nullptr;
    unsigned n = 0;
    void init() {
        e = static_cast<E *>(mmap(nullptr, sizeof(E) << LOG, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    void clear() {
        if (n) madvise(e, sizeof(E) << LOG, MADV_DONTNEED);
        n = 0;
    }
    V &operator[](uintptr_t k) {
        uint64_t h = ((((k >> 6) * 0x9E3779B97F4A7C15ULL) >> (64 - LOG + 6)) << 6) | (k & 63);
        for (;;) {
            E &x = e[h];
            if (x.k == k) return x.v;
            if (x.k == 0) {
                x.k = k;
                if (++n > (1u << LOG) * 3 / 4) abort();
                return x.v;
            }
            h = (h + 1) & ((1u << LOG) - 1);
        }
    }
    V *find(uintptr_t k) {
        uint64_t h = ((((k >> 6) * 0x9E3779B97F4A7C15ULL) >> (64 - LOG + 6)) << 6) | (k & 63);
        for (;;) {
            E &x = e[h];
            if (x.k == k) return &x.v;
            if (x.k == 0) return nullptr;
            h = (h + 1) & ((1u << LOG) - 1);
        }
    }
};

struct Acc {
    unsigned clk;
    unsigned char tid, mask, write; // mask==0: empty
};
struct Shadow {
    Acc a[8];
    unsigned char next, freed;
};
struct Sync {
    VC vc;
    int owner;    // mutex: tid+1; rwlock writer
    int count;    // recursion / readers
    int guard;    // 0 none 1 running 2 done
};
struct Blk {
    size_t size;
    bool freed;
};
Table<Shadow, 22> g_shadow;
Table<Sync, 16> g_sync;

void *real_new(size_t n);

void report(const char *fmt, const std::string &a = "", const std::string &b = "") {
    if (!S || S->violation[0]) return;
    snprintf(S->violation, sizeof S->violation, "%s %s %s", fmt, a.c_str(), b.c_str());
}

std::string where(int skip = 2) {
    void *bt[12];
    int n = backtrace(bt, 12);
    char **s = backtrace_symbols(bt, n);
    std::string o;
    for (int i = skip; i < n && i < skip + 5; ++i) {
        std::string t = s[i];
        auto p = t.find('('), q = t.find('+');
        if (p != std::string::npos && q != std::string::npos && q > p + 1)
            o += " <- " + t.substr(p + 1, q - p - 1);
        else if (q != std::string::npos && t.find(')') != std::string::npos)
            o += " <- " + t.substr(q, t.find(')') - q); // an offset in the program
    }
    free(s);
    return o.substr(0, 1500);
}

struct InRt {
    InRt() { ++t_inrt; }
    ~InRt() { --t_inrt; }
};
inline bool active() { return g_on && t_self >= 0 && t_inrt == 0; }

// --- the scheduler -------------------------------------------------------------------------
bool runnable(int t) {
    Th &h = g_th[t];
    switch (h.st) {
    case RUN: return true;
    case SLEEPING: return true;
    case BLOCK_MUTEX: {
        Sync &s = g_sync[reinterpret_cast<uintptr_t>(h.on)];
        if (h.rd) return s.owner == 0;
        return (s.owner == 0 || s.owner == t + 1) && (s.owner != 0 || s.count == 0);
    }
    case BLOCK_GUARD: return g_sync[reinterpret_cast<uintptr_t>(h.on)].guard != 1;
    case BLOCK_COND: return h.cond_signalled;
    case DONE: return false;
    }
    return false;
}

void finish_execution() {
    S->finished = 1;
}

[[noreturn]] void bail(const char *msg) {
    report(msg, where(2));
    S->finished = 1;
    _exit(0);
}

// Called by the running thread; decides who runs next and passes the token.
// `yield`: the current thread asks for others to run first.
void schedule(bool yield) {
    int me = g_cur;
    unsigned char en = 0;
    for (int i = 0; i < g_nthreads; ++i)
        if (runnable(i)) en |= 1u << i;
    ++g_clockcount;
    if (en == 0) {
        bool all = true;
        for (int i = 0; i < g_nthreads; ++i) all &= g_th[i].st == DONE;
        if (all) {
            finish_execution();
            sem_post(&g_sem[MAXT]);
            return;
        }
        bail("deadlock: no thread can run;");
    }
    int i = S->nsteps;
    if (i >= MAXSTEP - 1) {
        bail("no progress: the step limit was reached;");
    }
    int next;
    bool me_ok = (en >> me) & 1;
    unsigned char others = en & ~(me_ok ? (1u << me) : 0);
    if (++g_spin > 3000) { // a thread spinning without yielding
        yield = true;
        g_spin = 0;
    }
    if (i < S->nprefix) {
        next = S->prefix[i];
        if (!((en >> next) & 1)) {
            S->diverged = 1;
            next = me_ok ? me : __builtin_ctz(en);
        }
    } else if (me_ok && !(yield && others)) {
        next = me;
    } else if (yield && others) {
        // round robin among the others
        next = me;
        for (int k = 1; k <= g_nthreads; ++k) {
            int c = (me + k) % g_nthreads;
            if ((others >> c) & 1) {
                next = c;
                break;
            }
        }
    } else {
        next = __builtin_ctz(en);
    }
    S->steps[i] = StepRec{static_cast<unsigned char>(next), static_cast<unsigned char>(me),
                          static_cast<unsigned char>(en), static_cast<unsigned char>(yield), g_region};
    S->nsteps = i + 1;
    if (next != me) {
        g_spin = 0;
        g_cur = next;
        sem_post(&g_sem[next]);
        if (g_th[me].st == DONE) return;
        while (sem_wait(&g_sem[me]) != 0) {}
    }
}

void spoint(bool yield = false) { schedule(yield); }

void block(St st, void *on) {
    g_th[t_self].st = st;
    g_th[t_self].on = on;
    schedule(false);
    g_th[t_self].st = RUN;
    g_th[t_self].on = nullptr;
}

void acquire_vc(uintptr_t a) { vcjoin(g_vc[t_self], g_sync[a].vc); }
void release_vc(uintptr_t a) {
    vcjoin(g_sync[a].vc, g_vc[t_self]);
    ++g_vc[t_self].c[t_self];
}

// --- memory accesses -----------------------------------------------------------------------
bool g_atomic_points = true;
bool g_child = false; // in the process of one execution

void access1(uintptr_t g, unsigned char mask, bool write) {
    Shadow &s = g_shadow[g];
    if (s.freed) report("use of freed memory;", where(3));
    int me = t_self;
    unsigned clk = g_vc[me].c[me];
    int slot = -1;
    for (int i = 0; i < 8; ++i) {
        Acc &a = s.a[i];
        if (a.mask == 0) {
            if (slot < 0) slot = i;
            continue;
        }
        if ((a.mask & mask) == 0) continue;
        if (a.tid == me) {
            if (a.write == write || write) {
                a.mask &= ~mask;
                if (a.mask == 0 && slot < 0) slot = i;
            }
            continue;
        }
        if ((a.write || write) && a.clk > g_vc[me].c[a.tid]) {
            report(write ? (a.write ? "data race: concurrent writes;" : "data race: write concurrent with a read;")
                         : "data race: read concurrent with a write;",
                   where(3));
        }
    }
    if (slot < 0) slot = s.next++ & 7;
    s.a[slot] = Acc{clk, static_cast<unsigned char>(me), mask, static_cast<unsigned char>(write)};
}

void access(const void *p, size_t n, bool write) {
    if (!active()) return;
    InRt g;
    auto a = reinterpret_cast<uintptr_t>(p);
    if (n == 0) return;
    while (n) {
        uintptr_t gr = a >> 3;
        unsigned off = a & 7;
        size_t len = std::min<size_t>(8 - off, n);
        access1(gr, static_cast<unsigned char>(((1u << len) - 1) << off), write);
        a += len;
        n -= len;
    }
}
// A fresh allocation: forget what earlier owners of the memory did.
void fresh(const void *p, size_t n) {
    if (!active()) return;
    InRt g;
    auto a = reinterpret_cast<uintptr_t>(p), e = a + n;
    for (uintptr_t q = a >> 3; q <= (e >> 3) && n; ++q)
        if (Shadow *s = g_shadow.find(q)) memset(s, 0, sizeof *s);
}
pthread_key_t g_key;

void thread_end(void *) {
    // runs after C++ thread_local destructors
    InRt g;
    int me = t_self;
    if (me < 0) return;
    t_self = -1;
    // everything this thread did happens before the verdict
    vcjoin(g_vc[MAXT], g_vc[me]);
    g_th[me].st = DONE;
    g_cur = me;
    schedule(false);
}

struct Arg {
    const std::function<void(int)> *f;
    int i;
};
void *thread_main(void *v) {
    Arg *a = static_cast<Arg *>(v);
    int i = a->i;
    while (sem_wait(&g_sem[i]) != 0) {}
    t_self = i;
    pthread_setspecific(g_key, reinterpret_cast<void *>(1));
    try {
        (*a->f)(i);
    } catch (std::exception &e) {
        InRt g;
        report("uncaught exception in a thread:", e.what());
    } catch (...) {
        InRt g;
        report("uncaught exception in a thread");
    }
    return nullptr;
}
// One controlled phase: n threads run f(0..n-1) to their ends, one at a time.
void phase(int n, const std::function<void(int)> &f) {
    InRt rt;
    if (n > MAXT) abort();
    g_shadow.clear();
    g_sync.clear();
    g_nthreads = n;
    g_spin = 0;
    pthread_t th[MAXT];
    Arg args[MAXT];
    for (int i = 0; i < NT; ++i) {
        sem_init(&g_sem[i], 0, 0);
        for (int k = 0; k < NT; ++k) g_vc[i].c[k] = 0;
        g_vc[i].c[i] = 1;
    }
    for (int i = 0; i < n; ++i) {
        args[i] = Arg{&f, i};
        g_th[i] = Th();
        g_th[i].st = RUN;
        ++g_vc[i].c[i];
        if (pthread_create(&th[i], nullptr, thread_main, &args[i]) != 0) abort();
    }
    g_cur = 0;
    // first decision: which thread starts
    {
        int at = S->nsteps;
        if (at >= MAXSTEP - 1) bail("no progress: the step limit was reached;");
        unsigned char en = (1u << n) - 1;
        int next = 0;
        if (S->nprefix > at) next = S->prefix[at];
        if (next >= n) S->diverged = 1, next = 0;
        S->steps[at] = StepRec{static_cast<unsigned char>(next), 255, en, 0, ++g_region};
        S->nsteps = at + 1;
        g_cur = next;
        g_on = true;
        sem_post(&g_sem[next]);
    }
    while (sem_wait(&g_sem[MAXT]) != 0) {}
    g_on = false;
    for (int i = 0; i < n; ++i) pthread_join(th[i], nullptr);
    g_cur = MAXT;
}
void run_child(const sched::Program &p) {
    g_shadow.init();
    g_sync.init();
    g_child = true;
    alarm(120);
    pthread_key_create(&g_key, thread_end);
    if (p.setup) p.setup();
    if (p.nthreads) phase(p.nthreads, p.thread);
    std::string out, viol;
    if (p.verdict) p.verdict(out, viol);
    snprintf(S->outcome, sizeof S->outcome, "%s", out.c_str());
    if (!viol.empty()) report("", viol);
    _exit(0);
}
} // namespace

namespace sched {
void point() {
    if (!active()) return;
    InRt g;
    spoint();
}
long now() { return ++g_clockcount; }
int self() { return t_self; }

Stats explore(const Program &p, int preempt, long long max_exec, int part, int parts) {
    if (!S) {
        S = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    Stats st;
    std::vector<std::vector<unsigned char>> stack{{}};
    while (!stack.empty()) {
        if (st.executions >= max_exec) {
            st.truncated = 1;
            break;
        }
        auto prefix = std::move(stack.back());
        stack.pop_back();
        S->nprefix = static_cast<int>(prefix.size());
        memcpy(S->prefix, prefix.data(), prefix.size());
        S->nsteps = S->diverged = S->finished = 0;
        S->violation[0] = S->outcome[0] = 0;
        pid_t pid = fork();
        if (pid == 0) run_child(p);
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        ++st.executions;
        int n = S->nsteps;
        st.steps += n;
        st.nodes += n - static_cast<int>(prefix.size());
        st.max_len = std::max<long long>(st.max_len, n);
        st.diverged += S->diverged;
        std::string v = S->violation;
        if (v.empty() && WIFSIGNALED(status))
            v = mc::cat("crash: ", WTERMSIG(status) == SIGALRM ? "no end (timeout)" : strsignal(WTERMSIG(status)));
        else if (v.empty() && WEXITSTATUS(status) != 0)
            v = mc::cat("crash: exit status ", WEXITSTATUS(status));
        mc::outcome(p.label + S->outcome);
        if (!v.empty()) {
            std::string s;
            int last = -1, run = 0;
            for (int i = 0; i < n; ++i) {
                if (S->steps[i].chosen != last) {
                    if (last >= 0) s += mc::cat(" t", last, "x", run);
                    last = S->steps[i].chosen;
                    run = 0;
                }
                ++run;
            }
            s += mc::cat(" t", last, "x", run);
            auto cut = v.find(';');
            std::string cls = cut == std::string::npos ? v : v.substr(0, cut);
            mc::violation(cls.substr(0, 160), mc::cat(v, " | schedule:", s, " | outcome: ", S->outcome));
            break;
        }
        // alternatives after the prefix
        std::vector<unsigned char> path(n);
        for (int i = 0; i < n; ++i) path[i] = S->steps[i].chosen;
        std::vector<int> cost(n + 1, 0);
        int branch = 0;
        auto c1 = [&](int i, int t) {
            const StepRec &r = S->steps[i];
            if (r.cur == 255) return 0;
            if (t == r.cur) return 0;
            if (((r.enabled >> r.cur) & 1) && !r.yield) return 1;
            return 0;
        };
        for (int i = 0; i < n; ++i) cost[i + 1] = cost[i] + c1(i, path[i]);
        for (int i = n - 1; i >= static_cast<int>(prefix.size()); --i) {
            for (int t = 0; t < MAXT; ++t) {
                if (t == path[i] || !((S->steps[i].enabled >> t) & 1)) continue;
                if (cost[i] + c1(i, t) > preempt) continue;
                if (!prefix.empty() && S->steps[i].region != S->steps[prefix.size() - 1].region) continue; // phases are independent
                if (prefix.empty() && branch++ % parts != part) continue; // another process explores it
                std::vector<unsigned char> q(path.begin(), path.begin() + i);
                q.push_back(t);
                stack.push_back(std::move(q));
            }
        }
    }
    auto &r = mc::R();
    r.traces += st.executions;
    r.evaluations += st.executions;
    r.states += st.nodes;
    r.transitions += st.steps;
    if (st.diverged) mc::count("diverged_replays", st.diverged);
    if (st.truncated) mc::count("programs_truncated");
    return st;
}
} // namespace sched

// --- instrumentation entry points ----------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                      \
    void __tsan_read##n(void *p) { access(p, n, false); }                                          \
    void __tsan_write##n(void *p) { access(p, n, true); }                                          \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); }                                 \
    void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) {
    if (*p != v) access(p, 8, true);
}
void __tsan_vptr_read(void **p) { access(p, 8, false); }

static void at_pre(const volatile void *a) {
    if (active() && g_atomic_points) {
        InRt g;
        spoint();
    }
    (void)a;
}
static void at_post(const volatile void *a) {
    if (active()) {
        InRt g;
        auto k = reinterpret_cast<uintptr_t>(a);
        acquire_vc(k);
        release_vc(k);
    }
}
#define ATOMICS(n, T)                                                                              \
    T __tsan_atomic##n##_load(const volatile T *a, int) {                                          \
        at_pre(a);                                                                                 \
        T r = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) {                                       \
        at_pre(a);                                                                                 \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
        at_post(a);                                                                                \
    }                                                                                              \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) {                                       \
        at_pre(a);                                                                                 \
        T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                         \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) {                                      \
        at_pre(a);                                                                                 \
        T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                          \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) {                                      \
        at_pre(a);                                                                                 \
        T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                          \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) {                                      \
        at_pre(a);                                                                                 \
        T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                          \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) {                                       \
        at_pre(a);                                                                                 \
        T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                           \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) {                                      \
        at_pre(a);                                                                                 \
        T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                          \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {           \
        at_pre(a);                                                                                 \
        int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
        at_post(a);                                                                                \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int m1, int m2) {       \
        return __tsan_atomic##n##_compare_exchange_strong(a, c, v, m1, m2);                        \
    }                                                                                              \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                 \
        at_pre(a);                                                                                 \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
        at_post(a);                                                                                \
        return c;                                                                                  \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// --- locks -----------------------------------------------------------------------------------
#define REAL(name) __real_##name
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);

static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active()) return __real_pthread_mutex_lock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    spoint();
    Sync &s = g_sync[k];
    if (s.owner == t_self + 1 && recursive(m)) {
        ++s.count;
        return 0;
    }
    if (s.owner == t_self + 1) {
        // self deadlock: a plain mutex blocks for ever
        g_th[t_self].rd = false;
        for (;;) {
            g_th[t_self].st = BLOCK_COND;
            g_th[t_self].cond_signalled = false;
            schedule(false);
        }
    }
    while (s.owner != 0) {
        g_th[t_self].rd = false;
        block(BLOCK_MUTEX, m);
    }
    s.owner = t_self + 1;
    acquire_vc(k);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active()) return __real_pthread_mutex_trylock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    spoint();
    Sync &s = g_sync[k];
    if (s.owner == t_self + 1 && recursive(m)) {
        ++s.count;
        return 0;
    }
    if (s.owner != 0) return EBUSY;
    s.owner = t_self + 1;
    acquire_vc(k);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active()) return __real_pthread_mutex_unlock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    Sync &s = g_sync[k];
    if (s.owner != t_self + 1) {
        report("unlock of a mutex that the thread does not hold;", where(2));
        return EPERM;
    }
    if (s.count > 0) {
        --s.count;
        return 0;
    }
    release_vc(k);
    s.owner = 0;
    spoint();
    return 0;
}

int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!active()) return __real_pthread_rwlock_rdlock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    spoint();
    Sync &s = g_sync[k];
    while (s.owner != 0) {
        g_th[t_self].rd = true;
        block(BLOCK_MUTEX, m);
    }
    ++s.count;
    acquire_vc(k);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!active()) return __real_pthread_rwlock_wrlock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    spoint();
    Sync &s = g_sync[k];
    while (s.owner != 0 || s.count != 0) {
        g_th[t_self].rd = false;
        block(BLOCK_MUTEX, m);
    }
    s.owner = t_self + 1;
    acquire_vc(k);
    return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
    if (!active()) return __real_pthread_rwlock_tryrdlock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    spoint();
    Sync &s = g_sync[k];
    if (s.owner != 0) return EBUSY;
    ++s.count;
    acquire_vc(k);
    return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
    if (!active()) return __real_pthread_rwlock_trywrlock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    spoint();
    Sync &s = g_sync[k];
    if (s.owner != 0 || s.count != 0) return EBUSY;
    s.owner = t_self + 1;
    acquire_vc(k);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!active()) return __real_pthread_rwlock_unlock(m);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(m);
    Sync &s = g_sync[k];
    release_vc(k);
    if (s.owner == t_self + 1)
        s.owner = 0;
    else
        --s.count;
    spoint();
    return 0;
}

int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active()) return __real_pthread_cond_wait(c, m);
    {
        InRt g;
        auto k = reinterpret_cast<uintptr_t>(m);
        Sync &s = g_sync[k];
        release_vc(k);
        s.owner = 0;
        g_th[t_self].cond_signalled = false;
        block(BLOCK_COND, c);
        acquire_vc(reinterpret_cast<uintptr_t>(c));
        while (g_sync[k].owner != 0) {
            g_th[t_self].rd = false;
            block(BLOCK_MUTEX, m);
        }
        g_sync[k].owner = t_self + 1;
        acquire_vc(k);
    }
    return 0;
}
static int cond_wake(pthread_cond_t *c, bool all) {
    InRt g;
    spoint();
    release_vc(reinterpret_cast<uintptr_t>(c));
    for (int i = 0; i < g_nthreads; ++i)
        if (g_th[i].st == BLOCK_COND && g_th[i].on == c && !g_th[i].cond_signalled) {
            g_th[i].cond_signalled = true;
            if (!all) break;
        }
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!active()) return __real_pthread_cond_signal(c);
    return cond_wake(c, false);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active()) return __real_pthread_cond_broadcast(c);
    return cond_wake(c, true);
}

int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
    if (!active()) return __real_pthread_once(o, f);
    auto k = reinterpret_cast<uintptr_t>(o);
    {
        InRt g;
        spoint();
        while (g_sync[k].guard == 1) block(BLOCK_GUARD, o);
        if (g_sync[k].guard == 2 || *o == 2) {
            acquire_vc(k);
            return 0;
        }
        g_sync[k].guard = 1;
        acquire_vc(k);
    }
    try {
        f();
    } catch (...) {
        InRt g;
        g_sync[k].guard = 0;
        release_vc(k);
        throw;
    }
    InRt g;
    g_sync[k].guard = 2;
    *o = 2;
    release_vc(k);
    spoint();
    return 0;
}

int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *p) {
    if (!active()) return __real___cxa_guard_acquire(p);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(p);
    spoint();
    while (g_sync[k].guard == 1) block(BLOCK_GUARD, p);
    acquire_vc(k);
    if (*static_cast<volatile char *>(p)) return 0;
    g_sync[k].guard = 1;
    return 1;
}
void __wrap___cxa_guard_release(void *p) {
    if (!active()) return __real___cxa_guard_release(p);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(p);
    *static_cast<volatile char *>(p) = 1;
    g_sync[k].guard = 2;
    release_vc(k);
    spoint();
}
void __wrap___cxa_guard_abort(void *p) {
    if (!active()) return __real___cxa_guard_abort(p);
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(p);
    g_sync[k].guard = 0;
    release_vc(k);
    spoint();
}

} // extern "C"
// --- OpenMP: a parallel region is a controlled phase ---------------------------------------------
namespace {
int g_team = 0;             // threads of a region; 0: regions run sequentially
struct Loop {
    bool init = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    int left = 0;
};
std::map<int, Loop> g_loops; // work-sharing loops of the region, by their number
int g_loopno[NT];
std::map<int, int> g_single;
int g_singleno[NT];
int g_barrier_in = 0, g_barrier_round = 0;
void lock_at(void *p) {
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(p);
    spoint();
    while (g_sync[k].owner != 0) {
        g_th[t_self].rd = false;
        if (g_sync[k].owner == t_self + 1) bail("deadlock: a thread enters a critical section twice;");
        block(BLOCK_MUTEX, p);
    }
    g_sync[k].owner = t_self + 1;
    acquire_vc(k);
}
void unlock_at(void *p) {
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(p);
    release_vc(k);
    g_sync[k].owner = 0;
    spoint();
}
char g_unnamed, g_atomic, g_barrier;
void barrier() {
    InRt g;
    auto k = reinterpret_cast<uintptr_t>(&g_barrier);
    release_vc(k);
    int round = g_barrier_round;
    if (++g_barrier_in == g_nthreads) {
        g_barrier_in = 0;
        ++g_barrier_round;
        for (int i = 0; i < g_nthreads; ++i)
            if (g_th[i].st == BLOCK_COND && g_th[i].on == &g_barrier) g_th[i].cond_signalled = true;
    }
    while (g_barrier_round == round) {
        g_th[t_self].cond_signalled = false;
        block(BLOCK_COND, &g_barrier);
    }
    acquire_vc(k);
}
Loop g_seq; // the loop of a region that runs sequentially
Loop *loop_of(long start, long end, long incr, long chunk) {
    Loop &l = g_loops[g_loopno[t_self]];
    if (!l.init) l = Loop{true, start, end, incr, std::max(1l, chunk), g_nthreads};
    return &l;
}
bool loop_next(long *a, long *b) {
    InRt g;
    spoint();
    Loop &l = g_loops[g_loopno[t_self]];
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *a = l.next;
    l.next += l.chunk * l.incr;
    if (l.incr > 0 ? l.next > l.end : l.next < l.end) l.next = l.end;
    *b = l.next;
    return true;
}
void region(void (*fn)(void *), void *data, unsigned n, std::function<void()> first) {
    int team = std::min(static_cast<int>(n ? n : g_team), g_team);
    if (g_on || t_self >= 0 || team <= 1 || !g_child) { // nested regions and sequential runs
        Loop outer = g_seq;
        if (first) first();
        fn(data);
        g_seq = outer;
        return;
    }
    g_loops.clear(), g_single.clear();
    for (auto &x : g_loopno) x = 0;
    for (auto &x : g_singleno) x = 0;
    g_barrier_in = g_barrier_round = 0;
    phase(team, [&](int) {
        if (first) first();
        fn(data);
    });
}
bool in_team() { return g_on && t_self >= 0; }
} // namespace
namespace sched {
void team(int n) { g_team = n; }
void atomic_points(bool on) { g_atomic_points = on; }
} // namespace sched
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { region(fn, data, n, nullptr); }
int omp_get_thread_num() { return in_team() ? t_self : 0; }
int omp_get_num_threads() { return in_team() ? g_nthreads : 1; }
int omp_get_max_threads() { return g_team > 0 ? g_team : 1; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return in_team(); }
int omp_get_level() { return in_team(); }
void omp_set_num_threads(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }
void GOMP_critical_name_start(void **p) {
    if (in_team()) lock_at(p);
}
void GOMP_critical_name_end(void **p) {
    if (in_team()) unlock_at(p);
}
void GOMP_critical_start() {
    if (in_team()) lock_at(&g_unnamed);
}
void GOMP_critical_end() {
    if (in_team()) unlock_at(&g_unnamed);
}
void GOMP_atomic_start() {
    if (in_team()) lock_at(&g_atomic);
}
void GOMP_atomic_end() {
    if (in_team()) unlock_at(&g_atomic);
}
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) {
    if (in_team()) lock_at(l);
}
void omp_unset_lock(void *l) {
    if (in_team()) unlock_at(l);
}
void GOMP_barrier() {
    if (in_team()) barrier();
}
bool GOMP_single_start() {
    if (!in_team()) return true;
    return g_single[g_singleno[t_self]++]++ == 0;
}
// loops with dynamic, guided or static chunks handed out at run time
static bool seq_next(long *x, long *y) {
    if (!g_seq.init) return false;
    g_seq.init = false;
    *x = g_seq.next, *y = g_seq.end;
    return g_seq.incr > 0 ? *x < *y : *x > *y;
}
static void loop_start(long a, long b, long i, long c) {
    if (!in_team()) {
        g_seq = Loop{true, a, b, i, 1, 1};
        return;
    }
    InRt g;
    loop_of(a, b, i, c);
}
#define LOOPS(kind)                                                                                \
    bool GOMP_loop_##kind##_next(long *x, long *y) { return in_team() ? loop_next(x, y) : seq_next(x, y); } \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long *x, long *y) {              \
        loop_start(a, b, i, c);                                                                    \
        return GOMP_loop_##kind##_next(x, y);                                                      \
    }                                                                                              \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { \
        region(fn, d, n, [=] { loop_start(a, b, i, c); });                                         \
    }
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
void GOMP_loop_end() {
    if (!in_team()) return;
    ++g_loopno[t_self];
    barrier();
}
void GOMP_loop_end_nowait() {
    if (in_team()) ++g_loopno[t_self];
}
}

extern "C" {
// --- waiting ---------------------------------------------------------------------------------
int __real_sched_yield();
int __wrap_sched_yield() {
    if (!active()) return __real_sched_yield();
    InRt g;
    spoint(true);
    return 0;
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
    if (!active()) return __real_nanosleep(a, b);
    InRt g;
    spoint(true);
    return 0;
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (!active()) return __real_clock_nanosleep(c, f, a, b);
    InRt g;
    spoint(true);
    return 0;
}
int __real_usleep(unsigned);
int __wrap_usleep(unsigned u) {
    if (!active()) return __real_usleep(u);
    InRt g;
    spoint(true);
    return 0;
}

// --- block memory functions -------------------------------------------------------------------
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return __real_memcpy(d, s, n);
}
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return __real_memmove(d, s, n);
}
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *d, int c, size_t n) {
    access(d, n, true);
    return __real_memset(d, c, n);
}
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) {
    access(a, n, false);
    access(b, n, false);
    return __real_memcmp(a, b, n);
}
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *a) {
    size_t n = __real_strlen(a);
    access(a, n + 1, false);
    return n;
}
// std::string::compare and assign call these through libstdc++ headers when instantiated here

void *__real___cxa_allocate_exception(size_t);
void *__wrap___cxa_allocate_exception(size_t n) {
    void *p = __real___cxa_allocate_exception(n);
    fresh(p, n);
    return p;
}

// memory from malloc may be used again at once: forget what its earlier owners did
void *__real_malloc(size_t) __attribute__((weak));
void *__wrap_malloc(size_t n) {
    void *p = __real_malloc(n);
    if (p) fresh(p, n);
    return p;
}
void *__real_calloc(size_t, size_t) __attribute__((weak));
void *__wrap_calloc(size_t a, size_t b) {
    void *p = __real_calloc(a, b);
    if (p) fresh(p, a * b);
    return p;
}
void *__real_realloc(void *, size_t) __attribute__((weak));
void *__wrap_realloc(void *o, size_t n) {
    void *p = __real_realloc(o, n);
    if (p) fresh(p, n);
    return p;
}
void __real_free(void *) __attribute__((weak));
void __wrap_free(void *p) { __real_free(p); }

// --- sqlite: its calls are scheduling points ---------------------------------------------------
struct sqlite3;
struct sqlite3_stmt;
int __real_sqlite3_prepare_v2(sqlite3 *, const char *, int, sqlite3_stmt **, const char **);
int __wrap_sqlite3_prepare_v2(sqlite3 *d, const char *s, int n, sqlite3_stmt **o, const char **t) {
    sched::point();
    if (n < 0 && s) access(s, __real_strlen(s) + 1, false);
    return __real_sqlite3_prepare_v2(d, s, n, o, t);
}
int __real_sqlite3_step(sqlite3_stmt *);
int __wrap_sqlite3_step(sqlite3_stmt *s) {
    sched::point();
    return __real_sqlite3_step(s);
}
int __real_sqlite3_exec(sqlite3 *, const char *, int (*)(void *, int, char **, char **), void *, char **);
int __wrap_sqlite3_exec(sqlite3 *d, const char *s, int (*cb)(void *, int, char **, char **), void *u,
                        char **e) {
    sched::point();
    if (s) access(s, __real_strlen(s) + 1, false);
    return __real_sqlite3_exec(d, s, cb, u, e);
}
} // extern "C"

// --- allocation: freed blocks are remembered and never handed out again during an execution -----
static void *do_new(size_t n) {
    void *p = malloc(n ? n + 16 : 32);
    if (!p) abort();
    *static_cast<size_t *>(p) = n;
    fresh(p, n + 16);
    return static_cast<char *>(p) + 16;
}
static void do_delete(void *p) {
    if (!p) return;
    void *b = static_cast<char *>(p) - 16;
    if (active()) {
        size_t n = *static_cast<size_t *>(b);
        access(p, n, true); // a free races with any unordered access
        InRt g;
        auto a = reinterpret_cast<uintptr_t>(p);
        for (size_t i = 0; i < n; i += 8) g_shadow[(a + i) >> 3].freed = 1;
        return;
    }
    if (g_child) return; // after the controlled phase: leak, the process ends soon
    free(b);
}
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
