// Cooperative exploration: several connections of one process run as coroutines that give way between statements and
// whenever they sleep (busy waiting); every order is explored by replaying choices.
#ifndef VERIF_CORO_HPP
#define VERIF_CORO_HPP
#include "mc.hpp"
#include <dlfcn.h>
#include <time.h>
#include <ucontext.h>

namespace coro {
struct Fiber {
    ucontext_t c;
    std::vector<char> stack;
    std::function<void()> body;
    bool done = false, waiting = false;
    long since = 0;     // progress of the others when it started to wait
    long sleeps = 0;    // in a row
};
struct World {
    ucontext_t main;
    std::vector<std::unique_ptr<Fiber>> f;
    int cur = -1;
    long progress = 0;
    long free_sleeps = 0; // sleeps that do not give way (a long wait is shortened this way)
};
inline World *&world() {
    static World *w = nullptr;
    return w;
}
inline void back() {
    World &w = *world();
    swapcontext(&w.f[w.cur]->c, &w.main);
}
inline void point() { // between statements
    World *w = world();
    if (!w || w->cur < 0) return;
    auto &x = *w->f[w->cur];
    x.waiting = false, x.sleeps = 0;
    ++w->progress;
    back();
}
inline bool asleep() { // true: handled
    World *w = world();
    if (!w || w->cur < 0) return false;
    auto &x = *w->f[w->cur];
    ++x.sleeps;
    if (w->free_sleeps > 0) {
        --w->free_sleeps;
        return true;
    }
    x.waiting = true, x.since = w->progress;
    back();
    x.waiting = false;
    return true;
}
inline void entry() {
    World &w = *world();
    auto &x = *w.f[w.cur];
    x.body();
    x.done = true;
    ++w.progress;
    setcontext(&w.main);
}
struct Stats {
    long executions = 0, steps = 0, longest = 0;
};
// make() returns the bodies of one execution; verdict(stuck) is called after it. Every order with at most `preempt`
// preemptions; stops when verdict returns false.
inline Stats explore(std::function<std::vector<std::function<void()>>()> make, std::function<bool(bool, std::string const &)> verdict, int preempt) {
    Stats st;
    std::vector<int> choice, width;
    for (;;) {
        World w;
        world() = &w;
        auto bodies = make();
        for (auto &b : bodies) {
            w.f.emplace_back(new Fiber);
            auto &x = *w.f.back();
            x.body = b;
            x.stack.resize(256 << 10);
            getcontext(&x.c);
            x.c.uc_stack.ss_sp = x.stack.data(), x.c.uc_stack.ss_size = x.stack.size(), x.c.uc_link = nullptr;
            makecontext(&x.c, entry, 0);
        }
        int last = -1, used = 0;
        size_t depth = 0;
        bool stuck = false;
        std::string order;
        width.clear();
        for (;;) {
            std::vector<int> on;
            auto ready = [&](int i) { return !w.f[i]->done && (!w.f[i]->waiting || w.progress != w.f[i]->since); };
            bool cont = last >= 0 && ready(last) && !w.f[last]->waiting;
            if (cont) on.push_back(last);
            if (!cont || used < preempt)
                for (int i = 0; i < (int)w.f.size(); ++i)
                    if (ready(i) && !(cont && i == last)) on.push_back(i);
            if (on.empty()) {
                for (auto &x : w.f) stuck = stuck || !x->done;
                break;
            }
            if (choice.size() <= depth) choice.push_back(0);
            width.push_back(on.size());
            int k = on[choice[depth]];
            if (cont && k != last) ++used;
            ++depth;
            last = k;
            w.cur = k;
            order += char('0' + k);
            swapcontext(&w.main, &w.f[k]->c);
            w.cur = -1;
            ++st.steps;
            if (depth > 5000) {
                stuck = true;
                break;
            }
        }
        world() = nullptr;
        ++st.executions;
        st.longest = std::max<long>(st.longest, depth);
        if (!verdict(stuck, order)) return st;
        if (stuck) // abandoned coroutines hold what they hold
            for (auto &x : w.f) x.release();
        choice.resize(depth);
        while (!choice.empty() && choice.back() + 1 >= width[choice.size() - 1]) choice.pop_back();
        if (choice.empty()) return st;
        ++choice.back();
    }
}
} // namespace coro
extern "C" {
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (coro::asleep()) return 0;
    static auto f = (int (*)(const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "nanosleep");
    return f(a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (coro::asleep()) return 0;
    static auto f = (int (*)(clockid_t, int, const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "clock_nanosleep");
    return f(c, fl, a, b);
}
int usleep(useconds_t u) {
    if (coro::asleep()) return 0;
    static auto f = (int (*)(useconds_t))dlsym(RTLD_NEXT, "usleep");
    return f(u);
}
int sched_yield() {
    if (coro::asleep()) return 0;
    static auto f = (int (*)())dlsym(RTLD_NEXT, "sched_yield");
    return f();
}
}
#endif
