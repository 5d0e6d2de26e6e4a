// Controlled scheduler: systematic exploration of thread interleavings of real code.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Program {
    std::string label;
    int nthreads = 0;                         // 0: only the parallel regions of setup() are controlled
    std::function<void()> setup;              // uncontrolled, before the threads start
    std::function<void(int)> thread;          // controlled
    std::function<void(std::string &outcome, std::string &violation)> verdict; // after all ended
};
struct Stats {
    long long executions = 0, nodes = 0, steps = 0, max_len = 0, diverged = 0, truncated = 0;
};
// Explore every schedule with at most `preempt` preemptions; stop after the first violating one.
// Of the subtrees below the first execution only those of `part` (of `parts`) are explored.
Stats explore(const Program &p, int preempt, long long max_exec = 1LL << 60, int part = 0, int parts = 1);
void team(int n);   // threads of every OpenMP region in the executions (0: regions run sequentially)
void atomic_points(bool on); // whether atomic operations are scheduling points (default: yes)
void point();      // a scheduling point
long now();        // logical time (monotone over the whole execution)
int self();        // index of the controlled thread, -1 otherwise
} // namespace sched
#endif
