// A controlled scheduler of real threads: one runs at a time, and it changes
// only at scheduling points (sched.cpp intercepts the locks, the hook points of
// the repository, the functions of its sources and the allocations).
#pragma once
#include <cstdint>
#include <functional>
namespace sched {
enum Kind { FINE = 0, COARSE = 1 };
const int MAXT = 4, MAXPLAN = 8, MAXTRACE = 1 << 17;
struct Preempt { uint64_t at; int to; };               // before the counted point number 'at', thread 'to' goes on
struct Plan { bool fine = true; int np = 0; Preempt p[MAXPLAN]; int nc = 0; int choice[16] = {0}; }; // choice: who goes on at each forced switch (index among those that can)
struct Point { uint8_t thread, enabled, kind, pad; };
struct Trace { uint64_t n, total, coarse; int forced, forcedOptions[16]; uint64_t forcedAt[16]; int preempted, deadlock; uint64_t blockedTimes; Point pt[MAXTRACE]; };
// runs the functions to completion under the plan
void run(int n, const std::function<void(int)>* fns, const Plan& plan, Trace* trace);
void point(int kind);
extern bool inlineThreads; // the next thread created runs in its creator
void neverReuse(); // from now on freed memory is overwritten and kept
} // namespace sched
