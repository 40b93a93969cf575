// A deterministic scheduler for threads inside instrumented code: one thread runs at a time and the
// choices of the case decide where it is preempted.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "pbt.h"
#include <functional>
namespace sched {
// Runs the functions as threads until all have returned.  A schedule in which no thread can go on is
// a failure ("deadlock"), and so is one that does not end after maxsteps accesses ("livelock").
void run(pbt::Case &c, const std::vector<std::function<void()>> &fs, uint64_t maxsteps = 3000000);
extern __thread int me, quiet;
struct Quiet { Quiet() { quiet++; __asm__ volatile("" ::: "memory"); } ~Quiet() { __asm__ volatile("" ::: "memory"); quiet--; } };   // no preemption inside
void yield();                                                   // let the others run
uint64_t steps();                                               // accesses so far: a clock for histories
int switches();
}
#endif
