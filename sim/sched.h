#pragma once
#include <cstdint>

// Cooperative scheduler: the bodies run as real threads, but only the one holding the baton runs. Every decision
// (who goes on, at which yield point) comes from the seed. This part is compiled without ThreadSanitizer, so that
// passing the baton does not count as synchronisation: two accesses of the code under test that are ordered only
// by the schedule are still reported as a race.
namespace sched {
struct Options {
    uint64_t seed = 1;
    double pSwitch = 0.3;   // at a yield point (random mode)
    double pAlloc = 0.0;    // yields at this share of the allocations
    int mode = 0;           // 0: random, 1: priorities with change points
    int changes = 3;        // mode 1: priority changes
    long horizon = 2000;    // mode 1: over this many yield points
};
struct Stats {
    long yields = 0, switches = 0, blocks = 0, steals = 0;
    uint64_t hash = 1;      // of the sequence of decisions
    bool deadlock = false;
};
typedef void (*Body)(void* arg, int index);
// Runs body(arg, 0..n-1) to completion. A deadlock ends the process with code 88.
Stats Run(int n, Body body, void* arg, const Options& o);
bool Inside();              // in a simulated thread
int Self();
void Yield();               // a point where another thread may go on
void YieldAlloc();
uint64_t Tick();            // global order of events (only one thread runs at a time)
}  // namespace sched
