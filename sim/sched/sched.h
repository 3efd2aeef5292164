// Simulated threads: real threads of which exactly one runs at a time, chosen
// by the seeded scheduler at memory accesses and synchronisation operations
// of the code under test, with a happens-before race detector.
#pragma once
#include "../core.h"
#include <functional>
namespace sim {
enum { MAX_THREADS = 4 };
// Runs the bodies as threads under the scheduler until all have ended.
void run_threads(const std::vector<std::function<void()>> &bodies);
struct SchedStats { uint64_t accesses, shared_accesses, atomics, preemptions, sync_blocks, static_accesses; };
extern SchedStats sched_stats;
// Called when the running thread changes: puts the environment of one thread away and takes out that of the other.
extern void (*g_switch_hook)(int from, int to);
}
