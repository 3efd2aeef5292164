// C12: independent work on several threads is independent.
#include "sched.h"
#include "../act.h"
#include "../main.h"
using namespace sim;
using std::string;
using std::vector;

// Every thread has a disk and a network of its own.
struct Env { Disk d; Net n; vector<string> f; int64_t live = 0; };
static Env *envs;
static void swap_env(int t) {
	if (t < 0) return;
	std::swap(disk, envs[t].d);
	std::swap(net, envs[t].n);
	std::swap(fetch_log, envs[t].f);
	std::swap(live_objects, envs[t].live);
}
static void switched(int from, int to) { Out o; swap_env(from); swap_env(to); }

struct Job { std::unique_ptr<Act> act; ActResult r; };

static void run() {
	unsigned n = 2 + draw(MAX_THREADS - 1);
	// swarm: kinds of work in this run
	unsigned kinds = ACT_PARSE | ACT_WRITE | ACT_SCHEMA | ACT_EDIT | ACT_OWN | ACT_DESCRIBE;
	if (chance(1, 2)) { kinds = chance(1, 8) ? ACT_DESCRIBE : 1u << draw(4); if (chance(1, 3)) kinds |= 1u << draw(4); }
	vector<Env> env(n);
	envs = env.data();
	g_switch_hook = switched;
	vector<vector<Job>> jobs(n);
	vector<std::function<void()>> bodies;
	for (unsigned t = 0; t < n; ++t) {
		unsigned k = 1 + draw(3);
		jobs[t].reserve(k);
		bodies.push_back([&jobs, t, k, kinds] {
			for (unsigned i = 0; i < k; ++i) {
				jobs[t].emplace_back();
				Job &j = jobs[t].back();
				j.act = draw_act(kinds);
				ev("thread %u starts %s", t, j.act->desc.c_str());
				set_op(j.act->name.c_str());
				j.r = j.act->perform_plain();
				ev("thread %u has %s", t, show(j.r.o).c_str());
			}
		});
	}
	run_threads(bodies);
	g_switch_hook = 0;
	SchedStats ss = sched_stats;
	unsigned total = 0;
	string list;
	for (unsigned t = 0; t < n; ++t)
		for (auto &j : jobs[t]) {
			++total;
			set_op(("alone:" + j.act->name).c_str());
			ActResult a = j.act->perform_plain();
			if (a.o.ok != j.r.o.ok || a.o.type != j.r.o.type)
				violate("outcome:" + j.act->name, "thread %u: %s ends with %s, alone with %s", t, j.act->desc.c_str(), show(j.r.o).c_str(), show(a.o).c_str());
			if (!same(a.o.v, j.r.o.v)) violate("value:" + j.act->name, "thread %u: %s gives %s, alone %s", t, j.act->desc.c_str(), show(j.r.o.v).c_str(), show(a.o.v).c_str());
			if (a.out != j.r.out) violate("output:" + j.act->name, "thread %u: %s writes %s, alone %s", t, j.act->desc.c_str(), quote(j.r.out).c_str(), quote(a.out).c_str());
			mix(hash(a.o.v));
			list += (list.empty() ? "" : ", ") + j.act->name;
		}
	if (ss.preemptions) nontrivial();
	if (ss.shared_accesses) probe("memory of the library used by two threads");
	if (ss.sync_blocks) probe("a thread waited for another");
	ev("%u threads, %u jobs, %llu accesses, %llu atomic, %llu shared, %llu preemptions, %llu waits", n, total, (unsigned long long)ss.accesses, (unsigned long long)ss.atomics, (unsigned long long)ss.shared_accesses, (unsigned long long)ss.preemptions, (unsigned long long)ss.sync_blocks);
	sample("%u threads: %.300s; %llu accesses, %llu preemptions", n, list.c_str(), (unsigned long long)ss.accesses, (unsigned long long)ss.preemptions);
	jobs.clear();
}
static Register r({"C12", "each run is a fresh process in which the library was never used; 2-4 threads perform 1-3 drawn operations each (reading, writing, validating with loading, editing, patching, ownership) on values of their own, one running at a time, preempted at drawn memory accesses and synchronisation operations of the library; a happens-before analysis looks for data races and every result is compared with the same operation performed alone; non-trivial: at least one preemption took effect; distinct by edges reached, preemption points and results", run, 400000000, 1, false});
