// C07: running out of memory while reading, writing, validating, loading.
#include "act.h"
#include "main.h"
using namespace sim;
using std::string;

static void run() {
	std::unique_ptr<Act> a = draw_act();
	ev("%s", a->desc.c_str());
	ActResult base = a->perform(0);
	ev("without failures: %s, %llu allocations", show(base.o).c_str(), (unsigned long long)base.allocs);
	if (base.leaked) violate("leak:" + a->name, "%zu blocks are still allocated after %s (first: %zu bytes)", base.leaked, a->desc.c_str(), base.leak.size);
	uint64_t fired = 0;
	unsigned n = 1 + draw(4);
	for (unsigned i = 0; i < n && base.allocs; ++i) {
		AllocPlan p;
		p.fail_at = draw(base.allocs);
		p.repeat = 1 + (chance(1, 4) ? draw(20) : 0);
		p.persistent = chance(1, 4);
		ev("allocation %lld fails%s", (long long)p.fail_at, p.persistent ? ", and all later ones" : "");
		ActResult r = a->perform(&p);
		fired += r.fired;
		ev("-> %s", show(r.o).c_str());
		if (!r.fired) { probe("fewer allocations the second time"); continue; }
		if (r.o.ok) {
			probe("completed without that memory");
			if (!base.o.ok) violate("accepted:" + a->name, "%s fails, but succeeds when memory runs out: %s", a->desc.c_str(), show(r.o.v).c_str());
			if (!same(r.o.v, base.o.v)) violate("altered:" + a->name, "%s gives %s when memory runs out, otherwise %s", a->desc.c_str(), show(r.o.v).c_str(), show(base.o.v).c_str());
			if (r.out != base.out) violate("altered-output:" + a->name, "%s writes %s when memory runs out, otherwise %s", a->desc.c_str(), quote(r.out).c_str(), quote(base.out).c_str());
		} else {
			probe("reported");
		}
		if (r.leaked) violate("leak:" + a->name, "%zu blocks are still allocated after %s ran out of memory (first: %zu bytes)", r.leaked, a->desc.c_str(), r.leak.size);
		if (!r.exited && r.opens != r.closes) violate("file-left-open:" + a->name, "%llu files opened, %llu closed", (unsigned long long)r.opens, (unsigned long long)r.closes);
		if (r.handles != r.handles_closed) violate("handle-left-open:" + a->name, "%llu transfers opened, %llu closed", (unsigned long long)r.handles, (unsigned long long)r.handles_closed);
		mix(p.fail_at); mix(r.o.ok);
	}
	// everything works again
	ActResult again = a->perform(0);
	if (again.o.ok != base.o.ok || !same(again.o.v, base.o.v) || again.out != base.out) violate("lasting:" + a->name, "%s gave %s before and %s after memory ran out", a->desc.c_str(), show(base.o).c_str(), show(again.o).c_str());
	if (fired) nontrivial();
	mix(fnv(a->desc.data(), a->desc.size()));
	sample("%s: %llu allocations, %llu failed", a->desc.substr(0, 120).c_str(), (unsigned long long)base.allocs, (unsigned long long)fired);
}
static Register r({"C07", "each run draws an operation (parse, guess, iterate, payload, events; write, payload, several documents, fixed buffer; validate, load schemas from files and network, defaults; copy, flatten, diff, paths; command-line arguments), performs it once to count its allocations, then 1-4 times with a drawn allocation failing (once, several, or for ever), then once more; results, outputs, inputs, files, transfers and memory are compared; non-trivial: an allocation failed", run, 160000000, 64, true});
