// C16: files, streams, transfers, memory and callbacks are released exactly once.
#include "act.h"
#include "main.h"
using namespace sim;
using std::string;

static void check(Act &a, const ActResult &r, const char *when) {
	if (r.exited) return;
	if (r.leaked) violate("leak:" + a.name, "%zu blocks are still allocated %s %s (first: %zu bytes)", r.leaked, when, a.desc.c_str(), r.leak.size);
	if (r.opens != r.closes) violate("files:" + a.name, "%llu files opened, %llu closed %s %s", (unsigned long long)r.opens, (unsigned long long)r.closes, when, a.desc.c_str());
	if (r.handles != r.handles_closed) violate("transfers:" + a.name, "%llu transfers opened, %llu closed %s %s", (unsigned long long)r.handles, (unsigned long long)r.handles_closed, when, a.desc.c_str());
	if (r.objects) violate("objects:" + a.name, "%lld objects supplied by the caller were not released %s %s", (long long)r.objects, when, a.desc.c_str());
}
static void run() {
	std::unique_ptr<Act> a = draw_act(ACT_ALL & ~ACT_EDIT);
	ev("%s", a->desc.c_str());
	uint64_t allocs = 0;
	unsigned n = 1 + draw(3);
	bool any = false;
	for (unsigned i = 0; i < n; ++i) {
		bool fault = draw(3) && a->add_fault();
		AllocPlan p;
		bool alloc = allocs && chance(1, 3);
		if (alloc) { p.fail_at = draw(allocs); p.repeat = 1 + (chance(1, 4) ? draw(20) : 0); p.persistent = chance(1, 4); ev("allocation %lld fails%s", (long long)p.fail_at, p.persistent ? ", and all later ones" : ""); }
		ActResult r = a->perform(alloc ? &p : 0);
		ev("-> %s, %llu failures, %llu failed allocations", show(r.o).c_str(), (unsigned long long)r.injected, (unsigned long long)r.fired);
		check(*a, r, r.injected || r.fired ? "after a failure during" : r.o.ok ? "after" : "after the refusal of");
		allocs = r.allocs;
		if (r.injected) probe(r.o.ok ? "failure, completed" : "failure, reported");
		if (r.fired) probe("allocation failed");
		if (r.injected || r.fired || !r.o.ok) any = true;
		mix(r.o.ok); mix(r.injected);
		if (fault) a->clear_fault();
	}
	if (any) nontrivial();
	mix(fnv(a->desc.data(), a->desc.size()));
	sample("%s, performed %u times", a->desc.substr(0, 120).c_str(), n);
}
static Register r({"C16", "each run draws an operation (parse, iterate, payload, events; write, several documents; validate and load schemas from files and network; arguments; outputs owning their stream or not; binary data with release callbacks) and performs it 1-3 times with a drawn failure (read error, early end, handler exception, refused or failing write, full disk, failing open, flush, close, transfer, allocation); afterwards memory, files, transfers, streams, caller objects and callbacks are accounted for; non-trivial: something failed or was refused", run, 160000000, 64, true});
