// C06: running out of memory leaves every value usable.
#include "values.h"
#include "main.h"
using namespace sim;

static void run() {
	uint64_t mark = ledger_mark();
	uint64_t fired;
	unsigned used;
	{
		Values::Options o;
		o.nops = 10 + draw(60);
		o.fault = true;
		Values v(o);
		v.run();
		fired = v.fired; used = v.refs_used;
	}
	LedgerBlock b;
	if (size_t n = ledger_live(mark, &b)) violate("leak", "%zu blocks are still allocated after all values are gone (first: %zu bytes, allocation %llu)", n, b.size, (unsigned long long)b.seq);
	if (fired) nontrivial();
	mix(fired); mix(used);
	sample("%llu allocations failed", (unsigned long long)fired);
}
static Register r({"C06", "each run performs up to 70 drawn operations on 2-4 variables and up to 5 references in step with a reference model; before an operation an allocation failure (the n-th, for one, two or all later allocations) may be armed; after the first operation that fails because of it, all values the operation does not modify are compared, all values and references are read, reassigned and destroyed, and the memory is counted; non-trivial: an allocation failed", run, 160000000, 64, true});
