// C08: values, references and copies follow the documented sharing rules.
#include "values.h"
#include "main.h"
using namespace sim;

static void run() {
	uint64_t mark = ledger_mark();
	unsigned used, shared, failed;
	{
		Values::Options o;
		o.nops = 10 + draw(60);
		Values v(o);
		v.run();
		used = v.refs_used; shared = v.shared; failed = v.failed_ops;
	}
	LedgerBlock b;
	if (size_t n = ledger_live(mark, &b)) violate("leak", "%zu blocks are still allocated after all values are gone (first: %zu bytes, allocation %llu)", n, b.size, (unsigned long long)b.seq);
	if (used > 2 && shared) nontrivial();
	mix(used); mix(shared); mix(failed);
	sample("%u operations through references, %u containers shared, %u operations refused", used, shared, failed);
}
static Register r({"C08", "each run performs 10-70 drawn operations (assign, share, copy, set, append, erase, clear, merge, paths, arithmetic, take, read, compare, reassign and drop references, end of life) on 2-4 variables and up to 5 references, in step with a reference model; all variables are compared after every operation; non-trivial: operations through references and a shared container", run, 160000000, 64, true});
