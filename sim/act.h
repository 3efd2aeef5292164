// Self-contained library operations ("activities"): everything they need is
// drawn once, then they can be performed repeatedly under different faults
// and their observable results compared.
#pragma once
#include "common.h"
#include <functional>
#include <memory>
namespace sim {

struct ActResult {
	Outcome o;                 // o.v: the value, list of values or verdict
	std::string out;           // what arrived at the destination
	bool has_out = false;
	uint64_t allocs = 0, fired = 0;
	uint64_t injected = 0;     // failures of sources, sinks, disk, network and callbacks that were delivered
	bool exited = false;       // the operation ended the process; nothing is released then
	size_t leaked = 0;         // blocks still allocated after everything was dropped
	LedgerBlock leak = {0, 0, 0};
	int64_t objects = 0;       // caller-supplied sources, sinks, handlers still in existence
	uint64_t opens = 0, closes = 0, handles = 0, handles_closed = 0;
};

class Act {
public:
	virtual ~Act() {}
	bool account = true;       // look for leaked memory afterwards
	std::string name;          // what is done, for signatures
	std::string desc;          // details
	// Performs the operation.  plan: allocation failures during the library calls.
	ActResult perform(const AllocPlan *plan);
	// Performs it without looking at memory.
	ActResult perform_plain();
	// Adds a failing source, sink, disk, transfer or callback to the operation;
	// false when it has none.
	virtual bool add_fault() { return false; }
	// Removes it again.
	virtual void clear_fault() {}
protected:
	virtual void before() {}                 // environment, not code under test
	virtual void go(ActResult &r) = 0;       // code under test; fills r.o.v and r.out
	virtual void after(ActResult &r) {}      // environment away
	// A value handed to the library, which must not change.
	void unchanged(std::unique_ptr<libvariant::Variant> &v, const MV &before);
};
enum { ACT_PARSE = 1, ACT_WRITE = 2, ACT_SCHEMA = 4, ACT_EDIT = 8, ACT_ARGS = 16, ACT_OWN = 32, ACT_ALL = 63, ACT_DESCRIBE = 64 };
extern int act_format; // the format of all activities drawn, -1: drawn for each
std::unique_ptr<Act> draw_act(unsigned kinds = ACT_ALL);

// Random schema.  refs: URIs it may refer to.
MV gen_schema(int depth, const std::vector<std::string> &refs);
MV gen_data(int depth);
}
