// Core of the simulator: choice tape, event history, fault and probe
// accounting, allocator seam, step clock, violation reporting.
#pragma once
#include <setjmp.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- faults
// Kinds of injected behaviour.  A kind is counted when it actually takes
// effect, not when it is planned.
#define SIM_FAULTS(X) \
	X(short_read) X(read_error) X(early_eof) X(reader_throw) \
	X(short_write) X(zero_write) X(write_error) X(sink_throw) X(flush_error) \
	X(disk_full) X(disk_io_error) X(close_error) X(open_error) \
	X(alloc_fail) X(callback_throw) X(byte_flip) X(byte_drop) X(byte_insert) \
	X(block_dup) X(truncate) X(splice) X(net_refused) X(net_partial) \
	X(net_http_error) X(net_error) X(net_chunk) X(crash) X(stale_errno) \
	X(preempt) X(small_buffer) X(bad_step) X(garbage)
enum Fault {
#define X(n) F_##n,
	SIM_FAULTS(X)
#undef X
	NFAULTS
};
extern const char *const fault_names[NFAULTS];
void fault(Fault f);

// ---------------------------------------------------------------- choices
uint32_t draw(uint32_t n);                     // uniform in [0,n); 0 is simplest
uint32_t draw_range(uint32_t lo, uint32_t hi); // inclusive
bool chance(uint32_t num, uint32_t den);       // true with probability num/den; false is simplest
uint64_t draw64();
template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
// Size with a heavy tail: mostly small, sometimes up to max.
uint32_t draw_size(uint32_t max);

// ---------------------------------------------------------------- history
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char *what, const void *p, size_t n);
void probe(const char *name);        // reach probe, counted over the run
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);                // add to the run's state signature
void nontrivial();                   // mark the run as having reached the interesting part

// Report a violation and end the process.  sig is the stable identity of what
// failed (used for known findings and minimisation).
[[noreturn]] void violate(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// ---------------------------------------------------------------- clock
uint64_t steps();                    // edges executed in library code in this run
void set_step_limit(uint64_t n);
void seam_event();                   // one seam interaction (also advances simulated time)

// ---------------------------------------------------------------- scopes
extern int g_in_lib;                 // >0: code under test is running
struct Lib { int p; Lib() : p(g_in_lib) { g_in_lib = 1; } ~Lib() { g_in_lib = p; } };
struct Out { int p; Out() : p(g_in_lib) { g_in_lib = 0; } ~Out() { g_in_lib = p; } };

// ---------------------------------------------------------------- allocator
struct AllocPlan {
	int64_t fail_at = -1;     // index (since arm) of the first failing allocation
	uint32_t repeat = 1;      // how many consecutive allocations fail
	bool persistent = false;  // all later ones fail too
	uint64_t min_size = 0;    // only requests of at least this size are counted
};
void alloc_arm(const AllocPlan &p);
void alloc_disarm();
uint64_t alloc_count();        // countable allocations since arm
uint64_t alloc_fired();        // failures injected since arm
struct Armed { Armed(const AllocPlan &p) { alloc_arm(p); } ~Armed() { alloc_disarm(); } };
uint64_t ledger_mark();
struct LedgerBlock { size_t size; int kind; uint64_t seq; };
// number of blocks allocated by code under test since mark and still live
size_t ledger_live(uint64_t mark, LedgerBlock *first);
bool ledger_known(const void *p);
void set_mem_limit(uint64_t total, uint64_t single);

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string &s, size_t max = 160);
uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

// ---------------------------------------------------------------- checks
struct Property {
	const char *id;
	const char *rule;            // how runs are made and what makes one non-trivial
	void (*run)();               // one simulated execution
	uint64_t step_limit;
	uint32_t batch;              // runs per process
	bool warm;                   // run warm-up before forking
};
void register_property(const Property &p);
struct Register { Register(const Property &p) { register_property(p); } };
// Where the code under test ends the process, if set.
extern jmp_buf *g_exit;
extern int g_exit_code;
void register_warmup(void (*f)());
struct RegisterWarmup { RegisterWarmup(void (*f)()) { register_warmup(f); } };
void register_reset(void (*f)());   // called at the start of every run
struct RegisterReset { RegisterReset(void (*f)()) { register_reset(f); } };

}
