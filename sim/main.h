// Shared between core.cc and main.cc.
#pragma once
#include "core.h"
namespace sim {
enum { TAPE_MAX = 1 << 20, LOG_MAX = 1 << 20, PROBE_MAX = 200, SAMPLE_MAX = 6, EDGE_MAX = 1 << 15, SIG_MAX = 1 << 21 };
enum { K_MALLOC = 1, K_NEW, K_NEWA, K_XML, K_REG };
struct Shared {
	// per run
	uint64_t tape_len; int tape_overflow;
	uint64_t hist_hash, events, seam_events, run_faults;
	int vio; char vio_sig[256]; char vio_detail[2048];
	uint64_t log_len;
	// progress
	uint64_t cur_run, done_runs;
	// totals
	uint64_t faults[NFAULTS];
	struct { char name[64]; uint64_t n; } probes[PROBE_MAX];
	unsigned nprobes;
	unsigned nsamples; char samples[SAMPLE_MAX][1200];
	uint64_t total_steps, total_seam, total_events, total_draws, nontrivial_runs, faulty_runs, max_steps;
	uint64_t mem_limit_hits, tape_overflows;
	uint64_t nsigs; uint64_t sigs[SIG_MAX];      // signatures of non-trivial runs
	uint64_t nruns_hashed; uint64_t hash_of_hashes; // commutative sum over run history hashes
	uint8_t edges[EDGE_MAX];
	uint32_t tape[TAPE_MAX];
	char log[LOG_MAX];
};
extern Shared *shm;
struct State {
	const uint32_t *replay; uint64_t replay_len;
	uint64_t rng;
	bool verbose;
	uint64_t steps, step_limit;
	uint64_t sig; bool nontrivial;
	char op[128];
	uint8_t edge[EDGE_MAX]; uint32_t touched[EDGE_MAX]; uint32_t ntouched;
};
extern State st;
void tape_search(uint64_t seed, const char *prop, uint64_t run);
void record_violation(const char *sig, const char *detail);
[[noreturn]] void step_overflow();
void set_op(const char *op);
uint64_t ledger_total();
uint32_t num_guards();
void *xml_malloc(size_t);
void *xml_realloc(void *, size_t);
void xml_free(void *);
char *xml_strdup(const char *);
}
