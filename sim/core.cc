// Simulator core and driver loop.  See core.h.
#include "core.h"
#include "main.h"
#include <regex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <exception>
#include <new>
#include <typeinfo>
#include <sys/mman.h>
#include <cxxabi.h>

extern "C" {
void *__real_malloc(size_t);
int __real_regcomp(regex_t *, const char *, int);
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
void __real_regfree(regex_t *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
}

namespace sim {

const char *const fault_names[NFAULTS] = {
#define X(n) #n,
	SIM_FAULTS(X)
#undef X
};

Shared *shm;
State st;
int g_in_lib;

// ---------------------------------------------------------------- prng
static uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

void tape_search(uint64_t seed, const char *prop, uint64_t run) {
	st.replay = 0;
	st.rng = fnv(prop, strlen(prop), seed * 0x9e3779b97f4a7c15ull + 0x1234567);
	splitmix(st.rng);
	st.rng ^= run * 0xd1342543de82ef95ull;
	splitmix(st.rng);
}

uint32_t draw(uint32_t n) {
	if (n <= 1) return 0;
	uint32_t v;
	uint64_t pos = shm->tape_len;
	if (st.replay) {
		v = pos < st.replay_len ? st.replay[pos] % n : 0;
	} else {
		v = (uint32_t)(((splitmix(st.rng) >> 32) * (uint64_t)n) >> 32);
	}
	if (pos < TAPE_MAX) shm->tape[pos] = v;
	shm->tape_len = pos + 1;
	if (pos >= TAPE_MAX) {
		shm->tape_overflow = 1;
	}
	return v;
}
uint32_t draw_range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
uint64_t draw64() {
	uint64_t a = draw(1u << 31), b = draw(1u << 31), c = draw(4);
	return a | b << 31 | c << 62;
}
uint32_t draw_size(uint32_t max) {
	uint32_t c = draw(16);
	uint32_t lim = c < 6 ? 4 : c < 11 ? 24 : c < 14 ? 200 : c < 15 ? 1500 : max;
	if (lim > max) lim = max;
	return draw(lim + 1);
}

// ---------------------------------------------------------------- history
uint64_t fnv(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
	return h;
}
static void log_line(const char *s, size_t n) {
	shm->hist_hash = fnv(s, n, shm->hist_hash ^ 0x55);
	++shm->events;
	if (st.verbose) {
		size_t room = LOG_MAX - shm->log_len;
		if (n + 1 < room) {
			memcpy(shm->log + shm->log_len, s, n);
			shm->log[shm->log_len + n] = '\n';
			shm->log_len += n + 1;
		}
	}
}
void ev(const char *f, ...) {
	Out o;
	char b[512];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if (n < 0) n = 0;
	if (n >= (int)sizeof b) n = sizeof b - 1;
	log_line(b, n);
}
std::string quote(const std::string &s, size_t max) {
	std::string r;
	char b[8];
	for (size_t i = 0; i < s.size() && i < max; ++i) {
		unsigned char c = s[i];
		if (c == '\\') r += "\\\\";
		else if (c >= 32 && c < 127) r += (char)c;
		else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
	return r;
}
void ev_bytes(const char *what, const void *p, size_t n) {
	Out o;
	ev("%s len=%zu fnv=%016llx", what, n, (unsigned long long)fnv(p, n));
	if (st.verbose) { // shown in the log, not part of the history hash
		std::string q = "    " + quote(std::string((const char *)p, n), 600) + "\n";
		if (q.size() < LOG_MAX - shm->log_len) {
			memcpy(shm->log + shm->log_len, q.data(), q.size());
			shm->log_len += q.size();
		}
	}
}
void fault(Fault f) { ++shm->faults[f]; shm->run_faults++; }
void probe(const char *name) {
	Out o;
	for (unsigned i = 0; i < shm->nprobes; ++i)
		if (!strcmp(shm->probes[i].name, name)) { ++shm->probes[i].n; return; }
	if (shm->nprobes < PROBE_MAX) {
		strncpy(shm->probes[shm->nprobes].name, name, sizeof shm->probes[0].name - 1);
		shm->probes[shm->nprobes++].n = 1;
	}
}
void sample(const char *f, ...) {
	Out o;
	if (shm->nsamples >= SAMPLE_MAX) return;
	va_list ap;
	va_start(ap, f);
	vsnprintf(shm->samples[shm->nsamples++], sizeof shm->samples[0], f, ap);
	va_end(ap);
}
void mix(uint64_t v) { st.sig = fnv(&v, sizeof v, st.sig); }
void nontrivial() { st.nontrivial = true; }

std::string fmt(const char *f, ...) {
	char b[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}

void record_violation(const char *sig, const char *detail) {
	if (shm->vio) return;
	strncpy(shm->vio_sig, sig, sizeof shm->vio_sig - 1);
	strncpy(shm->vio_detail, detail, sizeof shm->vio_detail - 1);
	shm->vio = 1;
	log_line(shm->vio_sig, strlen(shm->vio_sig));
}
void violate(const std::string &sig, const char *f, ...) {
	g_in_lib = 0;
	char b[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	record_violation(sig.c_str(), b);
	_exit(77);
}

// ---------------------------------------------------------------- clock
uint64_t steps() { return st.steps; }
void set_step_limit(uint64_t n) { st.step_limit = n; }
void seam_event() {
	++shm->seam_events;
	st.steps += 16;
	if (st.steps > st.step_limit) step_overflow();
}
void step_overflow() {
	g_in_lib = 0;
	violate(std::string("hang"), "no end after %llu simulated steps (op %s)",
	        (unsigned long long)st.step_limit, st.op);
}
void set_op(const char *op) { strncpy(st.op, op, sizeof st.op - 1); }

// ---------------------------------------------------------------- allocator
// Table of live blocks allocated by code under test.
static const uint32_t LT_SIZE = 1u << 18;
struct Slot { void *p; uint64_t seq; uint32_t size; uint8_t kind; };
static Slot *lt;
static uint64_t lt_used, lt_seq, lt_live_bytes, lt_mark, lt_since;
static uint64_t mem_total = 256u << 20, mem_single = 64u << 20;
static uint32_t lt_hash(void *p) { return (uint32_t)(((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 46); }
static void lt_init() {
	lt = (Slot *)mmap(0, sizeof(Slot) * LT_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static void lt_add(void *p, size_t n, int kind) {
	if (!lt) lt_init();
	if (lt_used > LT_SIZE * 7 / 8) { fprintf(stderr, "vsim: ledger full\n"); _exit(2); }
	uint32_t i = lt_hash(p) & (LT_SIZE - 1);
	while (lt[i].p) i = (i + 1) & (LT_SIZE - 1);
	lt[i].p = p; lt[i].seq = ++lt_seq; lt[i].size = (uint32_t)n; lt[i].kind = kind;
	++lt_used;
	++lt_since;
	lt_live_bytes += n;
}
static Slot *lt_find(void *p) {
	if (!lt) return 0;
	uint32_t i = lt_hash(p) & (LT_SIZE - 1);
	while (lt[i].p) { if (lt[i].p == p) return &lt[i]; i = (i + 1) & (LT_SIZE - 1); }
	return 0;
}
static void lt_del(Slot *s) {
	lt_live_bytes -= s->size;
	--lt_used;
	if (s->seq > lt_mark) --lt_since;
	uint32_t i = s - lt;
	for (;;) { // backward shift
		lt[i].p = 0;
		uint32_t j = i;
		for (;;) {
			j = (j + 1) & (LT_SIZE - 1);
			if (!lt[j].p) return;
			uint32_t h = lt_hash(lt[j].p) & (LT_SIZE - 1);
			if ((i <= j) ? (i < h && h <= j) : (i < h || h <= j)) continue;
			break;
		}
		lt[i] = lt[j];
		i = j;
	}
}
void (*g_heap_hook)(void *, size_t, bool); // a block of memory was allocated or is released
static inline void heap_hook(void *p, size_t n, bool freed) { if (g_heap_hook) g_heap_hook(p, n, freed); }
static AllocPlan plan;
static bool armed;
static uint64_t acount, afired;
jmp_buf *g_exit;
int g_exit_code;
void alloc_arm(const AllocPlan &p) { plan = p; armed = true; acount = afired = 0; }
void alloc_disarm() { armed = false; }
uint64_t alloc_count() { return acount; }
uint64_t alloc_fired() { return afired; }
uint64_t ledger_mark() { lt_mark = lt_seq; lt_since = 0; return lt_mark; }
bool ledger_known(const void *p) { return lt_find((void *)p) != 0; }
void set_mem_limit(uint64_t t, uint64_t s) { mem_total = t; mem_single = s; }
size_t ledger_live(uint64_t mark, LedgerBlock *first) {
	size_t n = 0;
	uint64_t best = ~0ull;
	if (!lt || (mark == lt_mark && !lt_since)) return 0;
	for (uint32_t i = 0; i < LT_SIZE; ++i)
		if (lt[i].p && lt[i].seq > mark) {
			++n;
			if (first && lt[i].seq < best) { best = lt[i].seq; first->size = lt[i].size; first->kind = lt[i].kind; first->seq = lt[i].seq - mark; }
		}
	return n;
}
uint64_t ledger_total() { return lt_used; }

static bool should_fail(size_t n) {
	if (n > mem_single || lt_live_bytes + n > mem_total) { ++shm->mem_limit_hits; return true; }
	if (!armed || n < plan.min_size) return false;
	uint64_t k = acount++;
	if (plan.fail_at < 0) return false;
	if (k < (uint64_t)plan.fail_at) return false;
	if (!plan.persistent && k >= (uint64_t)plan.fail_at + plan.repeat) return false;
	++afired;
	fault(F_alloc_fail);
	if (afired <= 4) { ev("alloc-fail #%llu size=%zu", (unsigned long long)k, n); }
	return true;
}

static void *lib_alloc(size_t n, int kind, bool zero) {
	if (g_in_lib) {
		if (kind != K_XML && should_fail(n)) { errno = ENOMEM; return 0; }
		void *p = zero ? __real_calloc(1, n ? n : 1) : __real_malloc(n ? n : 1);
		if (!p) { fprintf(stderr, "vsim: out of real memory\n"); _exit(2); }
		lt_add(p, n, kind);
		heap_hook(p, n, false);
		return p;
	}
	void *p = zero ? __real_calloc(1, n ? n : 1) : __real_malloc(n ? n : 1);
	heap_hook(p, n, false);
	return p;
}
static void lib_free(void *p, int kind) {
	if (!p) return;
	if (Slot *s = lt_find(p)) {
		if (s->kind != kind) {
			int k = s->kind;
			lt_del(s);
			violate(fmt("free-mismatch:%d-%d", k, kind), "block allocated as kind %d released as kind %d", k, kind);
		}
		size_t n = s->size;
		lt_del(s);
		heap_hook(p, n, true);
	}
	__real_free(p);
}
static void *lib_realloc(void *p, size_t n, int kind) {
	if (!p) return lib_alloc(n, kind, false);
	Slot *s = lt_find(p);
	if (!s) {
		if (g_in_lib) {
			if (kind != K_XML && should_fail(n)) { errno = ENOMEM; return 0; }
			void *q = __real_realloc(p, n ? n : 1);
			lt_add(q, n, kind);
			heap_hook(q, n, false);
			return q;
		}
		void *q = __real_realloc(p, n ? n : 1);
		heap_hook(q, n, false);
		return q;
	}
	if (g_in_lib && kind != K_XML && should_fail(n)) { errno = ENOMEM; return 0; }
	size_t old = s->size;
	lt_del(s);
	heap_hook(p, old, true);
	// always move, so that stale pointers are caught
	void *q = __real_realloc(p, n ? n : 1);
	lt_add(q, n, kind);
	heap_hook(q, n, false);
	return q;
}
void *xml_malloc(size_t n) { return lib_alloc(n, K_XML, false); }
void *xml_realloc(void *p, size_t n) { return lib_realloc(p, n, K_XML); }
void xml_free(void *p) { lib_free(p, K_XML); }
char *xml_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = (char *)lib_alloc(n, K_XML, false);
	memcpy(p, s, n);
	return p;
}

} // namespace sim

using namespace sim;
extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) {
	if (g_in_lib && g_exit) { g_exit_code = code; longjmp(*g_exit, 1); }
	__real_exit(code);
}
// Regular expressions of the C library need memory too; a compiled one is a resource.
int __wrap_regcomp(regex_t *r, const char *p, int f) {
	if (!g_in_lib) return __real_regcomp(r, p, f);
	if (should_fail(sizeof *r)) return REG_ESPACE;
	int rc = __real_regcomp(r, p, f);
	if (!rc && !lt_find((char *)r + 1)) lt_add((char *)r + 1, sizeof *r, K_REG);
	return rc;
}
int __wrap_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) {
	if (g_in_lib && should_fail(sizeof *r)) return REG_ESPACE;
	return __real_regexec(r, s, n, m, f);
}
void __wrap_regfree(regex_t *r) {
	if (Slot *s = lt_find((char *)r + 1)) lt_del(s);
	__real_regfree(r);
}
void *__wrap_malloc(size_t n) { return lib_alloc(n, K_MALLOC, false); }
void *__wrap_calloc(size_t a, size_t b) { return lib_alloc(a * b, K_MALLOC, true); }
void *__wrap_realloc(void *p, size_t n) { return lib_realloc(p, n, K_MALLOC); }
void __wrap_free(void *p) { lib_free(p, K_MALLOC); }
int __wrap_posix_memalign(void **r, size_t al, size_t n) {
	if (g_in_lib) {
		if (should_fail(n)) return ENOMEM;
		int e = __real_posix_memalign(r, al, n ? n : 1);
		if (!e) { lt_add(*r, n, K_MALLOC); heap_hook(*r, n, false); }
		return e;
	}
	int e = __real_posix_memalign(r, al, n ? n : 1);
	if (!e) heap_hook(*r, n, false);
	return e;
}
char *__wrap_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = (char *)lib_alloc(n, K_MALLOC, false);
	if (p) memcpy(p, s, n);
	return p;
}
}
static void *op_new(size_t n, int kind) {
	void *p = lib_alloc(n, kind, false);
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new(size_t n) { return op_new(n, K_NEW); }
void *operator new[](size_t n) { return op_new(n, K_NEWA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return lib_alloc(n, K_NEW, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return lib_alloc(n, K_NEWA, false); }
void operator delete(void *p) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p) noexcept { lib_free(p, K_NEWA); }
void operator delete(void *p, size_t) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { lib_free(p, K_NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { lib_free(p, K_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { lib_free(p, K_NEWA); }

// ---------------------------------------------------------------- coverage
// The instrumented library calls these on every edge: the simulated clock, the
// hang bound and the state signature come from here.
static uint32_t nguards;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	if (a == b || *a) return;
	for (uint32_t *x = a; x < b; ++x) *x = ++nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (!g_in_lib) return;
	uint32_t i = *g;
	if (!i || i >= EDGE_MAX) return;
	if (++st.steps > st.step_limit) step_overflow();
	uint8_t c = st.edge[i];
	if (c == 0) st.touched[st.ntouched++] = i;
	if (c < 255) st.edge[i] = c + 1;
}
uint32_t sim::num_guards() { return nguards; }
