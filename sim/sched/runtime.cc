// The scheduler and the runtime behind the instrumentation of memory accesses.
#include "sched.h"
#include "../main.h"
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" char *__cxa_demangle(const char *, char *, size_t *, int *);

namespace sim {
extern int64_t live_objects;
extern void (*g_heap_hook)(void *, size_t, bool);
SchedStats sched_stats;
void (*g_switch_hook)(int, int);

// ---------------------------------------------------------------- threads
struct VC { uint32_t c[MAX_THREADS]; };
enum { RUNNABLE, BLOCKED, DONE };
struct Th {
	int word;              // futex: 1 when it may run
	int state;
	const void *waits;
	VC vc;
	uintptr_t lo, hi;      // stack
	int in_lib;
	pthread_t id;
	const std::function<void()> *body;
};
static Th th[MAX_THREADS];
static unsigned nth;
static int cur = -1;           // running thread, -1: outside
static int main_word;
static int64_t countdown;
static uint32_t mean;
static const int64_t NEVER = 1ll << 60;
static uint32_t left; // preemptions that may still happen in this run

static void futex_wait(int *w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void futex_post(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE, 1, 0, 0, 0); }

static void next_countdown() {
	uint32_t v = left ? draw(mean) : 0;
	countdown = v ? v : NEVER; // the simplest choice is not to interrupt
}
static void go_to(int to) {
	int self = cur;
	if (to == self) return;
	int e = errno;
	if (self >= 0) th[self].in_lib = g_in_lib;
	if (g_switch_hook) g_switch_hook(self, to);
	cur = to;
	g_in_lib = to >= 0 ? th[to].in_lib : 0;
	futex_post(to >= 0 ? &th[to].word : &main_word);
	if (self < 0) futex_wait(&main_word);
	else if (th[self].state != DONE) futex_wait(&th[self].word);
	errno = e;
}
// Another thread that can run, or -1.
static int choose(bool with_self) {
	int c[MAX_THREADS], n = 0;
	for (unsigned i = 0; i < nth; ++i) if (th[i].state == RUNNABLE && (with_self || (int)i != cur)) c[n++] = i;
	if (!n) return -1;
	return c[draw(n)];
}
static void preempt() {
	next_countdown();
	int t = choose(false);
	if (t < 0) return;
	fault(F_preempt);
	--left;
	++sched_stats.preemptions;
	mix(t); mix(st.steps);
	go_to(t);
}
static inline void point(unsigned weight) {
	countdown -= weight;
	if (countdown <= 0) preempt();
}
static void block(const void *on) {
	int self = cur;
	th[self].state = BLOCKED;
	th[self].waits = on;
	++sched_stats.sync_blocks;
	int t = choose(false);
	if (t < 0) violate("deadlock", "every thread waits for another one");
	mix(t + 8);
	go_to(t);
}
static void wake(const void *on) {
	for (unsigned i = 0; i < nth; ++i) if (th[i].state == BLOCKED && th[i].waits == on) th[i].state = RUNNABLE;
}
static void *body(void *p) {
	Th *t = (Th *)p;
	pthread_attr_t a;
	void *sp; size_t sz;
	pthread_getattr_np(pthread_self(), &a);
	pthread_attr_getstack(&a, &sp, &sz);
	pthread_attr_destroy(&a);
	t->lo = (uintptr_t)sp;
	t->hi = t->lo + sz;
	futex_post(&main_word);
	futex_wait(&t->word);
	(*t->body)();
	g_in_lib = 0;
	t->state = DONE;
	unsigned alive = 0;
	for (unsigned i = 0; i < nth; ++i) alive += th[i].state != DONE;
	if (!alive) go_to(-1);
	else {
		int n = choose(false);
		if (n < 0) violate("deadlock", "every remaining thread waits for another one");
		go_to(n);
	}
	futex_wait(&t->word); // what the end of a thread sets off happens one by one too
	return 0;
}
void run_threads(const std::vector<std::function<void()>> &bodies) {
	static const uint32_t means[] = {30, 200, 1000, 5000, 20000, 100000};
	static const uint32_t budgets[] = {3, 10, 100, 1000, 3000};
	mean = means[draw(6)];
	left = budgets[draw(5)];
	// one processor, so that handing over is quick
	cpu_set_t one;
	CPU_ZERO(&one);
	CPU_SET(sched_getcpu(), &one);
	sched_setaffinity(0, sizeof one, &one);
	nth = bodies.size();
	memset(&sched_stats, 0, sizeof sched_stats);
	for (unsigned i = 0; i < nth; ++i) {
		memset(&th[i], 0, sizeof th[i]);
		th[i].vc.c[i] = 1;
		th[i].body = &bodies[i];
		if (pthread_create(&th[i].id, 0, body, &th[i])) { fprintf(stderr, "vsim: cannot create a thread\n"); _exit(2); }
		futex_wait(&main_word);
	}
	next_countdown();
	cur = -1;
	go_to(choose(true));
	for (unsigned i = 0; i < nth; ++i) { futex_post(&th[i].word); pthread_join(th[i].id, 0); }
	cur = -1;
	nth = 0;
}

// ---------------------------------------------------------------- shadow memory
// One cell per 8 bytes: the last accesses of every thread.
struct Cell {
	uint32_t wclk[MAX_THREADS], rclk[MAX_THREADS];
	uint32_t wpc[MAX_THREADS], rpc[MAX_THREADS];
	uint8_t wmask[MAX_THREADS], rmask[MAX_THREADS];
	uint8_t watom, ratom; // bit per thread
	uint32_t sync;        // 1 + index of the clock released here
};
enum { PAGE = 4096, CELLS = PAGE / 8, NPAGES = 1 << 15 };
struct PageEnt { uintptr_t page; Cell *cells; };
static PageEnt *pages;
static unsigned npages;
static char *arena, *arena_end;
static VC *clocks;
static uint32_t nclocks;
static char *exe_base;
extern "C" char end;
static inline bool in_exe(uintptr_t a) { return a >= (uintptr_t)exe_base && a < (uintptr_t)&end; }

static void *big(size_t n) {
	void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { fprintf(stderr, "vsim: no shadow memory\n"); _exit(2); }
	return p;
}
static PageEnt *find_page(uintptr_t page) {
	uint32_t i = (uint32_t)((page * 0x9e3779b97f4a7c15ull) >> 40) & (NPAGES - 1);
	while (pages[i].page && pages[i].page != page) i = (i + 1) & (NPAGES - 1);
	return &pages[i];
}
static Cell *cell_of(uintptr_t a, bool make) {
	static uintptr_t last_page;
	static Cell *last_cells;
	if (!pages) {
		pages = (PageEnt *)big(sizeof(PageEnt) * NPAGES);
		clocks = (VC *)big(sizeof(VC) << 20);
		arena = (char *)big((size_t)4 << 30);
		arena_end = arena + ((size_t)4 << 30);
	}
	uintptr_t page = a / PAGE + 1;
	if (page != last_page) {
		PageEnt *e = find_page(page);
		if (!e->page) {
			if (!make) return 0;
			if (npages > NPAGES * 3 / 4 || arena + sizeof(Cell) * CELLS > arena_end) { fprintf(stderr, "vsim: shadow memory full\n"); _exit(2); }
			e->page = page;
			e->cells = (Cell *)arena;
			arena += sizeof(Cell) * CELLS;
			++npages;
		}
		last_page = page;
		last_cells = e->cells;
	}
	return &last_cells[(a % PAGE) / 8];
}
static void forget(void *p, size_t n) {
	if (!pages || !n) return;
	uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
	while (a < e) {
		uintptr_t pe = (a / PAGE + 1) * PAGE;
		if (pe > e) pe = e;
		if (Cell *c = cell_of(a, false)) memset(c, 0, sizeof(Cell) * ((pe - a + 7) / 8));
		a = pe;
	}
}

// Name of the function or variable at an address of the executable.
static std::string symbol(uintptr_t off) {
	int fd = open("/proc/self/exe", O_RDONLY);
	struct stat sb;
	if (fd < 0 || fstat(fd, &sb)) return "?";
	char *m = (char *)mmap(0, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
	close(fd);
	if (m == MAP_FAILED) return "?";
	const Elf64_Ehdr *h = (const Elf64_Ehdr *)m;
	const Elf64_Shdr *sh = (const Elf64_Shdr *)(m + h->e_shoff);
	std::string r = "?";
	for (unsigned i = 0; i < h->e_shnum; ++i) {
		if (sh[i].sh_type != SHT_SYMTAB) continue;
		const Elf64_Sym *y = (const Elf64_Sym *)(m + sh[i].sh_offset);
		const char *str = m + sh[sh[i].sh_link].sh_offset;
		for (size_t k = 0; k < sh[i].sh_size / sizeof *y; ++k)
			if (y[k].st_size && off >= y[k].st_value && off < y[k].st_value + y[k].st_size) { r = str + y[k].st_name; break; }
	}
	munmap(m, sb.st_size);
	int e = 0;
	char *d = __cxa_demangle(r.c_str(), 0, 0, &e);
	if (d) r = d;
	free(d);
	return r;
}
static std::string place(uint32_t pc) {
	if (!pc) return "free";
	std::string f = symbol(pc - 1);
	size_t p = f.find("libvariant::");
	if (p != std::string::npos && p < f.find('(')) f = f.substr(p);
	return f.substr(0, f.find('('));
}
[[noreturn]] static void race(uintptr_t a, int other, uint32_t opc, bool ow, uint32_t pc, bool w) {
	g_in_lib = 0;
	int self = cur;
	std::string f1 = place(opc), f2 = place(pc), what = "memory";
	if (in_exe(a)) what = "variable " + symbol(a - (uintptr_t)exe_base);
	std::string x = f1 < f2 ? f1 + "/" + f2 : f2 + "/" + f1;
	cur = -1;
	violate(fmt("race:%.200s", x.c_str()), "data race on %s: thread %d %s in %s, thread %d %s in %s, not ordered by any synchronisation", what.c_str(),
	        other, ow ? "writes" : "reads", f1.c_str(), self, w ? "writes" : "reads", f2.c_str());
}
static void access(uintptr_t a, unsigned n, bool write, bool atomic, void *ret) {
	Th &t = th[cur];
	if (a - t.lo < t.hi - t.lo) return; // its own stack
	++sched_stats.accesses;
	if (a == (uintptr_t)&g_in_lib || a == (uintptr_t)&live_objects) return; // the simulator's own
	bool stat = in_exe(a);
	if (stat) ++sched_stats.static_accesses;
	point(atomic ? 40 : stat ? 25 : 1);
	uint32_t pc = (uint32_t)((char *)ret - exe_base);
	while (n) {
		unsigned off = a & 7, k = 8 - off < n ? 8 - off : n;
		uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
		Cell *c = cell_of(a, true);
		for (unsigned o = 0; o < nth; ++o) {
			if ((int)o == cur) continue;
			if ((c->wmask[o] | c->rmask[o]) & mask) ++sched_stats.shared_accesses;
			if ((c->wmask[o] & mask) && c->wclk[o] > t.vc.c[o] && !(atomic && (c->watom >> o & 1))) race(a, o, c->wpc[o], true, pc, write);
			if (write && (c->rmask[o] & mask) && c->rclk[o] > t.vc.c[o] && !(atomic && (c->ratom >> o & 1))) race(a, o, c->rpc[o], false, pc, write);
		}
		uint32_t *clk = write ? c->wclk : c->rclk;
		uint8_t *m = write ? c->wmask : c->rmask;
		uint8_t &at = write ? c->watom : c->ratom;
		uint8_t bit = 1 << cur;
		if (clk[cur] != t.vc.c[cur]) { m[cur] = 0; at |= bit; }
		clk[cur] = t.vc.c[cur];
		m[cur] |= mask;
		if (!atomic) at &= ~bit;
		(write ? c->wpc : c->rpc)[cur] = pc;
		a += k;
		n -= k;
	}
}
static inline void plain(const void *p, unsigned n, bool w, void *ret) {
	if (cur < 0 || !g_in_lib) return;
	access((uintptr_t)p, n, w, false, ret);
}
static void range(const void *p, size_t n, bool w, void *ret) {
	if (cur < 0 || !g_in_lib) return;
	uintptr_t a = (uintptr_t)p;
	while (n) { unsigned k = n < 64 ? n : 64; access(a, k, w, false, ret); a += k; n -= k; }
}

// ---------------------------------------------------------------- synchronisation
static VC *clock_at(const void *p, bool make) {
	Cell *c = cell_of((uintptr_t)p, make);
	if (!c) return 0;
	if (!c->sync) { if (!make) return 0; c->sync = ++nclocks; memset(&clocks[c->sync], 0, sizeof(VC)); }
	return &clocks[c->sync];
}
static void join(VC &a, const VC &b) { for (int i = 0; i < MAX_THREADS; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(const void *p) { if (VC *v = clock_at(p, false)) join(th[cur].vc, *v); }
static void release(const void *p) { join(*clock_at(p, true), th[cur].vc); ++th[cur].vc.c[cur]; }
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// A block is new; or it is released, which is like writing to all of it.
static void heap(void *p, size_t n, bool freed) {
	if (cur < 0) return;
	if (!freed) forget(p, n);
	else if (g_in_lib) range(p, n, true, exe_base);
}
static struct HookInit {
	HookInit() {
		g_heap_hook = heap;
		Dl_info d;
		if (dladdr((void *)&run_threads, &d)) exe_base = (char *)d.dli_fbase;
	}
} hook_init;
static inline bool on() { return cur >= 0 && g_in_lib; }
static void atomic_before(const volatile void *p, unsigned n, bool w, void *ret) {
	++sched_stats.atomics;
	access((uintptr_t)p, n, w, true, ret);
}
// Locks: by address, who holds it.
struct Lock { const void *p; int owner; int depth; int readers; };
static Lock locks[4096];
static Lock *lock_at(const void *p) {
	for (auto &l : locks) { if (l.p == p) return &l; if (!l.p) { l.p = p; l.owner = -1; return &l; } }
	fprintf(stderr, "vsim: too many locks\n");
	_exit(2);
}
static void lock(const void *p) {
	if (on()) point(40);
	Lock *l = lock_at(p);
	while ((l->depth && l->owner != cur) || l->readers) { if (l->owner == cur) break; block(p); }
	l->owner = cur;
	++l->depth;
	acquire(p);
}
static void unlock(const void *p) {
	Lock *l = lock_at(p);
	release(p);
	if (l->readers && !l->depth) --l->readers;
	else if (l->depth && !--l->depth) l->owner = -1;
	wake(p);
	if (on()) point(40);
}
static void rdlock(const void *p) {
	if (on()) point(40);
	Lock *l = lock_at(p);
	while (l->depth) block(p);
	++l->readers;
	acquire(p);
}
} // namespace sim
using namespace sim;

#define RET __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
#define RW(n) \
	void __tsan_read##n(void *p) { plain(p, n, false, RET); } \
	void __tsan_write##n(void *p) { plain(p, n, true, RET); } \
	void __tsan_read_write##n(void *p) { plain(p, n, false, RET); plain(p, n, true, RET); } \
	void __tsan_unaligned_read##n(void *p) { plain(p, n, false, RET); } \
	void __tsan_unaligned_write##n(void *p) { plain(p, n, true, RET); } \
	void __tsan_unaligned_read_write##n(void *p) { plain(p, n, false, RET); plain(p, n, true, RET); } \
	void __tsan_volatile_read##n(void *p) { plain(p, n, false, RET); } \
	void __tsan_volatile_write##n(void *p) { plain(p, n, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { if (*p != v) plain(p, 8, true, RET); }
void __tsan_vptr_read(void **p) { plain(p, 8, false, RET); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_read_range(void *p, size_t n) { range(p, n, false, RET); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true, RET); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range(s, n, false, RET); range(d, n, true, RET); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range(s, n, false, RET); range(d, n, true, RET); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range(d, n, true, RET); return memset(d, c, n); }

#define RMW(bits, T, name, builtin) \
	T __tsan_atomic##bits##_##name(volatile T *p, T v, int mo) { \
		if (!on()) return builtin(p, v, __ATOMIC_SEQ_CST); \
		atomic_before(p, bits / 8, true, RET); \
		if (acq(mo)) acquire((void *)p); \
		T r = builtin(p, v, __ATOMIC_SEQ_CST); \
		if (rel(mo)) release((void *)p); \
		return r; \
	}
#define CAS(bits, T, name) \
	int __tsan_atomic##bits##_compare_exchange_##name(volatile T *p, T *e, T v, int mo, int fmo) { \
		if (!on()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		atomic_before(p, bits / 8, true, RET); \
		bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		if (acq(ok ? mo : fmo)) acquire((void *)p); \
		if (ok && rel(mo)) release((void *)p); \
		return ok; \
	}
#define ATOMICS(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *p, int mo) { \
		if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
		atomic_before(p, bits / 8, false, RET); \
		T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
		if (acq(mo)) acquire((void *)p); \
		return r; \
	} \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { \
		if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
		atomic_before(p, bits / 8, true, RET); \
		if (rel(mo)) release((void *)p); \
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
	} \
	RMW(bits, T, exchange, __atomic_exchange_n) RMW(bits, T, fetch_add, __atomic_fetch_add) RMW(bits, T, fetch_sub, __atomic_fetch_sub) \
	RMW(bits, T, fetch_and, __atomic_fetch_and) RMW(bits, T, fetch_or, __atomic_fetch_or) RMW(bits, T, fetch_xor, __atomic_fetch_xor) \
	RMW(bits, T, fetch_nand, __atomic_fetch_nand) CAS(bits, T, strong) CAS(bits, T, weak) \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { \
		__tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; \
	}
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// Function-local statics.
int __cxa_guard_acquire(uint64_t *g) {
	char *b = (char *)g;
	if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (cur >= 0) acquire(g); return 0; }
	if (cur < 0) { b[1] = 1; return 1; }
	if (on()) point(40);
	while (b[1] && !b[0]) block(g);
	if (b[0]) { acquire(g); return 0; }
	b[1] = 1;
	acquire(g);
	return 1;
}
void __cxa_guard_release(uint64_t *g) {
	char *b = (char *)g;
	if (cur >= 0) release(g);
	b[1] = 0;
	__atomic_store_n(b, 1, __ATOMIC_RELEASE);
	if (cur >= 0) { wake(g); if (on()) point(40); }
}
void __cxa_guard_abort(uint64_t *g) {
	char *b = (char *)g;
	b[1] = 0;
	if (cur >= 0) { release(g); wake(g); }
}
#define REAL(name) static decltype(&name) real; if (!real) real = (decltype(&name))dlsym(RTLD_NEXT, #name)
// The memory of exceptions does not come through the simulator's allocator.
void *__cxa_allocate_exception(size_t n) noexcept {
	static void *(*real)(size_t);
	if (!real) real = (void *(*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void *p = real(n);
	if (cur >= 0) forget(p, n);
	return p;
}
int pthread_mutex_lock(pthread_mutex_t *m) { REAL(pthread_mutex_lock); if (cur >= 0) lock(m); return real(m); }
static int real_unlock(pthread_mutex_t *m) { REAL(pthread_mutex_unlock); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { int r = real_unlock(m); if (cur >= 0) unlock(m); return r; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
	REAL(pthread_mutex_trylock);
	if (on()) point(40);
	int r = real(m);
	if (!r && cur >= 0) { Lock *l = lock_at(m); l->owner = cur; ++l->depth; acquire(m); }
	return r;
}
// Waiting may end without a reason, so every notification wakes all.
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	REAL(pthread_cond_wait);
	if (cur < 0) return real(c, m);
	Lock *l = lock_at(m);
	int depth = l->depth;
	release(m);
	l->depth = 0;
	l->owner = -1;
	wake(m);
	real_unlock(m);
	block(c);
	acquire(c);
	pthread_mutex_lock(m);
	lock_at(m)->depth = depth;
	return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t *c) { REAL(pthread_cond_signal); if (cur < 0) return real(c); release(c); wake(c); if (on()) point(40); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { REAL(pthread_cond_broadcast); if (cur < 0) return real(c); release(c); wake(c); if (on()) point(40); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { REAL(pthread_rwlock_rdlock); if (cur >= 0) rdlock(m); return real(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { REAL(pthread_rwlock_wrlock); if (cur >= 0) lock(m); return real(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { REAL(pthread_rwlock_unlock); int r = real(m); if (cur >= 0) unlock(m); return r; }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
	REAL(pthread_once);
	if (cur < 0) return real(o, f);
	enum { RUNNING = 1, FINISHED = 2 };
	if (on()) point(40);
	while (*(int *)o == RUNNING) block(o);
	if (*(int *)o == FINISHED) { acquire(o); return 0; }
	*(int *)o = RUNNING;
	try { f(); } catch (...) { *(int *)o = 0; wake(o); throw; }
	release(o);
	*(int *)o = FINISHED;
	wake(o);
	return 0;
}

// Functions of libc the library calls: what they read and write through their
// arguments, and the state of the process some of them depend on.  The objects
// of the library are linked against these names (LIBC in drive.py).
static char locale_state, environment_state, time_state, strtok_state, random_state;
static char *strtok_at;
#define READS(p, n) range((p), (n), false, RET)
#define WRITES(p, n) range((p), (n), true, RET)
size_t sim_strlen(const char *s) { size_t n = strlen(s); READS(s, n + 1); return n; }
size_t sim_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); READS(s, n < m ? n + 1 : m); return n; }
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; READS(s, n); WRITES(d, n); return strcpy(d, s); }
char *sim_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; READS(s, n); WRITES(d, n); return stpcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); READS(s, n < m ? n + 1 : m); WRITES(d, m); return strncpy(d, s, m); }
char *sim_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, k = strlen(d); READS(s, n); READS(d, k + 1); WRITES(d + k, n); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t m) { size_t n = strnlen(s, m), k = strlen(d); READS(s, n); READS(d, k + 1); WRITES(d + k, n + 1); return strncat(d, s, m); }
static size_t common(const char *a, const char *b, size_t m) { size_t n = 0; while (n < m && a[n] && a[n] == b[n]) ++n; return n < m ? n + 1 : m; }
int sim_strcmp(const char *a, const char *b) { size_t n = common(a, b, -1); READS(a, n); READS(b, n); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t m) { size_t n = common(a, b, m); READS(a, n); READS(b, n); return strncmp(a, b, m); }
int sim_strcasecmp(const char *a, const char *b) { READS(a, 1); READS(b, 1); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t m) { if (m) { READS(a, 1); READS(b, 1); } return strncasecmp(a, b, m); }
int sim_memcmp(const void *a, const void *b, size_t n) { READS(a, n); READS(b, n); return memcmp(a, b, n); }
int sim_bcmp(const void *a, const void *b, size_t n) { READS(a, n); READS(b, n); return memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { void *r = (void *)memchr(a, c, n); READS(a, r ? (char *)r - (char *)a + 1 : n); return r; }
char *sim_strchr(const char *a, int c) { char *r = (char *)strchr(a, c); READS(a, r ? r - a + 1 : strlen(a) + 1); return r; }
char *sim_strrchr(const char *a, int c) { READS(a, strlen(a) + 1); return (char *)strrchr(a, c); }
char *sim_strstr(const char *a, const char *b) { READS(a, strlen(a) + 1); READS(b, strlen(b) + 1); return (char *)strstr(a, b); }
char *sim_strtok(char *s, const char *d) { WRITES(&strtok_state, 1); return strtok_r(s, d, &strtok_at); }
int sim_vsnprintf(char *d, size_t m, const char *f, va_list ap) {
	READS(&locale_state, 1);
	int r = vsnprintf(d, m, f, ap);
	if (m) WRITES(d, r < 0 ? 1 : (size_t)r < m ? r + 1 : m);
	return r;
}
int sim_snprintf(char *d, size_t m, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	READS(&locale_state, 1);
	int r = vsnprintf(d, m, f, ap);
	va_end(ap);
	if (m) WRITES(d, r < 0 ? 1 : (size_t)r < m ? r + 1 : m);
	return r;
}
int sim_vsprintf(char *d, const char *f, va_list ap) {
	READS(&locale_state, 1);
	int r = vsprintf(d, f, ap);
	WRITES(d, r < 0 ? 1 : r + 1);
	return r;
}
int sim_sprintf(char *d, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	READS(&locale_state, 1);
	int r = vsprintf(d, f, ap);
	va_end(ap);
	WRITES(d, r < 0 ? 1 : r + 1);
	return r;
}
#define NUMBER(T, name) T sim_##name(const char *s, char **e) { READS(&locale_state, 1); char *x; T r = name(s, &x); READS(s, x - s + 1); if (e) *e = x; return r; }
NUMBER(double, strtod) NUMBER(float, strtof) NUMBER(long double, strtold)
#define INTEGER1(T, name, f) T sim_##name(const char *s, char **e, int b) { char *x; T r = f(s, &x, b); READS(s, x - s + 1); if (e) *e = x; return r; }
#define INTEGER(T, name) INTEGER1(T, name, name) INTEGER1(T, __isoc23_##name, name)
INTEGER(long, strtol) INTEGER(unsigned long, strtoul) INTEGER(long long, strtoll) INTEGER(unsigned long long, strtoull)
int sim_atoi(const char *s) { READS(s, 1); return atoi(s); }
long sim_atol(const char *s) { READS(s, 1); return atol(s); }
double sim_atof(const char *s) { READS(&locale_state, 1); READS(s, 1); return atof(s); }
char *sim_setlocale(int c, const char *l) { range(&locale_state, 1, l, RET); return setlocale(c, l); }
struct lconv *sim_localeconv() { READS(&locale_state, 1); return localeconv(); }
char *sim_getenv(const char *n) { READS(&environment_state, 1); return getenv(n); }
int sim_setenv(const char *n, const char *v, int o) { WRITES(&environment_state, 1); return setenv(n, v, o); }
int sim_unsetenv(const char *n) { WRITES(&environment_state, 1); return unsetenv(n); }
int sim_putenv(char *s) { WRITES(&environment_state, 1); return putenv(s); }
struct tm *sim_localtime(const time_t *t) { WRITES(&time_state, 1); return localtime(t); }
struct tm *sim_gmtime(const time_t *t) { WRITES(&time_state, 1); return gmtime(t); }
char *sim_ctime(const time_t *t) { WRITES(&time_state, 1); return ctime(t); }
char *sim_asctime(const struct tm *t) { WRITES(&time_state, 1); return asctime(t); }
double sim_drand48() { WRITES(&random_state, 1); return drand48(); }
}
