// Driver of the simulator: seeded search, gating, minimisation, replay.
#include "main.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <exception>
#include <typeinfo>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <cxxabi.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <sys/personality.h>

namespace sim {
static std::vector<Property> &props() { static std::vector<Property> p; return p; }
static std::vector<void (*)()> &warmups() { static std::vector<void (*)()> p; return p; }
static std::vector<void (*)()> &resets() { static std::vector<void (*)()> p; return p; }
void register_property(const Property &p) { props().push_back(p); }
void register_warmup(void (*f)()) { warmups().push_back(f); }
void register_reset(void (*f)()) { resets().push_back(f); }
}
using namespace sim;
using std::string;
using std::vector;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- crash monitors
#ifdef SIM_ASAN
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:handle_segv=1:allocator_may_return_null=1:"
	       "quarantine_size_mb=8:thread_local_quarantine_size_kb=64:malloc_context_size=6:detect_stack_use_after_return=0:"
	       "detect_odr_violation=0:print_legend=0:max_malloc_fill_size=4096:symbolize=1:alloc_dealloc_mismatch=0";
}
extern "C" const char *__asan_get_report_description();
// First function of the code under test on the stack.
static string culprit() {
	void *bt[64];
	int n = backtrace(bt, 64);
	for (int i = 0; i < n; ++i) {
		Dl_info d;
		if (!dladdr((char *)bt[i] - 1, &d) || !d.dli_sname) continue;
		int e = 0;
		char *m = abi::__cxa_demangle(d.dli_sname, 0, 0, &e);
		string f = m ? m : d.dli_sname;
		if (f.find("sim::") != string::npos) continue;
		size_t q = f.find("libvariant::");
		if (q != string::npos && q > f.find('(')) q = string::npos;
		if (q == string::npos && f.compare(0, 4, "JSON") && f.compare(0, 5, "yaml_")) continue;
		if (q != string::npos) f = f.substr(q);
		return f.substr(0, f.find('('));
	}
	return "";
}
extern "C" void __asan_on_error() {
	static bool once;
	if (once) return;
	once = true;
	g_in_lib = 0;
	string kind = __asan_get_report_description();
	string where = kind == "stack-overflow" ? "" : culprit();
	string sig = "asan:" + kind + (where.empty() ? "" : ":" + where);
	string det = fmt("AddressSanitizer: %s in %s (op %s)", kind.c_str(), where.c_str(), st.op);
	record_violation(sig.c_str(), det.c_str());
	if (!st.verbose) _exit(77);
}
static void asan_report(const char *text) {
	size_t n = strlen(shm->vio_detail);
	snprintf(shm->vio_detail + n, sizeof shm->vio_detail - n, "\n%s", text);
}
#endif
static void on_terminate() {
	g_in_lib = 0;
	string what = "std::terminate";
	if (std::type_info *t = abi::__cxa_current_exception_type()) {
		int e = 0;
		char *n = abi::__cxa_demangle(t->name(), 0, 0, &e);
		what += string(" with ") + (n ? n : t->name());
		try { throw; } catch (const std::exception &x) { what += string(": ") + x.what(); } catch (...) {}
	}
	record_violation(fmt("terminate:%s", st.op).c_str(), what.c_str());
	_exit(77);
}
static void on_abort(int) {
	g_in_lib = 0;
	record_violation(fmt("abort:%s", st.op).c_str(), "abort() called (failed assertion?)");
	_exit(77);
}

static void install_monitors() {
	void *bt[4];
	backtrace(bt, 4);
#ifdef SIM_ASAN
	__asan_set_error_report_callback(asan_report);
#endif
	std::set_terminate(on_terminate);
	signal(SIGABRT, on_abort);
	signal(SIGALRM, SIG_DFL);
}

// ---------------------------------------------------------------- one run
static void begin_run() {
	shm->tape_len = 0;
	shm->tape_overflow = 0;
	shm->hist_hash = 0xcbf29ce484222325ull;
	shm->events = 0;
	shm->seam_events = 0;
	shm->run_faults = 0;
	shm->log_len = 0;
	st.steps = 0;
	for (uint32_t i = 0; i < st.ntouched; ++i) st.edge[st.touched[i]] = 0;
	st.ntouched = 0;
	st.sig = 0xcbf29ce484222325ull;
	st.nontrivial = false;
	st.op[0] = 0;
	g_in_lib = 0;
	alloc_disarm();
	errno = 0;
	for (auto f : resets()) f();
}
static uint64_t edge_sig() {
	uint64_t s = 0;
	for (uint32_t i = 0; i < st.ntouched; ++i) {
		uint32_t e = st.touched[i], c = st.edge[e];
		shm->edges[e] = 1;
		uint32_t b = c < 2 ? c : c < 4 ? 2 : c < 16 ? 3 : c < 64 ? 4 : 5;
		uint64_t k = ((uint64_t)e << 8 | b) * 0x9e3779b97f4a7c15ull;
		k ^= k >> 29; k *= 0xbf58476d1ce4e5b9ull; k ^= k >> 32;
		s += k;
	}
	return s;
}
static uint64_t end_run() {
	g_in_lib = 0;
	alloc_disarm();
	uint64_t es = edge_sig();
	shm->total_steps += st.steps;
	if (st.steps > shm->max_steps) shm->max_steps = st.steps;
	shm->total_seam += shm->seam_events;
	shm->total_events += shm->events;
	shm->total_draws += shm->tape_len;
	shm->tape_overflows += shm->tape_overflow;
	if (shm->run_faults) ++shm->faulty_runs;
	uint64_t h = shm->hist_hash ^ (es * 31) ^ (st.steps * 0x9e3779b97f4a7c15ull);
	shm->hash_of_hashes += h;
	++shm->nruns_hashed;
	if (st.nontrivial) {
		++shm->nontrivial_runs;
		if (shm->nsigs < SIG_MAX) shm->sigs[shm->nsigs++] = es ^ st.sig;
	}
	return h;
}

static unsigned wall_limit = 120; // s, for runs that do not end at all
struct RunSpec { bool seeded; uint64_t seed, run; vector<uint32_t> tape; };
struct Result { bool vio; string sig, detail; uint64_t hash; bool overflow; vector<uint32_t> tape; string log; };

static void one(const Property &p, const RunSpec &r, bool verbose) {
	begin_run();
	st.verbose = verbose;
	st.step_limit = p.step_limit;
	if (r.seeded) tape_search(r.seed, p.id, r.run);
	else { st.replay = r.tape.data(); st.replay_len = r.tape.size(); if (!st.replay) { static uint32_t z; st.replay = &z; } }
	alarm(wall_limit);
	p.run();
	alarm(0);
}

static void classify(int status, uint64_t) {
	if (shm->vio) return;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 2) { fprintf(stderr, "vsim: internal error in run\n"); exit(2); }
	if (WIFEXITED(status)) record_violation(fmt("exit:%d", WEXITSTATUS(status)).c_str(), "process ended unexpectedly");
	else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) record_violation("hang-wall", "run did not end");
	else record_violation(fmt("signal:%d", WTERMSIG(status)).c_str(), "process killed by signal");
}

// Executes a sequence of runs in a child process; the result is that of the
// last one (an earlier violation also ends the sequence).
static Result exec(const Property &p, const vector<RunSpec> &seq, bool verbose) {
	shm->vio = 0;
	memset(shm->vio_sig, 0, sizeof shm->vio_sig);
	memset(shm->vio_detail, 0, sizeof shm->vio_detail);
	shm->log_len = 0;
	fflush(stdout);
	pid_t c = fork();
	if (c == 0) {
		int fd = open("/dev/null", 1);
		if (!verbose && fd >= 0) { dup2(fd, 2); }
		for (size_t i = 0; i < seq.size(); ++i) {
			one(p, seq[i], verbose);
			shm->hist_hash = end_run();
		}
		_exit(0);
	}
	int status = 0;
	waitpid(c, &status, 0);
	classify(status, 0);
	Result r;
	r.vio = shm->vio;
	r.sig = shm->vio_sig;
	r.detail = shm->vio_detail;
	r.hash = shm->hist_hash;
	r.overflow = shm->tape_overflow;
	r.tape.assign(shm->tape, shm->tape + std::min<uint64_t>(shm->tape_len, TAPE_MAX));
	if (verbose) r.log.assign(shm->log, shm->log_len);
	return r;
}

// ---------------------------------------------------------------- minimiser
struct Minimiser {
	const Property &p;
	vector<RunSpec> pre;
	string sig;
	unsigned execs = 0, max_execs = 4000;
	double deadline;
	bool test(const vector<uint32_t> &t, vector<uint32_t> *used = 0) {
		if (execs >= max_execs || now() > deadline) return false;
		++execs;
		vector<RunSpec> s = pre;
		RunSpec r; r.seeded = false; r.tape = t;
		s.push_back(r);
		wall_limit = 5;
		Result x = exec(p, s, false);
		wall_limit = 120;
		if (x.vio && x.sig == sig && !x.overflow) { if (used) *used = x.tape; return true; }
		return false;
	}
	void trim(vector<uint32_t> &t) { while (!t.empty() && t.back() == 0) t.pop_back(); }
	vector<uint32_t> run(vector<uint32_t> t) {
		trim(t);
		bool progress = true;
		while (progress && execs < max_execs && now() < deadline) {
			progress = false;
			vector<uint32_t> used;
			for (size_t n = std::max<size_t>(t.size() / 2, 1);; n /= 2) { // delete
				for (size_t i = 0; i < t.size();) {
					vector<uint32_t> u(t.begin(), t.begin() + i);
					if (i + n < t.size()) u.insert(u.end(), t.begin() + i + n, t.end());
					if (test(u, &used)) { if (used.size() < u.size()) u = used; trim(u); if (u.size() < t.size()) progress = true; else { t = u; break; } t = u; }
					else i += n;
				}
				if (n <= 1) break;
			}
			for (size_t n = std::max<size_t>(t.size() / 2, 1);; n /= 2) { // zero
				for (size_t i = 0; i < t.size(); i += n) {
					vector<uint32_t> u = t;
					bool any = false;
					for (size_t j = i; j < i + n && j < u.size(); ++j) if (u[j]) { u[j] = 0; any = true; }
					if (any && test(u)) { t = u; progress = true; }
				}
				if (n <= 1) break;
			}
			trim(t);
			for (size_t i = 0; i < t.size(); ++i) { // decrease
				uint32_t lo = 0, hi = t[i];
				while (lo + 1 < hi) {
					uint32_t m = lo + (hi - lo) / 2;
					vector<uint32_t> u = t;
					u[i] = m;
					if (test(u)) { hi = m; t = u; progress = true; } else lo = m;
				}
				if (t[i] > 0) {
					vector<uint32_t> u = t;
					--u[i];
					if (test(u)) { t = u; progress = true; }
				}
			}
			trim(t);
		}
		return t;
	}
};

static void write_replay(const string &path, const Property &p, const vector<RunSpec> &seq, const Result &r,
                         uint64_t seed, uint64_t run, size_t orig_len) {
	std::ofstream o(path);
	o << "vsim-replay 1\nproperty " << p.id << "\nfound-by seed=" << seed << " run=" << run << " draws=" << orig_len << "\n";
	o << "signature " << r.sig << "\n";
	char b[32];
	snprintf(b, sizeof b, "%016llx", (unsigned long long)r.hash);
	o << "history " << b << "\n";
	for (auto &s : seq) {
		if (s.seeded) o << "seeded " << s.seed << " " << s.run << "\n";
		else {
			o << "tape " << s.tape.size();
			for (auto v : s.tape) o << " " << v;
			o << "\n";
		}
	}
	o << "detail\n" << r.detail << "\nlog\n" << r.log << "\n";
}
static bool read_replay(const string &path, string &prop, string &sig, uint64_t &hash, vector<RunSpec> &seq) {
	std::ifstream i(path);
	string line;
	if (!getline(i, line) || line != "vsim-replay 1") return false;
	while (getline(i, line)) {
		std::istringstream s(line);
		string w;
		s >> w;
		if (w == "property") s >> prop;
		else if (w == "signature") sig = line.substr(10);
		else if (w == "history") { string h; s >> h; hash = strtoull(h.c_str(), 0, 16); }
		else if (w == "seeded") { RunSpec r; r.seeded = true; s >> r.seed >> r.run; seq.push_back(r); }
		else if (w == "tape") {
			RunSpec r; r.seeded = false;
			size_t n; s >> n; r.tape.resize(n);
			for (auto &v : r.tape) s >> v;
			seq.push_back(r);
		}
		else if (w == "detail") break;
	}
	return !seq.empty();
}

static const Property *find(const string &id) {
	for (auto &p : props()) if (id == p.id) return &p;
	fprintf(stderr, "vsim: unknown property %s\n", id.c_str());
	exit(2);
}

static string jstr(const string &s) {
	string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

static void warm(const Property &p) {
	st.step_limit = ~0ull;
	if (p.warm) for (auto f : warmups()) f();
}

// Gate a violation found at [batch_from..run] and minimise it.
static string handle(const Property &p, uint64_t seed, uint64_t batch_from, uint64_t run, const Result &found,
                     const string &dir, string &err) {
	vector<RunSpec> pre;
	RunSpec last; last.seeded = found.overflow; last.seed = seed; last.run = run; last.tape = found.tape;
	vector<RunSpec> seq = {last};
	Result r1 = exec(p, seq, false);
	if (!(r1.vio && r1.sig == found.sig)) {
		// needs state left by earlier runs of the same process
		for (uint64_t k = batch_from; k < run; ++k) { RunSpec s; s.seeded = true; s.seed = seed; s.run = k; pre.push_back(s); }
		seq = pre; seq.push_back(last);
		r1 = exec(p, seq, false);
		if (!(r1.vio && r1.sig == found.sig)) { err = "not reproducible: " + found.sig + " / " + found.detail; return ""; }
		double deadline = now() + 15;
		for (size_t n = std::max<size_t>(pre.size() / 2, 1);; n /= 2) {
			for (size_t i = 0; i < pre.size() && now() < deadline;) {
				vector<RunSpec> u(pre.begin(), pre.begin() + i);
				if (i + n < pre.size()) u.insert(u.end(), pre.begin() + i + n, pre.end());
				vector<RunSpec> s = u; s.push_back(last);
				Result x = exec(p, s, false);
				if (x.vio && x.sig == found.sig) pre = u; else i += n;
			}
			if (n <= 1) break;
		}
		seq = pre; seq.push_back(last);
	}
	Result a = exec(p, seq, false), b = exec(p, seq, false);
	if (a.hash != b.hash || a.sig != b.sig || a.sig != found.sig) { err = "history differs between two executions: " + found.sig; return ""; }
	if (!last.seeded && found.sig != "hang-wall") {
		Minimiser m{p, pre, found.sig};
		m.deadline = now() + 15;
		vector<uint32_t> t = m.run(last.tape);
		seq.back().tape = t;
	}
	Result v = exec(p, seq, true);
	Result w = exec(p, seq, false);
	if (!v.vio || v.sig != found.sig || v.hash != w.hash) { err = "minimised execution is not stable: " + found.sig; return ""; }
	string path = dir + "/" + p.id + "-" + std::to_string(seed) + "-" + std::to_string(run) + ".replay";
	write_replay(path, p, seq, v, seed, run, found.tape.size());
	return path;
}

static int cmd_search(std::map<string, string> &o) {
	const Property &p = *find(o["prop"]);
	uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), from = strtoull(o["from"].c_str(), 0, 10), count = strtoull(o["count"].c_str(), 0, 10);
	double limit = o.count("time") ? atof(o["time"].c_str()) : 1e9;
	std::set<string> known;
	if (o.count("known")) { std::ifstream k(o["known"]); string l; while (getline(k, l)) known.insert(l); }
	warm(p);
	double t0 = now();
	uint64_t k = from, end = from + count, done = 0;
	std::map<string, uint64_t> known_hits;
	std::map<string, string> known_detail;
	struct V { string sig, detail, replay, err; uint64_t run; };
	vector<V> vios;
	bool timed_out = false;
	while (k < end) {
		if (now() - t0 > limit) { timed_out = true; break; }
		uint64_t bend = std::min<uint64_t>(end, k + p.batch);
		shm->vio = 0;
		memset(shm->vio_sig, 0, sizeof shm->vio_sig);
		memset(shm->vio_detail, 0, sizeof shm->vio_detail);
		fflush(stdout);
		pid_t c = fork();
		if (c == 0) {
			int fd = open("/dev/null", 1);
			if (fd >= 0) dup2(fd, 2);
			for (uint64_t i = k; i < bend; ++i) {
				shm->cur_run = i;
				RunSpec r; r.seeded = true; r.seed = seed; r.run = i;
				one(p, r, false);
				end_run();
				++shm->done_runs;
				if (i - k >= 8 && now() - t0 > limit) { bend = i + 1; break; }
			}
			shm->cur_run = bend;
			_exit(0);
		}
		int status;
		waitpid(c, &status, 0);
		classify(status, k);
		if (!shm->vio) { done += shm->cur_run - k; k = shm->cur_run; continue; }
		uint64_t run = shm->cur_run;
		done += run - k + 1;
		++shm->done_runs;
		Result f;
		f.vio = true; f.sig = shm->vio_sig; f.detail = shm->vio_detail; f.overflow = shm->tape_overflow;
		f.tape.assign(shm->tape, shm->tape + std::min<uint64_t>(shm->tape_len, TAPE_MAX));
		f.hash = shm->hist_hash;
		if (known.count(f.sig)) {
			++known_hits[f.sig];
			known_detail[f.sig] = f.detail;
			k = run + 1;
			continue;
		}
		// Do not let the gating executions disturb the statistics.
		Shared *save = (Shared *)malloc(sizeof(Shared));
		memcpy(save, shm, sizeof(Shared));
		V v; v.sig = f.sig; v.detail = f.detail; v.run = run;
		v.replay = handle(p, seed, k, run, f, o["dir"], v.err);
		memcpy(shm, save, sizeof(Shared));
		free(save);
		vios.push_back(v);
		break;
	}
	double wall = now() - t0;
	std::ofstream out(o["out"]);
	out << "{\"runs\":" << done << ",\"wall\":" << wall << ",\"timed_out\":" << (timed_out ? "true" : "false");
	out << ",\"rule\":" << jstr(p.rule);
	out << ",\"nontrivial_runs\":" << shm->nontrivial_runs << ",\"faulty_runs\":" << shm->faulty_runs;
	out << ",\"steps\":" << shm->total_steps << ",\"max_steps\":" << shm->max_steps << ",\"seam_events\":" << shm->total_seam << ",\"history_events\":" << shm->total_events;
	out << ",\"draws\":" << shm->total_draws << ",\"tape_overflows\":" << shm->tape_overflows << ",\"mem_limit_hits\":" << shm->mem_limit_hits;
	char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)shm->hash_of_hashes);
	out << ",\"history_sum\":\"" << hb << "\",\"faults\":{";
	for (int i = 0, n = 0; i < NFAULTS; ++i) if (shm->faults[i]) out << (n++ ? "," : "") << "\"" << fault_names[i] << "\":" << shm->faults[i];
	out << "},\"probes\":{";
	for (unsigned i = 0; i < shm->nprobes; ++i) out << (i ? "," : "") << jstr(shm->probes[i].name) << ":" << shm->probes[i].n;
	out << "},\"samples\":[";
	for (unsigned i = 0; i < shm->nsamples; ++i) out << (i ? "," : "") << jstr(shm->samples[i]);
	out << "],\"known\":{";
	int n = 0;
	for (auto &x : known_hits) out << (n++ ? "," : "") << jstr(x.first) << ":{\"count\":" << x.second << ",\"detail\":" << jstr(known_detail[x.first]) << "}";
	out << "},\"violations\":[";
	for (size_t i = 0; i < vios.size(); ++i)
		out << (i ? "," : "") << "{\"sig\":" << jstr(vios[i].sig) << ",\"detail\":" << jstr(vios[i].detail) << ",\"replay\":" << jstr(vios[i].replay)
		    << ",\"error\":" << jstr(vios[i].err) << ",\"run\":" << vios[i].run << "}";
	out << "],\"guards\":" << num_guards() << ",\"edges\":[";
	n = 0;
	for (int i = 0; i < EDGE_MAX; ++i) if (shm->edges[i]) out << (n++ ? "," : "") << i;
	out << "]}\n";
	out.close();
	std::ofstream sg(o["out"] + ".sigs", std::ios::binary);
	std::sort(shm->sigs, shm->sigs + shm->nsigs);
	uint64_t *e = std::unique(shm->sigs, shm->sigs + shm->nsigs);
	sg.write((char *)shm->sigs, (e - shm->sigs) * 8);
	return 0;
}

static int cmd_replay(const string &path, bool verbose) {
	string prop, sig; uint64_t hash = 0; vector<RunSpec> seq;
	if (!read_replay(path, prop, sig, hash, seq)) { fprintf(stderr, "vsim: cannot read %s\n", path.c_str()); return 2; }
	const Property &p = *find(prop);
	warm(p);
	Result r = exec(p, seq, verbose);
	if (verbose) printf("%s", r.log.c_str());
	if (!r.vio) { printf("REPLAY %s: no violation\n", path.c_str()); return 0; }
	printf("REPLAY %s: signature=%s history=%016llx\n%s\n", path.c_str(), r.sig.c_str(), (unsigned long long)r.hash, r.detail.c_str());
	if (r.sig == sig && r.hash == hash) return 1;
	printf("REPLAY differs from recorded signature=%s history=%016llx\n", sig.c_str(), (unsigned long long)hash);
	return 3;
}

static int cmd_hash(std::map<string, string> &o) {
	const Property &p = *find(o["prop"]);
	uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), from = strtoull(o["from"].c_str(), 0, 10), count = strtoull(o["count"].c_str(), 0, 10);
	warm(p);
	for (uint64_t k = from; k < from + count; ++k) {
		RunSpec r; r.seeded = true; r.seed = seed; r.run = k;
		Result x = exec(p, {r}, o.count("verbose"));
		printf("%llu %016llx %s\n", (unsigned long long)k, (unsigned long long)x.hash, x.vio ? x.sig.c_str() : "-");
		if (o.count("verbose")) printf("%s%s\n", x.log.c_str(), x.detail.c_str());
	}
	return 0;
}

int main(int argc, char **argv) {
	// Same addresses in every process, so that even a read of uninitialised
	// memory repeats exactly.
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VSIM_EXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
		static char mark[] = "VSIM_EXEC=1";
		char *env[] = {mark, 0};
		execve("/proc/self/exe", argv, env);
	}
	if (argc < 2) { fprintf(stderr, "usage: vsim search|replay|hash|list ...\n"); return 2; }
	shm = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED) return 2;
	install_monitors();
	string cmd = argv[1];
	std::map<string, string> o;
	for (int i = 2; i + 1 < argc; i += 2) if (argv[i][0] == '-') o[argv[i] + 2] = argv[i + 1];
	if (cmd == "list") { for (auto &p : props()) printf("%s %s\n", p.id, p.rule); return 0; }
	if (cmd == "search") return cmd_search(o);
	if (cmd == "hash") return cmd_hash(o);
	if (cmd == "replay") return cmd_replay(argv[2], argc > 3);
	return 2;
}
