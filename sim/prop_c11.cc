// C11: what failed leaves no trace on what comes later.
#include "act.h"
#include "main.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string.h>
using namespace sim;
using namespace libvariant;
using std::string;

static string digest(const ActResult &r) {
	// messages may name addresses of the situation, the kind of result may not change
	return (r.o.ok ? "value " + show(r.o.v, 100000) : r.o.type == "exit" ? r.o.what : "error " + r.o.type) + "\n" + r.out;
}
// Results of operations in a process where nothing failed.
static std::vector<string> elsewhere(std::vector<std::unique_ptr<Act>> &acts) {
	const size_t N = 1 << 20;
	char *m = (char *)mmap(0, N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); _exit(2); }
	fflush(stdout);
	pid_t c = fork();
	if (c < 0) { perror("fork"); _exit(2); }
	if (c == 0) {
		size_t at = 0;
		for (auto &a : acts) {
			string d = digest(a->perform(0));
			uint32_t n = std::min(d.size(), N / 4);
			memcpy(m + at, &n, 4);
			memcpy(m + at + 4, d.data(), n);
			at += 4 + n;
		}
		_exit(0);
	}
	int st;
	waitpid(c, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) {
		munmap(m, N);
		violate("alone:" + acts[0]->name, "operations without a failure ended with status %x", st);
	}
	std::vector<string> res;
	size_t at = 0;
	for (size_t i = 0; i < acts.size(); ++i) {
		uint32_t n;
		memcpy(&n, m + at, 4);
		res.push_back(string(m + at + 4, n));
		at += 4 + n;
	}
	munmap(m, N);
	return res;
}

// Goes on with a parser, or an emitter, after it failed.
static void parser_goes_on() {
	Format f = (Format)draw(NFORMATS);
	Gen g(f);
	g.budget = std::min<uint32_t>(g.budget, 30);
	string doc = render(f, g.root(), true);
	if (chance(1, 2)) mutate(f, doc);
	ReadPlan plan = draw_read_plan(doc.size(), true), broken = plan;
	int64_t throw_at = -1;
	SourceKind kind = (SourceKind)draw(NSOURCES);
	int how = draw(3);
	if (how == 0) throw_at = draw(16);
	else if (how == 1) { broken.fail_at = draw(doc.size() + 1); broken.fail_persist = draw(2); }
	AllocPlan ap;
	string tag = fmt("%s:%s", format_names[f], source_names[kind]);
	// how it goes without the failure
	uint64_t all = 0, allocs = 0;
	bool good;
	{
		Source s(kind, doc, plan);
		EventLog log;
		log.tag = tag;
		alloc_arm(AllocPlan());
		good = capture([&](MV &) { Parser p = CreateParser(s.open_input(), stype(f)); p.PushAction(event_actions(&log)); while (p.Run() == 0) {} }).ok;
		allocs = alloc_count();
		alloc_disarm();
		all = log.events;
	}
	if (how == 2 && allocs) { ap.fail_at = draw(allocs); ap.repeat = 1 + draw(3); }
	ev("parser %s: %s, %llu events without the failure; handler throws at %lld, read fails at %lld, allocation %lld", tag.c_str(), good ? "good" : "malformed", (unsigned long long)all, (long long)throw_at, (long long)broken.fail_at, (long long)ap.fail_at);
	Source s(kind, doc, broken);
	EventLog log;
	log.tag = tag;
	log.throw_at = throw_at;
	alloc_arm(ap);
	unsigned failed = 0, after = 0;
	bool hit_alloc = false;
	Outcome o = capture([&](MV &) {
		Parser p = CreateParser(s.open_input(), stype(f));
		p.PushAction(event_actions(&log));
		for (unsigned calls = 0; calls < 4000 && after < 6; ++calls) {
			int rc = -1;
			try { rc = p.Run(); }
			catch (...) { ++failed; }
			if (failed) ++after;
			hit_alloc = alloc_fired() > 0;
			if (rc == 1) {
				Out x;
				if (failed && log.events < all) violate("done-after-failure:" + tag, "the parser failed, then said it was done after %llu of %llu events", (unsigned long long)log.events, (unsigned long long)all);
				if (failed && !good && !hit_alloc) violate("done-after-failure:" + tag, "the parser failed, then said it was done with a malformed document");
				break;
			}
			if (rc == 0 && failed) { Out x; probe("went on after a failure"); }
			bool e = p.Error(), k = p.Ok(), d = p.Done();
			string es = p.ErrorStr();
			(void)e; (void)k; (void)d;
		}
	});
	alloc_disarm();
	ev("failed %u times", failed);
	if (failed) { nontrivial(); probe("parser used after a failure"); }
	if (!failed && o.ok && good && log.events != all) violate("events:" + tag, "%llu events instead of %llu", (unsigned long long)log.events, (unsigned long long)all);
	mix(log.hash); mix(failed);
	sample("parser %s, failed %u times, then asked again", tag.c_str(), failed);
}
// A source whose contents are replaced while a parser holds it.
class Renewed : public ParserInput {
	string data;
	size_t pos = 0, chunk = 1;
	char *win = 0;
	int64_t fail = -1;
public:
	~Renewed() { Out o; free(win); }
	size_t used() const { return pos; }
	void set(const string &d, size_t k, int64_t f) { data = d; pos = 0; chunk = k; fail = f; }
	const void *GetPtr(unsigned &len) {
		Out o;
		size_t n = std::min(std::max<size_t>(len, chunk), data.size() - pos);
		if (fail >= 0 && pos + n > (size_t)fail) throw InjectedError("simulated read error");
		free(win);
		win = 0;
		len = n;
		if (!n) return 0;
		win = (char *)malloc(n);
		memcpy(win, data.data() + pos, n);
		return win;
	}
	void Release(unsigned len) { Out o; pos = std::min(pos + len, data.size()); }
};
// Runs a parser to the end or its failure, at most n calls.
static Outcome run_parser(Parser &p, unsigned n, bool &done) {
	done = false;
	return capture([&](MV &) { for (unsigned i = 0; i < n && !done; ++i) done = p.Run() != 0; });
}
// Goes on with a parser that was reset, wherever it was.
static void reset_goes_on() {
	Format f = (Format)draw(NFORMATS);
	string doc[2];
	for (auto &d : doc) {
		Gen g(f);
		g.budget = std::min<uint32_t>(g.budget, 30);
		d = render(f, g.root(), true);
		if (f == YAML) d += "\n";
	}
	if (chance(1, 3)) doc[1] = doc[0];
	if (chance(1, 3)) doc[1] += (f == YAML ? "---\n" : " ") + doc[0]; // more follows
	if (chance(1, 2)) mutate(f, doc[0]);
	if (chance(1, 4)) mutate(f, doc[1]);
	string tag = format_names[f];
	size_t chunk[2] = {1 + draw(chance(1, 2) ? 8 : 5000), 1 + draw(chance(1, 2) ? 8 : 5000)};
	int64_t fail = chance(1, 3) ? (int64_t)draw(doc[0].size() + 1) : -1;
	int64_t throw_at = chance(1, 2) ? (int64_t)draw(chance(1, 2) ? 8 : 24) : -1;
	unsigned calls = chance(1, 3) ? draw(8) : 4000;
	AllocPlan in_reset;
	if (chance(1, 3)) { in_reset.fail_at = draw(8); in_reset.repeat = 1 + draw(2); }
	// the second document alone
	EventLog alone;
	alone.tag = tag;
	Outcome want;
	bool want_done = false;
	size_t want_used;
	{
		Renewed *in = 0;
		Parser *p = 0;
		Outcome o = capture([&](MV &) { in = new Renewed; shared_ptr<ParserInput> i(in); in->set(doc[1], chunk[1], -1); p = new Parser(CreateParser(i, stype(f))); p->PushAction(event_actions(&alone)); });
		if (!o.ok) violate("create:" + tag, "no parser: %s", show(o).c_str());
		want = run_parser(*p, 4000, want_done);
		want_used = in->used();
		Lib l;
		delete p;
	}
	EventLog log;
	log.tag = tag;
	log.throw_at = throw_at;
	Renewed *in = 0;
	Parser *p = 0;
	Outcome o = capture([&](MV &) { in = new Renewed; shared_ptr<ParserInput> i(in); in->set(doc[0], chunk[0], fail); p = new Parser(CreateParser(i, stype(f))); p->PushAction(event_actions(&log)); });
	if (!o.ok) violate("create:" + tag, "no parser: %s", show(o).c_str());
	bool done;
	Outcome first = run_parser(*p, calls, done);
	ev("parser %s: first document %s%s, then a reset", tag.c_str(), show(first).c_str(), done ? ", done" : "");
	auto renew = [&] { in->set(doc[1], chunk[1], -1); log = EventLog(); log.tag = tag; };
	auto judge = [&](Outcome &got, bool got_done) {
		if (got.ok != want.ok || got_done != want_done || log.events != alone.events || log.hash != alone.hash || (!got.ok && got.type != want.type))
			violate("reset:" + tag, "after a reset %s is read as %s (%llu events), by a new parser as %s (%llu events)", quote(doc[1]).c_str(), show(got).c_str(), (unsigned long long)log.events, show(want).c_str(), (unsigned long long)alone.events);
		if (f == JSON && got.ok && in->used() != want_used) violate("reset-used:" + tag, "after a reset the parser takes %zu bytes of %s, a new parser %zu", in->used(), quote(doc[1]).c_str(), want_used);
	};
	renew();
	alloc_arm(in_reset);
	o = capture([&](MV &) { p->Reset(); });
	alloc_disarm();
	uint64_t fired = alloc_fired();
	if (!o.ok && !fired) violate("reset-failed:" + tag, "the parser cannot be reset: %s", show(o).c_str());
	if (!o.ok) {
		probe("reset ran out of memory");
		bool d2;
		Outcome g = run_parser(*p, 4000, d2); // may refuse, may not give anything else
		if (g.ok) judge(g, d2);
		renew();
		o = capture([&](MV &) { p->Reset(); });
		if (!o.ok) violate("reset-failed:" + tag, "the parser cannot be reset again: %s", show(o).c_str());
	}
	Outcome got = run_parser(*p, 4000, done);
	judge(got, done);
	{ Lib l; delete p; }
	if (!first.ok) probe("parser reset after a failure");
	else probe("parser reset");
	nontrivial();
	mix(log.hash); mix(first.ok); mix(fired);
	sample("parser %s, %s, reset, then another document", tag.c_str(), first.ok ? "stopped" : "failed");
}
static void emitter_goes_on() {
	Format f = (Format)draw(NFORMATS);
	Gen g(f);
	g.budget = std::min<uint32_t>(g.budget, 20);
	Script script;
	script.ops.push_back({0, g.root()});
	script.draw_docs(f, g);
	if (f != JSON && f != YAML) script.ops.resize(1);
	string tag = format_names[f];
	string whole;
	{
		Sink s(SINK_OUTPUT, WritePlan());
		Outcome o = capture([&](MV &) { shared_ptr<EmitterOutput> out = s.open_output(); script.perform(out, f, Variant()); });
		whole = s.content();
		if (!o.ok) return;
	}
	WritePlan plan;
	if (chance(1, 2)) { plan.mode = WritePlan::Random; plan.k = 1 + draw(40); }
	plan.fail_at = draw(whole.size() + 1);
	plan.fail_how = draw(2);
	plan.fail_calls = 1 + draw(3);
	Sink s(SINK_OUTPUT, plan);
	unsigned failed = 0, fine = 0;
	ev("emitter %s: %zu bytes, sink fails at %lld, %u times", tag.c_str(), whole.size(), (long long)plan.fail_at, plan.fail_calls);
	Outcome o = capture([&](MV &) {
		shared_ptr<EmitterOutput> out = s.open_output();
		Emitter e = CreateEmitter(out, stype(f));
		for (auto &x : script.ops) {
			try {
				script.one(e, x);
				++fine;
			} catch (...) { ++failed; }
		}
		try { e.Close(); } catch (...) { ++failed; }
	});
	if (s.failures) {
		nontrivial();
		probe("emitter used after a failure");
		if (!failed && o.ok) violate("unreported:" + tag, "the sink failed and no call said so");
	}
	string got = s.content();
	if (whole.compare(0, got.size(), got)) violate("wrote-after-failure:" + tag, "after the sink failed at %lld the emitter wrote %s, expected the start of %s", (long long)plan.fail_at, quote(got).c_str(), quote(whole).c_str());
	mix(failed); mix(fine); mix(got.size());
	sample("emitter %s, sink fails at byte %lld, %u calls failed", tag.c_str(), (long long)plan.fail_at, failed);
}

static void run() {
	int kind = draw(10);
	if (kind == 0) return parser_goes_on();
	if (kind >= 8) return reset_goes_on();
	if (kind == 1) return emitter_goes_on();
	bool cold = draw(2);
	unsigned np = 1 + draw(3), nf = 1 + draw(4);
	std::vector<std::unique_ptr<Act>> probes, faulty;
	std::vector<string> want;
	unsigned kinds = ACT_ALL;
	act_format = -1;
	if (chance(1, 2)) { // things of one kind have more in common
		static const unsigned one[] = {ACT_PARSE, ACT_WRITE, ACT_SCHEMA, ACT_EDIT, ACT_ARGS, ACT_PARSE};
		kinds = one[draw(6)];
		if (kinds == ACT_PARSE || kinds == ACT_WRITE) act_format = draw(NFORMATS);
	}
	for (unsigned i = 0; i < np; ++i) probes.push_back(draw_act(kinds & ~ACT_OWN));
	for (unsigned i = 0; i < nf; ++i) faulty.push_back(draw_act(kinds));
	act_format = -1;
	for (auto &a : probes) a->account = false;
	for (auto &a : faulty) a->account = false;
	want = elsewhere(probes);
	for (size_t i = 0; i < probes.size(); ++i) {
		Act *p = probes[i].get();
		ev("later: %s", p->desc.c_str());
		if (!cold) {
			string d = digest(p->perform(0)).substr(0, 1 << 18);
			if (d != want[i]) violate("order:" + p->name, "%s gives %s here and %s in another process", p->desc.c_str(), quote(d).c_str(), quote(want[i]).c_str());
		}
	}
	unsigned failures = 0;
	string what;
	for (auto &a : faulty) {
		AllocPlan ap;
		bool io = draw(2) && a->add_fault();
		if (!io || chance(1, 4)) { ap.fail_at = draw(cold ? 400 : 80); ap.repeat = 1 + (chance(1, 4) ? draw(20) : 0); ap.persistent = chance(1, 6); }
		ActResult r = a->perform(&ap);
		ev("fails: %s -> %s (%llu failures, %llu failed allocations)", a->desc.c_str(), show(r.o).c_str(), (unsigned long long)r.injected, (unsigned long long)r.fired);
		if (!r.o.ok) { ++failures; what = a->name; }
		if (io) a->clear_fault();
		mix(r.o.ok); mix(r.injected); mix(r.fired);
	}
	for (size_t i = 0; i < probes.size(); ++i) {
		string d = digest(probes[i]->perform(0)).substr(0, 1 << 18);
		if (d != want[i]) violate("trace:" + probes[i]->name, "%s gives %s after something else failed (last: %s), otherwise %s", probes[i]->desc.c_str(), quote(d).c_str(), what.c_str(), quote(want[i]).c_str());
	}
	if (failures) { nontrivial(); probe(cold ? "failure in first use" : "failure"); }
	mix(cold);
	sample("%u operations, %u failed%s, then %u others compared", nf, failures, cold ? " (first use of the library)" : "", np);
}
static Register r({"C11", "each run is a process of its own that performs 1-4 operations with drawn failures (malformed data, read, write, disk, network and allocation failures, handler exceptions), half of the time as the very first use of the library, then 1-3 other operations whose results are compared with those in a process where nothing else happened; some runs go on using the parser or emitter that failed, or reset the parser and give it another document; non-trivial: something failed", run, 160000000, 1, false});
