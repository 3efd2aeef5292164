// C18: documents flushed before a crash survive it.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;
using std::vector;

// ---------------------------------------------------------------- storage
// What survives a crash is what the storage took; buffers in between are lost.
struct Moment { size_t stored; unsigned safe; unsigned begun; }; // bytes stored, documents flushed, documents begun
static vector<Moment> *timeline;
static unsigned safe, begun;
static void note_stored(size_t bytes) { if (timeline) timeline->push_back({bytes, safe, begun}); }

// An output with a write-back cache: takes part of each write and stores old data when it has to.
class CacheOutput : public EmitterOutput {
	WritePlan plan;
	size_t size;
	unsigned n = 0;
	string cache;
	void store(size_t k) {
		while (k) {
			size_t c = 1 + draw(std::min<size_t>(k, 600));
			stored.append(cache, 0, c);
			cache.erase(0, c);
			k -= c;
			note_stored(stored.size());
		}
	}
public:
	string &stored;
	uint64_t refused = 0;
	CacheOutput(const WritePlan &p, size_t s, string &st) : plan(p), size(s), stored(st) { ++live_objects; }
	~CacheOutput() { --live_objects; } // the cache is lost
	unsigned Write(const void *p, unsigned len) override {
		Out o;
		seam_event();
		if (plan.fail_at >= 0 && n >= plan.fail_at) { fault(F_zero_write); if (++refused > 1000) violate("hang:sink-retry", "the output is written to again and again after refusing"); return 0; }
		unsigned c = plan.mode == WritePlan::Full ? len : plan.mode == WritePlan::Fixed ? plan.k : 1 + draw(plan.k);
		if (c > len) c = len;
		if (c < len) fault(F_short_write);
		cache.append((const char *)p, c);
		n += c;
		if (cache.size() > size) store(cache.size() - size);
		return c;
	}
	void Flush() override { Out o; seam_event(); store(cache.size()); }
	unsigned NumBytesWritten() const override { return n; }
};

// ---------------------------------------------------------------- reading back
// The complete values in a sequence of JSON lists and maps.
static vector<string> split_json(const string &t) {
	vector<string> r;
	int depth = 0;
	bool str = false;
	size_t from = 0;
	for (size_t i = 0; i < t.size(); ++i) {
		char c = t[i];
		if (str) { if (c == '\\') ++i; else if (c == '"') str = false; continue; }
		if (c == '"') str = true;
		else if (c == '[' || c == '{') { if (!depth++) from = i; }
		else if (c == ']' || c == '}') { if (!--depth) r.push_back(t.substr(from, i + 1 - from)); if (depth < 0) return r; }
	}
	return r;
}
static void read_back(Format f, const string &all, unsigned need, unsigned allowed, const vector<MV> &docs, const string &when) {
	vector<MV> got;
	string err;
	set_op("read-back");
	if (f == YAML) {
		// a torn document marker cannot be told from content: the reader leaves out an unfinished last line
		string disk_text = all.substr(0, all.rfind('\n') + 1);
		Outcome o = capture([&](MV &) {
			LoadAllIterator i = DeserializeAll(disk_text, stype(f)), e;
			for (; i != e; ++i) { MV m = to_model(*i); Out x; got.push_back(m); if (got.size() > docs.size() + 3) break; }
		});
		if (!o.ok) err = show(o);
	} else if (f == JSON) {
		const string &disk_text = all;
		for (auto &t : split_json(disk_text)) {
			MV m;
			Outcome o = capture([&](MV &r) { r = to_model(Deserialize(t, stype(f))); });
			if (!o.ok) { err = show(o); break; }
			got.push_back(o.v);
		}
	} else if (all.size()) {
		const string &disk_text = all;
		Outcome o = capture([&](MV &r) { r = to_model(Deserialize(disk_text, stype(f))); });
		if (!o.ok) err = show(o); else got.push_back(o.v);
	}
	string tag = format_names[f];
	for (unsigned i = 0; i < need; ++i) {
		if (i >= got.size()) violate("lost:" + tag, "%s: document %u of %u flushed ones is not there (%zu bytes stored: %s) %s", when.c_str(), i, need, all.size(), quote(all).c_str(), err.c_str());
		if (!equiv(got[i], docs[i])) violate("damaged:" + tag, "%s: flushed document %u is read back as %s, expected %s; stored: %s", when.c_str(), i, show(got[i]).c_str(), show(docs[i]).c_str(), quote(all).c_str());
	}
	// what follows may be cut off in its last document only
	for (unsigned i = need; i + 1 < got.size(); ++i)
		if (i >= docs.size() || !equiv(got[i], docs[i])) violate("overtaken:" + tag, "%s: document %u is %s although a later one follows; stored: %s", when.c_str(), i, show(got[i]).c_str(), quote(all).c_str());
	if (got.size() > allowed) violate("invented:" + tag, "%s: %zu documents are read back, only %u were begun; stored: %s", when.c_str(), got.size(), allowed, quote(all).c_str());
	if (got.size() > need) probe("unflushed document survived");
}

static void emit_some(Emitter &e, const MV &v, bool flushes) {
	if (flushes && chance(1, 8)) e.Flush();
	if (v.t == MV::List) {
		e.BeginList(v.l.size());
		for (auto &x : v.l) emit_some(e, x, flushes);
		e.EndList();
	} else if (v.t == MV::Map) {
		e.BeginMap(v.m.size());
		for (auto &x : v.m) { e.Emit(x.first); emit_some(e, x.second, flushes); }
		e.EndMap();
	} else emit_events(e, v);
}

static void run() {
	Format f = chance(2, 5) ? YAML : chance(1, 2) ? JSON : (Format)draw(NFORMATS);
	bool many = f == YAML || f == JSON;
	Gen g(f);
	g.budget = std::min<uint32_t>(g.budget, chance(1, 20) ? 400 : 40);
	unsigned n = many ? 1 + draw(5) : 1;
	vector<MV> raw, docs;
	for (unsigned i = 0; i < n; ++i) { MV m = g.root(); raw.push_back(m); docs.push_back(normalize(f, m)); }
	enum { CACHE, STREAM, FILEP, FILENAME, NKINDS };
	static const char *const kinds[] = {"cache", "stream", "FILE", "file name"};
	int k = draw(NKINDS);
	bool sessions = many && n > 1 && chance(1, 3);  // new emitters continue the output
	string pdesc;
	Lib lib;
	Variant params = gen_params(f, &pdesc);
	if (f == YAML && params.IsMap()) params.Erase("implicit_document_begin");
	Out out;
	WritePlan p = draw_write_plan(2000);
	p.fail_at = -1; p.flush_fails = false;
	bool fails = chance(1, 6);
	size_t at = draw_size(3000);
	DiskPlan &d = disk.plans[""];
	d.bufmode = draw(4);
	d.bufsize = 1 + draw_size(5000);
	if (fails) { if (k >= FILEP) (draw(2) ? d.capacity : d.io_error_at) = at; else p.fail_at = at; }
	vector<Moment> moments;
	timeline = &moments;
	safe = begun = 0;
	string stored;
	std::unique_ptr<Sink> sink;
	size_t cache = k == CACHE ? (chance(1, 3) ? 0 : draw_size(4000)) : 0;
	uint32_t sbuf = k == STREAM ? draw_size(3000) : 0;
	if (k == STREAM) sink.reset(new Sink(SINK_STREAMBUF, p, sbuf));
	else if (k == FILEP) sink.reset(new Sink(SINK_FILEP, p));
	else if (k == FILENAME) sink.reset(new Sink(SINK_FILENAME, p));
	storage_hook = [](size_t bytes) { note_stored(bytes); };
	ev("format=%s params=%s documents=%u via %s plan %s cache=%zu sbuf=%u bufmode=%d bufsize=%u sessions=%d fails=%d@%zu", format_names[f], pdesc.c_str(), n, kinds[k], p.desc().c_str(), cache, sbuf, d.bufmode, d.bufsize, sessions, fails, at);
	auto content = [&]() -> const string & { return k == CACHE ? stored : k == STREAM ? sink->got : disk.files[sink->path]; };
	shared_ptr<EmitterOutput> output;
	Emitter emitter;
	auto open = [&](bool again) {
		switch (k) {
		case CACHE: if (!again) { Out o; output.reset(new CacheOutput(p, cache, stored)); } break;
		case FILENAME:
			output.reset();
			output.reset(new EmitterFilenameOutput(sink->path.c_str(), again ? "a" : "w"));
			break;
		default: if (!again) output = sink->open_output();
		}
		emitter = CreateEmitter(output, stype(f), params);
	};
	vector<size_t> after_flush; // indices of moments at which a flush had just returned
	bool died = false;
	set_op("write");
	for (unsigned i = 0; i < n && !died; ++i) {
		bool reopen = i && sessions && chance(1, 2);
		bool inner = chance(1, 4), direct = chance(1, 4);
		bool flush = chance(2, 3) || (i + 1 < n && sessions);
		begun = i + 1;
		Outcome o = capture([&](MV &) {
			if (!i) open(false);
			else if (reopen) { emitter.Close(); emitter = Emitter(); open(true); }
			emitter.BeginDocument();
			if (direct) emitter << build(raw[i]);
			else emit_some(emitter, raw[i], inner);
			emitter.EndDocument();
		});
		if (o.ok && flush) {
			o = capture([&](MV &) { emitter.Flush(); });
			if (o.ok) { safe = i + 1; after_flush.push_back(moments.size()); note_stored(content().size()); ev("document %u flushed, %zu bytes stored", i, content().size()); }
		}
		if (!o.ok) {
			ev("document %u: %s", i, show(o).c_str());
			died = true; // the program ends here
			if (!fails) violate(fmt("failed:%s", format_names[f]), "writing fails without a fault: %s", show(o).c_str());
			probe("write failed before the crash");
		}
	}
	note_stored(content().size());
	string final = content();
	timeline = 0;
	unsigned ended = safe;
	// crash points: after each flush, between storage events, in the middle of one
	vector<std::pair<size_t, size_t>> points; // moment, bytes
	for (auto m : after_flush) points.push_back({m, moments[m].stored});
	unsigned extra = 3 + draw(4);
	for (unsigned i = 0; i < extra && !moments.empty(); ++i) {
		size_t m = draw(moments.size());
		size_t lo = moments[m].stored, hi = m + 1 < moments.size() ? moments[m + 1].stored : lo;
		points.push_back({m, hi > lo ? lo + draw(hi - lo + 1) : lo});
	}
	if (chance(1, 2)) points.push_back({moments.size() - 1, final.size()});
	for (auto &x : points) {
		const Moment &m = moments[x.first];
		unsigned allowed = x.first + 1 < moments.size() ? moments[x.first + 1].begun : m.begun;
		fault(F_crash);
		if (x.second > final.size()) violate("shrunk", "storage shrank");
		string t = final.substr(0, x.second);
		ev("crash at moment %zu: %zu bytes, %u flushed", x.first, t.size(), m.safe);
		if (m.safe) nontrivial();
		read_back(f, t, m.safe, allowed, docs, fmt("crash with %zu of %zu bytes stored after %u flushed documents (%s)", x.second, final.size(), m.safe, kinds[k]));
		mix(m.safe); mix(x.second);
	}
	mix(f); mix(k); mix(n); mix(ended); mix(final.size());
	sample("%s via %s: %u documents, %u flushed, %zu storage events, %zu crash points", format_names[f], kinds[k], n, ended, moments.size(), points.size());
	storage_hook = 0;
	capture([&](MV &) { emitter = Emitter(); output.reset(); });
	if (sink) { sink->output.reset(); sink.reset(); }
}
static Register r({"C18", "each run writes 1-5 documents with flushes at drawn places through one or several emitters to an output with a write-back cache, a buffered stream or a buffered file, with partly accepted and possibly failing writes, and examines 3-12 crash points: after each flush, between storage events and inside one; what was stored then is read back and compared; non-trivial: a document had been flushed at a crash point; distinct by format, output, document count and the stored bytes and flushed documents at the crash points", run, 160000000, 64, true});
