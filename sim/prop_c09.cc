// C09: every document of a stream is delivered once, in order.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;

static const char *const malformed_yaml[] = {
	"--- [1, 2\n", "--- \"abc\n", "--- {a: ]\n", "--- 'x\n", "--- @bad\n", "---\n- a\n b: [\n", "--- [*nope, [1, 2], {a: b}]\n",
	"--- {[1, 2]: x, y: [3]}\n", "--- *nope\n", "--- &a [*b, 1]\n", "--- \"\\q\"\n", "---\n\tkey: x\n", "--- !!binary [\n", "--- [a, {b: c}\n",
};

struct It {
	LoadAllIterator it;
	size_t pos; // index of the document it denotes, or the number of documents for the end
	bool end;
};

static void run_iter(Format f) {
	Gen g(f);
	g.budget = std::min<uint32_t>(g.budget, 25);
	std::vector<MV> docs;
	std::vector<size_t> ends;
	string text;
	MV last;
	unsigned n = f == YAML ? draw(6) : 1;
	bool emitted = chance(1, 3) && n > 0;
	if (f == YAML && chance(1, 6)) text += "# a stream\n";
	if (emitted) {
		Script sc;
		for (unsigned i = 0; i < n; ++i) { MV m = g.root(); docs.push_back(normalize(f, m)); sc.ops.push_back({0, m}); }
		Lib l;
		Variant params = gen_params(f, 0);
		if (f == YAML && params.IsMap()) params.Erase("implicit_document_begin");
		// ends of the documents: the text after each
		for (unsigned i = 1; i <= n; ++i) {
			Script part;
			part.ops.assign(sc.ops.begin(), sc.ops.begin() + i);
			Sink s(SINK_OUTPUT, WritePlan());
			part.perform(s.open_output(), f, params);
			s.output.reset();
			Out o;
			ends.push_back(s.got.size());
			if (i == n) text = s.got;
		}
	} else for (unsigned i = 0; i < n; ++i) {
		MV m = f == YAML && chance(1, 8) ? MV() : i && chance(1, 4) ? last : g.root();
		last = m;
		docs.push_back(normalize(f, m));
		string t = render(f, m, true);
		if (f == YAML && (i || text.size()) && t.compare(0, 4, "---\n")) t = "---\n" + t;
		text += t;
		ends.push_back(text.size());
	}
	int what = draw(4); // 0 intact, 1 malformed document, 2 read error, 3 early end
	if (f != YAML && what == 1) what = 0;
	size_t bad = n; // index of the first document that need not be delivered
	string tail;
	if (what == 1) {
		bad = draw(n + 1);
		string head(text, 0, bad ? ends[bad - 1] : 0), rest(text, head.size());
		if (bad && !emitted && head.size() && head[head.size() - 1] != '\n') head += "\n";
		text = head + malformed_yaml[draw(sizeof malformed_yaml / sizeof *malformed_yaml)];
		if (chance(1, 2)) { if (rest.compare(0, 3, "---")) text += "--- 1\n"; else text += rest; }
		fault(F_garbage);
	}
	SourceKind k = (SourceKind)draw(NSOURCES);
	ReadPlan p = draw_read_plan(text.size(), true);
	if (what >= 2 && k < SRC_STREAM) k = (SourceKind)(SRC_STREAM + draw(NSOURCES - SRC_STREAM));
	bool is_file = k == SRC_FILEP || k == SRC_FILENAME;
	size_t at = draw(text.size() + 1);
	if (what == 2) { p.fail_at = at; p.fail_persist = is_file || !chance(1, 4); }
	if (what == 3) p.eof_at = at;
	size_t must = n; // documents that have to be delivered
	if (what == 1) must = bad;
	if (what >= 2) {
		must = 0;
		if (f == YAML) { while (must + 1 < n && ends[must + 1] <= at) ++must; }
		else if (what == 3 && (f == JSON || f == XML) && at >= complete_end(f, text)) must = 1;
		else if (what == 3 && at >= text.size()) must = n;
		// streams that are read in whole blocks pass an error on with the block
		if (what == 2 && (is_file || k == SRC_STREAMBUF)) {
			size_t block = 8192;
			while (must && ends[must - 1] + block > at) --must;
			if (is_file) must = 0;
		}
	}
	ev("format=%s docs=%u what=%d at=%zu must=%zu", format_names[f], n, what, at, must);
	ev_bytes("stream", text.data(), text.size());
	Source s(k, text, p);
	ev("deliver via %s %s", source_names[k], p.desc().c_str());
	string tag = fmt("%s:%s", format_names[f], what == 0 ? "intact" : what == 1 ? "malformed" : what == 2 ? "error" : "cut");
	std::vector<It> its;
	size_t delivered = 0; // documents known so far
	bool ended = false;   // the end was reached
	unsigned errors = 0;
	std::vector<MV> seen;
	uint64_t rf0 = disk.read_failures;
	auto failures = [&]() { return s.failures + disk.read_failures - rf0; };
	// examine what an iterator denotes
	auto look = [&](It &x) {
		if (x.end) return;
		Outcome o = capture([&](MV &r) { r = to_model(x.it.Get()); });
		if (!o.ok) violate("lost:" + tag, "document %zu cannot be read again: %s", x.pos, show(o).c_str());
		if (x.pos < seen.size()) {
			if (!same(o.v, seen[x.pos])) violate("changed:" + tag, "document %zu was %s and is now %s", x.pos, show(seen[x.pos]).c_str(), show(o.v).c_str());
			return;
		}
		seen.push_back(o.v);
		ev("document %zu: %s", x.pos, show(o.v).c_str());
		bool whole = x.pos < n && equiv(o.v, docs[x.pos]);
		if (what == 3 && f != JSON && f != XML) { // a cut may leave a shortened last document
			if (!whole && x.pos < must) violate("wrong-document:" + tag, "document %zu is %s, expected %s", x.pos, show(o.v).c_str(), show(docs[x.pos]).c_str());
			return;
		}
		if (x.pos >= n || (what == 1 && x.pos >= bad)) {
			// text behind the malformed document must not turn into documents
			violate("invented:" + tag, "document %zu appeared: %s", x.pos, show(o.v).c_str());
		}
		if (!whole) violate("wrong-document:" + tag, "document %zu is %s, expected %s; stream %s", x.pos, show(o.v).c_str(), show(docs[x.pos]).c_str(), quote(text).c_str());
	};
	// where an iterator is after a step
	auto settle = [&](It &x, size_t from, bool first) {
		bool at_end;
		{ Lib l; at_end = x.it == LoadAllIterator(); }
		if (at_end) { x.end = true; x.pos = from; ended = true; if (errors) probe("end after an error"); if (from < delivered) violate("skipped:" + tag, "iterator reached the end behind %zu documents, another one saw %zu", from, delivered); }
		else {
			x.end = false;
			x.pos = from;
			if (from + 1 > delivered) { if (ended && !errors) violate("after-end:" + tag, "a document appeared after the end"); delivered = from + 1; }
			look(x);
		}
	};
	set_op("iterate-start");
	{
		LoadAllIterator i;
		Outcome o = capture([&](MV &) { i = s.deserialize_all(f); });
		if (!o.ok) {
			++errors;
			ev("start failed: %s", show(o).c_str());
			if (must) violate("not-delivered:" + tag, "the first document was not delivered: %s; stream %s", show(o).c_str(), quote(text).c_str());
			if (what == 0 || (what >= 2 && !failures() && what != 3)) violate("spurious-error:" + tag, "intact stream fails: %s; stream %s", show(o).c_str(), quote(text).c_str());
		} else {
			its.push_back({i, 0, false});
			settle(its[0], 0, true);
		}
	}
	unsigned budget = 12 + 6 * n;
	unsigned stuck = 0;
	while (!its.empty() && budget--) {
		unsigned a = draw(its.size());
		int op = draw(6);
		if (op == 5 && its.size() < 4) { Lib l; its.push_back(its[a]); probe("iterator copied"); continue; }
		if (op == 4) {
			look(its[a]);
			It &x = its[a], &y = its[draw(its.size())];
			bool eq, ne;
			{ Lib l; eq = x.it == y.it; ne = x.it != y.it; }
			bool want = x.end || y.end ? x.end && y.end : x.pos == y.pos;
			if (eq != want || ne == want) violate("compare:" + tag, "iterators at %zu%s and %zu%s compare %s", x.pos, x.end ? " (end)" : "", y.pos, y.end ? " (end)" : "", eq ? "equal" : "different");
			if (&x != &y) probe("iterators compared");
			continue;
		}
		It &x = its[a];
		if (x.end && !errors) {
			if (stuck++ > 3) continue;
			Outcome o = capture([&](MV &) { x.it.Next(); });
			if (!o.ok) { if (what == 0) violate("error-after-end:" + tag, "asking again after the end fails: %s", show(o).c_str()); ++errors; continue; }
			bool at_end;
			{ Lib l; at_end = x.it == LoadAllIterator(); }
			if (!at_end) violate("after-end:" + tag, "a document appeared after the end");
			probe("asked again after the end");
			continue;
		}
		size_t from = x.pos + 1;
		bool was_end = x.end;
		set_op("iterate-next");
		Outcome o = capture([&](MV &) { x.it.Next(); });
		if (!o.ok) {
			++errors;
			ev("next after %zu failed: %s", x.pos, show(o).c_str());
			if (delivered < must) violate("not-delivered:" + tag, "only %zu documents were delivered before the failure (%s), %zu are complete; stream %s", delivered, show(o).c_str(), must, quote(text).c_str());
			if (what == 0 || (what == 2 && !failures())) violate("spurious-error:" + tag, "intact stream fails: %s", show(o).c_str());
			if (errors > 1) probe("asked again after a failure");
			continue;
		}
		if (was_end) { bool at_end; { Lib l; at_end = x.it == LoadAllIterator(); } if (!at_end) violate("after-end:" + tag, "a document appeared after the end"); continue; }
		if (errors && from >= delivered) {
			bool at_end;
			{ Lib l; at_end = x.it == LoadAllIterator(); }
			if (!at_end) violate("invented:" + tag, "after the failure the iterator moved to a new document");
			x.end = true;
			continue;
		}
		settle(x, from, false);
	}
	// finish with the first iterator
	if (!its.empty() && !ended && !errors) {
		It &x = its[0];
		while (!x.end && !errors) {
			size_t from = x.pos + 1;
			if (from > n + 20) violate("endless:" + tag, "%zu documents from a stream of %u", from, n);
			Outcome o = capture([&](MV &) { x.it.Next(); });
			if (!o.ok) { ++errors; ev("next failed: %s", show(o).c_str()); if (what == 0 || (what == 2 && !failures())) violate("spurious-error:" + tag, "intact stream fails: %s", show(o).c_str()); break; }
			settle(x, from, false);
		}
	}
	if (ended && !errors) {
		size_t want = what == 3 ? must : what == 1 ? n + 1 : n;
		if (what == 1) violate("malformed-accepted:" + tag, "the stream ended normally although document %zu is malformed: %s", bad, quote(text).c_str());
		if (what == 2 && failures()) violate("error-swallowed:" + tag, "the source failed at %zu of %zu and the iteration ended normally after %zu documents", at, text.size(), delivered);
		if (delivered < want) violate("not-delivered:" + tag, "%zu of %zu documents delivered; stream %s", delivered, want, quote(text).c_str());
	} else if (delivered < must && !ended) violate("not-delivered:" + tag, "%zu of %zu complete documents delivered before the failure; stream %s", delivered, must, quote(text).c_str());
	{ Lib l; its.clear(); }
	mix(f); mix(what); mix(k); mix(p.mode); mix(delivered); mix(errors); mix(n); mix(fnv(text.data(), text.size()));
	if (n > 1 || what) nontrivial();
	probe(fmt("%s %s", format_names[f], tag.c_str()).c_str());
	sample("%s: %u documents, %s via %s %s -> %zu delivered, %u failures", tag.c_str(), n, quote(text, 200).c_str(), source_names[k], p.desc().c_str(), delivered, errors);
}
// JSON documents one after another on a shared input, one parser each.
static void run_json() {
	Gen g(JSON);
	g.budget = std::min<uint32_t>(g.budget, 25);
	unsigned n = 1 + draw(5);
	std::vector<MV> docs;
	std::vector<size_t> ends;
	string text;
	for (unsigned i = 0; i < n; ++i) {
		MV m = g.root();
		docs.push_back(normalize(JSON, m));
		string t = render(JSON, m);
		ends.push_back(text.size() + complete_end(JSON, t));
		text += t;
	}
	int what = draw(3); // 0 intact, 1 read error, 2 early end
	SourceKind k = (SourceKind)draw(NSOURCES);
	if (what && k < SRC_STREAM) k = (SourceKind)(SRC_STREAM + draw(NSOURCES - SRC_STREAM));
	bool is_file = k == SRC_FILEP || k == SRC_FILENAME;
	ReadPlan p = draw_read_plan(text.size(), true);
	size_t at = draw(text.size() + 1);
	if (what == 1) { p.fail_at = at; p.fail_persist = is_file || !chance(1, 4); }
	if (what == 2) p.eof_at = at;
	Source s(k, text, p);
	ev("json stream of %u documents via %s %s", n, source_names[k], p.desc().c_str());
	ev_bytes("stream", text.data(), text.size());
	shared_ptr<ParserInput> in;
	{ Lib l; in = s.open_input(); }
	unsigned got = 0;
	string tag = fmt("json-shared:%s", what == 0 ? "intact" : what == 1 ? "error" : "cut");
	bool stop = false;
	for (unsigned i = 0; i <= n && !stop; ++i) {
		set_op("parse-next");
		bool again = chance(1, 3);
		Outcome o = capture([&](MV &r) {
			Parser q = JSONParser(in);
			try { Variant v = ParseVariant(q); r = to_model(v); }
			catch (...) {
				if (!again) throw;
				Out x;
				probe("failed parser asked again");
				Outcome o2 = capture([&](MV &r2) { Variant v = ParseVariant(q); r2 = to_model(v); });
				if (o2.ok) violate("invented:" + tag, "a parser that failed then returned %s", show(o2.v).c_str());
				throw;
			}
		});
		ev("document %u: %s", i, show(o).c_str());
		bool must = i < n && (what == 0 || (ends[i] <= at && !(what == 1 && (is_file || k == SRC_STREAMBUF))));
		if (o.ok) {
			if (i >= n) violate("invented:" + tag, "a document appeared behind the last one: %s", show(o.v).c_str());
			if (!equiv(o.v, docs[i])) violate("wrong-document:" + tag, "document %u is %s, expected %s", i, show(o.v).c_str(), show(docs[i]).c_str());
			if (what && ends[i] > at && !(what == 1 && !p.fail_persist)) violate("partial:" + tag, "document %u was delivered although the data stops inside it", i);
			++got;
		} else {
			if (must) violate("not-delivered:" + tag, "document %u is complete but the parse fails: %s; stream %s", i, show(o).c_str(), quote(text).c_str());
			stop = true;
		}
	}
	{ Lib l; in.reset(); s.input.reset(); }
	mix(99); mix(what); mix(k); mix(p.mode); mix(got); mix(fnv(text.data(), text.size()));
	if (n > 1) nontrivial();
	probe(tag.c_str());
}
static void run() {
	switch (draw(6)) {
	case 0: run_iter(XML); break;
	case 1: run_iter(BUNDLE); break;
	case 2: case 3: run_json(); break;
	default: run_iter(YAML);
	}
}
static Register r({"C09", "each run draws a stream of 0-6 documents (own renderer or library emitter), possibly with a malformed document, a read error or an early end at a drawn byte, and iterates it with up to four iterator copies advanced, compared and asked again in drawn order, or parses JSON documents one after another from a shared input; non-trivial: several documents or a fault", run, 160000000, 64, true});
