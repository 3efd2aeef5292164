// C02: a failed or cut-off read is never taken for a complete document.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;

static void run() {
	Format f = (Format)draw(NFORMATS);
	Gen g(f);
	if (chance(1, 30)) { g.budget = 700; g.big = true; }
	int mode = draw(8); // 0..3 one call, 4 guess, 5 all-iterator, 6,7 payload
	if (mode == 5 && f != YAML) mode = 0;
	if (mode == 4 && f != JSON && f != XML) mode = 0;
	string doc, payload;
	MV m;
	int origin = draw(2);
	size_t header_end = 0; // payload: offset of the end of the padding
	if (mode >= 6) {
		m = payload_root(f, g, &payload);
		Lib l;
		Variant v = build(m);
		add_payload(v, f, payload);
		string s = SerializeWithPayload(v, stype(f));
		Out o;
		doc.assign(s.data(), s.size());
		header_end = doc.size() - payload.size();
	} else {
		m = g.root();
		if (origin == 0) doc = render(f, m, true);
		else {
			Lib l;
			Variant v = build(m);
			Variant params = gen_params(f, 0);
			string s = Serialize(v, stype(f), params);
			Out o;
			doc.assign(s.data(), s.size());
		}
	}
	auto parse = [&](Source &s, MV &r) {
		if (mode >= 6) r = to_model(s.deserialize_payload(f, Variant()));
		else if (mode == 5) {
			LoadAllIterator i = s.deserialize_all(f);
			unsigned n = 0;
			MV first;
			for (; i != LoadAllIterator(); ++i) {
				MV x = to_model(*i);
				Out o;
				if (n++ == 0) first = x;
			}
			Out o;
			if (n != 1) { r.t = MV::Bad; r.s = fmt("%u documents", n); }
			else r = first;
		} else if (mode == 4) r = to_model(s.deserialize_guess());
		else r = to_model(s.deserialize(f));
	};
	Outcome base;
	{
		Source s(SRC_MEM, doc, ReadPlan());
		set_op("parse-memory");
		base = capture([&](MV &r) { parse(s, r); });
	}
	ev("format=%s mode=%d origin=%d bytes=%zu base=%s", format_names[f], mode, origin, doc.size(), show(base).c_str());
	ev_bytes("document", doc.data(), doc.size());
	if (mode == 4 && !base.ok) { // the guess may be another format; only that it does not depend on delivery is C01's
		probe("guessed another format");
		return;
	}
	if (!base.ok) violate(fmt("valid-rejected:%s:%d", format_names[f], mode), "valid document rejected: %s; %s", show(base).c_str(), quote(doc).c_str());
	// from where on the document is complete
	size_t whole = string::npos; // explicit end: later errors do not matter
	if (mode >= 6) { if (payload.empty()) { string h(doc, 0, header_end); whole = f == JSON || f == XML ? complete_end(f, h) : header_end; } else whole = doc.size(); }
	else if (f == JSON || f == XML) whole = complete_end(f, doc);
	else if (f == YAML && doc.size() >= 4 && doc.compare(doc.size() - 4, 4, "...\n") == 0) whole = doc.size() - 4;
	unsigned n = 1 + draw(3);
	for (unsigned i = 0; i < n; ++i) {
		SourceKind k = (SourceKind)(SRC_STREAM + draw(NSOURCES - SRC_STREAM));
		bool is_file = k == SRC_FILEP || k == SRC_FILENAME;
		ReadPlan p = draw_read_plan(doc.size(), true);
		bool cut = chance(1, 3);
		size_t at = chance(1, 4) ? (doc.size() > 30 ? doc.size() - draw(30) : doc.size()) : draw(doc.size() + 1);
		if (cut) p.eof_at = at;
		else { p.fail_at = at; p.fail_persist = is_file || !chance(1, 3); }
		bool again = false; // a reader may try again after this error
		if (is_file && !cut) {
			static const int errs[] = {0, EBADF, ENOMEM, ETIMEDOUT, ECONNRESET, EISDIR, EOVERFLOW, EINTR, EAGAIN};
			p.err = errs[draw(9)];
			again = p.err == EINTR || p.err == EAGAIN;
			p.fail_persist = !again;
		} else if (!is_file && chance(1, 2)) p.thrown = draw(NTHROWN);
		if (is_file) {
			disk.plans[""].bufmode = draw(4);
			disk.plans[""].bufsize = 1 + draw(64);
		}
		Source s(k, doc, p);
		uint64_t rf0 = disk.read_failures;
		ev("deliver via %s %s", source_names[k], p.desc().c_str());
		set_op(fmt("parse-%s", source_names[k]).c_str());
		Outcome o = capture([&](MV &r) { parse(s, r); });
		uint64_t failures = s.failures + disk.read_failures - rf0;
		ev("outcome %s, %llu failed reads", show(o).c_str(), (unsigned long long)failures);
		string tag = fmt("%s:%d:%s", format_names[f], mode, source_names[k]);
		if (o.ok) {
			if (!cut) {
				bool must = failures && !again && (whole == string::npos || at < whole);
				if (must) violate("error-swallowed:" + tag, "the source %s failed at %zu of %zu and the parse returned %s", source_names[k], at, doc.size(), show(o.v).c_str());
				if (!same(o.v, base.v)) violate("partial-value:" + tag, "source %s %s: returned %s, the document is %s", source_names[k], p.desc().c_str(), show(o.v).c_str(), show(base.v).c_str());
			} else {
				bool explicit_end = mode >= 6 ? (!payload.empty() && (f == JSON || f == XML || at >= header_end)) : (f == JSON || f == XML);
				if (mode == 4 && at <= doc.find_first_not_of(" \t\n")) explicit_end = false; // nothing to guess from
				if (explicit_end) {
					if (at < whole) violate("cut-accepted:" + tag, "data ends at %zu, the document needs %zu, and the parse returned %s", at, whole, show(o.v).c_str());
					if (!same(o.v, base.v)) violate("partial-value:" + tag, "source %s %s: returned %s, the document is %s", source_names[k], p.desc().c_str(), show(o.v).c_str(), show(base.v).c_str());
				}
			}
		} else {
			if (!cut && !failures) violate("spurious-error:" + tag, "no read failed but the parse did: %s", show(o).c_str());
			bool complete = cut && (mode < 6 ? (f == JSON || f == XML) && at >= whole : at >= doc.size());
			if (complete) violate("spurious-error:" + tag, "the document is complete at %zu and the data ends at %zu, but the parse failed: %s", whole, at, show(o).c_str());
		}
		mix(k * 4 + p.mode); mix(o.ok); mix(at); mix(cut);
		if (failures || (cut && at < doc.size())) nontrivial();
		probe(fmt("%s %s %s", cut ? "cut" : "error", format_names[f], o.ok ? "value" : "exception").c_str());
		if (i == 0) sample("%s mode=%d via %s %s (document %zu bytes) -> %s", format_names[f], mode, source_names[k], p.desc().c_str(), doc.size(), o.ok ? "value" : "exception");
	}
	mix(f); mix(mode); mix(hash(m));
}
static Register r({"C02", "each run draws a document (own renderer or library emitter, plain, guessed, iterated or with payload) and delivers it through 1-3 sources which fail or end at a drawn byte, once or for ever, with drawn chunking; non-trivial: a read failed or the data ended early", run, 160000000, 64, true});
