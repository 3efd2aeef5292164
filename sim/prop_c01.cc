// C01: the outcome of a parse does not depend on how the bytes arrive.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;

static void run() {
	Format f = (Format)draw(NFORMATS);
	Gen g(f);
	if (chance(1, 40)) { g.budget = 1500; g.big = true; }
	MV m = g.root();
	string doc;
	int origin = draw(2);
	if (origin == 0) doc = render(f, m, true);
	else {
		Lib l;
		Variant v = build(m);
		string d;
		Variant params = gen_params(f, &d);
		string s = Serialize(v, stype(f), params);
		Out o;
		doc = string(s.data(), s.size());
	}
	bool mutated = false;
	if (chance(1, 6)) { // unusual text, which may be malformed
		doc = odd_text(f);
		mutated = true;
	}
	if (chance(1, 4) && doc.size()) { // also damaged documents: failing must not depend on delivery either
		mutated = true;
		size_t p = draw(doc.size());
		switch (draw(3)) {
		case 0: doc[p] = (char)draw(256); fault(F_byte_flip); break;
		case 1: doc.erase(p, 1); fault(F_byte_drop); break;
		default: doc.resize(p); fault(F_truncate);
		}
	}
	bool guess = chance(1, 8);
	if (guess && chance(1, 4)) { // a long way to the first character
		static const char *const space[] = {" ", "\n", " \n", "\t", "# c\n"};
		string s = space[draw(5)];
		for (unsigned n = draw(chance(1, 4) ? 10000 : 200); n; --n) doc.insert(0, s);
		mutated = true;
	}
	ev("doc format=%s origin=%d mutated=%d guess=%d", format_names[f], origin, mutated, guess);
	ev_bytes("document", doc.data(), doc.size());
	Outcome base;
	{
		Source s(SRC_MEM, doc, ReadPlan());
		set_op("parse-memory");
		base = capture([&](MV &r) { r = to_model(guess ? s.deserialize_guess() : s.deserialize(f)); });
	}
	ev("base: %s", show(base).c_str());
	if (!mutated && !guess && origin == 0) {
		MV want = normalize(f, m);
		if (!base.ok) violate(fmt("valid-rejected:%s", format_names[f]), "valid %s document rejected: %s; document %s", format_names[f], show(base).c_str(), quote(doc).c_str());
		if (!equiv(base.v, want)) violate(fmt("wrong-value:%s", format_names[f]), "document %s gives %s, expected %s", quote(doc).c_str(), show(base.v).c_str(), show(want).c_str());
	}
	unsigned n = 1 + draw(3);
	for (unsigned i = 0; i < n; ++i) {
		SourceKind k = (SourceKind)(SRC_STRING + draw(NSOURCES - 1));
		ReadPlan p = draw_read_plan(doc.size(), true);
		if (k == SRC_FILEP || k == SRC_FILENAME) {
			disk.plans[""].bufmode = draw(4);
			disk.plans[""].bufsize = 1 + draw(64);
		}
		Source s(k, doc, p);
		ev("deliver via %s %s", source_names[k], p.desc().c_str());
		set_op(fmt("parse-%s", source_names[k]).c_str());
		Outcome o = capture([&](MV &r) { r = to_model(guess ? s.deserialize_guess() : s.deserialize(f)); });
		ev("outcome: %s", show(o).c_str());
		if (o.ok != base.ok || (o.ok && !same(o.v, base.v)))
			violate(fmt("delivery-dependent:%s:%s", format_names[f], source_names[k]), "format %s source %s plan %s: memory gives %s, this source gives %s; document %s",
			        format_names[f], source_names[k], p.desc().c_str(), show(base).c_str(), show(o).c_str(), quote(doc).c_str());
		mix(k * 16 + p.mode);
		if (p.mode != ReadPlan::Whole && doc.size() > p.k) nontrivial();
		probe(source_names[k]);
	}
	mix(f); mix(base.ok); mix(mutated);
	if (doc.size() > 8192) probe("document larger than the stream buffer");
	sample("format=%s %s bytes, outcome %s: %s", format_names[f], std::to_string(doc.size()).c_str(), base.ok ? "value" : "error", quote(doc, 300).c_str());
}
static Register r({"C01", "each run draws a value, a format, a rendering (own renderer or library emitter), optionally damages it, and parses it from memory and from 1-3 other sources with drawn chunking and buffer sizes; non-trivial: at least one source split the document", run, 160000000, 64, true});
