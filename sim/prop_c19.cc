// C19: what is written reads back equal.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;

static string diff(const string &a, const string &b) {
	size_t d = 0;
	while (d < a.size() && d < b.size() && a[d] == b[d]) ++d;
	size_t from = d > 30 ? d - 30 : 0;
	return fmt("first difference at %zu: %s / %s", d, quote(a.substr(from, 80)).c_str(), quote(b.substr(from, 80)).c_str());
}
// the place where two values differ
static string where(const MV &a, const MV &b) {
	if (a.t == MV::List && b.t == MV::List && a.l.size() == b.l.size())
		for (size_t i = 0; i < a.l.size(); ++i) if (!equiv(a.l[i], b.l[i])) return fmt("[%zu]", i) + where(a.l[i], b.l[i]);
	if (a.t == MV::Map && b.t == MV::Map && a.m.size() == b.m.size())
		for (auto &x : a.m) {
			auto y = b.m.find(x.first);
			if (y == b.m.end()) return "key " + quote(x.first) + " missing";
			if (!equiv(x.second, y->second)) return "/" + quote(x.first, 40) + where(x.second, y->second);
		}
	return ": " + show(a, 120) + " / " + show(b, 120);
}
static const char *const kinds[] = {"null", "bool", "int", "uint", "float", "str", "list", "map", "blob", "bad"};
// types at the place where two values differ
static string what_kind(const MV &a, const MV &b) {
	if (a.t == MV::List && b.t == MV::List && a.l.size() == b.l.size())
		for (size_t i = 0; i < a.l.size(); ++i) if (!equiv(a.l[i], b.l[i])) return what_kind(a.l[i], b.l[i]);
	if (a.t == MV::Map && b.t == MV::Map && a.m.size() == b.m.size())
		for (auto &x : a.m) {
			auto y = b.m.find(x.first);
			if (y == b.m.end()) return "key";
			if (!equiv(x.second, y->second)) return what_kind(x.second, y->second);
		}
	return fmt("%s-%s", kinds[a.t], kinds[b.t]);
}

static void run() {
	Format f = (Format)draw(NFORMATS);
	Gen g(f);
	g.odd = chance(1, 2);
	if (chance(1, 25)) { g.budget = 500; g.big = true; }
	MV m = g.root();
	unsigned trips = 1 + draw(3);
	MV cur = m;
	string pdesc;
	Lib l;
	Variant params = gen_params(f, &pdesc);
	Out out;
	if (f == YAML && chance(1, 4)) {
		static const char *const st[] = {"any", "plain", "single quoted", "double quoted", "literal", "folded"};
		const char *x = st[draw(6)];
		Lib ll;
		params["scalar_style"] = x;
		Out o;
		pdesc += fmt("scalar_style=%s", x);
	}
	string text;
	bool by_value = !chance(1, 4); // the whole value, or event by event
	ev("format=%s params=%s value=%s", format_names[f], pdesc.c_str(), show(m, 1000).c_str());
	for (unsigned t = 0; t < trips; ++t) {
		SinkKind sk = (SinkKind)draw(NSINKS);
		WritePlan wp = draw_write_plan(1000);
		Sink s(sk, wp, chance(1, 3) ? 1 + draw(200) : 0);
		set_op("write");
		Outcome o = capture([&](MV &) {
			if (by_value) s.serialize(build(cur), f, params);
			else {
				shared_ptr<EmitterOutput> eo = s.open_output();
				Emitter e = CreateEmitter(eo, stype(f), params);
				e.BeginDocument();
				emit_events(e, cur);
				e.EndDocument();
				e.Close();
			}
		});
		if (!o.ok) violate(fmt("refused:%s", format_names[f]), "%s cannot be written as %s (%s): %s", show(cur).c_str(), format_names[f], pdesc.c_str(), show(o).c_str());
		{ Lib ll; s.output.reset(); }
		string now = s.content();
		ev_bytes("text", now.data(), now.size());
		if (t && now != text) violate(fmt("unstable:%s", format_names[f]), "writing the value that was read back gives another text; %s", diff(text, now).c_str());
		text = now;
		SourceKind k = (SourceKind)draw(NSOURCES);
		ReadPlan p = draw_read_plan(text.size(), true);
		Source src(k, text, p);
		set_op("read");
		ev("trip %u: %s %s, %s %s", t, sink_names[sk], wp.desc().c_str(), source_names[k], p.desc().c_str());
		Outcome r = capture([&](MV &x) { x = to_model(src.deserialize(f)); });
		if (!r.ok) violate(fmt("unreadable:%s", format_names[f]), "text of %s (%s) written via %s cannot be read via %s: %s; %s", show(cur).c_str(), pdesc.c_str(), sink_names[sk], source_names[k], show(r).c_str(), quote(text, 300).c_str());
		MV want = normalize(f, cur);
		if (!equiv(r.v, want)) violate(fmt("changed:%s:%s", format_names[f], what_kind(want, r.v).c_str()), "value read back differs at %s; options %s; text %s", where(want, r.v).c_str(), pdesc.c_str(), quote(text, 300).c_str());
		cur = r.v;
		mix(sk); mix(wp.mode); mix(k); mix(p.mode);
	}
	mix(f); mix(hash(m)); mix(fnv(text.data(), text.size()));
	if (m.container() && count(m) > 1) nontrivial();
	probe(fmt("%s odd=%d", format_names[f], g.odd).c_str());
	sample("%s %s: %s -> %s", format_names[f], pdesc.c_str(), show(m, 200).c_str(), quote(text, 200).c_str());
}
static Register r({"C19", "each run draws a value the format can represent (half with look-alike strings, NUL bytes and odd white space) and output options, writes it through a drawn sink with drawn partial writes and reads it through a drawn source with drawn delivery, one to three times in a row; compares with the value and the text with the first text; non-trivial: a container with elements", run, 160000000, 64, true});
