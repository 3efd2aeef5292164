// C03: a serialize call that returns has delivered every byte exactly once.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;

static void run() {
	Format f = (Format)draw(NFORMATS);
	int mode = draw(4); // 0,1: one call; 2: payload; 3: emitter driven by hand
	Gen g(f);
	if (chance(1, 25)) { g.budget = 400; g.big = true; }
	if (mode == 2 && g.f != BUNDLE) g.blobs = g.blobs && f != XML;
	Script sc;
	MV m;
	string payload;
	string pdesc;
	Lib l;
	Variant params = gen_params(f, &pdesc);
	Variant v;
	if (mode == 3) sc.draw_docs(f, g);
	else {
		Out o;
		m = mode == 2 ? payload_root(f, g, &payload) : g.root();
		v = build(m);
		if (mode == 2) add_payload(v, f, payload);
	}
	// the complete text, through an unrestricted sink
	string want;
	{
		set_op("serialize-reference");
		Sink s(mode == 3 ? SINK_OUTPUT : SINK_STRING, WritePlan());
		Outcome o = capture([&](MV &) {
			if (mode == 3) sc.perform(s.open_output(), f, params);
			else if (mode == 2) s.serialize_payload(v, f, params);
			else s.serialize(v, f, params);
		});
		if (!o.ok) violate(fmt("refused:%s", format_names[f]), "serializing %s as %s (%s) without any fault fails: %s", show(m).c_str(), format_names[f], pdesc.c_str(), show(o).c_str());
		Out x;
		want = s.got;
	}
	Out out;
	ev("format=%s mode=%d params=%s bytes=%zu", format_names[f], mode, pdesc.c_str(), want.size());
	ev_bytes("text", want.data(), want.size());
	SinkKind k = chance(1, 3) ? SINK_STREAMBUF : SINK_OUTPUT;
	WritePlan p = draw_write_plan(want.size());
	bool fails = chance(1, 2);
	if (fails) {
		p.fail_at = draw(want.size() + 4);
		p.fail_how = draw(2);
		if (p.fail_how && chance(1, 2)) p.thrown = draw(NTHROWN);
		p.fail_calls = chance(1, 3) ? 1 + draw(3) : 0;
	}
	Sink s(k, p);
	ev("sink %s %s", sink_names[k], p.desc().c_str());
	set_op("serialize");
	Outcome o = capture([&](MV &) {
		if (mode == 3) sc.perform(s.open_output(), f, params);
		else if (mode == 2) s.serialize_payload(v, f, params);
		else s.serialize(v, f, params);
	});
	s.output.reset();
	ev("outcome %s, accepted %zu bytes in %llu writes, %llu refusals", o.ok ? "returned" : o.what.c_str(), s.got.size(), (unsigned long long)s.writes, (unsigned long long)s.failures);
	string tag = fmt("%s:%s", format_names[f], sink_names[k]);
	if (o.ok) {
		if (s.got != want) {
			size_t d = 0;
			while (d < s.got.size() && d < want.size() && s.got[d] == want[d]) ++d;
			violate("wrong-bytes:" + tag, "serialize returned normally but the sink (%s) has %zu bytes, complete text has %zu; they differ at offset %zu", p.desc().c_str(), s.got.size(), want.size(), d);
		}
		if (s.failures && p.fail_calls == 0) violate("error-swallowed:" + tag, "the sink (%s) failed and serialize returned normally", p.desc().c_str());
	} else {
		if (!s.failures) violate("spurious-error:" + tag, "serialize failed (%s) although the sink (%s) never did", show(o).c_str(), p.desc().c_str());
		if (s.got.size() > want.size() || want.compare(0, s.got.size(), s.got)) violate("not-a-prefix:" + tag, "after the sink (%s) failed it has %zu bytes which are not a prefix of the complete text of %zu bytes", p.desc().c_str(), s.got.size(), want.size());
		if (s.failures > 100) violate("too-many-attempts:" + tag, "sink refused %llu times", (unsigned long long)s.failures);
		if (p.fail_how == 1 && !p.thrown && !o.injected) probe("sink exception replaced by another");
	}
	mix(f); mix(mode); mix(k); mix(p.mode); mix(o.ok); mix(s.failures ? 1 + p.fail_how : 0); mix(s.writes); mix(s.got.size());
	if (s.writes > 1 && (s.failures || p.mode != WritePlan::Full)) nontrivial();
	probe(fmt("%s mode %d %s", format_names[f], mode, o.ok ? "returned" : "raised").c_str());
	sample("%s mode=%d params=%s sink=%s %s -> %s, %zu of %zu bytes", format_names[f], mode, pdesc.c_str(), sink_names[k], p.desc().c_str(), o.ok ? "returned" : "raised", s.got.size(), want.size());
}
static Register r({"C03", "each run draws a value, format, options and entry point (one call, with payload, or an emitter driven event by event with flushes and several documents), takes the text an unrestricted sink gets, and repeats with a sink that accepts drawn amounts and may refuse or throw at a drawn byte, for a while or for ever; non-trivial: the sink was called more than once and accepted partially or failed", run, 160000000, 64, true});
