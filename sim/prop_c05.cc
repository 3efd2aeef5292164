// C05: serializing into a fixed buffer is exact or refused.
#include "world.h"
#include "main.h"
#include "common.h"
#include <string.h>
#include <stdlib.h>
using namespace sim;
using namespace libvariant;
using std::string;

static void run() {
	Format f = (Format)draw(NFORMATS);
	int mode = draw(4); // 0: one call, 1: payload, 2: output object with length, 3: output object without
	Gen g(f);
	if (chance(1, 25)) { g.budget = 300; g.big = true; }
	MV m;
	string payload, pdesc;
	Lib l;
	Variant params = gen_params(f, &pdesc);
	Variant v;
	{
		Out o;
		m = mode == 1 ? payload_root(f, g, &payload) : g.root();
		v = build(m);
		if (mode == 1) add_payload(v, f, payload);
	}
	string want;
	{
		set_op("serialize-reference");
		Sink s(SINK_STRING, WritePlan());
		Outcome o = capture([&](MV &) { if (mode == 1) s.serialize_payload(v, f, params); else s.serialize(v, f, params); });
		if (!o.ok) violate(fmt("refused:%s", format_names[f]), "serializing %s without any fault fails: %s", show(m).c_str(), show(o).c_str());
		Out x;
		want = s.got;
	}
	Out out;
	unsigned tries = 1 + draw(4);
	for (unsigned t = 0; t < tries; ++t) {
		size_t cap;
		switch (draw(6)) {
		case 0: cap = want.size(); break;
		case 1: cap = want.size() ? want.size() - 1 : 0; break;
		case 2: cap = want.size() + 1 + draw(40); break;
		case 3: cap = 0; break;
		case 4: cap = want.size() > 40 ? want.size() - draw(40) : draw(want.size() + 1); break;
		default: cap = draw(want.size() + 1); break;
		}
		size_t off = mode == 2 && chance(1, 3) ? draw(20) : 0; // the output object appends after what is there
		const size_t guard = 64;
		char *mem = (char *)malloc(off + cap);
		if (off + cap) memset(mem, 0x5a, off + cap);
		(void)guard;
		unsigned len = off;
		if (cap < want.size()) fault(F_small_buffer);
		set_op("serialize-buffer");
		unsigned ret = 0;
		Outcome o = capture([&](MV &) {
			if (mode == 0) ret = Serialize((void *)mem, (unsigned)cap, v, stype(f), params);
			else if (mode == 1) ret = SerializeWithPayload((void *)mem, (unsigned)cap, v, stype(f), params);
			else {
				shared_ptr<EmitterOutput> eo = CreateEmitterOutput((void *)mem, (unsigned)(off + cap), mode == 2 ? &len : 0);
				Emitter e = CreateEmitter(eo, stype(f), params);
				e << v;
				e.Close();
				ret = eo->NumBytesWritten() - off;
			}
		});
		ev("capacity %zu needed %zu offset %zu -> %s %u", cap, want.size(), off, o.ok ? "returned" : o.what.c_str(), ret);
		string tag = fmt("%s:%d", format_names[f], mode);
		if (o.ok) {
			if (cap < want.size()) violate("overfull:" + tag, "buffer of %zu bytes, text of %zu bytes, and the call returned %u", cap, want.size(), ret);
			if (ret != want.size()) violate("wrong-length:" + tag, "returned length %u, text has %zu bytes (capacity %zu)", ret, want.size(), cap);
			if (memcmp(mem + off, want.data(), want.size())) violate("wrong-bytes:" + tag, "the buffer does not hold the text (capacity %zu, text %zu bytes)", cap, want.size());
			for (size_t i = off + want.size(); i < off + cap; ++i) if (mem[i] != 0x5a) violate("past-end:" + tag, "byte %zu behind the text was changed", i);
		} else if (cap >= want.size()) violate("spurious-error:" + tag, "buffer of %zu bytes is enough for %zu but the call failed: %s", cap, want.size(), show(o).c_str());
		for (size_t i = 0; i < off; ++i) if (mem[i] != 0x5a) violate("before-start:" + tag, "byte %zu before the text was changed", i);
		free(mem);
		mix(cap < want.size()); mix(o.ok); mix(cap > want.size() ? cap - want.size() : want.size() - cap);
		if (cap < want.size()) { nontrivial(); probe("buffer too small"); }
		else if (cap == want.size()) { nontrivial(); probe("buffer exactly large enough"); }
		if (t == 0) sample("%s mode=%d params=%s capacity %zu, needed %zu -> %s", format_names[f], mode, pdesc.c_str(), cap, want.size(), o.ok ? "returned" : "raised");
	}
	mix(f); mix(mode); mix(hash(m));
}
static Register r({"C05", "each run draws a value, format, options and entry point and serializes it into 1-4 exactly sized heap blocks of drawn capacity around what is needed; non-trivial: a block was too small or exactly large enough", run, 160000000, 64, true});
