// C04: storage errors that surface at flush or close reach the caller.
#include "world.h"
#include "main.h"
#include "common.h"
#include <errno.h>
using namespace sim;
using namespace libvariant;
using std::string;

static void run() {
	Format f = (Format)draw(NFORMATS);
	int mode = draw(4); // 0,1: one call; 2: payload; 3: emitter driven by hand
	Gen g(f);
	if (chance(1, 25)) { g.budget = 400; g.big = true; }
	Script sc;
	MV m;
	string payload, pdesc;
	Lib l;
	Variant params = gen_params(f, &pdesc);
	Variant v;
	if (mode == 3) sc.draw_docs(f, g);
	else {
		Out o;
		m = mode == 2 ? payload_root(f, g, &payload) : g.root();
		v = build(m);
		if (mode == 2) add_payload(v, f, payload);
	}
	auto go = [&](Sink &s) {
		if (mode == 3) { sc.perform(s.open_output(), f, params); s.output.reset(); }
		else if (mode == 2) s.serialize_payload(v, f, params);
		else s.serialize(v, f, params);
	};
	string want;
	{
		set_op("serialize-reference");
		Sink s(mode == 3 ? SINK_OUTPUT : SINK_STRING, WritePlan());
		Outcome o = capture([&](MV &) { go(s); });
		if (!o.ok) violate(fmt("refused:%s", format_names[f]), "serializing %s as %s (%s) without any fault fails: %s", show(m).c_str(), format_names[f], pdesc.c_str(), show(o).c_str());
		Out x;
		want = s.got;
	}
	Out out;
	ev("format=%s mode=%d params=%s bytes=%zu", format_names[f], mode, pdesc.c_str(), want.size());
	ev_bytes("text", want.data(), want.size());
	static const SinkKind kinds[] = {SINK_FILENAME, SINK_FILEP, SINK_STREAMBUF, SINK_OUTPUT};
	SinkKind k = kinds[draw(4)];
	// a file named by the caller is closed by the emitter's output object when driven by hand
	if (mode == 3 && k == SINK_FILENAME) k = SINK_FILEP;
	int what = draw(6);
	size_t at = want.size() ? (chance(1, 3) ? want.size() - 1 - draw(std::min<size_t>(want.size(), 40)) : draw(want.size() + 2)) : 0;
	WritePlan p;
	uint32_t sbuf = 0;
	DiskPlan &d = disk.plans[""];
	d.bufmode = draw(4);
	d.bufsize = 1 + draw_size(5000);
	string fdesc = "none";
	if (k == SINK_FILEP || k == SINK_FILENAME) {
		switch (what) {
		case 1: case 5: d.capacity = at; fdesc = fmt("full@%zu", at); break;
		case 2: {
			static const int errs[] = {0, EDQUOT, EFBIG, EPIPE, EROFS, ENXIO, ENOMEM};
			d.io_error_at = at; d.io_errno = errs[draw(7)];
			fdesc = fmt("error %d@%zu", d.io_errno, at);
			break;
		}
		case 3: d.close_fails = k == SINK_FILENAME; fdesc = "close"; break;
		case 4: if (k == SINK_FILENAME) { d.open_errno = EACCES; fdesc = "open"; } break;
		}
		fdesc += fmt(" bufmode=%d bufsize=%u", d.bufmode, d.bufsize);
	} else {
		p = draw_write_plan(want.size());
		if (k == SINK_STREAMBUF && chance(2, 3)) sbuf = 1 + draw_size(2000);
		switch (what) {
		case 1: case 5: p.fail_at = at; p.fail_how = 0; break;
		case 2: p.fail_at = at; p.fail_how = 1; p.thrown = draw(NTHROWN); break;
		case 3: case 4: p.flush_fails = true; p.thrown = draw(NTHROWN); break;
		}
		fdesc = p.desc() + fmt(" sbuf=%u", sbuf);
	}
	Sink s(k, p, sbuf);
	size_t open0 = disk.open_count();
	ev("sink %s %s", sink_names[k], fdesc.c_str());
	set_op("serialize");
	Outcome o = capture([&](MV &) { go(s); });
	s.output.reset();
	uint64_t bad = disk.write_failures + disk.close_failures + disk.failed_opens + s.failures + s.flush_failures;
	ev("outcome %s, %llu storage failures", o.ok ? "returned" : o.what.c_str(), (unsigned long long)bad);
	string tag = fmt("%s:%s", format_names[f], sink_names[k]);
	if (disk.open_count() != open0) violate("left-open:" + tag, "the file is still open after the call (%s)", fdesc.c_str());
	string c = s.content();
	if (o.ok) {
		if (bad) violate("error-swallowed:" + tag, "storage failed (%s) and the call returned normally; %zu of %zu bytes stored", fdesc.c_str(), c.size(), want.size());
		if (k == SINK_FILEP) {
			if (fflush(s.fp) != 0) bad = 1; // what is still in the caller's stream is the caller's to flush
			c = s.content();
		} else if (k == SINK_STREAMBUF) {
			bool ok = true;
			try { ok = s.sb->pubsync() != -1; } catch (...) { ok = false; }
			if (!ok) bad = 1;
			c = s.got;
		}
		if (!bad && c != want) violate("wrong-bytes:" + tag, "the call returned normally (%s) but %zu bytes are stored and the text has %zu", fdesc.c_str(), c.size(), want.size());
		if (bad) probe("failure surfaced only in the caller's own flush");
	} else {
		if (!bad) violate("spurious-error:" + tag, "no storage failure (%s) but the call failed: %s", fdesc.c_str(), show(o).c_str());
		if (c.size() > want.size() || want.compare(0, c.size(), c)) violate("not-a-prefix:" + tag, "after a storage failure (%s) the destination has %zu bytes which are not a prefix of the text of %zu bytes", fdesc.c_str(), c.size(), want.size());
	}
	mix(f); mix(mode); mix(k); mix(what); mix(d.bufmode); mix(o.ok); mix(c.size());
	if (bad || d.bufmode || sbuf) nontrivial();
	probe(fmt("%s %s", sink_names[k], o.ok ? "returned" : "raised").c_str());
	if (what == 3 && bad) probe("flush or close failed");
	sample("%s mode=%d to %s, faults %s -> %s, %zu of %zu bytes", format_names[f], mode, sink_names[k], fdesc.c_str(), o.ok ? "returned" : "raised", c.size(), want.size());
	disk.plans[""] = DiskPlan();
}
static Register r({"C04", "each run draws a value, format, options, entry point and destination (named file, C stream, stream buffer with its own buffer, output object), a buffering mode and size, and one of: device full at a byte, device error at a byte, flush failure, close failure, open failure, none; non-trivial: a failure happened or data was buffered on the way", run, 160000000, 64, true});
