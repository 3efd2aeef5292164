// C10: messages of header and binary payload written one after another are
// read back one by one, byte for byte.
#include "world.h"
#include "main.h"
#include "common.h"
#include <string.h>
using namespace sim;
using namespace libvariant;
using std::string;

struct PathStep { string key; int index = -1; };
typedef std::vector<PathStep> MPath;
static string path_text(const MPath &p) {
	string s;
	for (auto &e : p) {
		if (e.index >= 0) s += fmt("[%d]", e.index);
		else s += "/" + e.key;
	}
	return s;
}
static MV *find_path(MV &m, const MPath &p) {
	MV *x = &m;
	for (auto &e : p) {
		if (e.index >= 0) {
			if (x->t != MV::List || (size_t)e.index >= x->l.size()) return 0;
			x = &x->l[e.index];
		} else {
			if (x->t != MV::Map || !x->m.count(e.key)) return 0;
			x = &x->m[e.key];
		}
	}
	return x;
}
static void put_path(MV &m, const MPath &p, const MV &v) {
	MV *x = &m;
	for (auto &e : p) {
		if (e.index >= 0) {
			if (x->t == MV::Null) *x = MV(MV::List);
			while (x->l.size() <= (size_t)e.index) x->l.push_back(MV());
			x = &x->l[e.index];
		} else {
			if (x->t == MV::Null) *x = MV(MV::Map);
			x = &x->m[e.key];
		}
	}
	*x = v;
}
static void erase_last(MV &m, const MPath &p) {
	MPath q(p.begin(), p.end() - 1);
	MV *x = find_path(m, q);
	if (!x) return;
	if (p.back().index >= 0) { if ((size_t)p.back().index < x->l.size()) x->l[p.back().index] = MV(); }
	else x->m.erase(p.back().key);
}

struct Msg {
	Format f;
	MV header;          // as given, without the payload
	MV expect;          // what a reader gets
	string payload;     // bytes behind the header
	string params_text;
	bool outside = false; // payload written by the caller
	MPath len, data;
	bool custom = false;
	size_t begin = 0, padding = 0, body = 0, end = 0;
};

static Msg draw_msg() {
	Msg m;
	m.f = (Format)draw(NFORMATS);
	Gen g(m.f);
	if (m.f == XML) g.blobs = false;
	m.header = payload_root(m.f, g, &m.payload);
	m.header.m.erase("payload.data");
	if (m.f == BUNDLE) { m.len = {{"payload.length", -1}}; m.data = {{"payload.data", -1}}; }
	else { m.len = {{"payload", -1}, {"length", -1}}; m.data = {{"payload", -1}, {"data", -1}}; }
	if (chance(1, 3)) {
		m.custom = true;
		for (auto k : {"zl", "zd", "zz"}) m.header.m.erase(k);
		if (m.f == BUNDLE) { m.len = {{"zl", -1}}; m.data = {{"zd", -1}}; }
		else {
			switch (draw(4)) {
			case 0: m.len = {{"zl", -1}}; m.data = {{"zd", -1}}; break;
			case 1: m.len = {{"zl", -1}, {"a", -1}, {"b", -1}}; m.data = {{"zd", -1}, {"c", -1}}; break;
			case 2: { // through lists that are there already
				MV l(MV::List);
				unsigned n = draw(4);
				for (unsigned i = 0; i < n; ++i) l.l.push_back(MV::integer(draw(9)));
				m.header.m["zl"] = l;
				m.len = {{"zl", -1}, {"", (int)draw(n + 3)}};
				m.data = {{"zd", -1}};
				break;
			}
			default: { // data in a list
				MV l(MV::List);
				unsigned n = 1 + draw(3);
				for (unsigned i = 0; i < n; ++i) l.l.push_back(MV::integer(draw(9)));
				m.header.m["zd"] = l;
				m.data = {{"zd", -1}, {"", (int)draw(n)}};
				m.header.m["zd"].l[m.data[1].index] = MV();
				m.len = {{"zl", -1}, {"n", -1}};
				break;
			}
			}
		}
	}
	return m;
}

static void run() {
	unsigned n = 1 + draw(4);
	std::vector<Msg> msgs;
	string all;
	{
		WritePlan wp = draw_write_plan(2000);
		Sink s(chance(1, 3) ? SINK_STREAMBUF : SINK_OUTPUT, wp);
		shared_ptr<EmitterOutput> out;
		{ Lib l; out = s.open_output(); }
		for (unsigned i = 0; i < n; ++i) {
			msgs.push_back(draw_msg());
			Msg &m = msgs.back();
			m.begin = s.got.size();
			bool with = !chance(1, 6) || m.data.back().index >= 0; // a payload is there
			if (!with) m.payload.clear();
			m.outside = chance(1, 5);
			int lenfrom = m.data.back().index >= 0 ? 0 : draw(3); // for payloads written by the caller
			if (m.outside && !with && !lenfrom) lenfrom = 1;
			string tag = fmt("%s%s", format_names[m.f], m.custom ? ":paths" : "");
			set_op("serialize");
			Outcome o = capture([&](MV &) {
				string pd;
				Variant params = gen_params(m.f, &pd);
				if (m.custom) {
					params["length_path"] = path_text(m.len);
					params["data_path"] = path_text(m.data);
				}
				Variant v = build(m.header);
				if (with && !(m.outside && lenfrom)) v.SetPath(ParsePath(path_text(m.data)), make_blob(m.payload, draw(8)));
				if (m.outside) {
					params["ignore_payload"] = true;
					if (lenfrom == 1) params["payload_length"] = (unsigned)m.payload.size();
					else if (lenfrom == 2) v.SetPath(ParsePath(path_text(m.len)), (unsigned)m.payload.size());
				}
				{ Out x; m.params_text = pd; }
				SerializeWithPayload(out, v, stype(m.f), params);
				if (m.outside) {
					Out x;
					m.body = s.got.size();
					Lib l;
					for (size_t at = 0; at < m.payload.size();) at += out->Write(m.payload.data() + at, m.payload.size() - at);
				}
			});
			if (!o.ok) violate("refused:" + tag, "a message with header %s cannot be written: %s", show(m.header).c_str(), show(o).c_str());
			m.end = s.got.size();
			if (!m.outside) m.body = m.end - m.payload.size();
			ev("message %u %s%s bytes %zu..%zu payload %zu at %zu", i, tag.c_str(), m.outside ? " (payload by caller)" : "", m.begin, m.end, m.payload.size(), m.body);
			// layout
			if (m.end - m.begin < m.payload.size() + 1 || s.got.compare(m.body, m.payload.size(), m.payload)) violate("payload-bytes:" + tag, "message %u: the payload of %zu bytes is not at the end of the message", i, m.payload.size());
			if (m.body == m.begin || s.got[m.body - 1] != 0) violate("no-terminator:" + tag, "message %u: no NUL in front of the payload", i);
			if (memchr(s.got.data() + m.begin, 0, m.body - 1 - m.begin)) violate("early-terminator:" + tag, "message %u: NUL inside the header", i);
			if (m.body % 32) violate("alignment:" + tag, "message %u: payload at offset %zu, not a multiple of 32", i, m.body);
			m.padding = m.body - 1;
			while (m.padding > m.begin && s.got[m.padding - 1] == '\n') --m.padding;
			m.expect = m.header;
			if (with || m.outside) erase_last(m.expect, m.data);
			m.expect = normalize(m.f, m.expect);
			put_path(m.expect, m.len, MV::uinteger(m.payload.size()));
			if (m.data.size() > 1 && m.data.back().index < 0 && with && !m.outside) {} // the map that held the payload stays
			if (!m.payload.empty()) put_path(m.expect, m.data, MV::blob(m.payload));
			else if (with && !(m.outside && lenfrom)) {
				// an empty payload leaves its place behind without it
				MPath q(m.data.begin(), m.data.end() - 1);
				if (!q.empty() && !find_path(m.expect, q)) put_path(m.expect, q, MV(MV::Map));
			}
		}
		{ Lib l; out.reset(); s.output.reset(); }
		all = s.got;
		mix(s.writes);
	}
	ev_bytes("stream", all.data(), all.size());
	// reading
	int what = draw(3); // 0 intact, 1 read error, 2 early end
	SourceKind k = (SourceKind)draw(NSOURCES);
	if (what && k < SRC_STREAM) k = (SourceKind)(SRC_STREAM + draw(NSOURCES - SRC_STREAM));
	bool is_file = k == SRC_FILEP || k == SRC_FILENAME;
	ReadPlan p = draw_read_plan(all.size(), true);
	size_t at = draw(all.size() + 1);
	if (chance(1, 3)) { Msg &m = msgs[draw(n)]; at = std::min(all.size(), m.body + draw(m.payload.size() + 1)); }
	if (what == 1) { p.fail_at = at; p.fail_persist = true; }
	if (what == 2) p.eof_at = at;
	Source s(k, all, p);
	ev("read via %s %s", source_names[k], p.desc().c_str());
	shared_ptr<ParserInput> in;
	{ Lib l; in = s.open_input(); }
	unsigned got = 0;
	bool failed = false;
	std::vector<std::pair<Variant, unsigned> > kept;
	for (unsigned i = 0; i < n && !failed; ++i) {
		Msg &m = msgs[i];
		string tag = fmt("%s%s:%s", format_names[m.f], m.custom ? ":paths" : "", what == 0 ? "intact" : what == 1 ? "error" : "cut");
		bool safe = !(k <= SRC_STRING && chance(1, 2));
		set_op("deserialize");
		Variant v;
		Outcome o = capture([&](MV &r) {
			Variant params;
			if (m.custom) {
				params["length_path"] = path_text(m.len);
				params["data_path"] = path_text(m.data);
			}
			v = DeserializeWithPayload(in, stype(m.f), params, safe);
			r = to_model(v);
		});
		ev("message %u: %s", i, show(o).c_str());
		bool touched = what && at < m.end;
		if (o.ok) {
			if (touched) {
				// only a header without an explicit end can look complete
				bool headercut = what == 2 && at <= m.body && (m.f == YAML || m.f == BUNDLE);
				// everything that matters is in front of the fault
				bool needless = m.payload.empty() && at >= m.padding + (m.f == YAML || m.f == BUNDLE);
				if (!headercut && !needless) violate("partial-message:" + tag, "message %u ends at %zu, the data stops at %zu, and the read returned %s", i, m.end, at, show(o.v).c_str());
				if (headercut && !needless) { failed = true; probe("header cut without explicit end"); continue; }
			}
			if (!equiv(o.v, m.expect)) violate("wrong-message:" + tag, "message %u read back as %s, written %s", i, show(o.v, 400).c_str(), show(m.expect, 400).c_str());
			++got;
			if (k <= SRC_STRING || safe) kept.push_back({v, i});
			if (touched) failed = true;
		} else {
			bool late = what == 1 && (is_file || k == SRC_STREAMBUF || s.failures);
			if (!touched && !late) violate("not-delivered:" + tag, "message %u is complete but cannot be read: %s", i, show(o).c_str());
			if (!touched && late && !is_file && k != SRC_STREAMBUF && m.end + 20000 <= at) violate("not-delivered:" + tag, "message %u is complete and in front of the failure, but cannot be read: %s", i, show(o).c_str());
			failed = true;
		}
	}
	// payloads read earlier do not change when the input moves on
	for (auto &kv : kept) {
		Outcome o = capture([&](MV &r) { r = to_model(kv.first); });
		if (!o.ok || !equiv(o.v, msgs[kv.second].expect)) violate("payload-changed", "message %u changed after later messages were read", kv.second);
	}
	if (!failed) {
		Outcome o = capture([&](MV &r) { r = to_model(DeserializeWithPayload(in, stype(msgs[0].f))); });
		if (o.ok && o.v.t != MV::Null) violate("invented", "a message behind the last one: %s", show(o.v).c_str());
		probe("asked behind the last message");
	}
	{ Lib l; kept.clear(); in.reset(); s.input.reset(); }
	mix(what); mix(k); mix(p.mode); mix(got); mix(fnv(all.data(), all.size())); mix(at);
	if (n > 1 || what) nontrivial();
	probe(fmt("%s %s", what == 0 ? "intact" : what == 1 ? "error" : "cut", source_names[k]).c_str());
	sample("%u messages, %zu bytes, first %s payload %zu, read via %s %s -> %u read", n, all.size(), format_names[msgs[0].f], msgs[0].payload.size(), source_names[k], p.desc().c_str(), got);
}
static Register r({"C10", "each run writes 1-4 messages (header in a drawn format, payload of drawn size in 1-3 buffers or written by the caller, default or own paths for length and data) to one output that accepts drawn amounts, checks the layout, and reads them one by one from one input with drawn delivery, possibly a read error or an early end at a drawn byte; non-trivial: several messages or a fault", run, 160000000, 64, true});
