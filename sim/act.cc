#include "act.h"
#include "main.h"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Extensions.h>
#include <Variant/ArgParse.h>
#include <iostream>
#include <libxml/xmlerror.h>
#include <errno.h>
#include <getopt.h>
using namespace libvariant;
using std::string;

namespace sim {

ActResult Act::perform(const AllocPlan *plan) {
	ActResult r;
	uint64_t op0 = disk.opens, cl0 = disk.closes, h0 = net.handles_made, hc0 = net.handles_closed;
	int64_t obj0 = live_objects;
	before();
	uint64_t mark = ledger_mark();
	set_op(name.c_str());
	alloc_arm(plan ? *plan : AllocPlan());
	MV v;
	int in_lib = g_in_lib;
	jmp_buf jb;
	if (setjmp(jb) == 0) {
		g_exit = &jb;
		Outcome o = capture([&](MV &m) { go(r); Out x; v = r.o.v; });
		r.o = o;
		r.o.v = v;
	} else {
		g_in_lib = in_lib;
		r.o = Outcome();
		r.o.what = fmt("exit %d", g_exit_code);
		r.o.type = "exit";
		r.exited = true;
	}
	g_exit = 0;
	r.allocs = alloc_count();
	r.fired = alloc_fired();
	alloc_disarm();
	after(r);
	xmlResetLastError(); // libxml2 keeps the text of its last error
	if (!r.exited && account) r.leaked = ledger_live(mark, &r.leak);
	r.objects = live_objects - obj0;
	r.opens = disk.opens - op0;
	r.closes = disk.closes - cl0;
	r.handles = net.handles_made - h0;
	r.handles_closed = net.handles_closed - hc0;
	return r;
}

ActResult Act::perform_plain() {
	ActResult r;
	before();
	MV v;
	Outcome o = capture([&](MV &m) { go(r); Out x; v = r.o.v; });
	r.o = o;
	r.o.v = v;
	after(r);
	return r;
}

void Act::unchanged(std::unique_ptr<Variant> &v, const MV &before) {
	MV now = to_model(*v);
	if (!same(now, before)) violate("input-changed:" + name, "%s changed its input from %s to %s", desc.c_str(), show(before).c_str(), show(now).c_str());
	Lib l;
	v.reset();
}
static void make(std::unique_ptr<Variant> &v, const MV &m) { Lib l; v.reset(new Variant(build(m))); }

// ---------------------------------------------------------------- reading
int act_format = -1;
struct ParseAct : Act {
	Format f;
	int mode; // 0,1 one call; 2 guess; 3 all; 4 payload; 5 events
	string doc;
	SourceKind kind;
	ReadPlan plan;
	int bufmode;
	unsigned bufsize;
	int64_t throw_at = -1;
	std::unique_ptr<Source> src;
	std::unique_ptr<EventLog> log;
	uint64_t rf0 = 0;
	ParseAct() {
		f = act_format >= 0 ? (Format)act_format : (Format)draw(NFORMATS);
		Gen g(f);
		g.budget = std::min<uint32_t>(g.budget, 30);
		mode = draw(6);
		if (mode == 2 && f != JSON && f != XML) mode = 0;
		if (mode == 3 && f == BUNDLE) mode = 0;
		if (mode == 4) {
			string payload;
			MV m = payload_root(f, g, &payload);
			Lib l;
			Variant v = build(m);
			add_payload(v, f, payload);
			string s = SerializeWithPayload(v, stype(f));
			Out o;
			doc.assign(s.data(), s.size());
		} else if (mode == 3 && f == YAML) {
			unsigned n = draw(4);
			for (unsigned i = 0; i < n; ++i) { string t = render(f, g.root(), true); if (t.compare(0, 4, "---\n")) t = "---\n" + t; doc += t; }
		} else if (chance(1, 8)) doc = odd_text(f);
		else doc = render(f, g.root(), true);
		bool bad = chance(1, 5);
		if (bad) mutate(f, doc);
		kind = (SourceKind)draw(NSOURCES);
		if (mode == 5 && kind == SRC_STREAMBUF) kind = SRC_STREAM;
		plan = draw_read_plan(doc.size(), true);
		bufmode = draw(4);
		bufsize = 1 + draw(64);
		static const char *const mn[] = {"parse", "parse", "parse-guess", "parse-all", "parse-payload", "parse-events"};
		name = fmt("%s:%s:%s", mn[mode], format_names[f], source_names[kind]);
		desc = fmt("%s %zu bytes%s %s", name.c_str(), doc.size(), bad ? " (damaged)" : "", plan.desc().c_str());
	}
	bool add_fault() override {
		if (mode == 5 && chance(1, 2)) { throw_at = draw(12); return true; }
		if (kind == SRC_MEM || kind == SRC_STRING) return false;
		if (chance(1, 4)) plan.eof_at = draw(doc.size() + 1);
		else { plan.fail_at = draw(doc.size() + 1); plan.fail_persist = kind == SRC_FILEP || kind == SRC_FILENAME || draw(2); if (chance(1, 2)) plan.thrown = draw(NTHROWN); }
		return true;
	}
	void clear_fault() override { throw_at = -1; plan.eof_at = plan.fail_at = -1; plan.thrown = 0; }
	void before() override {
		disk.plans[""].bufmode = bufmode;
		disk.plans[""].bufsize = bufsize;
		rf0 = disk.read_failures;
		src.reset(new Source(kind, doc, plan));
		if (mode == 5) { log.reset(new EventLog); log->tag = format_names[f]; log->throw_at = throw_at; }
	}
	void go(ActResult &r) override {
		auto set = [&](const MV &m) { Out o; r.o.v = m; };
		switch (mode) {
		case 2: set(to_model(src->deserialize_guess())); break;
		case 3: {
			LoadAllIterator i = src->deserialize_all(f);
			{ Out o; r.o.v = MV(MV::List); }
			for (; i != LoadAllIterator(); ++i) { MV x = to_model(*i); Out o; r.o.v.l.push_back(x); }
			break;
		}
		case 4: set(to_model(src->deserialize_payload(f, Variant()))); break;
		case 5: {
			Parser p = CreateParser(src->open_input(), stype(f));
			p.PushAction(event_actions(log.get()));
			while (p.Run() == 0) {}
			Out o;
			r.o.v = MV::str(fmt("%llu events %016llx", (unsigned long long)log->events, (unsigned long long)log->hash));
			break;
		}
		default: set(to_model(src->deserialize(f)));
		}
	}
	void after(ActResult &r) override {
		r.injected = src->failures + disk.read_failures - rf0 + (src->ended && plan.eof_at >= 0) + (log ? log->thrown : 0);
		if (kind == SRC_FILEP && src->fp && !sim_is_open(src->fp)) violate("closed-caller-file:" + name, "the stream of the caller was closed");
		src.reset();
		log.reset();
	}
};

// ---------------------------------------------------------------- writing
struct WriteAct : Act {
	Format f;
	int mode; // 0,1 one call; 2 payload; 3 script; 4 buffer
	MV m;
	string payload;
	Script script;
	std::unique_ptr<Variant> v, params;
	MV mparams, mv;
	SinkKind kind;
	WritePlan plan;
	DiskPlan dplan;
	std::unique_ptr<Sink> sink;
	std::vector<char> buffer;
	uint64_t wf0 = 0;
	unsigned blobs_freed = 0, blobs_made = 0;
	WriteAct() {
		f = act_format >= 0 ? (Format)act_format : (Format)draw(NFORMATS);
		Gen g(f);
		g.budget = std::min<uint32_t>(g.budget, 30);
		mode = draw(5);
		m = mode == 2 ? payload_root(f, g, &payload) : g.root();
		kind = (SinkKind)draw(NSINKS);
		if (mode == 3) { script.ops.push_back({0, m}); script.draw_docs(f, g); if (f != JSON && f != YAML) script.ops.resize(1); kind = SINK_OUTPUT; }
		{
			Lib l;
			mparams = to_model(gen_params(f, 0));
		}
		if (f == JSON && chance(1, 6)) { // refuses some values
			if (mparams.t != MV::Map) mparams = MV(MV::Map);
			mparams.m["strict"] = MV::boolean(true);
		}
		if (chance(1, 2)) { plan.mode = WritePlan::Random; plan.k = 1 + draw(40); }
		dplan.bufmode = draw(4);
		dplan.bufsize = 1 + draw(64);
		static const char *const mn[] = {"write", "write", "write-payload", "write-script", "write-buffer"};
		if (mode == 4) { buffer.resize(draw(2) ? 20000 : 40 + draw(300)); name = fmt("%s:%s", mn[mode], format_names[f]); }
		else name = fmt("%s:%s:%s", mn[mode], format_names[f], sink_names[kind]);
		desc = fmt("%s %s", name.c_str(), show(m, 60).c_str());
	}
	bool add_fault() override {
		if (mode == 4 || kind == SINK_STRING) return false;
		if (kind == SINK_FILENAME || kind == SINK_FILEP) {
			switch (draw(4)) {
			case 0: dplan.capacity = draw(200); break;
			case 1: dplan.io_error_at = draw(200); break;
			case 2: dplan.close_fails = true; break;
			default: if (kind == SINK_FILENAME) dplan.open_errno = EACCES; else dplan.capacity = 0; break;
			}
			return true;
		}
		plan.fail_at = draw(200);
		plan.fail_how = draw(2);
		plan.fail_calls = draw(2) ? 0 : 1;
		plan.flush_fails = chance(1, 4);
		if (chance(1, 2)) plan.thrown = draw(NTHROWN);
		return true;
	}
	void clear_fault() override { plan.fail_at = -1; plan.thrown = 0; plan.flush_fails = false; dplan.capacity = dplan.io_error_at = -1; dplan.close_fails = false; dplan.open_errno = 0; }
	void before() override {
		make(v, m);
		if (mode == 2) { Lib l; add_payload(*v, f, payload); }
		mv = to_model(*v);
		make(params, mparams);
		disk.plans[""] = dplan;
		if (mode != 4) {
			DiskPlan saved = disk.plans[""];
			if (kind == SINK_FILEP) disk.plans[""].open_errno = 0;
			sink.reset(new Sink(kind, plan));
			disk.plans[""] = saved;
		}
		wf0 = disk.write_failures + disk.close_failures + disk.failed_opens;
	}
	void go(ActResult &r) override {
		switch (mode) {
		case 2: sink->serialize_payload(*v, f, *params); break;
		case 3: {
			shared_ptr<EmitterOutput> o = sink->open_output();
			sink->output.reset();
			script.perform(o, f, *params);
			break;
		}
		case 4: {
			unsigned n = Serialize((void *)buffer.data(), (unsigned)buffer.size(), *v, stype(f), *params);
			Out o;
			r.out.assign(buffer.data(), std::min<size_t>(n, buffer.size()));
			r.o.v = MV::uinteger(n);
			break;
		}
		default: sink->serialize(*v, f, *params);
		}
	}
	void after(ActResult &r) override {
		unchanged(v, mv);
		unchanged(params, mparams);
		if (sink) {
			if (kind == SINK_FILEP && sink->fp && !sim_is_open(sink->fp)) violate("closed-caller-file:" + name, "the stream of the caller was closed");
			sink->output.reset();
			r.has_out = true;
			r.injected = sink->failures + sink->flush_failures;
			r.out = sink->content();
			sink.reset();
		}
		r.injected += disk.write_failures + disk.close_failures + disk.failed_opens - wf0;
		disk.files.clear();
		disk.plans.clear();
	}
};

// ---------------------------------------------------------------- schemas
MV gen_data(int depth) {
	switch (draw(depth > 0 ? 8 : 6)) {
	case 0: return MV::integer((int)draw(20) - 5);
	case 1: return MV();
	case 2: return MV::boolean(draw(2));
	case 3: return MV::uinteger(draw(20));
	case 4: return MV::real(draw(80) / 4.0);
	case 5: { static const char *const s[] = {"", "a", "ab", "2020-01-01", "x1", "12:00:00", "longer text than fits inside"}; return MV::str(s[draw(7)]); }
	case 6: { MV l(MV::List); unsigned n = draw(4); for (unsigned i = 0; i < n; ++i) l.l.push_back(gen_data(depth - 1)); return l; }
	default: { MV m(MV::Map); unsigned n = draw(4); static const char *const k[] = {"a", "b", "c", "x1"}; for (unsigned i = 0; i < n; ++i) m.m[k[draw(4)]] = gen_data(depth - 1); return m; }
	}
}
MV gen_schema(int depth, const std::vector<string> &refs) {
	static const char *const types[] = {"integer", "null", "boolean", "number", "string", "array", "object"};
	static const char *const keys[] = {"a", "b", "c", "x1"};
	MV s(MV::Map);
	if (!refs.empty() && chance(1, 3)) { s.m["$ref"] = MV::str(pick(refs)); if (chance(2, 3)) return s; }
	unsigned n = draw(4);
	for (unsigned i = 0; i < n; ++i) {
		switch (draw(26)) {
		case 22: { // a keyword with something it cannot have
			static const char *const k[] = {"oneOf", "anyOf", "allOf", "not", "dependencies", "required", "properties", "patternProperties", "uniqueItems", "minimum", "maximum", "multipleOf", "minLength", "maxLength", "pattern", "format", "enum", "type", "minItems", "maxItems", "minProperties", "maxProperties", "items", "additionalItems", "additionalProperties", "$ref", "id", "default", "definitions"};
			s.m[k[draw(sizeof k / sizeof *k)]] = gen_data(1);
			break;
		}
		case 23: s.m[draw(2) ? "minProperties" : "maxProperties"] = MV::uinteger(draw(3)); break;
		case 24: s.m["divisibleBy"] = MV::uinteger(draw(5)); break;
		case 25: {
			if (draw(2)) { MV p(MV::Map); p.m[draw(2) ? "[" : "("] = MV(MV::Map); s.m["patternProperties"] = p; break; }
			MV p(MV::Map);
			p.m[keys[draw(4)]] = draw(2) || depth <= 0 ? MV::str(keys[draw(4)]) : gen_schema(depth - 1, refs);
			s.m["dependencies"] = p;
			break;
		}
		case 0: s.m["type"] = MV::str(types[draw(7)]); break;
		case 1: { MV l(MV::List); unsigned k = 1 + draw(3); for (unsigned j = 0; j < k; ++j) l.l.push_back(MV::str(types[draw(7)])); s.m["type"] = l; break; }
		case 2: { MV l(MV::List); unsigned k = 1 + draw(3); for (unsigned j = 0; j < k; ++j) l.l.push_back(gen_data(1)); s.m["enum"] = l; break; }
		case 3: s.m["minimum"] = MV::uinteger(draw(10)); if (draw(2)) s.m["exclusiveMinimum"] = MV::boolean(draw(2)); break;
		case 4: s.m["maximum"] = MV::uinteger(draw(10)); if (draw(2)) s.m["exclusiveMaximum"] = MV::boolean(draw(2)); break;
		case 5: s.m["multipleOf"] = chance(1, 3) ? MV::real(0.5) : MV::uinteger(draw(5)); break;
		case 6: s.m["minLength"] = MV::uinteger(draw(4)); break;
		case 7: s.m["maxLength"] = MV::uinteger(draw(12)); break;
		case 8: { static const char *const p[] = {"^a", "[0-9]+", "(", "b$", ".*"}; s.m["pattern"] = MV::str(p[draw(5)]); break; }
		case 9: { static const char *const p[] = {"date", "date-time", "time", "regex", "uri", "email"}; s.m["format"] = MV::str(p[draw(6)]); break; }
		case 10: s.m["minItems"] = MV::uinteger(draw(3)); break;
		case 11: s.m["maxItems"] = MV::uinteger(draw(4)); break;
		case 12: s.m["uniqueItems"] = MV::boolean(draw(2)); break;
		case 13: if (depth > 0) s.m["items"] = gen_schema(depth - 1, refs); break;
		case 14: if (depth > 0) { MV l(MV::List); unsigned k = draw(3); for (unsigned j = 0; j < k; ++j) l.l.push_back(gen_schema(depth - 1, refs)); s.m["items"] = l; s.m["additionalItems"] = draw(2) ? MV::boolean(false) : gen_schema(0, refs); } break;
		case 15: { MV l(MV::List); unsigned k = 1 + draw(2); for (unsigned j = 0; j < k; ++j) l.l.push_back(MV::str(keys[draw(4)])); s.m["required"] = l; break; }
		case 16: case 17: if (depth > 0) { MV p(MV::Map); unsigned k = 1 + draw(3); for (unsigned j = 0; j < k; ++j) p.m[keys[draw(4)]] = gen_schema(depth - 1, refs); s.m["properties"] = p; if (draw(2)) s.m["additionalProperties"] = draw(2) ? MV::boolean(draw(2)) : gen_schema(0, refs); } break;
		case 18: if (depth > 0) { MV p(MV::Map); p.m[draw(2) ? "^x" : "[a-c]"] = gen_schema(depth - 1, refs); s.m["patternProperties"] = p; } break;
		case 19: if (depth > 0) { static const char *const c[] = {"allOf", "anyOf", "oneOf"}; MV l(MV::List); unsigned k = 1 + draw(2); for (unsigned j = 0; j < k; ++j) l.l.push_back(gen_schema(depth - 1, refs)); s.m[c[draw(3)]] = l; } break;
		case 20: if (depth > 0) s.m["not"] = gen_schema(depth - 1, refs); break;
		default: { MV p(MV::Map); MV d(MV::List); d.l.push_back(MV::str(keys[draw(4)])); p.m[keys[draw(4)]] = d; s.m["dependencies"] = p; break; }
		}
	}
	if (chance(1, 6)) s.m["default"] = gen_data(1);
	return s;
}
static bool self_ref(const MV &s) { // a reference that is followed without consuming data
	if (s.t == MV::Map) { for (auto &x : s.m) { if (x.first == "$ref") return true; if (self_ref(x.second)) return true; } }
	if (s.t == MV::List) for (auto &x : s.l) if (self_ref(x)) return true;
	return false;
}
struct SchemaAct : Act {
	MV schema, data;
	std::unique_ptr<Variant> vs, vd;
	int how;       // 0 schema value, 1 by file name, 2 by URL, 3 defaults, 4 a schema as the data
	string uri, text;
	bool adv;
	std::map<string, string> files;
	std::map<string, NetReply> replies;
	ReadPlan rplan;
	int rfail = 0;
	uint64_t f0 = 0;
	SchemaAct() {
		how = draw(5);
		bool net_ref = chance(1, 3);
		std::vector<string> refs = {"#/definitions/d"};
		if (net_ref) { refs.push_back("http://sim/r.json"); refs.push_back("/sim/schemas/r.json"); }
		if (chance(1, 6)) refs.push_back("http://json-schema.org/draft-04/schema#");
		schema = gen_schema(how == 3 ? 2 : 3, refs);
		MV defs(MV::Map);
		defs.m["d"] = gen_schema(1, {});
		schema.m["definitions"] = defs;
		if (chance(1, 10)) schema.m["$schema"] = MV::str("http://json-schema.org/draft-04/schema#");
		if (how == 0 && chance(1, 4)) schema.m["id"] = MV::str("http://sim/base/s.json");
		data = gen_data(3);
		if (how == 3 && data.t != MV::Map) data = MV(MV::Map);
		if (how == 4) { data = schema; uri = "http://json-schema.org/draft-04/schema#"; }
		MV r = gen_schema(2, {});
		string rt = render(JSON, r);
		adv = how == 1 || how == 2 || net_ref || chance(1, 4);
		files["/sim/schemas/r.json"] = rt;
		NetReply nr;
		nr.body = rt;
		nr.chunks = draw_read_plan(rt.size(), true);
		replies["http://sim/r.json"] = nr;
		text = render(JSON, schema);
		if (how == 1) { uri = chance(1, 2) ? "/sim/schemas/s.json" : "s.json"; files["/sim/schemas/s.json"] = text; }
		if (how == 2) { uri = "http://sim/s.json"; nr.body = text; replies[uri] = nr; }
		rplan = draw_read_plan(text.size(), true);
		static const char *const mn[] = {"validate", "validate-file", "validate-url", "defaults", "validate-schema"};
		name = mn[how];
		desc = fmt("%s %s with %s", name.c_str(), show(data, 60).c_str(), show(schema, 120).c_str());
	}
	bool add_fault() override { if (!adv) return false; rfail = 1 + draw(5); return true; }
	void clear_fault() override { rfail = 0; }
	void before() override {
		make(vs, how == 0 || how == 3 ? schema : MV::str(uri));
		make(vd, data);
		disk.files = files;
		DiskPlan p;
		p.read = rplan;
		net.replies = replies;
		if (rfail == 1) { p.open_errno = EACCES; for (auto &r : net.replies) r.second.curl_code = 7; }
		if (rfail == 2) { p.read.fail_at = 5; for (auto &r : net.replies) { r.second.cut_at = 5; } }
		if (rfail == 3) { p.read.eof_at = 9; for (auto &r : net.replies) { r.second.status = 500; r.second.body = "oops"; } }
		if (rfail == 4) { disk.files.clear(); net.replies.clear(); }
		if (rfail == 5) net.init_fails = true;
		disk.plans["/sim/schemas/s.json"] = p;
		disk.plans["/sim/schemas/r.json"] = p;
		f0 = disk.read_failures + disk.failed_opens;
	}
	void go(ActResult &r) override {
		shared_ptr<SchemaLoader> loader;
		if (adv) { AdvSchemaLoader *a = new AdvSchemaLoader; loader.reset(a); a->AddPath("/sim/schemas"); }
		if (how == 3) {
			AddSchemaDefaults(*vs, *vd, loader.get());
			MV m = to_model(*vd);
			Out o;
			r.o.v = m;
			return;
		}
		SchemaResult res = SchemaValidate(*vs, *vd, loader.get());
		bool e = res.Error(), v = res.ValidationErrors(), x = res.SchemaErrors();
		size_t n = res.GetErrors().size(), k = res.GetSchemaErrors().size();
		string path;
		if (n) { string p = res.GetErrors()[0].GetDataPathStr() + " " + res.GetErrors()[0].GetSchemaPathStr(); Out o; path = p; }
		string pretty = res.PrettyPrintMessage();
		std::ostringstream os;
		os << res;
		Out o;
		r.o.v = MV::str(fmt("error=%d validation=%d(%zu) schema=%d(%zu) %s", e, v, n, x, k, path.c_str()));
	}
	void after(ActResult &r) override {
		r.injected = disk.read_failures + disk.failed_opens - f0 + (rfail && rfail != 2);
		{ Lib l; vs.reset(); } // the loader resolves the references inside the schema it is given
		if (how == 3) { Lib l; vd.reset(); }
		else unchanged(vd, data);
		disk.files.clear();
		disk.plans.clear();
		net.replies.clear();
		net.init_fails = false;
	}
};

// ---------------------------------------------------------------- editing
struct EditAct : Act {
	MV a, b;
	std::unique_ptr<Variant> va, vb;
	int how;
	unsigned one = 0;
	MV params;
	string p1, p2;
	EditAct() {
		how = draw(12);
		a = gen_data(3);
		b = gen_data(3);
		if (how != 7 && a.t != MV::Map && a.t != MV::List) { MV m(MV::Map); m.m["a"] = a; a = m; }
		static const char *const ps[] = {"/a", "/b/a", "/0", "/a/0", "/c/-", "", "/x1/a/b", "/a/b[1]/c", "/a~1b", "/~01", "/-", "/~2"};
		p1 = ps[draw(how == 11 ? 12 : 8)];
		p2 = ps[draw(how == 11 ? 12 : 8)];
		if (how == 10) {
			static const struct { const char *key; const char *vals[4]; } opts[] = {{"pathPrefix", {"/", "", "ab", 0}}, {"pathDelimiter", {".", "|", "..", ""}}, {"indexPrefix", {".", "(", "", "<<"}}, {"indexSuffix", {"", ")", "]]", 0}}, {"listDelimiter", {";", " ", "", "; "}}};
			params.t = MV::Map;
			if (draw(2)) params.m["noSimpleLists"] = MV::boolean(false);
			for (auto &o : opts)
				if (chance(1, 2)) { const char *v = o.vals[chance(1, 12) ? 2 + draw(2) : draw(2)]; params.m[o.key] = v ? MV::str(v) : MV::integer(1); }
		}
		if (how == 11) one = draw(6);
		static const char *const mn[] = {"copy", "flatten", "diff", "rdiff", "path-text", "set-path", "compare", "text", "patch", "update", "flatten-with", "pointer"};
		name = mn[how];
		desc = fmt("%s %s %s", name.c_str(), show(a, 80).c_str(), show(b, 80).c_str());
		if (how == 10) desc += " " + show(params, 200);
		if (how == 11) desc += fmt(" %u %s %s", one, p1.c_str(), p2.c_str());
	}
	void before() override { make(va, a); make(vb, b); }
	void after(ActResult &) override { unchanged(va, a); unchanged(vb, b); }
	void go(ActResult &r) override {
		auto set = [&](const MV &m) { Out o; r.o.v = m; };
		const Variant &ca = *va, &cb = *vb;
		switch (how) {
		case 0: { Variant c = ca.Copy(); set(to_model(c)); break; }
		case 1: { Variant c = FlattenPath(ca); Variant e = ExpandPath(c); MV x = to_model(c), y = to_model(e); Out o; r.o.v = MV(MV::List); r.o.v.l.push_back(x); r.o.v.l.push_back(y); break; }
		case 2: { Variant c = JSONDiff(ca, cb); set(to_model(c)); break; }
		case 3: { Variant c = RDiff(ca, cb); set(to_model(c)); break; }
		case 4: { Path p; ParsePath(p, p1 + p2); string t = PathString(p); Out o; r.o.v = MV::str(t); break; }
		case 5: { Variant c = ca.Copy(); Path p; ParsePath(p, p1); c.SetPath(p, cb); set(to_model(c)); break; }
		case 6: { bool e = ca == cb; Out o; r.o.v = MV::boolean(e); break; }
		case 8: { // the way from one to the other
			Variant c = ca.Copy(), d = JSONDiff(ca, cb);
			std::pair<bool, string> x = JSONPatch(c, d);
			if (!x.first) {
				// refused, which is a way to report a failure
				Out o;
				if (!same(to_model(c), a)) violate("half-patched", "a refused patch changed %s into %s", show(a).c_str(), show(to_model(c)).c_str());
				throw std::runtime_error("patch refused: " + x.second);
			}
			MV y = to_model(c), z = to_model(d);
			Out o;
			r.o.v = MV(MV::List);
			r.o.v.l.push_back(y);
			r.o.v.l.push_back(z);
			break;
		}
		case 10: {
			Variant p = build(params);
			ExtensionParams(p);
			Variant f = FlattenPath(ca, p), e = ExpandPath(f, p);
			MV x = to_model(f), y = to_model(e), z(MV::Map);
			if (f.IsMap()) {
				std::map<string, string> t = FlattenPathToStrStrMap(ca, p);
				Out o;
				for (auto &i : t) z.m[i.first] = MV::str(i.second);
				std::map<string, string>().swap(t);
			}
			Out o;
			r.o.v = MV(MV::List);
			r.o.v.l.push_back(x); r.o.v.l.push_back(y); r.o.v.l.push_back(z);
			break;
		}
		case 11: {
			Variant c = ca.Copy();
			switch (one) {
			case 0: JSONPointerAdd(p1, c, cb.Copy()); break;
			case 1: JSONPointerRemove(p1, c); break;
			case 2: JSONPointerReplace(p1, c, cb.Copy()); break;
			case 3: JSONPointerMove(p1, p2, c); break;
			case 4: JSONPointerCopy(p1, p2, c); break;
			default: { VariantRef x = JSONPointerLookup(p1, c); Variant y = x; c = y.Copy(); }
			}
			set(to_model(c));
			break;
		}
		case 9: { Variant c = ca.Copy(); RUpdate(c, cb); c.Merge(cb.Copy()); set(to_model(c)); break; }
		default: { string t = ca.AsString(); Out o; r.o.v = MV::str(t); break; }
		}
	}
};

// ---------------------------------------------------------------- arguments
struct ArgsAct : Act {
	std::vector<string> args;
	bool config;
	unsigned more = 0, env = 0;
	bool validates = false;
	struct Nowhere : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } } nowhere;
	std::streambuf *shown = 0;
	ArgsAct() {
		static const char *const pool2[] = {"--max=3", "--max=30", "--pat=ab", "--pat=b", "-k", "--pick=a", "--pick=q", "--one", "--two", "--help", "--adv-help", "-C", "/sim/conf.yaml", "-P", "/sim/conf.plist", "-G", "/sim/none", "--print-config", "--deep=4", "--off", "--b=no", "--b=maybe", "--f=1.5", "--f=x", "--u=-1", "--u=9", "extra"};
		static const char *const pool[] = {"-n", "5", "--name", "bob", "--name=x", "-v", "-vv", "--num=7", "--list=1", "--list", "2", "pos", "--", "--unknown", "-n5", "--flag", "--num=notanumber", "-c", "/sim/conf.json"};
		args.push_back("prog");
		unsigned n = draw(6);
		for (unsigned i = 0; i < n; ++i) args.push_back(pool[draw(sizeof pool / sizeof *pool)]);
		config = draw(2);
		if (chance(1, 2)) {
			more = 1 + draw(4095);
			env = draw(3);
			validates = draw(2);
			n = draw(5);
			for (unsigned i = 0; i < n; ++i) args.insert(args.begin() + 1 + draw(args.size()), pool2[draw(sizeof pool2 / sizeof *pool2)]);
		}
		name = "arguments";
		for (auto &a : args) desc += a + " ";
	}
	void before() override {
		// getopt's state ends with the process
		char x[] = "x";
		char *av[] = {x, 0};
		optind = 0;
		getopt(1, av, "");
		disk.files["/sim/conf.yaml"] = "num: 4\nlist: [1, 2]\na: {b: 5}\nv: 2\n";
		disk.files["/sim/conf.plist"] = "<plist><dict><key>num</key><integer>6</integer></dict></plist>";
		shown = std::cout.rdbuf(&nowhere);
		if (env) setenv("SIM_OPTION", env == 1 ? "7" : "zz", 1);
		disk.files["/sim/conf.json"] = "{\"name\": \"fromfile\", \"num\": 3}";
	}
	void after(ActResult &) override { disk.files.clear(); unsetenv("SIM_OPTION"); std::cout.rdbuf(shown); }
	void extend(ArgParse &ap) {
		if (more & 1) ap.AddOption("max", 0, "max").Maximum(10).Title("MAX").Required();
		if (more & 2) { ap.AddOption("pat", 'p', "pat").Pattern("^a").MinLength(2).MaxLength(8); ap.At("pat").Help("text"); }
		if (more & 4) ap.AddOption("const", 'k', "konst").Action(ARGACTION_STORE_CONST).Const(5);
		if (more & 8) ap.AddOption("pick", 0, "pick").AddChoice("a").AddChoice("b").Advanced();
		if (more & 16) {
			ap.AddFlag("one", 0, "one").Group("g");
			ap.AddFlag("two", 0, "two");
			OptionGroup g = ap.AddGroup("g", "Group", "of options");
			g.MutuallyExclusive().Required(more & 32).Add("two");
			if (more & 64) g.Advanced();
		}
		if (more & 128) {
			ap.AddOption("cy", 'C', "cy").Action(ARGACTION_CONFIG_YAML);
			ap.AddOption("cp", 'P', "cp").Action(ARGACTION_CONFIG_PLIST);
			ap.AddOption("cg", 'G', "cg").Action(ARGACTION_CONFIG);
			ap.AddOption("pc", 0, "print-config").Action(ARGACTION_PRINT_CONFIG);
		}
		if (more & 256) ap.AddOption("a.b", 0, "deep").Env("SIM_OPTION").Type(ARGTYPE_INT);
		if (more & 512) {
			ap.AddOption("off", 0, "off").Action(ARGACTION_STORE_FALSE).Default(true);
			ap.AddOption("b", 0, "b").Type(ARGTYPE_BOOL);
			ap.AddOption("f", 0, "f").Type(ARGTYPE_FLOAT);
			ap.AddOption("u", 0, "u").Type(ARGTYPE_UINT);
		}
		if (more & 1024) { ap.AddHelp(); ap.SetDescription("about"); ap.SetEpilog("end"); }
	}
	void go(ActResult &r) override {
		if (more & 2048) {
			// an equal parser, made from the description of the first
			ArgParse first("prog", false);
			extend(first);
			first.AddArgument("pos", "positional").MinArgs(1).MaxArgs(2);
			ArgParse ap("prog", false);
			ap.Merge(first);
			Variant d = ap.GetDescription(), s = ap.GenerateSchema();
			if (validates) ap.Validate();
			parse(ap, r);
			return;
		}
		ArgParse ap("prog", false);
		ap.AddOption("num", 'n', "num", "a number").Type(ARGTYPE_INT).Minimum(0);
		ap.AddOption("name", 0, "name", "a name").Default("nobody");
		ap.AddOption("list", 'l', "list", "some").Action(ARGACTION_APPEND);
		ap.AddFlag("flag", 'f', "flag", "a flag");
		ap.AddOption("v", 'v', "verbose").Action(ARGACTION_COUNT);
		if (config) ap.AddOption("config", 'c', "config").Action(ARGACTION_CONFIG_JSON);
		ap.AddArgument("pos", "positional").MinArgs(0);
		extend(ap);
		parse(ap, r);
	}
	void parse(ArgParse &ap, ActResult &r) {
		std::vector<char *> av;
		{ Out o; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(0); }
		Variant v = ap.Parse(args.size(), av.data());
		MV m = to_model(v);
		Out o;
		std::vector<char *>().swap(av);
		r.o.v = m;
	}
};

// The declaration of options as a value, without interpreting arguments.
struct DescribeAct : ArgsAct {
	DescribeAct() {
		more = 1 + draw(2047);
		more &= ~(1024u | 16u); // the members of a group are listed in no particular order
		name = "describe-arguments";
		desc = fmt("describe options %x", more);
	}
	void before() override {}
	void after(ActResult &) override {}
	void go(ActResult &r) override {
		ArgParse first("prog", false);
		extend(first);
		first.AddArgument("pos", "positional").MinArgs(1).MaxArgs(2);
		ArgParse ap("prog", false);
		ap.Merge(first);
		ap.Validate();
		Variant d = ap.GetDescription(), s = ap.GenerateSchema();
		MV m(MV::List);
		MV x = to_model(d), y = to_model(s);
		Out o;
		m.l.push_back(x);
		m.l.push_back(y);
		r.o.v = m;
	}
};

// ---------------------------------------------------------------- ownership
// Outputs told to own their stream, and binary data with a release callback.
struct OwnBuf : std::stringbuf {
	int64_t *live;
	OwnBuf(int64_t *l) : live(l) { ++*live; }
	~OwnBuf() { --*live; }
};
struct OwnAct : Act {
	struct Buf { unsigned parts, size; };
	bool blobs, own, stream;
	Format f;
	std::vector<Buf> bufs;
	std::vector<std::pair<int, unsigned>> ops;
	int close_fails;
	FILE *fp = 0;
	OwnBuf *sb = 0;
	int64_t live = 0;
	std::map<void *, int> released;
	uint64_t cf0 = 0;
	OwnAct() {
		blobs = draw(2);
		own = draw(2);
		stream = draw(2);
		f = act_format >= 0 ? (Format)act_format : (Format)draw(NFORMATS);
		close_fails = 0;
		unsigned n = 1 + draw(4);
		for (unsigned i = 0; i < n; ++i) bufs.push_back({1 + draw(3), 1 + draw(20)});
		n = 1 + draw(8);
		for (unsigned i = 0; i < n; ++i) ops.push_back({(int)draw(8), draw(16)});
		name = blobs ? "release-callback" : fmt("%s-output:%s:%s", own ? "owned" : "borrowed", stream ? "streambuf" : "FILE", format_names[f]);
		desc = fmt("%s (%zu)", name.c_str(), ops.size());
	}
	bool add_fault() override { if (blobs || stream) return false; close_fails = 1 + draw(2); return true; }
	void clear_fault() override { close_fails = 0; }
	static void release(void *p, void *ctx) {
		Out o;
		OwnAct *a = (OwnAct *)ctx;
		auto i = a->released.find(p);
		if (i == a->released.end()) violate("released-unknown:" + a->name, "memory that was never handed over was released");
		if (i->second++) violate("released-twice:" + a->name, "binary data was released again");
	}
	void before() override {
		if (blobs) return;
		DiskPlan p;
		if (close_fails == 1) p.close_fails = true;
		if (close_fails == 2) p.capacity = 3;
		disk.plans["/sim/own"] = p;
		cf0 = disk.close_failures + disk.write_failures;
		if (stream) sb = new OwnBuf(&live);
		else fp = sim_fopen("/sim/own", "w");
	}
	void go(ActResult &r) override {
		if (!blobs) {
			EmitterOutput *raw = 0;
			if (stream) raw = new EmitterStreambufOutput(sb, own); else raw = new EmitterFileOutput(fp, own);
			taken = own;
			shared_ptr<EmitterOutput> o(raw);
			Emitter e = CreateEmitter(o, stype(f));
			o.reset();
			Variant v;
			v["a"] = "b";
			e << v;
			e.Close();
			return;
		}
		std::vector<Variant> vars(3);
		for (size_t i = 0; i < bufs.size(); ++i) {
			std::vector<struct iovec> iov(bufs[i].parts);
			{
				Out o;
				for (auto &x : iov) { x.iov_len = bufs[i].size; x.iov_base = new char[bufs[i].size](); released[x.iov_base] = 0; }
			}
			BlobPtr b = iov.size() == 1 ? Blob::Create(iov[0].iov_base, iov[0].iov_len, &OwnAct::release, this) : Blob::Create(&iov[0], iov.size(), &OwnAct::release, this);
			vars[i % 3][i < 3 ? "a" : "b"] = b;
		}
		for (auto &x : ops) {
			Variant &v = vars[x.second % 3];
			switch (x.first) {
			case 0: { Variant c = v.Copy(); vars[(x.second / 3) % 3]["copy"] = c; break; }
			case 1: { Variant n; v = n; v["x"] = vars[(x.second + 1) % 3]["a"]; break; }
			case 2: v.Set("b", vars[(x.second + 1) % 3]["a"]); break;
			case 3: { Variant l; l.Append(vars[x.second % 3]["a"]); l.Append(vars[(x.second + 1) % 3]["a"]); v["l"] = l; break; }
			case 4: v.Erase("a"); break;
			case 5: { string s = Serialize(v, SERIALIZE_YAML); break; }
			case 6: { bool e = vars[0] == vars[1]; (void)e; break; }
			default: v["a"] = 1; break;
			}
		}
	}
	bool taken = false;
	void after(ActResult &r) override {
		if (blobs) {
			for (auto &x : released) {
				if (!x.second) violate("not-released:" + name, "binary data was never released");
				delete[] (char *)x.first;
			}
			released.clear();
			return;
		}
		r.injected = disk.close_failures + disk.write_failures - cf0;
		if (stream) {
			if (live != (taken ? 0 : 1)) violate("stream-buffer:" + name, "the stream buffer %s", live ? "was not deleted" : "of the caller was deleted");
			if (!taken) delete sb;
		} else {
			if (sim_is_open(fp) == taken) violate("stream:" + name, "the stream %s", taken ? "was not closed" : "of the caller was closed");
			if (!taken) sim_fclose(fp);
		}
		taken = false;
		live = 0;
		disk.files.clear();
		disk.plans.clear();
	}
};

// Data the library sets up on first use and keeps.
static RegisterWarmup warmup([] {
	Lib l;
	AdvSchemaLoader loader;
	Variant s, d;
	s["pattern"] = "a";
	SchemaValidate(s, d, &loader);
	SchemaLoader::ResolveURI("http://a/b", "c");
	Deserialize("a: 1", SERIALIZE_YAML);
	Deserialize("{\"a\": 1}", SERIALIZE_JSON);
	Deserialize("<?xml version=\"1.0\"?><plist version=\"1.0\"><true/></plist>", SERIALIZE_XMLPLIST);
	Serialize(d, SERIALIZE_YAML);
	Serialize(d, SERIALIZE_XMLPLIST);
});

std::unique_ptr<Act> draw_act(unsigned kinds) {
	std::vector<int> k;
	if (kinds & ACT_PARSE) { k.push_back(0); k.push_back(0); k.push_back(0); }
	if (kinds & ACT_WRITE) { k.push_back(1); k.push_back(1); k.push_back(1); }
	if (kinds & ACT_SCHEMA) { k.push_back(2); k.push_back(2); }
	if (kinds & ACT_EDIT) k.push_back(3);
	if (kinds & ACT_ARGS) k.push_back(4);
	if (kinds & ACT_OWN) k.push_back(5);
	if (kinds & ACT_DESCRIBE) k.push_back(6);
	Act *a;
	switch (pick(k)) {
	case 0: a = new ParseAct; break;
	case 1: a = new WriteAct; break;
	case 2: a = new SchemaAct; break;
	case 3: a = new EditAct; break;
	case 4: a = new ArgsAct; break;
	case 6: a = new DescribeAct; break;
	default: a = new OwnAct; break;
	}
	return std::unique_ptr<Act>(a);
}
}
