#include "common.h"
#include <string.h>
#include "main.h"
#include <Variant/Blob.h>
namespace sim {
using std::string;
using namespace libvariant;

void emit_events(Emitter &e, const MV &v, unsigned style) {
	if ((style & 8) && v.t != MV::List && v.t != MV::Map) { Variant x; { Out o; x = build(v); } e << x; return; }
	switch (v.t) {
	case MV::Null: e.EmitNull(); break;
	case MV::Bool: if (style & 2) e.Emit(v.b); else if (v.b) e.EmitTrue(); else e.EmitFalse(); break;
	case MV::Int: e.Emit((intmax_t)v.i); break;
	case MV::Uint: e.Emit((uintmax_t)v.u); break;
	case MV::Float: e.Emit(v.d); break;
	case MV::Str: if ((style & 1) && v.s.find('\0') == string::npos) e.Emit(v.s.c_str()); else e.Emit(v.s); break;
	case MV::List:
		if (style & 4) e.BeginList(); else e.BeginList(v.l.size());
		for (auto &x : v.l) emit_events(e, x, style);
		e.EndList();
		break;
	case MV::Map:
		if (style & 4) e.BeginMap(); else e.BeginMap(v.m.size());
		for (auto &x : v.m) { e.Emit(x.first); emit_events(e, x.second, style); }
		e.EndMap();
		break;
	case MV::Blob: {
		BlobPtr b = make_blob(v.s, v.s.size() % 8);
		e.Emit(ConstBlobPtr(b));
		break;
	}
	default: break;
	}
}
void Script::draw_docs(Format f, Gen &g) {
	unsigned n = (f == JSON || f == YAML) ? 1 + draw(4) : 1;
	for (unsigned i = 0; i < n; ++i) {
		ops.push_back({0, g.root()});
		if (chance(1, 3)) ops.push_back({1, MV()});
	}
	for (unsigned i = 0; i < ops.size(); ++i) {
		if (!chance(1, 6)) continue;
		MV p(MV::Map);
		if (chance(1, 2)) p.m["precision"] = MV::integer(1 + draw(17));
		if (f == JSON) { if (chance(1, 2)) p.m["pretty"] = MV::boolean(draw(2)); if (chance(1, 3)) p.m["indent"] = MV::integer(draw(200)); }
		if (f == XML && chance(1, 2)) p.m["pretty"] = MV::boolean(draw(2));
		if (f == YAML && chance(1, 2)) p.m["map_style"] = MV::str(draw(2) ? "flow" : "block");
		ops.insert(ops.begin() + i++, {2, p});
	}
	style = chance(1, 2) ? draw(32) : 0;
	close = true;
}
void Script::one(Emitter &e, const Op &op) const {
	if (op.kind == 1) e.Flush();
	else if (op.kind == 2) {
		if (style & 16) { Variant p; { Out o; p = build(op.v); } e.SetParams(p); }
		else for (auto &x : op.v.m) { Variant p; { Out o; p = build(x.second); } e.SetParam(x.first, p); }
		e.GetParams();
		for (auto &x : op.v.m) e.GetParam(x.first);
	} else {
		e.BeginDocument();
		emit_events(e, op.v, style);
		e.EndDocument();
	}
}
void Script::perform(shared_ptr<EmitterOutput> out, Format f, const Variant &params) {
	done = 0;
	Emitter e = CreateEmitter(out, stype(f), params);
	for (auto &op : ops) {
		one(e, op);
		++done;
	}
	if (close) e.Close();
	else e.Flush();
}
MV payload_root(Format f, Gen &g, string *payload) {
	MV m(MV::Map);
	g.budget = std::min<uint32_t>(g.budget, 30);
	do m = g.root(); while (m.t != MV::Map);
	m.m.erase("payload");
	m.m.erase("payload.length");
	m.m.erase("bundle");
	size_t n;
	switch (draw(6)) {
	case 0: n = 0; break;
	case 1: n = 1 + draw(40); break;
	case 2: n = 1; break;
	case 3: n = 31 + draw(3); break;
	case 4: n = 8190 + draw(5); break;
	default: n = draw_size(20000); break;
	}
	*payload = gen_bytes(n);
	return m;
}
void add_payload(Variant &v, Format f, const string &payload) {
	Path p;
	ParsePath(p, f == BUNDLE ? VARIANT_BUNDLE_PAYLOAD_DATA_PATH : VARIANT_PAYLOAD_DATA_PATH);
	v.SetPath(p, make_blob(payload, draw(8)));
}

static const char *const tokens[] = {
	"[", "]", "{", "}", ",", ":", "\"", "'", "\\", "\n", "\t", " ", "-", "---\n", "...\n", "|", ">", "&a ", "*a", "!!binary ", "!!str ", "!x ", "%YAML 1.1\n", "#", "? ", "- ", ": ",
	"null", "true", "false", "nul", "tru", "1e999", "-1e-999", "0x", "0o8", "-", "+", ".", "1.", ".e", "18446744073709551616", "-9223372036854775809", "99999999999999999999999999999999", "1e", "NaN", "Infinity",
	"\\u", "\\ud800", "\\udc00", "\\u0000", "\\x", "\\U0010ffff", "\"\\u0000BLOB", "\"\\u0000BLOB=", "/*", "*/", "//", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xff", 
	"<", ">", "</", "/>", "<plist>", "</plist>", "<plist/>", "<dict>", "</dict>", "<dict/>", "<array>", "</array>", "<array/>", "<key>", "</key>", "<key/>", "<string>", "</string>", "<string/>", "<integer>", "</integer>", "<integer/>", "<real>", "</real>", "<data>", "</data>", "<data/>", "<true/>", "<true>", "</true>", "<null/>", "<null>", "</null>", "<date>", "<x>", "</x>", "<x/>", "&amp;", "&#0;", "&#65;", "&#x110000;", "&x;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<!DOCTYPE plist [<!ENTITY x \"y\">]>", "<?p?>",
	"payload.length: 5\n", "payload.length: 4294967297\n", "payload.length: -1\n", "payload.length: x\n", "\"length\": 99999999999", "length: 18446744073709551615\n", "bundle.version: 1\n", ":", "=", "==", "====",
};
static void odd_xml(string &o, int depth) {
	static const char *const tags[] = {"dict", "array", "key", "string", "integer", "real", "data", "true", "false", "null", "plist", "date", "x", "ns:string"};
	static const char *const texts[] = {"", "a", "1", "-1", "1.5", " 2 ", "aGk=", "aGk", "a GVsbG8= ", "&amp;", "&#65;", "&x;", "&y;", "<![CDATA[<3>]]>", "<!-- c -->", "<?p q?>", "1e999", "true", "0x10", "18446744073709551615", "99999999999999999999", "nan", "\t\n "};
	unsigned n = draw(5);
	for (unsigned i = 0; i < n; ++i) {
		if (chance(1, 4)) { o += texts[draw(sizeof texts / sizeof *texts)]; continue; }
		const char *t = depth && chance(1, 3) ? tags[draw(3)] : tags[draw(sizeof tags / sizeof *tags)];
		o += string("<") + t + (chance(1, 10) ? " a='b'" : "");
		if (chance(1, 4)) { o += "/>"; continue; }
		o += ">";
		if (depth && (t[0] == 'd' || t[0] == 'a' || t[0] == 'p' || chance(1, 8))) {
			if (t[0] == 'd' && draw(2)) for (unsigned k = draw(4); k; --k) { o += "<key>k</key>"; odd_xml(o, 0); }
			else odd_xml(o, depth - 1);
		} else o += texts[draw(sizeof texts / sizeof *texts)];
		o += string("</") + t + ">";
	}
}
// Text that keeps to the syntax of the format but has unusual parts.
string odd_text(Format f) {
	string o;
	switch (f) {
	case XML:
		if (draw(2)) o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
		if (chance(1, 3)) o += "<!DOCTYPE plist [<!ENTITY x \"y\"><!ENTITY y \"&x;<integer>3</integer>\">]>\n";
		if (draw(3)) o += "<plist version=\"1.0\">"; else o += "<array>";
		{ bool plist = o.find("<plist") != string::npos; odd_xml(o, 3); o += plist ? "</plist>" : "</array>"; }
		break;
	case YAML: case BUNDLE: {
		static const char *const scalars[] = {"0o17", "017", "0x1F", "-0x1F", "0b101", "1_000", "1:30", "+5", "-.5", ".5e1", "1e400", ".inf", "-.INF", ".nan", "~", "null", "yes", "Off", "TRUE", "=", "<<", "2001-12-14", "!!int abc", "!!int 5", "!!str 5", "!!float 1", "!!bool x", "!!null x", "!!binary aGk=", "!!binary '%'", "!local v", "!<tag:yaml.org,2002:str> v", "'it''s'", "\"\\x41\\u0042\\e\\_\"", "\"a\\\n  b\"", "&n 1", "*n", "*a", "{}", "[]", "{a, b: }", "[a: b, c]", "- x", "", "a b", "18446744073709551616", "0o777777777777777777777777"};
		static const char *const blocks[] = {"|\n    t\n    u\n", "|-\n    t\n", ">+\n    t\n\n    u\n\n", "|2\n    t\n", "&a [1, 2]\n", "!!set {p, q}\n", "!!omap [p: 1]\n", "# only a comment\n", "{\"x\":1}\n", "? complex\n"};
		unsigned n = draw(7);
		if (f == BUNDLE) {
			static const char *const keys[] = {"a", "a.b", "a.b.c", "Message-ID", "x[0]", "", " k ", "length", "a..b", ".a"};
			for (unsigned i = 0; i < n; ++i) o += string(keys[draw(10)]) + (chance(1, 6) ? "" : ":") + (draw(2) ? " " : "") + scalars[draw(sizeof scalars / sizeof *scalars)] + (chance(1, 4) ? "\r\n" : "\n");
			if (draw(3)) o += "\n";
			break;
		}
		if (chance(1, 4)) o += "%YAML 1.1\n---\n";
		bool list = draw(2);
		for (unsigned i = 0; i < n; ++i) {
			static const char *const keys[] = {"a: ", "b: ", "\"c\": ", "? d\n: ", "!!str 5: ", "<<: ", "1: ", "[e, f]: ", "~: ", "&k g: "};
			o += list ? "- " : keys[draw(10)];
			if (chance(1, 3)) o += blocks[draw(10)];
			else o += string(scalars[draw(sizeof scalars / sizeof *scalars)]) + (chance(1, 8) ? " # c" : "") + "\n";
			if (chance(1, 12)) o += draw(2) ? "---\n" : "...\n";
		}
		break;
	}
	default: {
		static const char *const parts[] = {"0", "-0", "1e5", "1E+2", "-1.5e-3", "12345678901234567890", "-9223372036854775808", "1e400", "0.1e-400", "\"\"", "\"\\u0041\\/\\b\\f\"", "\"\\ud83d\\ude00\"", "\"\\u0000BLOB=aGk=\"", "\"\\u0000BLOB\"", "\"\\u0000\"", "true", "null", "[]", "{}", "[[]]", "{\"\":{}}", "{\"a\":1,\"a\":[2]}", "/* c */ 1", "1 // c\n"};
		bool list = draw(2);
		unsigned n = draw(6);
		o = list ? "[" : "{";
		for (unsigned i = 0; i < n; ++i) {
			if (i) o += ",";
			if (chance(1, 4)) o += " \t\r\n";
			if (!list) o += fmt("\"%c\":", "aab\xc3"[draw(3)]);
			o += parts[draw(sizeof parts / sizeof *parts)];
		}
		o += list ? "]" : "}";
	}
	}
	return o;
}
string mutate(Format f, string &doc) {
	string desc;
	unsigned n = 1 + draw(6);
	for (unsigned i = 0; i < n; ++i) {
		size_t at = draw(doc.size() + 1);
		switch (draw(11)) {
		case 0: // flip
			if (doc.empty()) break;
			at %= doc.size();
			doc[at] ^= 1 << draw(8);
			fault(F_byte_flip);
			desc += fmt("flip@%zu ", at);
			break;
		case 1: // replace
			if (doc.empty()) break;
			at %= doc.size();
			doc[at] = (char)draw(256);
			fault(F_byte_flip);
			desc += fmt("set@%zu ", at);
			break;
		case 2: { // drop
			if (doc.empty()) break;
			size_t len = 1 + draw(chance(1, 4) ? 60 : 3);
			doc.erase(std::min(at, doc.size() - 1), len);
			fault(F_byte_drop);
			desc += fmt("drop@%zu+%zu ", at, len);
			break;
		}
		case 3: case 4: case 5: { // insert a token
			const char *t = tokens[draw(sizeof tokens / sizeof *tokens)];
			doc.insert(at, t);
			fault(F_byte_insert);
			desc += fmt("token@%zu ", at);
			break;
		}
		case 6: { // insert bytes
			string b = gen_bytes(1 + draw(8));
			doc.insert(at, b);
			fault(F_byte_insert);
			desc += fmt("bytes@%zu ", at);
			break;
		}
		case 7: { // repeat a block
			if (doc.empty()) break;
			size_t from = draw(doc.size()), len = 1 + draw(40);
			string b = doc.substr(from, len);
			unsigned times = chance(1, 8) ? 1 + draw(300) : 1 + draw(3);
			string all;
			for (unsigned k = 0; k < times; ++k) all += b;
			doc.insert(at, all);
			fault(F_block_dup);
			desc += fmt("repeat@%zu ", at);
			break;
		}
		case 8: // truncate
			doc.resize(at);
			fault(F_truncate);
			desc += fmt("cut@%zu ", at);
			break;
		case 9: { // splice in part of another document
			Format f2 = chance(1, 2) ? f : (Format)draw(NFORMATS);
			Gen g(f2);
			g.budget = std::min<uint32_t>(g.budget, 12);
			g.big = false;
			string other = render(f2, g.root(), true);
			size_t from = draw(other.size() + 1);
			other = other.substr(from, draw(other.size() + 1));
			doc.insert(at, other);
			fault(F_splice);
			desc += fmt("splice@%zu ", at);
			break;
		}
		default: { // deep nesting
			if (!chance(1, 4)) break;
			static const char *const open[] = {"[", "{\"a\":", "[{\"\":", "- ", "{a: ", "<array>", "<dict><key>a</key>", "<plist>", "<x>", "? ", "!!x ", "\"", "((", "|"};
			static const unsigned deep[] = {3, 40, 130, 260, 300, 999, 1001, 4999, 5001, 20000};
			const char *t = open[draw(sizeof open / sizeof *open)];
			unsigned times = deep[draw(chance(1, 8) ? 10 : 6)];
			string all;
			for (unsigned k = 0; k < times; ++k) all += t;
			if (chance(1, 2)) doc = all;
			else doc.insert(at, all);
			if (chance(1, 2)) { static const char *const close[] = {"]", "}", "}]", "</array>", "</dict>", "</plist>"}; const char *c = close[draw(6)]; for (unsigned k = 0; k < times; ++k) doc += c; }
			fault(F_garbage);
			desc += fmt("nest*%u ", times);
		}
		}
	}
	return desc;
}

class LoggingActions : public ParserActions {
	EventLog *l;
	void note(int kind, const void *p, size_t n, const char *anchor, const char *tag) {
		Out o;
		seam_event();
		l->hash = fnv(&kind, sizeof kind, l->hash);
		if (n) l->hash = fnv(p, n, l->hash);
		if (anchor) l->hash = fnv(anchor, strlen(anchor), l->hash);
		if (tag) l->hash = fnv(tag, strlen(tag), l->hash);
		if ((int64_t)l->events++ == l->throw_at) {
			++l->thrown;
			fault(F_callback_throw);
			throw InjectedError("simulated handler error");
		}
	}
	void begin(int k) { Out o; l->open.push_back(k); l->max_depth = std::max(l->max_depth, l->open.size()); }
	void end(int k) {
		Out o;
		if (l->open.empty()) violate("unmatched-end:" + l->tag, "end event %d without a begin", k);
		if (l->open.back() != k) violate("crossed-end:" + l->tag, "end event %d closes %d", k, l->open.back());
		l->open.pop_back();
	}
public:
	LoggingActions(EventLog *log) : l(log) { ++live_objects; }
	~LoggingActions() { --live_objects; }
	void BeginDocument(ParserImpl *) { begin(0); note(1, 0, 0, 0, 0); }
	void EndDocument(ParserImpl *) { end(0); note(2, 0, 0, 0, 0); Out o; l->hashes.push_back(l->hash); }
	void BeginMap(ParserImpl *, int, const char *a, const char *t) { begin(2); note(3, 0, 0, a, t); }
	void EndMap(ParserImpl *) { end(2); note(4, 0, 0, 0, 0); }
	void BeginList(ParserImpl *, int, const char *a, const char *t) { begin(1); note(5, 0, 0, a, t); }
	void EndList(ParserImpl *) { end(1); note(6, 0, 0, 0, 0); }
	void Alias(ParserImpl *, const char *a) { note(7, 0, 0, a, 0); }
	void Scalar(ParserImpl *, double v, const char *a, const char *t) { if (v != v) v = 0; note(8, &v, sizeof v, a, t); }
	void Scalar(ParserImpl *, const char *s, unsigned n, const char *a, const char *t) { note(9, s, n, a, t); }
	void Scalar(ParserImpl *, bool v, const char *a, const char *t) { note(10, &v, sizeof v, a, t); }
	void Null(ParserImpl *, const char *a, const char *t) { note(11, 0, 0, a, t); }
	void Scalar(ParserImpl *, intmax_t v, const char *a, const char *t) { note(12, &v, sizeof v, a, t); }
	void Scalar(ParserImpl *, uintmax_t v, const char *a, const char *t) { note(13, &v, sizeof v, a, t); }
	void Scalar(ParserImpl *, BlobPtr b, const char *a, const char *t) {
		for (unsigned i = 0; i < b->GetNumBuffers(); ++i) { Out o; l->hash = fnv(b->GetPtr(i), b->GetLength(i), l->hash); }
		note(14, 0, 0, a, t);
	}
};
shared_ptr<ParserActions> event_actions(EventLog *log) { return shared_ptr<ParserActions>(new LoggingActions(log)); }
size_t complete_end(Format f, const string &doc) {
	if (f == JSON) {
		size_t p = doc.find_last_of("]}");
		return p == string::npos ? p : p + 1;
	}
	if (f == XML) {
		size_t p = doc.rfind('>');
		return p == string::npos ? p : p + 1;
	}
	return string::npos;
}
}
