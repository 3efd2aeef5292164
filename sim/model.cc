#include "model.h"
#include <Variant/Blob.h>
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <regex.h>
#include <limits>

namespace sim {
using std::string;
using libvariant::Variant;
const char *const format_names[NFORMATS] = {"json", "yaml", "xml", "bundle"};
libvariant::SerializeType stype(Format f) {
	switch (f) {
	case JSON: return libvariant::SERIALIZE_JSON;
	case YAML: return libvariant::SERIALIZE_YAML;
	case XML: return libvariant::SERIALIZE_XMLPLIST;
	default: return libvariant::SERIALIZE_BUNDLEHDR;
	}
}

bool same(const MV &a, const MV &b) {
	if (a.t != b.t) return false;
	switch (a.t) {
	case MV::Null: return true;
	case MV::Bool: return a.b == b.b;
	case MV::Int: return a.i == b.i;
	case MV::Uint: return a.u == b.u;
	case MV::Float: return (a.d != a.d && b.d != b.d) || memcmp(&a.d, &b.d, sizeof a.d) == 0;
	case MV::Str: case MV::Blob: return a.s == b.s;
	case MV::List:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!same(a.l[i], b.l[i])) return false;
		return true;
	case MV::Map: {
		if (a.m.size() != b.m.size()) return false;
		auto i = a.m.begin(), j = b.m.begin();
		for (; i != a.m.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
		return true;
	}
	default: return a.s == "too deep" && b.s == a.s;
	}
}
static void show_to(string &o, const MV &v, size_t max) {
	if (o.size() > max) return;
	switch (v.t) {
	case MV::Null: o += "null"; break;
	case MV::Bool: o += v.b ? "true" : "false"; break;
	case MV::Int: o += "i" + std::to_string(v.i); break;
	case MV::Uint: o += "u" + std::to_string(v.u); break;
	case MV::Float: o += fmt("f%.17g", v.d); break;
	case MV::Str: o += "\"" + quote(v.s, 60) + "\""; break;
	case MV::Blob: o += "blob<" + quote(v.s, 40) + ">"; break;
	case MV::List:
		o += "[";
		for (size_t i = 0; i < v.l.size() && o.size() <= max; ++i) { if (i) o += ", "; show_to(o, v.l[i], max); }
		o += "]";
		break;
	case MV::Map: {
		o += "{";
		bool first = true;
		for (auto &x : v.m) {
			if (o.size() > max) break;
			if (!first) o += ", ";
			first = false;
			o += "\"" + quote(x.first, 40) + "\": ";
			show_to(o, x.second, max);
		}
		o += "}";
		break;
	}
	default: o += "BAD(" + v.s + ")";
	}
}
static MV canon(const MV &v) {
	MV r = v;
	if (v.t == MV::Uint && v.u <= (uint64_t)std::numeric_limits<int64_t>::max()) return MV::integer((int64_t)v.u);
	for (auto &x : r.l) x = canon(x);
	for (auto &x : r.m) x.second = canon(x.second);
	return r;
}
bool equiv(const MV &a, const MV &b) { return same(canon(a), canon(b)); }
string show(const MV &v, size_t max) { string o; show_to(o, v, max); if (o.size() > max) o += "..."; return o; }
size_t count(const MV &v) {
	size_t n = 1;
	for (auto &x : v.l) n += count(x);
	for (auto &x : v.m) n += count(x.second);
	return n;
}
uint64_t hash(const MV &v) {
	uint64_t h = 1469598103934665603ull ^ (v.t * 77);
	auto m = [&](uint64_t x) { h = fnv(&x, 8, h); };
	switch (v.t) {
	case MV::Bool: m(v.b); break;
	case MV::Int: m(v.i); break;
	case MV::Uint: m(v.u); break;
	case MV::Float: { uint64_t x; double d = v.d != v.d ? 0.12345 : v.d; memcpy(&x, &d, 8); m(x); break; }
	case MV::Str: case MV::Blob: case MV::Bad: h = fnv(v.s.data(), v.s.size(), h); break;
	case MV::List: for (auto &x : v.l) m(hash(x)); break;
	case MV::Map: for (auto &x : v.m) { h = fnv(x.first.data(), x.first.size(), h); m(hash(x.second)); } break;
	default: break;
	}
	return h;
}

static Variant build_rec(const MV &v) {
	switch (v.t) {
	case MV::Null: return Variant();
	case MV::Bool: return Variant(v.b);
	case MV::Int: return Variant((long long)v.i);
	case MV::Uint: return Variant((unsigned long long)v.u);
	case MV::Float: return Variant(v.d);
	case MV::Str: return Variant(v.s);
	case MV::Blob: return Variant(make_blob(v.s, fnv(v.s.data(), v.s.size()) % 8));
	case MV::List: {
		Variant r(libvariant::VariantDefines::ListType);
		for (auto &x : v.l) r.Append(build_rec(x));
		return r;
	}
	case MV::Map: {
		Variant r(libvariant::VariantDefines::MapType);
		for (auto &x : v.m) r.Set(x.first, build_rec(x.second));
		return r;
	}
	default: return Variant();
	}
}
libvariant::BlobPtr make_blob(const string &s, unsigned shape) {
	if (shape < 1) return libvariant::Blob::CreateCopy(s.data(), s.size());
	size_t n = s.size(), c = shape == 3 ? n : n / 3;
	struct iovec io[16];
	size_t off[17] = {0, c, shape == 2 ? c : n, n};
	unsigned slabs = shape == 3 ? 1 : shape == 2 ? 3 : 2;
	if (shape > 3) { // many buffers, some of them empty if there are few bytes
		slabs = 1 + (shape * 5 + n) % 16;
		for (unsigned i = 0; i <= slabs; ++i) off[i] = n * i / slabs;
	}
	for (unsigned i = 0; i < slabs; ++i) {
		size_t len = off[i + 1] - off[i];
		Out o;
		io[i].iov_base = malloc(len ? len : 1);
		if (len) memcpy(io[i].iov_base, s.data() + off[i], len);
		io[i].iov_len = len;
	}
	return libvariant::Blob::CreateFree(io, slabs);
}
Variant build(const MV &v) { Lib l; return build_rec(v); }

static MV to_model_rec(const Variant &v, int depth) {
	MV r;
	if (depth > 400) { r.t = MV::Bad; r.s = "too deep"; return r; }
	switch (v.GetType()) {
	case libvariant::VariantDefines::NullType: break;
	case libvariant::VariantDefines::BoolType: r.t = MV::Bool; r.b = v.AsBool(); break;
	case libvariant::VariantDefines::IntegerType: r.t = MV::Int; r.i = v.AsInt(); break;
	case libvariant::VariantDefines::UnsignedType: r.t = MV::Uint; r.u = v.AsUnsigned(); break;
	case libvariant::VariantDefines::FloatType: r.t = MV::Float; r.d = v.AsDouble(); break;
	case libvariant::VariantDefines::StringType: { r.t = MV::Str; string s = v.AsString(); Out o; r.s.assign(s.data(), s.size()); break; }
	case libvariant::VariantDefines::ListType: {
		r.t = MV::List;
		const Variant::List &l = v.AsList();
		for (auto &x : l) { MV e = to_model_rec(x, depth + 1); Out o; r.l.push_back(e); }
		break;
	}
	case libvariant::VariantDefines::MapType: {
		r.t = MV::Map;
		const Variant::Map &m = v.AsMap();
		for (auto &x : m) { MV e = to_model_rec(x.second, depth + 1); Out o; r.m[x.first] = e; }
		break;
	}
	case libvariant::VariantDefines::BlobType: {
		r.t = MV::Blob;
		libvariant::ConstBlobPtr b = v.AsBlob();
		if (!b) { r.t = MV::Bad; r.s = "null blob"; break; }
		for (unsigned i = 0; i < b->GetNumBuffers(); ++i) { Out o; r.s.append((const char *)b->GetPtr(i), b->GetLength(i)); }
		break;
	}
	default: r.t = MV::Bad; r.s = "unknown type"; break;
	}
	return r;
}
// Results are moved into harness-owned memory: all MV storage is allocated
// outside the code-under-test scope.
MV to_model(const Variant &v) {
	Out o; // reading a finished value needs no fault injection
	return to_model_rec(v, 0);
}

MV normalize(Format f, const MV &v) {
	MV r = v;
	switch (v.t) {
	case MV::Null:
		if (f == BUNDLE) r = MV::str("");
		break;
	case MV::Uint:
		if (v.u <= (uint64_t)std::numeric_limits<int64_t>::max()) { r = MV::integer((int64_t)v.u); }
		break;
	case MV::Float:
		if (f == JSON && !std::isfinite(v.d)) r = MV();
		break;
	case MV::Bool:
		if (f == BUNDLE) r = MV::integer(v.b ? 1 : 0);
		break;
	case MV::List: for (auto &x : r.l) x = normalize(f, x); break;
	case MV::Map: for (auto &x : r.m) x.second = normalize(f, x.second); break;
	default: break;
	}
	return r;
}

// ---------------------------------------------------------------- generators
bool ambiguous_scalar(const string &s) {
	static bool init;
	static regex_t re;
	if (!init) {
		init = true;
		if (regcomp(&re, "^[[:space:]]*((~|null|Null|NULL)?|true|True|TRUE|false|False|FALSE|[-+]?[0-9]+|0o[0-7]+|0x[0-9a-fA-F]+"
		            "|[-+]?((\\.[0-9]+)|([0-9]+(\\.[0-9]*)?))([eE][-+]?[0-9]+)?|[-+]?\\.inf|\\.Inf|\\.INF|\\.nan|\\.Nan|\\.NAN)[[:space:]]*$", REG_EXTENDED | REG_NOSUB)) abort();
	}
	return regexec(&re, s.c_str(), 0, 0, 0) == 0;
}
string gen_bytes(size_t n) {
	string r;
	uint32_t mode = draw(4);
	for (size_t i = 0; i < n; ++i) {
		if (mode == 0) r += (char)('a' + i % 26);
		else if (mode == 1) r += (char)0;
		else if (n > 64 && i >= 64) r += r[i - 64] + (char)(i >> 6);
		else r += (char)draw(256);
	}
	return r;
}

static bool deep; // the last document has deep nesting
Gen::Gen(Format ff) : f(ff) {
	deep = false;
	alphabet = draw(6);
	max_depth = 1 + draw(5);
	uint32_t b = draw(10);
	budget = b < 5 ? 1 + draw(8) : b < 9 ? 1 + draw(40) : 1 + draw(250);
	blobs = ff != BUNDLE && chance(1, 2);
	floats = chance(2, 3);
	nonfinite = chance(1, 4);
	big = chance(1, 12);
}

static void utf8(string &r, uint32_t c) {
	if (c < 0x80) r += (char)c;
	else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
}

string Gen::text(bool key) {
	string r;
	size_t n;
	if (big && !key && chance(1, 6)) n = draw(9000);
	else n = key ? draw(8) : draw_size(120);
	if (n > 200) { // long runs: a short random unit repeated
		string unit;
		size_t u = 1 + draw(20);
		for (size_t i = 0; i < u; ++i) unit += (char)('a' + draw(26));
		while (r.size() < n) { r += unit; if (f != BUNDLE && draw(64) == 63) r += ' '; }
		r.resize(n);
		if (!r.empty() && r.back() == ' ') r.back() = 'x';
		return r;
	}
	if (f == BUNDLE) {
		for (size_t i = 0; i < n; ++i) {
			uint32_t c = draw(70);
			if (c < 26) r += (char)('a' + c);
			else if (c < 36) r += (char)('0' + c - 26);
			else if (c < 62) r += (char)('A' + c - 36);
			else r += key ? '.' : "._-/=,; "[c - 62];
		}
		if (!key) {
			while (!r.empty() && r[0] == ' ') r.erase(0, 1);
			while (!r.empty() && r.back() == ' ') r.pop_back();
		}
		return r;
	}
	for (size_t i = 0; i < n; ++i) {
		switch (alphabet) {
		case 0: case 1: r += (char)('a' + draw(26)); break;
		case 2: r += (char)(32 + draw(95)); break;
		case 3: { // awkward characters
			static const char a[] = "a\\\"'/\n\t\b\f\r<>&{}[]:,#|-?!%@`*~ .0u\x01\x1f\x7f";
			char c = a[draw(sizeof a - 1)];
			if (f == XML && (unsigned char)c < 32 && c != '\n' && c != '\t' && c != '\r') c = ' ';
			r += c;
			break;
		}
		case 4: {
			uint32_t k = draw(5);
			uint32_t c = k == 0 ? 'a' + draw(26) : k == 1 ? 0xa1 + draw(0x600) : k == 2 ? 0x4e00 + draw(0x2000) : k == 3 ? 0x1f300 + draw(0x300) : 0xe000 + draw(0x1000);
			utf8(r, c);
			break;
		}
		default: {
			static const char *const w[] = {"a", " ", "- ", ": ", "true", "null", "1", "0x1", "#", "---", "...", "\n", "key", "!!", "&a", "*a", "|", ">", "%", "\\u0041", "''", "\"\"", "<b>", "]]>", "&amp;", "<!--", "base64"};
			r += w[draw(sizeof w / sizeof *w)];
		}
		}
	}
	return r;
}
void Gen::odd_text(string &s) {
	static const char *const w[] = {"true", "null", "~", "", "1", "-1", "0x1f", "0o17", "1.5", ".5", "1e5", ".inf", "-.inf", ".nan", " 7", "7 ", "False", "+3", "1.", "=", "<<", "yes", "no", "!", "&", "*", "- a", "? a", "a: b", "#", " ", "\n", "\t", " a", "a ", "a\n", "\na", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xc2\x85", "\x7f", "]]>", "\r", "\r\n", "\\", "\"", "'"};
	uint32_t k = draw(12);
	if (k < 4) s = w[draw(sizeof w / sizeof *w)];
	else if (k == 4 && f != XML) {
		size_t at = draw(s.size() + 1);
		while (at < s.size() && ((unsigned char)s[at] & 0xc0) == 0x80) ++at;
		s.insert(at, 1, '\0');
	}
	else if (k == 5) s += w[draw(sizeof w / sizeof *w)];
	if (f == JSON && s.size() >= 5 && s.compare(0, 5, string("\0BLOB", 5)) == 0) s = "x"; // means binary data
}
string Gen::key() {
	string k = text(true);
	if (any_text) return k;
	if (f == BUNDLE) {
		while (k.empty() || k == "bundle.version") k = "k" + k;
	} else if (odd) {
		odd_text(k);
	} else if (f == YAML) {
		if (ambiguous_scalar(k) && !chance(1, 2)) k = "k" + k;
	}
	return k;
}
MV Gen::scalar() {
	for (;;) {
		switch (draw(8)) {
		case 0: return MV::integer((int64_t)draw(100) - 20);
		case 1: {
			string s = text(false);
			if (!any_text) {
				if (odd && f != BUNDLE) odd_text(s);
				else if (f == BUNDLE) { if (ambiguous_scalar(s)) s = "s" + s; }
				else if (f == YAML && chance(1, 12)) { // only the quotes make these strings
					static const char *const w[] = {"true", "null", "~", "", "1", "-1", "0x1f", "0o17", "1.5", ".5", "1e5", ".inf", "-.inf", ".nan", " 7", "7 ", "False", "+3", "1."};
					s = w[draw(sizeof w / sizeof *w)];
				}
			}
			return MV::str(s);
		}
		case 2: return MV::boolean(draw(2));
		case 3: return MV();
		case 4: {
			static const int64_t sp[] = {0, -1, 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 4294967295ll, -2147483649ll};
			if (chance(1, 2)) return MV::integer(sp[draw(sizeof sp / sizeof *sp)]);
			return MV::integer((int64_t)draw64());
		}
		case 5: {
			static const uint64_t sp[] = {0, 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX, UINT64_MAX - 1};
			if (chance(1, 2)) return MV::uinteger(sp[draw(sizeof sp / sizeof *sp)]);
			return MV::uinteger(draw64());
		}
		case 6: {
			if (!floats) continue;
			static const double sp[] = {0.0, 1.0, -1.0, 0.5, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.0, -0.0, 1e22, 0.30000000000000004};
			uint32_t k = draw(4);
			if (k < 2) return MV::real(sp[draw(sizeof sp / sizeof *sp)]);
			if (k == 2 && nonfinite && f != BUNDLE) {
				uint32_t q = draw(3);
				return MV::real(q == 0 ? INFINITY : q == 1 ? -INFINITY : NAN);
			}
			uint64_t x = draw64();
			double d;
			memcpy(&d, &x, 8);
			if (!std::isfinite(d)) d = 2.5;
			return MV::real(d);
		}
		default:
			if (!blobs) continue;
			// an empty data element is refused by the XML reader
			return MV::blob(gen_bytes(big && chance(1, 4) ? 1 + draw(9000) : draw_size(300) + (f == XML && !any_text)));
		}
	}
}
MV Gen::value(int depth) {
	if (budget) --budget;
	if (depth >= max_depth || !budget || chance(1, 2)) return scalar();
	MV r(draw(2) ? MV::Map : MV::List);
	uint32_t n = draw(6);
	for (uint32_t i = 0; i < n && budget; ++i) {
		MV e = value(depth + 1);
		if (r.t == MV::List) r.l.push_back(e);
		else r.m[key()] = e;
	}
	return r;
}
MV Gen::root() {
	if (f == BUNDLE) {
		MV r(MV::Map);
		uint32_t n = draw(8);
		if (big) n += draw(300);
		for (uint32_t i = 0; i < n; ++i) {
			string k = key();
			if (chance(1, 4)) {
				MV l(MV::List);
				uint32_t m = draw(6);
				for (uint32_t j = 0; j < m; ++j) {
					MV e = scalar();
					if (e.t == MV::Null || e.t == MV::Blob || (e.t == MV::Str && e.s.empty())) e = MV::integer(j);
					l.l.push_back(e);
				}
				r.m[k] = l;
			} else r.m[k] = scalar();
		}
		return r;
	}
	MV r(draw(2) ? MV::Map : MV::List);
	uint32_t n = draw(8);
	if (big && chance(1, 2)) { n += draw(400); budget += 800; }
	for (uint32_t i = 0; i < n; ++i) {
		MV e = value(1);
		if (r.t == MV::List) r.l.push_back(e);
		else r.m[key()] = e;
	}
	if (f != JSON && chance(1, 12)) return scalar();
	if (chance(1, 60)) { // deep inside
		uint32_t d = 5 + draw(f == XML ? 100 : 180), k = draw(4);
		MV e = scalar();
		for (uint32_t i = 0; i < d; ++i) {
			MV c(k == 0 || (k == 1 && i % 2) || (k == 2 && i % 7) ? MV::List : MV::Map);
			if (c.t == MV::List) c.l.push_back(e);
			else c.m["k"] = e;
			if (k == 3 && i % 10 == 0) c.m["l"] = MV::integer(i);
			e = c;
		}
		if (r.t == MV::List) r.l.push_back(e);
		else r.m[key()] = e;
		deep = d > 45;
	}
	if (f == YAML && n && chance(1, 4)) { // something twice, to be written as an alias
		MV e = r.t == MV::List ? r.l[draw(r.l.size())] : std::next(r.m.begin(), draw(r.m.size()))->second;
		if (r.t == MV::List) r.l.push_back(e);
		else r.m[key()] = e;
	}
	return r;
}

// ---------------------------------------------------------------- renderers
static string ws(bool nl) {
	string r;
	uint32_t n = draw(4) == 0 ? draw(4) : 0;
	for (uint32_t i = 0; i < n; ++i) r += nl ? " \n\t "[draw(4)] : ' ';
	return r;
}
static string num(const MV &v) {
	if (v.t == MV::Int) return std::to_string(v.i);
	if (v.t == MV::Uint) return std::to_string(v.u);
	string s = fmt("%.17g", v.d);
	if (s.find_first_of(".en") == string::npos) s += ".0";
	return s;
}
static string b64(const string &d) {
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	string r;
	for (size_t i = 0; i < d.size(); i += 3) {
		uint32_t x = (unsigned char)d[i] << 16;
		if (i + 1 < d.size()) x |= (unsigned char)d[i + 1] << 8;
		if (i + 2 < d.size()) x |= (unsigned char)d[i + 2];
		r += t[x >> 18]; r += t[x >> 12 & 63];
		r += i + 1 < d.size() ? t[x >> 6 & 63] : '=';
		r += i + 2 < d.size() ? t[x & 63] : '=';
	}
	return r;
}
static string jstring(const string &s, bool yaml) {
	if (yaml && draw(4) == 3) { // in single quotes
		bool plain = true;
		string r = "'";
		for (unsigned char c : s) { if (c < 32 || c >= 127) plain = false; if (c == '\'') r += c; r += c; }
		if (plain) return r + "'";
	}
	if (yaml && draw(16) == 15) { // a tag
		bool plain = !s.empty();
		for (unsigned char c : s) if (!isalnum(c) && c != '.') plain = false;
		if (plain && s[0] != '.') return "!!str " + s;
	}
	string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c == 127) r += fmt(yaml ? "\\x%02x" : "\\u%04x", c);
		else if (!yaml && c == '/' && draw(4) == 3) r += "\\/";
		else if (!yaml && c < 128 && draw(32) == 31) r += fmt("\\u%04X", c);
		else if (!yaml && c >= 0xc2 && draw(8) == 7) { // escaped, with surrogates if needed
			int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
			uint32_t u = c & (0x3f >> n);
			while (n-- && i + 1 < s.size()) u = u << 6 | ((unsigned char)s[++i] & 63);
			if (u >= 0x10000) r += fmt("\\u%04x\\u%04X", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 0x3ff));
			else r += fmt("\\u%04x", u);
		}
		else r += (char)c;
	}
	return r + "\"";
}
static std::vector<const MV *> *anchored; // values named so far in this document, if any are
static void render_json(string &o, const MV &v, bool yaml);
static void render_item(string &o, const MV &v, bool yaml) {
	if (!yaml || !anchored) { render_json(o, v, yaml); return; }
	for (size_t i = 0; i < anchored->size(); ++i)
		if (same(*(*anchored)[i], v) && chance(2, 3)) { o += fmt("*a%zu ", i); return; }
	if (!chance(1, 6)) { render_json(o, v, yaml); return; }
	size_t n = anchored->size();
	anchored->push_back(0); // not complete: nothing is the same as it
	static const MV none(MV::Bad);
	anchored->back() = &none;
	o += fmt("&a%zu ", n);
	render_json(o, v, yaml);
	(*anchored)[n] = &v;
}
static void render_json(string &o, const MV &v, bool yaml) {
	switch (v.t) {
	case MV::Null: o += "null"; break;
	case MV::Bool: o += v.b ? "true" : "false"; break;
	case MV::Int: case MV::Uint: o += num(v); break;
	case MV::Float:
		if (std::isfinite(v.d)) o += num(v);
		else if (yaml) o += v.d != v.d ? ".nan" : v.d > 0 ? ".inf" : "-.inf";
		else o += "null";
		break;
	case MV::Str: o += jstring(v.s, yaml); break;
	case MV::Blob:
		if (yaml) o += "!!binary \"" + b64(v.s) + "\"";
		else o += "\"\\u0000BLOB" + b64(v.s) + "\"";
		break;
	case MV::List:
		o += "[";
		for (size_t i = 0; i < v.l.size(); ++i) { if (i) o += ","; o += ws(!yaml); if (yaml) o += " "; render_item(o, v.l[i], yaml); o += ws(!yaml); }
		o += "]";
		break;
	case MV::Map: {
		o += "{";
		bool first = true;
		for (auto &x : v.m) {
			if (!first) o += ",";
			if (yaml) o += " ";
			first = false;
			o += ws(!yaml) + jstring(x.first, yaml) + ws(false) + ":" + (yaml ? " " : ws(!yaml));
			render_item(o, x.second, yaml);
			o += ws(!yaml);
		}
		o += "}";
		break;
	}
	default: break;
	}
}
static string xesc(const string &s) {
	string r;
	for (unsigned char c : s) {
		if (c == '<') r += "&lt;";
		else if (c == '>') r += "&gt;";
		else if (c == '&') r += "&amp;";
		else if (c == '\r') r += "&#13;";
		else if (c < 128 && draw(64) == 63) r += fmt(c & 1 ? "&#%d;" : "&#x%x;", c);
		else r += (char)c;
	}
	return r;
}
static void render_xml(string &o, const MV &v) {
	switch (v.t) {
	case MV::Null: o += draw(2) ? "<null/>" : "<null></null>"; break;
	case MV::Bool: {
		string n = v.b ? "true" : "false";
		o += draw(4) < 3 ? "<" + n + "/>" : "<" + n + ">" + ws(true) + "</" + n + ">";
		break;
	}
	case MV::Int: case MV::Uint: o += "<integer>" + ws(true) + num(v) + ws(true) + "</integer>"; break;
	case MV::Float: o += "<real>" + ws(true) + num(v) + ws(true) + "</real>"; break;
	case MV::Str:
		o += "<string>";
		switch (draw(12)) {
		case 11: { // the same text as several nodes
			size_t c = draw(v.s.size() + 1);
			while (c < v.s.size() && ((unsigned char)v.s[c] & 0xc0) == 0x80) ++c;
			o += xesc(v.s.substr(0, c)) + "<!-- c -->" + xesc(v.s.substr(c));
			break;
		}
		case 10:
			if (v.s.find("]]>") == string::npos && v.s.find('\r') == string::npos) { o += "<![CDATA[" + v.s + "]]>"; break; }
			// fall through
		default: o += xesc(v.s);
		}
		o += "</string>";
		break;
	case MV::Blob: o += "<data>" + b64(v.s) + "</data>"; break;
	case MV::List:
		if (v.l.empty() && draw(2)) { o += "<array/>"; break; }
		o += "<array>" + ws(true);
		for (auto &x : v.l) { render_xml(o, x); o += ws(true); }
		o += "</array>";
		break;
	case MV::Map:
		if (v.m.empty() && draw(2)) { o += "<dict/>"; break; }
		o += "<dict>" + ws(true);
		for (auto &x : v.m) { o += "<key>" + xesc(x.first) + "</key>" + ws(true); render_xml(o, x.second); o += ws(true); if (draw(16) == 15) o += "<!-- c -->"; }
		o += "</dict>";
		break;
	default: break;
	}
}
string render(Format f, const MV &v, bool anchors) {
	string o;
	std::vector<const MV *> names;
	anchored = f == YAML && anchors && chance(1, 2) ? &names : 0;
	switch (f) {
	case JSON: o = ws(true); render_json(o, v, false); o += ws(true); break;
	case YAML:
		if (chance(1, 3)) o = "---\n";
		if (v.t == MV::Map && !v.m.empty() && chance(1, 2)) { // block style at the top
			for (auto &x : v.m) { o += jstring(x.first, true) + ": "; render_item(o, x.second, true); o += chance(1, 8) ? " # comment\n" : "\n"; }
		} else if (v.t == MV::List && !v.l.empty() && chance(1, 2)) {
			for (auto &x : v.l) { o += "- "; render_item(o, x, true); o += "\n"; }
		} else { render_json(o, v, true); o += "\n"; }
		if (chance(1, 4)) o += "...\n";
		break;
	case XML:
		if (chance(1, 2)) o = "<?xml version=\"1.0\"?>\n";
		o += "<plist>" + ws(true);
		render_xml(o, v);
		o += ws(true) + "</plist>";
		if (chance(1, 2)) o += "\n";
		break;
	default:
		if (chance(1, 2) || v.m.empty()) o = "bundle.version: 1.0\n";
		for (auto &x : v.m) {
			if (chance(1, 12)) o += "# comment\n";
			if (chance(1, 12)) o += "\n";
			o += ws(false) + x.first + ws(false) + ":" + ws(false);
			auto sc = [&](const MV &e) {
				switch (e.t) {
				case MV::Null: break;
				case MV::Bool: o += e.b ? "1" : "0"; break;
				case MV::Str: o += e.s; break;
				default: o += num(e);
				}
			};
			if (x.second.t == MV::List) { for (auto &e : x.second.l) { sc(e); o += "|"; } if (x.second.l.empty()) o += "|"; }
			else sc(x.second);
			o += "\n";
		}
	}
	return o;
}

Variant gen_params(Format f, string *desc) {
	Variant p;
	string d;
	auto setb = [&](const char *k, bool v) { Lib l; p[string(k)] = v; d += fmt("%s=%d ", k, v); };
	auto seti = [&](const char *k, int v) { Lib l; p[string(k)] = v; d += fmt("%s=%d ", k, v); };
	auto sets = [&](const char *k, const char *v) { Lib l; p[string(k)] = v; d += fmt("%s=%s ", k, v); };
	switch (f) {
	case JSON: case XML:
		if (chance(1, 3)) setb("pretty", true);
		if (chance(1, 6)) seti("indent", deep ? draw(3) : draw(2) ? draw(9) : draw(chance(1, 4) ? 300 : 20));
		break;
	case YAML: {
		static const char *const st[] = {"any", "block", "flow"};
		if (chance(1, 3)) sets("map_style", st[draw(3)]);
		if (chance(1, 3)) sets("list_style", st[draw(3)]);
		if (chance(1, 4)) setb("implicit_document_begin", true);
		if (chance(1, 4)) setb("implicit_document_end", true);
		if (chance(1, 6)) seti("indent", 2 + draw(8));
		if (chance(1, 6)) seti("width", 20 + draw(200));
		break;
	}
	default: break;
	}
	if (desc) *desc = d;
	return p;
}
}
