// C14: a schema that could not be loaded never validates anything.
#include "world.h"
#include "main.h"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <errno.h>
#include <functional>
#include <set>
using namespace sim;
using namespace libvariant;
using std::string;
using std::vector;

// ---------------------------------------------------------------- the world of schemas
enum LocState { OK, ABSENT, DENIED, BROKEN, CUT, SCALAR, EMPTY, LIST, MALFORMED, HTTP_ERROR, THROWS, NSTATES };
static const char *const state_names[] = {"ok", "absent", "refused", "breaks off", "cut", "scalar", "empty", "list", "malformed", "http error", "throws"};
struct Loc {
	string where;              // "file:/path", "net:url", "handler:uri"
	LocState st = OK;
	int version = 1;
	uint64_t detail = 0;       // chosen when the state is set
	ReadPlan plan;
};
enum Pos { ALL_OF, PROPERTY, ITEMS, TUPLE, MORE_ITEMS, PATTERN, MORE_PROPERTIES, DEPENDENCY, ANY_OF, ONE_OF, NOT, NPOS };
static const char *const pos_names[] = {"allOf", "property", "items", "tuple", "additionalItems", "pattern", "additionalProperties", "dependency", "anyOf", "oneOf", "not"};
enum Part { WHOLE, POINTER, NAMED }; // the document, a part of it by its place, a part by its own name
struct Edge { Pos pos; unsigned to; Part part; string ref; };
struct Res {
	int kind;                  // 0 URL, 1 absolute file, 2 file URL, 3 searched for
	string addr, key = "d";    // the address, the name of the part
	int id = 0;                // 0 none, 1 states its own address, 2 states another one, to which its references are relative
	bool named = false;        // the part has a name
	vector<Edge> edges;
	vector<Loc> locs;
	int loaded = 0;            // version in the loader, 0: not loaded
	int over = 0;              // version in the loader in front of it
};
struct World {
	vector<Res> res;
	vector<string> paths;
	bool handler = false, wrapped = false;
	bool net_down = false;
};
static World *w;

// ---------------------------------------------------------------- contents
static string js(const string &s) { return "\"" + s + "\""; }
static string json_text(const MV &v) {
	string s;
	switch (v.t) {
	case MV::Null: return "null";
	case MV::Bool: return v.b ? "true" : "false";
	case MV::Int: return fmt("%lld", (long long)v.i);
	case MV::Str: return js(v.s);
	case MV::List: for (auto &x : v.l) s += (s.empty() ? "" : ", ") + json_text(x); return "[" + s + "]";
	case MV::Map: for (auto &x : v.m) s += (s.empty() ? "" : ", ") + js(x.first) + ": " + json_text(x.second); return "{" + s + "}";
	default: return "0";
	}
}
static MV requires_field(const string &f, int version) {
	MV s(MV::Map), e(MV::Map), p(MV::Map), r(MV::List);
	r.l.push_back(MV::str(f));
	s.m["required"] = r;
	e.m["enum"] = MV(MV::List);
	e.m["enum"].l.push_back(MV::integer(version));
	p.m[f] = e;
	s.m["properties"] = p;
	return s;
}
static MV ref_to(const Edge &e) { MV r(MV::Map); r.m["$ref"] = MV::str(e.ref); return r; }
static MV wrap(const char *k, const MV &v) { MV m(MV::Map); m.m[k] = v; return m; }
static MV listed(const MV &v) { MV l(MV::List); l.l.push_back(v); return l; }
static MV content(unsigned i, int version) {
	const Res &r = w->res[i];
	MV s = requires_field(fmt("f%u", i), version);
	MV part = requires_field(fmt("g%u", i), version);
	if (r.named) part.m["id"] = MV::str("#named");
	s.m["definitions"] = wrap(r.key.c_str(), part);
	if (r.id == 1) s.m["id"] = MV::str(r.kind == 3 ? r.addr.substr(r.addr.rfind('/') + 1) : r.addr);
	if (r.id == 2) s.m["id"] = MV::str("http://sim/other/x.json");
	for (auto &e : r.edges) {
		MV ref = ref_to(e), no = wrap("required", listed(MV::str("nope")));
		string n = fmt("%u", e.to);
		MV &props = s.m["properties"];
		auto into = [&](const char *k) { MV &l = s.m[k]; l.t = MV::List; l.l.push_back(ref); };
		switch (e.pos) {
		case ALL_OF: into("allOf"); break;
		case PROPERTY: props.m["p" + n] = ref; break;
		case ITEMS: props.m["l" + n] = wrap("items", ref); break;
		case TUPLE: props.m["l" + n] = wrap("items", listed(ref)); break;
		case MORE_ITEMS: props.m["l" + n] = wrap("items", listed(MV(MV::Map))); props.m["l" + n].m["additionalItems"] = ref; break;
		case PATTERN: s.m["patternProperties"].t = MV::Map; s.m["patternProperties"].m["^q" + n] = ref; break;
		case MORE_PROPERTIES: props.m["s" + n] = wrap("additionalProperties", ref); break;
		case DEPENDENCY: s.m["dependencies"].t = MV::Map; s.m["dependencies"].m["p" + n] = ref; break;
		case ANY_OF: { MV l = listed(e.to % 2 ? ref : no); l.l.push_back(l.l[0].m.count("$ref") ? no : ref); MV a = wrap("anyOf", l); s.m["allOf"].t = MV::List; s.m["allOf"].l.push_back(a); break; }
		case ONE_OF: { MV l = listed(ref); l.l.push_back(no); s.m["allOf"].t = MV::List; s.m["allOf"].l.push_back(wrap("oneOf", l)); break; }
		default: s.m["allOf"].t = MV::List; s.m["allOf"].l.push_back(wrap("not", ref)); break;
		}
	}
	return s;
}
static void set_state(Loc &l, LocState st) {
	l.st = st;
	l.detail = draw(1000000);
	l.plan = draw_read_plan(300, true);
}
static LocState draw_state(const Loc &l) {
	if (chance(3, 5)) return OK;
	LocState s;
	do s = (LocState)(1 + draw(NSTATES - 1));
	while ((l.where[0] == 'h') != (s == THROWS) && s != ABSENT || (s == HTTP_ERROR && l.where[0] != 'n'));
	return s;
}
static string text_of(unsigned i, const Loc &l) {
	MV c = content(i, l.version);
	if (l.detail % 5 == 0 && l.st == OK) return render(XML, c);
	string t = json_text(c);
	if (l.detail % 5 == 2 && (l.st == OK || l.st == BROKEN)) { // text of which every beginning can be a schema
		t.clear();
		for (auto &x : c.m) t += js(x.first) + ": " + json_text(x.second) + "\n";
	}
	if (l.detail % 5 == 1 && l.st == OK) t = "# a comment\n" + t + "\n";
	return t;
}
static void install() {
	disk.files.clear(); disk.plans.clear(); net.replies.clear();
	for (unsigned i = 0; i < w->res.size(); ++i)
		for (auto &l : w->res[i].locs) {
			string text = text_of(i, l);
			switch (l.st) {
			case SCALAR: text = "not found"; break;
			case EMPTY: text = l.detail % 2 ? "" : "\n\n"; break;
			case LIST: text = "[" + text + "]"; break;
			case MALFORMED: text = l.detail % 2 ? "{\"required\": ]" : "<plist><dict><key>"; break;
			case HTTP_ERROR: text = l.detail % 3 == 0 ? "{}" : l.detail % 3 == 1 ? text : "<html>no</html>"; break;
			default: break;
			}
			size_t cut = text.empty() ? 0 : l.detail % text.size();
			if (l.st == BROKEN && l.detail / 5 % 3 == 0 && (l.where[0] == 'n' || l.detail % 5 == 2)) cut = text.size(); // broken at the very end
			if (l.where[0] == 'f') {
				string p = l.where.substr(5);
				DiskPlan d;
				d.read = l.plan;
				if (l.st == ABSENT) continue;
				if (l.st == DENIED) d.open_errno = l.detail % 2 ? EACCES : EMFILE;
				if (l.st == BROKEN) d.read.fail_at = cut;
				if (l.st == CUT) text.resize(cut);
				disk.files[p] = text;
				disk.plans[p] = d;
			} else if (l.where[0] == 'n') {
				NetReply n;
				n.body = text;
				n.chunks = l.plan;
				if (l.st == ABSENT) continue;
				if (l.st == DENIED) n.curl_code = l.detail % 2 ? 28 : 35;
				if (l.st == BROKEN) { n.cut_at = cut; n.curl_code = l.detail % 2 ? 18 : 56; }
				if (l.st == CUT) n.body.resize(cut);
				if (l.st == HTTP_ERROR) n.status = l.detail % 2 ? 404 : 500;
				net.replies[l.where.substr(4)] = n;
			}
		}
}
static bool handler(SchemaLoader *loader, const std::string &uri, SchemaLoader::LoaderError &, void *) {
	Loc *l = 0;
	MV c;
	{
		Out o;
		fetch_log.push_back("handler:" + uri);
		for (unsigned i = 0; i < w->res.size(); ++i)
			for (auto &x : w->res[i].locs) if (x.where == "handler:" + uri) { l = &x; c = content(i, x.version); }
		if (!l || l->st == ABSENT) return false;
	}
	if (l->st == THROWS) { fault(F_callback_throw); throw InjectedError("missing-schema handler"); }
	loader->AddSchema(uri, build(c));
	return true;
}
// The locations that are tried for a schema now, up to the first that works.
static bool tries(const Res &r, vector<string> &seq, int *version) {
	seq.clear();
	for (auto &l : r.locs) {
		if (l.where[0] == 'n' && w->net_down) continue;
		seq.push_back(l.where);
		if (l.st == OK) { *version = l.version; return true; }
		if (l.st == THROWS) return false;
	}
	return false;
}
static int version_of(const Res &r) { // 0: cannot be had
	if (r.over) return r.over;
	if (r.loaded) return r.loaded;
	vector<string> s;
	int v = 0;
	return tries(r, s, &v) ? v : 0;
}

// ---------------------------------------------------------------- reference verdict
enum Verdict { NO, UNKNOWN, YES };
static Verdict both(Verdict a, Verdict b) { return a < b ? a : b; }
static Verdict field(const MV &d, const string &f, int version) {
	if (d.t != MV::Map) return YES;
	auto i = d.m.find(f);
	return i != d.m.end() && i->second.t == MV::Int && i->second.i == version ? YES : NO;
}
static Verdict judge(unsigned i, int part, const MV &d, bool &unknown) {
	const Res &r = w->res[i];
	int v = version_of(r);
	if (!v) { unknown = true; return UNKNOWN; }
	if (part) return field(d, fmt("g%u", i), v);
	Verdict res = field(d, fmt("f%u", i), v);
	for (auto &e : r.edges) {
		string n = fmt("%u", e.to);
		auto at = [&](const string &k) -> const MV * { if (d.t != MV::Map) return 0; auto x = d.m.find(k); return x == d.m.end() ? 0 : &x->second; };
		const MV *x;
		switch (e.pos) {
		case ALL_OF: case ANY_OF: case ONE_OF: res = both(res, judge(e.to, e.part, d, unknown)); break;
		case NOT: { Verdict q = judge(e.to, e.part, d, unknown); res = both(res, q == YES ? NO : q == NO ? YES : UNKNOWN); break; }
		case PROPERTY: if ((x = at("p" + n))) res = both(res, judge(e.to, e.part, *x, unknown)); break;
		case DEPENDENCY: if (at("p" + n)) res = both(res, judge(e.to, e.part, d, unknown)); break;
		case PATTERN: if ((x = at("q" + n))) res = both(res, judge(e.to, e.part, *x, unknown)); break;
		case MORE_PROPERTIES: if ((x = at("s" + n)) && x->t == MV::Map) for (auto &y : x->m) res = both(res, judge(e.to, e.part, y.second, unknown)); break;
		default:
			if ((x = at("l" + n)) && x->t == MV::List)
				for (size_t k = 0; k < x->l.size(); ++k)
					if (e.pos == ITEMS || (e.pos == TUPLE && k == 0) || (e.pos == MORE_ITEMS && k > 0)) res = both(res, judge(e.to, e.part, x->l[k], unknown));
		}
	}
	return res;
}

// ---------------------------------------------------------------- generators
static string uri_text(const string &s) {
	string r;
	for (char c : s) {
		if (c == ' ' || c == '%' || (unsigned char)c > 127 || chance(1, 10)) r += fmt(draw(2) ? "%%%02x" : "%%%02X", (unsigned char)c);
		else r += c;
	}
	return r;
}
static string fragment(const Res &r, Part p) {
	if (p == NAMED) return "#named";
	if (p == WHOLE) return chance(1, 6) ? "#" : "";
	string k;
	for (char c : r.key) k += c == '~' ? "~0" : c == '/' ? "~1" : string(1, c);
	return "#" + uri_text("/definitions/" + k);
}
static Part draw_part(const Res &r, unsigned n) {
	if (!chance(1, n)) return WHOLE;
	return r.named && draw(2) ? NAMED : POINTER;
}
static void make_world() {
	unsigned n = 1 + draw(5);
	unsigned np = draw(4);
	for (unsigned i = 0; i < np; ++i) w->paths.push_back(fmt("/sim/path%u", i));
	w->handler = chance(1, 4);
	w->wrapped = chance(1, 4);
	w->res.resize(n);
	for (unsigned i = 0; i < n; ++i) {
		Res &r = w->res[i];
		r.kind = draw(4);
		auto loc = [&](const string &s) { Loc l; l.where = s; l.version = 1 + draw(3); r.locs.push_back(l); set_state(r.locs.back(), draw_state(l)); };
		switch (r.kind) {
		case 0: r.addr = fmt("http://sim/dir/h%u.json%s", i, chance(1, 5) ? "?q=1" : ""); loc("net:" + r.addr); break;
		case 1: r.addr = fmt("/sim/dir/a%u.json", i); loc("file:" + r.addr); break;
		case 2: r.addr = fmt("file:///sim/dir/u%u.json", i); loc("file:" + r.addr.substr(7)); break;
		default:
			r.addr = chance(1, 3) ? fmt("sub/r%u.json", i) : fmt("r%u.json", i);
			for (auto &p : w->paths) loc("file:" + p + "/" + r.addr);
			loc("net:" + r.addr);
		}
		if (w->handler) loc("handler:" + r.addr);
		static const char *const keys[] = {"d", "a b", "x/y", "m~n", "p%q", "~1", "%41", "0", "\xc3\xa9"};
		if (chance(1, 3)) r.key = keys[draw(9)];
		if (chance(1, 3)) r.id = 1 + (r.kind == 0 && draw(2));
		r.named = r.id != 2 && chance(1, 3);
	}
	for (unsigned i = 0; i < n; ++i) {
		unsigned k = draw(4);
		std::set<string> used;
		for (unsigned j = 0; j < k; ++j) {
			Edge e;
			e.pos = (Pos)draw(NPOS);
			bool self = i + 1 == n || chance(1, 10);
			e.to = self ? i : i + 1 + draw(n - i - 1);
			if (self && w->res[i].id == 2) continue;
			e.part = self ? w->res[i].named && draw(2) ? NAMED : POINTER : draw_part(w->res[e.to], 4);
			// one schema per element
			string slot = e.pos == ITEMS || e.pos == TUPLE || e.pos == MORE_ITEMS ? fmt("l%u", e.to) : fmt("%d %u", e.pos, e.to);
			if (!used.insert(slot).second) continue;
			const Res &a = w->res[i], &b = w->res[e.to];
			e.ref = b.addr;
			// an address without scheme means another thing in a document that has one
			if (b.kind == 1 && a.kind != 1 && a.kind != 3) continue;
			if (b.kind == 3) {
				if (a.kind != 3) continue;
				bool sa = a.addr[0] == 's', sb = b.addr[0] == 's';
				if (sa) e.ref = sb && draw(2) ? b.addr.substr(4) : "../" + b.addr;
			}
			if (self) e.ref = "";
			else if (a.kind == b.kind && a.kind != 3 && chance(1, 2)) {
				string name = b.addr.substr(b.addr.find("/dir/") + 5);
				static const char *const pre[] = {"", "./", "../dir/", "x/../"};
				e.ref = pre[a.id == 2 ? 2 : draw(4)] + name;
			}
			e.ref += fragment(b, e.part);
			w->res[i].edges.push_back(e);
		}
	}
}
static MV gen_fields(int depth, unsigned &budget) {
	MV d(MV::Map);
	for (unsigned i = 0; i < w->res.size(); ++i) {
		int v = version_of(w->res[i]);
		if (!v) v = 1;
		d.m[fmt("f%u", i)] = MV::integer(chance(1, 40) ? v + 1 : v);
		d.m[fmt("g%u", i)] = MV::integer(chance(1, 40) ? v + 1 : v);
		if (chance(1, 30)) d.m.erase(fmt("f%u", i));
	}
	if (depth && budget)
		for (auto &r : w->res)
			for (auto &e : r.edges) {
				if (!budget || chance(1, 3)) continue;
				string n = fmt("%u", e.to);
				--budget;
				switch (e.pos) {
				case PROPERTY: case DEPENDENCY: d.m["p" + n] = gen_fields(depth - 1, budget); break;
				case PATTERN: d.m["q" + n] = gen_fields(depth - 1, budget); break;
				case MORE_PROPERTIES: d.m["s" + n] = wrap("z", gen_fields(depth - 1, budget)); break;
				case ITEMS: case TUPLE: case MORE_ITEMS: { MV l(MV::List); l.l.push_back(gen_fields(depth - 1, budget)); if (draw(2)) l.l.push_back(gen_fields(depth - 1, budget)); d.m["l" + n] = l; break; }
				default: ++budget; break;
				}
			}
	return d;
}
static string spelling(const Res &r, Part part) {
	string u = r.addr;
	if (r.kind != 3 && chance(1, 4)) { size_t p = u.find("/dir/"); u = u.substr(0, p) + (draw(2) ? "/dir/../dir/" : "/./dir/") + u.substr(p + 5); }
	if (r.kind == 3 && chance(1, 6)) u = "x/../" + u;
	return u + fragment(r, part);
}

// ---------------------------------------------------------------- the history
static void check_fetches(const string &what) {
	std::set<string> known;
	for (auto &r : w->res) {
		std::set<string> mine;
		for (auto &l : r.locs) { mine.insert(l.where); known.insert(l.where); }
		vector<string> seen, want;
		for (auto &f : fetch_log) if (mine.count(f) && !(f[0] == 'n' && w->net_down) && (seen.empty() || seen.back() != f)) seen.push_back(f);
		if (seen.empty()) continue;
		auto text = [](const vector<string> &v) { string s; for (auto &x : v) s += " " + x; return s; };
		if (r.over || r.loaded) violate("fetched-again", "%s: %s was loaded before and is fetched again:%s", what.c_str(), r.addr.c_str(), text(seen).c_str());
		int v = 0;
		bool works = tries(r, want, &v);
		vector<string> dedup;
		for (auto &f : want) if (dedup.empty() || dedup.back() != f) dedup.push_back(f);
		bool good = !dedup.empty();
		if (works) good = seen == dedup;
		else {
			// the failed search may be repeated
			if (dedup.size() == 1) good = seen.size() == 1 && seen == dedup;
			else if (good) { good = seen.size() % dedup.size() == 0; for (size_t i = 0; good && i < seen.size(); ++i) good = seen[i] == dedup[i % dedup.size()]; }
		}
		if (!good) violate("search-order", "%s: %s is looked for at%s, expected%s", what.c_str(), r.addr.c_str(), text(seen).c_str(), text(dedup).c_str());
		if (works) { r.loaded = v; probe("loaded"); }
		else probe("load failed");
	}
	for (auto &f : fetch_log) if (!known.count(f)) violate("strange-fetch", "%s: unexpected fetch of %s", what.c_str(), f.c_str());
}
static void run() {
	World world;
	w = &world;
	make_world();
	std::unique_ptr<AdvSchemaLoader> adv;
	std::unique_ptr<SchemaLoader> outer;
	{
		Lib l;
		adv.reset(new AdvSchemaLoader);
		for (auto &p : w->paths) adv->AddPath(p);
		if (w->handler) adv->SetMissingHandler(handler, 0);
		if (w->wrapped) outer.reset(new SchemaLoader(adv.get()));
	}
	SchemaLoader *loader = outer ? outer.get() : adv.get();
	for (auto &r : w->res) {
		string e;
		for (auto &x : r.edges) e += fmt(" %s->%s", pos_names[x.pos], x.ref.c_str());
		ev("schema %s:%s", r.addr.c_str(), e.c_str());
	}
	// Everything can be loaded, but memory may run out while it is: nothing that
	// is left behind may change later verdicts.
	bool tight = chance(1, 5);
	if (tight) for (auto &r : w->res) for (auto &l : r.locs) { l.version = 1; l.st = OK; }
	unsigned n = 1 + draw(8);
	unsigned accepted = 0, failed = 0, unknowns = 0, starved = 0;
	for (unsigned k = 0; k < n; ++k) {
		// the environment changes
		if (k && !tight) for (unsigned m = draw(4); m; --m) {
			Res &r = w->res[draw(w->res.size())];
			Loc &l = r.locs[draw(r.locs.size())];
			if (draw(2)) l.version = 1 + draw(3);
			set_state(l, draw_state(l));
		}
		net.init_fails = !tight && chance(1, 20);
		net.setopt_fails = !tight && chance(1, 20) ? 1 + draw(3) : 0;
		w->net_down = net.init_fails || net.setopt_fails;
		install();
		fetch_log.clear();
		for (auto &r : w->res) for (auto &l : r.locs) ev("  %s %s v%d", l.where.c_str(), state_names[l.st], l.version);
		unsigned op = draw(12);
		uint64_t fired = 0;
		bool starve = tight && chance(1, 2);
		AllocPlan plan;
		if (starve && draw(4) == 3) op = 1;
		if (starve) { plan.fail_at = op == 1 ? draw(150) : draw(1u << (4 + draw(8))); plan.repeat = 1 + draw(3); plan.persistent = chance(1, 6); }
		// perform, with memory running out if that is planned
		auto attempt = [&](std::function<void(MV &)> f) {
			if (starve) alloc_arm(plan);
			Outcome o = capture(f);
			if (starve) { alloc_disarm(); fired = alloc_fired(); if (fired) { ++starved; probe(o.ok ? "memory ran out, no exception" : "memory ran out"); } }
			return o;
		};
		unsigned i = draw(3) ? 0 : draw(w->res.size());
		Res &r = w->res[i];
		if (op == 0) {
			bool front = outer && draw(2);
			ev("forget %s%s", r.addr.c_str(), front ? " in front" : "");
			set_op("forget");
			Lib l;
			SchemaLoader *from = front ? outer.get() : adv.get();
			from->ForgetSchema(r.addr);
			if (r.named) from->ForgetSchema(r.addr + "#named");
			(front ? r.over : r.loaded) = 0;
			continue;
		}
		bool again = false;
		bool front = op == 1 && outer && draw(2);
		if (op == 1 && !(front ? r.over : r.loaded)) {
			int v = tight ? 1 : 1 + draw(3);
			ev("add %s v%d%s", r.addr.c_str(), v, front ? " in front" : "");
			MV c = content(i, v);
			set_op("add");
			Variant *schema;
			{ Lib l; schema = new Variant(build(c)); }
			Outcome o = attempt([&](MV &) { (front ? outer.get() : adv.get())->AddSchema(r.addr, *schema); });
			{ Lib l; delete schema; }
			if (!o.ok && !fired) violate("add-failed", "adding a schema fails: %s", show(o).c_str());
			if (!o.ok) { starve = false; fired = 0; op = 2 + draw(2); again = true; goto use; } // what is left of it must not matter
			if (front && r.loaded) probe("schema hidden by one in front");
			(front ? r.over : r.loaded) = v;
			continue;
		}
		use:
		Part part = again && r.named && draw(2) ? NAMED : draw_part(r, 6);
		string uri = spelling(r, part);
		if (op == 2) {
			int v = version_of(r);
			ev("get %s, expected version %d", uri.c_str(), v);
			set_op("get");
			Outcome o = attempt([&](MV &m) { m = to_model(loader->GetSchema(uri)); });
			ev("-> %s", show(o).c_str());
			bool got = o.ok && o.v.t == MV::Map;
			if (got && !v) violate("got-missing", "schema %s could not be loaded but %s is returned", uri.c_str(), show(o.v).c_str());
			if (v && !got && !fired) violate("not-got", "schema %s is not returned: %s", uri.c_str(), show(o).c_str());
			if (got) {
				int have = 0;
				string f = fmt("%c%u", part ? 'g' : 'f', i);
				auto p = o.v.m.find("properties");
				if (p != o.v.m.end() && p->second.m.count(f) && p->second.m[f].m.count("enum") && !p->second.m[f].m["enum"].l.empty()) { MV &x = p->second.m[f].m["enum"].l[0]; have = x.t == MV::Int ? x.i : x.u; }
				if (have != v) violate("wrong-version", "schema %s is version %d, expected %d: %s", uri.c_str(), have, v, show(o.v).c_str());
			}
			if (!got) ++failed;
			if (!tight) check_fetches("get " + uri);
			mix(v); mix(got);
			continue;
		}
		unsigned budget = 12;
		MV data = gen_fields(2, budget);
		bool unknown = false;
		Verdict want = judge(i, part, data, unknown);
		static const char *const how_names[] = {"by address", "by reference", "by data"};
		unsigned how = draw(3);
		if (how == 2) data.m["$schema"] = MV::str(uri);
		ev("validate %s with %s %s: expected %s%s", show(data, 300).c_str(), uri.c_str(), how_names[how], want == YES ? "valid" : want == NO ? "invalid" : "failure", unknown ? " (not everything can be loaded)" : "");
		set_op("validate");
		bool error = false;
		string msg;
		std::function<void(MV &)> validate = [&](MV &) {
			Variant schema, d = build(data);
			if (how == 0) schema = uri;
			if (how == 1) schema.Set("$ref", uri);
			SchemaResult res = SchemaValidate(schema, d, loader);
			error = res.Error();
			if (error) { string m = res.PrettyPrintMessage(); Out x; msg = m; }
		};
		Outcome o = attempt(validate);
		if (fired && !(o.ok && !error)) { // once more, now with enough memory
			ev("-> %s", o.ok ? msg.c_str() : show(o).c_str());
			starve = false; fired = 0; error = false;
			o = attempt(validate);
		}
		bool ok = o.ok && !error;
		ev("-> %s", ok ? "valid" : o.ok ? msg.c_str() : show(o).c_str());
		string detail = fmt("validation %s against %s", how_names[how], uri.c_str());
		if (ok && want != YES) violate(want == UNKNOWN ? "accepted-unloaded" : "accepted-invalid", "%s accepts %s although %s", detail.c_str(), show(data, 300).c_str(), want == UNKNOWN ? "a schema it depends on could not be loaded" : "it is invalid");
		if (!ok && want == YES && !unknown && !fired) violate("rejected-valid", "%s rejects %s although every schema is available and satisfied: %s", detail.c_str(), show(data, 300).c_str(), o.ok ? msg.c_str() : show(o).c_str());
		if (!tight) check_fetches(detail);
		if (ok) ++accepted; else ++failed;
		if (unknown) { ++unknowns; probe(want == UNKNOWN ? "verdict depends on a missing schema" : "a missing schema does not matter"); }
		mix(want); mix(ok); mix(unknown);
		for (auto &x : r.edges) mix(x.pos);
	}
	for (auto &r : w->res) { mix(r.kind); mix(r.edges.size()); mix(r.loaded); }
	if (unknowns || starved || (accepted && failed)) nontrivial();
	sample("%zu schemas, %u requests: %u accepted, %u refused, %u with schemas that cannot be loaded", w->res.size(), n, accepted, failed, unknowns);
	{
		Lib l;
		outer.reset();
		adv.reset();
	}
	net.init_fails = false;
	net.setopt_fails = 0;
	w = 0;
}
static Register r({"C14", "each run draws 1-5 schemas at file and network addresses that refer to each other in drawn positions and spellings, 0-3 search paths and possibly a handler for missing schemas, and a history of up to 8 requests, in a fifth of the runs with allocations failing during requests instead of changing locations (validation by address, reference or data; lookup; forget; add) to one loader; before every request contents change and locations are made absent, refused, breaking off, cut, empty, malformed, answering with an error and so on; the verdict and the sequence of fetches are compared with a three-valued reference; non-trivial: a schema could not be loaded, or the history has both accepted and refused requests", run, 160000000, 64, true});
