// C15: patches and pointer edits are all-or-nothing.
#include "world.h"
#include "main.h"
#include <Variant/Extensions.h>
using namespace sim;
using namespace libvariant;
using std::string;
using std::vector;

typedef vector<string> Ptr;

// ---------------------------------------------------------------- reference
static bool number(const MV &v) { return v.t == MV::Int || v.t == MV::Uint || v.t == MV::Float; }
static bool num_eq(const MV &a, const MV &b) {
	if (a.t == MV::Float || b.t == MV::Float) {
		auto f = [](const MV &v) { return v.t == MV::Float ? v.d : v.t == MV::Int ? (double)v.i : (double)v.u; };
		return f(a) == f(b);
	}
	bool na = a.t == MV::Int && a.i < 0, nb = b.t == MV::Int && b.i < 0;
	if (na != nb) return false;
	auto u = [](const MV &v) { return v.t == MV::Int ? (uint64_t)v.i : v.u; };
	return u(a) == u(b);
}
static bool eq(const MV &a, const MV &b) {
	if (number(a) && number(b)) return num_eq(a, b);
	if (a.t != b.t) return false;
	if (a.t == MV::List) {
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!eq(a.l[i], b.l[i])) return false;
		return true;
	}
	if (a.t == MV::Map) {
		if (a.m.size() != b.m.size()) return false;
		for (auto &x : a.m) { auto y = b.m.find(x.first); if (y == b.m.end() || !eq(x.second, y->second)) return false; }
		return true;
	}
	return same(a, b);
}
static bool split(const string &s, Ptr &p) {
	p.clear();
	if (s.empty()) return true;
	if (s[0] != '/') return false;
	for (size_t i = 0; i < s.size();) {
		size_t e = s.find('/', i + 1);
		if (e == string::npos) e = s.size();
		string c;
		for (size_t k = i + 1; k < e; ++k)
			if (s[k] == '~' && k + 1 < e && s[k + 1] == '0') { c += '~'; ++k; }
			else if (s[k] == '~' && k + 1 < e && s[k + 1] == '1') { c += '/'; ++k; }
			else c += s[k];
		p.push_back(c);
		i = e;
	}
	return true;
}
static string join(const Ptr &p) {
	string s;
	for (auto &c : p) {
		s += '/';
		for (char ch : c) if (ch == '~') s += "~0"; else if (ch == '/') s += "~1"; else s += ch;
	}
	return s;
}
static bool index_of(const string &c, uint64_t &i) {
	if (c.empty() || c.size() > 18) return false;
	i = 0;
	for (char ch : c) { if (ch < '0' || ch > '9') return false; i = i * 10 + (ch - '0'); }
	return true;
}
static MV *child(MV &v, const string &c) {
	if (v.t == MV::Map) { auto i = v.m.find(c); return i == v.m.end() ? 0 : &i->second; }
	uint64_t i;
	if (v.t == MV::List && index_of(c, i) && i < v.l.size()) return &v.l[i];
	return 0;
}
static MV *find(MV &root, const Ptr &p, size_t n) {
	MV *v = &root;
	for (size_t i = 0; i < n && v; ++i) v = child(*v, p[i]);
	return v;
}
static MV *find(MV &root, const Ptr &p) { return find(root, p, p.size()); }
static bool do_add(MV &root, const Ptr &p, const MV &val) {
	if (p.empty()) { MV x = val; root = x; return true; }
	MV *v = find(root, p, p.size() - 1);
	if (!v) return false;
	const string &c = p.back();
	if (v->t == MV::Map) { MV x = val; v->m[c] = x; return true; }
	if (v->t != MV::List) return false;
	uint64_t i;
	if (c == "-") i = v->l.size();
	else if (!index_of(c, i) || i > v->l.size()) return false;
	MV x = val;
	v->l.insert(v->l.begin() + i, x);
	return true;
}
static bool do_remove(MV &root, const Ptr &p) {
	if (!find(root, p)) return false;
	if (p.empty()) { root = MV(); return true; }
	MV *v = find(root, p, p.size() - 1);
	if (v->t == MV::Map) v->m.erase(p.back());
	else { uint64_t i = 0; index_of(p.back(), i); v->l.erase(v->l.begin() + i); }
	return true;
}
static bool is_prefix(const Ptr &a, const Ptr &b) {
	return a.size() < b.size() && std::equal(a.begin(), a.end(), b.begin());
}
// One step; false: refused.  either: the standard forbids the step, the
// result of doing it literally is acceptable as well.
static bool model_step(MV &doc, const MV &step, bool *either) {
	if (step.t != MV::Map) return false;
	auto str = [&](const char *k, string &s) { auto i = step.m.find(k); if (i == step.m.end() || i->second.t != MV::Str) return false; s = i->second.s; return true; };
	string op, path, from;
	if (!str("op", op)) return false;
	Ptr p, q;
	if (!str("path", path) || !split(path, p)) return false;
	auto val = step.m.find("value");
	if (op == "add" || op == "replace" || op == "test") {
		if (val == step.m.end()) return false;
		if (op == "add") return do_add(doc, p, val->second);
		MV *t = find(doc, p);
		if (!t) return false;
		if (op == "test") return eq(*t, val->second);
		MV x = val->second;
		*t = x;
		return true;
	}
	if (op == "remove") return do_remove(doc, p);
	if (op == "move" || op == "copy") {
		if (!str("from", from) || !split(from, q)) return false;
		MV *t = find(doc, q);
		if (!t) return false;
		MV x = *t;
		if (op == "move") {
			if (is_prefix(q, p)) *either = true;
			if (!do_remove(doc, q)) return false;
		}
		return do_add(doc, p, x);
	}
	return false;
}
static bool model_patch(MV &doc, const MV &patch, bool *either) {
	MV w = doc;
	if (patch.t == MV::List) { for (auto &s : patch.l) if (!model_step(w, s, either)) return false; }
	else if (!model_step(w, patch, either)) return false;
	doc = w;
	return true;
}

// ---------------------------------------------------------------- generators
static const char *const keys[] = {"a", "b", "c", "", "a/b", "m~n", "0", "1", "-", "~1", "x y", "/", "long key that does not fit into a short string"};
static string draw_key() { return keys[chance(1, 3) ? draw(13) : draw(3)]; }
static MV value(int depth) {
	unsigned k = draw(depth > 0 ? 10 : 6);
	switch (k) {
	case 0: return MV::integer((int)draw(7) - 3);
	case 1: return MV::str(draw(2) ? "text" : "a text that does not fit into a short string");
	case 2: return MV();
	case 3: return MV::boolean(draw(2));
	case 4: return MV::real(draw(8) * 0.5);
	case 5: return MV::uinteger(draw(4));
	case 6: case 7: { MV v(MV::List); unsigned n = draw(5); for (unsigned i = 0; i < n; ++i) v.l.push_back(value(depth - 1)); return v; }
	default: { MV v(MV::Map); unsigned n = draw(5); for (unsigned i = 0; i < n; ++i) v.m[draw_key()] = value(depth - 1); return v; }
	}
}
static void all(const MV &v, Ptr &p, vector<Ptr> &out, vector<Ptr> &conts) {
	out.push_back(p);
	if (v.container()) conts.push_back(p);
	if (out.size() > 200) return;
	for (size_t i = 0; i < v.l.size(); ++i) { p.push_back(fmt("%zu", i)); all(v.l[i], p, out, conts); p.pop_back(); }
	for (auto &x : v.m) { p.push_back(x.first); all(x.second, p, out, conts); p.pop_back(); }
}
static Ptr existing(MV &doc, bool below_root) {
	vector<Ptr> o, c; Ptr p;
	all(doc, p, o, c);
	if (below_root && o.size() > 1) return o[1 + draw(o.size() - 1)];
	return o[draw(o.size())];
}
// A place where something can be added.
static Ptr place(MV &doc) {
	vector<Ptr> o, c; Ptr p;
	all(doc, p, o, c);
	if (c.empty() || chance(1, 15)) return Ptr();
	p = c[draw(c.size())];
	MV *v = find(doc, p);
	if (v->t == MV::List) p.push_back(chance(1, 3) ? string("-") : fmt("%u", draw(v->l.size() + 1)));
	else if (!v->m.empty() && chance(1, 3)) p.push_back(std::next(v->m.begin(), draw(v->m.size()))->first);
	else p.push_back(draw_key());
	return p;
}
static MV mk(const char *op, const string &path) { MV s(MV::Map); s.m["op"] = MV::str(op); s.m["path"] = MV::str(path); return s; }
static MV good_step(MV &doc) {
	static const char *const ops[] = {"add", "remove", "replace", "move", "copy", "test"};
	unsigned k = draw(6);
	MV s;
	switch (k) {
	case 0: s = mk(ops[k], join(place(doc))); s.m["value"] = value(2); break;
	case 1: s = mk(ops[k], join(existing(doc, !chance(1, 15)))); break;
	case 2: s = mk(ops[k], join(existing(doc, !chance(1, 15)))); s.m["value"] = value(2); break;
	case 3: case 4: {
		Ptr from = existing(doc, !chance(1, 15));
		MV w = doc;
		if (k == 3) do_remove(w, from);
		Ptr to = place(w);
		s = mk(ops[k], join(to));
		s.m["from"] = MV::str(join(from));
		break;
	}
	default: { Ptr p = existing(doc, false); s = mk(ops[k], join(p)); s.m["value"] = *find(doc, p); break; }
	}
	return s;
}
static string bad_pointer(MV &doc, string &why) {
	Ptr p = existing(doc, false);
	MV *v = find(doc, p);
	switch (draw(7)) {
	case 0: why = "does not start with a slash"; { string s = join(p); return s.empty() ? "a" : s.substr(1).empty() ? "x" : s[1] == '/' ? "x" : s.substr(1); }
	case 1: why = "leads through a missing element"; p.push_back("missing"); p.push_back("a"); return join(p);
	case 2: why = "leads below a missing element"; p.push_back("missing"); p.push_back("0"); p.push_back("b"); return join(p);
	case 3: why = "index far out of range"; {
		static const char *const far[] = {"4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "2147483648", "-1", "1000"};
		p.push_back(v->t == MV::List ? far[draw(8)] : "missing");
		return join(p);
	}
	case 4: why = "index just out of range"; p.push_back(v->t == MV::List ? fmt("%zu", v->l.size() + 1 + draw(3)) : string("missing")); return join(p);
	case 6: why = "leads through the end"; {
		static const char *const below[] = {"a", "0", "-", ""};
		p.push_back(draw(2) && v->t == MV::List ? fmt("%zu", v->l.size()) : string("-"));
		p.push_back(below[draw(4)]);
		if (chance(1, 3)) p.push_back(below[draw(4)]);
		return join(p);
	}
	default: why = "name in a list"; p.push_back(v->t == MV::List ? "name" : "missing"); return join(p);
	}
}
static MV bad_step(MV &doc, string &why) {
	static const char *const ops[] = {"add", "remove", "replace", "move", "copy", "test"};
	MV s;
	fault(F_bad_step);
	switch (draw(8)) {
	case 0: { why = "failing test"; Ptr p = existing(doc, false); s = mk("test", join(p)); s.m["value"] = value(1); return s; }
	case 1: { s = mk(ops[draw(6)], bad_pointer(doc, why)); s.m["value"] = value(1); s.m["from"] = MV::str(join(existing(doc, true))); return s; }
	case 2: { s = mk(draw(2) ? "move" : "copy", join(place(doc))); s.m["from"] = MV::str(bad_pointer(doc, why)); why = "source: " + why; return s; }
	case 3: { why = "unknown operation"; s = mk(draw(2) ? "frobnicate" : "", join(existing(doc, true))); s.m["value"] = value(1); return s; }
	case 4: {
		why = "missing member";
		s = good_step(doc);
		if (draw(2)) { auto i = std::next(s.m.begin(), draw(s.m.size())); s.m.erase(i); }
		else { static const char *const m[] = {"path", "from", "value", "op"}; s.m.erase(m[draw(4)]); }
		return s;
	}
	case 5: { why = "not a step"; return draw(2) ? value(0) : MV(MV::List); }
	case 6: {
		why = "past the end";
		vector<Ptr> o, c; Ptr p;
		all(doc, p, o, c);
		p = o[draw(o.size())];
		p.push_back("-");
		s = mk(ops[1 + draw(5)], join(p));
		s.m["value"] = value(1);
		if (draw(2)) { s.m["from"] = MV::str(join(p)); s.m["path"] = MV::str(join(place(doc))); } else s.m["from"] = MV::str(join(existing(doc, true)));
		return s;
	}
	default: {
		why = "into itself";
		Ptr p = existing(doc, true);
		s = mk("move", "");
		s.m["from"] = MV::str(join(p));
		p.push_back(draw(2) ? draw_key() : "0");
		s.m["path"] = MV::str(join(p));
		return s;
	}
	}
}

// ---------------------------------------------------------------- runs
struct Doc {
	Variant v;
	vector<Variant> handles;       // to the document and containers inside it
	vector<MV> content;
};
static void take_handles(Doc &d, const MV &m) {
	vector<Ptr> o, c; Ptr p;
	all(m, p, o, c);
	unsigned n = c.empty() ? 0 : draw(4);
	for (unsigned i = 0; i < n; ++i) {
		const Ptr &q = c[draw(c.size())];
		const Variant *x = &d.v;
		MV cur = m;
		Lib l;
		for (auto &comp : q) {
			if (x->IsList()) { uint64_t k = 0; index_of(comp, k); x = &x->At((unsigned)k); }
			else x = &x->At(comp);
		}
		d.handles.push_back(*x);
	}
	Lib l;
	for (auto &h : d.handles) d.content.push_back(to_model(h));
}
static string shape(const MV &s) {
	auto i = s.t == MV::Map ? s.m.find("op") : s.m.end();
	return s.t == MV::Map && i != s.m.end() && i->second.t == MV::Str ? i->second.s : "step";
}
static AllocPlan draw_alloc(uint64_t allocs) {
	AllocPlan p;
	p.fail_at = draw(allocs);
	p.repeat = 1 + (chance(1, 4) ? draw(20) : 0);
	p.persistent = chance(1, 4);
	return p;
}
// Judges the outcome of one edit.
static void judge(const string &what, Doc &d, const MV &before, const MV &after, bool may_work, bool may_fail, bool worked, const string &detail) {
	MV now;
	Outcome o = capture([&](MV &x) { x = to_model(d.v); });
	if (!o.ok) violate("unreadable:" + what, "the document cannot be read after %s: %s", detail.c_str(), show(o).c_str());
	now = o.v;
	if (worked) {
		if (!may_work) violate("accepted:" + what, "%s was accepted on %s, giving %s", detail.c_str(), show(before, 300).c_str(), show(now, 300).c_str());
		if (!same(now, after)) violate("result:" + what, "%s on %s gives %s, expected %s", detail.c_str(), show(before, 300).c_str(), show(now, 300).c_str(), show(after, 300).c_str());
	} else {
		if (!may_fail) violate("refused:" + what, "%s was refused on %s", detail.c_str(), show(before, 300).c_str());
		if (!same(now, before)) violate("partial:" + what, "%s failed but changed %s to %s", detail.c_str(), show(before, 300).c_str(), show(now, 300).c_str());
		for (size_t i = 0; i < d.handles.size(); ++i) {
			Outcome h = capture([&](MV &x) { x = to_model(d.handles[i]); });
			if (!h.ok || !same(h.v, d.content[i])) violate("handle:" + what, "%s failed but a handle to a part of the document shows %s instead of %s", detail.c_str(), show(h).c_str(), show(d.content[i], 300).c_str());
		}
	}
}
static bool apply_patch(Doc &d, const MV &patch, const AllocPlan *plan, uint64_t *allocs, uint64_t *fired, string &how) {
	Lib l;
	std::unique_ptr<Variant> p(new Variant(build(patch)));
	Out x;
	bool worked = false;
	AllocPlan none;
	alloc_arm(plan ? *plan : none);
	Outcome o = capture([&](MV &) {
		std::pair<bool, string> r = JSONPatch(d.v, *p);
		worked = r.first;
		Out y;
		how = r.first ? "done" : "failed: " + r.second;
	});
	if (allocs) *allocs = alloc_count();
	uint64_t f = alloc_fired();
	if (fired) *fired = f;
	alloc_disarm();
	if (!o.ok) how = "exception: " + o.what;
	Outcome q = capture([&](MV &m) { m = to_model(*p); });
	if (!q.ok || !same(q.v, patch)) violate("patch-changed", "applying the patch changed the patch itself: %s instead of %s", show(q).c_str(), show(patch, 300).c_str());
	Lib l2;
	p.reset();
	return worked;
}
static void patches() {
	MV m = value(4);
	if (!m.container() && chance(9, 10)) { MV c(MV::Map); c.m["a"] = m; c.m["b"] = MV(MV::List); c.m["b"].l.push_back(value(2)); c.m["b"].l.push_back(value(1)); m = c; }
	MV patch(MV::List), w = m;
	unsigned n = 1 + draw(chance(1, 4) ? 12 : 4);
	unsigned bad_at = chance(1, 2) ? draw(n) : n;
	string why = "none", last;
	bool either = false;
	for (unsigned i = 0; i < n; ++i) {
		MV s;
		if (i == bad_at) {
			s = bad_step(w, why);
			MV t = w; bool e = false;
			if (model_step(t, s, &e)) { w = t; why += " (works)"; }
			patch.l.push_back(s);
			last = shape(s);
			continue;
		}
		s = good_step(w);
		MV t = w; bool e = false;
		if (!model_step(t, s, &e)) continue;
		if (count(t) > 300) continue;
		w = t;
		patch.l.push_back(s);
		last = shape(s);
	}
	if (patch.l.size() == 1 && patch.l[0].t != MV::List && chance(1, 3)) { MV s = patch.l[0]; patch = s; }
	MV after = m;
	bool works = model_patch(after, patch, &either);
	string what = fmt("%s%s", works ? "patch" : "failing-patch", "");
	ev("document %s", show(m, 2000).c_str());
	ev("patch %s", show(patch, 2000).c_str());
	ev("bad step %u: %s; expected to %s%s", bad_at, why.c_str(), works ? "work" : "fail", either ? " (or the opposite)" : "");
	uint64_t allocs = 0;
	string how;
	{
		Doc d;
		{ Lib l; d.v = build(m); }
		take_handles(d, m);
		set_op("patch");
		bool worked = apply_patch(d, patch, 0, &allocs, 0, how);
		ev("-> %s", how.c_str());
		judge(what, d, m, after, works, !works || either, worked, fmt("patch %s (%s)", show(patch, 400).c_str(), how.c_str()));
		probe(fmt("%s:%s", worked ? "applied" : "refused", why.c_str()).c_str());
		if (!worked) for (auto &s : patch.l) { probe(("rolled back: " + shape(s)).c_str()); if (&s - &patch.l[0] >= (long)bad_at) break; }
		if (worked && chance(1, 3)) {
			// a second application starts from the result
			MV m2 = after, a2 = after; bool e2 = false;
			bool w2 = model_patch(a2, patch, &e2);
			d.handles.clear(); d.content.clear();
			bool r2 = apply_patch(d, patch, 0, 0, 0, how);
			judge("again", d, m2, a2, w2, !w2 || e2, r2, fmt("patch %s applied again (%s)", show(patch, 400).c_str(), how.c_str()));
		}
		Lib l;
		d = Doc();
	}
	unsigned rounds = chance(1, 2) ? 1 + draw(3) : 0;
	for (unsigned i = 0; i < rounds && allocs; ++i) {
		Doc d;
		{ Lib l; d.v = build(m); }
		take_handles(d, m);
		AllocPlan p = draw_alloc(allocs);
		uint64_t fired = 0;
		ev("allocation %lld fails%s", (long long)p.fail_at, p.persistent ? ", and all later ones" : fmt(", %u times", p.repeat).c_str());
		set_op("patch");
		bool worked = apply_patch(d, patch, &p, 0, &fired, how);
		ev("-> %s, %llu failed", how.c_str(), (unsigned long long)fired);
		judge(what + ":nomem", d, m, after, works, true, worked, fmt("patch %s with failing allocations (%s)", show(patch, 400).c_str(), how.c_str()));
		if (fired) { nontrivial(); probe(worked ? "out of memory, applied" : "out of memory, refused"); }
		Lib l;
		d = Doc();
	}
	if (patch.t == MV::List && patch.l.size() > 1) nontrivial();
	mix(works); mix(hash(m)); mix(hash(patch));
	sample("%s: patch of %zu steps, bad step: %s", works ? "works" : "fails", patch.l.size(), why.c_str());
}
static void pointers() {
	MV m = value(4);
	Doc d;
	{ Lib l; d.v = build(m); }
	unsigned n = 1 + draw(8);
	bool refused = false;
	for (unsigned i = 0; i < n; ++i) {
		string why = "none";
		MV s;
		if (chance(1, 3)) s = bad_step(m, why); else s = good_step(m);
		if (s.t != MV::Map || !s.m.count("op") || !s.m.count("path")) continue;
		string op = s.m["op"].s, path = s.m["path"].s, from = s.m.count("from") ? s.m["from"].s : "";
		if (op == "test") op = s.m["op"].s = "lookup";
		MV val = s.m.count("value") ? s.m["value"] : MV();
		s.m["value"] = val;
		s.m["from"] = MV::str(from);
		if (op != "add" && op != "remove" && op != "replace" && op != "move" && op != "copy" && op != "lookup") continue;
		MV after = m;
		bool either = false, works;
		Ptr p;
		if (op == "lookup") works = split(path, p) && find(m, p);
		else works = model_step(after, s, &either);
		if (count(after) > 300) continue;
		d.handles.clear(); d.content.clear();
		take_handles(d, m);
		AllocPlan plan;
		bool fail = chance(1, 4);
		if (fail) plan = draw_alloc(40);
		string detail = fmt("%s at %s%s%s", op.c_str(), quote(path).c_str(), from.empty() ? "" : " from ", from.c_str());
		ev("%s%s (%s)", detail.c_str(), fail ? fmt(", allocation %lld fails%s", (long long)plan.fail_at, plan.persistent ? " and all later ones" : "").c_str() : "", why.c_str());
		set_op(("pointer-" + op).c_str());
		std::unique_ptr<Variant> data;
		{ Lib l; data.reset(new Variant(build(val))); }
		alloc_arm(plan);
		bool found = true;
		Outcome o = capture([&](MV &x) {
			if (op == "add") JSONPointerAdd(path, d.v, *data);
			else if (op == "remove") JSONPointerRemove(path, d.v);
			else if (op == "replace") JSONPointerReplace(path, d.v, *data);
			else if (op == "move") JSONPointerMove(from, path, d.v);
			else if (op == "copy") JSONPointerCopy(from, path, d.v);
			else {
				VariantRef r = JSONPointerLookup(path, d.v);
				found = r.Exists();
				if (found) x = to_model(r);
			}
		});
		uint64_t fired = alloc_fired();
		alloc_disarm();
		{ Lib l; data.reset(); }
		bool worked = o.ok && found;
		ev("-> %s", show(o).c_str());
		judge("pointer-" + op + (fired ? ":nomem" : ""), d, m, after, works, !works || either || fired, worked, detail + " (" + show(o) + ")");
		if (op == "lookup" && worked && !same(o.v, *find(m, p))) violate("lookup", "%s finds %s instead of %s", detail.c_str(), show(o.v, 300).c_str(), show(*find(m, p), 300).c_str());
		if (worked) m = after;
		else { refused = true; probe(fmt("refused:%s:%s", op.c_str(), fired ? "no memory" : why.c_str()).c_str()); }
		mix(works); mix(hash(s)); mix(worked);
	}
	mix(hash(m));
	if (refused) nontrivial();
	sample("%u pointer edits ending in %s", n, show(m, 100).c_str());
	d.handles.clear();
	Lib l;
	d.v = Variant();
}
// A changed form of a value.
static MV edited(const MV &v, int depth) {
	if (!v.container() || !depth || chance(1, 8)) return chance(1, 3) ? value(2) : v;
	MV r(v.t);
	if (v.t == MV::List) {
		for (auto &x : v.l) {
			if (chance(1, 5)) continue;
			r.l.push_back(chance(1, 2) ? edited(x, depth - 1) : x);
			if (chance(1, 6)) r.l.push_back(value(1));
		}
	} else {
		for (auto &x : v.m) {
			if (chance(1, 5)) continue;
			r.m[x.first] = chance(1, 2) ? edited(x.second, depth - 1) : x.second;
		}
		while (chance(1, 4)) r.m[draw_key()] = value(1);
	}
	return r;
}
static void differences() {
	MV a = value(4), b = chance(1, 5) ? value(4) : edited(a, 4);
	ev("from %s", show(a, 2000).c_str());
	ev("to %s", show(b, 2000).c_str());
	set_op("diff");
	Doc d;
	{ Lib l; d.v = build(a); }
	Outcome o = capture([&](MV &m) { m = to_model(JSONDiff(build(a), build(b))); });
	if (!o.ok) violate("diff-failed", "the difference of %s and %s cannot be computed: %s", show(a, 300).c_str(), show(b, 300).c_str(), show(o).c_str());
	MV ref = a;
	bool either = false;
	if (!model_patch(ref, o.v, &either) || !eq(ref, b)) violate("diff-wrong", "the difference %s does not turn %s into %s", show(o.v, 300).c_str(), show(a, 300).c_str(), show(b, 300).c_str());
	string how;
	bool worked = apply_patch(d, o.v, 0, 0, 0, how);
	judge("diff", d, a, ref, true, false, worked, fmt("the difference %s (%s)", show(o.v, 400).c_str(), how.c_str()));
	mix(hash(a)); mix(hash(b));
	probe("difference");
	if (o.v.l.size() > 1) nontrivial();
	sample("difference of %zu steps", o.v.l.size());
	Lib l;
	d = Doc();
}
static void run() {
	switch (draw(8)) {
	case 0: case 1: pointers(); break;
	case 2: differences(); break;
	default: patches(); break;
	}
}
static Register r({"C15", "each run draws a document and either a patch of 1-12 steps (half with one bad step: failing test, missing element, bad pointer or index, unknown or incomplete step, move into itself), a history of up to 8 pointer edits, or two documents whose difference is applied; allocation failures are injected at drawn points; the result is compared with a reference interpreter, after a failure the document and handles to parts of it are compared with their state before; non-trivial: several steps, a refused edit or a failed allocation", run, 160000000, 64, true});
