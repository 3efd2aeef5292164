#include "values.h"
#include "main.h"
#include <Variant/Extensions.h>
#include <math.h>
#include <algorithm>
using namespace sim;
using namespace libvariant;
using std::string;

namespace sim {

Values::Values(const Options &o) : opt(o) {
	unsigned n = 2 + draw(3);
	for (unsigned i = 0; i < n; ++i) {
		Variant *p;
		{ Lib l; p = new Variant(); }
		rv.push_back(p);
		mv.push_back(std::make_shared<Cell>());
	}
}
Values::~Values() {
	for (auto *p : rr) { Lib l; delete p; }
	for (auto *p : rv) { Lib l; delete p; }
}
Values::LV Values::any() {
	if (!rr.empty() && chance(2, 5)) return {true, draw(rr.size())};
	return {false, draw(rv.size())};
}
string Values::name(LV x) { return fmt("%c%u", x.ref ? 'r' : 'v', x.i); }

void Values::set_type(Cell &c, MV::T t) {
	c.sc = MV(t);
	c.t = t;
	c.c.reset();
	c.b.reset();
	if (t == MV::List || t == MV::Map) c.c = std::make_shared<Cont>();
}
void Values::assign(Cell &dst, const Cell &src) {
	Cell s = src; // src may live inside dst
	dst.t = s.t; dst.sc = s.sc; dst.c = s.c; dst.b = s.b;
}
void Values::deep(Cell &dst, const Cell &src) {
	Cell s = src;
	dst.t = s.t; dst.sc = s.sc;
	dst.b = s.b ? std::make_shared<string>(*s.b) : std::shared_ptr<string>();
	dst.c.reset();
	if (s.c) {
		auto n = std::make_shared<Cont>();
		for (auto &x : s.c->l) { auto e = std::make_shared<Cell>(); deep(*e, *x); e->owner = n.get(); n->l.push_back(e); }
		for (auto &x : s.c->m) { auto e = std::make_shared<Cell>(); deep(*e, *x.second); e->owner = n.get(); n->m[x.first] = e; }
		dst.c = n;
	}
}
void Values::grow(Cont &c, size_t n) {
	if (n <= c.l.size()) return;
	for (auto &x : c.l) ++x->gen;
	while (c.l.size() < n) { auto e = std::make_shared<Cell>(); e->owner = &c; c.l.push_back(e); }
}
MV Values::tree(const Cell &c, int depth) {
	MV r = c.sc;
	r.t = c.t;
	if (depth > 60) return r;
	if (c.t == MV::Blob) { if (c.b) r.s = *c.b; else { r.t = MV::Bad; r.s = "null blob"; } }
	if (c.t == MV::List) for (auto &x : c.c->l) r.l.push_back(tree(*x, depth + 1));
	if (c.t == MV::Map) for (auto &x : c.c->m) r.m[x.first] = tree(*x.second, depth + 1);
	return r;
}
size_t Values::weight(const Cell &c) {
	size_t n = 1;
	if (c.c) {
		for (auto &x : c.c->l) n += weight(*x);
		for (auto &x : c.c->m) n += weight(*x.second);
	}
	return n;
}
void Values::reach(const Cell &c, std::vector<const Cont *> &out) {
	if (!c.c || std::find(out.begin(), out.end(), c.c.get()) != out.end()) return;
	out.push_back(c.c.get());
	for (auto &x : c.c->l) reach(*x, out);
	for (auto &x : c.c->m) reach(*x.second, out);
}
CellP Values::step(const CellP &c, const PathEl &e) {
	if (e.is_key) {
		if (c->t != MV::Map) return CellP();
		auto i = c->c->m.find(e.key);
		return i == c->c->m.end() ? CellP() : i->second;
	}
	if (c->t != MV::List || e.idx >= c->c->l.size()) return CellP();
	return c->c->l[e.idx];
}
void Values::bind(MRef &m, const CellP &c) {
	m.proxy = false;
	m.base = c;
	m.gen = c->gen;
	m.path.clear();
	m.hold.reset();
}
CellP Values::base_of(LV x, Res &r) {
	r = Good;
	if (!x.ref) return mv[x.i];
	CellP c = mr[x.i].base.lock();
	if (!c) { r = Gone; return c; }
	if (c->gen != mr[x.i].gen) r = Stale;
	// An element that no variable contains any more may or may not still be there.
	else if (!attached(c)) r = Stale;
	return c;
}
bool Values::attached(const CellP &c) {
	if (!c->owner) return std::find(mv.begin(), mv.end(), c) != mv.end();
	std::vector<const Cont *> have;
	for (auto &v : mv) reach(*v, have);
	return std::find(have.begin(), have.end(), c->owner) != have.end();
}
CellP Values::find(LV x, Res &r, bool convert) {
	CellP c = base_of(x, r);
	if (r == Gone || !x.ref || !mr[x.i].proxy) return c;
	for (auto &e : mr[x.i].path) { c = step(c, e); if (!c) return c; }
	if (convert) bind(mr[x.i], c);
	return c;
}
// Whether creating the path below base would work.
bool Values::settable(const CellP &base, const MPath &p) {
	CellP c = base;
	for (auto &e : p) {
		if (e.idx > 1000000 && !e.is_key) return false;
		CellP n = step(c, e);
		if (!n) {
			for (auto &x : p) if (!x.is_key && x.idx > 1000000) return false;
			return c->t == MV::Null || c->t == (e.is_key ? MV::Map : MV::List);
		}
		c = n;
	}
	return true;
}
CellP Values::make_path(const CellP &base, const MPath &p) {
	CellP c = base;
	for (auto &e : p) {
		CellP n = step(c, e);
		if (!n) {
			if (c->t == MV::Null) set_type(*c, e.is_key ? MV::Map : MV::List);
			if (e.is_key) { n = std::make_shared<Cell>(); n->owner = c->c.get(); c->c->m[e.key] = n; }
			else { grow(*c->c, e.idx + 1); n = c->c->l[e.idx]; }
		}
		c = n;
	}
	return c;
}
CellP Values::create(LV x, Res &r, bool dry) {
	CellP c = base_of(x, r);
	if (r == Gone || !x.ref || !mr[x.i].proxy) return c;
	if (!settable(c, mr[x.i].path)) return CellP();
	if (dry) return c;
	c = make_path(c, mr[x.i].path);
	bind(mr[x.i], c);
	return c;
}
void Values::set_scalar(Cell &c, const MV &v) {
	set_type(c, v.t);
	c.sc = v;
	if (v.t == MV::Blob) c.b = std::make_shared<string>(v.s);
}
MV Values::draw_scalar() {
	switch (draw(7)) {
	case 0: return MV::integer((int)draw(100) - 50);
	case 1: return MV();
	case 2: return MV::boolean(draw(2));
	case 3: return MV::uinteger(draw(100));
	case 4: return MV::real(draw(1000) / 8.0);
	case 5: return MV::str(chance(1, 3) ? string(draw(60), 'x') : draw_key());
	default: return MV::blob(gen_bytes(draw(chance(1, 4) ? 40 : 4)));
	}
}
string Values::draw_key() { static const char *k[] = {"a", "b", "c", "", "key-that-does-not-fit-into-a-short-string"}; return k[draw(5)]; }
unsigned Values::draw_index() { return chance(1, 60) ? ~0u : draw(chance(1, 10) ? 9 : 4); }
MPath Values::draw_path() {
	MPath p;
	unsigned n = 1 + draw(3);
	for (unsigned i = 0; i < n; ++i) { PathEl e; e.is_key = draw(2); e.idx = 0; if (e.is_key) e.key = draw_key(); else e.idx = draw_index(); p.push_back(e); }
	return p;
}
static Path real_path(const MPath &p) {
	Path r;
	for (auto &e : p) { if (e.is_key) r.push_back(e.key); else r.push_back(e.idx); }
	return r;
}
static string show_path(const MPath &p) {
	string s;
	for (auto &e : p) s += e.is_key ? "/" + e.key : fmt("[%u]", e.idx);
	return s;
}
// Would storing src at or below dst make a value contain itself?
bool Values::cyclic(const Cell &src, LV dst, bool into) {
	std::vector<const Cont *> s;
	reach(src, s);
	if (weight(src) > 60) return true;
	Res r;
	CellP b = base_of(dst, r);
	if (!b) return false;
	auto in = [&](const Cont *c) { return c && std::find(s.begin(), s.end(), c) != s.end(); };
	bool proxy = dst.ref && mr[dst.i].proxy;
	if (in(b->owner)) return true;
	if ((proxy || into) && in(b->c.get())) return true;
	if (proxy) {
		CellP c = b;
		for (auto &e : mr[dst.i].path) { c = step(c, e); if (!c) break; if (in(c->c.get()) || in(c->owner)) return true; }
	}
	// an element below dst, reached through a path, may be in there as well
	if (into) {
		CellP c = b;
		std::vector<const Cont *> d;
		reach(*c, d);
		for (auto *x : d) if (in(x)) return true;
	}
	return false;
}
bool Values::affected(unsigned var, LV dst) {
	if (!dst.ref && dst.i == var) return true;
	Res r;
	CellP b = base_of(dst, r);
	if (!b) return false;
	if (b == mv[var]) return true;
	std::vector<const Cont *> have;
	reach(*mv[var], have);
	auto in = [&](const Cont *c) { return c && std::find(have.begin(), have.end(), c) != have.end(); };
	std::vector<const Cont *> below;
	reach(*b, below);
	for (auto *x : below) if (in(x)) return true;
	return in(b->owner);
}

void Values::verify() {
	for (unsigned i = 0; i < rv.size(); ++i) {
		MV want = tree(*mv[i]);
		MV got = to_model(*rv[i]);
		if (!same(want, got)) violate("value:" + op, "after %s v%u is %s, expected %s", op.c_str(), i, show(got).c_str(), show(want).c_str());
	}
}
void Values::after_fault(LV dst) {
	for (unsigned i = 0; i < rv.size(); ++i) {
		MV got = to_model(*rv[i]);
		MV want = tree(*mv[i]);
		bool a = affected(i, dst);
		if (!a && !same(want, got)) violate("other-changed:" + op, "%s on %s ran out of memory and v%u, which it does not modify, became %s, was %s", op.c_str(), name(dst).c_str(), i, show(got).c_str(), show(want).c_str());
		ev("v%u %s after the failure: %s", i, a ? "(affected)" : "", show(got).c_str());
	}
	// every value and reference stays usable
	for (unsigned i = 0; i < rr.size(); ++i) {
		Outcome o = capture([&](MV &m) { const Variant &c = *rr[i]; if (c.Exists()) m = to_model(c); });
		ev("r%u after the failure: %s", i, show(o).c_str());
	}
	for (unsigned i = 0; i < rv.size(); ++i) {
		Outcome o = capture([&](MV &) { Variant c = rv[i]->Copy(); *rv[i] = 7; rv[i]->Clear(); (*rv[i])["a"][2] = c; });
		if (!o.ok) violate("unusable:" + op, "v%u cannot be used after %s ran out of memory: %s", i, op.c_str(), show(o).c_str());
		MV got = to_model(*rv[i]);
		if (got.t != MV::Map || got.m.size() != 1 || got.m["a"].l.size() != 3) violate("unusable:" + op, "v%u is %s after reassigning it", i, show(got).c_str());
	}
}

template<class R, class M> void Values::both(const char *what, std::initializer_list<LV> uses, LV dst, R real_op, M model_op) {
	op = what;
	set_op(what);
	bool gone = false, stale = false;
	for (LV u : uses) { Res r; base_of(u, r); if (r == Gone) gone = true; if (r == Stale) stale = true; }
	if (gone) probe("operation on a reference to a removed element");
	if (stale) probe("operation on a reference that may be gone");
	if (opt.fault) {
		AllocPlan p;
		if (chance(1, 3)) { p.fail_at = chance(1, 4) ? draw(40) : draw(6); p.repeat = 1 + draw(2); p.persistent = chance(1, 4); }
		alloc_arm(p);
	}
	Outcome o = capture([&](MV &) { real_op(); });
	uint64_t f = 0;
	if (opt.fault) { alloc_disarm(); f = alloc_fired(); }
	ev("%s -> %s", what, o.ok ? "ok" : o.what.c_str());
	if (f) {
		fired += f;
		probe((string("out of memory in ") + what).c_str());
		if (o.ok) probe("the operation succeeded without the memory");
		if (!o.ok) {
			// an element no variable contains is not compared; a container that was
			// replaced by an equal one is no longer shared, which values do not show
			bool unchanged = !stale && op != "assign-container";
			for (unsigned i = 0; i < rv.size(); ++i) if (!same(tree(*mv[i]), to_model(*rv[i]))) unchanged = false;
			if (unchanged && chance(3, 4)) { // nothing happened: go on
				probe("a failed operation left no trace");
				++failed_ops;
				for (LV u : uses) if (u.ref && mr[u.i].proxy) retired.push_back(u.i);
				return;
			}
			dead = true;
			after_fault(dst);
			return;
		}
	}
	if (!o.ok) {
		++failed_ops;
		// Whether an unresolved reference became bound to its element by an
		// operation that failed is not defined: such a reference is retired.
		for (LV u : uses) if (u.ref && mr[u.i].proxy) retired.push_back(u.i);
	}
	if (stale && !o.ok) { verify(); return; }
	last_ok = o.ok;
	bool want = gone ? false : model_op();
	if (o.ok && !want) violate(string("accepted:") + what, "%s succeeded but should be refused", what);
	if (!o.ok && want) violate(string("refused:") + what, "%s failed: %s", what, show(o).c_str());
	verify();
}

static bool eq(const MV &a, const MV &b) { // equality as the library defines it
	auto num = [](const MV &x) { return x.t == MV::Int || x.t == MV::Uint || x.t == MV::Float; };
	auto val = [](const MV &x) { return x.t == MV::Int ? (long double)x.i : x.t == MV::Uint ? (long double)x.u : (long double)x.d; };
	if (num(a) && num(b)) return val(a) == val(b);
	if (a.t != b.t) return false;
	switch (a.t) {
	case MV::Null: return true;
	case MV::Bool: return a.b == b.b;
	case MV::Str: case MV::Blob: case MV::Bad: return a.s == b.s;
	case MV::List:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!eq(a.l[i], b.l[i])) return false;
		return true;
	case MV::Map: {
		if (a.m.size() != b.m.size()) return false;
		auto j = b.m.begin();
		for (auto &x : a.m) { if (x.first != j->first || !eq(x.second, j->second)) return false; ++j; }
		return true;
	}
	default: return false;
	}
}

void Values::drop_ref(unsigned k) {
	ev("drop r%u", k);
	{ Lib l; delete rr[k]; }
	rr.erase(rr.begin() + k);
	mr.erase(mr.begin() + k);
}
// Change everything that somebody could share with this value.
static void spoil(Variant &v) {
	Lib l;
	switch (v.GetType()) {
	case VariantDefines::ListType:
		for (Variant::ListIterator i = v.ListBegin(), e = v.ListEnd(); i != e; ++i) spoil(*i);
		v.Append("spoiled");
		break;
	case VariantDefines::MapType:
		for (Variant::MapIterator i = v.MapBegin(), e = v.MapEnd(); i != e; ++i) spoil(i->second);
		v.Set("spoiled", true);
		break;
	case VariantDefines::BlobType: {
		BlobPtr b = v.AsBlob();
		for (unsigned i = 0; i < b->GetNumBuffers(); ++i) if (b->GetLength(i)) ++*(char *)b->GetPtr(i);
		break;
	}
	default: v = "spoiled";
	}
}
void Values::step_once() {
	std::sort(retired.begin(), retired.end());
	retired.erase(std::unique(retired.begin(), retired.end()), retired.end());
	for (size_t i = retired.size(); i--; ) drop_ref(retired[i]);
	retired.clear();
	LV d = any();
	if (d.ref) ++refs_used;
	Res r;
	switch (draw(38)) {
	case 0: case 1: { // assign a scalar
		MV s = draw_scalar();
		ev("%s = %s", name(d).c_str(), show(s).c_str());
		BlobPtr b;
		if (s.t == MV::Blob) { Lib l; b = make_blob(s.s, draw(8)); }
		both("assign-scalar", {d}, d, [&] {
			Variant &x = real(d);
			switch (s.t) {
			case MV::Null: x.Assign(VariantDefines::NullType); break;
			case MV::Bool: x = s.b; break;
			case MV::Int: x = (long long)s.i; break;
			case MV::Uint: x = (unsigned long long)s.u; break;
			case MV::Float: x = s.d; break;
			case MV::Str: if (draw(2)) x = s.s; else x = s.s.c_str(); break;
			default: x = b; break;
			}
		}, [&] { CellP c = create(d, r, false); if (!c) return false; set_scalar(*c, s); return true; });
		Lib l;
		b.reset();
		break;
	}
	case 2: { // assign a fresh container or default value
		static const VariantDefines::Type_t ty[] = {VariantDefines::ListType, VariantDefines::MapType, VariantDefines::ListType, VariantDefines::MapType, VariantDefines::StringType, VariantDefines::IntegerType};
		static const MV::T mt[] = {MV::List, MV::Map, MV::List, MV::Map, MV::Str, MV::Int};
		unsigned k = draw(6);
		ev("%s = new type %d", name(d).c_str(), mt[k]);
		both("assign-type", {d}, d, [&] { real(d) = ty[k]; }, [&] { CellP c = create(d, r, false); if (!c) return false; set_type(*c, mt[k]); return true; });
		break;
	}
	case 3: case 4: case 5: { // share
		LV s = any();
		CellP sc = find(s, r, false);
		if (sc && cyclic(*sc, d, false)) return;
		ev("%s = %s", name(d).c_str(), name(s).c_str());
		if (sc && sc->c) ++shared;
		both("assign-value", {d, s}, d, [&] { real(d) = (const Variant &)real(s); }, [&] {
			CellP x = find(s, r, true);
			if (!x) return false;
			Cell keep = *x;
			CellP c = create(d, r, false);
			if (!c) return false;
			assign(*c, keep);
			return true;
		});
		break;
	}
	case 6: { // copy
		LV s = any();
		CellP sc = find(s, r, false);
		if (sc && weight(*sc) > 60) return;
		ev("%s = copy of %s", name(d).c_str(), name(s).c_str());
		both("assign-copy", {d, s}, d, [&] { const Variant &c = real(s); real(d) = c.Copy(); }, [&] {
			CellP x = find(s, r, true);
			if (!x) return false;
			Cell keep;
			deep(keep, *x);
			CellP c = create(d, r, false);
			if (!c) return false;
			assign(*c, keep);
			return true;
		});
		break;
	}
	case 7: case 8: case 9: { // Set
		LV s = any();
		CellP sc = find(s, r, false);
		if (sc && cyclic(*sc, d, true)) return;
		PathEl e; e.is_key = draw(2); e.idx = 0;
		if (e.is_key) e.key = draw_key(); else e.idx = draw_index();
		bool by_ref = chance(1, 2);
		if (!e.is_key && e.idx > 1000) { Res q; CellP t = find(d, q, false); if (!t || t->t == MV::Null) return; } // a null would become a list before there is no room for so many elements
		ev("%s.Set(%s, %s)%s", name(d).c_str(), show_path({e}).c_str(), name(s).c_str(), by_ref ? " through a reference" : "");
		if (sc && sc->c) ++shared;
		both(by_ref ? "set-through-reference" : "set", {d, s}, d, [&] {
			Variant &x = real(d);
			const Variant &v = real(s);
			if (by_ref) { if (e.is_key) x[e.key] = v; else x[e.idx] = v; }
			else if (e.is_key) x.Set(e.key, v); else x.Set(e.idx, v);
		}, [&] {
			CellP x = find(s, r, true);
			if (!x) return false;
			Cell keep = *x;
			Res q;
			CellP base = create(d, q, true);
			if (!base) return false;
			MPath p;
			if (d.ref && mr[d.i].proxy) p = mr[d.i].path;
			p.push_back(e);
			if (!settable(base, p)) return false;
			CellP c = by_ref ? find(d, q, true) : create(d, q, false);
			c = c ? make_path(c, {e}) : make_path(base, p);
			assign(*c, keep);
			return true;
		});
		break;
	}
	case 10: case 11: { // Append
		LV s = any();
		CellP sc = find(s, r, false);
		if (sc && cyclic(*sc, d, true)) return;
		ev("%s.Append(%s)", name(d).c_str(), name(s).c_str());
		if (sc && sc->c) ++shared;
		both("append", {d, s}, d, [&] { const Variant &v = real(s); real(d).Append(v); }, [&] {
			CellP x = find(s, r, true);
			if (!x) return false;
			Cell keep = *x;
			CellP c = create(d, r, false);
			if (!c) return false;
			if (c->t == MV::Null) set_type(*c, MV::List);
			if (c->t != MV::List) return false;
			grow(*c->c, c->c->l.size() + 1);
			assign(*c->c->l.back(), keep);
			return true;
		});
		break;
	}
	case 12: { // Erase
		bool key = draw(2);
		string k = draw_key();
		unsigned i = draw_index();
		ev("%s.Erase(%s)", name(d).c_str(), key ? k.c_str() : fmt("%u", i).c_str());
		both("erase", {d}, d, [&] { if (key) real(d).Erase(k); else real(d).Erase(i); }, [&] {
			CellP c = find(d, r, true);
			if (!c) return false;
			if (c->t == MV::Null) return true;
			if (c->t != (key ? MV::Map : MV::List)) return false;
			if (key) c->c->m.erase(k);
			else if ((uint64_t)i + 1 < c->c->l.size()) set_type(*c->c->l[i], MV::Null);
			else if (i < c->c->l.size()) c->c->l.pop_back();
			return true;
		});
		break;
	}
	case 13: { // Clear
		ev("%s.Clear()", name(d).c_str());
		both("clear", {d}, d, [&] { real(d).Clear(); }, [&] {
			CellP c = find(d, r, true);
			if (!c) return false;
			if (c->c) { auto keep = c->c; auto l = std::move(keep->l); auto m = std::move(keep->m); keep->l.clear(); keep->m.clear(); }
			else if (c->t == MV::Str) c->sc.s.clear();
			else set_type(*c, MV::Null);
			return true;
		});
		break;
	}
	case 14: { // SetPath
		LV s = any();
		CellP sc = find(s, r, false);
		if (sc && cyclic(*sc, d, true)) return;
		MPath p;
		if (!chance(1, 8)) p = draw_path();
		for (auto &e : p) if (!e.is_key && e.idx > 1000) return;
		ev("%s.SetPath(%s, %s)", name(d).c_str(), show_path(p).c_str(), name(s).c_str());
		both("set-path", {d, s}, d, [&] { const Variant &v = real(s); real(d).SetPath(real_path(p), v); }, [&] {
			CellP x = find(s, r, true);
			if (!x) return false;
			Cell keep = *x;
			Res q;
			CellP base = create(d, q, true);
			if (!base) return false;
			MPath full;
			if (d.ref && mr[d.i].proxy) full = mr[d.i].path;
			full.insert(full.end(), p.begin(), p.end());
			if (!settable(base, full)) return false;
			CellP c = create(d, q, false);
			c = make_path(c, p);
			assign(*c, keep);
			return true;
		});
		break;
	}
	case 15: { // ErasePath
		MPath p = draw_path();
		ev("%s.ErasePath(%s)", name(d).c_str(), show_path(p).c_str());
		both("erase-path", {d}, d, [&] { real(d).ErasePath(real_path(p)); }, [&] {
			CellP c = find(d, r, true);
			if (!c) {
				// nothing there: nothing to erase, unless the last step is asked of the missing element itself
				return p.size() > 1;
			}
			for (size_t i = 0; i + 1 < p.size(); ++i) { c = step(c, p[i]); if (!c) return true; }
			const PathEl &e = p.back();
			if (c->t == MV::Null) return true;
			if (c->t != (e.is_key ? MV::Map : MV::List)) return false;
			if (e.is_key) c->c->m.erase(e.key);
			else if ((uint64_t)e.idx + 1 < c->c->l.size()) set_type(*c->c->l[e.idx], MV::Null);
			else if (e.idx < c->c->l.size()) c->c->l.pop_back();
			return true;
		});
		break;
	}
	case 16: { // Merge
		LV s = any();
		CellP sc = find(s, r, false);
		if (sc && cyclic(*sc, d, true)) { Res q; if (find(d, q, false) != sc) return; }
		ev("%s.Merge(%s)", name(d).c_str(), name(s).c_str());
		// with nothing to merge the target is not touched, so it may be gone
		bool nothing = sc && (sc->t == MV::Null || (sc->t == MV::Map && sc->c->m.empty()));
		both("merge", {nothing ? s : d, s}, d, [&] { const Variant &v = real(s); real(d).Merge(v); }, [&] {
			CellP x = find(s, r, true);
			if (!x) return false;
			if (x->t == MV::Null) return true;
			if (x->t != MV::Map) return false;
			auto hold = x->c;
			if (hold->m.empty()) return true;
			Res q;
			CellP base = create(d, q, true);
			if (!base) return false;
			MPath p;
			if (d.ref && mr[d.i].proxy) p = mr[d.i].path;
			p.push_back({true, hold->m.begin()->first, 0});
			if (!settable(base, p)) return false;
			CellP c = create(d, q, false);
			if (c->c == hold) return true;
			for (auto &e : hold->m) { CellP t = make_path(c, {{true, e.first, 0}}); assign(*t, *e.second); }
			return true;
		});
		break;
	}
	case 17: { // arithmetic
		LV s = any();
		int k = draw(8);
		CellP a = find(d, r, false);
		CellP b = find(s, r, false);
		if (k == 5 || k == 6) { // only quotients that are exact in the model, and none by zero
			auto whole = [](const CellP &c) { return !c->c && (c->t == MV::Int || c->t == MV::Uint); };
			if (!a || !b || !whole(a) || !whole(b) || !(b->t == MV::Int ? b->sc.i : (int64_t)b->sc.u)) return;
		}
		bool pair = k < 3 || k == 5 || k == 6;
		if (pair) {
			if (a && b) { MV x = tree(*a), y = tree(*b); auto big = [](const MV &v) { return (v.t == MV::Int && llabs(v.i) > 100000) || (v.t == MV::Uint && v.u > 1000000) || (v.t == MV::Float && fabs(v.d) > 1e12); }; if (big(x) || big(y)) return; }
		}
		static const char *const nm[] = {"add", "sub", "mul", "incr", "decr", "div", "rem", "neg"};
		ev("%s %s %s", nm[k], name(d).c_str(), name(s).c_str());
		std::initializer_list<LV> one = {d}, two = {d, s};
		both("arithmetic", pair ? two : one, d, [&] {
			Variant &x = real(d);
			const Variant &y = real(s);
			if (k == 0) x += y; else if (k == 1) x -= y; else if (k == 2) x *= y; else if (k == 3) ++x; else if (k == 4) --x; else if (k == 5) x /= y; else if (k == 6) x %= y; else { Variant n = -x; x = n; }
		}, [&] {
			CellP x = find(d, r, true);
			if (!x) return false;
			CellP y = pair ? find(s, r, true) : x;
			if (!y) return false;
			auto num = [](const Cell &c) { return c.t == MV::Int || c.t == MV::Uint || c.t == MV::Float; };
			if (!num(*x) || !num(*y)) return false;
			MV n;
			if (k == 7) {
				n = x->sc;
				if (n.t == MV::Int) n.i = (int64_t)(0 - (uint64_t)n.i); else if (n.t == MV::Uint) n.u = 0 - n.u; else n.d = -n.d;
			} else if (k == 3 || k == 4) {
				n = x->sc;
				int one = k == 3 ? 1 : -1;
				if (n.t == MV::Int) n.i += one; else if (n.t == MV::Uint) n.u += one; else n.d += one;
			} else {
				auto f = [](const MV &v) { return v.t == MV::Int ? (long double)v.i : v.t == MV::Uint ? (long double)v.u : (long double)v.d; };
				auto u = [](const MV &v) { return v.t == MV::Int ? (uint64_t)v.i : v.u; };
				const MV &p = x->sc, &q = y->sc;
				if (p.t == MV::Float || q.t == MV::Float) { long double z = k == 0 ? f(p) + f(q) : k == 1 ? f(p) - f(q) : f(p) * f(q); n = MV::real((double)z); }
				else if (p.t == MV::Uint || q.t == MV::Uint) { uint64_t z = k == 0 ? u(p) + u(q) : k == 1 ? u(p) - u(q) : k == 2 ? u(p) * u(q) : k == 5 ? u(p) / u(q) : u(p) % u(q); n = MV::uinteger(z); }
				else { int64_t z = k == 0 ? p.i + q.i : k == 1 ? p.i - q.i : k == 2 ? p.i * q.i : k == 5 ? p.i / q.i : p.i % q.i; n = MV::integer(z); }
			}
			set_scalar(*x, n);
			return true;
		});
		break;
	}
	case 18: case 19: case 20: { // take a reference
		if (rr.size() >= 5) {
			drop_ref(draw(rr.size()));
			return;
		}
		int how = draw(4); // 0 Ref, 1 key/index, 2 path, 3 with default
		MPath p;
		if (how == 2) { if (!chance(1, 8)) p = draw_path(); }
		else if (how) { PathEl e; e.is_key = draw(2); e.idx = 0; if (e.is_key) e.key = draw_key(); else e.idx = draw_index(); p.push_back(e); }
		for (auto &e : p) if (!e.is_key && e.idx > 1000) return;
		MV def = how == 3 ? draw_scalar() : MV();
		Variant *dv;
		{ Lib l; dv = new Variant(build(def)); }
		static const char *const nm[] = {"reference", "reference-element", "reference-path", "reference-default"};
		ev("r%zu = %s of %s%s", rr.size(), nm[how], name(d).c_str(), show_path(p).c_str());
		VariantRef *n = 0;
		both(nm[how], {d}, d, [&] {
			Variant &x = real(d);
			if (how == 0) n = new VariantRef(x.Ref());
			else if (how == 1) n = p[0].is_key ? new VariantRef(x[p[0].key]) : new VariantRef(x[p[0].idx]);
			else if (how == 2) n = new VariantRef(x.AtPath(real_path(p)));
			else n = p[0].is_key ? new VariantRef(x.At(p[0].key, *dv)) : new VariantRef(x.At(p[0].idx, *dv));
		}, [&] {
			Res q;
			MRef m;
			if (p.empty() && d.ref && mr[d.i].proxy) {
				m = mr[d.i];
				m.hold = base_of(d, q)->c;
			} else if (how == 3) {
				CellP base = create(d, q, true);
				if (!base) return false;
				MPath full;
				if (d.ref && mr[d.i].proxy) full = mr[d.i].path;
				full.push_back(p[0]);
				if (!settable(base, full)) return false;
				CellP c = create(d, q, false);
				CellP had = step(c, p[0]);
				c = make_path(c, p);
				if (!had) set_scalar(*c, def);
				bind(m, c);
			} else {
				CellP c = find(d, q, how != 0 && p.size());
				if (c) {
					// the part of the path that exists
					size_t k = 0;
					while (k < p.size()) { CellP e = step(c, p[k]); if (!e) break; c = e; ++k; }
					if (k == p.size()) bind(m, c);
					else {
						if (how == 1 && c->t != MV::Null && c->t != (p[k].is_key ? MV::Map : MV::List)) return false;
						m.proxy = true; m.base = c; m.gen = c->gen; m.hold = c->c;
						m.path.assign(p.begin() + k, p.end());
					}
				} else {
					CellP base = base_of(d, q);
					m.proxy = true; m.base = base; m.gen = base->gen; m.hold = base->c;
					m.path = mr[d.i].path;
					m.path.insert(m.path.end(), p.begin(), p.end());
				}
			}
			mr.push_back(m);
			return true;
		});
		{ Lib l; delete dv; }
		if (n) {
			rr.push_back(n);
			if (mr.size() < rr.size()) { // taken through a stale reference or after a failure: not modelled
				{ Lib l; delete n; }
				rr.pop_back();
			}
		}
		break;
	}
	case 21: { // read through the lvalue
		ev("read %s", name(d).c_str());
		MV got;
		bool did = false;
		both("read", {d}, d, [&] { const Variant &c = real(d); c.GetType(); { Out x; got = to_model(c); } did = true; }, [&] { CellP c = find(d, r, true); if (!c) return false; MV want = tree(*c); if (!same(got, want)) violate("value:read", "%s reads as %s, expected %s", name(d).c_str(), show(got).c_str(), show(want).c_str()); return true; });
		break;
	}
	case 22: { // Exists
		bool got = false;
		ev("%s exists?", name(d).c_str());
		op = "exists";
		Outcome o = capture([&](MV &) { got = real(d).Exists(); });
		if (!o.ok) violate("refused:exists", "asking whether %s exists failed: %s", name(d).c_str(), show(o).c_str());
		CellP c = find(d, r, false);
		bool want = r != Gone && c;
		if (r != Stale && got != want) violate("value:exists", "%s exists: %d, expected %d", name(d).c_str(), got, want);
		break;
	}
	case 23: { // searches and lookups
		PathEl e; e.is_key = draw(2); e.idx = 0;
		if (e.is_key) e.key = draw_key(); else e.idx = draw_index();
		MPath p;
		if (!chance(1, 8)) p = draw_path();
		int k = draw(5);
		static const char *const nm[] = {"get", "get-default", "has-path", "get-path", "contains"};
		ev("%s %s %s", nm[k], name(d).c_str(), show_path(k == 2 || k == 3 ? p : MPath{e}).c_str());
		MV got;
		bool gb = false;
		both(nm[k], {d}, d, [&] {
			const Variant &c = real(d);
			if (k == 0) { Variant v = e.is_key ? c.Get(e.key) : c.Get(e.idx); got = to_model(v); }
			else if (k == 1) { Variant v = e.is_key ? c.Get(e.key, 99) : c.Get(e.idx, 99); got = to_model(v); }
			else if (k == 2) gb = c.HasPath(real_path(p));
			else if (k == 3) { Variant v = c.GetPath(real_path(p)); got = to_model(v); }
			else gb = e.is_key ? c.Contains(e.key) : c.Contains(e.idx);
		}, [&] {
			CellP c = find(d, r, true);
			if (!c) return false;
			CellP t = c;
			if (k == 2 || k == 3) { for (auto &x : p) { t = step(t, x); if (!t) break; } }
			else t = step(c, e);
			if (k == 2 || k == 4) { if (gb != (bool)t) violate(string("value:") + nm[k], "%s gives %d", nm[k], gb); return true; }
			if (!t && k != 1) return false;
			MV want = t ? tree(*t) : MV::integer(99);
			if (!same(got, want)) violate(string("value:") + nm[k], "%s gives %s, expected %s", nm[k], show(got).c_str(), show(want).c_str());
			return true;
		});
		break;
	}
	case 28: { // text
		ev("text of %s", name(d).c_str());
		string got, again;
		both("text", {d}, d, [&] { const Variant &c = real(d); string t = c.AsString(); Out x; got = t; }, [&] {
			CellP c = find(d, r, true);
			if (!c) return false;
			if (c->c || c->t == MV::Blob) return false;
			string want = got;
			if (c->t == MV::Int) want = fmt("%lld", (long long)c->sc.i);
			else if (c->t == MV::Uint) want = fmt("%llu", (unsigned long long)c->sc.u);
			else if (c->t == MV::Str) want = c->sc.s;
			if (got != want) violate("value:text", "the text of %s is %s, expected %s", name(d).c_str(), quote(got).c_str(), quote(want).c_str());
			Outcome o = capture([&](MV &) { const Variant &v = real(d); string t = v.AsString(); Out x; again = t; });
			if (got != again) violate("value:text", "the text of %s is %s, and %s when asked again", name(d).c_str(), quote(got).c_str(), quote(again).c_str());
			return true;
		});
		break;
	}
	case 24: { // compare
		LV s = any();
		ev("compare %s %s", name(d).c_str(), name(s).c_str());
		bool got = false;
		both("compare", {d, s}, d, [&] { const Variant &a = real(d), &b = real(s); got = a == b; }, [&] {
			CellP x = find(d, r, true);
			if (!x) return false;
			CellP y = find(s, r, true);
			if (!y) return false;
			bool want = eq(tree(*x), tree(*y));
			if (got != want) violate("value:compare", "%s == %s gives %d; %s and %s", name(d).c_str(), name(s).c_str(), got, show(tree(*x)).c_str(), show(tree(*y)).c_str());
			return true;
		});
		break;
	}
	case 25: { // a variable ends its life and another begins
		unsigned i = draw(rv.size());
		ev("v%u ends", i);
		op = "destroy";
		{ Lib l; delete rv[i]; rv[i] = 0; rv[i] = new Variant(); }
		mv[i] = std::make_shared<Cell>();
		verify();
		break;
	}
	case 26: { // reassign a reference
		if (rr.empty()) return;
		unsigned k = draw(rr.size());
		if (d.ref && d.i == k) return;
		ev("r%u now refers to %s", k, name(d).c_str());
		both("reassign-reference", {d}, {true, k}, [&] { rr[k]->ReassignRef(real(d)); }, [&] {
			Res q;
			if (d.ref && mr[d.i].proxy) { MRef m = mr[d.i]; m.hold = base_of(d, q)->c; mr[k] = m; }
			else { CellP c = base_of(d, q); bind(mr[k], c); }
			return true;
		});
		break;
	}
	case 29: { // ErasePath that removes what becomes empty
		MPath p = draw_path();
		{ // what happens below something that is neither list nor map is not defined
			CellP c = find(d, r, false);
			for (size_t i = 0; c && i < p.size(); ++i) {
				if (c->t != MV::Null && !c->c) return;
				c = step(c, p[i]);
			}
		}
		ev("%s.ErasePath(%s, remove empty)", name(d).c_str(), show_path(p).c_str());
		both("erase-path-empty", {d}, d, [&] { real(d).ErasePath(real_path(p), true); }, [&] {
			CellP c = find(d, r, true);
			if (!c) return p.size() > 1;
			std::vector<CellP> way{c};
			auto erase = [&](CellP in, const PathEl &e) {
				if (in->t == MV::Null) return true;
				if (in->t != (e.is_key ? MV::Map : MV::List)) return false;
				if (e.is_key) in->c->m.erase(e.key);
				else if ((uint64_t)e.idx + 1 < in->c->l.size()) set_type(*in->c->l[e.idx], MV::Null);
				else if (e.idx < in->c->l.size()) in->c->l.pop_back();
				return true;
			};
			while (way.size() < p.size()) { CellP n = step(way.back(), p[way.size() - 1]); if (!n) break; way.push_back(n); }
			if (way.size() == p.size() && !erase(way.back(), p.back())) return false;
			for (size_t i = way.size(); --i; ) {
				CellP x = way[i];
				bool empty = x->t == MV::Null || (x->c && x->c->l.empty() && x->c->m.empty());
				if (!empty) continue;
				x.reset();
				way.resize(i);
				erase(way[i - 1], p[i - 1]);
			}
			return true;
		});
		break;
	}
	case 30: { // sizes
		int k = draw(3);
		LV s = any();
		static const char *const nm[] = {"size", "empty", "index"};
		ev("%s of %s (%s)", nm[k], name(d).c_str(), name(s).c_str());
		unsigned got = 0;
		std::initializer_list<LV> one = {d}, two = {d, s};
		both(nm[k], k == 2 ? two : one, d, [&] {
			const Variant &c = real(d);
			if (k == 0) got = c.Size(); else if (k == 1) got = c.Empty();
			else { const Variant &v = real(s); Variant w = v; got = c.Index(w); }
		}, [&] {
			CellP y;
			if (k == 2) { y = find(s, r, true); if (!y) return false; }
			CellP c = find(d, r, true);
			if (!c) return false;
			unsigned want, n = c->c ? c->c->l.size() + c->c->m.size() : c->t == MV::Str ? c->sc.s.size() : c->t == MV::Blob ? c->b->size() : 0;
			if (k == 2) {
				if (c->t != MV::List) return false;
				want = n;
				MV v = tree(*y);
				for (size_t i = c->c->l.size(); i--; ) if (eq(tree(*c->c->l[i]), v)) want = i;
			} else {
				// sizes of null and the emptiness of blobs are not documented
				if (c->t == MV::Null || (c->t == MV::Blob && k == 1)) return !dead && last_ok;
				if (!c->c && c->t != MV::Str && c->t != MV::Blob) return false;
				want = k == 0 ? n : n == 0;
			}
			if (got != want) violate(string("value:") + nm[k], "%s of %s is %u, expected %u: %s", nm[k], name(d).c_str(), got, want, show(tree(*c)).c_str());
			return true;
		});
		break;
	}
	case 31: { // numbers and truth
		int k = draw(4);
		static const char *const nm[] = {"as-int", "as-unsigned", "as-double", "as-bool"};
		ev("%s of %s", nm[k], name(d).c_str());
		long double got = 0;
		both(nm[k], {d}, d, [&] { const Variant &c = real(d); got = k == 0 ? (long double)c.AsInt() : k == 1 ? (long double)c.AsUnsigned() : k == 2 ? (long double)c.AsDouble() : (long double)c.AsBool(); }, [&] {
			CellP c = find(d, r, true);
			if (!c) return false;
			if (c->c || c->t == MV::Blob) return false;
			if (c->t == MV::Str || c->t == MV::Null) return last_ok; // depends on the text
			long double v = c->t == MV::Bool ? c->sc.b : c->t == MV::Int ? (long double)c->sc.i : c->t == MV::Uint ? (long double)c->sc.u : (long double)c->sc.d;
			if (k == 3) v = v != 0;
			else if (k == 1 && v < 0) return last_ok;
			else if (fabsl(v) > 4e18L) return last_ok;
			else v = k < 2 ? truncl(v) : (long double)(double)v;
			if (got != v && !(v != v)) violate(string("value:") + nm[k], "%s of %s gives %Lg, expected %Lg", nm[k], show(tree(*c)).c_str(), got, v);
			return true;
		});
		break;
	}
	case 32: { // look up a path, with a default
		MPath p = draw_path();
		int k = draw(2);
		ev("%s %s %s", k ? "at-path-default" : "get-path-default", name(d).c_str(), show_path(p).c_str());
		if (k == 0) {
			MV got;
			both("get-path-default", {d}, d, [&] { const Variant &c = real(d); Variant v = c.GetPath(real_path(p), 99); got = to_model(v); }, [&] {
				CellP c = find(d, r, true);
				if (!c) return false;
				for (auto &x : p) { c = step(c, x); if (!c) break; }
				MV want = c ? tree(*c) : MV::integer(99);
				if (!same(got, want)) violate("value:get-path-default", "the path %s gives %s, expected %s", show_path(p).c_str(), show(got).c_str(), show(want).c_str());
				return true;
			});
			break;
		}
		for (auto &e : p) if (!e.is_key && e.idx > 1000) return;
		both("at-path-default", {d}, d, [&] { VariantRef n = real(d).AtPath(real_path(p), 98); }, [&] {
			Res q;
			CellP base = create(d, q, true);
			if (!base) return false;
			MPath full;
			if (d.ref && mr[d.i].proxy) full = mr[d.i].path;
			full.insert(full.end(), p.begin(), p.end());
			if (!settable(base, full)) return false;
			CellP c = create(d, q, false), had = c;
			for (auto &x : p) { had = step(had, x); if (!had) break; }
			c = make_path(c, p);
			if (!had) set_scalar(*c, MV::integer(98));
			return true;
		});
		break;
	}
	case 33: { // from standard containers
		unsigned n = draw(4), k = draw(3);
		std::vector<int> ints;
		std::vector<string> strs;
		std::map<string, unsigned> named;
		for (unsigned i = 0; i < n; ++i) { ints.push_back(draw(9)); strs.push_back(draw_key()); named[draw_key()] = draw(9); }
		ev("%s = %u elements of a standard container (%u)", name(d).c_str(), n, k);
		both("assign-container", {d}, d, [&] { Variant &x = real(d); if (k == 0) x = ints; else if (k == 1) x = strs; else x = named; }, [&] {
			CellP c = create(d, r, false);
			if (!c) return false;
			set_type(*c, k == 2 ? MV::Map : MV::List);
			if (k == 2) for (auto &e : named) set_scalar(*make_path(c, {{true, e.first, 0}}), MV::uinteger(e.second));
			else for (unsigned i = 0; i < n; ++i) set_scalar(*make_path(c, {{false, "", i}}), k ? MV::str(strs[i]) : MV::integer(ints[i]));
			return true;
		});
		break;
	}
	case 34: { // the value itself, created if it is missing
		MV def = draw_scalar();
		CellP c = find(d, r, false);
		if (c && c->t == MV::Null) return; // whether null counts as missing is not documented
		c.reset();
		int k = draw(3);
		static const char *const nm[] = {"resolve", "resolve-const", "resolve-default"};
		ev("%s %s", nm[k], name(d).c_str());
		Variant *dv;
		{ Lib l; dv = new Variant(build(def)); }
		MV got;
		both(nm[k], {d}, d, [&] {
			Variant &x = real(d);
			if (k == 0) got = to_model(x.Resolve()); else if (k == 1) got = to_model(((const Variant &)x).Resolve()); else got = to_model(x.Resolve(*dv));
		}, [&] {
			CellP had = find(d, r, false);
			CellP t = k == 1 ? find(d, r, true) : create(d, r, false);
			if (!t) return false;
			if (!had && k == 2) set_scalar(*t, def);
			MV want = tree(*t);
			if (!same(got, want)) violate(string("value:") + nm[k], "%s gives %s, expected %s", nm[k], show(got).c_str(), show(want).c_str());
			return true;
		});
		Lib l;
		delete dv;
		break;
	}
	case 35: { // order
		LV s = any();
		ev("order %s %s", name(d).c_str(), name(s).c_str());
		int ab = 0, ba = 0;
		bool can = false;
		both("order", {d, s}, d, [&] { const Variant &a = real(d), &b = real(s); ab = a.Compare(b); ba = b.Compare(a); can = a.Comparable(b); }, [&] {
			CellP x = find(d, r, true);
			if (!x) return false;
			CellP y = find(s, r, true);
			if (!y) return false;
			auto num = [](const Cell &c) { return c.t == MV::Int || c.t == MV::Uint || c.t == MV::Float; };
			bool want = x->t == y->t || (num(*x) && num(*y));
			if (can != want) violate("value:comparable", "%s and %s comparable: %d", show(tree(*x)).c_str(), show(tree(*y)).c_str(), can);
			if (!want) { if (!ab || !ba) violate("value:order", "different types compare equal"); return true; }
			auto sign = [](int v) { return (v > 0) - (v < 0); };
			// the order of other types is documented as inconsistent
			if ((num(*x) || x->t == MV::Str) && sign(ab) != -sign(ba)) violate("value:order", "%s and %s compare as %d and %d", show(tree(*x)).c_str(), show(tree(*y)).c_str(), ab, ba);
			if (x->t == MV::Str && sign(ab) != sign(x->sc.s.compare(y->sc.s))) violate("value:order", "texts compare as %d", ab);
			return true;
		});
		break;
	}
	case 36: { // through the standard container of a list or map
		CellP c = find(d, r, false);
		if (r != Good || !c || !c->c) return;
		MV v = draw_scalar();
		int k = draw(3);
		unsigned n = c->c->l.size() + c->c->m.size(), at = draw(n + 1);
		ev("%s: %s through the container, element %u", name(d).c_str(), k == 0 ? "insert" : k == 1 ? "remove" : "replace", at);
		Variant *nv;
		{ Lib l; nv = new Variant(build(v)); }
		string key = draw_key();
		bool held = k && at >= n;
		if (c->t == MV::List && k < 2) for (auto &m : mr) { CellP b = m.base.lock(); if (b && b->owner == c->c.get()) held = true; } // elements move
		if (held) { Lib l; delete nv; break; }
		both("container", {d}, d, [&] {
			Variant &x = real(d);
			if (x.IsList()) {
				Variant::List &l = x.AsList();
				if (k == 0) l.insert(l.begin() + at, *nv); else if (k == 1) l.erase(l.begin() + at); else l[at] = *nv;
			} else {
				Variant::Map &m = x.AsMap();
				auto i = m.begin();
				for (unsigned j = 0; j < at && k; ++j) ++i;
				if (k == 0) m[key] = *nv; else if (k == 1) m.erase(i); else i->second = *nv;
			}
		}, [&] {
			CellP t = find(d, r, true);
			Cont &q = *t->c;
			auto e = std::make_shared<Cell>();
			e->owner = &q;
			if (t->t == MV::List) {
				if (k == 2) set_scalar(*q.l[at], v);
				else {
					// the elements themselves move: their contents change place
					std::vector<Cell> old;
					for (auto &x : q.l) old.push_back(*x);
					for (auto &x : q.l) ++x->gen;
					if (k == 0) { set_scalar(*e, v); old.insert(old.begin() + at, *e); q.l.push_back(e); }
					else { old.erase(old.begin() + at); q.l.pop_back(); }
					for (size_t i = 0; i < q.l.size(); ++i) assign(*q.l[i], old[i]);
				}
			} else {
				auto i = q.m.begin();
				for (unsigned j = 0; j < at && k; ++j) ++i;
				if (k == 0) { auto &p = q.m[key]; if (!p) p = e; set_scalar(*p, v); }
				else if (k == 1) q.m.erase(i);
				else set_scalar(*i->second, v);
			}
			return true;
		});
		Lib l;
		delete nv;
		break;
	}
	case 37: { // results of these functions are independent of their arguments
		LV s = any();
		CellP c = find(d, r, false);
		if (r != Good || !c) return;
		CellP e = find(s, r, false);
		if (r != Good || !e) return;
		MV ma = tree(*c), mb = tree(*e);
		uint32_t k = draw(4);
		static const char *const names[] = {"update", "difference", "flatten", "copy"};
		ev("%s %s %s", names[k], name(d).c_str(), name(s).c_str());
		Variant *a, *b, *x;
		{ Lib l; a = new Variant(build(ma)); b = new Variant(build(mb)); x = new Variant; }
		if (k == 0) { Lib l; *x = a->Copy(); }
		both(names[k], {}, d, [&] {
			const Variant &ca = *a, &cb = *b;
			switch (k) {
			case 0: RUpdate(*x, cb); break;
			case 1: *x = RDiff(ca, cb); break;
			case 2: // not every value has a flat form
				try { *x = FlattenPath(cb); }
				catch (const std::bad_alloc &) { throw; }
				catch (const std::exception &) {}
				break;
			default: *x = cb.Copy();
			}
		}, [&] { return true; });
		if (dead) { Lib l; delete a; delete b; delete x; break; }
		if (!same(to_model(*a), ma) || !same(to_model(*b), mb)) violate("value:argument-changed", "%s changed its arguments: %s and %s are %s and %s", names[k], show(ma).c_str(), show(mb).c_str(), show(to_model(*a)).c_str(), show(to_model(*b)).c_str());
		MV before = to_model(*x);
		spoil(*a); spoil(*b);
		if (!same(to_model(*x), before)) violate("value:shares-argument", "the result of %s follows its arguments: %s became %s", names[k], show(before).c_str(), show(to_model(*x)).c_str());
		if (before.t == MV::Map && before.m.size()) probe("result checked for independence of the arguments");
		Lib l;
		delete a; delete b; delete x;
		break;
	}
	case 27: { // blob bytes are shared by assignment, not by copying
		CellP c = find(d, r, false);
		if (r != Good || !c || c->t != MV::Blob || !c->b || c->b->empty()) return;
		if (chance(1, 2)) { // equal bytes are equal however they are cut into buffers
			string s = *c->b;
			uint32_t k = draw(4);
			if (k == 1) ++s[draw(s.size())];
			else if (k == 2) s.resize(draw(s.size()));
			else if (k == 3) s += (char)draw(2);
			ev("compare %s with other binary data (%u)", name(d).c_str(), k);
			BlobPtr b;
			{ Lib l; b = make_blob(s, draw(8)); }
			bool ab = false, ba = false;
			both("compare-blob", {d}, d, [&] { const Variant &a = real(d); Variant o(b); ab = a == o; ba = o == a; }, [&] {
				if (ab != (k == 0) || ba != (k == 0)) violate("value:compare-blob", "binary data %s and %s are equal: %d, %d", quote(*find(d, r, true)->b).c_str(), quote(s).c_str(), ab, ba);
				probe("binary data compared across buffers");
				return true;
			});
			break;
		}
		ev("change byte in %s", name(d).c_str());
		both("blob-write", {d}, d, [&] { BlobPtr b = real(d).AsBlob(); for (unsigned i = 0; i < b->GetNumBuffers(); ++i) if (b->GetLength(i)) { ++*(char *)b->GetPtr(i); break; } }, [&] {
			CellP t = find(d, r, true);
			++(*t->b)[0];
			return true;
		});
		break;
	}
	}
	for (unsigned i = 0; i < rv.size() && !dead; ++i)
		if (weight(*mv[i]) > 150) { Lib l; rv[i]->Assign(VariantDefines::NullType); Out o; set_type(*mv[i], MV::Null); ev("v%u reset", i); }
}
void Values::run() {
	for (unsigned i = 0; i < opt.nops && !dead; ++i) step_once();
	mix(hash(tree(*mv[0])));
	mix(rr.size());
}
}
