// C13: a value that nobody modifies can be read from several threads.
#include "sched.h"
#include "../common.h"
#include "../main.h"
#include <Variant/Extensions.h>
#include <Variant/Path.h>
using namespace sim;
using namespace libvariant;
using std::string;
using std::vector;

struct Read { int op; vector<uint32_t> walk; uint32_t a, b; Format f; MV params; string result; };
enum { WHOLE, SIZE, TEXT, NUMBER, COMPARE, COPY, HANDLE, GET, PATH, ITERATE, SERIALIZE, BLOB, OWN, INDEX, FLATTEN, DIFF, MERGE, NOPS };
static const char *const names[NOPS] = {"read all", "size", "as text", "as number", "compare", "copy", "handles", "get", "path", "iterate", "serialize", "binary data", "own container", "index", "flatten", "difference", "own edit"};

static const Variant *find(const Variant &root, const vector<uint32_t> &walk) {
	const Variant *v = &root;
	for (uint32_t w : walk) {
		if (v->IsList() && v->Size()) v = &v->At(w % v->Size());
		else if (v->IsMap() && v->Size()) { Variant::ConstMapIterator i = v->MapBegin(); for (unsigned k = w % v->Size(); k; --k) ++i; v = (w & 64) ? &i->second : &v->At(i->first); }
		else break;
	}
	return v;
}
// Performs a read as code under test.
static string perform(const Variant &root, Read &r) {
	string res;
	Outcome o = capture([&](MV &) {
		string t;
		const Variant &v = *find(root, r.walk);
		switch (r.op) {
		case WHOLE: { MV m = to_model(v); Out x; res = show(m, 4000); break; }
		case SIZE: { unsigned n = v.Size(); bool e = v.Empty(); Out x; res = fmt("%u %d %d", n, e, (int)v.GetType()); break; }
		case TEXT: { t = v.AsString(); break; }
		case NUMBER: { bool b = v.AsBool(); double d = v.AsDouble(); intmax_t i = v.AsInt(); Out x; res = fmt("%d %g %lld", b, d, (long long)i); break; }
		case COMPARE: { vector<uint32_t> w; { Out x; w = r.walk; if (!w.empty()) w.pop_back(); w.push_back(r.a); } const Variant &u = *find(root, w); int c = v.Compare(u), k = root.Compare(v); bool p = v.Comparable(u); { Out x; res = fmt("%d %d %d", c, k, p); vector<uint32_t>().swap(w); } break; }
		case COPY: { Variant c = v.Copy(); MV m = to_model(c); if (c.IsMap()) c["new"] = 1; else if (c.IsList()) c.Append(2); else c = "other"; Out x; res = show(m, 4000); break; }
		case HANDLE: {
			std::vector<Variant> h;
			for (unsigned i = 0; i < 1 + r.a % 4; ++i) h.push_back(v);
			Variant k = h[0];
			h.clear();
			MV m = to_model(k);
			k = 5;
			k = v;
			Out x;
			res = show(m, 4000);
			break;
		}
		case GET:
			if (v.IsMap()) { bool c = v.Contains("a"); Variant g = v.Get("a", Variant("none")); Variant d = v.Get("not there", Variant(1)); MV m = to_model(g); Out x; res = fmt("%d ", c) + show(m); }
			else if (v.IsList()) { bool c = v.Contains(1); Variant g = v.Get(r.a % 4, Variant("none")); MV m = to_model(g); Out x; res = fmt("%d ", c) + show(m); }
			else { t = v.AsString(); }
			break;
		case PATH: {
			Path p;
			{ Out x; }
			const Variant *u = &root;
			for (uint32_t w : r.walk) {
				if (u->IsList() && u->Size()) { p.push_back(PathElement(w % u->Size())); u = &u->At(w % u->Size()); }
				else if (u->IsMap() && u->Size()) { Variant::ConstMapIterator i = u->MapBegin(); for (unsigned k = w % u->Size(); k; --k) ++i; p.push_back(PathElement(i->first)); u = &i->second; }
				else break;
			}
			bool h = root.HasPath(p);
			Variant g = root.GetPath(p), d = root.GetPath("/not/there", Variant());
			const Variant &q = root.AtPath(p);
			bool e = q == g;
			MV m = to_model(g);
			Out x;
			res = fmt("%d %d ", h, e) + show(m, 4000);
			break;
		}
		case ITERATE: {
			unsigned n = 0;
			if (v.IsList()) { for (Variant::ConstListIterator i = v.ListBegin(); i != v.ListEnd(); ++i) n = n * 31 + i->GetType(); }
			else if (v.IsMap()) { for (Variant::ConstMapIterator i = v.MapBegin(); i != v.MapEnd(); ++i) n = n * 31 + i->second.GetType() + i->first.size(); }
			Out x;
			res = fmt("%u", n);
			break;
		}
		case SERIALIZE: { Variant p = build(r.params); t = Serialize(r.a & 1 ? root : v, stype(r.f), p); break; }
		case BLOB:
			if (v.IsBlob()) { ConstBlobPtr b = v.AsBlob(); unsigned n = b->GetTotalLength(); BlobPtr c = b->Copy(); bool e = b->Compare(c) == 0; Out x; res = fmt("%u %d", n, e); }
			else { unsigned n = v.GetType(); Out x; res = fmt("%u", n); }
			break;
		case OWN: {
			Variant own;
			own["a"] = v;
			own["l"].Append(root);
			own["l"].Append(v);
			Variant c = own.Copy();
			own["a"] = 1;
			MV m = to_model(c);
			Out x;
			res = show(m, 4000);
			break;
		}
		case INDEX: { unsigned n = v.Index(Variant(1)); Out x; res = fmt("%u", n); break; }
		case FLATTEN: { Variant c = FlattenPath(v); MV m = to_model(c); Out x; res = show(m, 4000); break; }
		case DIFF: { Variant d = JSONDiff(root, v); MV m = to_model(d); Out x; res = show(m, 4000); break; }
		default: { Variant own = root.Copy(); RUpdate(own, v); Variant d = RDiff(own, v); MV m = to_model(own), k = to_model(d); Out x; res = show(m, 4000) + show(k, 4000); break; }
		}
		if (!t.empty()) { Out x; res.assign(t.data(), t.size()); }
	});
	if (!o.ok) res = "failed: " + o.what;
	return res;
}
static void run() {
	Gen g((Format)draw(NFORMATS));
	g.budget = std::min<uint32_t>(g.budget, 40);
	g.any_text = draw(2);
	MV model = g.root();
	unsigned n = 2 + draw(MAX_THREADS - 1);
	uint32_t allowed = chance(1, 2) ? ~0u : draw(1u << NOPS) | 1u << draw(NOPS); // swarm
	std::unique_ptr<Variant> root;
	{ Lib l; root.reset(new Variant(build(model))); }
	const Variant &v = *root;
	vector<vector<Read>> reads(n);
	vector<std::function<void()>> bodies;
	for (unsigned t = 0; t < n; ++t) {
		unsigned k = 1 + draw(6);
		reads[t].resize(k);
		for (auto &r : reads[t]) {
			r.op = draw(NOPS);
			while (!(allowed >> r.op & 1)) r.op = (r.op + 1) % NOPS;
			unsigned d = draw(4);
			for (unsigned i = 0; i < d; ++i) r.walk.push_back(draw(128));
			r.a = draw(8);
			r.f = (Format)draw(NFORMATS);
			if (r.op == SERIALIZE && draw(2)) { Lib l; r.params = to_model(gen_params(r.f, 0)); }
		}
		bodies.push_back([&reads, &v, t] {
			for (auto &r : reads[t]) { set_op(names[r.op]); r.result = perform(v, r); ev("thread %u: %s -> %s", t, names[r.op], quote(r.result, 60).c_str()); }
		});
	}
	run_threads(bodies);
	SchedStats ss = sched_stats;
	MV now;
	{ Lib l; now = to_model(v); }
	if (!same(now, model)) violate("changed", "the value was %s and is %s after only reading it", show(model).c_str(), show(now).c_str());
	string list;
	for (unsigned t = 0; t < n; ++t)
		for (auto &r : reads[t]) {
			string alone = perform(v, r);
			if (alone != r.result) violate(fmt("result:%s", names[r.op]), "thread %u: %s of %s gives %s, alone %s", t, names[r.op], show(model).c_str(), quote(r.result).c_str(), quote(alone).c_str());
			list += (list.empty() ? "" : ", ") + string(names[r.op]);
		}
	if (ss.preemptions && ss.shared_accesses) nontrivial();
	if (ss.atomics) probe("reference counts used");
	if (ss.sync_blocks) probe("a thread waited for another");
	mix(hash(model));
	ev("%u threads, %llu accesses, %llu atomic, %llu shared, %llu preemptions", n, (unsigned long long)ss.accesses, (unsigned long long)ss.atomics, (unsigned long long)ss.shared_accesses, (unsigned long long)ss.preemptions);
	sample("%u threads read %.80s: %.200s; %llu accesses, %llu shared, %llu preemptions", n, show(model, 80).c_str(), list.c_str(), (unsigned long long)ss.accesses, (unsigned long long)ss.shared_accesses, (unsigned long long)ss.preemptions);
	{ Lib l; root.reset(); }
}
static Register r({"C13", "each run builds one value and lets 2-4 threads perform 1-6 drawn reads each (conversion, search, comparison, iteration, copying, handles, serialization in every format, flattening, differences) on it or parts of it, one thread running at a time, preempted at drawn memory accesses and synchronisation operations; a happens-before analysis looks for data races, results are compared with the same reads performed alone, and the value with its model; non-trivial: a preemption took effect and memory was used by two threads; distinct by edges reached, preemption points and value", run, 400000000, 1, false});
