// C17: damaged input is contained.
#include "world.h"
#include "main.h"
#include "common.h"
using namespace sim;
using namespace libvariant;
using std::string;

static size_t nodes(const MV &v) { return count(v); }

static void run() {
	Format f = (Format)draw(NFORMATS);
	Gen g(f);
	g.big = false;
	g.budget = std::min<uint32_t>(g.budget, 40);
	int mode = draw(7); // 0,1 one call, 2 guess, 3 all documents, 4 payload, 5,6 events
	string doc;
	if (mode == 4) {
		string payload;
		MV m = payload_root(f, g, &payload);
		if (payload.size() > 200) payload.resize(200);
		Lib l;
		Variant v = build(m);
		add_payload(v, f, payload);
		string s = SerializeWithPayload(v, stype(f));
		Out o;
		doc.assign(s.data(), s.size());
	} else if (chance(1, 3)) {
		g.odd = true;
		MV m = g.root();
		Lib l;
		Variant v = build(m);
		Variant params = gen_params(f, 0);
		string s = Serialize(v, stype(f), params);
		Out o;
		doc.assign(s.data(), s.size());
	} else if (chance(1, 10)) doc = gen_bytes(draw(80));
	else if (chance(1, 3)) doc = odd_text(f);
	else doc = render(f, g.root(), true);
	if (mode == 3 && chance(1, 2)) doc += render(f, g.root(), true);
	string desc = draw(4) ? mutate(f, doc) : string();
	Format pf = chance(1, 12) ? (Format)draw(NFORMATS) : f; // sometimes read as another format
	ev("format=%s read as %s mode=%d damage: %s", format_names[f], format_names[pf], mode, desc.c_str());
	ev_bytes("document", doc.data(), doc.size());
	string tag = fmt("%s:%d", format_names[pf], mode);
	struct Result { Outcome o; uint64_t hash = 0, events = 0; size_t docs = 0; };
	auto parse = [&](SourceKind k, const ReadPlan &p, bool use) {
		Result res;
		Source s(k, doc, p);
		EventLog log;
		log.tag = tag;
		res.o = capture([&](MV &r) {
			if (mode >= 5) {
				Parser q = CreateParser(s.open_input(), stype(pf));
				q.PushAction(event_actions(&log));
				unsigned calls = 0;
				try {
					while (q.Run() == 0) if (++calls > 200000) { Out o; violate("endless:" + tag, "%u calls without an end", calls); }
				} catch (...) {
					bool err = q.Error(), ok = q.Ok(), done = q.Done();
					string es = q.ErrorStr();
					Out o;
					if (!err) violate("state:" + tag, "the parse failed and the parser does not say so (Error %d Ok %d Done %d)", err, ok, done);
					throw;
				}
				Out o;
				if (!log.open.empty()) violate("unclosed:" + tag, "the parse ended normally with %zu open containers", log.open.size());
				Lib l;
				uint64_t n = log.events;
				int again = q.Run();
				Out o2;
				if (again != 1 || n != log.events) violate("not-done:" + tag, "after the end the parser returned %d and sent %llu more events", again, (unsigned long long)(log.events - n));
			} else if (mode == 3) {
				LoadAllIterator i = s.deserialize_all(pf);
				MV all(MV::List);
				unsigned n = 0;
				for (; i != LoadAllIterator(); ++i) {
					MV x = to_model(*i);
					Out o;
					if (++n > 100000) violate("endless:" + tag, "%u documents from %zu bytes", n, doc.size());
					r.l.push_back(x);
				}
				Out o;
				r.t = MV::List;
				res.docs = n;
			} else {
				Variant v;
				if (mode == 4) v = s.deserialize_payload(pf, Variant());
				else if (mode == 2) v = s.deserialize_guess();
				else v = s.deserialize(pf);
				r = to_model(v);
				if (use) { // the value can be used
					size_t n;
					{ Out o; n = nodes(r); }
					if (n < 20000) {
						Variant c = v.Copy();
						bool same_value = c == v;
						string t = SerializeJSON(c);
						Out o;
						mix(same_value); mix(t.size());
					}
					probe("value used");
				}
			}
		});
		res.hash = log.hash;
		res.events = log.events;
		if (log.max_depth > 900) probe("events nested deeper than 900");
		return res;
	};
	set_op("parse-memory");
	Result base = parse(SRC_MEM, ReadPlan(), true);
	ev("outcome %s, %llu events", show(base.o).c_str(), (unsigned long long)base.events);
	unsigned n = 1 + draw(2);
	for (unsigned i = 0; i < n; ++i) {
		SourceKind k = (SourceKind)draw(NSOURCES);
		if (k == SRC_STRING && doc.find('\0') != string::npos) k = SRC_MEM;
		ReadPlan p = draw_read_plan(doc.size(), true);
		if (doc.size() > 6000 && p.mode == ReadPlan::Fixed && p.k < 8) p.k = 64;
		set_op(fmt("parse-%s", source_names[k]).c_str());
		Result b = parse(k, p, false);
		ev("again via %s %s: %s", source_names[k], p.desc().c_str(), show(b.o).c_str());
		if (base.o.ok != b.o.ok || (b.o.ok && !same(base.o.v, b.o.v))) violate("unstable:" + tag, "the same bytes give %s and then, via %s %s, %s; %s", show(base.o).c_str(), source_names[k], p.desc().c_str(), show(b.o).c_str(), quote(doc, 300).c_str());
		if (mode >= 5 && base.o.ok && (base.hash != b.hash || base.events != b.events)) violate("unstable:" + tag, "the same bytes give %llu events and then, via %s, %llu; %s", (unsigned long long)base.events, source_names[k], (unsigned long long)b.events, quote(doc, 300).c_str());
		mix(k); mix(p.mode);
	}
	mix(pf); mix(mode); mix(fnv(doc.data(), doc.size()));
	nontrivial();
	probe(fmt("%s %d %s", format_names[pf], mode, base.o.ok ? "value" : "exception").c_str());
	sample("%s read as %s mode=%d, %s: %s -> %s", format_names[f], format_names[pf], mode, desc.c_str(), quote(doc, 200).c_str(), show(base.o).c_str());
}
static Register r({"C17", "each run draws a document in a drawn format, damages it with 1-6 drawn mutations (flips, drops, inserted tokens and bytes, repeated blocks, truncation, splices, deep nesting), and parses it from memory and once or twice more through drawn sources with drawn delivery, as a value, all documents, with payload, guessed, or event by event with a nesting automaton; all runs are non-trivial; distinct by bytes, mode and delivery", run, 100000000, 64, true});
