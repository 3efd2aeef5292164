// C20: the command-line tool reports every failure.
#include "act.h"
#include "main.h"
#include <Variant/Extensions.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <ext/stdio_sync_filebuf.h>
#include <errno.h>
#include <getopt.h>
#include <iostream>
#include <sstream>
using namespace sim;
using namespace libvariant;
using std::string;
using std::vector;

int varsh_main(int argc, char **argv);

namespace {
struct Input { string path, text; bool missing = false; };
struct Call {
	vector<string> args;
	vector<Input> inputs;        // the only one has no path: standard input
	SerializeType in = SERIALIZE_GUESS, out = SERIALIZE_JSON;
	bool payload_in = false, payload_out = false, flatten = false, expand = false, list = false, len = false;
	bool has_set = false, set_file = false, set_missing = false, bad = false;
	string set, path, output, schema_path;
	vector<string> schemas;
	vector<std::pair<string, MV>> sparams, eparams;
};
struct Expected { bool ok = false; string why, text; };
struct Result { int status = 0; string how, text; uint64_t failures = 0, fired = 0, allocs = 0; };

const char *const CFG_OUT = "/sim/stdout";

// What the tool should write, by calling the library directly.
Expected expected(const Call &c) {
	Expected x;
	if (c.bad) { x.why = "bad arguments"; return x; }
	set_op("expected");
	Outcome o = capture([&](MV &) {
		AdvSchemaLoader loader;
		loader.AddPath(".");
		if (c.schema_path.size()) loader.AddPath(c.schema_path);
		Variant sp(VariantDefines::MapType), ep(VariantDefines::MapType);
		for (auto &p : c.sparams) sp[p.first] = build(p.second);
		for (auto &p : c.eparams) ep[p.first] = build(p.second);
		if (c.set_missing) throw std::runtime_error("no file to set from");
		for (auto &in : c.inputs) {
			if (in.missing) throw std::runtime_error("no input file");
			Variant data = c.payload_in ? DeserializeWithPayload(in.text.data(), in.text.size(), c.in) : Deserialize(in.text, c.in);
			if (c.flatten) data = FlattenPath(data, ep);
			else if (c.expand) data = ExpandPath(data, ep);
			for (auto &s : c.schemas) if (SchemaValidate(Variant(s), data, &loader).Error()) throw std::runtime_error("schema");
			if (c.has_set) {
				Variant v = c.set_file ? DeserializeGuess(c.set) : Variant(c.set);
				if (c.path.empty()) data = v; else data.SetPath(c.path, v);
			} else if (c.path.size()) data = data.GetPath(c.path);
			string t;
			if (c.list) { for (Variant::MapIterator i(data.MapBegin()), e(data.MapEnd()); i != e; ++i) t += i->first + "\n"; }
			else if (c.len) t = fmt("%zu\n", (size_t)data.Size());
			else if (c.payload_out) t = SerializeWithPayload(data, c.out, sp);
			else t = Serialize(data, c.out, sp) + "\n";
			Out q;
			x.text += t;
		}
	});
	x.ok = o.ok;
	if (!o.ok) x.why = o.what;
	return x;
}

// Runs the tool.
Result invoke(const Call &c, const AllocPlan *plan) {
	Result r;
	char x[] = "x";
	char *none[] = {x, 0};
	optind = 0;
	getopt(1, none, "");
	FILE *in0 = stdin, *out0 = stdout;
	FILE *in = sim_fopen("/sim/stdin", "r"), *out = sim_fopen(CFG_OUT, "w");
	uint64_t f0 = disk.read_failures + disk.write_failures + disk.close_failures + disk.failed_opens;
	{
		stdin = in;
		stdout = out;
		__gnu_cxx::stdio_sync_filebuf<char> ib(in), ob(out);
		std::stringbuf eb;
		std::streambuf *i0 = std::cin.rdbuf(&ib), *o0 = std::cout.rdbuf(&ob), *e0 = std::cerr.rdbuf(&eb);
		std::cin.clear(); std::cout.clear(); std::cerr.clear();
		vector<char *> av;
		for (auto &a : c.args) av.push_back((char *)a.c_str());
		av.push_back(0);
		set_op("varsh");
		int in_lib = g_in_lib;
		alloc_arm(plan ? *plan : AllocPlan());
		jmp_buf jb;
		if (setjmp(jb) == 0) {
			g_exit = &jb;
			int status = 0;
			Outcome o = capture([&](MV &) { status = varsh_main(c.args.size(), av.data()); });
			r.status = o.ok ? status : 134;
			r.how = o.ok ? fmt("returns %d", status) : "dies of " + show(o);
		} else {
			g_in_lib = in_lib;
			r.status = g_exit_code;
			r.how = fmt("exits with %d", g_exit_code);
		}
		g_exit = 0;
		r.allocs = alloc_count();
		r.fired = alloc_fired();
		alloc_disarm();
		// the end of the process
		std::cout.flush();
		ev("varsh %s %s", r.how.c_str(), quote(eb.str(), 100).c_str());
		std::cin.rdbuf(i0); std::cout.rdbuf(o0); std::cerr.rdbuf(e0);
		std::cin.clear(); std::cout.clear(); std::cerr.clear();
	}
	stdin = in0;
	stdout = out0;
	sim_fclose(in);
	sim_fclose(out);
	r.failures = disk.read_failures + disk.write_failures + disk.close_failures + disk.failed_opens - f0;
	r.text = disk.files[c.output.size() ? c.output : CFG_OUT];
	return r;
}

MV opt_int(Call &c, const char *name, const char *key, unsigned n) {
	MV v = MV::integer(draw(n));
	c.args.push_back(fmt("--%s=%lld", name, (long long)v.i));
	c.sparams.push_back({key, v});
	return v;
}

// Text that is the same value whether it is taken for JSON or YAML.
string json(const MV &m) {
	string t;
	capture([&](MV &) { string s = Serialize(build(m), SERIALIZE_JSON); Out o; t = string(s.data(), s.size()); });
	return t;
}

void draw_call(Call &c) {
	c.args.push_back("varsh");
	Format inf = (Format)draw(NFORMATS), outf = (Format)draw(NFORMATS);
	if (outf == BUNDLE && inf != BUNDLE && chance(3, 4)) outf = JSON;
	bool guess = inf != BUNDLE && chance(1, 4);
	static const char *const is[] = {"-J", "-Y", "-X", "-B"}, *const os[] = {"-j", "-y", "-x", "-b"};
	static const char *const il[] = {"--json-in", "--yaml-in", "--xml-in", "--bundlehdr-in"}, *const ol[] = {"--json", "--yaml", "--xml", "--bundlehdr"};
	if (!guess) { c.args.push_back(draw(2) ? il[inf] : is[inf]); c.in = stype(inf); }
	else if (draw(2)) c.args.push_back("-G");
	c.out = stype(outf);
	if (outf != JSON || draw(2)) c.args.push_back(draw(2) ? ol[outf] : os[outf]);
	c.sparams.push_back({"pretty", MV::boolean(true)});
	c.payload_in = !guess && chance(1, 6);
	c.payload_out = chance(1, c.payload_in ? 2 : 20);
	if (c.payload_in) c.args.push_back("-P");
	if (c.payload_out) c.args.push_back("-p");
	unsigned n = chance(1, 3) ? 0 : 1 + draw(3);
	vector<string> keys;
	Gen g(inf);
	g.budget = chance(1, 12) ? 2000 : 30;
	for (unsigned i = 0; i < n + !n; ++i) {
		Input in;
		if (n) in.path = fmt("/sim/input%u", i);
		if (c.payload_in) {
			string pl;
			MV m = payload_root(inf, g, &pl);
			if (!i) for (auto &k : m.m) keys.push_back(k.first);
			Outcome o = capture([&](MV &) { Variant v = build(m); add_payload(v, inf, pl); string t = SerializeWithPayload(v, stype(inf)); Out x; in.text = string(t.data(), t.size()); });
		} else if (draw(4) || inf == BUNDLE) { MV m = g.root(); in.text = render(inf, m); if (!i) for (auto &k : m.m) keys.push_back(k.first); }
		else { MV m = gen_data(3); if (!m.container()) { MV q(MV::Map); q.m["a"] = m; m = q; } if (!i) for (auto &k : m.m) keys.push_back(k.first); in.text = render(inf, m); }
		c.inputs.push_back(in);
	}
	switch (draw(16)) {
	case 1: c.list = true; c.args.push_back("--list"); break;
	case 4: c.len = true; c.args.push_back("--length"); break;
	case 2: c.has_set = true; c.set = "some text"; c.args.push_back("--set"); c.args.push_back(c.set); break;
	case 3: {
		c.has_set = c.set_file = true;
		MV m = gen_data(2);
		if (!m.container()) { MV q(MV::Map); q.m["b"] = m; m = q; }
		c.set = json(m);
		c.args.push_back("--set-file=/sim/set.json");
		break;
	}
	default: break;
	}
	if (chance(1, keys.size() ? 3 : 20)) {
		static const char *const ps[] = {"a", "b", "a/b", "a/0", "/a", "x1"};
		c.path = keys.size() && chance(9, 10) ? pick(keys) : string(ps[draw(6)]);
		if (c.path[0] == '-') c.path = "a";
		c.args.push_back("--path=" + c.path);
	}
	if (chance(1, 10)) { c.flatten = true; c.args.push_back("-f"); }
	else if (chance(1, 10)) { c.expand = true; c.args.push_back("--expand-path"); }
	c.eparams = {{"noSimpleLists", MV::boolean(false)}, {"pathPrefix", MV::str("")}, {"pathDelimiter", MV::str("/")}, {"indexPrefix", MV::str("[")}, {"indexSuffix", MV::str("]")}, {"listDelimiter", MV::str(",")}};
	if (chance(1, 6)) opt_int(c, "indent", "indent", 9);
	if (chance(1, 8)) opt_int(c, "precision", "precision", 17);
	if (chance(1, 8)) opt_int(c, "width", "width", 100);
	if (chance(1, 2)) { c.output = "/sim/output"; if (draw(2)) { c.args.push_back("-o"); c.args.push_back(c.output); } else c.args.push_back("--out=" + c.output); }
	if (chance(1, 3)) {
		unsigned k = 1 + draw(2);
		for (unsigned i = 0; i < k; ++i) {
			string s;
			MV m = chance(1, 3) ? gen_schema(1, {}) : MV(MV::Map);
			switch (draw(3)) {
			case 0: s = fmt("/sim/schemas/%u.json", i); disk.files[s] = json(m); break;
			case 1: s = fmt("http://sim/%u.json", i); net.replies[s].body = json(m); break;
			default:
				s = fmt("s%u.json", i);
				disk.files["/sim/dir/" + s] = json(m);
				if (c.schema_path.empty()) { c.schema_path = "/sim/dir"; c.args.push_back("--schema-path=/sim/dir"); }
			}
			c.schemas.push_back(s);
			c.args.push_back("--schema");
			c.args.push_back(s);
		}
	}
	for (auto &i : c.inputs) if (i.path.size()) c.args.push_back(i.path);
}

void place(const Call &c) {
	disk.files["/sim/stdin"] = "";
	for (auto &i : c.inputs) {
		string p = i.path.size() ? i.path : "/sim/stdin";
		if (i.missing) disk.files.erase(p); else disk.files[p] = i.text;
	}
	disk.files.erase("/sim/output");
	if (c.set_file && !c.set_missing) disk.files["/sim/set.json"] = c.set;
	else disk.files.erase("/sim/set.json");
}

void run() {
	Call c;
	draw_call(c);
	enum { NONE, MISSING, READ, DAMAGE, OPEN_OUT, WRITE, CLOSE, SCHEMA, SET_FILE, ALLOC, ARGS, NFAULT };
	static const char *const names[] = {"none", "missing input", "read error", "damaged input", "output cannot be opened", "write error", "close error", "schema not loaded", "missing file to set", "allocation", "bad arguments"};
	int fl = draw(NFAULT);
	Input &in = c.inputs[draw(c.inputs.size())];
	string ip = in.path.size() ? in.path : "/sim/stdin";
	string op = c.output.size() ? c.output : CFG_OUT;
	if (fl == MISSING) { if (in.path.size()) in.missing = true; else fl = READ; }
	if (fl == DAMAGE) { string d = mutate(JSON, in.text); ev("damage: %s", d.c_str()); }
	if (fl == SET_FILE) { if (c.set_file) c.set_missing = true; else fl = NONE; }
	if (fl == CLOSE && !c.output.size()) fl = WRITE;
	if (fl == OPEN_OUT && !c.output.size()) fl = WRITE;
	if (fl == ARGS) {
		c.bad = true;
		static const char *const bad[] = {"--no-such-option", "-Z", "--indent=-3", "--indent=four", "--map-style=wavy", "--schema-path", "--path-delimiter=ab"};
		c.args.insert(c.args.begin() + 1, bad[draw(7)]);
		if (c.args[1] == "--schema-path") { c.args.push_back(c.args[1]); c.args.erase(c.args.begin() + 1); }
	}
	string line;
	for (auto &a : c.args) line += a + " ";
	ev("%s", line.c_str());
	for (auto &i : c.inputs) ev("input %s: %s", i.path.c_str(), quote(i.text, 300).c_str());
	place(c);
	Expected x = expected(c);
	ev("expected: %s %s", x.ok ? "success" : "failure", x.ok ? quote(x.text).c_str() : quote(x.why).c_str());
	for (auto &p : {ip, op}) { DiskPlan &d = disk.plans[p]; d.bufmode = draw(4); d.bufsize = 1 + draw_size(9000); d.read = draw_read_plan(in.text.size(), true); }
	AllocPlan ap, *app = 0;
	bool must_fail = false;
	switch (fl) {
	case READ: { DiskPlan &d = disk.plans[ip]; if (in.path.size() && draw(3) == 2) d.open_errno = draw(2) ? EACCES : EMFILE; else d.read.fail_at = draw(in.text.size() + 1); break; }
	case OPEN_OUT: disk.plans[op].open_errno = draw(2) ? EACCES : ENOSPC; must_fail = true; break;
	case WRITE: { size_t at = draw(x.text.size() + (x.text.size() == 0)); (draw(2) ? disk.plans[op].capacity : disk.plans[op].io_error_at) = at; break; }
	case CLOSE: disk.plans[op].close_fails = true; break;
	case SCHEMA:
		if (c.schemas.empty()) { fl = NONE; break; }
		else {
			const string &s = c.schemas[draw(c.schemas.size())];
			must_fail = true;
			if (net.replies.count(s)) { switch (draw(3)) { case 0: net.replies.erase(s); break; case 1: net.replies[s].status = 404; break; default: net.replies[s].curl_code = 28; } }
			else {
				string f = s[0] == '/' ? s : "/sim/dir/" + s;
				switch (draw(3)) { case 0: disk.files.erase(f); break; case 1: disk.plans[f].open_errno = EACCES; break; default: disk.plans[f].read.fail_at = draw(disk.files[f].size()); }
			}
		}
		break;
	case ALLOC: {
		Result count = invoke(c, &ap);
		ap.fail_at = draw(count.allocs + 1);
		ap.repeat = 1 + (chance(1, 4) ? draw(20) : 0);
		ap.persistent = chance(1, 4);
		app = &ap;
		place(c);
		break;
	}
	default: break;
	}
	ev("fault: %s", names[fl]);
	Result r = invoke(c, app);
	string what = c.output.size() ? "file" : "stdout";
	if (r.status == 0) {
		if (!x.ok) violate(fmt("success:%s", c.bad ? "arguments" : in.missing ? "missing-input" : "refused-input"), "varsh succeeds although it cannot do what it should (%s): %s; it wrote %s", quote(x.why).c_str(), line.c_str(), quote(r.text).c_str());
		if (must_fail) violate(fmt("success:%s", fl == SCHEMA ? "schema" : "output"), "varsh succeeds in spite of: %s; %s", names[fl], line.c_str());
		if (r.text != x.text) violate(fmt("output:%s:%s", names[fl], what.c_str()), "varsh succeeds, but %s has %s instead of %s; fault: %s; %s", what.c_str(), quote(r.text).c_str(), quote(x.text).c_str(), names[fl], line.c_str());
		if (r.failures && !r.fired) violate(fmt("unnoticed:%s:%s", names[fl], what.c_str()), "varsh succeeds in spite of: %s; %s", names[fl], line.c_str());
		probe("success");
	} else {
		if (x.ok && !must_fail && !r.failures && !r.fired) violate("refused", "varsh %s although nothing is wrong: %s", r.how.c_str(), line.c_str());
		probe(r.failures || r.fired || must_fail ? "fault reported" : "refusal");
	}
	if (fl != NONE) { probe(names[fl]); if (r.failures || r.fired || must_fail || !x.ok) nontrivial(); }
	else nontrivial();
	mix(fl); mix(r.status); mix(fnv(line.data(), line.size())); mix(fnv(r.text.data(), r.text.size()));
	sample("%s: %s, %s", line.c_str(), names[fl], r.how.c_str());
	if (r.status == 0 && fl != NONE && r.failures == 0) return;
	// afterwards, without the fault
	disk.plans.clear();
}
Register reg({"C20", "each run draws an invocation of the tool (1-3 input files or standard input, formats, options, schemas from files and network, output file or standard output) and one fault: missing or unreadable input, read error, damaged input, output that cannot be opened, full disk or write error at a drawn byte, failing close, schema that cannot be loaded, failing allocation, bad arguments, or none; the exit status and the bytes at the destination are compared with what direct calls of the library give; non-trivial: the fault took effect, or there was none; distinct by arguments, fault, status and output", run, 160000000, 64, true});
}
