#include "world.h"
#include "main.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <libxml/xmlmemory.h>
#include <libxml/parser.h>
#include <libxml/xmlerror.h>

namespace sim {
using std::string;
using namespace libvariant;

const char *const source_names[NSOURCES] = {"memory", "string", "stream", "input", "FILE", "filename", "streambuf"};
const char *const sink_names[NSINKS] = {"output", "streambuf", "FILE", "filename", "string"};

// ---------------------------------------------------------------- plans
string ReadPlan::desc() const {
	const char *m[] = {"whole", "fixed", "random", "split"};
	string s = fmt("%s(%u) buf=%u", m[mode], k, buffer);
	if (fail_at >= 0) s += fmt(" fail@%lld%s", (long long)fail_at, fail_persist ? "" : " once");
	if (eof_at >= 0) s += fmt(" eof@%lld", (long long)eof_at);
	if (err) s += fmt(" errno=%d", err);
	if (thrown) s += fmt(" throws %d", thrown);
	return s;
}
uint32_t ReadPlan::chunk(uint64_t pos, uint32_t want) {
	if (want <= 1) return want;
	uint32_t c = want;
	switch (mode) {
	case Whole: break;
	case Fixed: c = k; break;
	case Random: c = 1 + draw(std::min<uint32_t>(want, k)); break;
	case SplitAt: if (pos < k) c = k - pos; break;
	}
	if (c > want) c = want;
	if (c < want) fault(F_short_read);
	return c;
}
ReadPlan draw_read_plan(size_t len, bool may_whole) {
	ReadPlan p;
	switch (draw(may_whole ? 6 : 5) + (may_whole ? 0 : 1)) {
	case 0: p.mode = ReadPlan::Whole; break;
	case 1: p.mode = ReadPlan::Fixed; p.k = 1; break;
	case 2: p.mode = ReadPlan::Fixed; p.k = 1 + draw(17); break;
	case 3: p.mode = ReadPlan::Random; p.k = len > 3000 ? 64 + draw(2000) : 1 + draw(64); break;
	case 4: p.mode = ReadPlan::SplitAt; p.k = 1 + draw(len ? len : 1); break;
	default: p.mode = ReadPlan::Fixed; p.k = 1 + draw(len + 8); break;
	}
	static const uint32_t bufs[] = {8192, 1, 2, 3, 7, 16, 64, 511, 4096, 4097};
	p.buffer = bufs[draw(10)];
	return p;
}

string show(const Outcome &o) {
	if (o.ok) return "value " + show(o.v);
	return o.type + "(" + quote(o.what, 80) + ")";
}

void raise(int kind, const char *what) {
	struct Other { int code; };
	switch (kind) {
	case 1: throw 7;
	case 2: throw string(what);
	case 3: throw std::bad_alloc();
	case 4: throw std::out_of_range(what);
	case 5: throw std::ios_base::failure(what);
	case 6: throw Other{1};
	default: throw InjectedError(what);
	}
}

// ---------------------------------------------------------------- sources
int64_t Source::next(char *p, size_t want) {
	seam_event();
	if (failures && plan.fail_persist) {
		++failures;
		if (++calls_after_failure > 1000) violate("hang:source-retry", "source asked %llu times after it failed", (unsigned long long)calls_after_failure);
		return -1;
	}
	uint64_t end = data.size();
	if (plan.eof_at >= 0 && (uint64_t)plan.eof_at < end) end = plan.eof_at;
	if (ended && pos >= end) {
		if (++calls_after_failure > 1000) violate("hang:source-retry", "source asked %llu times after its end", (unsigned long long)calls_after_failure);
		return 0;
	}
	bool failed_before = failures > 0;
	if (plan.fail_at >= 0 && !failed_before && pos >= (uint64_t)plan.fail_at) {
		++failures;
		fault(F_read_error);
		ev("read error at %llu", (unsigned long long)pos);
		return -1;
	}
	if (plan.fail_at >= 0 && !failed_before) end = std::min<uint64_t>(end, plan.fail_at);
	if (pos >= end) {
		ended = true;
		if (plan.eof_at >= 0 && end < data.size()) { fault(F_early_eof); ev("early end at %llu", (unsigned long long)pos); }
		return 0;
	}
	if (!want) return 0;
	uint32_t n = plan.chunk(pos, std::min<uint64_t>(want, 1u << 30));
	if (n > end - pos) n = end - pos;
	memcpy(p, data.data() + pos, n);
	pos += n;
	return n;
}

namespace {
// Reader implemented on the library's stream-input base class.
class StreamSource : public ParserStreamInput {
	Source *s;
public:
	StreamSource(Source *ss) : ParserStreamInput(ss->plan.buffer), s(ss) { ++live_objects; }
	~StreamSource() { Out o; --live_objects; }
	unsigned Read(void *p, unsigned n) {
		Out o;
		int64_t r = s->next((char *)p, n);
		if (r < 0) raise(s->plan.thrown, "simulated read error");
		return r;
	}
};
// Reader implemented directly on the input interface.  Every window it hands
// out is an exact heap block that dies at the next call.
class DirectSource : public ParserInput {
	Source *s;
	string have;    // obtained, not released
	char *win = 0;
	size_t winlen = 0;
	bool at_end = false;
	bool keep_len; // the end is told by the null pointer alone
public:
	DirectSource(Source *ss) : s(ss), keep_len(draw(2)) { ++live_objects; }
	~DirectSource() { Out o; free(win); --live_objects; }
	const void *GetPtr(unsigned &len) {
		Out o;
		size_t want = std::max<size_t>(len, 1);
		while (have.size() < want && !at_end) {
			char b[4096];
			int64_t r = s->next(b, sizeof b);
			if (r < 0) raise(s->plan.thrown, "simulated read error");
			if (r == 0) at_end = true;
			have.append(b, r);
		}
		free(win);
		win = 0;
		winlen = have.size();
		if (!winlen) { if (!keep_len) len = 0; return 0; }
		len = winlen;
		win = (char *)malloc(winlen);
		memcpy(win, have.data(), winlen);
		return win;
	}
	void Release(unsigned len) {
		Out o;
		if (len > winlen) violate("release-too-much", "library released %u bytes of a window of %zu", len, winlen);
		have.erase(0, len); // the window itself stays until the next GetPtr
		winlen = have.size();
	}
};
class ReadBuf : public std::streambuf {
	Source *s;
	std::vector<char> b;
public:
	ReadBuf(Source *ss) : s(ss), b(ss->plan.buffer) {}
protected:
	int_type underflow() override {
		Out o;
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		int64_t r = s->next(b.data(), b.size());
		if (r < 0) raise(s->plan.thrown, "simulated stream buffer error");
		if (r == 0) return traits_type::eof();
		setg(b.data(), b.data(), b.data() + r);
		return traits_type::to_int_type(*gptr());
	}
	std::streamsize xsgetn(char *p, std::streamsize n) override {
		Out o;
		// A stream buffer may return fewer characters than asked only at the
		// end of data, so collect.
		std::streamsize got = 0;
		while (got < n) {
			if (gptr() < egptr()) {
				std::streamsize c = std::min<std::streamsize>(n - got, egptr() - gptr());
				memcpy(p + got, gptr(), c);
				gbump(c);
				got += c;
				continue;
			}
			if (traits_type::eq_int_type(underflow(), traits_type::eof())) break;
		}
		return got;
	}
};
}

int64_t live_objects;
void (*storage_hook)(size_t);
Source::Source(SourceKind k, const string &d, const ReadPlan &p) : kind(k), data(d), plan(p) {
	Out o;
	switch (kind) {
	case SRC_MEM:
		mem = (char *)malloc(data.size());
		if (data.size()) memcpy(mem, data.data(), data.size());
		break;
	case SRC_STRING: break;
	case SRC_FILEP: case SRC_FILENAME:
		path = fmt("/sim/in%llu", (unsigned long long)disk.opens + disk.files.size());
		disk.files[path] = data;
		disk.plans[path] = disk.plan_for("");
		disk.plans[path].read = plan;
		if (kind == SRC_FILEP) fp = sim_fopen(path.c_str(), "r");
		break;
	case SRC_STREAMBUF: sb.reset(new ReadBuf(this)); break;
	default: break;
	}
}
Source::~Source() {
	Out o;
	input.reset();
	if (fp) {
		if (!sim_is_open(fp)) violate("closed-callers-stream", "the library closed a stream owned by the caller");
		sim_fclose(fp);
	}
	free(mem);
}
shared_ptr<ParserInput> Source::open_input() {
	switch (kind) {
	case SRC_MEM: input = CreateParserInput((const void *)mem, (unsigned)data.size()); break;
	case SRC_STRING: input = CreateParserInput(data); break;
	case SRC_FILEP: input = CreateParserInputFile(fp); break;
	case SRC_FILENAME: input = CreateParserInputFile(path.c_str()); break;
	case SRC_STREAMBUF: input = CreateParserInputFile(sb.get()); break;
	case SRC_STREAM: { Out o; input.reset(new StreamSource(this)); break; }
	default: { Out o; input.reset(new DirectSource(this)); break; }
	}
	return input;
}
// The functions for strings and those for text that ends with NUL take turns.
static bool as_text(const string &s) { return s.size() % 2 && s.find('\0') == string::npos; }
Variant Source::deserialize(Format f) {
	switch (kind) {
	case SRC_MEM: return Deserialize((const void *)mem, (unsigned)data.size(), stype(f));
	case SRC_STRING: return as_text(data) ? Deserialize(data.c_str(), stype(f)) : Deserialize(data, stype(f));
	case SRC_FILEP: return DeserializeFile(fp, stype(f));
	case SRC_FILENAME: return DeserializeFile(path.c_str(), stype(f));
	case SRC_STREAMBUF: return DeserializeFile(sb.get(), stype(f));
	default: {
		Parser p = CreateParser(open_input(), stype(f));
		return ParseVariant(p);
	}
	}
}
Variant Source::deserialize_guess() {
	switch (kind) {
	case SRC_MEM: return DeserializeGuess((const void *)mem, (unsigned)data.size());
	case SRC_STRING: return as_text(data) ? DeserializeGuess(data.c_str()) : DeserializeGuess(data);
	case SRC_FILEP: return DeserializeGuessFile(fp);
	case SRC_FILENAME: return DeserializeGuessFile(path.c_str());
	case SRC_STREAMBUF: return DeserializeGuessFile(sb.get());
	default: {
		Parser p = CreateParserGuess(open_input());
		return ParseVariant(p);
	}
	}
}
Variant Source::deserialize_payload(Format f, const Variant &params) {
	switch (kind) {
	case SRC_MEM: return DeserializeWithPayload((const void *)mem, (unsigned)data.size(), stype(f), params);
	case SRC_STRING: return DeserializeWithPayload(data, stype(f), params);
	case SRC_FILEP: return DeserializeWithPayloadFile(fp, stype(f), params);
	case SRC_FILENAME: return DeserializeWithPayloadFile(path.c_str(), stype(f), params);
	case SRC_STREAMBUF: return DeserializeWithPayloadFile(sb.get(), stype(f), params);
	default: return DeserializeWithPayload(open_input(), stype(f), params);
	}
}
LoadAllIterator Source::deserialize_all(Format f) {
	switch (kind) {
	case SRC_MEM: return DeserializeAll((const void *)mem, (unsigned)data.size(), stype(f));
	case SRC_STRING: return as_text(data) ? DeserializeAll(data.c_str(), stype(f)) : DeserializeAll(data, stype(f));
	case SRC_FILEP: return DeserializeAllFile(fp, stype(f));
	case SRC_FILENAME: return DeserializeAllFile(path.c_str(), stype(f));
	case SRC_STREAMBUF: return DeserializeAllFile(sb.get(), stype(f));
	default: {
		Parser p = CreateParser(open_input(), stype(f));
		return LoadAllIterator(p);
	}
	}
}

// ---------------------------------------------------------------- sinks
string WritePlan::desc() const {
	const char *m[] = {"full", "fixed", "random"};
	string s = fmt("%s(%u)", m[mode], k);
	if (fail_at >= 0) s += fmt(" %s@%lld x%u", fail_how ? "throw" : "refuse", (long long)fail_at, fail_calls);
	if (flush_fails) s += " flush-fails";
	if (thrown) s += fmt(" throws %d", thrown);
	return s;
}
WritePlan draw_write_plan(size_t len) {
	WritePlan p;
	switch (draw(4)) {
	case 0: p.mode = WritePlan::Full; break;
	case 1: p.mode = WritePlan::Fixed; p.k = 1; break;
	case 2: p.mode = WritePlan::Fixed; p.k = 1 + draw(600); break;
	default: p.mode = WritePlan::Random; p.k = 1 + draw(len > 2000 ? 600 : 40); break;
	}
	return p;
}
size_t Sink::accept(const char *p, size_t n) {
	seam_event();
	++writes;
	if (!n) return 0;
	uint64_t pos = got.size();
	bool fail = false;
	if (plan.fail_at >= 0 && pos >= (uint64_t)plan.fail_at) {
		if (plan.fail_calls == 0 || failures < plan.fail_calls) fail = true;
	}
	if (fail) {
		++failures;
		if (failures > refuse_limit) violate("hang:sink-retry", "sink refused %llu consecutive writes and the library keeps trying", (unsigned long long)failures);
		fault(plan.fail_how ? F_sink_throw : F_zero_write);
		if (failures <= 3) ev("sink %s at %llu", plan.fail_how ? "throws" : "refuses", (unsigned long long)pos);
		if (plan.fail_how) raise(plan.thrown, "simulated sink error");
		return 0;
	}
	size_t c = n;
	if (plan.mode == WritePlan::Fixed) c = plan.k;
	else if (plan.mode == WritePlan::Random) c = 1 + draw(std::min<uint64_t>(n, plan.k));
	if (c > n) c = n;
	if (plan.fail_at >= 0 && plan.fail_calls == 0 && pos + c > (uint64_t)plan.fail_at) c = plan.fail_at - pos;
	if (c < n) fault(F_short_write);
	got.append(p, c);
	if (storage_hook) storage_hook(got.size());
	return c;
}
void Sink::flush() {
	seam_event();
	++flushes;
	if (plan.flush_fails) {
		++flush_failures;
		fault(F_flush_error);
		if (flush_failures <= 3) ev("flush fails");
		raise(plan.thrown, "simulated flush error");
	}
}
namespace {
class CustomOutput : public EmitterOutput {
	Sink *s;
	unsigned n = 0;
public:
	CustomOutput(Sink *ss) : s(ss) { ++live_objects; }
	~CustomOutput() { Out o; --live_objects; }
	unsigned Write(const void *p, unsigned len) override { Out o; size_t c = s->accept((const char *)p, len); n += c; return c; }
	void Flush() override { Out o; s->flush(); }
	unsigned NumBytesWritten() const override { return n; }
};
class WriteBuf : public std::streambuf {
	Sink *s;
	std::vector<char> b;
	// Passes everything pending on; false if the sink does not take it.
	bool drain() {
		size_t n = pptr() - pbase();
		size_t done = 0;
		while (done < n) {
			size_t c = s->accept(pbase() + done, n - done);
			if (!c) break;
			done += c;
		}
		memmove(pbase(), pbase() + done, n - done);
		setp(pbase(), epptr());
		pbump(n - done);
		return done == n;
	}
public:
	WriteBuf(Sink *ss) : s(ss) {
		if (s->sbuf) { b.resize(s->sbuf); setp(b.data(), b.data() + b.size()); }
	}
protected:
	int_type overflow(int_type c) override {
		Out o;
		if (!b.empty()) {
			if (!drain()) return traits_type::eof();
			if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = c; pbump(1); }
			return traits_type::not_eof(c);
		}
		if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
		char ch = c;
		return s->accept(&ch, 1) == 1 ? c : traits_type::eof();
	}
	std::streamsize xsputn(const char *p, std::streamsize n) override {
		Out o;
		if (!b.empty()) return std::streambuf::xsputn(p, n);
		return s->accept(p, n);
	}
	int sync() override {
		Out o;
		if (!b.empty() && !drain()) return -1;
		try { s->flush(); } catch (...) { return -1; }
		return 0;
	}
};
}
Sink::Sink(SinkKind k, const WritePlan &p, uint32_t buffered) : kind(k), plan(p), sbuf(buffered) {
	Out o;
	switch (kind) {
	case SINK_STREAMBUF: sb.reset(new WriteBuf(this)); break;
	case SINK_FILEP: case SINK_FILENAME:
		path = fmt("/sim/out%llu", (unsigned long long)disk.opens + disk.files.size());
		disk.plans[path] = disk.plan_for("");
		if (kind == SINK_FILEP) fp = sim_fopen(path.c_str(), "w");
		break;
	default: break;
	}
}
Sink::~Sink() {
	Out o;
	output.reset();
	if (fp) {
		if (!sim_is_open(fp)) violate("closed-callers-stream", "the library closed a stream owned by the caller");
		sim_fclose(fp);
	}
}
string Sink::content() {
	if (kind == SINK_FILEP || kind == SINK_FILENAME) return disk.files[path];
	return got;
}
shared_ptr<EmitterOutput> Sink::open_output() {
	switch (kind) {
	case SINK_STREAMBUF: output = CreateEmitterOutput(sb.get()); break;
	case SINK_FILEP: output = CreateEmitterOutput(fp); break;
	case SINK_FILENAME: output = CreateEmitterOutput(path.c_str()); break;
	default: { Out o; output.reset(new CustomOutput(this)); break; }
	}
	return output;
}
void Sink::serialize(const Variant &v, Format f, const Variant &params) {
	switch (kind) {
	case SINK_STREAMBUF: Serialize(sb.get(), v, stype(f), params); break;
	case SINK_FILEP: Serialize(fp, v, stype(f), params); break;
	case SINK_FILENAME: Serialize(path, v, stype(f), params); break;
	case SINK_STRING: { string s = Serialize(v, stype(f), params); Out o; got = string(s.data(), s.size()); break; }
	default: {
		shared_ptr<EmitterOutput> o = open_output();
		output.reset();
		Emitter e = CreateEmitter(o, stype(f), params);
		o.reset();
		e << v;
		e.Close();
	}
	}
}
void Sink::serialize_payload(const Variant &v, Format f, const Variant &params) {
	switch (kind) {
	case SINK_STREAMBUF: SerializeWithPayload(sb.get(), v, stype(f), params); break;
	case SINK_FILEP: SerializeWithPayload(fp, v, stype(f), params); break;
	case SINK_FILENAME: SerializeWithPayload(path, v, stype(f), params); break;
	case SINK_STRING: { string s = SerializeWithPayload(v, stype(f), params); Out o; got = string(s.data(), s.size()); break; }
	default: {
		shared_ptr<EmitterOutput> o = open_output();
		output.reset();
		SerializeWithPayload(o, v, stype(f), params);
	}
	}
}

// ---------------------------------------------------------------- disk
Disk disk;
struct OpenFile {
	string path;
	bool rd, wr;
	uint64_t rpos = 0, wpos = 0;
	uint64_t rfail = 0;
	bool closed = false;
	FILE *fp = 0;
	std::vector<char> buf;
	DiskPlan plan;
	bool rended = false;
	uint64_t idle = 0;
};
void Disk::reset() {
	Out o;
	for (auto f : open) { f->closed = true; }
	*this = Disk();
}
DiskPlan &Disk::plan_for(const string &p) {
	auto i = plans.find(p);
	if (i != plans.end()) return i->second;
	return plans[""];
}
static void disk_event() {
	seam_event();
	if (disk.crash_at >= 0 && (int64_t)disk.events == disk.crash_at) { fault(F_crash); }
	++disk.events;
}
static ssize_t ck_read(void *c, char *p, size_t n) {
	Out o;
	disk_event();
	OpenFile *f = (OpenFile *)c;
	ReadPlan &rp = f->plan.read;
	auto it = disk.files.find(f->path);
	if (it == disk.files.end()) return 0;
	const string &d = it->second;
	if (rp.fail_at >= 0 && f->rpos >= (uint64_t)rp.fail_at && (rp.fail_persist || !f->rfail)) {
		if (!f->rfail) { fault(F_read_error); ev("disk read error %s at %llu", f->path.c_str(), (unsigned long long)f->rpos); }
		if (++f->rfail > 1000) violate("hang:source-retry", "file read repeated after failure");
		++disk.read_failures;
		errno = rp.err ? rp.err : EIO;
		return -1;
	}
	uint64_t end = d.size();
	if (rp.eof_at >= 0 && (uint64_t)rp.eof_at < end) end = rp.eof_at;
	if (rp.fail_at >= 0 && !f->rfail) end = std::min<uint64_t>(end, rp.fail_at);
	if (f->rpos >= end) {
		if (!f->rended && rp.eof_at >= 0 && end < d.size()) { fault(F_early_eof); ev("early end at %llu", (unsigned long long)end); }
		f->rended = true;
		if (++f->idle > 1000) violate("hang:source-retry", "file read repeated after its end");
		return 0;
	}
	uint32_t k = rp.chunk(f->rpos, std::min<uint64_t>(n, end - f->rpos));
	memcpy(p, d.data() + f->rpos, k);
	f->rpos += k;
	return k;
}
static ssize_t ck_write(void *c, const char *p, size_t n) {
	Out o;
	disk_event();
	OpenFile *f = (OpenFile *)c;
	string &d = disk.files[f->path];
	size_t take = n;
	int err = 0;
	if (f->plan.capacity >= 0 && (int64_t)(f->wpos + take) > f->plan.capacity) {
		take = f->plan.capacity > (int64_t)f->wpos ? f->plan.capacity - f->wpos : 0;
		err = ENOSPC;
	}
	if (f->plan.io_error_at >= 0 && (int64_t)(f->wpos + take) > f->plan.io_error_at) {
		take = f->plan.io_error_at > (int64_t)f->wpos ? f->plan.io_error_at - f->wpos : 0;
		err = f->plan.io_errno ? f->plan.io_errno : EIO;
	}
	d.append(p, take);
	if (storage_hook) storage_hook(d.size());
	f->wpos += take;
	disk.bytes_written += take;
	if (err) {
		++disk.write_failures;
		fault(err == ENOSPC ? F_disk_full : F_disk_io_error);
		if (disk.write_failures <= 3) ev("disk %s %s after %llu", err == ENOSPC ? "full" : "error", f->path.c_str(), (unsigned long long)f->wpos);
		if (disk.write_failures > 50000) violate("hang:disk-retry", "writes repeated after the disk failed");
		errno = err;
		if (!take) return 0; // glibc treats a short count as an error
	}
	return take;
}
static int ck_close(void *c) {
	Out o;
	disk_event();
	OpenFile *f = (OpenFile *)c;
	f->closed = true;
	auto i = std::find(disk.open.begin(), disk.open.end(), f);
	if (i != disk.open.end()) disk.open.erase(i);
	++disk.closes;
	int r = 0;
	if (f->wr && f->plan.close_fails) {
		++disk.close_failures;
		fault(F_close_error);
		ev("close of %s fails", f->path.c_str());
		errno = EIO;
		r = -1;
	}
	return r;
}
static std::vector<OpenFile *> all_open; // never freed within a run: FILE buffers point into them
static FILE *open_sim(const char *path, const char *mode) {
	Out o;
	disk_event();
	bool rd = strchr(mode, 'r') || strchr(mode, '+'), wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
	if (rd && !wr) { disk.log.push_back(path); fetch_log.push_back(string("file:") + path); }
	DiskPlan pl = disk.plan_for(path);
	if (pl.open_errno) {
		fault(F_open_error);
		ev("open %s fails", path);
		++disk.failed_opens;
		errno = pl.open_errno;
		return 0;
	}
	if (!wr && !disk.files.count(path)) { errno = ENOENT; return 0; }
	if (strchr(mode, 'w')) disk.files[path].clear();
	OpenFile *f = new OpenFile;
	f->path = path;
	f->rd = rd;
	f->wr = wr;
	f->plan = pl;
	if (strchr(mode, 'a')) f->wpos = disk.files[path].size();
	cookie_io_functions_t io = {ck_read, ck_write, 0, ck_close};
	f->fp = fopencookie(f, mode, io);
	switch (pl.bufmode) {
	case 1: setvbuf(f->fp, 0, _IONBF, 0); break;
	case 2: setvbuf(f->fp, 0, _IOLBF, 4096); break;
	case 3: f->buf.resize(std::max<uint32_t>(pl.bufsize, 1)); setvbuf(f->fp, f->buf.data(), _IOFBF, f->buf.size()); break;
	default: break;
	}
	disk.open.push_back(f);
	all_open.push_back(f);
	++disk.opens;
	return f->fp;
}
FILE *sim_fopen(const char *path, const char *mode) { return open_sim(path, mode); }
bool sim_is_open(FILE *f) {
	for (auto x : disk.open) if (x->fp == f) return true;
	return false;
}
bool sim_owned(FILE *f) { return sim_is_open(f); }

typedef FILE *(*fopen_t)(const char *, const char *);
typedef int (*fclose_t)(FILE *);
static int real_fclose(FILE *f) {
	static fclose_t r = (fclose_t)dlsym(RTLD_NEXT, "fclose");
	return r(f);
}
void sim_fclose(FILE *f) { Out o; real_fclose(f); }

static void world_reset() {
	for (auto f : all_open) {
		if (!f->closed && f->fp) { // abandoned by a failed run: drop it
			f->plan = DiskPlan();
			real_fclose(f->fp);
		}
	}
	for (auto f : all_open) delete f;
	all_open.clear();
	disk.reset();
	net.reset();
	storage_hook = 0;
}
static RegisterReset rr(world_reset);

} // namespace sim

using namespace sim;
// Files opened while code under test runs live on the simulated disk only.
extern "C" FILE *fopen(const char *path, const char *mode) {
	static fopen_t r = (fopen_t)dlsym(RTLD_NEXT, "fopen");
	if (g_in_lib || !strncmp(path, "/sim/", 5)) return open_sim(path, mode);
	return r(path, mode);
}
// File descriptors of streams on the simulated disk, for the C++ file streams.
enum { SIM_FD = 1 << 24 };
static OpenFile *by_fd(int fd) { return fd >= SIM_FD && (size_t)(fd - SIM_FD) < all_open.size() ? all_open[fd - SIM_FD] : 0; }
extern "C" int fileno(FILE *f) noexcept {
	static int (*r)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
	for (size_t i = all_open.size(); i-- > 0;) if (all_open[i]->fp == f) return SIM_FD + i;
	return r(f);
}
extern "C" ssize_t read(int fd, void *p, size_t n) {
	if (OpenFile *f = by_fd(fd)) {
		if (!f->rd) { errno = EBADF; return -1; }
		return ck_read(f, (char *)p, n);
	}
	return syscall(SYS_read, fd, p, n);
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
	if (OpenFile *f = by_fd(fd)) {
		if (!f->wr) { errno = EBADF; return -1; }
		ssize_t r = ck_write(f, (const char *)p, n);
		return r || !n ? r : -1;
	}
	return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n) {
	if (!by_fd(fd)) return syscall(SYS_writev, fd, v, n);
	ssize_t t = 0;
	for (int i = 0; i < n; ++i) {
		ssize_t r = v[i].iov_len ? write(fd, v[i].iov_base, v[i].iov_len) : 0;
		if (r < 0) return t ? t : -1;
		t += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return t;
}
extern "C" off_t lseek(int fd, off_t off, int whence) noexcept {
	OpenFile *f = by_fd(fd);
	if (!f) return syscall(SYS_lseek, fd, off, whence);
	uint64_t &pos = f->wr ? f->wpos : f->rpos;
	int64_t to = off + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)pos : (int64_t)disk.files[f->path].size());
	if (to < 0 || (f->wr && to != (int64_t)pos)) { errno = ESPIPE; return -1; }
	return pos = to;
}
extern "C" FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
extern "C" int fclose(FILE *f) {
	if (g_in_lib) {
		Out o;
		OpenFile *last = 0; // a new stream may reuse the address of a closed one
		for (auto x : all_open) if (x->fp == f) last = x;
		if (last && last->closed) violate("double-close", "stream %s closed twice", last->path.c_str());
	}
	return real_fclose(f);
}

// ---------------------------------------------------------------- network (libcurl)
#include <curl/curl.h>
namespace sim {
Net net;
std::vector<string> fetch_log;
void Net::reset() { Out o; *this = Net(); fetch_log.clear(); }
struct Easy {
	string url;
	curl_write_callback wf = 0;
	void *wd = 0;
	char *errbuf = 0;
	bool failonerror = false;
	long status = 0;
};
}
#undef curl_easy_setopt
#undef curl_easy_getinfo
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
CURL *curl_easy_init() {
	Out o;
	seam_event();
	if (net.init_fails) { fault(F_net_error); ev("curl init fails"); return 0; }
	++net.handles_made;
	++net.handles_open;
	return (CURL *)new Easy;
}
CURLcode curl_easy_setopt(CURL *h, CURLoption opt, ...) {
	Out o;
	Easy *e = (Easy *)h;
	if ((net.setopt_fails == 1 && opt == CURLOPT_URL) || (net.setopt_fails == 2 && opt == CURLOPT_WRITEFUNCTION) || (net.setopt_fails == 3 && opt == CURLOPT_WRITEDATA)) { fault(F_net_error); ev("curl option refused"); return CURLE_OUT_OF_MEMORY; }
	va_list ap;
	va_start(ap, opt);
	switch (opt) {
	case CURLOPT_URL: e->url = va_arg(ap, const char *); break;
	case CURLOPT_WRITEFUNCTION: e->wf = va_arg(ap, curl_write_callback); break;
	case CURLOPT_WRITEDATA: e->wd = va_arg(ap, void *); break;
	case CURLOPT_ERRORBUFFER: e->errbuf = va_arg(ap, char *); break;
	case CURLOPT_FAILONERROR: e->failonerror = va_arg(ap, long) != 0; break;
	default: break;
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *h) {
	Out o;
	seam_event();
	Easy *e = (Easy *)h;
	net.log.push_back(e->url);
	fetch_log.push_back("net:" + e->url);
	auto i = net.replies.find(e->url);
	CURLcode rc = CURLE_OK;
	if (i == net.replies.end()) {
		fault(F_net_refused);
		ev("net: %s unreachable", e->url.c_str());
		rc = CURLE_COULDNT_CONNECT;
	} else {
		NetReply &r = i->second;
		e->status = r.status;
		if (r.curl_code && r.cut_at < 0) { fault(F_net_error); rc = (CURLcode)r.curl_code; }
		else if (r.status >= 400 && e->failonerror) { fault(F_net_http_error); rc = CURLE_HTTP_RETURNED_ERROR; }
		else {
			if (r.status >= 400) fault(F_net_http_error);
			uint64_t end = r.body.size(), pos = 0;
			if (r.cut_at >= 0 && (uint64_t)r.cut_at < end) end = r.cut_at;
			while (pos < end) {
				uint32_t n = r.chunks.chunk(pos, std::min<uint64_t>(end - pos, CURL_MAX_WRITE_SIZE));
				std::vector<char> piece(r.body.begin() + pos, r.body.begin() + pos + n);
				fault(F_net_chunk);
				size_t got;
				// libcurl is C: an exception cannot pass through it
				try { Lib l; got = e->wf ? e->wf(piece.data(), 1, n, e->wd) : n; }
				catch (...) { violate("exception-through-c:curl", "an exception left the write callback of a transfer"); }
				if (got != n) { rc = CURLE_WRITE_ERROR; break; }
				pos += n;
			}
			if (rc == CURLE_OK && r.cut_at >= 0) { fault(F_net_partial); rc = (CURLcode)(r.curl_code ? r.curl_code : CURLE_PARTIAL_FILE); }
		}
		ev("net: %s -> code %d status %ld", e->url.c_str(), (int)rc, r.status);
	}
	if (rc != CURLE_OK && e->errbuf) snprintf(e->errbuf, CURL_ERROR_SIZE, "simulated transfer error %d", (int)rc);
	return rc;
}
void curl_easy_cleanup(CURL *h) {
	Out o;
	if (!h) return;
	--net.handles_open;
	++net.handles_closed;
	delete (Easy *)h;
}
const char *curl_easy_strerror(CURLcode) { return "simulated transfer error"; }
CURLcode curl_easy_getinfo(CURL *h, CURLINFO info, ...) {
	Out o;
	va_list ap;
	va_start(ap, info);
	if (info == CURLINFO_RESPONSE_CODE) *va_arg(ap, long *) = ((Easy *)h)->status;
	va_end(ap);
	return CURLE_OK;
}
void curl_easy_reset(CURL *h) { Out o; *(Easy *)h = Easy(); }
}

// ---------------------------------------------------------------- third-party set-up
static void no_xml_errors(void *, const char *, ...) {}
__attribute__((constructor(101))) static void xml_setup() {
	xmlMemSetup(xml_free, xml_malloc, xml_realloc, xml_strdup);
	xmlInitParser();
	xmlSetGenericErrorFunc(0, no_xml_errors);
}
