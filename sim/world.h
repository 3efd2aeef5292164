// The simulated world: disk, readers, sinks, network.
#pragma once
#include "core.h"
#include "model.h"
#include <Variant/Variant.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Payload.h>
#include <stdio.h>
#include <map>
#include <memory>
#include <streambuf>

namespace sim {

// ---------------------------------------------------------------- delivery of bytes
// How a source hands out bytes: chunk sizes and failures.
struct ReadPlan {
	enum Mode { Whole, Fixed, Random, SplitAt } mode = Whole;
	uint32_t k = 1;            // chunk size / bound / split position
	int64_t fail_at = -1;      // byte offset at which the source fails (-1: never)
	bool fail_persist = true;  // later calls fail too
	int64_t eof_at = -1;       // byte offset at which the data ends early (-1: never)
	int err = 0;               // error number a failing file reports (0: EIO)
	int thrown = 0;            // what a failing reader of the caller throws, see raise()
	uint32_t buffer = 8192;    // internal buffer of the stream input
	std::string desc() const;
	uint32_t chunk(uint64_t pos, uint32_t want);
};
ReadPlan draw_read_plan(size_t len, bool may_whole);

enum SourceKind { SRC_MEM, SRC_STRING, SRC_STREAM, SRC_INPUT, SRC_FILEP, SRC_FILENAME, SRC_STREAMBUF, NSOURCES };
extern const char *const source_names[NSOURCES];

extern void (*storage_hook)(size_t bytes); // called when storage took bytes, with how many it has

extern int64_t live_objects; // caller-supplied sources, sinks and handlers in existence

// Error thrown by simulated sources and sinks.
struct InjectedError : std::runtime_error { InjectedError(const std::string &s) : std::runtime_error(s) {} };
// Throws what a caller's own code might: 0 is an InjectedError.
enum { NTHROWN = 7 };
[[noreturn]] void raise(int kind, const char *what);

// An open simulated source.  Keeps everything the library borrows alive.
struct Source {
	SourceKind kind;
	std::string data;
	ReadPlan plan;
	uint64_t pos = 0;          // bytes handed out
	uint64_t failures = 0;     // errors delivered to the library
	bool ended = false;        // end of data was signalled
	uint64_t calls_after_failure = 0;
	libvariant::shared_ptr<libvariant::ParserInput> input; // for kinds used through ParserInput
	FILE *fp = 0;
	std::string path;
	std::unique_ptr<std::streambuf> sb;
	char *mem = 0;
	Source(SourceKind k, const std::string &d, const ReadPlan &p);
	~Source();
	// Next piece: returns count, 0 at end, -1 on error.
	int64_t next(char *p, size_t want);
	libvariant::shared_ptr<libvariant::ParserInput> open_input(); // library call
	libvariant::Variant deserialize(Format f);                   // library call
	libvariant::Variant deserialize_guess();
	libvariant::Variant deserialize_payload(Format f, const libvariant::Variant &params);
	libvariant::LoadAllIterator deserialize_all(Format f);
};

struct Outcome {
	bool ok = false;
	MV v;
	std::string what, type;
	bool injected = false, bad_alloc = false;
};
std::string show(const Outcome &o);
template<class F> Outcome capture(F f) {
	Outcome o;
	try { Lib l; MV m; f(m); Out x; o.ok = true; o.v = m; }
	catch (const InjectedError &e) { Out x; o.what = e.what(); o.type = "injected"; o.injected = true; }
	catch (const std::bad_alloc &e) { Out x; o.what = e.what(); o.type = "bad_alloc"; o.bad_alloc = true; }
	catch (const std::exception &e) { Out x; o.what = e.what(); o.type = "exception"; }
	catch (...) { Out x; o.what = "unknown"; o.type = "unknown"; }
	return o;
}

// ---------------------------------------------------------------- sinks
struct WritePlan {
	enum Mode { Full, Fixed, Random } mode = Full;
	uint32_t k = 1;
	int64_t fail_at = -1;      // byte offset at which the sink starts failing
	int fail_how = 0;          // 0: refuse (accept 0 bytes), 1: throw
	uint32_t fail_calls = 0;   // 0: for ever, else number of failing calls
	bool flush_fails = false;
	int thrown = 0;            // what a throwing sink throws, see raise()
	std::string desc() const;
};
WritePlan draw_write_plan(size_t len);
enum SinkKind { SINK_OUTPUT, SINK_STREAMBUF, SINK_FILEP, SINK_FILENAME, SINK_STRING, NSINKS };
extern const char *const sink_names[NSINKS];

struct Sink {
	SinkKind kind;
	WritePlan plan;
	std::string got;            // accepted bytes in order
	uint64_t failures = 0, calls_after_failure = 0, flushes = 0, flush_failures = 0, writes = 0;
	bool failing_now = false;
	libvariant::shared_ptr<libvariant::EmitterOutput> output;
	std::unique_ptr<std::streambuf> sb;
	FILE *fp = 0;
	std::string path;
	uint64_t refuse_limit = 1000; // refusals after which a caller that keeps trying is called hung
	uint32_t sbuf;              // size of the stream buffer's own buffer, 0: none
	Sink(SinkKind k, const WritePlan &p, uint32_t buffered = 0);
	~Sink();
	size_t accept(const char *p, size_t n); // may throw
	void flush();
	std::string content();      // what is at the destination now
	libvariant::shared_ptr<libvariant::EmitterOutput> open_output();
	void serialize(const libvariant::Variant &v, Format f, const libvariant::Variant &params);
	void serialize_payload(const libvariant::Variant &v, Format f, const libvariant::Variant &params);
};

// ---------------------------------------------------------------- simulated disk
struct DiskPlan {
	int64_t capacity = -1;       // bytes that can still be stored (-1: unlimited); beyond: ENOSPC
	int64_t io_error_at = -1;    // write offset (total) at which EIO starts
	int io_errno = 0;            // the error it reports (0: EIO)
	bool close_fails = false;    // close reports EIO
	int open_errno = 0;          // next opens fail
	ReadPlan read;               // for reading
	int bufmode = 0;             // 0 default, 1 unbuffered, 2 line buffered, 3 small full buffer
	uint32_t bufsize = 0;
};
struct OpenFile;
struct Disk {
	std::map<std::string, std::string> files;
	std::map<std::string, DiskPlan> plans; // by path; "" is the default
	uint64_t opens = 0, closes = 0, failed_opens = 0, double_closes = 0;
	uint64_t write_failures = 0, read_failures = 0, close_failures = 0;
	uint64_t bytes_written = 0;
	std::vector<std::string> log;   // names in order of (attempted) opens for reading
	std::vector<OpenFile *> open;
	int64_t crash_at = -1;          // stop the world at this storage event
	uint64_t events = 0;
	void reset();
	size_t open_count() const { return open.size(); }
	DiskPlan &plan_for(const std::string &p);
};
extern Disk disk;
FILE *sim_fopen(const char *path, const char *mode); // harness-owned stream on the simulated disk
void sim_fclose(FILE *f);
bool sim_owned(FILE *f);
bool sim_is_open(FILE *f);

// ---------------------------------------------------------------- simulated network
struct NetReply {
	int curl_code = 0;           // CURLcode to end with
	long status = 200;
	std::string body;
	int64_t cut_at = -1;         // deliver only this many bytes, then end with CURLE_PARTIAL_FILE
	ReadPlan chunks;
};
struct Net {
	std::map<std::string, NetReply> replies; // by URL
	std::vector<std::string> log;            // requested URLs
	uint64_t handles_open = 0, handles_made = 0, handles_closed = 0;
	bool init_fails = false;
	int setopt_fails = 0;                    // 1: URL, 2: write function, 3: write data cannot be set
	void reset();
};
extern Net net;
extern std::vector<std::string> fetch_log;  // "file:" opens for reading and "net:" transfers, in order
}
