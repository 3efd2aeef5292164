// Operations shared by several checks.
#pragma once
#include "world.h"
namespace sim {
// A history of emitter calls: several documents, flushes in between.
struct Script {
	struct Op { int kind; MV v; }; // 0 document, 1 flush, 2 change of parameters
	std::vector<Op> ops;
	bool close = true;
	unsigned style = 0;         // which of the equivalent calls are used
	void one(libvariant::Emitter &e, const Op &op) const;
	void draw_docs(Format f, Gen &g);
	// Performs the calls as code under test.  done counts completed ops.
	size_t done = 0;
	void perform(libvariant::shared_ptr<libvariant::EmitterOutput> out, Format f, const libvariant::Variant &params);
};
void emit_events(libvariant::Emitter &e, const MV &v, unsigned style = 0);
// Header of a payload message: a map the format can hold, without the payload keys.
MV payload_root(Format f, Gen &g, std::string *payload);
void add_payload(libvariant::Variant &v, Format f, const std::string &payload);
// Damages a document in place; returns a description.
std::string mutate(Format f, std::string &doc);
std::string odd_text(Format f);
// Records parser events and checks that they are properly nested.
struct EventLog {
	std::string tag;
	std::vector<int> open;      // 0 document, 1 list, 2 map
	uint64_t events = 0, hash = 1469598103934665603ull;
	size_t max_depth = 0;
	std::vector<uint64_t> hashes; // after each document
	int64_t throw_at = -1;      // event at which the handler throws
	uint64_t thrown = 0;
};
libvariant::shared_ptr<libvariant::ParserActions> event_actions(EventLog *log);
// Bytes of a document after which it is complete (explicit end), or npos.
size_t complete_end(Format f, const std::string &doc);
}
