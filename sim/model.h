// Reference values, generators and renderers, independent of the library.
#pragma once
#include "core.h"
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct MV {
	enum T { Null, Bool, Int, Uint, Float, Str, List, Map, Blob, Bad } t = Null;
	bool b = false;
	int64_t i = 0;
	uint64_t u = 0;
	double d = 0;
	std::string s;
	std::vector<MV> l;
	std::map<std::string, MV> m;
	MV() {}
	explicit MV(T tt) : t(tt) {}
	static MV boolean(bool v) { MV x(Bool); x.b = v; return x; }
	static MV integer(int64_t v) { MV x(Int); x.i = v; return x; }
	static MV uinteger(uint64_t v) { MV x(Uint); x.u = v; return x; }
	static MV real(double v) { MV x(Float); x.d = v; return x; }
	static MV str(const std::string &v) { MV x(Str); x.s = v; return x; }
	static MV blob(const std::string &v) { MV x(Blob); x.s = v; return x; }
	bool container() const { return t == List || t == Map; }
};
bool same(const MV &a, const MV &b);         // strict: type and content (NaN equals NaN)
bool equiv(const MV &a, const MV &b);        // like same, but a non-negative integer may be signed or unsigned
std::string show(const MV &v, size_t max = 200);
size_t count(const MV &v);
uint64_t hash(const MV &v);

// Through the library's public API.  Both run as code under test.
libvariant::Variant build(const MV &v);
// A blob with the given bytes in one to three separate buffers.
libvariant::BlobPtr make_blob(const std::string &s, unsigned shape);
MV to_model(const libvariant::Variant &v);

enum Format { JSON, YAML, XML, BUNDLE, NFORMATS };
extern const char *const format_names[NFORMATS];
libvariant::SerializeType stype(Format f);

// What a value looks like after one trip through the format.
MV normalize(Format f, const MV &v);

struct Gen {
	Format f;
	bool blobs = true, floats = true, nonfinite = true, big = false;
	bool any_text = false;       // value need not be representable in a text format
	bool odd = false;            // strings only an emitter can be trusted to write: look-alikes, NUL bytes
	int max_depth = 4;
	uint32_t budget = 40;        // number of nodes
	uint32_t alphabet = 0;
	explicit Gen(Format ff);     // draws a swarm profile
	MV scalar();
	MV value(int depth);
	MV root();                   // a document root the format accepts
	std::string text(bool key);
	std::string key();
	void odd_text(std::string &s);
};
bool ambiguous_scalar(const std::string &s); // an unquoted scalar that reads back as something else
std::string gen_bytes(size_t n);

// Random but valid document text that was not produced by the library, with
// the value it denotes.
// Text of a value, written in one of the ways the format allows.  Anchors and
// aliases (YAML) make the reader share storage, so only on request.
std::string render(Format f, const MV &v, bool anchors = false);

// Emitter options drawn at random (a map Variant or null).
libvariant::Variant gen_params(Format f, std::string *desc);
}
