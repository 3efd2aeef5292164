// Histories of operations on values, references and copies, run against the
// library and a reference model of its sharing rules at the same time.
#pragma once
#include "world.h"
#include <memory>
namespace sim {

struct Cont;
struct Cell {
	MV::T t = MV::Null;
	MV sc;                         // scalar content
	std::shared_ptr<Cont> c;       // list or map
	std::shared_ptr<std::string> b; // bytes of a blob (shared by assignment)
	Cont *owner = 0;               // container this cell is an element of
	uint64_t gen = 0;              // changes when the library may have moved the element
};
typedef std::shared_ptr<Cell> CellP;
struct Cont {
	std::vector<CellP> l;
	std::map<std::string, CellP> m;
};
struct PathEl { bool is_key; std::string key; unsigned idx; };
typedef std::vector<PathEl> MPath;

// A reference slot of the model.
struct MRef {
	bool proxy = false;
	std::weak_ptr<Cell> base;
	uint64_t gen = 0;
	MPath path;
	std::shared_ptr<Cont> hold;    // an unresolved reference keeps the container it was taken from
};

class Values {
public:
	struct Options {
		bool fault = false;        // inject allocation failures
		unsigned nops = 30;
	};
	explicit Values(const Options &o);
	~Values();
	void run();
	unsigned refs_used = 0, shared = 0, failed_ops = 0;
	uint64_t fired = 0;
private:
	struct LV { bool ref; unsigned i; };
	enum Res { Good, Gone, Stale };
	Options opt;
	std::vector<libvariant::Variant *> rv;
	std::vector<CellP> mv;
	std::vector<libvariant::VariantRef *> rr;
	std::vector<MRef> mr;
	bool last_ok = false;          // whether the library performed the operation
	bool dead = false;             // after an allocation failure the model is not continued
	std::string op;

	libvariant::Variant &real(LV x) { return x.ref ? *static_cast<libvariant::Variant *>(rr[x.i]) : *rv[x.i]; }
	LV any();
	std::string name(LV x);
	// Cell an lvalue denotes; null when an element is missing.  convert: the
	// access turns an unresolved reference into a resolved one.
	CellP find(LV x, Res &r, bool convert);
	CellP create(LV x, Res &r, bool dry);
	CellP base_of(LV x, Res &r);
	bool attached(const CellP &c);
	void bind(MRef &m, const CellP &c);
	static CellP step(const CellP &c, const PathEl &e);
	bool settable(const CellP &base, const MPath &p);
	CellP make_path(const CellP &base, const MPath &p);
	static void set_type(Cell &c, MV::T t);
	static void assign(Cell &dst, const Cell &src);
	static void deep(Cell &dst, const Cell &src);
	static void grow(Cont &c, size_t n);
	static MV tree(const Cell &c, int depth = 0);
	static size_t weight(const Cell &c);
	static void reach(const Cell &c, std::vector<const Cont *> &out);
	bool cyclic(const Cell &src, LV dst, bool into);
	void set_scalar(Cell &c, const MV &v);
	MV draw_scalar();
	std::string draw_key();
	unsigned draw_index();
	MPath draw_path();
	std::vector<unsigned> retired;
	void drop_ref(unsigned k);
	void step_once();
	// Performs one operation: the real call, and the model's after it.
	template<class R, class M> void both(const char *what, std::initializer_list<LV> uses, LV dst, R real_op, M model_op);
	void verify();
	void after_fault(LV dst);
	bool affected(unsigned var, LV dst);
	friend struct Probe;
};
}
