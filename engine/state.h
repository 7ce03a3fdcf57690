// Abstract state of the analyser: values, memory regions, frames.
#pragma once
#include "lin.h"
#include <memory>
#include <functional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/DataLayout.h>

// ---- conditions -------------------------------------------------------------------------
struct CNode;
typedef std::shared_ptr<const CNode> Cnd;
struct CNode {
	enum K { T, F, GE, EQ, NE, AND, OR, ND } k;
	Lin e;
	Cnd a, b;
	bool lossy = false; // ND: the outcome is not a free choice of the environment
};
Cnd cT();
Cnd cF();
Cnd cGE(const Lin &e);
Cnd cEQ(const Lin &e);
Cnd cNE(const Lin &e);
Cnd cAnd(Cnd a, Cnd b);
Cnd cOr(Cnd a, Cnd b);
Cnd cNot(Cnd a);
Cnd cND(bool lossy);

// ---- values -----------------------------------------------------------------------------
struct Val {
	enum K : unsigned char { Undef, Int, Ptr, Fn, Cond, Dbl, Agg, Top } k = Undef;
	Lin e;              // Int: value (a mathematical integer, equal modulo 2^w); Ptr: offset; Dbl: see dk
	int obj = 0;        // Ptr: object, 0 = the null page
	const llvm::Function *fn = nullptr;
	Cnd c;
	int dk = 0;         // Dbl: 0 unknown, 1 constant dv, 2 the integer e, 3 log10(e), 4 floor(log10(e))+dv
	double dv = 0;
	std::shared_ptr<const std::vector<Val>> agg;
	static Val mkInt(const Lin &e) { Val v; v.k = Int; v.e = e; return v; }
	static Val mkC(long long c) { return mkInt(Lin(c)); }
	static Val mkPtr(int o, const Lin &e) { Val v; v.k = Ptr; v.obj = o; v.e = e; return v; }
	static Val mkNull() { return mkPtr(0, Lin(0)); }
	static Val mkFn(const llvm::Function *f) { Val v; v.k = Fn; v.fn = f; return v; }
	static Val mkCond(Cnd c) { Val v; v.k = Cond; v.c = c; return v; }
	static Val mkTop() { Val v; v.k = Top; return v; }
	static Val mkDbl(int dk, const Lin &e, double dv) { Val v; v.k = Dbl; v.dk = dk; v.e = e; v.dv = dv; return v; }
	static Val mkAgg(std::vector<Val> a) { Val v; v.k = Agg; v.agg = std::make_shared<const std::vector<Val>>(std::move(a)); return v; }
	bool isNull() const { return k == Ptr && obj == 0 && e.isZero(); }
};

// ---- memory -----------------------------------------------------------------------------
enum SegK { S_UNINIT, S_ZERO, S_ARB, S_LIT, S_DEC, S_COPY, S_TRUNC, S_AMB, S_VAL, S_HEX, S_SOFT };
struct Seg {
	Lin lo, hi;
	SegK k = S_ARB;
	std::string lit;   // S_LIT
	Lin e;             // S_DEC / S_HEX: the number; S_COPY: offset in the source
	int src = 0;       // S_COPY: source object
	Val v;             // S_VAL
};
struct Run { Lin lo, hi; bool term; }; // bytes in [lo,hi) are not zero; byte hi is zero when term
struct Cell { unsigned size; Val v; };
struct RC { Lin off; Val v; };
enum ObjK { O_HEAP, O_STACK, O_GLOBAL, O_MAP };
struct Obj {
	ObjK kind = O_HEAP;
	Lin size;
	bool alive = true;    // false: freed / out of scope
	bool constant = false;
	bool blur = false; // what is written is only known to be initialised
	std::string frozen; // property that forbids writing
	int base = 0;         // symbol standing for the address
	SegK fill = S_UNINIT;
	bool hasData = false;
	std::string data;     // constant bytes (global initialisers)
	std::map<long, Cell> cells;
	std::vector<Seg> segs;
	std::vector<Run> runs;
	std::vector<RC> rc;   // bytes already read
	std::string site, freedAt;
	bool leakOk = false;
	std::string tag;
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
	const llvm::Function *F = nullptr;
	std::map<const llvm::Value *, Val> L;
	std::vector<int> allocas;
	const llvm::Instruction *cur = nullptr;
	unsigned entry = 0;
};
struct Trace { std::string what; std::shared_ptr<Trace> prev; int n; };

struct State {
	std::vector<Frame> fr;
	std::map<int, ObjP> heap;
	std::map<const llvm::GlobalVariable *, int> globals;
	Store st;
	std::set<int> lossy;
	std::map<int, int> doubt;
	std::vector<std::pair<Lin, int>> dl; // (number, symbol standing for how many decimal digits it has)
	std::shared_ptr<Trace> trace;
	Frame &top() { return fr.back(); }
	const Obj &obj(int id) const { return *heap.at(id); }
	Obj &mut(int id) {
		auto &p = heap.at(id);
		if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
		return *p;
	}
	bool doubtful() const { return !doubt.empty(); }
	void note(const std::string &s) {
		auto t = std::make_shared<Trace>();
		t->what = s;
		t->prev = trace;
		t->n = trace ? trace->n + 1 : 1;
		trace = t;
	}
};
typedef std::vector<State> States;
typedef std::vector<std::pair<State, Val>> SVals;
