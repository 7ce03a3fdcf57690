// Conditions, obligations and the memory domain.
#include "eng.h"
#include <algorithm>
#include <sstream>

// ---------------------------------------------------------------- conditions
static Cnd mk(CNode::K k, const Lin &e = Lin(), Cnd a = nullptr, Cnd b = nullptr) {
	auto n = std::make_shared<CNode>();
	n->k = k; n->e = e; n->a = a; n->b = b;
	return n;
}
Cnd cT() { static Cnd c = mk(CNode::T); return c; }
Cnd cF() { static Cnd c = mk(CNode::F); return c; }
Cnd cGE(const Lin &e) { if (e.isC()) return e.c >= 0 ? cT() : cF(); return mk(CNode::GE, e); }
Cnd cEQ(const Lin &e) { if (e.isC()) return e.c == 0 ? cT() : cF(); return mk(CNode::EQ, e); }
Cnd cNE(const Lin &e) { if (e.isC()) return e.c != 0 ? cT() : cF(); return mk(CNode::NE, e); }
Cnd cAnd(Cnd a, Cnd b) {
	if (a->k == CNode::F || b->k == CNode::F) return cF();
	if (a->k == CNode::T) return b;
	if (b->k == CNode::T) return a;
	return mk(CNode::AND, Lin(), a, b);
}
Cnd cOr(Cnd a, Cnd b) {
	if (a->k == CNode::T || b->k == CNode::T) return cT();
	if (a->k == CNode::F) return b;
	if (b->k == CNode::F) return a;
	return mk(CNode::OR, Lin(), a, b);
}
Cnd cND(bool lossy) { auto n = std::make_shared<CNode>(); n->k = CNode::ND; n->lossy = lossy; return n; }
Cnd cNot(Cnd a) {
	switch (a->k) {
	case CNode::T: return cF();
	case CNode::F: return cT();
	case CNode::GE: return cGE(-a->e - Lin(1));
	case CNode::EQ: return cNE(a->e);
	case CNode::NE: return cEQ(a->e);
	case CNode::AND: return cOr(cNot(a->a), cNot(a->b));
	case CNode::OR: return cAnd(cNot(a->a), cNot(a->b));
	default: return a;
	}
}

int Eng::fresh(State &s, const std::string &n, bool lossy) {
	int v = newSym(n, lossy);
	if (lossy) s.lossy.insert(v);
	return v;
}
int Eng::freshR(State &s, const std::string &n, bool lossy, I lo, I hi) {
	int v = newSymR(n, lossy, lo, hi);
	if (lossy) s.lossy.insert(v);
	return v;
}

// what is known about a number tells something about how many digits it has
void Eng::tightenDl(State &s) {
	for (auto &p : s.dl) {
		Lin d = s.st.norm(Lin::sym(p.second));
		if (d.isC()) continue;
		bool hl, hh, dl, dh;
		I lo, hi, a, b;
		s.st.bounds(s.st.norm(p.first), hl, lo, hh, hi);
		s.st.bounds(d, dl, a, dh, b);
		auto dig = [](I v) { int n = 1; for (; v >= 10; v /= 10) n++; return n; };
		if (hl && lo >= 10 && (!dl || dig(lo) > a)) { s.st.addGe(d - Lin(dig(lo))); if (s.st.bot) return; }
		if (hh && hi >= 0 && (!dh || dig(hi) < b)) { s.st.addGe(Lin(dig(hi)) - d); if (s.st.bot) return; }
	}
}
void Eng::assume(State s, Cnd c, States &out) {
	switch (c->k) {
	case CNode::T: out.push_back(std::move(s)); return;
	case CNode::F: return;
	case CNode::ND: out.push_back(std::move(s)); return;
	case CNode::GE:
		if (s.st.entailsGe(c->e)) { out.push_back(std::move(s)); return; }
		if (!s.st.feasibleWith(c->e)) return;
		{
			bool ne = !s.st.ne.empty();
			s.st.addGe(c->e);
			if (ne && !s.st.bot && !s.st.feasibleAround(c->e)) return;
		}
		if (!s.st.bot && !s.dl.empty()) tightenDl(s);
		if (!s.st.bot) out.push_back(std::move(s));
		return;
	case CNode::EQ:
		if (!s.st.feasibleWith(c->e) || !s.st.feasibleWith(-c->e)) return;
		s.st.addEq(c->e);
		if (!s.st.bot && !s.st.feasibleAround(c->e)) return;
		if (!s.st.bot && !s.dl.empty()) tightenDl(s);
		if (!s.st.bot) out.push_back(std::move(s));
		return;
	case CNode::NE:
		if (s.st.entailsEq(c->e)) return;
		s.st.addNe(c->e);
		if (!s.st.bot && !s.st.feasibleAround(c->e)) return;
		if (!s.st.bot) out.push_back(std::move(s));
		return;
	case CNode::AND: {
		States t;
		assume(std::move(s), c->a, t);
		for (auto &x : t) assume(std::move(x), c->b, out);
		return;
	}
	case CNode::OR: {
		State k = s;
		assume(std::move(s), c->a, out);
		States t;
		assume(std::move(k), cNot(c->a), t);
		for (auto &x : t) assume(std::move(x), c->b, out);
		return;
	}
	}
}
bool Eng::condLossy(State &s, Cnd c) {
	if (c->k == CNode::ND) return c->lossy;
	if (c->a && condLossy(s, c->a)) return true;
	if (c->b && condLossy(s, c->b)) return true;
	std::set<int> y;
	s.st.norm(c->e).syms(y);
	for (int v : y) if (SYM[v].lossy || s.lossy.count(v)) return true;
	return false;
}
static int doubtId = 0;
void Eng::branch(State &s, Cnd c, States &t, States &f) {
	branches++;
	if (c->k == CNode::T) { t.push_back(s); return; }
	if (c->k == CNode::F) { f.push_back(s); return; }
	assume(s, c, t);
	assume(s, cNot(c), f);
	if (!t.empty() && !f.empty() && condLossy(s, c)) {
		int id = ++doubtId;
		for (auto &x : t) x.doubt[id] |= 1;
		for (auto &x : f) x.doubt[id] |= 2;
	}
}

// value of e modulo 2^w in the signed or unsigned range
std::vector<std::pair<State, Lin>> Eng::resolve(State &s, const Lin &e0, unsigned w, bool sgn) {
	std::vector<std::pair<State, Lin>> r;
	I one = 1;
	I mod = one << w;
	I lo = sgn ? -(one << (w - 1)) : 0, hi = sgn ? (one << (w - 1)) - 1 : mod - 1;
	Lin e = s.st.norm(e0);
	if (e.isC()) {
		I v = e.c % mod;
		if (v < 0) v += mod;
		if (sgn && v > hi) v -= mod;
		r.push_back({s, Lin::cst(v)});
		return r;
	}
	bool okLo = s.st.entailsGe(e - Lin::cst(lo)), okHi = s.st.entailsGe(Lin::cst(hi) - e);
	if (okLo && okHi) { r.push_back({s, e}); return r; }
	// addresses are never wrapped
	for (auto &p : e.t) if (SYM[p.first].name[0] == '&') { r.push_back({s, e}); return r; }
	bool bLo = okLo || s.st.entailsGe(e - Lin::cst(lo - mod)), bHi = okHi || s.st.entailsGe(Lin::cst(hi + mod) - e);
	if (bLo && bHi) {
		States a, b;
		Cnd in = cAnd(okLo ? cT() : cGE(e - Lin::cst(lo)), okHi ? cT() : cGE(Lin::cst(hi) - e));
		assume(s, in, a);
		for (auto &x : a) r.push_back({x, e});
		if (!okLo) { b.clear(); assume(s, cGE(Lin::cst(lo - 1) - e), b); for (auto &x : b) r.push_back({x, e + Lin::cst(mod)}); }
		if (!okHi) { b.clear(); assume(s, cGE(e - Lin::cst(hi + 1)), b); for (auto &x : b) r.push_back({x, e - Lin::cst(mod)}); }
		if (r.size() > 1 && condLossy(s, cGE(e))) {
			int id = ++doubtId, i = 0;
			for (auto &x : r) x.first.doubt[id] |= i++ ? 2 : 1;
		}
		return r;
	}
	int v = freshR(s, "wrap", true, lo, hi);
	r.push_back({s, Lin::sym(v)});
	return r;
}

// ---------------------------------------------------------------- obligations
std::string Eng::locOf(const Instruction *I) {
	if (!I) return "?";
	if (auto &d = I->getDebugLoc()) {
		auto *sc = cast<DIScope>(d.getScope());
		std::string f = sc->getFilename().str();
		size_t p = f.rfind('/');
		if (p != std::string::npos) f = f.substr(p + 1);
		return f + ":" + std::to_string(d.getLine());
	}
	return I->getFunction()->getName().str();
}
static bool inRepo(const Instruction *I) {
	if (!I) return false;
	if (auto &d = I->getDebugLoc()) {
		auto *sc = cast<DIScope>(d.getScope());
		std::string f = sc->getFilename().str();
		std::string dir = sc->getDirectory().str();
		return (f.find("/verif/") == std::string::npos && f.find("drivers/") == std::string::npos);
	}
	return false;
}
std::string Eng::site(const State &s) {
	for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
		if (!s.fr[i].cur || !inRepo(s.fr[i].cur)) continue;
		return locOf(s.fr[i].cur) + " (" + s.fr[i].F->getName().str() + ")";
	}
	for (int i = (int)s.fr.size() - 1; i >= 0; i--) if (s.fr[i].cur) return locOf(s.fr[i].cur) + " (" + s.fr[i].F->getName().str() + ")";
	return "?";
}
void Eng::incomplete(const std::string &why) {
	for (auto &x : incompleteNotes) if (x == why) return;
	if (incompleteNotes.size() < 200) incompleteNotes.push_back(why);
	if (verbose) fprintf(stderr, "incomplete: %s\n", why.c_str());
}
void Eng::record(State &s, const std::string &cat, const std::string &kind, const std::string &msg, Verdict v, const std::string &extra) {
	std::string prop = cat;
	auto it = catMap.find(cat);
	if (it != catMap.end()) prop = it->second;
	if (v == VIOLATED && s.doubtful()) v = UNKNOWN;
	if (v == VIOLATED && !s.st.ge.empty()) { // the state itself may be empty
		int r = refute(s, s.st.ge);
		if (r == 0) return;
		if (r < 0) v = UNKNOWN;
	}
	std::string st = site(s);
	std::string key = prop + "|" + kind + "|" + st + "|" + msg;
	auto &o = obligs[key];
	if (o.cat.empty()) { o.cat = prop; o.kind = kind; o.site = st; o.msg = msg; }
	if (v == PROVEN) o.proven++;
	else if (v == UNKNOWN) {
		o.unknown++;
		if (o.unknown == 1 && verbose > 0) {
			std::ostringstream d;
			d << extra << (s.doubtful() ? " (doubtful)" : "") << "; chain:";
			for (auto &f : s.fr) if (f.cur) d << " " << f.F->getName().str() << "@" << locOf(f.cur);
			d << "; path:";
			std::vector<std::string> tr;
			for (auto t = s.trace; t && tr.size() < 40; t = t->prev) tr.push_back(t->what);
			for (int i = (int)tr.size() - 1; i >= 0; i--) d << " " << tr[i];
			d << "; store: " << s.st.str();
			o.udetail = d.str();
		}
		if (verbose > 1 && o.unknown <= 2) fprintf(stderr, "unknown %s %s: %s [%s] doubt=%zu\n  store: %s\n", kind.c_str(), st.c_str(), msg.c_str(), extra.c_str(), s.doubt.size(), s.st.str().c_str());
	} else {
		o.violated++;
		if (o.violated == 1) {
			std::ostringstream d;
			d << msg << " at " << st << "; call chain:";
			for (auto &f : s.fr) if (f.cur) d << " " << f.F->getName().str() << "@" << locOf(f.cur);
			std::vector<std::string> tr;
			for (auto t = s.trace; t && tr.size() < 40; t = t->prev) tr.push_back(t->what);
			d << "; path:";
			for (int i = (int)tr.size() - 1; i >= 0; i--) d << " " << tr[i];
			if (!extra.empty()) d << "; " << extra;
			o.detail = d.str();
			if (verbose) fprintf(stderr, "VIOLATION %s %s: %s\n", prop.c_str(), kind.c_str(), o.detail.c_str());
		}
	}
}
// Is there a state of s in which all of cs are >= 0? Digit counts are worked out case by case.
int Eng::refute(State &s, const std::vector<Lin> &cs, std::map<int, I> *m, bool *exact) {
	int budget = 600;
	std::function<int(std::vector<Lin>, std::set<int>)> go = [&](std::vector<Lin> c, std::set<int> done) -> int {
		if (--budget < 0) return -1;
		for (auto &x : c) { Lin n = s.st.norm(x); if (n.isC() && n.c < 0) return 0; }
		State q;
		std::set<int> slice;
		bool some = false;
		for (auto &x : c) if (!s.st.norm(x).isC()) some = true;
		std::map<int, I> mm;
		bool ok = some ? s.st.modelWith(c, &mm, &slice) : true;
		if (!ok) {
			Store t = s.st;
			for (auto &x : c) t.addGe(x);
			if (t.bot || !t.feasible()) return 0;
		}
		for (size_t i = 0; i < s.dl.size(); i++) {
			Lin d = s.st.norm(Lin::sym(s.dl[i].second)), e = s.st.norm(s.dl[i].first);
			if (done.count((int)i)) continue;
			bool in = false;
			for (auto &p : d.t) if (slice.count(p.first)) in = true;
			if (!in) continue;
			done.insert((int)i);
			I lo = 0, hi = 9;
			int res = 0;
			for (int n = 1; n <= 20; n++) {
				if (n > 1) { lo = hi + 1; hi = hi * 10 + 9; }
				std::vector<Lin> c2 = c;
				c2.push_back(d - Lin(n));
				c2.push_back(Lin(n) - d);
				c2.push_back(e - Lin::cst(lo));
				c2.push_back(Lin::cst(hi) - e);
				int r = go(c2, done);
				if (r == 1) return 1;
				if (r < 0) { res = -1; if (budget < 0) return -1; }
			}
			return res;
		}
		if (!ok) return -1;
		if (m) *m = mm;
		if (exact) *exact = exactSlice(s, slice);
		return 1;
	};
	return go(cs, {});
}
bool Eng::exactSlice(State &s, const std::set<int> &slice) {
	for (int v : slice) if (SYM[v].lossy || s.lossy.count(v)) return false;
	return true;
}
void Eng::definite(State &s, const std::string &cat, const std::string &kind, const std::string &msg) {
	record(s, cat, kind, msg, VIOLATED);
}
// all ps must be >= 0; afterwards they are assumed. false: the state ends here.
bool Eng::must(State &s, const std::vector<Lin> &ps, const std::string &cat, const std::string &kind, const std::string &msg) {
	bool all = true, bad = false;
	for (auto &p : ps) {
		if (s.st.entailsGe(p)) continue;
		all = false;
		Lin neg = -p - Lin(1);
		bool def = s.st.entailsGe(neg);
		std::string ex = "violated: " + s.st.norm(p).str() + " >= 0";
		if (def) { record(s, cat, kind, msg, VIOLATED, ex); return false; }
		std::map<int, I> m;
		bool exact = false;
		int r = refute(s, {neg}, &m, &exact);
		if (r == 0) { all = true; s.st.addGe(p); continue; }
		if (r == 1 && exact) {
			ex += " fails for";
			int n = 0;
			for (auto &kv : m) if (n++ < 8) ex += " " + SYM[kv.first].name + "=" + itos(kv.second);
			record(s, cat, kind, msg, VIOLATED, ex);
		} else record(s, cat, kind, msg, UNKNOWN, ex);
		bad = true;
	}
	(void)all;
	if (!bad) { record(s, cat, kind, msg, PROVEN); return true; }
	for (auto &p : ps) { s.st.addGe(p); if (s.st.bot) return false; }
	return true;
}

// ---------------------------------------------------------------- objects
static int objCounter = 0;
int Eng::newObj(State &s, ObjK k, const Lin &size, SegK fill, const std::string &st) {
	auto o = std::make_shared<Obj>();
	int id = ++objCounter;
	o->kind = k;
	o->size = size;
	o->fill = fill;
	o->site = st;
	o->base = newSymR("&" + std::to_string(id), false, 4096, ((I)1) << 47);
	s.heap[id] = o;
	return id;
}
unsigned bitsOf(Type *t, const DataLayout &DL) { return DL.getTypeSizeInBits(t).getFixedValue(); }

void Eng::initConst(State &s, int id, long off, const Constant *c) {
	Obj &o = s.mut(id);
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cs = dyn_cast<ConstantDataSequential>(c)) {
		if (cs->getElementType()->isIntegerTy(8)) {
			std::string d = cs->getRawDataValues().str();
			if (o.data.size() < (size_t)off + d.size()) o.data.resize(off + d.size(), 0);
			o.data.replace(off, d.size(), d);
			return;
		}
		unsigned es = DL->getTypeAllocSize(cs->getElementType());
		for (unsigned i = 0; i < cs->getNumElements(); i++) initConst(s, id, off + i * es, cs->getElementAsConstant(i));
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		unsigned es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(s, id, off + i * es, ca->getOperand(i));
		return;
	}
	if (auto *cst = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cst->getType());
		for (unsigned i = 0; i < cst->getNumOperands(); i++) initConst(s, id, off + sl->getElementOffset(i), cst->getOperand(i));
		return;
	}
	Val v = constVal(s, c);
	Obj &o2 = s.mut(id);
	if (v.k == Val::Int && v.e.isZero()) return;
	o2.cells[off] = Cell{(unsigned)DL->getTypeStoreSize(t), v};
}
int Eng::globalObj(State &s, const GlobalVariable *g) {
	auto it = s.globals.find(g);
	if (it != s.globals.end()) return it->second;
	// the same id in every state
	static std::map<const GlobalVariable *, int> ids;
	static std::map<const GlobalVariable *, int> bases;
	int id;
	uint64_t sz = DL->getTypeAllocSize(g->getValueType());
	if (!ids.count(g)) {
		id = newObj(s, O_GLOBAL, Lin((long long)sz), S_ZERO, g->getName().str());
		ids[g] = id;
		bases[g] = s.obj(id).base;
	} else {
		id = ids[g];
		auto o = std::make_shared<Obj>();
		o->kind = O_GLOBAL;
		o->size = Lin((long long)sz);
		o->fill = S_ZERO;
		o->site = g->getName().str();
		o->base = bases[g];
		s.heap[id] = o;
	}
	s.globals[g] = id;
	Obj &o = s.mut(id);
	o.constant = g->isConstant();
	auto ps = params.find(g->getName().str());
	if (ps != params.end()) {
		paramsUsed.insert(ps->first);
		putScalar(s, id, Lin(0), (unsigned)sz, Val::mkC(ps->second));
	} else if (g->hasInitializer()) {
		initConst(s, id, 0, g->getInitializer());
		Obj &o3 = s.mut(id);
		if (!o3.data.empty()) { o3.hasData = true; o3.data.resize(sz, 0); }
	} else { // external variable (stdout ...): opaque
		o.fill = S_AMB;
	}
	return id;
}

bool Eng::accessOk(State &s, const Val &p, const Lin &size, bool write, const char *what) {
	std::string acc = std::string(write ? "write" : "read") + " (" + what + ")";
	if (p.k == Val::Undef) { definite(s, "mem", "uninit-pointer", acc + " through a pointer that was never set"); return false; }
	if (p.k == Val::Top) { record(s, "mem", "bounds", acc + " through an untracked pointer", UNKNOWN); return false; }
	if (p.k == Val::Fn) { if (write) definite(s, "mem", "bounds", acc + " to code"); return false; }
	Val q = p;
	if (p.k == Val::Int) {
		if (s.st.entailsEq(p.e)) q = Val::mkNull();
		else { record(s, "mem", "bounds", acc + " through an integer used as an address", UNKNOWN); return false; }
	}
	if (q.k != Val::Ptr) { record(s, "mem", "bounds", acc + " through a non-pointer", UNKNOWN); return false; }
	if (q.obj == 0) { definite(s, "mem", "null", acc + " through a null pointer"); return false; }
	if (!s.heap.count(q.obj)) { definite(s, "mem", "lifetime", acc + " of memory that no longer exists"); return false; }
	const Obj &o = s.obj(q.obj);
	if (!o.alive) {
		definite(s, "mem", "lifetime", acc + " of " + (o.kind == O_STACK ? "a local variable out of scope" : "released memory") + " (" + o.site + ", ended at " + o.freedAt + ")");
		return false;
	}
	if (write && o.constant) { definite(s, "mem", "const", acc + " to constant " + o.site); return false; }
	if (write && !o.frozen.empty()) record(s, o.frozen, "frozen", acc + " to " + o.site + ", which others share", VIOLATED);
	return must(s, {q.e, o.size - q.e - size}, "mem", "bounds", acc + " stays inside " + (o.kind == O_STACK || o.kind == O_GLOBAL ? "'" + o.site + "'" : "the block from " + o.site));
}
void Eng::killObj(State &s, int id, const std::string &at) {
	Obj &o = s.mut(id);
	o.alive = false;
	o.freedAt = at;
	o.cells.clear();
	o.segs.clear();
	o.runs.clear();
	o.rc.clear();
	o.data.clear();
	o.hasData = false;
}

// ---------------------------------------------------------------- content
// relation of [alo,ahi) to [blo,bhi): 0 disjoint, 1 a inside b, 2 unknown/partial
static int rel(State &s, const Lin &alo, const Lin &ahi, const Lin &blo, const Lin &bhi) {
	if (s.st.entailsGe(blo - ahi) || s.st.entailsGe(alo - bhi)) return 0;
	if (s.st.entailsGe(alo - blo) && s.st.entailsGe(bhi - ahi)) return 1;
	return 2;
}
static bool ge(State &s, const Lin &a, const Lin &b) { return s.st.entailsGe(a - b); }
static bool eq(State &s, const Lin &a, const Lin &b) { return a == b || s.st.entailsEq(a - b); }

void Eng::runNonzero(State &s, Obj &o, const Lin &lo, const Lin &hi) {
	std::vector<Run> r;
	Lin L = lo, H = hi;
	bool term = false;
	for (auto &x : o.runs) {
		if (ge(s, lo, x.hi) && !eq(s, lo, x.hi)) { r.push_back(x); continue; } // entirely before
		if (eq(s, lo, x.hi)) { L = x.lo; continue; }                          // extends it (the terminator is overwritten)
		if (ge(s, x.lo, hi)) {
			if (eq(s, x.lo, hi)) { H = x.hi; term = x.term; } else r.push_back(x);
			continue;
		}
		if (ge(s, lo, x.lo) && ge(s, x.hi, lo)) { // starts inside
			L = x.lo;
			if (ge(s, x.hi, hi)) { H = x.hi; term = x.term; }
			continue;
		}
		// unknown: forget
	}
	if (!term) { // is the byte after it known to be zero?
	}
	r.push_back({L, H, term});
	o.runs.swap(r);
}
void Eng::runZero(State &s, Obj &o, const Lin &at) {
	std::vector<Run> r;
	for (auto &x : o.runs) {
		if (eq(s, x.hi, at)) { x.term = true; r.push_back(x); continue; }
		if (ge(s, at, x.hi)) { r.push_back(x); continue; } // at >= hi (maybe equal: zero either way)
		if (ge(s, x.lo, at + Lin(1))) { r.push_back(x); continue; }
		if (ge(s, at, x.lo) && ge(s, x.hi, at + Lin(1))) {
			r.push_back({x.lo, at, true});
			if (!eq(s, x.hi, at + Lin(1))) r.push_back({at + Lin(1), x.hi, x.term});
			continue;
		}
	}
	o.runs.swap(r);
	bool have = false;
	for (auto &x : o.runs) if (x.term && eq(s, x.hi, at)) have = true;
	if (!have) o.runs.push_back({at, at, true});
	if (o.runs.size() > 12) o.runs.erase(o.runs.begin());
}
void Eng::runUnknown(State &s, Obj &o, const Lin &lo, const Lin &hi) {
	std::vector<Run> r;
	for (auto &x : o.runs) {
		if (ge(s, lo, x.hi + Lin(1)) || ge(s, x.lo, hi)) { r.push_back(x); continue; }
		if (ge(s, lo, x.hi)) { if (!eq(s, x.lo, x.hi)) r.push_back({x.lo, x.hi, false}); continue; }
		if (ge(s, lo, x.lo)) {
			if (!eq(s, lo, x.lo)) r.push_back({x.lo, lo, false});
			if (ge(s, x.hi, hi)) r.push_back({hi, x.hi, x.term});
			continue;
		}
	}
	o.runs.swap(r);
}
void Eng::killRange(State &s, Obj &o, const Lin &lo, const Lin &hi) {
	std::vector<RC> rc;
	for (auto &x : o.rc) if (rel(s, x.off, x.off + Lin(1), lo, hi) == 0) rc.push_back(x);
	o.rc.swap(rc);
	std::vector<Seg> amb;
	for (auto it = o.cells.begin(); it != o.cells.end();) {
		Lin cl((long long)it->first), ch((long long)(it->first + it->second.size));
		int r = rel(s, cl, ch, lo, hi);
		if (r == 0) { ++it; continue; }
		if (r == 2) {
			Cell c = it->second;
			long off = it->first;
			it = o.cells.erase(it);
			// constant bounds: keep the untouched bytes of a known integer, otherwise forget them
			Seg g;
			g.lo = cl;
			g.hi = ch;
			g.k = c.v.k == Val::Undef ? S_UNINIT : S_AMB;
			if (c.v.k == Val::Int && c.v.e.isZero()) g.k = S_ZERO;
			(void)off;
			amb.push_back(g);
			continue;
		}
		it = o.cells.erase(it);
	}
	for (auto &g : amb) o.segs.push_back(g);
	// segments fully covered disappear
	std::vector<Seg> keep;
	for (auto &g : o.segs) if (rel(s, g.lo, g.hi, lo, hi) != 1) keep.push_back(g);
	o.segs.swap(keep);
}
void Eng::writeRange(State &s, int id, Seg g) {
	Obj &o = s.mut(id);
	g.lo = s.st.norm(g.lo);
	g.hi = s.st.norm(g.hi);
	if (g.lo == g.hi) return;
	bool known = o.blur && g.k != S_UNINIT && g.k != S_AMB && !(g.k == S_VAL && g.v.k == Val::Undef) && initStatus(s, id, g.lo, g.hi) == 1;
	if (known) for (auto &c : o.cells) if (rel(s, Lin((long long)c.first), Lin((long long)c.first + c.second.size), g.lo, g.hi) != 0) known = false;
	SegK was = g.k;
	if (known) g.k = S_ARB;
	killRange(s, o, g.lo, g.hi);
	if (known) for (auto &x : o.segs) if (x.k == S_ARB && ge(s, g.lo, x.lo) && ge(s, x.hi, g.hi)) {
		if (was == S_ZERO) { runUnknown(s, o, g.lo + Lin(1), g.hi); runZero(s, o, g.lo); }
		else if (was == S_DEC || was == S_HEX || (was == S_LIT && g.lit.find('\0') == std::string::npos)) runNonzero(s, o, g.lo, g.hi);
		else runUnknown(s, o, g.lo, g.hi);
		return;
	}
	// clip earlier segments where that is certain (keeps the list short and ordered facts simple)
	for (auto &x : o.segs) {
		if (x.k == S_LIT || x.k == S_VAL || x.k == S_DEC || x.k == S_HEX) continue;
		if (rel(s, x.lo, x.hi, g.lo, g.hi) == 0) continue;
		if (ge(s, g.lo, x.lo) && ge(s, g.hi, x.hi)) x.hi = g.lo; // tail overwritten
		else if (x.k != S_COPY && ge(s, x.lo, g.lo) && ge(s, x.hi, g.hi)) x.lo = g.hi;
	}
	o.segs.erase(std::remove_if(o.segs.begin(), o.segs.end(), [&](Seg &x) { return x.lo == x.hi; }), o.segs.end());
	// coalesce with a neighbour of the same kind
	bool done = false;
	if (g.k == S_ARB || g.k == S_ZERO || g.k == S_UNINIT || g.k == S_TRUNC || g.k == S_AMB || g.k == S_SOFT) {
		for (size_t i = 0; i < o.segs.size() && !done; i++) {
			auto &x = o.segs[i];
			if (x.k != g.k) continue;
			bool after = eq(s, x.hi, g.lo), before = !after && eq(s, g.hi, x.lo);
			if (!after && !before) continue;
			bool newer = false; // nothing written later may lie in between
			for (size_t j = i + 1; j < o.segs.size(); j++) if (rel(s, o.segs[j].lo, o.segs[j].hi, x.lo, x.hi) != 0 || rel(s, o.segs[j].lo, o.segs[j].hi, g.lo, g.hi) != 0) newer = true;
			if (newer) continue;
			if (after) x.hi = g.hi; else x.lo = g.lo;
			done = true;
		}
	}
	if (!done) o.segs.push_back(g);
	// zero / non-zero facts
	switch (g.k) {
	case S_ZERO: runUnknown(s, o, g.lo + Lin(1), g.hi); runZero(s, o, g.lo); break;
	case S_LIT:
		if (g.lit.find('\0') == std::string::npos) runNonzero(s, o, g.lo, g.hi);
		else runUnknown(s, o, g.lo, g.hi);
		break;
	case S_DEC: case S_HEX: runNonzero(s, o, g.lo, g.hi); break;
	case S_VAL:
		if (g.v.k == Val::Int && s.st.entailsEq(g.v.e)) { runUnknown(s, o, g.lo + Lin(1), g.hi); runZero(s, o, g.lo); }
		else if (g.v.k == Val::Int && eq(s, g.hi, g.lo + Lin(1)) && s.st.entailsNe(g.v.e)) runNonzero(s, o, g.lo, g.hi);
		else runUnknown(s, o, g.lo, g.hi);
		break;
	default: runUnknown(s, o, g.lo, g.hi); break;
	}
}

static Val byteOf(const Val &v, unsigned idx, unsigned size) {
	if (size == 1 && idx == 0) return v;
	if (v.k == Val::Int && v.e.isC()) {
		unsigned long long x = (unsigned long long)(v.e.c);
		return Val::mkC((x >> (8 * idx)) & 255);
	}
	if (v.isNull()) return Val::mkC(0);
	if (v.k == Val::Undef) return v;
	return Val::mkTop();
}

void Eng::readByte(State &s, int id, const Lin &off0, int sg, SVals &out) {
	Lin off = s.st.norm(off0);
	I bl = sg > 0 ? -128 : 0, bh = sg > 0 ? 127 : 255;
	auto cstByte = [&](unsigned char c) { return Val::mkC(sg > 0 ? (signed char)c : c); };
	auto freshByte = [&](State &q, bool lossy) { return Val::mkInt(Lin::sym(freshR(q, "byte", lossy, bl, bh))); };
	const Obj &o = s.obj(id);
	if (off.isC()) {
		long k = (long)off.c;
		auto it = o.cells.upper_bound(k);
		if (it != o.cells.begin()) {
			--it;
			if (it->first <= k && k < it->first + (long)it->second.size) {
				Val b = byteOf(it->second.v, k - it->first, it->second.size);
				if (b.k == Val::Top) b = freshByte(s, true);
				if (b.k == Val::Int && b.e.isC()) b = cstByte((unsigned char)(long)b.e.c);
				out.push_back({s, b});
				return;
			}
		}
	}
	for (auto &r : o.rc) if (eq(s, r.off, off)) { out.push_back({s, r.v}); return; }
	// zero / non-zero knowledge
	bool nonzero = false;
	for (auto &r : o.runs) {
		if (r.term && eq(s, r.hi, off)) { out.push_back({s, Val::mkC(0)}); return; }
		if (ge(s, off, r.lo) && ge(s, r.hi, off + Lin(1))) { nonzero = true; break; }
		if (r.term && ge(s, r.hi, off) && (ge(s, off, r.lo) || !ge(s, r.hi, off + Lin(1)))) { // inside the string, before it or at its end
			States a, b;
			branch(s, cGE(r.hi - off - Lin(1)), a, b);
			for (auto &x : a) readByte(x, id, off, sg, out);
			for (auto &x : b) readByte(x, id, off, sg, out);
			return;
		}
	}
	auto finish = [&](State &q, Val v) {
		if (v.k == Val::Int && nonzero && !v.e.isC()) q.st.addNe(v.e);
		if (v.k == Val::Int && !v.e.isC()) {
			Obj &m = q.mut(id);
			m.rc.push_back({off, v});
			if (m.rc.size() > 8) m.rc.erase(m.rc.begin());
		}
		out.push_back({q, v});
	};
	bool amb = false, mayUninit = false;
	for (int i = (int)o.segs.size() - 1; i >= 0; i--) {
		auto &g = o.segs[i];
		int r = rel(s, off, off + Lin(1), g.lo, g.hi);
		if (r == 0) continue;
		if (r == 2) { amb = true; if (g.k == S_UNINIT) mayUninit = true; continue; }
		if (amb) { if (g.k == S_UNINIT) mayUninit = true; break; }
		switch (g.k) {
		case S_ZERO: out.push_back({s, Val::mkC(0)}); return;
		case S_UNINIT: out.push_back({s, Val()}); return;
		case S_ARB: { State q = s; Val v = freshByte(q, false); finish(q, v); return; }
		case S_LIT: {
			Lin d = s.st.norm(off - g.lo);
			if (d.isC()) { out.push_back({s, cstByte((unsigned char)g.lit[(long)d.c])}); return; }
			State q = s; Val v = freshByte(q, true); finish(q, v); return;
		}
		case S_VAL: {
			Lin d = s.st.norm(off - g.lo), w = s.st.norm(g.hi - g.lo);
			if (d.isC() && w.isC()) {
				Val b = byteOf(g.v, (unsigned)d.c, (unsigned)w.c);
				if (b.k != Val::Top) { out.push_back({s, b}); return; }
			}
			State q = s; Val v = freshByte(q, true); finish(q, v); return;
		}
		case S_COPY: { State q = s; Val v = freshByte(q, false); finish(q, v); return; }
		case S_DEC: { State q = s; Val v = Val::mkInt(Lin::sym(freshR(q, "digit", true, '0', '9'))); finish(q, v); return; }
		default: { State q = s; Val v = freshByte(q, true); finish(q, v); return; }
		}
	}
	if (!amb) {
		if (o.hasData && off.isC()) { out.push_back({s, cstByte((unsigned char)o.data[(long)off.c])}); return; }
		if (o.hasData) {
			// a few possible positions: one case each
			bool hl, hh; I lo, hi;
			s.st.bounds(off, hl, lo, hh, hi);
			State q = s; Val v = freshByte(q, true); finish(q, v); return;
		}
		if (o.fill == S_ZERO) {
			// a cell might be there
			bool clash = false;
			for (auto &c : o.cells) if (rel(s, off, off + Lin(1), Lin((long long)c.first), Lin((long long)c.first + c.second.size)) != 0) clash = true;
			if (!clash) { out.push_back({s, Val::mkC(0)}); return; }
			State q = s; Val v = freshByte(q, true); finish(q, v); return;
		}
		if (o.fill == S_UNINIT) {
			bool clash = false;
			for (auto &c : o.cells) if (rel(s, off, off + Lin(1), Lin((long long)c.first), Lin((long long)c.first + c.second.size)) != 0) clash = true;
			if (!clash) { out.push_back({s, Val()}); return; }
		}
		State q = s; Val v = freshByte(q, o.fill != S_ARB); finish(q, v); return;
	}
	(void)mayUninit;
	State q = s; Val v = freshByte(q, true); finish(q, v);
}

int Eng::initStatus(State &s, int id, const Lin &lo, const Lin &hi, std::string *why) {
	const Obj &o = s.obj(id);
	if (o.fill != S_UNINIT) {
		bool any = false;
		for (auto &g : o.segs) if (g.k == S_UNINIT) any = true;
		for (auto &c : o.cells) if (c.second.v.k == Val::Undef) any = true;
		if (!any) return 1;
	}
	std::vector<Seg> t;
	if (!tiles(s, id, lo, hi, t)) { // the whole block may still be known
		t.clear();
		if (!tiles(s, id, Lin(0), o.size, t)) return -1;
		for (auto &g : t) if (g.k == S_UNINIT || (g.k == S_VAL && g.v.k == Val::Undef) || (g.k == S_AMB && o.fill == S_UNINIT)) return -1;
		return 1;
	}
	for (auto &g : t) {
		if (g.k == S_UNINIT || (g.k == S_VAL && g.v.k == Val::Undef)) {
			if (why) *why = "bytes from offset " + s.st.norm(g.lo).str() + " up to " + s.st.norm(g.hi).str();
			return 0;
		}
		if (g.k == S_AMB) return o.fill == S_UNINIT ? -1 : 1;
	}
	return 1;
}

// ordered pieces covering [lo,hi); false when their arrangement is not known
bool Eng::tiles(State &s, int id, const Lin &lo0, const Lin &hi0, std::vector<Seg> &out) {
	const Obj &o = s.obj(id);
	Lin cur = s.st.norm(lo0), hi = s.st.norm(hi0);
	for (int guard = 0; guard < 400; guard++) {
		if (eq(s, cur, hi) || ge(s, cur, hi)) return true;
		if (!ge(s, hi, cur + Lin(1))) return false;
		Seg t;
		Lin end = hi;
		int sel = -1;
		bool cell = false;
		if (cur.isC()) {
			auto it = o.cells.upper_bound((long)cur.c);
			if (it != o.cells.begin()) {
				auto p = std::prev(it);
				if (p->first <= (long)cur.c && (long)cur.c < p->first + (long)p->second.size) {
					t.k = S_VAL;
					t.v = p->second.v;
					t.lo = Lin((long long)p->first);
					t.hi = Lin((long long)(p->first + p->second.size));
					cell = true;
					if (p->first < (long)cur.c) { // starts inside the cell
						Val b = byteOf(p->second.v, (long)cur.c - p->first, p->second.size);
						t.v = b;
						t.lo = cur;
						t.hi = cur + Lin(1);
						if (b.k == Val::Top) { t.k = S_AMB; t.hi = Lin((long long)(p->first + p->second.size)); }
					}
				}
			}
		}
		if (!cell) {
			for (int i = (int)o.segs.size() - 1; i >= 0; i--) {
				auto &g = o.segs[i];
				if (ge(s, cur, g.lo) && ge(s, g.hi, cur + Lin(1))) { sel = i; break; }
				if (ge(s, cur, g.hi) || ge(s, g.lo, cur + Lin(1))) continue;
				return false;
			}
			if (sel >= 0) {
				t = o.segs[sel];
				end = t.hi;
				if (!ge(s, hi, end)) {
					if (ge(s, end, hi)) end = hi; else return false;
				}
				// provenance offset of a piece entered in the middle
				if (t.k == S_COPY) t.e = t.e + (cur - t.lo);
				if (t.k == S_LIT) {
					Lin d = s.st.norm(cur - t.lo);
					if (!d.isC()) { t.k = S_AMB; } else t.lit = t.lit.substr((size_t)d.c);
				}
				if ((t.k == S_VAL || t.k == S_DEC || t.k == S_HEX) && !eq(s, cur, t.lo)) t.k = S_AMB;
				t.lo = cur;
			} else {
				t.k = o.fill;
				if (o.hasData) t.k = S_ARB;
				t.lo = cur;
				end = hi;
			}
			// newer pieces cut it short
			auto cut = [&](const Lin &nlo, const Lin &nhi) {
				if (ge(s, cur, nhi) || ge(s, nlo, end)) return true;
				if (ge(s, nlo, cur + Lin(1)) && ge(s, end, nlo)) { end = nlo; return true; }
				return false;
			};
			for (int i = sel + 1; i < (int)o.segs.size(); i++) if (!cut(o.segs[i].lo, o.segs[i].hi)) return false;
			for (auto &c : o.cells) if (!cut(Lin((long long)c.first), Lin((long long)c.first + c.second.size))) return false;
			if (sel < 0 && o.hasData) {
				Lin w = s.st.norm(end - cur);
				if (cur.isC() && w.isC()) { t.k = S_LIT; t.lit = o.data.substr((size_t)cur.c, (size_t)w.c); }
				else { t.k = S_COPY; t.src = id; t.e = cur; }
			}
			if (t.k == S_LIT) {
				Lin w = s.st.norm(end - cur);
				if (w.isC()) t.lit = t.lit.substr(0, (size_t)w.c);
			}
			if ((t.k == S_VAL || t.k == S_DEC || t.k == S_HEX) && sel >= 0 && !eq(s, end, o.segs[sel].hi)) t.k = S_AMB;
			t.hi = end;
		} else {
			end = t.hi;
			if (!ge(s, hi, end)) { t.hi = hi; t.k = S_AMB; end = hi; }
		}
		out.push_back(t);
		cur = s.st.norm(end);
	}
	return false;
}

int Eng::sameBytes(State &s, const Val &p, const Val &w, const Lin &n0, std::string *why) {
	auto say = [&](const std::string &t) { if (why) *why = t; };
	if (p.k != Val::Ptr || w.k != Val::Ptr || !s.heap.count(p.obj) || !s.heap.count(w.obj)) { say("not a known block"); return -1; }
	Lin n = s.st.norm(n0), po = s.st.norm(p.e), wo = s.st.norm(w.e);
	if (n.isZero()) return 1;
	if (p.obj == w.obj && eq(s, po, wo)) return 1;
	std::vector<Seg> t;
	if (!tiles(s, p.obj, po, po + n, t)) { say("the content is not tracked"); return -1; }
	for (auto &g : t) {
		Lin at = s.st.norm(g.lo - po + wo), len = s.st.norm(g.hi - g.lo);
		std::string where = " (" + std::string(g.k == S_COPY ? "a copy of other bytes" : g.k == S_UNINIT ? "never written" : g.k == S_ARB ? "other bytes" : g.k == S_ZERO ? "zeros" : g.k == S_LIT ? "constant text" : g.k == S_VAL ? "a value" : "unknown") + ")";
		if (g.k == S_COPY && g.src == w.obj) {
			if (eq(s, g.e, at)) continue;
			say("bytes of another place" + where);
			return s.st.entailsNe(g.e - at) ? 0 : -1;
		}
		if (g.k == S_ARB && p.obj == w.obj) { say("another place of the same block"); return -1; }
		std::vector<Seg> u;
		if (!tiles(s, w.obj, at, at + len, u) || u.size() != 1) { say("compared with mixed content" + where); return -1; }
		Seg &v = u[0];
		if (g.k == S_ZERO && v.k == S_ZERO) continue;
		if (g.k == S_LIT && v.k == S_LIT && g.lit == v.lit) continue;
		if (g.k == S_COPY && v.k == S_COPY && g.src == v.src && eq(s, g.e, v.e)) continue;
		if (g.k == S_VAL && len.isC() && len.c <= 8) {
			if (g.v.k == Val::Int) {
				Val x = w;
				x.e = at;
				SVals got;
				State c = s;
				load(c, x, IntegerType::get(M->getContext(), (unsigned)(len.c * 8)), 0, got);
				bool all = !got.empty();
				for (auto &q : got) if (q.second.k != Val::Int || !q.first.st.entailsEq(q.second.e - g.v.e)) all = false;
				if (all) continue;
			} else if (v.k == S_VAL && g.v.k == Val::Ptr && v.v.k == Val::Ptr && g.v.obj == v.v.obj && eq(s, g.v.e, v.v.e)) continue;
			else if (v.k == S_VAL && g.v.isNull() && v.v.isNull()) continue;
		}
		if (g.k == S_UNINIT || g.k == S_ZERO || g.k == S_LIT || g.k == S_COPY) { say("other content" + where); return v.k == S_ARB || g.k == S_UNINIT || g.k == S_COPY ? 0 : -1; }
		say("other content" + where);
		return -1;
	}
	return 1;
}

void Eng::copyRange(State &s, int d, const Lin &dO0, int src, const Lin &sO0, const Lin &n0) {
	Lin dO = s.st.norm(dO0), sO = s.st.norm(sO0), n = s.st.norm(n0);
	if (n.isZero()) return;
	std::vector<Seg> t;
	bool known = tiles(s, src, sO, sO + n, t);
	// string facts travel with the bytes
	std::vector<Run> runs;
	{
		const Obj &so = s.obj(src);
		std::vector<Run> srcRuns = so.runs;
		if (so.hasData && sO.isC()) { // constant text
			size_t a = (size_t)sO.c, z = so.data.find('\0', a);
			if (z != std::string::npos) srcRuns.push_back({sO, Lin((long long)z), true});
		}
		for (auto &r : srcRuns) {
			Lin a = r.lo, b = r.hi;
			bool term = r.term;
			if (!ge(s, a, sO)) { if (ge(s, sO, a) && ge(s, b, sO)) a = sO; else continue; }
			if (!ge(s, sO + n, b + Lin(1))) { // terminator not (surely) copied
				if (ge(s, sO + n, b)) term = ge(s, sO + n, b + Lin(1));
				else if (ge(s, b, sO + n) && ge(s, sO + n, a)) { b = sO + n; term = false; }
				else continue;
				if (!term && a == b) continue;
			}
			runs.push_back({a - sO + dO, b - sO + dO, term});
		}
	}
	if (!known) {
		Seg g;
		g.lo = dO;
		g.hi = dO + n;
		int st = initStatus(s, src, sO, sO + n);
		g.k = st == 1 ? S_COPY : S_AMB;
		g.src = src;
		g.e = sO;
		writeRange(s, d, g);
	} else {
		bool cst = dO.isC();
		for (auto &g : t) {
			Seg h = g;
			h.lo = s.st.norm(g.lo - sO + dO);
			h.hi = s.st.norm(g.hi - sO + dO);
			if (g.k == S_VAL && cst && h.lo.isC() && h.hi.isC()) { putScalar(s, d, h.lo, (unsigned)(h.hi.c - h.lo.c), g.v); continue; }
			if (g.k == S_ARB) { h.k = S_COPY; h.src = src; h.e = g.lo; }
			writeRange(s, d, h);
		}
	}
	Obj &o = s.mut(d);
	for (auto &r : runs) {
		if (!eq(s, r.lo, r.hi)) runNonzero(s, o, r.lo, r.hi);
		if (r.term) runZero(s, o, r.hi);
	}
}

void Eng::putScalar(State &s, int id, const Lin &off0, unsigned size, const Val &v) {
	Lin off = s.st.norm(off0);
	if (off.isC()) {
		Obj &o = s.mut(id);
		long k = (long)off.c;
		// partial overlaps with known integers: split into bytes
		for (auto it = o.cells.begin(); it != o.cells.end();) {
			long a = it->first, b = a + it->second.size;
			if (b <= k || a >= k + (long)size) { ++it; continue; }
			if (a >= k && b <= k + (long)size) { it = o.cells.erase(it); continue; }
			Cell c = it->second;
			it = o.cells.erase(it);
			for (long q = a; q < b; q++) if (q < k || q >= k + (long)size) {
				Val bv = byteOf(c.v, q - a, c.size);
				o.cells[q] = Cell{1, bv.k == Val::Top ? Val::mkInt(Lin::sym(newSymR("part", true, 0, 255))) : bv};
			}
			it = o.cells.begin();
		}
		std::vector<RC> rc;
		for (auto &x : o.rc) if (rel(s, x.off, x.off + Lin(1), off, off + Lin((long long)size)) == 0) rc.push_back(x);
		o.rc.swap(rc);
		o.cells[k] = Cell{size, v};
		bool zero = (v.k == Val::Int && s.st.entailsEq(v.e)) || v.isNull();
		if (o.runs.size() || size == 1) {
			if (zero) { runUnknown(s, o, off + Lin(1), off + Lin((long long)size)); runZero(s, o, off); }
			else if (size == 1 && v.k == Val::Int && s.st.entailsNe(v.e)) runNonzero(s, o, off, off + Lin(1));
			else runUnknown(s, o, off, off + Lin((long long)size));
		}
		return;
	}
	Seg g;
	g.lo = off;
	g.hi = off + Lin((long long)size);
	g.k = S_VAL;
	g.v = v;
	if (v.k == Val::Int && size == 1) {
		if (v.e.isC()) { if (v.e.isZero()) g.k = S_ZERO; else { g.k = S_LIT; g.lit = std::string(1, (char)(long)v.e.c); } }
		else if (!s.st.entailsNe(v.e)) g.k = S_ARB;
	}
	if (v.k == Val::Undef) g.k = S_UNINIT;
	writeRange(s, id, g);
}
void Eng::storeVal(State &s, const Val &p, unsigned size, Type *ty, const Val &v) {
	if (v.k == Val::Agg && ty && ty->isStructTy()) {
		auto *stt = cast<StructType>(ty);
		const StructLayout *sl = DL->getStructLayout(stt);
		for (unsigned i = 0; i < stt->getNumElements(); i++) {
			Val q = p;
			q.e = p.e + Lin((long long)sl->getElementOffset(i));
			storeVal(s, q, DL->getTypeStoreSize(stt->getElementType(i)), stt->getElementType(i), (*v.agg)[i]);
		}
		return;
	}
	putScalar(s, p.obj, p.e, size, v);
}

void Eng::load(State &s, const Val &p, Type *ty, int sg, SVals &out) {
	unsigned size = DL->getTypeStoreSize(ty);
	if (ty->isStructTy()) {
		auto *stt = cast<StructType>(ty);
		const StructLayout *sl = DL->getStructLayout(stt);
		std::vector<std::pair<State, std::vector<Val>>> acc{{s, {}}};
		for (unsigned i = 0; i < stt->getNumElements(); i++) {
			std::vector<std::pair<State, std::vector<Val>>> nx;
			for (auto &a : acc) {
				SVals t;
				Val q = p;
				q.e = p.e + Lin((long long)sl->getElementOffset(i));
				load(a.first, q, stt->getElementType(i), 0, t);
				for (auto &x : t) { auto v = a.second; v.push_back(x.second); nx.push_back({x.first, v}); }
			}
			acc.swap(nx);
		}
		for (auto &a : acc) out.push_back({a.first, Val::mkAgg(a.second)});
		return;
	}
	Lin off = s.st.norm(p.e);
	bool isPtr = ty->isPointerTy(), isFlt = ty->isFloatingPointTy();
	if (size == 1 && !isPtr) { readByte(s, p.obj, off, sg, out); return; }
	const Obj &o = s.obj(p.obj);
	if (off.isC()) {
		auto it = o.cells.find((long)off.c);
		if (it != o.cells.end() && it->second.size == size) {
			Val v = it->second.v;
			if (isPtr && v.k == Val::Int && v.e.isZero()) v = Val::mkNull();
			if (!isPtr && v.isNull()) v = Val::mkC(0);
			out.push_back({s, v});
			return;
		}
	}
	for (int i = (int)o.segs.size() - 1; i >= 0; i--) {
		auto &g = o.segs[i];
		if (g.k == S_VAL && eq(s, g.lo, off) && eq(s, g.hi, off + Lin((long long)size))) {
			// nothing newer on top
			bool clash = false;
			for (size_t j = i + 1; j < o.segs.size(); j++) if (rel(s, o.segs[j].lo, o.segs[j].hi, g.lo, g.hi) != 0) clash = true;
			if (!clash) { out.push_back({s, g.v}); return; }
		}
		if (rel(s, off, off + Lin((long long)size), g.lo, g.hi) != 0) break;
	}
	if (!off.isC() && !o.cells.empty() && o.kind == O_GLOBAL) { // an element of a table: one case per index
		bool hl, hh; I lo, hi;
		s.st.bounds(off, hl, lo, hh, hi);
		I stride = 0;
		for (auto &q : off.t) { I c = q.second < 0 ? -q.second : q.second; while (c) { I r = stride % c; stride = c; c = r; } }
		if (hl && hh && stride > 0 && (hi - lo) / stride <= 64) {
			I r = ((off.c % stride) + stride) % stride;
			for (I v = lo; v <= hi; v++) if (((v % stride) + stride) % stride == r) {
				State q = s;
				q.st.addEq(off - Lin::cst(v));
				if (q.st.bot) continue;
				Val pv = p;
				pv.e = Lin::cst(v);
				load(q, pv, ty, sg, out);
			}
			return;
		}
	}
	std::vector<Seg> t;
	bool known = tiles(s, p.obj, off, off + Lin((long long)size), t);
	if (known) {
		bool allZero = true, anyUninit = false, allArb = true, bytes = true;
		for (auto &g : t) {
			bool z = g.k == S_ZERO || (g.k == S_VAL && g.v.k == Val::Int && g.v.e.isZero()) || (g.k == S_VAL && g.v.isNull());
			if (!z) allZero = false;
			if (g.k == S_UNINIT || (g.k == S_VAL && g.v.k == Val::Undef)) anyUninit = true;
			if (g.k != S_ARB && g.k != S_COPY) allArb = false;
			Lin w = s.st.norm(g.hi - g.lo);
			if (!((g.k == S_VAL && g.v.k == Val::Int && g.v.e.isC() && w.isC()) || z || g.k == S_LIT) || !w.isC()) bytes = false;
		}
		if (allZero) { out.push_back({s, isPtr ? Val::mkNull() : isFlt ? Val::mkDbl(1, Lin(), 0) : Val::mkC(0)}); return; }
		if (anyUninit) { out.push_back({s, Val()}); return; }
		if (bytes && !isPtr && !isFlt && size <= 8) {
			unsigned long long x = 0;
			unsigned sh = 0;
			for (auto &g : t) {
				unsigned w = (unsigned)s.st.norm(g.hi - g.lo).c;
				for (unsigned q = 0; q < w; q++, sh += 8) {
					unsigned char b = g.k == S_LIT ? g.lit[q] : g.k == S_VAL && g.v.k == Val::Int ? (unsigned char)((unsigned long long)g.v.e.c >> (8 * q)) : 0;
					x |= (unsigned long long)b << sh;
				}
			}
			out.push_back({s, Val::mkInt(Lin::cst((I)x))});
			return;
		}
		if (!isPtr && !isFlt) {
			State q = s;
			unsigned w = bitsOf(ty, *DL);
			I one = 1;
			int v = sg >= 0 ? freshR(q, "mem", !allArb, -(one << (w - 1)), (one << (w - 1)) - 1) : freshR(q, "mem", !allArb, 0, (one << w) - 1);
			Val r = Val::mkInt(Lin::sym(v));
			if (off.isC() && allArb) q.mut(p.obj).cells[(long)off.c] = Cell{size, r};
			out.push_back({q, r});
			return;
		}
	}
	State q = s;
	if (isPtr) { out.push_back({q, Val::mkTop()}); return; }
	if (isFlt) { out.push_back({q, Val::mkDbl(0, Lin(), 0)}); return; }
	unsigned w = bitsOf(ty, *DL);
	I one = 1;
	int v = freshR(q, "mem", true, -(one << (w - 1)), (one << (w - 1)) - 1);
	out.push_back({q, Val::mkInt(Lin::sym(v))});
}

// ---------------------------------------------------------------- strings
bool Eng::literal(State &s, const Val &p, std::string &out) {
	if (p.k != Val::Ptr || !s.heap.count(p.obj)) return false;
	Lin off = s.st.norm(p.e);
	if (!off.isC() || off.c < 0) return false;
	const Obj &o = s.obj(p.obj);
	if (!o.alive) return false;
	long k = (long)off.c;
	if (o.constant && o.hasData && o.cells.empty() && o.segs.empty()) {
		size_t z = o.data.find('\0', k);
		if (z == std::string::npos || (size_t)k > o.data.size()) return false;
		out = o.data.substr(k, z - k);
		return true;
	}
	// bytes that are all known
	if (!o.size.isC()) return false;
	std::vector<Seg> t;
	out.clear();
	Lin lim = o.size;
	for (auto &r : o.runs) if (r.term && s.st.norm(r.hi).isC() && ge(s, off, r.lo) && ge(s, r.hi, off)) { lim = s.st.norm(r.hi) + Lin(1); }
	if (!tiles(s, p.obj, off, lim, t)) return false;
	for (auto &g : t) {
		Lin w = s.st.norm(g.hi - g.lo);
		if (!w.isC()) return false;
		for (long i = 0; i < (long)w.c; i++) {
			unsigned char c;
			if (g.k == S_ZERO) c = 0;
			else if (g.k == S_LIT) c = g.lit[i];
			else if (g.k == S_VAL && g.v.k == Val::Int && g.v.e.isC()) c = (unsigned char)((unsigned long long)g.v.e.c >> (8 * i));
			else if (g.k == S_VAL && g.v.isNull()) c = 0;
			else return false;
			if (!c) return true;
			out.push_back(c);
		}
	}
	return false;
}

// length of the string at p, at most *maxLen when given; checks that the read stays inside and initialised
void Eng::strLen(State &s, const Val &p, const Lin *maxLen, const char *who, std::vector<std::pair<State, Lin>> &out) {
	if (maxLen && s.st.entailsEq(*maxLen)) { out.push_back({s, Lin(0)}); return; }
	if (maxLen && !s.st.entailsGe(*maxLen - Lin(1))) { // maybe nothing is read at all
		States a, b;
		branch(s, cGE(*maxLen - Lin(1)), a, b);
		for (auto &x : b) out.push_back({x, Lin(0)});
		for (auto &x : a) strLen(x, p, maxLen, who, out);
		return;
	}
	if (!accessOk(s, p, Lin(1), false, who)) return;
	Lin off = s.st.norm(p.e);
	auto give = [&](State &q, const Lin &n) {
		if (!maxLen) { out.push_back({q, n}); return; }
		States a, b;
		branch(q, cGE(*maxLen - n), a, b);
		for (auto &x : a) out.push_back({x, n});
		for (auto &x : b) out.push_back({x, *maxLen});
	};
	std::string lit;
	if (literal(s, p, lit)) { give(s, Lin((long long)lit.size())); return; }
	{
		const Obj &o = s.obj(p.obj);
		for (auto &r : o.runs) if (r.term && ge(s, off, r.lo) && ge(s, r.hi, off)) {
			record(s, "mem", "string", std::string(who) + ": the string is terminated inside its block", PROVEN);
			give(s, r.hi - off);
			return;
		}
	}
	// walk from off: non-zero stretches, known zero bytes
	const Obj &o = s.obj(p.obj);
	std::vector<Lin> zeros; // positions known to hold a zero byte, at or after off
	for (auto &r : o.runs) if (r.term && ge(s, r.hi, off)) zeros.push_back(r.hi);
	for (auto &g : o.segs) if (g.k == S_ZERO) {
		// its first byte not overwritten later
		bool top = true;
		for (auto &h : o.segs) if (&h > &g && rel(s, g.lo, g.lo + Lin(1), h.lo, h.hi) != 0) top = false;
		for (auto &c : o.cells) if (rel(s, g.lo, g.lo + Lin(1), Lin((long long)c.first), Lin((long long)c.first + c.second.size)) != 0) top = false;
		if (top && ge(s, g.lo, off)) zeros.push_back(g.lo);
		else if (top && ge(s, off, g.lo) && ge(s, g.hi, off + Lin(1))) zeros.push_back(off);
	}
	for (auto &c : o.cells) if (c.second.v.k == Val::Int && c.second.v.e.isZero() && ge(s, Lin((long long)c.first), off)) { zeros.push_back(Lin((long long)c.first)); break; }
	if (o.fill == S_ZERO || (o.hasData && !o.data.empty())) {
		// first byte after everything ever written
		Lin end = off;
		bool ok = true;
		auto push = [&](const Lin &h) { if (ge(s, end, h)) return; if (ge(s, h, end)) end = h; else ok = false; };
		for (auto &g : o.segs) push(g.hi);
		for (auto &c : o.cells) push(Lin((long long)c.first + c.second.size));
		if (ok && !o.hasData) zeros.push_back(end);
	}
	Lin lo = off; // first position that may be the terminator
	{
		std::vector<Seg> t;
		bool known = tiles(s, p.obj, off, o.size, t);
		auto solid = [&](const Seg &g) {
			return g.k == S_DEC || g.k == S_HEX || (g.k == S_LIT && g.lit.find('\0') == std::string::npos) ||
				(g.k == S_VAL && g.v.k == Val::Int && g.v.e.isC() && !g.v.e.isZero() && eq(s, g.hi, g.lo + Lin(1)));
		};
		for (bool grown = true; grown;) {
			grown = false;
			for (auto &r : s.obj(p.obj).runs) if (!r.term && ge(s, lo, r.lo) && ge(s, r.hi, lo + Lin(1))) { lo = r.hi; grown = true; }
			if (known) for (auto &g : t) if (solid(g) && ge(s, lo, g.lo) && ge(s, g.hi, lo + Lin(1))) { lo = g.hi; grown = true; }
		}
		if (known) for (auto &g : t) {
			size_t z;
			if (g.k == S_ZERO && ge(s, g.hi, g.lo + Lin(1))) zeros.push_back(g.lo);
			else if (g.k == S_LIT && (z = g.lit.find('\0')) != std::string::npos) zeros.push_back(g.lo + Lin((long long)z));
		}
	}
	Lin best;
	bool have = false;
	for (auto &z : zeros) {
		if (!s.st.entailsGe(o.size - z - Lin(1))) continue;
		if (!have || ge(s, best, z)) { best = z; have = true; }
	}
	Lin lim = have ? best + Lin(1) : o.size;
	bool bounded = have;
	if (maxLen && !have) {
		if (s.st.entailsGe(o.size - off - *maxLen)) { bounded = true; lim = off + *maxLen; }
	}
	if (!bounded) {
		// a zero position that is only sometimes inside?
		bool exactContent = true;
		std::vector<Seg> t;
		Lin to = o.size;
		if (maxLen && ge(s, o.size, off + *maxLen)) to = off + *maxLen;
		if (!tiles(s, p.obj, off, to, t)) exactContent = false;
		bool defNonzero = false;
		for (auto &g : t) { if (g.k != S_ARB && g.k != S_COPY && g.k != S_UNINIT && !(g.k == S_LIT && g.lit.find('\0') == std::string::npos)) exactContent = false; }
		for (auto &r : o.runs) if (!r.term && ge(s, off, r.lo) && ge(s, r.hi, o.size)) defNonzero = true;
		std::vector<Lin> need;
		if (maxLen) need.push_back(o.size - off - *maxLen);
		if (defNonzero && !maxLen) { definite(s, "mem", "string", std::string(who) + ": the string is terminated inside its block"); return; }
		if (!zeros.empty()) { // terminated iff that position exists
			Lin z = zeros[0];
			if (!must(s, {o.size - z - Lin(1)}, "mem", "string", std::string(who) + ": the string is terminated inside its block")) return;
			strLen(s, p, maxLen, who, out);
			return;
		}
		if (maxLen) {
			if (exactContent) {
				// the bytes may all be non-zero, so the bound decides
				if (!must(s, need, "mem", "string", std::string(who) + ": the scan is bounded by its block")) return;
			} else {
				record(s, "mem", "string", std::string(who) + ": the scan is bounded by its block", UNKNOWN);
			}
			lim = o.size;
		} else {
			record(s, "mem", "string", std::string(who) + ": the string is terminated inside its block", exactContent ? VIOLATED : UNKNOWN, "no terminator is written");
			lim = o.size;
		}
	} else record(s, "mem", "string", std::string(who) + ": the string is terminated inside its block", PROVEN);
	const Obj &o2 = s.obj(p.obj);
	(void)o2;
	std::string why;
	{
		// every byte up to the terminator is looked at
		int st = initStatus(s, p.obj, off, lim, &why);
		if (st == 0) {
			std::vector<Seg> t;
			tiles(s, p.obj, off, lim, t);
			bool first = !t.empty() && t[0].k == S_UNINIT;
			// reached for sure only when what precedes cannot stop the scan
			bool reach = first || ge(s, lo, off + Lin(1)) || true;
			for (auto &g : t) { if (g.k == S_UNINIT) break; if (g.k == S_ZERO) reach = false; }
			record(s, "uninit", "uninit", std::string(who) + " reads bytes that were never written", reach ? VIOLATED : UNKNOWN, why);
		} else record(s, "uninit", "uninit", std::string(who) + " reads bytes that were never written", st == 1 ? PROVEN : UNKNOWN);
	}
	// is the position free?
	bool lossy = false;
	{
		std::vector<Seg> t;
		if (!tiles(s, p.obj, lo, have ? best : lim, t)) lossy = true;
		for (auto &g : t) if (g.k != S_ARB && g.k != S_COPY) lossy = true;
		if (!s.obj(p.obj).rc.empty()) lossy = true;
	}
	int n = fresh(s, "len", lossy);
	Lin pos = off + Lin::sym(n);
	s.st.addGe(pos - lo);
	s.st.addGe(Lin::sym(n));
	if (have) s.st.addGe(best - pos);
	else if (maxLen && s.st.entailsGe(s.obj(p.obj).size - off - *maxLen)) s.st.addGe(*maxLen - Lin::sym(n));
	else s.st.addGe(s.obj(p.obj).size - pos);
	if (s.st.bot) return;
	if (maxLen && !have) {
		// n == maxLen means no terminator was seen
		States a, b;
		branch(s, cGE(*maxLen - Lin::sym(n) - Lin(1)), a, b);
		for (auto &x : a) { Obj &m = x.mut(p.obj); m.runs.push_back({off, pos, true}); out.push_back({x, Lin::sym(n)}); }
		for (auto &x : b) { Obj &m = x.mut(p.obj); m.runs.push_back({off, off + *maxLen, false}); out.push_back({x, *maxLen}); }
		return;
	}
	s.mut(p.obj).runs.push_back({off, pos, true});
	give(s, Lin::sym(n));
}
