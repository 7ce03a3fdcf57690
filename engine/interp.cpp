// The abstract interpreter proper: SSA evaluation, control flow, loops.
#include "eng.h"
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <algorithm>
#include <cmath>
#include <ctime>

FnInfo &Eng::fi(const Function *F) {
	auto &p = info[F];
	if (p) return *p;
	p = std::make_unique<FnInfo>();
	FnInfo &I = *p;
	Function *f = const_cast<Function *>(F);
	I.DT = std::make_unique<DominatorTree>(*f);
	I.LI = std::make_unique<LoopInfo>(*I.DT);
	int n = 0;
	for (auto &a : F->args()) I.num[&a] = n++;
	for (auto &B : *F) for (auto &i : B) I.num[&i] = n++;
	ReversePostOrderTraversal<const Function *> rpo(F);
	int k = 0;
	for (auto *B : rpo) I.rpo[B] = k++;
	bool ch = true;
	while (ch) {
		ch = false;
		for (auto &B : *F) {
			std::set<const Value *> live;
			for (auto *S : successors(&B)) {
				for (auto *v : I.liveIn[S]) live.insert(v);
				for (auto &ph : S->phis()) { live.erase(&ph); }
				for (auto &ph : S->phis()) { Value *v = ph.getIncomingValueForBlock(&B); if (isa<Instruction>(v) || isa<Argument>(v)) live.insert(v); }
			}
			for (auto it = B.rbegin(); it != B.rend(); ++it) {
				const Instruction &i = *it;
				live.erase(&i);
				if (isa<PHINode>(i)) continue;
				for (auto &op : i.operands()) if (isa<Instruction>(op) || isa<Argument>(op)) live.insert(op);
			}
			for (auto &ph : B.phis()) live.insert(&ph); // values assigned on entry
			if (live != I.liveIn[&B]) { I.liveIn[&B] = live; ch = true; }
		}
	}
	return I;
}
std::set<const Value *> Eng::liveAfter(const Instruction *X) {
	FnInfo &I = fi(X->getFunction());
	auto c = I.liveAfterCache.find(X);
	if (c != I.liveAfterCache.end()) return c->second;
	const BasicBlock &B = *X->getParent();
	std::set<const Value *> live;
	for (auto *S : successors(&B)) {
		for (auto *v : I.liveIn[S]) live.insert(v);
		for (auto &ph : S->phis()) live.erase(&ph);
		for (auto &ph : S->phis()) { Value *v = ph.getIncomingValueForBlock(&B); if (isa<Instruction>(v) || isa<Argument>(v)) live.insert(v); }
	}
	for (auto it = B.rbegin(); it != B.rend(); ++it) {
		const Instruction &i = *it;
		if (&i == X) break;
		live.erase(&i);
		for (auto &op : i.operands()) if (isa<Instruction>(op) || isa<Argument>(op)) live.insert(op);
	}
	live.erase(X);
	I.liveAfterCache[X] = live;
	return live;
}

Val Eng::constVal(State &s, const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getType()->isIntegerTy(1)) return Val::mkCond(ci->isOne() ? cT() : cF());
		if (ci->getBitWidth() > 64) { Val v = Val::mkInt(Lin::sym(newSym("wide", true))); return v; }
		return Val::mkInt(Lin::cst((I)ci->getSExtValue()));
	}
	if (isa<ConstantPointerNull>(c)) return Val::mkNull();
	if (auto *f = dyn_cast<Function>(c)) return Val::mkFn(f);
	if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::mkPtr(globalObj(s, g), Lin(0));
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		APFloat a = cf->getValueAPF();
		bool l;
		a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
		return Val::mkDbl(1, Lin(), a.convertToDouble());
	}
	if (isa<UndefValue>(c)) {
		if (c->getType()->isStructTy()) return Val::mkAgg(std::vector<Val>(c->getType()->getStructNumElements()));
		return Val();
	}
	if (isa<ConstantAggregateZero>(c) && c->getType()->isStructTy()) {
		std::vector<Val> v;
		for (unsigned i = 0; i < c->getType()->getStructNumElements(); i++) v.push_back(constVal(s, c->getAggregateElement(i)));
		return Val::mkAgg(v);
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		std::vector<Val> v;
		for (unsigned i = 0; i < cs->getNumOperands(); i++) v.push_back(constVal(s, cs->getOperand(i)));
		return Val::mkAgg(v);
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::GetElementPtr) {
			Val b = constVal(s, ce->getOperand(0));
			APInt off(64, 0);
			if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off) && b.k == Val::Ptr) { b.e = b.e + Lin((long long)off.getSExtValue()); return b; }
		}
		if (ce->getOpcode() == Instruction::IntToPtr) { Val v = constVal(s, ce->getOperand(0)); if (v.k == Val::Int) return Val::mkPtr(0, v.e); }
		if (ce->isCast()) return constVal(s, ce->getOperand(0));
	}
	return Val::mkTop();
}
Val Eng::eval(State &s, const Value *v) {
	if (auto *c = dyn_cast<Constant>(v)) return constVal(s, c);
	auto it = s.top().L.find(v);
	if (it == s.top().L.end()) return Val();
	return it->second;
}

static I sx(I v, unsigned w) { I m = ((I)1) << w; v %= m; if (v < 0) v += m; if (v >= (m >> 1)) v -= m; return v; }
static I zx(I v, unsigned w) { I m = ((I)1) << w; v %= m; if (v < 0) v += m; return v; }

static int signHint(const Value *v) {
	for (auto *u : v->users()) {
		if (isa<SExtInst>(u)) return 1;
		if (isa<ZExtInst>(u)) return 0;
		if (auto *ph = dyn_cast<PHINode>(u)) for (auto *u2 : ph->users()) { if (isa<SExtInst>(u2)) return 1; if (isa<ZExtInst>(u2)) return 0; }
	}
	return v->getType()->isIntegerTy(8) ? 0 : 1;
}

void Eng::step(State &s, const Instruction *X, States &out) {
	auto set = [&](State &q, const Val &v) { q.top().L[X] = v; };
	auto ret1 = [&](const Val &v) { set(s, v); out.push_back(std::move(s)); };
	unsigned w = X->getType()->isIntegerTy() ? X->getType()->getIntegerBitWidth() : 0;
	if (isa<DbgInfoIntrinsic>(X)) { out.push_back(std::move(s)); return; }
	s.top().cur = X;
	auto undefUse = [&](const Val &v, const char *what) {
		if (v.k == Val::Undef) {
			definite(s, "uninit", "uninit", std::string("a value that was never set is used (") + what + ")");
			return true;
		}
		return false;
	};
	switch (X->getOpcode()) {
	case Instruction::Alloca: {
		auto *A = cast<AllocaInst>(X);
		Lin n(1);
		if (A->isArrayAllocation()) {
			Val c = eval(s, A->getArraySize());
			if (c.k == Val::Int) n = c.e; else n = Lin::sym(fresh(s, "vla", true));
		}
		Lin size = n.scale(DL->getTypeAllocSize(A->getAllocatedType()));
		std::string name = A->getName().str();
		if (name.empty()) name = "local";
		if (A->isArrayAllocation()) {
			auto rs = resolve(s, size, 64, false);
			for (auto &r : rs) {
				if (!must(r.first, {Lin::cst((I)8 << 20) - r.second}, "mem", "stack", "a variable-length local stays within the stack")) continue;
				int id = newObj(r.first, O_STACK, r.second, S_UNINIT, name + " at " + locOf(X));
				r.first.top().allocas.push_back(id);
				set(r.first, Val::mkPtr(id, Lin(0)));
				out.push_back(std::move(r.first));
			}
			return;
		}
		int id = newObj(s, O_STACK, size, S_UNINIT, name);
		s.top().allocas.push_back(id);
		ret1(Val::mkPtr(id, Lin(0)));
		return;
	}
	case Instruction::Load: {
		auto *L = cast<LoadInst>(X);
		Val p = eval(s, L->getPointerOperand());
		unsigned size = DL->getTypeStoreSize(L->getType());
		if (!accessOk(s, p, Lin((long long)size), false, "load")) { if (p.k == Val::Top || p.k == Val::Int) { set(s, L->getType()->isPointerTy() ? Val::mkTop() : L->getType()->isFloatingPointTy() ? Val::mkDbl(0, Lin(), 0) : Val::mkInt(Lin::sym(fresh(s, "top", true)))); s.doubt[-1] = 1; out.push_back(std::move(s)); } return; }
		SVals r;
		load(s, p, L->getType(), L->getType()->isIntegerTy() ? signHint(L) : 0, r);
		for (auto &x : r) { set(x.first, x.second); out.push_back(std::move(x.first)); }
		return;
	}
	case Instruction::Store: {
		auto *S = cast<StoreInst>(X);
		Val v = eval(s, S->getValueOperand()), p = eval(s, S->getPointerOperand());
		Type *ty = S->getValueOperand()->getType();
		unsigned size = DL->getTypeStoreSize(ty);
		if (!accessOk(s, p, Lin((long long)size), true, "store")) { if (p.k == Val::Top || p.k == Val::Int) { s.doubt[-1] = 1; out.push_back(std::move(s)); } return; }
		if (v.k == Val::Cond) { // i1 stored
			States t, f;
			branch(s, v.c, t, f);
			for (auto &x : t) { storeVal(x, p, size, ty, Val::mkC(1)); out.push_back(std::move(x)); }
			for (auto &x : f) { storeVal(x, p, size, ty, Val::mkC(0)); out.push_back(std::move(x)); }
			return;
		}
		storeVal(s, p, size, ty, v);
		out.push_back(std::move(s));
		return;
	}
	case Instruction::GetElementPtr: {
		auto *G = cast<GEPOperator>(X);
		Val b = eval(s, G->getPointerOperand());
		if (b.k == Val::Undef || b.k == Val::Top || b.k == Val::Fn) { ret1(b); return; }
		Lin off;
		std::vector<std::pair<State, Lin>> acc{{s, Lin(0)}};
		for (auto ti = gep_type_begin(G), te = gep_type_end(G); ti != te; ++ti) {
			Value *idx = ti.getOperand();
			if (StructType *st = ti.getStructTypeOrNull()) {
				unsigned f = cast<ConstantInt>(idx)->getZExtValue();
				for (auto &a : acc) a.second = a.second + Lin((long long)DL->getStructLayout(st)->getElementOffset(f));
				continue;
			}
			I sc = DL->getTypeAllocSize(ti.getIndexedType());
			std::vector<std::pair<State, Lin>> nx;
			for (auto &a : acc) {
				Val iv = eval(a.first, idx);
				if (iv.k == Val::Undef) { undefUse(iv, "index"); continue; }
				if (iv.k != Val::Int) { nx.push_back({a.first, a.second + Lin::sym(fresh(a.first, "idx", true))}); continue; }
				unsigned iw = idx->getType()->getIntegerBitWidth();
				if (iw >= 64) {
					// an offset at or above 2^63 is negative
					Lin e = a.first.st.norm(iv.e);
					if (e.isC()) e = Lin::cst(sx(e.c, 64));
					else if (!a.first.st.entailsGe(Lin::cst((((I)1) << 63) - 1) - e)) {
						auto rs = resolve(a.first, e, 64, true);
						for (auto &r : rs) nx.push_back({r.first, a.second + r.second.scale(sc)});
						continue;
					}
					nx.push_back({a.first, a.second + e.scale(sc)});
				} else {
					auto rs = resolve(a.first, iv.e, iw, true);
					for (auto &r : rs) nx.push_back({r.first, a.second + r.second.scale(sc)});
				}
			}
			acc.swap(nx);
		}
		for (auto &a : acc) {
			Val r = b;
			r.e = b.e + a.second;
			set(a.first, r);
			out.push_back(std::move(a.first));
		}
		return;
	}
	case Instruction::ICmp: {
		auto *C = cast<ICmpInst>(X);
		Val a = eval(s, C->getOperand(0)), b = eval(s, C->getOperand(1));
		if (undefUse(a, "comparison") || undefUse(b, "comparison")) return;
		auto P = C->getPredicate();
		Type *ty = C->getOperand(0)->getType();
		auto giveC = [&](State &q, Cnd c) { set(q, Val::mkCond(c)); out.push_back(q); };
		auto mkCmp = [&](const Lin &x, const Lin &y) -> Cnd {
			switch (P) {
			case CmpInst::ICMP_EQ: return cEQ(x - y);
			case CmpInst::ICMP_NE: return cNE(x - y);
			case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return cGE(x - y - Lin(1));
			case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return cGE(x - y);
			case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return cGE(y - x - Lin(1));
			default: return cGE(y - x);
			}
		};
		if (ty->isIntegerTy(1)) {
			Cnd x = a.k == Val::Cond ? a.c : cND(true), y = b.k == Val::Cond ? b.c : cND(true);
			Cnd e = cOr(cAnd(x, y), cAnd(cNot(x), cNot(y)));
			giveC(s, P == CmpInst::ICMP_EQ ? e : P == CmpInst::ICMP_NE ? cNot(e) : cND(true));
			return;
		}
		if (ty->isPointerTy()) {
			if (a.k == Val::Int) a = Val::mkPtr(0, a.e);
			if (b.k == Val::Int) b = Val::mkPtr(0, b.e);
			if (a.k == Val::Fn || b.k == Val::Fn) {
				bool known = true, eqv = false;
				if (a.k == Val::Fn && b.k == Val::Fn) eqv = a.fn == b.fn;
				else if ((a.k == Val::Fn ? b : a).k == Val::Ptr) eqv = false;
				else known = false;
				if (known) giveC(s, (P == CmpInst::ICMP_EQ) == eqv ? cT() : cF()); else giveC(s, cND(true));
				return;
			}
			if (a.k != Val::Ptr || b.k != Val::Ptr) { giveC(s, cND(true)); return; }
			if (a.obj == b.obj) { giveC(s, mkCmp(a.e, b.e)); return; }
			if (P == CmpInst::ICMP_EQ) { giveC(s, cF()); return; }
			if (P == CmpInst::ICMP_NE) { giveC(s, cT()); return; }
			if (a.obj == 0 || b.obj == 0) { // null page against an object
				bool aLess = a.obj == 0;
				bool lt = P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_SLT || P == CmpInst::ICMP_SLE;
				Lin e = aLess ? a.e : b.e;
				if (e.isC() && e.c >= 0 && e.c < 4096) { giveC(s, aLess == lt ? cT() : cF()); return; }
			}
			giveC(s, cND(true));
			return;
		}
		if (a.k == Val::Ptr && a.obj == 0) a = Val::mkInt(a.e);
		if (b.k == Val::Ptr && b.obj == 0) b = Val::mkInt(b.e);
		if (a.k != Val::Int || b.k != Val::Int) { giveC(s, cND(true)); return; }
		unsigned bw = ty->getIntegerBitWidth();
		bool sg = C->isSigned();
		Lin x = s.st.norm(a.e), y = s.st.norm(b.e);
		if (C->isEquality()) {
			Lin d = x - y;
			if (d.isC()) { giveC(s, zx(d.c, bw) == 0 ? mkCmp(Lin(0), Lin(0)) : mkCmp(Lin(1), Lin(0))); return; }
			I lim = (((I)1) << bw) - 1;
			if (s.st.entailsGe(d + Lin::cst(lim)) && s.st.entailsGe(Lin::cst(lim) - d)) { giveC(s, mkCmp(x, y)); return; }
			sg = false;
		}
		auto ra = resolve(s, x, bw, sg);
		for (auto &p : ra) {
			auto rb = resolve(p.first, y, bw, sg);
			for (auto &q : rb) giveC(q.first, mkCmp(p.second, q.second));
		}
		return;
	}
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl:
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
		Val a = eval(s, X->getOperand(0)), b = eval(s, X->getOperand(1));
		if (a.k == Val::Undef || b.k == Val::Undef) { ret1(Val()); return; }
		if (w == 1) {
			Cnd x = a.k == Val::Cond ? a.c : cND(true), y = b.k == Val::Cond ? b.c : cND(true);
			if (X->getOpcode() == Instruction::And) ret1(Val::mkCond(cAnd(x, y)));
			else if (X->getOpcode() == Instruction::Or) ret1(Val::mkCond(cOr(x, y)));
			else if (X->getOpcode() == Instruction::Xor) ret1(Val::mkCond(cOr(cAnd(x, cNot(y)), cAnd(cNot(x), y))));
			else ret1(Val::mkCond(cND(true)));
			return;
		}
		if (a.k == Val::Ptr) a = Val::mkInt((a.obj ? Lin::sym(s.obj(a.obj).base) : Lin(0)) + a.e);
		if (b.k == Val::Ptr) b = Val::mkInt((b.obj ? Lin::sym(s.obj(b.obj).base) : Lin(0)) + b.e);
		I one = 1;
		auto freshInt = [&](State &q, const char *n) { return Val::mkInt(Lin::sym(freshR(q, n, true, 0, (one << w) - 1))); };
		if (a.k != Val::Int || b.k != Val::Int || w > 64) { Val v = w > 64 ? Val::mkInt(Lin::sym(fresh(s, "wide", true))) : freshInt(s, "top"); ret1(v); return; }
		Lin x = s.st.norm(a.e), y = s.st.norm(b.e);
		switch (X->getOpcode()) {
		case Instruction::Add: {
			Lin r = x + y;
			if (r.isC()) r = Lin::cst(sx(r.c, w));
			ret1(Val::mkInt(r));
			return;
		}
		case Instruction::Sub: {
			Lin r = x - y;
			if (r.isC()) r = Lin::cst(sx(r.c, w));
			ret1(Val::mkInt(r));
			return;
		}
		case Instruction::Mul:
			if (x.isC() && y.isC()) { __int128 p = (__int128)(unsigned long long)zx(x.c, w) * (unsigned long long)zx(y.c, w); unsigned long long lowp = (unsigned long long)p; ret1(Val::mkInt(Lin::cst(sx((I)lowp, w)))); return; }
			if ((x.isC() && x.c > -65536 && x.c < 65536) || (y.isC() && y.c > -65536 && y.c < 65536)) {
				Lin r = x.isC() ? y.scale(x.c) : x.scale(y.c);
				ret1(Val::mkInt(r));
				return;
			}
			ret1(freshInt(s, "mul"));
			return;
		case Instruction::Shl:
			if (y.isC() && y.c >= 0 && y.c < 32) { Lin r = x.scale(one << (int)y.c); if (r.isC()) r = Lin::cst(sx(r.c, w)); ret1(Val::mkInt(r)); return; }
			if (x.isC() && y.isC() && y.c >= 0 && y.c < w) { ret1(Val::mkInt(Lin::cst(sx(x.c << (int)y.c, w)))); return; }
			ret1(freshInt(s, "shl"));
			return;
		case Instruction::And: case Instruction::Or: case Instruction::Xor: {
			if (x.isC() && y.isC()) {
				I p = zx(x.c, w), q = zx(y.c, w);
				I r = X->getOpcode() == Instruction::And ? (p & q) : X->getOpcode() == Instruction::Or ? (p | q) : (p ^ q);
				ret1(Val::mkInt(Lin::cst(sx(r, w))));
				return;
			}
			if (X->getOpcode() == Instruction::And && (x.isC() || y.isC())) {
				I m = zx(x.isC() ? x.c : y.c, w);
				Lin e = x.isC() ? y : x;
				if (m == (one << w) - 1) { ret1(Val::mkInt(e)); return; }
				if (((m + 1) & m) == 0) { // remainder by a power of two: exact
					auto rs = resolve(s, e, w, false);
					for (auto &r : rs) {
						if (r.first.st.entailsGe(Lin::cst(m) - r.second)) { set(r.first, Val::mkInt(r.second)); out.push_back(r.first); continue; }
						int qv = fresh(r.first, "q", false), rv = freshR(r.first, "r", false, 0, m);
						r.first.st.addEq(Lin::sym(qv).scale(m + 1) + Lin::sym(rv) - r.second);
						r.first.st.addGe(Lin::sym(qv));
						set(r.first, Val::mkInt(Lin::sym(rv)));
						out.push_back(r.first);
					}
					return;
				}
				ret1(Val::mkInt(Lin::sym(freshR(s, "and", true, 0, m))));
				return;
			}
			if (X->getOpcode() == Instruction::Or && y.isZero()) { ret1(a); return; }
			if (X->getOpcode() == Instruction::Xor && y.isC() && sx(y.c, w) == -1) { ret1(Val::mkInt(-x - Lin(1))); return; }
			ret1(freshInt(s, "bits"));
			return;
		}
		default: break;
		}
		// division family
		bool sg = X->getOpcode() == Instruction::SDiv || X->getOpcode() == Instruction::SRem || X->getOpcode() == Instruction::AShr;
		bool rem = X->getOpcode() == Instruction::URem || X->getOpcode() == Instruction::SRem;
		bool shr = X->getOpcode() == Instruction::LShr || X->getOpcode() == Instruction::AShr;
		auto rs = resolve(s, x, w, sg);
		for (auto &r : rs) {
			auto rb = resolve(r.first, y, w, shr ? false : sg);
			for (auto &q : rb) {
				State &st = q.first;
				Lin n = r.second, d = q.second;
				if (d.isC() && shr) { if (d.c < 0 || d.c > 63) continue; d = Lin::cst(one << (int)d.c); }
				if (!shr) {
					if (!st.st.entailsNe(d)) {
						if (d.isC()) { definite(st, "mem", "divide", "division by zero"); continue; }
						st.st.addNe(d);
					}
				}
				if (n.isC() && d.isC()) {
					I z = shr && sg ? (n.c >= 0 ? n.c / d.c : -((-n.c + d.c - 1) / d.c)) : n.c / d.c;
					if (rem) z = n.c % d.c;
					set(st, Val::mkInt(Lin::cst(z)));
					out.push_back(st);
					continue;
				}
				if (d.isC() && d.c > 0 && st.st.entailsGe(n)) {
					bool div = n.c % d.c == 0;
					for (auto &t : n.t) if (t.second % d.c != 0) div = false;
					if (div) {
						Lin z;
						if (!rem) { z.c = n.c / d.c; for (auto &t : n.t) z.t.push_back({t.first, t.second / d.c}); }
						set(st, Val::mkInt(z));
						out.push_back(st);
						continue;
					}
					int qv = fresh(st, "q", false), rv = freshR(st, "r", false, 0, d.c - 1);
					st.st.addEq(Lin::sym(qv).scale(d.c) + Lin::sym(rv) - n);
					st.st.addGe(Lin::sym(qv));
					set(st, Val::mkInt(Lin::sym(rem ? rv : qv)));
					if (!st.st.bot) out.push_back(st);
					continue;
				}
				set(st, freshInt(st, rem ? "rem" : "div"));
				out.push_back(st);
			}
		}
		return;
	}
	case Instruction::ZExt: case Instruction::SExt: {
		Val a = eval(s, X->getOperand(0));
		if (a.k == Val::Undef) { ret1(Val()); return; }
		unsigned ow = X->getOperand(0)->getType()->getIntegerBitWidth();
		bool sg = X->getOpcode() == Instruction::SExt;
		if (ow == 1) {
			Cnd c = a.k == Val::Cond ? a.c : cND(true);
			States t, f;
			branch(s, c, t, f);
			for (auto &q : t) { set(q, Val::mkC(sg ? -1 : 1)); out.push_back(std::move(q)); }
			for (auto &q : f) { set(q, Val::mkC(0)); out.push_back(std::move(q)); }
			return;
		}
		if (a.k != Val::Int) { I one = 1; ret1(Val::mkInt(Lin::sym(freshR(s, "top", true, 0, (one << ow) - 1)))); return; }
		auto rs = resolve(s, a.e, ow, sg);
		for (auto &r : rs) { set(r.first, Val::mkInt(r.second)); out.push_back(std::move(r.first)); }
		return;
	}
	case Instruction::Trunc: {
		Val a = eval(s, X->getOperand(0));
		if (w == 1) {
			if (a.k != Val::Int) { ret1(Val::mkCond(cND(true))); return; }
			Lin e = s.st.norm(a.e);
			if (e.isC()) ret1(Val::mkCond(zx(e.c, 1) ? cT() : cF()));
			else if (s.st.entailsGe(e) && s.st.entailsGe(Lin(1) - e)) ret1(Val::mkCond(cEQ(e - Lin(1))));
			else ret1(Val::mkCond(cND(true)));
			return;
		}
		if (a.k == Val::Int) { Lin e = s.st.norm(a.e); if (e.isC()) e = Lin::cst(sx(e.c, w)); a.e = e; }
		if (a.k == Val::Ptr) a = Val::mkInt(Lin::sym(fresh(s, "addr", true)));
		ret1(a);
		return;
	}
	case Instruction::PtrToInt: {
		Val a = eval(s, X->getOperand(0));
		if (a.k == Val::Ptr) ret1(Val::mkInt((a.obj ? Lin::sym(s.obj(a.obj).base) : Lin(0)) + a.e));
		else if (a.k == Val::Undef) ret1(a);
		else ret1(Val::mkInt(Lin::sym(fresh(s, "addr", true))));
		return;
	}
	case Instruction::IntToPtr: {
		Val a = eval(s, X->getOperand(0));
		if (a.k == Val::Int) {
			Lin e = s.st.norm(a.e);
			for (auto &p : e.t) if (SYM[p.first].name[0] == '&' && p.second == 1) {
				int id = atoi(SYM[p.first].name.c_str() + 1);
				ret1(Val::mkPtr(id, e - Lin::sym(p.first)));
				return;
			}
			ret1(Val::mkPtr(0, e));
			return;
		}
		ret1(a.k == Val::Undef ? a : Val::mkTop());
		return;
	}
	case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: ret1(eval(s, X->getOperand(0))); return;
	case Instruction::Select: {
		Val c = eval(s, X->getOperand(0));
		if (undefUse(c, "selection")) return;
		Cnd cc = c.k == Val::Cond ? c.c : cND(true);
		States t, f;
		branch(s, cc, t, f);
		for (auto &q : t) { Val v = eval(q, X->getOperand(1)); set(q, v); out.push_back(std::move(q)); }
		for (auto &q : f) { Val v = eval(q, X->getOperand(2)); set(q, v); out.push_back(std::move(q)); }
		return;
	}
	case Instruction::ExtractValue: {
		auto *E = cast<ExtractValueInst>(X);
		Val a = eval(s, E->getAggregateOperand());
		for (unsigned i : E->getIndices()) {
			if (a.k != Val::Agg) break;
			Val n = (*a.agg)[i];
			a = n;
		}
		ret1(a);
		return;
	}
	case Instruction::InsertValue: {
		auto *E = cast<InsertValueInst>(X);
		Val a = eval(s, E->getAggregateOperand()), v = eval(s, E->getInsertedValueOperand());
		std::vector<Val> e;
		if (a.k == Val::Agg) e = *a.agg; else e.resize(X->getType()->getStructNumElements());
		if (E->getNumIndices() == 1) e[E->getIndices()[0]] = v;
		ret1(Val::mkAgg(e));
		return;
	}
	case Instruction::UIToFP: case Instruction::SIToFP: {
		Val a = eval(s, X->getOperand(0));
		if (a.k == Val::Undef) { ret1(a); return; }
		if (a.k != Val::Int) { ret1(Val::mkDbl(0, Lin(), 0)); return; }
		unsigned ow = X->getOperand(0)->getType()->getIntegerBitWidth();
		auto rs = resolve(s, a.e, ow, X->getOpcode() == Instruction::SIToFP);
		for (auto &r : rs) {
			if (r.second.isC()) set(r.first, Val::mkDbl(1, Lin(), (double)(long long)r.second.c));
			else set(r.first, Val::mkDbl(2, r.second, 0));
			out.push_back(std::move(r.first));
		}
		return;
	}
	case Instruction::FPToUI: case Instruction::FPToSI: {
		Val a = eval(s, X->getOperand(0));
		if (a.k == Val::Undef) { ret1(a); return; }
		if (a.k == Val::Dbl && a.dk == 1) {
			double d = a.dv;
			if (X->getOpcode() == Instruction::FPToUI ? (d <= -1 || d >= 1.8446744073709552e19) : (d <= -9.3e18 || d >= 9.2233720368547758e18)) { ret1(Val::mkInt(Lin::sym(fresh(s, "fp", true)))); return; }
			ret1(Val::mkInt(Lin::cst((I)std::trunc(d))));
			return;
		}
		if (a.k == Val::Dbl && a.dk == 2) { ret1(Val::mkInt(a.e)); return; }
		if (a.k == Val::Dbl && (a.dk == 4 || a.dk == 3)) {
			std::vector<std::pair<State, Lin>> r;
			declen(s, a.e, r);
			for (auto &x : r) { set(x.first, Val::mkInt(x.second - Lin(1) + Lin((long long)a.dv))); out.push_back(std::move(x.first)); }
			return;
		}
		ret1(Val::mkInt(Lin::sym(freshR(s, "fp", true, 0, ((I)1 << w) - 1))));
		return;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
		Val a = eval(s, X->getOperand(0)), b = eval(s, X->getOperand(1));
		if (a.k == Val::Dbl && b.k == Val::Dbl && a.dk == 1 && b.dk == 1) {
			double r = X->getOpcode() == Instruction::FAdd ? a.dv + b.dv : X->getOpcode() == Instruction::FSub ? a.dv - b.dv : X->getOpcode() == Instruction::FMul ? a.dv * b.dv : a.dv / b.dv;
			if (X->getType()->isFloatTy()) r = (float)r;
			ret1(Val::mkDbl(1, Lin(), r));
			return;
		}
		if (X->getOpcode() == Instruction::FAdd && a.k == Val::Dbl && b.k == Val::Dbl && a.dk == 4 && b.dk == 1) { ret1(Val::mkDbl(4, a.e, a.dv + b.dv)); return; }
		if (X->getOpcode() == Instruction::FAdd && a.k == Val::Dbl && b.k == Val::Dbl && b.dk == 4 && a.dk == 1) { ret1(Val::mkDbl(4, b.e, a.dv + b.dv)); return; }
		if (X->getOpcode() == Instruction::FSub && a.k == Val::Dbl && b.k == Val::Dbl && a.dk == 4 && b.dk == 1) { ret1(Val::mkDbl(4, a.e, a.dv - b.dv)); return; }
		ret1(Val::mkDbl(0, Lin(), 0));
		return;
	}
	case Instruction::FPExt: case Instruction::FPTrunc: {
		Val a = eval(s, X->getOperand(0));
		if (a.k == Val::Dbl && a.dk == 1 && X->getType()->isFloatTy()) a.dv = (float)a.dv;
		ret1(a);
		return;
	}
	case Instruction::FNeg: ret1(Val::mkDbl(0, Lin(), 0)); return;
	case Instruction::FCmp: {
		auto *C = cast<FCmpInst>(X);
		Val a = eval(s, X->getOperand(0)), b = eval(s, X->getOperand(1));
		if (a.k == Val::Dbl && b.k == Val::Dbl && a.dk == 1 && b.dk == 1) {
			bool r = false;
			double x = a.dv, y = b.dv;
			switch (C->getPredicate()) {
			case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break;
			case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break;
			case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
			case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break;
			case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
			case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break;
			default: break;
			}
			ret1(Val::mkCond(r ? cT() : cF()));
			return;
		}
		ret1(Val::mkCond(cND(true)));
		return;
	}
	case Instruction::Call: {
		auto *CB = cast<CallBase>(X);
		std::vector<Val> a;
		for (auto &o : CB->args()) a.push_back(eval(s, o));
		const Function *F = CB->getCalledFunction();
		SVals r;
		if (!F) {
			Val t = eval(s, CB->getCalledOperand());
			if (t.k == Val::Fn) F = t.fn;
			else if (t.k == Val::Undef) { definite(s, "mem", "call", "call through a pointer that was never set"); return; }
			else if (t.k == Val::Ptr && t.obj == 0) { definite(s, "mem", "null", "call through a null pointer"); return; }
			else {
				record(s, "mem", "call", "call target is a function", UNKNOWN);
				incomplete("unresolved call at " + locOf(X));
				return;
			}
		}
		callFunction(std::move(s), F, a, X, r);
		for (auto &x : r) { if (!X->getType()->isVoidTy()) x.first.top().L[X] = x.second; out.push_back(std::move(x.first)); }
		return;
	}
	default:
		incomplete(std::string("instruction ") + X->getOpcodeName() + " at " + locOf(X));
		if (!X->getType()->isVoidTy()) set(s, Val::mkTop());
		s.doubt[-1] = 1;
		out.push_back(std::move(s));
	}
}

void Eng::callFunction(State s, const Function *F, const std::vector<Val> &args, const Instruction *at, SVals &out) {
	std::string name = F->getName().str();
	calls++;
	auto c = contracts.find(name);
	const Function *T = F;
	if (c != contracts.end()) {
		T = M->getFunction(c->second);
		if (!T || T->isDeclaration()) { incomplete("contract " + c->second + " missing"); return; }
		if (!s.fr.empty() && s.top().F == T) T = F; // called by its own contract
	}
	const CallBase *CB = cast<CallBase>(at);
	if (T == F && (F->isDeclaration() || (name == "m38_log_msg" && !realFns.count(name)) || name.rfind("__v_", 0) == 0)) {
		if (builtin(s, name, CB, args, out)) return;
		if (F->isDeclaration()) {
			unmodelled.insert(name);
			incomplete("no model for " + name);
			s.doubt[-1] = 1;
			Type *ty = F->getReturnType();
			Val v;
			if (ty->isVoidTy()) v = Val();
			else if (ty->isPointerTy()) v = Val::mkTop();
			else if (ty->isFloatingPointTy()) v = Val::mkDbl(0, Lin(), 0);
			else if (ty->isIntegerTy()) { I one = 1; unsigned w = ty->getIntegerBitWidth(); v = Val::mkInt(Lin::sym(freshR(s, name, true, -(one << (w - 1)), (one << (w - 1)) - 1))); }
			out.push_back({s, v});
			return;
		}
	}
	int depth = 0;
	for (auto &f : s.fr) if (f.F == T) depth++;
	if (depth >= 6 || s.fr.size() > 60) { incomplete("recursion of " + name); return; }
	funcsAnalysed.insert(T->getName().str());
	// the caller keeps only what it still needs
	std::set<const Value *> la = liveAfter(at);
	Frame &cf = s.top();
	for (auto it = cf.L.begin(); it != cf.L.end();) if (!la.count(it->first)) it = cf.L.erase(it); else ++it;
	Frame nf;
	nf.F = T;
	size_t i = 0;
	for (auto &A : T->args()) { if (i < args.size()) { if (!A.use_empty()) nf.L[&A] = args[i]; } i++; }
	s.fr.push_back(nf);
	execFunction(std::move(s), out);
}

void Eng::execFunction(State s, SVals &rets) {
	const Function *F = s.top().F;
	SVals r;
	Edge ex;
	States backs;
	States init;
	init.push_back(std::move(s));
	runRegion(F, nullptr, &F->getEntryBlock(), std::move(init), ex, backs, r);
	// leave the frame
	States merged;
	static long tag = 0;
	(void)tag;
	for (auto &x : r) {
		State &q = x.first;
		std::string at = "return of " + F->getName().str();
		for (int a : q.top().allocas) if (q.heap.count(a)) killObj(q, a, at);
		q.fr.pop_back();
	}
	if (r.size() <= 1) { for (auto &x : r) rets.push_back(std::move(x)); return; }
	// merge outcomes: the returned value travels as a pseudo local of the caller
	std::vector<std::pair<State, Val>> tmp;
	States ss;
	const Argument *holder = F->arg_empty() ? nullptr : F->getArg(0);
	bool isVoid = F->getReturnType()->isVoidTy();
	if (r.size() > 1) {
		fi(F);
		for (auto &x : r) {
			if (!isVoid && x.first.fr.size()) {
				const Value *key = holder ? (const Value *)holder : (const Value *)F;
				// a key the caller frame cannot already hold
				fi(x.first.top().F).num.insert({key, -1});
				x.first.top().L[key] = x.second;
			}
			ss.push_back(std::move(x.first));
		}
		mergeStates(ss, mergeCap, "return");
		for (auto &q : ss) {
			Val v;
			if (!isVoid && q.fr.size()) {
				const Value *key = holder ? (const Value *)holder : (const Value *)F;
				v = q.top().L[key];
				q.top().L.erase(key);
			}
			rets.push_back({std::move(q), v});
		}
	}
}

void Eng::enterBlock(State &s, const BasicBlock *from, const BasicBlock *to) {
	std::vector<std::pair<const PHINode *, Val>> vs;
	for (auto &ph : to->phis()) vs.push_back({&ph, eval(s, ph.getIncomingValueForBlock(from))});
	for (auto &p : vs) s.top().L[p.first] = p.second;
	FnInfo &I = fi(to->getParent());
	auto &live = I.liveIn[to];
	auto &L = s.top().L;
	for (auto it = L.begin(); it != L.end();) {
		bool keep = live.count(it->first) || (isa<PHINode>(it->first) && cast<PHINode>(it->first)->getParent() == to);
		if (!keep) it = L.erase(it); else ++it;
	}
}

void Eng::execBlock(const BasicBlock *B, State s0, std::vector<std::pair<const BasicBlock *, State>> &succ, SVals &rets) {
	States cur;
	cur.push_back(std::move(s0));
	const Instruction *term = B->getTerminator();
	for (auto &X : *B) {
		if (isa<PHINode>(X) || &X == term) continue;
		States nx;
		for (auto &s : cur) {
			if (++steps > stepLimit || (steps % 256 == 0 && time(nullptr) - t0 > timeLimit)) { incomplete("analysis budget exhausted"); return; }
			step(s, &X, nx);
		}
		cur.swap(nx);
		if (cur.empty()) return;
		if (cur.size() > 64 + mergeCap) mergeStates(cur, 2 * mergeCap, "midblock");
	}
	for (auto &s : cur) {
		s.top().cur = term;
		if (auto *R = dyn_cast<ReturnInst>(term)) {
			Val v;
			if (R->getReturnValue()) v = eval(s, R->getReturnValue());
			rets.push_back({std::move(s), v});
		} else if (auto *Br = dyn_cast<BranchInst>(term)) {
			if (Br->isUnconditional()) { enterBlock(s, B, Br->getSuccessor(0)); succ.push_back({Br->getSuccessor(0), std::move(s)}); continue; }
			Val c = eval(s, Br->getCondition());
			if (c.k == Val::Undef) { definite(s, "uninit", "uninit", "a branch depends on a value that was never set"); continue; }
			Cnd cc = c.k == Val::Cond ? c.c : cND(true);
			// loop guards decided by constants alone are unrolled
			if (curLoop) {
				bool e0 = !curLoop->contains(Br->getSuccessor(0)), e1 = !curLoop->contains(Br->getSuccessor(1));
				bool every = true; // looked at in every iteration
				if (e0 != e1) {
					SmallVector<BasicBlock *, 4> latches;
					curLoop->getLoopLatches(latches);
					for (auto *lb : latches) if (!fi(Br->getFunction()).DT->dominates(B, lb)) every = false;
				}
				if (e0 != e1 && every) {
					if ((cc->k == CNode::T && e1) || (cc->k == CNode::F && e0)) {
						auto *ic = dyn_cast<ICmpInst>(Br->getCondition());
						bool ptr = ic && ic->getOperand(0)->getType()->isPointerTy();
						anyConstGuard = std::max(anyConstGuard, ptr ? 1 : 2);
					}
				}
			}
			States t, f;
			branch(s, cc, t, f);
			bool both = !t.empty() && !f.empty();
			for (auto &q : t) { if (both) q.note(locOf(term) + ":T"); enterBlock(q, B, Br->getSuccessor(0)); succ.push_back({Br->getSuccessor(0), std::move(q)}); }
			for (auto &q : f) { if (both) q.note(locOf(term) + ":F"); enterBlock(q, B, Br->getSuccessor(1)); succ.push_back({Br->getSuccessor(1), std::move(q)}); }
		} else if (auto *Sw = dyn_cast<SwitchInst>(term)) {
			Val c = eval(s, Sw->getCondition());
			if (c.k == Val::Undef) { definite(s, "uninit", "uninit", "a switch depends on a value that was never set"); continue; }
			if (c.k != Val::Int) c = Val::mkInt(Lin::sym(fresh(s, "top", true)));
			unsigned bw = Sw->getCondition()->getType()->getIntegerBitWidth();
			for (auto &r : resolve(s, c.e, bw, true)) {
				States rest;
				rest.push_back(r.first);
				for (auto &cs : Sw->cases()) {
					States nr;
					Lin d = r.second - Lin::cst((I)cs.getCaseValue()->getSExtValue());
					for (auto &q : rest) {
						States t, f;
						branch(q, cEQ(d), t, f);
						for (auto &y : t) { enterBlock(y, B, cs.getCaseSuccessor()); succ.push_back({cs.getCaseSuccessor(), std::move(y)}); }
						for (auto &y : f) nr.push_back(std::move(y));
					}
					rest.swap(nr);
				}
				for (auto &y : rest) { enterBlock(y, B, Sw->getDefaultDest()); succ.push_back({Sw->getDefaultDest(), std::move(y)}); }
			}
		} else if (isa<UnreachableInst>(term)) {
		} else incomplete("terminator at " + locOf(term));
	}
}

// interpret the blocks of a loop body (or of the whole function when L is null), inner loops included
void Eng::runRegion(const Function *F, const Loop *L, const BasicBlock *entry, States init, Edge &exits, States &backs, SVals &rets) {
	FnInfo &I = fi(F);
	std::map<int, const BasicBlock *> byRpo;
	for (auto &kv : I.rpo) byRpo[kv.second] = kv.first;
	std::map<const BasicBlock *, States> pend;
	pend[entry] = std::move(init);
	auto deliver = [&](const BasicBlock *to, State q) {
		if (L && !L->contains(to)) { exits[to].push_back(std::move(q)); return; }
		if (L && to == L->getHeader()) { backs.push_back(std::move(q)); return; }
		pend[to].push_back(std::move(q));
	};
	bool first = true;
	for (auto &rb : byRpo) {
		const BasicBlock *B = rb.second;
		auto it = pend.find(B);
		if (it == pend.end() || it->second.empty()) continue;
		States ss = std::move(it->second);
		pend.erase(it);
		const Loop *in = I.LI->getLoopFor(B);
		if (!(first && B == entry)) { if (ss.size() > 1) mergeStates(ss, mergeCap, "block"); }
		if (in != L && in && in->getHeader() == B) {
			Edge ex;
			runLoop(F, in, std::move(ss), ex, rets);
			for (auto &e : ex) for (auto &q : e.second) deliver(e.first, std::move(q));
			first = false;
			continue;
		}
		first = false;
		const Loop *sv = curLoop;
		for (auto &s : ss) {
			std::vector<std::pair<const BasicBlock *, State>> succ;
			curLoop = L;
			execBlock(B, std::move(s), succ, rets);
			curLoop = sv;
			for (auto &p : succ) deliver(p.first, std::move(p.second));
		}
	}
}

void Eng::runLoop(const Function *F, const Loop *L, States init, Edge &exits, SVals &rets) {
	const BasicBlock *H = L->getHeader();
	std::vector<std::pair<State, int>> work;
	if (foldAt <= 1) {
		bool calls = false;
		for (auto *bb : L->blocks()) for (auto &in : *bb) if (auto *c = dyn_cast<CallBase>(&in)) if (!isa<IntrinsicInst>(c)) calls = true;
		State none;
		if (calls) for (auto &s : init) foldStrong(none, s);
	}
	mergeStates(init, mergeCap, "loop entry");
	State entry0;
	if (init.size()) entry0 = init[0];
	for (auto &s : init) work.push_back({std::move(s), 0});
	int shapes = 0;
	long exiting = 0;
	size_t mergeAt = 40;
	bool foldMode = foldAt <= 1;
	long iterations = 0;
	std::vector<State> generals; // loop invariants found so far
	std::map<std::string, State> explored; // states whose successors are all known, widened per shape
	int savedGuard = anyConstGuard;
	while (!work.empty()) {
		auto item = std::move(work.front());
		work.erase(work.begin());
		State s = std::move(item.first);
		int depth = item.second;
		if (++iterations > 100000) { incomplete("loop at " + locOf(H->getTerminator()) + " not finished"); break; }
		prune(s);
		Shape es = shape(s);
		bool covered = false;
		for (auto &g : generals) { Shape gs = shape(g); if (subsumes(g, gs, s, es)) { covered = true; break; } }
		if (covered) continue;
		if (shapes >= foldAt) {
			auto it = explored.find(es.skel);
			if (it != explored.end()) {
				Shape os = shape(it->second);
				if (subsumes(it->second, os, s, es)) continue;
				States two{it->second, s};
				mergeStates(two, 1, "widen");
				if (two.size() == 1) { s = std::move(two[0]); prune(s); es = shape(s); }
				if (verbose > 2) fprintf(stderr, "loop %s: shape seen again, %zu\n", locOf(H->getTerminator()).c_str(), two.size());
			}
			explored[es.skel] = s;
		}
		Edge ex;
		States backs;
		SVals rr;
		anyConstGuard = 0;
		{
			States one;
			one.push_back(s);
			runRegion(F, L, H, std::move(one), ex, backs, rr);
		}
		bool cg = (anyConstGuard == 2 && (guardDepth > 2 || backs.size() == 1 || depth < guardDepth)) || (anyConstGuard == 1 && (backs.size() == 1 || depth < guardDepth)); // a walk along pointers that forks is not counted
		for (auto &b : backs) (void)b;
		if (backs.size()) mergeStates(backs, mergeCap, "back edge");
		size_t nex = rr.size();
		for (auto &e : ex) nex += e.second.size();
		auto emit = [&]() {
			for (auto &e : ex) for (auto &q : e.second) exits[e.first].push_back(std::move(q));
			for (auto &q : rr) rets.push_back(std::move(q));
		};
		if (backs.empty()) { emit(); continue; }
		if (verbose > 2) fprintf(stderr, "loop %s iter %ld depth %d backs %zu exits %zu const %d\n", locOf(H->getTerminator()).c_str(), iterations, depth, backs.size(), nex, cg);
		if ((cg || nex == 0) && depth < std::max(400L, unrollMax) && (backs.size() <= 200 || mergeCap >= 1000)) { // counted loop: unroll
			bool noProgress = false;
			if (nex == 0 && backs.size() == 1) {
				Shape bs = shape(backs[0]);
				if (bs.skel == es.skel && bs.slots == es.slots && s.st.ge.size() == backs[0].st.ge.size() && !s.doubtful()) noProgress = true;
			}
			if (noProgress) {
				s.top().cur = H->getTerminator();
				record(s, "hang", "hang", "a loop makes no progress and cannot end", VIOLATED);
				continue;
			}
			if (!cg && depth > (backs.size() > 1 ? 2 : unrollMax > 60 ? unrollMax : 24)) goto general;
			if (nex) exiting++;
			if (nex && depth > 3 && exiting > (mergeCap >= 1000 ? (long)mergeCap : unrollMax)) goto general; // ends whenever the data says so
			emit();
			for (auto &b : backs) work.push_back({std::move(b), depth + 1});
			// identical states reached through different iterations
			if (work.size() > mergeAt) {
				std::map<int, States> byDepth;
				for (auto &wk : work) byDepth[wk.second].push_back(std::move(wk.first));
				work.clear();
				for (auto &bd : byDepth) {
					mergeStates(bd.second, std::max((size_t)400, mergeCap), "unrolled");
					for (auto &q : bd.second) work.push_back({std::move(q), bd.first});
				}
				mergeAt = std::max((size_t)40, 2 * work.size());
			}
			continue;
		}
general:
		// generalise: slots that change get a loop-counter expression or a bounded unknown
		{
			std::vector<State> same;
			std::vector<State> other;
			std::vector<Shape> sameSh;
			for (auto &b : backs) foldFrozen(s, b);
			if (foldMode) { for (auto &b : backs) { foldLoop(s, b); if (shapes >= foldAt || foldAt <= 1) foldStrong(s, b); } mergeStates(backs, shapes >= foldAt || foldAt <= 1 ? 1 : mergeCap, "back edge"); }
			for (auto &b : backs) { Shape bs = shape(b); if (bs.skel == es.skel) { same.push_back(b); sameSh.push_back(bs); } else other.push_back(b); }
			if (same.empty() && verbose > 3) { fprintf(stderr, "SHAPES at %s\n  was %s\n", locOf(H->getTerminator()).c_str(), es.skel.c_str()); for (auto &b : other) fprintf(stderr, "  now %s\n", shape(b).skel.c_str()); }
			if (same.empty()) { // shape changed: continue with the new shapes
				emit();
				if (++shapes > 40) { incomplete("loop at " + locOf(H->getTerminator()) + ": shapes keep changing"); break; }
				if (shapes >= std::min(2, foldAt)) foldMode = true;
				for (auto &b : other) work.push_back({std::move(b), depth + 1});
				if (shapes >= foldAt) { // the states still waiting, too
					States q;
					int dm = 0;
					for (auto &wk : work) { dm = std::max(dm, wk.second); foldStrong(entry0, wk.first); q.push_back(std::move(wk.first)); }
					work.clear();
					mergeStates(q, 1, "unrolled");
					for (auto &x : q) work.push_back({std::move(x), dm});
				}
				continue;
			}
			loopsGeneral++;
			if (verbose > 4) { fprintf(stderr, "GENERAL at %s\n  %s\n ", locOf(H->getTerminator()).c_str(), es.skel.substr(0, 700).c_str()); for (auto &l : es.slots) fprintf(stderr, " %s", l.str().c_str()); for (auto &g : s.st.ge) fprintf(stderr, " [%s]", g.str().c_str()); fprintf(stderr, "\n"); for (size_t j = 0; j < same.size(); j++) { fprintf(stderr, "  back"); for (size_t i = 0; i < es.slots.size(); i++) if (sameSh[j].slots[i] != es.slots[i]) fprintf(stderr, " %zu:%s", i, sameSh[j].slots[i].str().c_str()); fprintf(stderr, "\n"); } }
			size_t n = es.slots.size();
			std::vector<int> mode(n, 0); // 0 unchanged 1 linear 2 unknown
			std::vector<I> delta(n, 0);
			for (size_t i = 0; i < n; i++) {
				bool ch = false, lin = true, have = false;
				I d = 0;
				for (size_t j = 0; j < same.size(); j++) {
					Lin df = same[j].st.norm(sameSh[j].slots[i] - es.slots[i]);
					if (!df.isZero()) ch = true;
					if (!df.isC() && same[j].st.entailsEq(df)) df = Lin(0);
					if (!df.isC()) {
						// constant by constraints?
						bool hl, hh; I lo, hi;
						same[j].st.bounds(df, hl, lo, hh, hi);
						if (hl && hh && lo == hi) df = Lin::cst(lo);
					}
					if (!df.isC()) { lin = false; continue; }
					if (!have) { d = df.c; have = true; } else if (d != df.c) lin = false;
				}
				if (!ch) continue;
				mode[i] = lin && have ? 1 : 2;
				delta[i] = d;
				if (mode[i] == 1 && d == 0) mode[i] = 0;
			}
			bool okLoop = false;
			std::vector<Lin> extra; // mined invariants over k and entry symbols (k = newest symbol)
			int k = newSym("k", false);
			struct Pin { std::multiset<int> &p; int k; Pin(std::multiset<int> &p, int k) : p(p), k(k) { p.insert(k); } ~Pin() { p.erase(p.find(k)); } } pin(pinned, k);
			std::vector<int> fs(n, -1);
			std::vector<std::unique_ptr<Pin>> held;
			std::vector<std::vector<Lin>> cand(1);
			std::set<std::string> dropped;
			for (int round = 0; round < 14 && !okLoop; round++) {
				State g = s;
				bool anyLin = false, anySoft = false;
				for (size_t i = 0; i < n; i++) { if (mode[i] == 1) anyLin = true; if (mode[i] == 2) anySoft = true; }
				std::vector<Lin> slots = es.slots;
				g.st.addGe(Lin::sym(k));
				for (size_t i = 0; i < n; i++) {
					if (mode[i] == 1) slots[i] = es.slots[i] + Lin::sym(k).scale(delta[i]);
					else if (mode[i] == 2) {
						if (fs[i] < 0) fs[i] = newSym("f", true);
						g.lossy.insert(fs[i]);
						slots[i] = Lin::sym(fs[i]);
					}
				}
				if (anySoft) g.lossy.insert(k);
				(void)anyLin;
				// candidate relations for the unknown slots
				std::vector<Lin> cs;
				auto add = [&](const Lin &c) { if (!dropped.count(c.str())) cs.push_back(c); };
				for (size_t i = 0; i < n; i++) if (mode[i] == 2) {
					add(Lin::sym(fs[i]) - es.slots[i]);
					add(es.slots[i] - Lin::sym(fs[i]));
					for (size_t j = 0; j < n; j++) if (j != i) {
						if (mode[j] == 2 && j > i) {
							Lin di = Lin::sym(fs[i]) - es.slots[i], dj = Lin::sym(fs[j]) - es.slots[j];
							add(di - dj);
							add(dj - di);
						}
						if (mode[j] == 1 && delta[j] > 0) {
							Lin di = Lin::sym(fs[i]) - es.slots[i];
							add(Lin::sym(k).scale(delta[j]) - di);
							add(di - Lin::sym(k).scale(delta[j]));
						}
						if (mode[j] == 0) {
							// bounded by an unchanged quantity
							if (n >= 60) { // with many slots: each variable quantity once
								bool dup = false;
								for (size_t l = 0; l < j && !dup; l++) dup = mode[l] == 0 && es.slots[l].str() == es.slots[j].str();
								if (dup) continue;
							}
							if (s.st.entailsGe(es.slots[j] - es.slots[i])) add(es.slots[j] - Lin::sym(fs[i]));
						}
					}
				}
				// the order of two quantities stays
				size_t soft = std::count(mode.begin(), mode.end(), 2);
				if (soft <= 12) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
					if (i != j && mode[i] == 2 && mode[j] == 2 && es.slots[i] != es.slots[j] && s.st.entailsGe(es.slots[i] - es.slots[j])) add(Lin::sym(fs[i]) - Lin::sym(fs[j]));
				// and so do the limits known of them
				if (soft <= 12) for (size_t i = 0; i < n; i++) if (mode[i] == 2) {
					bool hl, hh; I lo, hi;
					s.st.bounds(es.slots[i], hl, lo, hh, hi);
					if (hh && hi < ((I)1 << 62)) add(Lin::cst(hi) - Lin::sym(fs[i]));
					if (hl && lo > -((I)1 << 62)) add(Lin::sym(fs[i]) - Lin::cst(lo));
				}
				// a number keeps inside the range of its type (refuted when a step leaves it)
				for (size_t i = 0; i < n; i++) if ((mode[i] == 2 || (mode[i] == 1 && delta[i] != 0)) && es.slotBits[i] > 0 && es.slotBits[i] <= 64) {
					I one = 1;
					int b = es.slotBits[i];
					for (I hi : {(one << (b - 1)) - 1, (one << b) - 1})
						if ((mode[i] == 2 || delta[i] > 0) && s.st.entailsGe(Lin::cst(hi) - es.slots[i])) add(Lin::cst(hi) - slots[i]);
					for (I lo : {(I)0, -(one << (b - 1))})
						if ((mode[i] == 2 || delta[i] < 0) && s.st.entailsGe(es.slots[i] - Lin::cst(lo))) add(slots[i] - Lin::cst(lo));
				}
				for (size_t i = 0; i < n; i++) if (mode[i] == 2 && es.slotBits[i] == 0 && s.st.entailsGe(es.slots[i])) add(slots[i]);
				for (auto &c : extra) add(c);
				for (auto &c : cs) g.st.addGe(c);
				setSlots(g, slots);
				g.note("loop " + locOf(H->getTerminator()));
				if (g.st.bot) break;
				ex.clear();
				rr.clear();
				backs.clear();
				// obligations are only recorded from the final round
				auto savedOb = obligs;
				auto savedReach = reached;
				long stops0 = stops;
				State gRun = g;
				gRun.top().cur = H->getTerminator();
				{
					States one;
					one.push_back(gRun);
					runRegion(F, L, H, std::move(one), ex, backs, rr);
				}
				for (auto &b : backs) foldFrozen(g, b);
				if (foldMode) for (auto &b : backs) { foldLoop(g, b); if (shapes >= foldAt || foldAt <= 1) foldStrong(g, b); }
				States apart; // before they are merged
				if (backs.size() > 1 && backs.size() <= 400) apart = backs;
				if (backs.size()) mergeStates(backs, foldAt <= 1 ? 1 : mergeCap, "back edge");
				other.clear();
				bool changed = false;
				Shape gs = shape(g);
				std::vector<std::pair<State, Shape>> in;
				for (auto &b : backs) {
					Shape bs = shape(b);
					if (bs.skel != gs.skel) { if (verbose > 4) fprintf(stderr, "  round %d other shape\n   %s\n   %s\n", round, gs.skel.c_str(), bs.skel.c_str()); other.push_back(b); continue; }
					if (verbose > 4) { fprintf(stderr, "  round %d back", round); for (auto &q : b.st.ge) fprintf(stderr, " [%s]", q.str().c_str()); fprintf(stderr, "\n"); }
					in.push_back({b, bs});
				}
				std::set<std::string> bad;
				for (auto &pr : in) {
					State &b = pr.first;
					Shape &bs = pr.second;
					for (size_t i = 0; i < n; i++) {
						if (mode[i] == 2) continue;
						Lin want = mode[i] == 1 ? slots[i] + Lin::cst(delta[i]) : slots[i];
						Lin d = b.st.norm(bs.slots[i] - want);
						if (d.isZero() || b.st.entailsEq(d)) continue;
						if (verbose > 4) fprintf(stderr, "  round %d slot %zu mode %d want %s got %s\n", round, i, mode[i], want.str().c_str(), bs.slots[i].str().c_str());
						// first time a slot moves: maybe it is linear after all
						if (mode[i] == 0 && d.isC() && delta[i] == 0) { mode[i] = 1; delta[i] = d.c; }
						else mode[i] = 2;
						changed = true;
					}
				}
				if (!changed) for (auto &pr : in) {
					State &b = pr.first;
					Shape &bs = pr.second;
					for (auto &c : cs) {
						Lin t = c;
						for (size_t i = 0; i < n; i++) if (mode[i] == 2) {
							// simultaneous substitution through a temporary
							t = t.subst(fs[i], Lin::sym(fs[i] + 1000000));
						}
						t = t.subst(k, Lin::sym(k) + Lin(1));
						Lin u = t;
						// resolve temporaries
						Lin acc = Lin::cst(u.c);
						for (auto &p : u.t) {
							if (p.first >= 1000000) {
								for (size_t i = 0; i < n; i++) if (mode[i] == 2 && fs[i] + 1000000 == p.first) { acc = acc + bs.slots[i].scale(p.second); break; }
							} else acc = acc + Lin::sym(p.first).scale(p.second);
						}
						if (!b.st.entailsGe(acc)) bad.insert(c.str());
					}
				}
				if (verbose > 4) for (auto &b : bad) fprintf(stderr, "  round %d drops %s\n", round, b.c_str());
				if (!bad.empty()) { for (auto &b : bad) dropped.insert(b); changed = true; }
				if (!changed && extra.empty() && round < 12) { // mine bounds on the counter from the back edges
					std::vector<Lin> mined;
					bool firstB = true;
					std::set<int> keep{k};
					for (auto &l : es.slots) l.syms(keep);
					for (auto &q : s.st.ge) q.syms(keep);
					for (auto &pr : in) {
						std::vector<Lin> p = pr.first.st.projected({}, keep);
						std::vector<Lin> now;
						for (auto &c : p) {
							if (c.coef(k) == 0) continue;
							Lin t = c.subst(k, Lin::sym(k) - Lin(1));
							// true on entry (k = 0)?
							if (!s.st.entailsGe(t.subst(k, Lin(0)))) continue;
							now.push_back(t);
						}
						if (firstB) mined = now;
						else {
							std::vector<Lin> keepM;
							for (auto &m : mined) if (pr.first.st.entailsGe(m.subst(k, Lin::sym(k) + Lin(1)))) keepM.push_back(m);
							mined = keepM;
						}
						firstB = false;
					}
					std::vector<Lin> useful;
					for (auto &m : mined) if (!g.st.entailsGe(m)) useful.push_back(m);
					if (!useful.empty() && useful.size() < 12) { extra = useful; changed = true; }
				}
				if (changed) { obligs = savedOb; reached = savedReach; continue; }
				okLoop = true;
				if (stops == stops0) { // does it end?
					bool bounded = true;
					std::set<int> entry;
					for (auto &l : es.slots) s.st.norm(l).syms(entry);
					for (auto &q : s.st.ge) q.syms(entry);
					// a quantity that moves by at least one in every iteration and cannot move past a bound
					bounded = in.empty();
					auto moves = [&](const std::vector<std::pair<State, Shape>> &ways) {
						size_t most = n;
						for (auto &q : ways) most = std::min(most, q.second.slots.size());
						for (size_t i = 0; i < most && !bounded; i++) {
							if (mode[i] == 0) continue;
							for (int dir : {1, -1}) {
								bool ok = true;
								for (auto &pr : ways) {
									Lin stepv = (pr.second.slots[i] - slots[i]).scale(dir);
									if (!pr.first.st.entailsGe(stepv - Lin(1))) { ok = false; break; }
									int r = newSym("r", true);
									Lin e = slots[i] - Lin::sym(r);
									std::set<int> keep = entry;
									keep.insert(r);
									bool bd = false;
									for (auto &c : pr.first.st.projected({e, -e}, keep)) {
										if (c.coef(r) * dir >= 0) continue;
										if (c.t.size() > 1 || (c.c < ((I)1 << 40) && c.c > -((I)1 << 40))) bd = true;
									}
									if (!bd) { ok = false; break; }
								}
								if (ok) { bounded = true; break; }
							}
						}
					};
					moves(in);
					std::vector<std::pair<State, Shape>> each;
					if (!bounded) for (auto &q : apart) if (!q.st.bot) each.push_back({q, shape(q)});
					// of states that differ elsewhere, what is held at the same places
					for (auto &q : each) for (size_t i = 0; i < n; i++)
						if (i >= q.second.slots.size() || q.second.at[i] != gs.at[i] || q.second.skel.compare(0, gs.at[i], gs.skel, 0, gs.at[i]) != 0) {
							q.second.slots.resize(std::min(i, q.second.slots.size()));
							break;
						}
					size_t common = n;
					for (auto &q : each) common = std::min(common, q.second.slots.size());
					if (each.empty()) each = in, common = n;
					else if (!bounded) moves(each);
					// or the distance between two quantities, which shrinks and is never negative
					for (size_t i = 0; i < common && !bounded; i++) for (size_t j = 0; j < common && !bounded; j++) {
						if (i == j || mode[i] == 0 || mode[j] == 0) continue;
						bool ok = true;
						for (auto &pr : each) {
							Lin before = slots[i] - slots[j], after = pr.second.slots[i] - pr.second.slots[j];
							if (!pr.first.st.entailsGe(before - after - Lin(1)) || !pr.first.st.entailsGe(before)) { ok = false; break; }
						}
						if (ok) bounded = true;
					}
					if (!bounded && held.empty() && round < 13) { // once more, remembering what the step started with
						for (size_t i = 0; i < n; i++) if (mode[i] == 2 && fs[i] >= 0 && es.slotBits[i] > 0) held.emplace_back(new Pin(pinned, fs[i]));
						if (!held.empty() && held.size() <= 24) {
							obligs = savedOb;
							reached = savedReach;
							okLoop = false;
							continue;
						}
					}
					State w = s;
					w.top().cur = H->getTerminator();
					Verdict v = PROVEN;
					if (!bounded) {
						v = UNKNOWN;
						// entry values for which no way out exists
						std::vector<std::vector<Lin>> outs;
						for (auto &e : ex) for (auto &q : e.second) outs.push_back(q.st.projected({}, entry));
						for (auto &q : rr) outs.push_back(q.first.st.projected({}, entry));
						bool hopeless = outs.size() > 12 || !other.empty();
						std::function<bool(size_t, std::vector<Lin>)> search = [&](size_t i, std::vector<Lin> acc) -> bool {
							if (i == outs.size()) return true;
							for (auto &c : outs[i]) {
								if (s.st.entailsGe(c)) continue;
								auto a2 = acc;
								a2.push_back(-c - Lin(1));
								if (s.st.modelWith(a2) && search(i + 1, a2)) return true;
							}
							return false;
						};
						std::set<int> sl = entry;
						if (!hopeless && exactSlice(s, sl) && search(0, s.st.ge)) v = VIOLATED;
					}
					record(w, "hang", "hang", "the loop ends", v);
				}
				prune(g);
				generals.push_back(g);
			}
			if (!okLoop) { incomplete("no invariant for the loop at " + locOf(H->getTerminator())); continue; }
			emit();
			if (!other.empty()) {
				if (++shapes > 40) { incomplete("loop at " + locOf(H->getTerminator()) + ": shapes keep changing"); continue; }
				for (auto &b : other) work.push_back({std::move(b), depth + 1});
			}
		}
	}
	anyConstGuard = savedGuard;
	for (auto &e : exits) if (e.second.size() > 1) mergeStates(e.second, foldAt <= 1 ? 4 : mergeCap, "loop exit");
}
