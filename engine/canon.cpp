// Canonical form of states: a skeleton (shape of frames and memory, everything that is not a number)
// plus the ordered list of linear expressions found in it. Merging, joining, garbage collection.
#include "eng.h"
#include <algorithm>

namespace {
struct Walk {
	Eng &E;
	State &s;
	std::string sk;
	std::vector<Lin> slots;
	std::vector<int> slotBits;
	std::vector<size_t> at;
	int bits = 0;
	const std::vector<Lin> *set = nullptr; // write mode
	size_t pos = 0;
	std::map<int, int> num;
	std::vector<int> order;
	size_t qi = 0;
	Walk(Eng &e, State &st) : E(e), s(st) {}
	int ref(int obj) {
		if (obj == 0) return 0;
		auto it = num.find(obj);
		if (it != num.end()) return it->second;
		int n = (int)order.size() + 1;
		num[obj] = n;
		order.push_back(obj);
		return n;
	}
	void baseRefs(const Lin &l) { // addresses held as integers keep their object
		for (auto &p : l.t) {
			const std::string &n = SYM[p.first].name;
			if (n[0] == '&') ref(atoi(n.c_str() + 1));
		}
	}
	void lin(Lin &l) {
		if (set) { l = (*set)[pos++]; return; }
		l = s.st.norm(l);
		baseRefs(l);
		sk += '#';
		slots.push_back(l);
		slotBits.push_back(bits);
		at.push_back(sk.size());
	}
	void cnd(Cnd c) { // conditions are kept literally
		switch (c->k) {
		case CNode::T: sk += 'T'; break;
		case CNode::F: sk += 'F'; break;
		case CNode::ND: sk += 'N'; break;
		case CNode::GE: case CNode::EQ: case CNode::NE: sk += c->k == CNode::GE ? '>' : c->k == CNode::EQ ? '=' : '!'; sk += s.st.norm(c->e).str(); break;
		default: sk += c->k == CNode::AND ? '&' : '|'; cnd(c->a); cnd(c->b);
		}
	}
	void val(Val &v) {
		sk += (char)('a' + v.k);
		switch (v.k) {
		case Val::Int: lin(v.e); break;
		case Val::Ptr: bits = 0; sk += std::to_string(ref(v.obj)); lin(v.e); break;
		case Val::Fn: sk += v.fn->getName().str(); break;
		case Val::Cond: if (!set) cnd(v.c); break;
		case Val::Dbl: sk += std::to_string(v.dk) + "/" + std::to_string(v.dv); if (v.dk >= 2) lin(v.e); break;
		case Val::Agg: {
			std::vector<Val> a = *v.agg;
			bits = 0;
			for (auto &x : a) val(x);
			v.agg = std::make_shared<const std::vector<Val>>(a); // like other values, in terms of what is known now
			break;
		}
		default: break;
		}
	}
	void object(int id) {
		if (!s.heap.count(id)) { sk += 'X'; return; }
		Obj &o = s.mut(id);
		sk += "{";
		sk += (char)('0' + o.kind);
		sk += o.alive ? 'L' : 'D';
		if (o.constant) { sk += "c" + std::to_string(id) + "}"; return; }
		if (!o.alive) { sk += "}"; return; }
		sk += (char)('A' + o.fill);
		if (!o.tag.empty()) sk += o.tag;
		if (o.blur) sk += "b";
		if (!o.frozen.empty()) sk += "F" + o.frozen;
		if (o.kind == O_GLOBAL) sk += std::to_string(id);
		lin(o.size);
		for (auto &c : o.cells) { sk += std::to_string(c.first) + ":" + std::to_string(c.second.size); bits = 8 * c.second.size; val(c.second.v); bits = 0; }
		sk += "|";
		for (auto &g : o.segs) {
			sk += (char)('A' + g.k);
			if (g.k == S_LIT) sk += "\"" + g.lit + "\"";
			lin(g.lo);
			lin(g.hi);
			if (g.k == S_DEC || g.k == S_HEX || g.k == S_COPY) lin(g.e);
			if (g.k == S_COPY) { // provenance only: does not keep the source alive
				auto it = num.find(g.src);
				sk += it != num.end() ? std::to_string(it->second) : s.heap.count(g.src) && s.heap[g.src]->kind == O_GLOBAL ? "g" + std::to_string(g.src) : "?";
			}
			if (g.k == S_VAL) val(g.v);
		}
		sk += "|";
		for (auto &r : o.runs) { lin(r.lo); lin(r.hi); sk += r.term ? 't' : 'u'; }
		if (E.keepRead && o.frozen.empty()) for (auto &r : o.rc) { sk += 'r'; lin(r.off); if (r.v.k == Val::Int && s.st.norm(r.v.e).isC()) sk += s.st.norm(r.v.e).str(); else val(r.v); }
		sk += "}";
	}
	void all() {
		for (auto &f : s.fr) {
			sk += "F:" + f.F->getName().str() + "@";
			FnInfo &I = E.fi(f.F);
			std::vector<std::pair<int, const Value *>> v;
			for (auto &kv : f.L) v.push_back({I.num[kv.first], kv.first});
			std::sort(v.begin(), v.end());
			for (auto &p : v) { sk += std::to_string(p.first) + "="; bits = p.second->getType()->isIntegerTy() ? p.second->getType()->getIntegerBitWidth() : 0; val(f.L[p.second]); bits = 0; }
			sk += ";";
			for (int a : f.allocas) if (s.heap.count(a)) sk += "s" + std::to_string(ref(a));
		}
		sk += "G";
		std::vector<int> gs;
		for (auto &g : s.globals) if (!g.first->isConstant()) gs.push_back(g.second);
		std::sort(gs.begin(), gs.end());
		for (int g : gs) ref(g);
		for (qi = 0; qi < order.size(); qi++) object(order[qi]);
	}
};
}

Shape Eng::shape(State &s, std::vector<int> *order) {
	Walk w(*this, s);
	w.all();
	Shape r;
	r.skel.swap(w.sk);
	r.slots.swap(w.slots);
	r.slotBits.swap(w.slotBits);
	r.at.swap(w.at);
	if (order) *order = w.order;
	return r;
}
void Eng::setSlots(State &s, const std::vector<Lin> &slots) {
	Walk w(*this, s);
	w.set = &slots;
	w.all();
}

void Eng::gc(State &s, bool report) {
	Walk w(*this, s);
	for (auto &o : s.heap) { if (o.second->rc.size()) s.mut(o.first).rc.clear(); }
	w.all();
	std::vector<int> dead;
	for (auto &o : s.heap) if (!w.num.count(o.first)) {
		if (o.second->kind == O_GLOBAL) continue;
		if (o.second->alive && !o.second->leakOk && (o.second->kind == O_HEAP || o.second->kind == O_MAP)) {
			std::string what = o.second->kind == O_MAP ? "mapping" : "allocation";
			if (report) {
				record(s, "life", "leak", what + " made at " + o.second->site + " is no longer reachable and was never released", VIOLATED);
			}
		}
		dead.push_back(o.first);
	}
	for (int d : dead) {
		if (s.heap[d]->constant && s.heap[d]->kind == O_GLOBAL) continue;
		s.heap.erase(d);
	}
}

void Eng::liveSyms(State &s, std::set<int> &out) {
	Shape sh = shape(s);
	for (auto &l : sh.slots) l.syms(out);
	out.insert(pinned.begin(), pinned.end());
	for (auto &f : s.fr) for (auto &kv : f.L) if (kv.second.k == Val::Cond) {
		std::vector<Cnd> st{kv.second.c};
		while (!st.empty()) { Cnd c = st.back(); st.pop_back(); s.st.norm(c->e).syms(out); if (c->a) st.push_back(c->a); if (c->b) st.push_back(c->b); }
	}
}

// drop what can no longer be observed
void Eng::prune(State &s) {
	gc(s, true);
	std::set<int> live;
	liveSyms(s, live);
	for (size_t i = 0; i < s.dl.size();) {
		Lin d = s.st.norm(Lin::sym(s.dl[i].second)), e = s.st.norm(s.dl[i].first);
		bool ok = !d.isC();
		for (auto &p : d.t) if (!live.count(p.first)) ok = false;
		for (auto &p : e.t) if (!live.count(p.first)) ok = false;
		if (ok) { s.dl[i].first = e; i++; }
		else s.dl.erase(s.dl.begin() + i);
	}
	s.st.project(live);
	std::set<int> used = live;
	for (auto &g : s.st.ge) g.syms(used);
	for (auto &kv : s.st.sub) kv.second.syms(used);
	for (auto it = s.lossy.begin(); it != s.lossy.end();) if (!used.count(*it)) it = s.lossy.erase(it); else ++it;
}

static void mergeDl(State &into, const State &o) { // facts of both only
	std::vector<std::pair<Lin, int>> k;
	for (auto &p : into.dl) for (auto &r : o.dl) if (into.st.norm(Lin::sym(p.second)) == o.st.norm(Lin::sym(r.second)) && into.st.norm(p.first) == o.st.norm(r.first)) { k.push_back(p); break; }
	into.dl.swap(k);
}
static void mergeDoubt(State &into, const State &o) {
	std::map<int, int> r;
	for (auto &kv : into.doubt) {
		auto it = o.doubt.find(kv.first);
		if (it == o.doubt.end()) continue; // the other side does not depend on that decision
		int m = kv.second | it->second;
		if (m != 3) r[kv.first] = m;
	}
	into.doubt = r;
}

// every behaviour of small is one of big (differing slots must be covered)
bool Eng::subsumes(State &big, const Shape &bs, State &small, const Shape &ss) {
	if (bs.skel != ss.skel || bs.slots.size() != ss.slots.size()) return false;
	std::vector<size_t> diff;
	for (size_t i = 0; i < bs.slots.size(); i++) if (bs.slots[i] != ss.slots[i]) diff.push_back(i);
	// try to find the value of big's private symbols from single-symbol slots
	std::map<int, Lin> inst;
	std::set<int> smallSyms;
	for (auto &l : ss.slots) l.syms(smallSyms);
	for (auto &g : small.st.ge) g.syms(smallSyms);
	for (size_t i : diff) {
		Lin b = bs.slots[i];
		for (auto &kv : inst) b = b.subst(kv.first, kv.second);
		if (b == ss.slots[i]) continue;
		bool ok = false;
		for (auto &p : b.t) {
			if (smallSyms.count(p.first) || inst.count(p.first)) continue;
			Lin rest = ss.slots[i] - (b - Lin::sym(p.first).scale(p.second));
			if (p.second == 1) { inst[p.first] = rest; ok = true; break; }
			if (p.second == -1) { inst[p.first] = -rest; ok = true; break; }
			if (rest.isC() && rest.c % p.second == 0) { inst[p.first] = Lin::cst(rest.c / p.second); ok = true; break; }
			// all coefficients divisible
			bool div = rest.c % p.second == 0;
			for (auto &q : rest.t) if (q.second % p.second != 0) div = false;
			if (div) { Lin r2; r2.c = rest.c / p.second; for (auto q : rest.t) r2.t.push_back({q.first, q.second / p.second}); inst[p.first] = r2; ok = true; break; }
		}
		if (!ok && !small.st.entailsEq(b - ss.slots[i])) return false;
	}
	auto tr = [&](Lin l) { for (auto &kv : inst) l = l.subst(kv.first, kv.second); return l; };
	for (size_t i : diff) {
		Lin d = tr(bs.slots[i]) - ss.slots[i];
		if (!d.isZero() && !small.st.entailsEq(d)) return false;
	}
	for (auto &kv : inst) { // implicit ranges
		const SymInfo &si = SYM[kv.first];
		if (si.hasLo && !small.st.entailsGe(kv.second - Lin::cst(si.lo))) return false;
		if (si.hasHi && !small.st.entailsGe(Lin::cst(si.hi) - kv.second)) return false;
	}
	for (auto &g : big.st.ge) if (!small.st.entailsGe(tr(g))) return false;
	for (auto &kv : big.st.sub) if (!small.st.entailsEq(tr(kv.second) - tr(Lin::sym(kv.first)))) return false;
	for (auto &g : big.st.ne) if (!small.st.entailsNe(tr(g))) return false;
	return true;
}

static std::vector<Lin> startsAt(State &b, int id) { // offsets pointers into an object have
	std::vector<Lin> ptr;
	auto look = [&](const Val &v) { if (v.k == Val::Ptr && v.obj == id) ptr.push_back(b.st.norm(v.e)); };
	for (auto &f : b.fr) for (auto &kv : f.L) look(kv.second);
	for (auto &h : b.heap) { for (auto &c : h.second->cells) look(c.second.v); for (auto &g : h.second->segs) if (g.k == S_VAL) look(g.v); }
	return ptr;
}
// bytes written one at a time by a loop: keep the fact that they are written, give up their values
void Eng::foldLoop(State &base, State &b) {
	std::vector<int> ids;
	for (auto &kv : b.heap) if (base.heap.count(kv.first) && base.heap[kv.first] != kv.second) ids.push_back(kv.first);
	for (int id : ids) {
		Obj bo = *base.heap[id];
		std::vector<Seg> soft;
		{
			Obj &o = b.mut(id);
			for (auto it = o.cells.begin(); it != o.cells.end();) {
				if (it->second.size == 1 && it->second.v.k != Val::Undef && !bo.cells.count(it->first)) {
					Seg g;
					g.lo = Lin((long long)it->first);
					g.hi = Lin((long long)it->first + 1);
					g.k = S_SOFT;
					soft.push_back(g);
					it = o.cells.erase(it);
				} else ++it;
			}
			std::vector<Seg> keep;
			for (auto &g : o.segs) {
				bool old = false;
				for (auto &h : bo.segs) if (h.k == g.k && b.st.norm(h.lo) == b.st.norm(g.lo)) old = true;
				Lin w = b.st.norm(g.hi - g.lo);
				if (!old && (g.k == S_VAL || g.k == S_ARB || g.k == S_COPY || g.k == S_LIT || g.k == S_ZERO) && w == Lin(1) && !(g.k == S_VAL && g.v.k == Val::Undef)) {
					Seg q = g;
					q.k = S_SOFT;
					soft.push_back(q);
				} else keep.push_back(g);
			}
			if (!soft.empty()) {
				o.segs.swap(keep);
				std::vector<Run> runs;
				for (auto &r : o.runs) {
					bool old = false;
					for (auto &h : bo.runs) if (h.term == r.term && b.st.norm(h.lo) == b.st.norm(r.lo) && b.st.norm(h.hi) == b.st.norm(r.hi)) old = true;
					if (!old) for (auto &l : startsAt(b, id)) if (l == b.st.norm(r.lo)) old = true; // a live text
					if (old) runs.push_back(r);
				}
				o.runs.swap(runs);
			}
		}
		std::sort(soft.begin(), soft.end(), [](const Seg &x, const Seg &y) { return x.lo < y.lo; });
		for (auto &g : soft) writeRange(b, id, g);
		if (!soft.empty()) b.mut(id).rc.clear();
	}
}

// what nobody may write is as it was before the loop: what an iteration found out about it is given up again
void Eng::foldFrozen(State &base, State &b) {
	std::vector<int> ids;
	for (auto &kv : b.heap) {
		if (kv.second->frozen.empty() || !kv.second->alive) continue;
		auto it = base.heap.find(kv.first);
		if (it == base.heap.end() || it->second == kv.second || it->second->frozen.empty()) continue;
		ids.push_back(kv.first);
	}
	for (int id : ids) b.heap[id] = base.heap[id];
}

// stronger: an object that keeps collecting pieces becomes one written region; of its texts only those that a
// live pointer starts at are remembered
void Eng::foldStrong(State &base, State &b) {
	std::vector<int> ids;
	for (auto &kv : b.heap) if (kv.second->alive && !kv.second->constant && (kv.second->kind == O_HEAP || kv.second->kind == O_STACK) && (!base.heap.count(kv.first) || base.heap[kv.first] != kv.second) && kv.second->segs.size() + kv.second->runs.size() > 2) ids.push_back(kv.first);
	if (foldAt <= 1) { // all that is kept is that the bytes are set and that the last one is zero
		for (auto &kv : b.heap) {
			ObjP p = kv.second;
			if (!p->alive || p->constant || p->kind != O_HEAP || !p->frozen.empty() || p->hasData || (base.heap.count(kv.first) && base.heap[kv.first] == p)) continue;
			bool ok = true;
			for (auto &c : p->cells) if (c.second.size != 1 || c.second.v.k == Val::Undef) ok = false;
			for (auto &g : p->segs) if (g.k == S_UNINIT || g.k == S_TRUNC || g.k == S_AMB || (g.k == S_VAL && g.v.k != Val::Int && g.v.k != Val::Top)) ok = false;
			if (!ok || initStatus(b, kv.first, Lin(0), p->size) != 1) continue;
			Lin last = b.st.norm(p->size - Lin(1));
			bool end = false;
			for (auto &r : p->runs) if (r.term && b.st.entailsEq(r.hi - last)) end = true;
			if (!end) {
				SVals rd;
				readByte(b, kv.first, last, 0, rd);
				end = rd.size() == 1 && rd[0].second.k == Val::Int && rd[0].second.e.isZero();
			}
			Obj &o = b.mut(kv.first);
			o.cells.clear();
			o.segs.clear();
			o.rc.clear();
			o.runs.clear();
			o.fill = S_ARB;
			if (end) o.runs.push_back({last, last, true});
		}
		return;
	}
	for (int id : ids) {
		Obj &o = b.mut(id);
		bool ok = o.cells.empty() && !o.hasData && o.segs.size() >= 2;
		Seg q;
		std::vector<Seg> left;
		for (size_t i = 0; ok && i < o.segs.size(); i++) {
			Seg &g = o.segs[i];
			if (g.k == S_UNINIT || g.k == S_TRUNC || g.k == S_AMB || (g.k == S_VAL && g.v.k != Val::Int && g.v.k != Val::Top)) ok = false;
			if (i == 0) { q.lo = g.lo; q.hi = g.hi; } else left.push_back(g);
		}
		for (bool more = true; ok && more && !left.empty();) { // which of two pieces lies on top does not matter
			more = false;
			for (size_t i = 0; i < left.size(); i++) {
				Seg &g = left[i];
				if (b.st.entailsGe(g.lo - q.lo) && b.st.entailsGe(q.hi - g.hi)) ;
				else if (b.st.entailsEq(g.lo - q.hi)) q.hi = g.hi;
				else if (b.st.entailsEq(g.hi - q.lo)) q.lo = g.lo;
				else continue;
				left.erase(left.begin() + i);
				more = true;
				break;
			}
		}
		if (!left.empty()) ok = false;
		if (!ok) continue;
		q.k = S_SOFT;
		std::vector<Lin> ptr = startsAt(b, id);
		std::vector<Run> runs;
		for (auto &r : o.runs) {
			bool at = false;
			for (auto &l : ptr) if (l == b.st.norm(r.lo)) at = true;
			if (at) runs.push_back(r);
			else if (r.term && b.st.norm(r.hi + Lin(1)) == b.st.norm(o.size)) { Run e = r; e.lo = e.hi; runs.push_back(e); } // the end of the block
		}
		o.segs.clear();
		o.segs.push_back(q);
		o.runs.swap(runs);
		o.rc.clear();
	}
}

bool Eng::tryJoin(State &a, const Shape &as, State &b, const Shape &bs, bool force, State &out) {
	if (as.skel != bs.skel || as.slots.size() != bs.slots.size()) return false;
	std::vector<size_t> diff;
	for (size_t i = 0; i < as.slots.size(); i++) if (as.slots[i] != bs.slots[i]) diff.push_back(i);
	if (!force && diff.size() > 1) return false;
	std::set<int> shared;
	for (size_t i = 0; i < as.slots.size(); i++) if (as.slots[i] == bs.slots[i]) as.slots[i].syms(shared);
	std::set<int> sa, sb;
	for (auto &g : a.st.ge) g.syms(sa);
	for (auto &l : as.slots) l.syms(sa);
	for (auto &g : b.st.ge) g.syms(sb);
	for (auto &l : bs.slots) l.syms(sb);
	std::set<int> both;
	for (int x : sa) if (sb.count(x)) both.insert(x);
	// one new symbol per group of differing slots with the same pair of values
	std::map<std::pair<Lin, Lin>, int> grp;
	std::vector<Lin> slots = as.slots;
	std::vector<Lin> ea, eb;
	std::vector<int> ns;
	for (size_t i : diff) {
		// same difference as an earlier group: express relative to it
		bool done = false;
		for (auto &g : grp) {
			Lin da = as.slots[i] - g.first.first, db = bs.slots[i] - g.first.second;
			if (da == db) { slots[i] = Lin::sym(g.second) + da; done = true; break; }
		}
		if (done) continue;
		int n = newSym("j", false);
		grp[{as.slots[i], bs.slots[i]}] = n;
		slots[i] = Lin::sym(n);
		ea.push_back(as.slots[i] - Lin::sym(n));
		eb.push_back(bs.slots[i] - Lin::sym(n));
		ns.push_back(n);
	}
	std::set<int> keep = both;
	for (int n : ns) keep.insert(n);
	auto proj = [&](State &s, const std::vector<Lin> &eq) {
		std::vector<Lin> ex;
		for (auto &e : eq) { ex.push_back(e); ex.push_back(-e); }
		return s.st.projected(ex, keep);
	};
	std::vector<Lin> pa = proj(a, ea), pb = proj(b, eb);
	Store SA, SB;
	for (auto &x : pa) SA.addGe(x);
	for (auto &x : pb) SB.addGe(x);
	std::vector<Lin> com;
	std::vector<Lin> onlyA, onlyB;
	for (auto &x : pa) if (SB.entailsGe(x)) com.push_back(x); else onlyA.push_back(x);
	for (auto &x : pb) if (SA.entailsGe(x)) com.push_back(x); else onlyB.push_back(x);
	// weaken one-variable bounds to the hull
	for (auto &x : onlyA) {
		bool hl, hh; I lo, hi;
		Lin y = x;
		y.c = 0;
		SB.bounds(y, hl, lo, hh, hi);
		if (hl) { I alo = -x.c; Lin z = y; z.c = -std::min(alo, lo); com.push_back(z); }
	}
	// the limits of the new quantities
	if (force && ns.size() <= 64) for (auto &g : grp) {
		bool al, ah, bl, bh;
		I x0, x1, y0, y1;
		a.st.bounds(g.first.first, al, x0, ah, x1);
		b.st.bounds(g.first.second, bl, y0, bh, y1);
		if (ah && bh && std::max(x1, y1) < ((I)1 << 62)) com.push_back(Lin::cst(std::max(x1, y1)) - Lin::sym(g.second));
		if (al && bl && std::min(x0, y0) > -((I)1 << 62)) com.push_back(Lin::sym(g.second) - Lin::cst(std::min(x0, y0)));
	}
	// the order of two of the new quantities
	if (force && ns.size() > 1 && ns.size() <= 24) for (auto &g : grp) for (auto &h : grp) {
		if (g.second == h.second) continue;
		if (a.st.entailsGe(g.first.first - h.first.first) && b.st.entailsGe(g.first.second - h.first.second)) com.push_back(Lin::sym(g.second) - Lin::sym(h.second));
	}
	// how far a new quantity is from one both know
	if (force && ns.size() <= 24) for (auto &g : grp) for (int f : both) {
		if (g.first.first.coef(f) != 1 || g.first.second.coef(f) != 1) continue;
		bool al, ah, bl, bh;
		I x0, x1, y0, y1;
		a.st.bounds(g.first.first - Lin::sym(f), al, x0, ah, x1);
		b.st.bounds(g.first.second - Lin::sym(f), bl, y0, bh, y1);
		if (al && bl && std::min(x0, y0) > -((I)1 << 62)) com.push_back(Lin::sym(g.second) - Lin::sym(f) - Lin::cst(std::min(x0, y0)));
		if (ah && bh && std::max(x1, y1) < ((I)1 << 62)) com.push_back(Lin::cst(std::max(x1, y1)) + Lin::sym(f) - Lin::sym(g.second));
	}
	// disequalities, rewritten over the kept symbols
	std::vector<Lin> comNe;
	bool neLost = false;
	{
		auto rewrite = [&](const State &q, bool first, std::vector<Lin> &o) {
			for (Lin e : q.st.ne) {
				e = q.st.norm(e);
				for (auto &g : grp) {
					const Lin &sl = first ? g.first.first : g.first.second;
					for (auto &p : sl.t) if (!keep.count(p.first) && (p.second == 1 || p.second == -1)) {
						Lin rest = sl - Lin::sym(p.first).scale(p.second);
						e = e.subst(p.first, (Lin::sym(g.second) - rest).scale(p.second));
						break;
					}
				}
				bool in = true;
				for (auto &p : e.t) if (!keep.count(p.first)) in = false;
				if (in) o.push_back(e);
				else {
					// about values nobody can see any more: irrelevant unless tied to visible ones
					std::set<int> t;
					e.syms(t);
					bool tied = false;
					for (auto &x : q.st.ge) { bool h = false, k = false; for (auto &p : x.t) { if (t.count(p.first)) h = true; if (keep.count(p.first) || (first ? sa : sb).count(p.first)) k = true; } if (h && k) tied = true; }
					for (auto &l : first ? as.slots : bs.slots) { std::set<int> u; l.syms(u); for (int v : t) if (u.count(v)) tied = true; }
					if (tied) neLost = true;
				}
			}
		};
		std::vector<Lin> na, nb;
		rewrite(a, true, na);
		rewrite(b, false, nb);
		for (auto &x : na) { if (SB.entailsNe(x)) comNe.push_back(x); else { bool f = false; for (auto &y : nb) if (y == x || y == -x) f = true; if (f) comNe.push_back(x); else neLost = true; } }
		for (auto &x : nb) { if (SA.entailsNe(x)) comNe.push_back(x); else { bool f = false; for (auto &y : na) if (y == x || y == -x) f = true; if (!f) neLost = true; } }
	}
	bool exact = false;
	if (neLost) exact = false;
	else if (onlyA.empty() || onlyB.empty()) exact = true; // one contains the other
	else if (onlyA.size() == 1 && onlyB.size() == 1) {
		// complementary half spaces: x >= 0 on one side, x <= t on the other with t >= -1
		Lin sum = onlyA[0] + onlyB[0];
		if (sum.isC() && sum.c >= -1) exact = true;
	}
	if (!exact && !force) return false;
	out = a;
	Store st;
	for (auto &x : com) st.addGe(x);
	for (auto &x : comNe) st.addNe(x);
	for (auto &kv : a.st.sub) { // equalities valid on both sides
		if (b.st.entailsEq(kv.second - Lin::sym(kv.first))) st.addEq(kv.second - Lin::sym(kv.first));
	}
	out.st = st;
	setSlots(out, slots);
	for (int x : b.lossy) out.lossy.insert(x);
	for (int n : ns) {
		bool l = !exact;
		if (l) out.lossy.insert(n);
		for (auto &g : grp) if (g.second == n) { // derived from lossy values: lossy
			std::set<int> t;
			g.first.first.syms(t);
			g.first.second.syms(t);
			for (int q : t) if (a.lossy.count(q) || b.lossy.count(q) || SYM[q].lossy) out.lossy.insert(n);
		}
	}
	if (!exact) {
		std::set<int> t;
		for (auto &x : onlyA) x.syms(t);
		for (auto &x : onlyB) x.syms(t);
		for (int q : t) if (std::find(ns.begin(), ns.end(), q) == ns.end()) {
			// the bound on an otherwise free value was given up: it is only doubtful when related to others
			out.lossy.insert(q);
		}
	}
	mergeDl(out, b);
	mergeDoubt(out, b);
	return true;
}

void Eng::mergeStates(States &ss, size_t cap, const char *where) {
	if ((long)ss.size() > statesMax) statesMax = ss.size();
	for (auto &s : ss) prune(s);
	if (ss.size() < 2) return;
	std::vector<Shape> sh;
	for (auto &s : ss) sh.push_back(shape(s));
	std::map<std::string, std::vector<size_t>> groups;
	for (size_t i = 0; i < ss.size(); i++) groups[sh[i].skel].push_back(i);
	std::vector<char> dead(ss.size(), 0);
	for (auto &g : groups) {
		auto &v = g.second;
		if (v.size() < 2) continue;
		// identical / subsumed / exact joins
		bool again = true;
		while (again) {
			again = false;
			for (size_t x = 0; x < v.size() && !again; x++) for (size_t y = 0; y < v.size() && !again; y++) {
				if (x == y || dead[v[x]] || dead[v[y]]) continue;
				if (subsumes(ss[v[x]], sh[v[x]], ss[v[y]], sh[v[y]])) {
					mergeDoubt(ss[v[x]], ss[v[y]]);
					mergeDl(ss[v[x]], ss[v[y]]);
					for (int q : ss[v[y]].lossy) (void)q;
					dead[v[y]] = 1;
					merges++;
					again = true;
				} else if (x < y && v.size() <= 64) {
					State o;
					if (tryJoin(ss[v[x]], sh[v[x]], ss[v[y]], sh[v[y]], false, o)) {
						ss[v[x]] = std::move(o);
						sh[v[x]] = shape(ss[v[x]]);
						dead[v[y]] = 1;
						joins++;
						again = true;
					}
				}
			}
			v.erase(std::remove_if(v.begin(), v.end(), [&](size_t i) { return dead[i]; }), v.end());
		}
		// forced joins beyond the cap: the pair with the fewest differing slots
		while (v.size() > cap) {
			size_t bx = 0, by = 1, bd = (size_t)-1;
			for (size_t x = 0; x < v.size(); x++) for (size_t y = x + 1; y < v.size(); y++) {
				size_t d = 0;
				for (size_t i = 0; i < sh[v[x]].slots.size(); i++) if (sh[v[x]].slots[i] != sh[v[y]].slots[i]) d++;
				if (d < bd) bd = d, bx = x, by = y;
			}
			State o;
			if (!tryJoin(ss[v[bx]], sh[v[bx]], ss[v[by]], sh[v[by]], true, o)) break;
			joins++;
			ss[v[bx]] = std::move(o);
			sh[v[bx]] = shape(ss[v[bx]]);
			dead[v[by]] = 1;
			v.erase(v.begin() + by);
		}
	}
	States out;
	for (size_t i = 0; i < ss.size(); i++) if (!dead[i]) out.push_back(std::move(ss[i]));
	ss.swap(out);
	(void)where;
}
