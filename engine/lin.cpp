#include "lin.h"
#include <algorithm>
#include <cstdio>

std::vector<SymInfo> SYM;
Stats STATS;
static const I BIG = ((I)1) << 90;

std::string itos(I v) {
	if (v == 0) return "0";
	bool neg = v < 0;
	std::string s;
	while (v != 0) { int d = (int)(v % 10); if (d < 0) d = -d; s.push_back('0' + d); v /= 10; }
	if (neg) s.push_back('-');
	std::reverse(s.begin(), s.end());
	return s;
}

int newSym(const std::string &name, bool lossy) {
	SYM.push_back({name, lossy, false, false, 0, 0});
	return (int)SYM.size() - 1;
}
int newSymR(const std::string &name, bool lossy, I lo, I hi) {
	SYM.push_back({name, lossy, true, true, lo, hi});
	return (int)SYM.size() - 1;
}

I Lin::coef(int s) const {
	for (auto &p : t) if (p.first == s) return p.second;
	return 0;
}
static Lin combine(const Lin &a, I ka, const Lin &b, I kb) {
	Lin r;
	r.c = a.c * ka + b.c * kb;
	size_t i = 0, j = 0;
	r.t.reserve(a.t.size() + b.t.size());
	while (i < a.t.size() || j < b.t.size()) {
		if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
			r.t.push_back({a.t[i].first, a.t[i].second * ka});
			i++;
		} else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
			r.t.push_back({b.t[j].first, b.t[j].second * kb});
			j++;
		} else {
			I v = a.t[i].second * ka + b.t[j].second * kb;
			if (v != 0) r.t.push_back({a.t[i].first, v});
			i++, j++;
		}
	}
	return r;
}
Lin Lin::operator+(const Lin &o) const { return combine(*this, 1, o, 1); }
Lin Lin::operator-(const Lin &o) const { return combine(*this, 1, o, -1); }
Lin Lin::scale(I k) const {
	if (k == 0) return Lin();
	Lin r = *this;
	r.c *= k;
	for (auto &p : r.t) p.second *= k;
	return r;
}
Lin Lin::subst(int s, const Lin &by) const {
	I k = coef(s);
	if (k == 0) return *this;
	Lin r;
	r.c = c;
	for (auto &p : t) if (p.first != s) r.t.push_back(p);
	return combine(r, 1, by, k);
}
bool Lin::big() const {
	if (c > BIG || c < -BIG) return true;
	for (auto &p : t) if (p.second > BIG || p.second < -BIG) return true;
	return false;
}
std::string Lin::str() const {
	std::string s;
	for (auto &p : t) {
		if (p.second == 1) s += s.empty() ? "" : "+";
		else if (p.second == -1) s += "-";
		else { if (p.second > 0 && !s.empty()) s += "+"; s += itos(p.second) + "*"; }
		s += SYM[p.first].name + "#" + std::to_string(p.first);
	}
	if (c != 0 || s.empty()) { if (c >= 0 && !s.empty()) s += "+"; s += itos(c); }
	return s;
}

static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I r = a % b; a = b; b = r; } return a; }
static I floordiv(I a, I b) { I q = a / b, r = a % b; if (r != 0 && ((r < 0) != (b < 0))) q--; return q; }

// e >= 0 with integer tightening
static void tighten(Lin &e) {
	if (e.t.empty()) return;
	I g = 0;
	for (auto &p : e.t) g = gcdI(g, p.second);
	if (g > 1) {
		for (auto &p : e.t) p.second /= g;
		e.c = floordiv(e.c, g);
	}
}

Lin Store::norm(const Lin &e) const {
	bool need = false;
	for (auto &p : e.t) if (sub.count(p.first)) { need = true; break; }
	if (!need) return e;
	Lin r;
	r.c = e.c;
	for (auto &p : e.t) {
		auto it = sub.find(p.first);
		if (it == sub.end()) { Lin x; x.t.push_back(p); r = r + x; }
		else r = r + it->second.scale(p.second);
	}
	return r;
}

void Store::solve(int s, const Lin &by) {
	for (auto &kv : sub) kv.second = kv.second.subst(s, by);
	sub[s] = by;
	std::vector<Lin> old;
	old.swap(ge);
	std::vector<Lin> oldne;
	oldne.swap(ne);
	// the implicit range of the eliminated symbol becomes explicit
	const SymInfo &si = SYM[s];
	if (si.hasLo) addGeNorm(by - Lin::cst(si.lo));
	if (si.hasHi) addGeNorm(Lin::cst(si.hi) - by);
	for (auto &e : old) addGeNorm(norm(e));
	for (auto &e : oldne) addNe(e);
}

void Store::addGeNorm(Lin e) {
	if (bot) return;
	tighten(e);
	if (e.t.empty()) { if (e.c < 0) bot = true; return; }
	if (e.big()) return; // dropped: sound (weaker)
	if (e.t.size() == 1) { // implied by the type range?
		const SymInfo &si = SYM[e.t[0].first];
		I k = e.t[0].second;
		if (k == 1 && si.hasLo && si.lo + e.c >= 0) return;
		if (k == -1 && si.hasHi && -si.hi + e.c >= 0) return;
		if (k == 1 && si.hasHi && si.hi + e.c < 0) { bot = true; return; }
		if (k == -1 && si.hasLo && -si.lo + e.c < 0) { bot = true; return; }
	}
	Lin neg = -e;
	for (size_t i = 0; i < ge.size(); i++) {
		if (ge[i].t == e.t) {
			if (ge[i].c <= e.c) return; // already stronger
			ge.erase(ge.begin() + i);
			i--;
			continue;
		}
	}
	for (size_t i = 0; i < ge.size(); i++) {
		if (ge[i].t == neg.t) {
			// L + a >= 0 (e) and -L + b >= 0  =>  -a <= L <= b
			if (ge[i].c + e.c < 0) { bot = true; return; }
			if (ge[i].c + e.c == 0) {
				// equality e == 0: solve for the newest unit symbol
				ge.erase(ge.begin() + i);
				addEq(e);
				return;
			}
		}
	}
	if (e.t.size() == 1) { // interval collapsed by the implicit range?
		const SymInfo &si = SYM[e.t[0].first];
		I k = e.t[0].second;
		if (k == 1 && si.hasHi && si.hi == -e.c) { ge.push_back(e); Lin q = e; addEq(q); return; }
		if (k == -1 && si.hasLo && si.lo == e.c) { ge.push_back(e); addEq(e); return; }
	}
	ge.push_back(e);
	for (size_t i = 0; i < ne.size(); i++) {
		if ((ne[i].t == e.t && ne[i].c == e.c) || (ne[i].t == neg.t && ne[i].c == neg.c)) {
			ne.erase(ne.begin() + i);
			Lin s = e;
			s.c -= 1;
			ge.pop_back();
			addGeNorm(s);
			return;
		}
	}
}

void Store::addGe(const Lin &e) { if (!bot) addGeNorm(norm(e)); }

void Store::addEq(const Lin &e0) {
	if (bot) return;
	Lin e = norm(e0);
	if (e.t.empty()) { if (e.c != 0) bot = true; return; }
	I g = 0;
	for (auto &p : e.t) g = gcdI(g, p.second);
	if (e.c % g != 0) { bot = true; return; }
	if (g > 1) { for (auto &p : e.t) p.second /= g; e.c /= g; }
	int best = -1;
	I bk = 0;
	for (auto &p : e.t) if (p.second == 1 || p.second == -1) { if (p.first > best) best = p.first, bk = p.second; }
	if (best < 0) { // keep as two inequalities
		for (auto &x : ge) if (x == e) goto second;
		ge.push_back(e);
second:
		Lin n = -e;
		for (auto &x : ge) if (x == n) return;
		ge.push_back(n);
		return;
	}
	Lin rest;
	rest.c = e.c;
	for (auto &p : e.t) if (p.first != best) rest.t.push_back(p);
	Lin by = bk == 1 ? -rest : rest;
	solve(best, by);
}

void Store::addNe(const Lin &e0) {
	if (bot) return;
	Lin e = norm(e0);
	if (e.t.empty()) { if (e.c == 0) bot = true; return; }
	I g = 0;
	for (auto &p : e.t) g = gcdI(g, p.second);
	if (e.c % g != 0) return;
	if (entailsGe(e)) { addGeNorm(e - Lin(1)); return; }
	if (entailsGe(-e)) { addGeNorm(-e - Lin(1)); return; }
	Lin n = -e;
	for (auto &x : ne) if (x == e || x == n) return;
	ne.push_back(e);
}

void Store::bounds(const Lin &e0, bool &hasLo, I &lo, bool &hasHi, I &hi) const {
	Lin e = norm(e0);
	hasLo = hasHi = true;
	lo = hi = e.c;
	for (auto &p : e.t) {
		bool sl = SYM[p.first].hasLo, sh = SYM[p.first].hasHi;
		I l = SYM[p.first].lo, h = SYM[p.first].hi;
		for (auto &g : ge) if (g.t.size() == 1 && g.t[0].first == p.first) {
			if (g.t[0].second == 1) { if (!sl || -g.c > l) l = -g.c, sl = true; }
			else if (g.t[0].second == -1) { if (!sh || g.c < h) h = g.c, sh = true; }
		}
		if (p.second > 0) {
			if (sl) lo += p.second * l; else hasLo = false;
			if (sh) hi += p.second * h; else hasHi = false;
		} else {
			if (sh) lo += p.second * h; else hasLo = false;
			if (sl) hi += p.second * l; else hasHi = false;
		}
	}
}

// collect the constraints connected with the given symbols
static void sliceOf(const Store &s, std::set<int> &syms, std::vector<Lin> &out) {
	std::vector<char> used(s.ge.size(), 0);
	bool grown = true;
	while (grown) {
		grown = false;
		for (size_t i = 0; i < s.ge.size(); i++) {
			if (used[i]) continue;
			bool hit = false;
			for (auto &p : s.ge[i].t) if (syms.count(p.first)) { hit = true; break; }
			if (hit) {
				used[i] = 1;
				out.push_back(s.ge[i]);
				for (auto &p : s.ge[i].t) if (syms.insert(p.first).second) grown = true;
				grown = true;
			}
		}
	}
}
static void addRanges(const std::set<int> &syms, std::vector<Lin> &cs) {
	for (int v : syms) {
		const SymInfo &si = SYM[v];
		if (si.hasLo) { Lin l = Lin::sym(v); l.c = -si.lo; cs.push_back(l); }
		if (si.hasHi) { Lin l = -Lin::sym(v); l.c = si.hi; cs.push_back(l); }
	}
}

enum FMR { FM_INFEASIBLE, FM_FEASIBLE, FM_GAVEUP };
struct ElimStep { int var; std::vector<Lin> cs; };

static bool dedupe(std::vector<Lin> &cs) { // false when a contradiction shows up
	for (auto &c : cs) tighten(c);
	std::sort(cs.begin(), cs.end());
	std::vector<Lin> o;
	for (auto &c : cs) {
		if (c.t.empty()) { if (c.c < 0) return false; continue; }
		if (!o.empty() && o.back().t == c.t) continue; // sorted by c: the first is the strongest
		o.push_back(c);
	}
	cs.swap(o);
	// opposite pairs
	for (size_t i = 0; i < cs.size(); i++) {
		Lin n = -cs[i];
		auto it = std::lower_bound(cs.begin(), cs.end(), n, [](const Lin &a, const Lin &b) { return a.t < b.t; });
		if (it != cs.end() && it->t == n.t && it->c + cs[i].c < 0) return false;
	}
	return true;
}

static FMR fm(std::vector<Lin> cs, const std::set<int> *keep, std::vector<ElimStep> *steps, std::vector<Lin> *rest, size_t cap = 600) {
	STATS.fm++;
	if (!dedupe(cs)) return FM_INFEASIBLE;
	while (true) {
		std::map<int, std::pair<int, int>> cnt;
		for (auto &c : cs) for (auto &p : c.t) {
			if (keep && keep->count(p.first)) continue;
			if (p.second > 0) cnt[p.first].first++; else cnt[p.first].second++;
		}
		if (cnt.empty()) break;
		int best = -1;
		long bc = 0;
		for (auto &kv : cnt) {
			long cost = (long)kv.second.first * kv.second.second - kv.second.first - kv.second.second;
			if (best < 0 || cost < bc) best = kv.first, bc = cost;
		}
		std::vector<Lin> pos, neg, oth;
		for (auto &c : cs) {
			I k = c.coef(best);
			if (k > 0) pos.push_back(c); else if (k < 0) neg.push_back(c); else oth.push_back(c);
		}
		if (pos.size() * neg.size() + oth.size() > cap) { STATS.fmGaveUp++; return FM_GAVEUP; }
		if (steps) { ElimStep st; st.var = best; st.cs = pos; st.cs.insert(st.cs.end(), neg.begin(), neg.end()); steps->push_back(st); }
		for (auto &p : pos) for (auto &n : neg) {
			I kp = p.coef(best), kn = -n.coef(best);
			I g = gcdI(kp, kn);
			Lin r = combine(p, kn / g, n, kp / g);
			if (r.big()) { STATS.fmGaveUp++; return FM_GAVEUP; }
			tighten(r);
			oth.push_back(r);
		}
		cs.swap(oth);
		if (!dedupe(cs)) return FM_INFEASIBLE;
	}
	if (rest) *rest = cs;
	return FM_FEASIBLE;
}

bool Store::entailsGe(const Lin &e0) const {
	if (bot) return true;
	STATS.entail++;
	Lin e = norm(e0);
	if (e.t.empty()) return e.c >= 0;
	bool hl, hh;
	I lo, hi;
	bounds(e, hl, lo, hh, hi);
	if (hl && lo >= 0) return true;
	if (hh && hi < 0) return false;
	for (auto &g : ge) if (g.t == e.t) { if (g.c <= e.c) return true; break; }
	Lin neg = -e;
	neg.c -= 1;
	std::set<int> syms;
	neg.syms(syms);
	std::vector<Lin> cs;
	sliceOf(*this, syms, cs);
	cs.push_back(neg);
	addRanges(syms, cs);
	return fm(cs, nullptr, nullptr, nullptr) == FM_INFEASIBLE;
}
bool Store::entailsEq(const Lin &e) const {
	Lin n = norm(e);
	if (n.t.empty()) return n.c == 0;
	return entailsGe(n) && entailsGe(-n);
}
bool Store::entailsNe(const Lin &e0) const {
	Lin e = norm(e0);
	if (e.t.empty()) return e.c != 0;
	Lin n = -e;
	for (auto &x : ne) if (x == e || x == n) return true;
	return entailsGe(e - Lin(1)) || entailsGe(n - Lin(1));
}
bool Store::feasible() const {
	if (bot) return false;
	std::set<int> syms;
	for (auto &g : ge) g.syms(syms);
	std::vector<Lin> cs = ge;
	addRanges(syms, cs);
	return fm(cs, nullptr, nullptr, nullptr) != FM_INFEASIBLE;
}
bool Store::feasibleAround(const Lin &e0) const {
	if (bot) return false;
	Lin e = norm(e0);
	std::set<int> syms;
	norm(e0).syms(syms);
	e0.syms(syms);
	std::vector<Lin> cs;
	sliceOf(*this, syms, cs);
	addRanges(syms, cs);
	return fm(cs, nullptr, nullptr, nullptr) != FM_INFEASIBLE;
}
bool Store::feasibleWith(const Lin &e0) const {
	if (bot) return false;
	Lin e = norm(e0);
	if (e.t.empty()) return e.c >= 0;
	return !entailsGe(-e - Lin(1));
}

bool Store::modelWith(const std::vector<Lin> &es, std::map<int, I> *out, std::set<int> *sliceOut) const {
	if (bot) return false;
	std::set<int> syms;
	std::vector<Lin> cs;
	for (auto &e0 : es) { Lin e = norm(e0); if (e.t.empty()) { if (e.c < 0) return false; continue; } e.syms(syms); cs.push_back(e); }
	sliceOf(*this, syms, cs);
	addRanges(syms, cs);
	if (sliceOut) *sliceOut = syms;
	std::vector<ElimStep> steps;
	FMR r = fm(cs, nullptr, &steps, nullptr, 3000);
	if (r != FM_FEASIBLE) return false;
	std::map<int, I> m;
	for (int i = (int)steps.size() - 1; i >= 0; i--) {
		bool hl = false, hh = false;
		I lo = 0, hi = 0;
		int v = steps[i].var;
		for (auto &c : steps[i].cs) {
			I k = 0, val = c.c;
			for (auto &p : c.t) {
				if (p.first == v) k = p.second;
				else { auto it = m.find(p.first); val += p.second * (it == m.end() ? 0 : it->second); }
			}
			// k*v + val >= 0
			if (k > 0) { I b = -floordiv(val, k); if (!hl || b > lo) lo = b, hl = true; }
			else { I b = floordiv(val, -k); if (!hh || b < hi) hi = b, hh = true; }
		}
		I x = 0;
		if (hl && hh && lo > hi) return false;
		if (hl && x < lo) x = lo;
		if (hh && x > hi) x = hi;
		m[v] = x;
	}
	// disequalities that only mention modelled symbols must hold too: try to dodge by nudging is not attempted
	for (auto &e : ne) {
		I val = e.c;
		bool all = true, any = false;
		for (auto &p : e.t) { auto it = m.find(p.first); if (it == m.end()) all = false; else { any = true; val += p.second * it->second; } }
		if (any && all && val == 0) {
			// try again with the disequality resolved to either side
			std::vector<Lin> a = es, b = es;
			a.push_back(e - Lin(1));
			b.push_back(-e - Lin(1));
			if (es.size() > 8) return false;
			return modelWith(a, out, sliceOut) || modelWith(b, out, sliceOut);
		}
	}
	if (out) *out = m;
	return true;
}

std::vector<Lin> Store::projected(const std::vector<Lin> &extra, const std::set<int> &keep) const {
	std::vector<Lin> cs = ge, rest;
	for (auto &e : extra) cs.push_back(norm(e));
	// equalities between kept symbols and eliminated ones are already substituted by norm()
	std::set<int> syms;
	for (auto &c : cs) c.syms(syms);
	for (auto &kv : sub) if (keep.count(kv.first)) {
		Lin d = kv.second - Lin::sym(kv.first);
		cs.push_back(d);
		cs.push_back(-d);
		d.syms(syms);
	}
	addRanges(syms, cs);
	if (fm(cs, &keep, nullptr, &rest, 400) != FM_FEASIBLE) return {};
	return rest;
}

void Store::project(const std::set<int> &keep) {
	if (bot) return;
	// substitutions for dropped symbols disappear
	for (auto it = sub.begin(); it != sub.end();) {
		if (!keep.count(it->first)) it = sub.erase(it); else ++it;
	}
	std::set<int> live = keep;
	for (auto &kv : sub) kv.second.syms(live);
	ne.erase(std::remove_if(ne.begin(), ne.end(), [&](const Lin &e) {
		for (auto &p : e.t) if (!live.count(p.first)) return true;
		return false; }), ne.end());
	while (true) {
		std::map<int, std::pair<int, int>> cnt;
		for (auto &c : ge) for (auto &p : c.t) if (!live.count(p.first)) {
			if (p.second > 0) cnt[p.first].first++; else cnt[p.first].second++;
		}
		int best = -1;
		long bc = 0;
		for (auto &kv : cnt) {
			int a = kv.second.first + (SYM[kv.first].hasLo ? 1 : 0), b = kv.second.second + (SYM[kv.first].hasHi ? 1 : 0);
			long cost = (long)a * b - kv.second.first - kv.second.second;
			if (cost > 2) continue;
			if (best < 0 || cost < bc) best = kv.first, bc = cost;
		}
		if (best < 0) break;
		std::vector<Lin> pos, neg, oth;
		std::set<int> one{best};
		std::vector<Lin> cs = ge;
		addRanges(one, cs);
		for (auto &c : cs) {
			I k = c.coef(best);
			if (k > 0) pos.push_back(c); else if (k < 0) neg.push_back(c); else oth.push_back(c);
		}
		ge.clear();
		for (auto &c : oth) ge.push_back(c);
		for (auto &p : pos) for (auto &n : neg) {
			I kp = p.coef(best), kn = -n.coef(best);
			I g = gcdI(kp, kn);
			Lin r = combine(p, kn / g, n, kp / g);
			if (r.big()) continue;
			addGeNorm(norm(r));
			if (bot) return;
		}
	}
}

std::string Store::str() const {
	std::string s;
	for (auto &kv : sub) s += SYM[kv.first].name + "#" + std::to_string(kv.first) + "=" + kv.second.str() + "; ";
	for (auto &e : ge) s += e.str() + ">=0; ";
	for (auto &e : ne) s += e.str() + "!=0; ";
	return s;
}
