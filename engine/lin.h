// Linear integer expressions over symbols and a conjunction-of-inequalities domain
// (a small polyhedra-like abstract domain: Fourier-Motzkin elimination with integer tightening).
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

typedef __int128 I;
std::string itos(I v);

struct Lin {
	I c = 0;
	std::vector<std::pair<int, I>> t; // sorted by symbol, no zero coefficients
	Lin() {}
	Lin(long long v) : c(v) {}
	static Lin sym(int s) { Lin l; l.t.push_back({s, 1}); return l; }
	static Lin cst(I v) { Lin l; l.c = v; return l; }
	bool isC() const { return t.empty(); }
	bool isZero() const { return t.empty() && c == 0; }
	I coef(int s) const;
	Lin operator+(const Lin &o) const;
	Lin operator-(const Lin &o) const;
	Lin operator-() const { return scale(-1); }
	Lin scale(I k) const;
	bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
	bool operator!=(const Lin &o) const { return !(*this == o); }
	bool operator<(const Lin &o) const { return t != o.t ? t < o.t : c < o.c; }
	Lin subst(int s, const Lin &by) const;
	std::string str() const;
	void syms(std::set<int> &out) const { for (auto &p : t) out.insert(p.first); }
	bool big() const; // coefficients out of the range we trust
};

struct SymInfo {
	std::string name;
	bool lossy;      // value is an over-approximation: not every value allowed by the constraints is real
	bool hasLo, hasHi;
	I lo, hi;
};
extern std::vector<SymInfo> SYM;
int newSym(const std::string &name, bool lossy);
int newSymR(const std::string &name, bool lossy, I lo, I hi);

// conjunction of e >= 0, solved equalities, and e != 0
struct Store {
	std::vector<Lin> ge;
	std::map<int, Lin> sub; // symbol := expression (fully reduced)
	std::vector<Lin> ne;
	bool bot = false;
	Lin norm(const Lin &e) const;
	void addGe(const Lin &e);      // e >= 0
	void addEq(const Lin &e);      // e == 0
	void addNe(const Lin &e);      // e != 0
	// three-valued
	bool entailsGe(const Lin &e) const;
	bool entailsEq(const Lin &e) const;
	bool entailsNe(const Lin &e) const;
	bool feasible() const;                         // full check (rational, tightened)
	bool feasibleAround(const Lin &e) const;
	bool feasibleWith(const Lin &e) const;         // with e >= 0 in addition, on the relevant slice
	// try to build an integer model of the slice around e with e>=0; true when one was found
	bool modelWith(const std::vector<Lin> &es, std::map<int, I> *out = nullptr, std::set<int> *slice = nullptr) const;
	void bounds(const Lin &e, bool &hasLo, I &lo, bool &hasHi, I &hi) const; // quick interval bounds
	// remove every symbol that is not in keep (exact projection where affordable, otherwise constraints are kept)
	void project(const std::set<int> &keep);
	std::vector<Lin> projected(const std::vector<Lin> &extra, const std::set<int> &keep) const;
	std::string str() const;
private:
	void addGeNorm(Lin e);
	void solve(int s, const Lin &by);
};

struct Stats { long entail = 0, fm = 0, fmGaveUp = 0; };
extern Stats STATS;
