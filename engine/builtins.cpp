// Models of library functions and of the analysis primitives used by the drivers.
#include "eng.h"
#include <cmath>
#include <ctime>

namespace {
struct Arg { size_t i; unsigned w; bool sg; };
typedef std::vector<std::pair<State, std::vector<Lin>>> Res;
}
static bool lge(State &s, const Lin &a, const Lin &b) { return s.st.entailsGe(a - b); }

static Res ints(Eng &E, State &s, const std::vector<Val> &a, const std::vector<Arg> &w) {
	Res r;
	r.push_back({s, {}});
	for (auto &x : w) {
		Res n;
		for (auto &p : r) {
			Val v = x.i < a.size() ? a[x.i] : Val();
			if (v.k == Val::Undef) { E.definite(p.first, "uninit", "uninit", "a value that was never set is passed to a library function"); continue; }
			if (v.k == Val::Cond) {
				States t, f;
				E.branch(p.first, v.c, t, f);
				for (auto &q : t) { auto z = p.second; z.push_back(Lin(1)); n.push_back({q, z}); }
				for (auto &q : f) { auto z = p.second; z.push_back(Lin(0)); n.push_back({q, z}); }
				continue;
			}
			if (v.k == Val::Ptr) v = Val::mkInt((v.obj && p.first.heap.count(v.obj) ? Lin::sym(p.first.obj(v.obj).base) : Lin(0)) + v.e);
			if (v.k != Val::Int) {
				I one = 1;
				v = Val::mkInt(Lin::sym(E.freshR(p.first, "arg", true, x.sg ? -(one << (x.w - 1)) : 0, x.sg ? (one << (x.w - 1)) - 1 : (one << x.w) - 1)));
			}
			for (auto &q : E.resolve(p.first, v.e, x.w, x.sg)) { auto z = p.second; z.push_back(q.second); n.push_back({q.first, z}); }
		}
		r.swap(n);
	}
	return r;
}

// number of decimal digits of e (e >= 0): one case per digit count
Val Eng::declen(State &s, const Lin &e0, std::vector<std::pair<State, Lin>> &out) {
	Lin e = s.st.norm(e0);
	if (e.isC()) {
		int n = 1;
		for (I v = e.c; v >= 10; v /= 10) n++;
		out.push_back({s, Lin(n)});
		return Val();
	}
	{
		for (auto &p : s.dl) if (s.st.entailsEq(p.first - e)) { out.push_back({s, Lin::sym(p.second)}); return Val(); }
		bool hl, hh;
		I lo, hi;
		s.st.bounds(e, hl, lo, hh, hi);
		if ((!hl || lo < 1) && s.st.entailsGe(e - Lin(1))) hl = true, lo = 1;
		else if ((!hl || lo < 0) && s.st.entailsGe(e)) hl = true, lo = 0;
		auto dig = [](I v) { int n = 1; for (; v >= 10; v /= 10) n++; return n; };
		int a = hl && lo > 0 ? dig(lo) : 1, b = hh && hi >= 0 && hi < ((I)1 << 66) ? std::min(20, dig(hi)) : 20;
		if (hl && lo >= 0) {
			State q = s;
			if (a == b) { out.push_back({q, Lin(a)}); return Val(); }
			int d = freshR(q, "digits", false, a, b);
			q.st.addGe(e + Lin(1) - Lin::sym(d));
			for (auto &p : s.dl) {
				if (s.st.entailsGe(e - p.first)) q.st.addGe(Lin::sym(d) - Lin::sym(p.second));
				if (s.st.entailsGe(p.first - e)) q.st.addGe(Lin::sym(p.second) - Lin::sym(d));
			}
			q.dl.push_back({e, d});
			out.push_back({q, Lin::sym(d)});
			return Val();
		}
	}
	I lo = 0, hi = 9;
	for (int n = 1; n <= 20; n++) {
		State q = s;
		if (n > 1) { lo = hi + 1; hi = hi * 10 + 9; }
		if (!q.st.feasibleWith(e - Lin::cst(lo)) || !q.st.feasibleWith(Lin::cst(hi) - e)) continue;
		bool all = q.st.entailsGe(e - Lin::cst(lo)) && q.st.entailsGe(Lin::cst(hi) - e);
		q.st.addGe(e - Lin::cst(lo));
		q.st.addGe(Lin::cst(hi) - e);
		if (q.st.bot) continue;
		if (!all && condLossy(s, cGE(e))) { static int id = 1 << 20; q.doubt[++id] = 1; }
		out.push_back({q, Lin(n)});
		if (all) break;
	}
	return Val();
}

namespace {
struct Piece { SegK k; std::string lit; Lin e, len; int src = 0; Lin off; bool sym = false; };
struct Fmt { State s; std::vector<Piece> p; Lin total; bool bad = false; };
}
static void addLit(Fmt &f, const std::string &t) {
	if (t.empty()) return;
	if (!f.p.empty() && f.p.back().k == S_LIT) { f.p.back().lit += t; f.p.back().len = f.p.back().len + Lin((long long)t.size()); }
	else { Piece p; p.k = S_LIT; p.lit = t; p.len = Lin((long long)t.size()); f.p.push_back(p); }
	f.total = f.total + Lin((long long)t.size());
}

void Eng::doPrintf(State &s0, const Val *dst, const Lin *dsz, const std::string &fmt, const std::vector<Val> &a, size_t ai, bool writeIt, SVals &out, const char *who) {
	std::vector<Fmt> fs;
	{ Fmt f{s0, {}, Lin(0)}; fs.push_back(f); }
	size_t i = 0;
	std::string text;
	auto flush = [&]() { for (auto &f : fs) addLit(f, text); text.clear(); };
	while (i < fmt.size()) {
		if (fmt[i] != '%') { text += fmt[i++]; continue; }
		if (i + 1 < fmt.size() && fmt[i + 1] == '%') { text += '%'; i += 2; continue; }
		flush();
		i++;
		bool plain = true;
		while (i < fmt.size() && strchr("-+ #0", fmt[i])) { plain = false; i++; }
		std::vector<Fmt> nx;
		if (i < fmt.size() && fmt[i] == '*') { plain = false; ai++; i++; }
		while (i < fmt.size() && isdigit((unsigned char)fmt[i])) { plain = false; i++; }
		bool hasPrec = false, starPrec = false;
		long prec = 0;
		size_t precArg = 0;
		if (i < fmt.size() && fmt[i] == '.') {
			hasPrec = true;
			i++;
			if (i < fmt.size() && fmt[i] == '*') { starPrec = true; precArg = ai++; i++; }
			while (i < fmt.size() && isdigit((unsigned char)fmt[i])) prec = prec * 10 + (fmt[i++] - '0');
		}
		unsigned w = 32;
		while (i < fmt.size() && strchr("hlzjtqL", fmt[i])) { if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't' || fmt[i] == 'q') w = 64; i++; }
		char c = i < fmt.size() ? fmt[i++] : 's';
		Val v = ai < a.size() ? a[ai] : Val();
		if (ai >= a.size()) { definite(s0, "fmt", "format", std::string(who) + ": more conversions than arguments"); return; }
		ai++;
		for (auto &f : fs) {
			State &s = f.s;
			if (c == 's') {
				std::vector<std::pair<State, Lin>> mx;
				if (starPrec) { for (auto &r : ints(*this, s, a, {{precArg, 32, true}})) mx.push_back({r.first, r.second[0]}); }
				else mx.push_back({s, Lin(prec)});
				for (auto &m : mx) {
					std::vector<std::pair<State, Lin>> L;
					strLen(m.first, v, hasPrec ? &m.second : nullptr, who, L);
					for (auto &x : L) {
						Fmt g = f;
						g.s = x.first;
						std::string lit;
						if (x.second.isC() && literal(g.s, v, lit) && x.second.c <= (I)lit.size()) { addLit(g, lit.substr(0, (size_t)x.second.c)); nx.push_back(g); continue; }
						States z, nz;
						branch(g.s, cGE(x.second - Lin(1)), nz, z);
						for (auto &q : z) { Fmt h = g; h.s = q; nx.push_back(h); }
						for (auto &q : nz) {
							Fmt h = g;
							h.s = q;
							Piece p;
							p.k = S_COPY;
							p.src = v.obj;
							p.off = v.e;
							p.len = x.second;
							p.sym = true;
							h.p.push_back(p);
							h.total = h.total + x.second;
							nx.push_back(h);
						}
					}
				}
			} else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o') {
				bool sg = c == 'd' || c == 'i';
				for (auto &r : ints(*this, s, a, {{ai - 1, w, sg}})) {
					Lin e = r.second[0];
					States pos, neg;
					if (sg) branch(r.first, cGE(e), pos, neg); else pos.push_back(r.first);
					for (int pass = 0; pass < 2; pass++) for (auto &q : pass ? neg : pos) {
						Lin m = pass ? -e : e;
						if (c == 'd' || c == 'i' || c == 'u') {
							std::vector<std::pair<State, Lin>> L;
							declen(q, m, L);
							for (auto &x : L) {
								Fmt g = f;
								g.s = x.first;
								if (pass) addLit(g, "-");
								Lin mm = g.s.st.norm(m);
								if (mm.isC() && plain) { addLit(g, itos(mm.c)); nx.push_back(g); continue; }
								Piece p;
								p.k = plain ? S_DEC : S_ARB;
								p.e = m;
								p.len = x.second;
								if (!plain) { // padded: the width is not modelled exactly
									int n = freshR(g.s, "width", true, 1, 64);
									g.s.st.addGe(Lin::sym(n) - x.second);
									p.len = Lin::sym(n);
								}
								g.p.push_back(p);
								g.total = g.total + p.len;
								nx.push_back(g);
							}
						} else {
							Fmt g = f;
							g.s = q;
							int n = freshR(g.s, "hexlen", true, 1, 64);
							Piece p;
							p.k = S_ARB;
							p.len = Lin::sym(n);
							g.p.push_back(p);
							g.total = g.total + p.len;
							nx.push_back(g);
						}
					}
				}
			} else if (c == 'c') {
				Fmt g = f;
				Lin cv = v.k == Val::Int ? g.s.st.norm(v.e) : Lin::sym(fresh(g.s, "chr", true));
				if (cv.isC() && (cv.c & 255)) addLit(g, std::string(1, (char)(long)cv.c));
				else { Piece p; p.k = S_ARB; p.len = Lin(1); g.p.push_back(p); g.total = g.total + Lin(1); }
				nx.push_back(g);
			} else { // %p %f ...: some text
				Fmt g = f;
				if (v.k == Val::Undef) { definite(g.s, "uninit", "uninit", std::string(who) + " formats a value that was never set"); continue; }
				int n = freshR(g.s, "fmtlen", true, 1, c == 'p' ? 18 : 330);
				Piece p;
				p.k = S_ARB;
				p.len = Lin::sym(n);
				g.p.push_back(p);
				g.total = g.total + p.len;
				nx.push_back(g);
			}
		}
		fs.swap(nx);
		if (fs.size() > 400) incomplete("many cases in one format");
	}
	flush();
	for (auto &f : fs) {
		if (!writeIt) { out.push_back({f.s, Val::mkInt(f.total)}); continue; }
		States fit, cutS;
		if (dsz) branch(f.s, cGE(*dsz - f.total - Lin(1)), fit, cutS); else fit.push_back(f.s);
		for (auto &q : fit) {
			if (!accessOk(q, *dst, f.total + Lin(1), true, who)) continue;
			Lin cur = dst->e;
			for (auto &p : f.p) {
				if (p.sym) copyRange(q, dst->obj, cur, p.src, p.off, p.len);
				else {
					Seg g;
					g.lo = cur;
					g.hi = cur + p.len;
					g.k = p.k;
					g.lit = p.lit;
					g.e = p.e;
					writeRange(q, dst->obj, g);
					if (p.k == S_ARB) { Obj &o = q.mut(dst->obj); runNonzero(q, o, q.st.norm(g.lo), q.st.norm(g.hi)); }
				}
				if (p.sym) { Obj &o = q.mut(dst->obj); runNonzero(q, o, q.st.norm(cur), q.st.norm(cur + p.len)); }
				cur = cur + p.len;
			}
			putScalar(q, dst->obj, cur, 1, Val::mkC(0));
			out.push_back({q, Val::mkInt(f.total)});
		}
		for (auto &q : cutS) {
			States some, none;
			branch(q, cGE(*dsz - Lin(1)), some, none);
			for (auto &x : none) out.push_back({x, Val::mkInt(f.total)});
			for (auto &x : some) {
				if (!accessOk(x, *dst, *dsz, true, who)) continue;
				Seg g;
				g.lo = dst->e;
				g.hi = dst->e + *dsz - Lin(1);
				g.k = S_TRUNC;
				if (!x.st.entailsEq(g.hi - g.lo)) {
					writeRange(x, dst->obj, g);
					Obj &o = x.mut(dst->obj);
					runNonzero(x, o, x.st.norm(g.lo), x.st.norm(g.hi));
				}
				putScalar(x, dst->obj, g.hi, 1, Val::mkC(0));
				out.push_back({x, Val::mkInt(f.total)});
			}
		}
	}
}

static std::string idOf(Eng &E, State &s, const Val &v) {
	std::string r;
	if (!E.literal(s, v, r)) r = "?";
	return r;
}

bool Eng::builtin(State &s, const std::string &name0, const CallBase *CB, const std::vector<Val> &a, SVals &out) {
	auto give = [&](State &q, const Val &v) { out.push_back({std::move(q), v}); return true; };
	std::string here = site(s);
	std::string name = name0;
	for (const char *pre : {"__isoc23_", "__isoc99_"}) if (name.rfind(pre, 0) == 0) name = name.substr(strlen(pre));
	auto is = [&](const char *n) { return name == n; };
	// ---- intrinsics of the compiler
	if (name.rfind("llvm.", 0) == 0) {
		if (name.rfind("llvm.dbg", 0) == 0 || name.rfind("llvm.assume", 0) == 0 || name.rfind("llvm.experimental.noalias", 0) == 0 || name.rfind("llvm.va_", 0) == 0) return give(s, Val());
		if (name.rfind("llvm.expect", 0) == 0) return give(s, a[0]);
		if (name.rfind("llvm.lifetime.start", 0) == 0 || name.rfind("llvm.lifetime.end", 0) == 0) {
			bool start = name.rfind("llvm.lifetime.start", 0) == 0;
			Val p = a[1];
			if (p.k == Val::Ptr && p.obj && s.heap.count(p.obj)) {
				if (start) {
					killObj(s, p.obj, here);
					Obj &o = s.mut(p.obj);
					o.alive = true;
					o.fill = S_UNINIT;
				} else killObj(s, p.obj, here);
			}
			return give(s, Val());
		}
		if (name.rfind("llvm.stacksave", 0) == 0) {
			// remember how many locals exist
			return give(s, Val::mkInt(Lin((long long)s.top().allocas.size())));
		}
		if (name.rfind("llvm.stackrestore", 0) == 0) {
			if (a[0].k == Val::Int && a[0].e.isC()) {
				size_t n = (size_t)a[0].e.c;
				auto &al = s.top().allocas;
				while (al.size() > n) { if (s.heap.count(al.back())) killObj(s, al.back(), here); al.pop_back(); }
			}
			return give(s, Val());
		}
		if (name.rfind("llvm.trap", 0) == 0) { definite(s, "assert", "trap", "a trap is reached"); return true; }
		if (name.rfind("llvm.floor", 0) == 0 || name.rfind("llvm.ceil", 0) == 0) {
			return builtin(s, name.rfind("llvm.floor", 0) == 0 ? "floor" : "ceil", CB, a, out);
		}
		if (name.rfind("llvm.umin", 0) == 0 || name.rfind("llvm.umax", 0) == 0 || name.rfind("llvm.smin", 0) == 0 || name.rfind("llvm.smax", 0) == 0) {
			unsigned w = CB->getType()->getIntegerBitWidth();
			bool sg = name[5] == 's', mn = name.find("min") != std::string::npos;
			for (auto &r : ints(*this, s, a, {{0, w, sg}, {1, w, sg}})) {
				States t, f;
				branch(r.first, cGE(r.second[0] - r.second[1]), t, f);
				for (auto &q : t) out.push_back({q, Val::mkInt(r.second[mn ? 1 : 0])});
				for (auto &q : f) out.push_back({q, Val::mkInt(r.second[mn ? 0 : 1])});
			}
			return true;
		}
		if (name.rfind("llvm.memcpy", 0) == 0) return builtin(s, "memcpy", CB, a, out);
		if (name.rfind("llvm.memmove", 0) == 0) return builtin(s, "memmove", CB, a, out);
		if (name.rfind("llvm.memset", 0) == 0) return builtin(s, "memset", CB, a, out);
		return false;
	}
	// ---- primitives of the drivers
	if (is("__v_choose")) {
		long n = a[0].k == Val::Int && a[0].e.isC() ? (long)a[0].e.c : 2;
		for (long k = 0; k < n; k++) {
			State q = s;
			q.note(locOf(CB) + ":case" + std::to_string(k));
			out.push_back({q, Val::mkC(k)});
		}
		return true;
	}
	if (is("__v_soft_choose")) { // outcomes that are not free: nothing definite follows from one alone
		long n = a[0].k == Val::Int && a[0].e.isC() ? (long)a[0].e.c : 2;
		static int id = 1 << 24;
		++id;
		for (long k = 0; k < n; k++) {
			State q = s;
			q.doubt[id] |= k == 0 ? 1 : 2;
			out.push_back({q, Val::mkC(k)});
		}
		return true;
	}
	if (is("__v_size") || is("__v_range")) {
		for (auto &r : ints(*this, s, a, {{0, 64, true}, {1, 64, true}})) {
			I lo = r.second[0].isC() ? r.second[0].c : 0, hi = r.second[1].isC() ? r.second[1].c : ((I)1 << 62);
			int v;
			if (r.second[0].isC() && r.second[1].isC()) v = freshR(r.first, "v", false, lo, hi);
			else {
				v = fresh(r.first, "v", false);
				r.first.st.addGe(Lin::sym(v) - r.second[0]);
				r.first.st.addGe(r.second[1] - Lin::sym(v));
			}
			if (r.first.st.bot) continue;
			out.push_back({r.first, Val::mkInt(Lin::sym(v))});
		}
		return true;
	}
	if (is("__v_int") || is("__v_long")) {
		unsigned w = is("__v_int") ? 32 : 64;
		I one = 1;
		return give(s, Val::mkInt(Lin::sym(freshR(s, "in", false, -(one << (w - 1)), (one << (w - 1)) - 1))));
	}
	if (is("__v_assume")) {
		for (auto &r : ints(*this, s, a, {{0, 32, true}})) {
			States t;
			assume(r.first, cNE(r.second[0]), t);
			for (auto &q : t) out.push_back({q, Val()});
		}
		return true;
	}
	if (is("__v_check")) {
		std::string id = idOf(*this, s, a[1]), msg = idOf(*this, s, a[2]);
		if (a[0].k == Val::Undef) { record(s, id, "check", msg, VIOLATED, "depends on a value that was never set"); return give(s, Val()); }
		for (auto &r : ints(*this, s, a, {{0, 32, true}})) {
			States t, f;
			branch(r.first, cNE(r.second[0]), t, f);
			for (auto &q : f) { record(q, id, "check", msg, VIOLATED); out.push_back({q, Val()}); } // what follows is examined all the same
			for (auto &q : t) { if (f.empty()) record(q, id, "check", msg, PROVEN); out.push_back({q, Val()}); }
		}
		return true;
	}
	if (is("__v_reach")) {
		std::string id = idOf(*this, s, a[0]), msg = idOf(*this, s, a[1]);
		reached[id + "|" + msg]++;
		reachMsg[id + "|" + msg] = msg;
		return give(s, Val());
	}
	if (is("__v_stop")) { stops++; return true; }
	if (is("__v_prune")) { prune(s); return give(s, Val()); }
	if (is("__v_tag")) { // keeps cases apart when states are merged
		if (a.size() == 2 && a[0].k == Val::Ptr && s.heap.count(a[0].obj) && a[1].k == Val::Int) {
			Lin e = s.st.norm(a[1].e);
			if (e.isC()) s.mut(a[0].obj).tag += ":" + itos(e.c);
		}
		return give(s, Val());
	}
	if (is("__v_mkstr") || is("__v_havoc")) {
		bool str = is("__v_mkstr");
		for (auto &r : ints(*this, s, a, {{1, 64, false}})) {
			State &q0 = r.first;
			Lin n = r.second[0];
			if (!accessOk(q0, a[0], str ? n + Lin(1) : n, true, "driver")) continue;
			States nz, z;
			branch(q0, cGE(n - Lin(1)), nz, z);
			for (auto &q : nz) {
				Seg g;
				g.lo = a[0].e;
				g.hi = a[0].e + n;
				g.k = S_ARB;
				writeRange(q, a[0].obj, g);
				if (str) {
					Obj &o = q.mut(a[0].obj);
					runNonzero(q, o, q.st.norm(g.lo), q.st.norm(g.hi));
					putScalar(q, a[0].obj, g.hi, 1, Val::mkC(0));
				}
				out.push_back({q, Val()});
			}
			for (auto &q : z) {
				if (str) putScalar(q, a[0].obj, a[0].e, 1, Val::mkC(0));
				out.push_back({q, Val()});
			}
		}
		return true;
	}
	if (is("__v_check_init")) {
		std::string id = idOf(*this, s, a[2]), msg = idOf(*this, s, a[3]);
		for (auto &r : ints(*this, s, a, {{1, 64, false}})) {
			State &q0 = r.first;
			if (!accessOk(q0, a[0], r.second[0], false, "checked range")) continue;
			States nz, z;
			branch(q0, cGE(r.second[0] - Lin(1)), nz, z);
			for (auto &q : nz) {
				std::string why;
				int st = initStatus(q, a[0].obj, q.st.norm(a[0].e), q.st.norm(a[0].e + r.second[0]), &why);
				record(q, id, "init", msg, st == 1 ? PROVEN : st == 0 ? VIOLATED : UNKNOWN, why);
				out.push_back({q, Val()});
			}
			for (auto &q : z) out.push_back({q, Val()});
		}
		return true;
	}
	if (is("__v_objsize")) {
		if (a[0].k == Val::Ptr && a[0].obj && s.heap.count(a[0].obj)) return give(s, Val::mkInt(s.obj(a[0].obj).size - a[0].e));
		return give(s, Val::mkC(-1));
	}
	if (is("__v_offset")) return give(s, a[0].k == Val::Ptr ? Val::mkInt(a[0].e) : Val::mkTop());
	if (is("__v_is_alive")) {
		bool al = a[0].k == Val::Ptr && a[0].obj && s.heap.count(a[0].obj) && s.obj(a[0].obj).alive;
		return give(s, Val::mkC(al ? 1 : 0));
	}
	if (is("__v_same_obj")) return give(s, Val::mkC(a[0].k == Val::Ptr && a[1].k == Val::Ptr && a[0].obj == a[1].obj ? 1 : 0));
	if (is("__v_leak_ok")) {
		if (a[0].k == Val::Ptr && a[0].obj && s.heap.count(a[0].obj)) s.mut(a[0].obj).leakOk = true;
		return give(s, Val());
	}
	if (is("__v_same")) { // 1 when the bytes are known to be those of the (unchanged) witness
		for (auto &r : ints(*this, s, a, {{2, 64, false}})) out.push_back({r.first, Val::mkC(sameBytes(r.first, a[0], a[1], r.second[0]) == 1 ? 1 : 0)});
		return true;
	}
	if (is("__v_check_same")) {
		std::string id = idOf(*this, s, a[3]), msg = idOf(*this, s, a[4]);
		for (auto &r : ints(*this, s, a, {{2, 64, false}})) {
			State &q0 = r.first;
			if (!accessOk(q0, a[0], r.second[0], false, "checked range")) continue;
			States nz, z;
			branch(q0, cGE(r.second[0] - Lin(1)), nz, z);
			for (auto &q : nz) {
				std::string why;
				int st = sameBytes(q, a[0], a[1], r.second[0], &why);
				record(q, id, "content", msg, st == 1 ? PROVEN : st == 0 ? VIOLATED : UNKNOWN, why);
				out.push_back({q, Val()});
			}
			for (auto &q : z) out.push_back({q, Val()});
		}
		return true;
	}
	if (is("__v_check_dec")) { // the text p[0..len) is the decimal form of n
		std::string id = idOf(*this, s, a[3]), msg = idOf(*this, s, a[4]);
		for (auto &r : ints(*this, s, a, {{1, 64, false}, {2, 64, true}})) {
			State &q = r.first;
			Lin len = q.st.norm(r.second[0]), n = q.st.norm(r.second[1]);
			if (!accessOk(q, a[0], len, false, "checked range")) continue;
			std::vector<Seg> t;
			Verdict v = UNKNOWN;
			std::string why = n.str();
			if (tiles(q, a[0].obj, q.st.norm(a[0].e), q.st.norm(a[0].e + len), t)) {
				std::string lit;
				std::vector<Lin> dec;
				bool other = false;
				for (auto &g : t) {
					if (g.k == S_LIT) lit += g.lit;
					else if (g.k == S_DEC) lit += '\x01', dec.push_back(g.e);
					else other = true;
				}
				if (!other && dec.empty()) v = n.isC() && lit == itos(n.c) ? PROVEN : VIOLATED;
				else if (!other && dec.size() == 1) {
					Lin want = lit == "\x01" ? n : lit == "-\x01" ? -n : Lin(0);
					if (lit != "\x01" && lit != "-\x01") v = VIOLATED;
					else if (q.st.entailsEq(dec[0] - want)) v = PROVEN;
					else if (q.st.entailsNe(dec[0] - want)) v = VIOLATED;
					why = lit + " " + dec[0].str() + " instead of " + want.str();
				}
			}
			record(q, id, "content", msg, v, why);
			out.push_back({q, Val()});
		}
		return true;
	}
	if (is("__v_blur")) {
		if (a[0].k == Val::Ptr && a[0].obj && s.heap.count(a[0].obj)) s.mut(a[0].obj).blur = true;
		return give(s, Val());
	}
	if (is("__v_freeze")) { // from here on writing to the block breaks the property; NULL lifts it
		std::string id = idOf(*this, s, a[1]);
		if (a[0].k == Val::Ptr && a[0].obj && s.heap.count(a[0].obj)) {
			s.mut(a[0].obj).frozen = id == "-" ? "" : id;
			if (id != "-") record(s, id, "frozen", "what others share is only read: " + s.obj(a[0].obj).site, PROVEN);
		}
		return give(s, Val());
	}
	if (is("__v_known_cmp")) { // 0 unknown, 1 equal, 2 less, 3 greater
		std::string x, y;
		for (auto &r : ints(*this, s, a, {{2, 64, false}})) {
			long res = 0;
			if (literal(r.first, a[0], x) && literal(r.first, a[1], y)) {
				Lin n = r.first.st.norm(r.second[0]);
				if (n.isC()) {
					size_t m = n.c > (I)1 << 30 ? (size_t)1 << 30 : (size_t)n.c;
					std::string p = x.substr(0, m), q = y.substr(0, m);
					res = p == q ? 1 : p < q ? 2 : 3;
				}
			}
			out.push_back({r.first, Val::mkC(res)});
		}
		return true;
	}
	if (is("__v_known_memcmp")) {
		for (auto &r : ints(*this, s, a, {{2, 64, false}})) {
			State &q = r.first;
			long res = 0;
			Lin n = q.st.norm(r.second[0]);
			if (n.isC() && n.c <= 4096 && a[0].k == Val::Ptr && a[1].k == Val::Ptr) {
				if (a[0].obj == a[1].obj && q.st.entailsEq(a[0].e - a[1].e)) res = 1;
				std::string b[2];
				bool ok = true;
				for (int k = 0; k < 2 && ok; k++) {
					std::vector<Seg> t;
					if (!q.heap.count(a[k].obj) || !tiles(q, a[k].obj, q.st.norm(a[k].e), q.st.norm(a[k].e + n), t)) { ok = false; break; }
					for (auto &g : t) {
						Lin w = q.st.norm(g.hi - g.lo);
						if (!w.isC()) { ok = false; break; }
						for (long i = 0; i < (long)w.c && ok; i++) {
							if (g.k == S_ZERO) b[k] += '\0';
							else if (g.k == S_LIT) b[k] += g.lit[i];
							else if (g.k == S_VAL && g.v.k == Val::Int && g.v.e.isC()) b[k] += (char)((unsigned long long)g.v.e.c >> (8 * i));
							else ok = false;
						}
					}
				}
				if (ok && !res) res = b[0] == b[1] ? 1 : b[0] < b[1] ? 2 : 3;
			}
			out.push_back({q, Val::mkC(res)});
		}
		return true;
	}
	if (is("__v_set_literal")) { // the string at a[0] is known to equal the constant a[1]
		std::string y;
		if (a[0].k == Val::Ptr && s.heap.count(a[0].obj) && !s.obj(a[0].obj).constant && literal(s, a[1], y)) {
			if (!y.empty()) {
				Seg g;
				g.lo = a[0].e;
				g.hi = a[0].e + Lin((long long)y.size());
				g.k = S_LIT;
				g.lit = y;
				writeRange(s, a[0].obj, g);
			}
			putScalar(s, a[0].obj, a[0].e + Lin((long long)y.size()), 1, Val::mkC(0));
		}
		return give(s, Val());
	}
	if (is("__v_literal_len")) { // length of a constant string, -1 when it is not constant
		std::string y;
		if (literal(s, a[0], y)) return give(s, Val::mkC((long)y.size()));
		return give(s, Val::mkC(-1));
	}
	if (is("__v_http_line")) { httpLine(s, a, out); return true; }
	if (is("__v_http_check")) { httpCheck(s, a, out); return true; }
	if (is("__v_dump")) {
		fprintf(stderr, "DUMP %s: %s\n", here.c_str(), s.st.str().c_str());
		for (auto &v : a) {
			if (v.k == Val::Int) fprintf(stderr, "  int %s\n", s.st.norm(v.e).str().c_str());
			else if (v.k == Val::Ptr && v.obj && s.heap.count(v.obj)) {
				auto &o = s.obj(v.obj);
				fprintf(stderr, "  ptr %d+%s size %s fill %d alive %d doubt %zu\n", v.obj, s.st.norm(v.e).str().c_str(), s.st.norm(o.size).str().c_str(), o.fill, o.alive, s.doubt.size());
				for (auto &c : o.cells) fprintf(stderr, "    cell %ld:%u k%d %s obj %d\n", c.first, c.second.size, c.second.v.k, s.st.norm(c.second.v.e).str().c_str(), c.second.v.obj);
				for (auto &g : o.segs) fprintf(stderr, "    seg %s..%s k%d %s src %d e %s\n", s.st.norm(g.lo).str().c_str(), s.st.norm(g.hi).str().c_str(), g.k, g.lit.c_str(), g.src, s.st.norm(g.e).str().c_str());
				for (auto &g : o.runs) fprintf(stderr, "    run %s..%s %d\n", s.st.norm(g.lo).str().c_str(), s.st.norm(g.hi).str().c_str(), g.term);
			} else fprintf(stderr, "  val k%d\n", v.k);
		}
		return give(s, Val());
	}
	// ---- memory
	if (is("malloc")) {
		for (auto &r : ints(*this, s, a, {{0, 64, false}})) {
			allocSize(r.first, r.second[0]);
			int id = newObj(r.first, O_HEAP, r.second[0], S_UNINIT, here);
			out.push_back({r.first, Val::mkPtr(id, Lin(0))});
		}
		return true;
	}
	if (is("calloc")) {
		for (auto &r : ints(*this, s, a, {{0, 64, false}, {1, 64, false}})) {
			Lin x = r.first.st.norm(r.second[0]), y = r.first.st.norm(r.second[1]);
			Lin sz = y.isC() ? x.scale(y.c) : x.isC() ? y.scale(x.c) : Lin::sym(fresh(r.first, "sz", true));
			allocSize(r.first, sz);
			int id = newObj(r.first, O_HEAP, sz, S_ZERO, here);
			out.push_back({r.first, Val::mkPtr(id, Lin(0))});
		}
		return true;
	}
	if (is("realloc") || is("free")) {
		bool re = is("realloc");
		Val p = a[0];
		if (p.k == Val::Undef) { definite(s, "life", "bad-free", name + " of a pointer that was never set"); return true; }
		if (p.k == Val::Int && s.st.entailsEq(p.e)) p = Val::mkNull();
		if (p.isNull()) { if (re) return builtin(s, "malloc", CB, {a[1]}, out); return give(s, Val()); }
		if (p.k != Val::Ptr) {
			record(s, "life", "bad-free", name + " of an untracked pointer", UNKNOWN);
			s.doubt[-1] = 1;
			if (!re) return give(s, Val());
			return builtin(s, "malloc", CB, {a[1]}, out);
		}
		if (p.obj == 0) { definite(s, "life", "bad-free", name + " of an invalid address"); return true; }
		if (!s.heap.count(p.obj)) { definite(s, "life", "double-free", name + " of memory that was already released"); return true; }
		const Obj &o = s.obj(p.obj);
		if (!o.alive) { definite(s, "life", "double-free", name + " of memory released before (" + o.site + ", released at " + o.freedAt + ")"); return true; }
		if (!o.frozen.empty()) { record(s, o.frozen, "frozen", name + " of " + o.site + ", which others share", VIOLATED); return true; }
		if (o.kind != O_HEAP) { definite(s, "life", "bad-free", name + " of memory that does not come from the allocator (" + o.site + ")"); return true; }
		if (!must(s, {p.e, -p.e}, "life", "bad-free", name + " gets the start of the block from " + o.site)) return true;
		record(s, "life", "release", "block from " + o.site + " released once", PROVEN);
		if (!re) { killObj(s, p.obj, here); return give(s, Val()); }
		for (auto &r : ints(*this, s, a, {{1, 64, false}})) {
			State &q = r.first;
			allocSize(q, r.second[0]);
			int id = newObj(q, O_HEAP, r.second[0], S_UNINIT, here);
			Obj old = q.obj(p.obj);
			Obj &n = q.mut(id);
			n.cells = old.cells;
			n.segs = old.segs;
			n.runs = old.runs;
			if (old.fill != S_UNINIT) {
				Lin sz = r.second[0];
				Lin cp = lge(q, sz, old.size) ? old.size : sz;
				Seg g;
				g.lo = Lin(0);
				g.hi = cp;
				g.k = old.fill;
				n.segs.insert(n.segs.begin(), g);
			}
			killObj(q, p.obj, here);
			out.push_back({q, Val::mkPtr(id, Lin(0))});
		}
		return true;
	}
	if (is("memcpy") || is("memmove") || is("mempcpy")) {
		for (auto &r : ints(*this, s, a, {{2, 64, false}})) {
			Lin n = r.second[0];
			States nz, z;
			branch(r.first, cGE(n - Lin(1)), nz, z);
			for (auto &q : z) out.push_back({q, a[0]});
			for (auto &q : nz) {
				if (!accessOk(q, a[0], n, true, name.c_str())) continue;
				if (!accessOk(q, a[1], n, false, name.c_str())) continue;
				Val x = a[0], y = a[1];
				if (x.k != Val::Ptr || y.k != Val::Ptr) continue;
				if (x.obj == y.obj && is("memcpy")) {
					if (q.st.entailsEq(x.e - y.e)) { out.push_back({q, a[0]}); continue; }
					bool disj = q.st.entailsGe(x.e - y.e - n) || q.st.entailsGe(y.e - x.e - n);
					if (disj) record(q, "mem", "overlap", "source and destination of memcpy do not overlap", PROVEN);
					else {
						bool over = q.st.entailsGe(y.e + n - Lin(1) - x.e) && q.st.entailsGe(x.e + n - Lin(1) - y.e);
						record(q, "mem", "overlap", "source and destination of memcpy do not overlap", over ? VIOLATED : UNKNOWN);
					}
				}
				copyRange(q, x.obj, x.e, y.obj, y.e, n);
				Val rv = a[0];
				if (is("mempcpy")) rv.e = rv.e + n;
				out.push_back({q, rv});
			}
		}
		return true;
	}
	if (is("memset") || is("bzero") || is("explicit_bzero")) {
		bool bz = !is("memset");
		for (auto &r : ints(*this, s, a, {{(size_t)(bz ? 1 : 2), 64, false}})) {
			Lin n = r.second[0];
			States nz, z;
			branch(r.first, cGE(n - Lin(1)), nz, z);
			for (auto &q : z) out.push_back({q, a[0]});
			for (auto &q : nz) {
				if (!accessOk(q, a[0], n, true, "memset")) continue;
				if (a[0].k != Val::Ptr) continue;
				Val c = bz ? Val::mkC(0) : a[1];
				Lin cv = c.k == Val::Int ? q.st.norm(c.e) : Lin::sym(fresh(q, "fill", true));
				Seg g;
				g.lo = a[0].e;
				g.hi = a[0].e + n;
				g.k = cv.isC() && (cv.c & 255) == 0 ? S_ZERO : S_ARB;
				if (c.k == Val::Undef) g.k = S_UNINIT;
				writeRange(q, a[0].obj, g);
				if (cv.isC() && (cv.c & 255)) { Obj &o = q.mut(a[0].obj); runNonzero(q, o, q.st.norm(g.lo), q.st.norm(g.hi)); }
				out.push_back({q, a[0]});
			}
		}
		return true;
	}
	// ---- strings
	if (is("strlen") || is("strnlen")) {
		bool bn = is("strnlen");
		Res rs;
		if (bn) rs = ints(*this, s, a, {{1, 64, false}}); else rs.push_back({s, {}});
		for (auto &r : rs) {
			std::vector<std::pair<State, Lin>> L;
			strLen(r.first, a[0], bn ? &r.second[0] : nullptr, name.c_str(), L);
			for (auto &x : L) out.push_back({x.first, Val::mkInt(x.second)});
		}
		return true;
	}
	if (is("snprintf") || is("sprintf") || is("printf") || is("fprintf") || is("dprintf") || is("asprintf")) {
		size_t fi = is("snprintf") ? 2 : is("printf") ? 0 : 1;
		std::string fmt;
		if (!literal(s, a[fi], fmt)) {
			record(s, "fmt", "format", name + ": the format is a constant", UNKNOWN);
			s.doubt[-1] = 1;
			if (is("snprintf") || is("sprintf")) {
				if (a[0].k == Val::Ptr && a[0].obj && s.heap.count(a[0].obj)) { Seg g; g.lo = a[0].e; g.hi = s.obj(a[0].obj).size; g.k = S_AMB; if (lge(s, g.hi, g.lo + Lin(1))) writeRange(s, a[0].obj, g); }
			}
			return give(s, Val::mkInt(Lin::sym(freshR(s, "n", true, 0, 1 << 30))));
		}
		if (is("snprintf")) {
			for (auto &r : ints(*this, s, a, {{1, 64, false}})) doPrintf(r.first, &a[0], &r.second[0], fmt, a, 3, true, out, "snprintf");
			return true;
		}
		if (is("sprintf")) { doPrintf(s, &a[0], nullptr, fmt, a, 2, true, out, "sprintf"); return true; }
		doPrintf(s, nullptr, nullptr, fmt, a, fi + 1, false, out, name.c_str());
		return true;
	}
	if (is("vsnprintf")) { // the text is checked where the arguments are known
		for (auto &r : ints(*this, s, a, {{1, 64, false}})) {
			State &q0 = r.first;
			States nz, z;
			branch(q0, cGE(r.second[0] - Lin(1)), nz, z);
			int want = 0;
			for (auto &q : nz) {
				if (!accessOk(q, a[0], r.second[0], true, "vsnprintf")) continue;
				Lin k = Lin::sym(freshR(q, "len", true, 0, 1LL << 40));
				want = freshR(q, "n", true, 0, 1 << 30);
				q.st.addGe(r.second[0] - Lin(1) - k);
				q.st.addGe(Lin::sym(want) - k);
				States kz, knz;
				branch(q, cGE(k - Lin(1)), knz, kz);
				for (int p = 0; p < 2; p++) for (auto &t : p ? knz : kz) {
					if (p) {
						Seg g;
						g.lo = a[0].e;
						g.hi = a[0].e + k;
						g.k = S_ARB;
						writeRange(t, a[0].obj, g);
						Obj &o = t.mut(a[0].obj);
						runNonzero(t, o, t.st.norm(g.lo), t.st.norm(g.hi));
						putScalar(t, a[0].obj, g.hi, 1, Val::mkC(0));
					} else putScalar(t, a[0].obj, a[0].e, 1, Val::mkC(0));
					out.push_back({t, Val::mkInt(Lin::sym(want))});
				}
			}
			for (auto &q : z) out.push_back({q, Val::mkInt(Lin::sym(freshR(q, "n", true, 0, 1 << 30)))});
		}
		return true;
	}
	if (name.rfind("llvm.va_", 0) == 0) return give(s, Val());
	if (is("m38_log_msg")) {
		// text goes to the log only: every %s argument must be a readable string
		std::string fmt;
		if (!literal(s, a[1], fmt)) { record(s, "fmt", "format", "log format is a constant", UNKNOWN); return give(s, Val()); }
		std::vector<State> cur{s};
		size_t ai = 2;
		for (size_t i = 0; i < fmt.size(); i++) {
			if (fmt[i] != '%') continue;
			i++;
			if (i < fmt.size() && fmt[i] == '%') continue;
			bool prec = false;
			while (i < fmt.size() && strchr("-+ #0123456789.*hlzjtq", fmt[i])) { if (fmt[i] == '.') prec = true; if (fmt[i] == '*') ai++; i++; }
			if (ai >= a.size()) { definite(s, "fmt", "format", "log message: more conversions than arguments"); return true; }
			Val v = a[ai++];
			std::vector<State> nx;
			for (auto &q : cur) {
				if (i < fmt.size() && fmt[i] == 's' && !prec) {
					std::vector<std::pair<State, Lin>> L;
					strLen(q, v, nullptr, "log message", L);
					for (auto &x : L) nx.push_back(x.first);
				} else if (v.k == Val::Undef) definite(q, "uninit", "uninit", "a value that was never set is logged");
				else nx.push_back(q);
			}
			cur.swap(nx);
		}
		for (auto &q : cur) out.push_back({q, Val()});
		return true;
	}
	if (is("puts") || is("perror")) {
		if (a[0].isNull()) return give(s, Val::mkC(0));
		std::vector<std::pair<State, Lin>> L;
		strLen(s, a[0], nullptr, name.c_str(), L);
		for (auto &x : L) out.push_back({x.first, Val::mkC(0)});
		return true;
	}
	// ---- arithmetic
	if (is("log10")) {
		if (a[0].k == Val::Dbl && a[0].dk == 1) return give(s, Val::mkDbl(1, Lin(), std::log10(a[0].dv)));
		if (a[0].k == Val::Dbl && a[0].dk == 2) {
			// zero gives minus infinity
			States p, z;
			branch(s, cGE(a[0].e - Lin(1)), p, z);
			for (auto &q : p) out.push_back({q, Val::mkDbl(3, a[0].e, 0)});
			for (auto &q : z) out.push_back({q, Val::mkDbl(1, Lin(), -INFINITY)});
			return true;
		}
		return give(s, Val::mkDbl(0, Lin(), 0));
	}
	if (is("floor") || is("ceil")) {
		if (a[0].k == Val::Dbl && a[0].dk == 1) return give(s, Val::mkDbl(1, Lin(), is("floor") ? std::floor(a[0].dv) : std::ceil(a[0].dv)));
		if (a[0].k == Val::Dbl && a[0].dk == 3 && is("floor")) return give(s, Val::mkDbl(4, a[0].e, 0));
		if (a[0].k == Val::Dbl && (a[0].dk == 2 || a[0].dk == 4)) return give(s, a[0]);
		return give(s, Val::mkDbl(0, Lin(), 0));
	}
	if (is("strtol") || is("strtoul") || is("strtoll") || is("strtoull") || is("atoi") || is("atol") || is("atoll")) {
		std::vector<std::pair<State, Lin>> L;
		strLen(s, a[0], nullptr, name.c_str(), L);
		unsigned w = CB->getType()->getIntegerBitWidth();
		I one = 1;
		for (auto &x : L) {
			State &q = x.first;
			int v = freshR(q, "num", false, -(one << (w - 1)), (one << (w - 1)) - 1);
			if (a.size() >= 2 && a[1].k == Val::Ptr && !a[1].isNull()) {
				if (!accessOk(q, a[1], Lin(8), true, name.c_str())) continue;
				int k = fresh(q, "end", false);
				q.st.addGe(Lin::sym(k));
				q.st.addGe(x.second - Lin::sym(k));
				putScalar(q, a[1].obj, a[1].e, 8, Val::mkPtr(a[0].obj, a[0].e + Lin::sym(k)));
			}
			std::string lit;
			if (literal(q, a[0], lit)) { out.push_back({q, Val::mkC(strtol(lit.c_str(), nullptr, 10))}); continue; }
			out.push_back({q, Val::mkInt(Lin::sym(v))});
		}
		return true;
	}
	if (is("sscanf")) {
		std::string fmt;
		std::vector<std::pair<State, Lin>> L;
		if (!literal(s, a[1], fmt)) { incomplete("sscanf with an unknown format at " + here); return true; }
		struct Conv { char c; unsigned size; long width; bool skip; };
		std::vector<Conv> cv;
		for (size_t i = 0; i < fmt.size(); i++) {
			if (fmt[i] != '%') continue;
			if (fmt[++i] == '%') continue;
			Conv v{0, 4, 0, false};
			if (fmt[i] == '*') { v.skip = true; i++; }
			while (i < fmt.size() && isdigit((unsigned char)fmt[i])) v.width = v.width * 10 + (fmt[i++] - '0');
			if (fmt.compare(i, 2, "hh") == 0) v.size = 1, i += 2;
			else if (fmt.compare(i, 2, "ll") == 0) v.size = 8, i += 2;
			else if (fmt[i] == 'h') v.size = 2, i++;
			else if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't') v.size = 8, i++;
			v.c = i < fmt.size() ? fmt[i] : 0;
			if (!strchr("diuxXcs", v.c) || !v.c) { incomplete("sscanf conversion at " + here); return true; }
			if (!v.skip) cv.push_back(v);
		}
		strLen(s, a[0], nullptr, "sscanf", L);
		for (auto &x : L) for (size_t k = 0; k <= cv.size(); k++) {
			State q = x.first;
			bool ok = true;
			for (size_t j = 0; j < k && ok; j++) {
				if (2 + j >= a.size()) { ok = false; break; }
				const Val &p = a[2 + j];
				if (cv[j].c == 'c' || cv[j].c == 's') {
					Lin n = cv[j].c == 'c' ? Lin(std::max(1L, cv[j].width)) : cv[j].width ? Lin(cv[j].width + 1) : x.second + Lin(1);
					if (!accessOk(q, p, n, true, "sscanf")) { ok = false; break; }
					Seg g;
					g.lo = p.e;
					g.hi = p.e + n;
					g.k = S_ARB;
					writeRange(q, p.obj, g);
					continue;
				}
				if (!accessOk(q, p, Lin((long long)cv[j].size), true, "sscanf")) { ok = false; break; }
				I one = 1, lo = -(one << (8 * cv[j].size - 1)), hi = (one << (8 * cv[j].size - 1)) - 1;
				if ((cv[j].c == 'x' || cv[j].c == 'X') && cv[j].width > 0 && cv[j].width * 4 < 8 * cv[j].size) lo = 0, hi = (one << (4 * cv[j].width)) - 1;
				if (cv[j].c == 'u') lo = 0, hi = (one << (8 * cv[j].size)) - 1;
				putScalar(q, p.obj, p.e, cv[j].size, Val::mkInt(Lin::sym(freshR(q, "num", true, lo, hi))));
			}
			if (ok) { q.note(here + ":scan" + std::to_string(k)); out.push_back({q, Val::mkC((long long)k)}); }
		}
		return true;
	}
	if (is("tolower") || is("toupper") || is("isdigit") || is("isalpha") || is("isxdigit") || is("isspace") || is("isalnum")) {
		if (a[0].k == Val::Undef) { definite(s, "uninit", "uninit", "a value that was never set is used"); return true; }
		return give(s, Val::mkInt(Lin::sym(freshR(s, "chr", true, 0, 255))));
	}
	if (is("__errno_location")) {
		const GlobalVariable *g = M->getGlobalVariable("__v_errno", true);
		if (g) return give(s, Val::mkPtr(globalObj(s, g), Lin(0)));
		return give(s, Val::mkTop());
	}
	if (is("__assert_fail")) {
		std::string e = idOf(*this, s, a[0]);
		definite(s, "assert", "assert", "assertion '" + e + "' fails");
		return true;
	}
	if (is("exit") || is("abort") || is("_exit") || is("_Exit") || is("quick_exit")) { definite(s, "assert", "exit", "the process is ended"); return true; }
	if (is("pthread_exit")) { definite(s, "assert", "exit", "the thread is ended"); return true; }
	return false;
}

// Is [p, p+n) a complete, well-formed HTTP response: status line and headers made of known text,
// one blank line, then exactly the announced body?
// __v_http_check(p, n, status, body, bodyoff, bodylen, total, id)
//   bodylen: the number of body bytes expected, bodyoff: offset of their first byte in body, total: full size for 206 (or -1)
// the size of an allocation stays below the limit of this run
void Eng::allocSize(State &s, const Lin &n) {
	if (allocLimit <= 0) return;
	bool ex = false;
	int r = refute(s, {n - Lin(1) - Lin::cst((I)allocLimit)}, nullptr, &ex);
	record(s, "C21", "size", "the size of an allocation is bounded", r == 0 ? PROVEN : r == 1 && ex ? VIOLATED : UNKNOWN, s.st.norm(n).str());
}
void Eng::httpCheck(State &s, const std::vector<Val> &a, SVals &out) {
	std::string id = idOf(*this, s, a[7]);
	for (auto &r : ints(*this, s, a, {{1, 64, true}, {2, 32, true}, {4, 64, true}, {5, 64, true}, {6, 64, true}})) {
		State &q = r.first;
		Lin n = q.st.norm(r.second[0]), status = q.st.norm(r.second[1]), boff = q.st.norm(r.second[2]), blen = q.st.norm(r.second[3]), total = q.st.norm(r.second[4]);
		auto rec = [&](const char *msg, Verdict v, const std::string &x = "") {
			std::string m = msg, cat = id;
			if (id == "*") {
				auto has = [&](const char *w) { return m.find(w) != std::string::npos; };
				cat = has("ength") || has("Content-Range") || has("partial") || has("sent whole") ? "C03" : has("every byte") || has("body bytes") ? "C02" : "C09";
				if (v != PROVEN && cat == "C09") record(q, "C03", "response", "the head is the one its status asks for", v, x);
			}
			record(q, cat, "response", msg, v, x);
		};
		auto fin = [&]() { out.push_back({q, Val()}); };
		if (!accessOk(q, a[0], n, false, "response")) continue;
		std::vector<Seg> t;
		if (!tiles(q, a[0].obj, q.st.norm(a[0].e), q.st.norm(a[0].e + n), t)) {
			rec("the response is a known sequence of pieces", UNKNOWN);
			fin();
			continue;
		}
		std::string why;
		std::string d; // description with placeholders
		std::vector<size_t> at;
		bool opaque = false, uninit = false, trunc = false;
		size_t bodyTile = t.size();
		std::string text; // literal text so far; \x01 for a number, \x02 for other text
		std::vector<Lin> nums;
		bool headDone = false;
		for (size_t i = 0; i < t.size(); i++) {
			auto &g = t[i];
			if (headDone) { bodyTile = i; break; }
			switch (g.k) {
			case S_LIT: {
				size_t p;
				std::string joined = text + g.lit;
				p = joined.find("\r\n\r\n");
				if (p != std::string::npos) {
					size_t used = p + 4 - text.size();
					text = joined.substr(0, p + 4);
					headDone = true;
					bodyTile = i + 1;
					if (used < g.lit.size()) { // literal text after the blank line: body bytes from constant text
						Seg rest = g;
						rest.lit = g.lit.substr(used);
						rest.lo = q.st.norm(g.lo + Lin((long long)used));
						t[i].lit = g.lit.substr(0, used);
						t[i].hi = rest.lo;
						t.insert(t.begin() + i + 1, rest);
					}
				} else text = joined;
				break;
			}
			case S_DEC: text += '\x01'; nums.push_back(g.e); break;
			case S_VAL:
				if (g.v.k == Val::Undef) uninit = true;
				if (g.v.k == Val::Int && g.v.e.isC()) {
					Lin w = q.st.norm(g.hi - g.lo);
					for (long b = 0; w.isC() && b < (long)w.c; b++) text += (char)((unsigned long long)g.v.e.c >> (8 * b));
					if (text.size() >= 4 && text.compare(text.size() - 4, 4, "\r\n\r\n") == 0) headDone = true;
					break;
				}
				text += '\x02';
				break;
			case S_UNINIT: uninit = true; text += '\x03'; break;
			case S_ZERO: text += '\0'; break;
			case S_TRUNC: trunc = true; text += '\x04'; break;
			case S_COPY: case S_ARB: text += '\x02'; break;
			default: opaque = true; text += '\x02';
			}
		}
		if (uninit) { rec("every byte of the head is part of the response", VIOLATED, "never-written bytes in: " + text); fin(); continue; }
		rec("every byte of the head is part of the response", PROVEN);
		if (trunc) { rec("the head is not cut short", VIOLATED, text); fin(); continue; }
		rec("the head is not cut short", PROVEN);
		if (opaque) { rec("the head is known text", UNKNOWN); fin(); continue; }
		if (text.find('\0') != std::string::npos) { rec("the head contains no NUL byte", VIOLATED, text.substr(0, text.find('\0'))); fin(); continue; }
		rec("the head contains no NUL byte", PROVEN);
		if (!headDone) { rec("the head ends with a blank line", VIOLATED, text); fin(); continue; }
		rec("the head ends with a blank line", PROVEN);
		// status line
		if (status.isC()) {
			std::string want = " " + itos(status.c) + " ";
			size_t sl = text.find("\r\n");
			bool ok = text.rfind("HTTP/1.", 0) == 0 && text.compare(8, want.size(), want) == 0 && sl > 8 + want.size();
			// reason phrase: letters and blanks only
			for (size_t k = 12; ok && k < sl; k++) if (!isalpha((unsigned char)text[k]) && text[k] != ' ' && text[k] != '-' && text[k] != '\'') ok = false;
			rec("the head starts with the status line of its status", ok ? PROVEN : VIOLATED, text.substr(0, sl));
		}
		// header lines: Name: value
		{
			bool ok = true;
			std::string badLine;
			size_t p = text.find("\r\n") + 2;
			while (p + 2 <= text.size()) {
				size_t e = text.find("\r\n", p);
				std::string line = text.substr(p, e - p);
				if (line.empty()) break;
				size_t c = line.find(": ");
				if (line.find('\n') != std::string::npos || line.find('\r') != std::string::npos) ok = false, badLine = line;
				if (c == std::string::npos && line.find('\x02') == std::string::npos) ok = false, badLine = line;
				// the name is a token, or a text from outside on its own; no second name follows on the same line
				for (size_t k = 0; c != std::string::npos && k < c; k++) {
					bool lone = line[k] == '\x02' && c == 1;
					if (!lone && !isalnum((unsigned char)line[k]) && line[k] != '-' && line[k] != '_') ok = false, badLine = line;
				}
				if (c == 0 || (c != std::string::npos && line.find(": ", c + 2) != std::string::npos)) ok = false, badLine = line;
				if (line == "Connection: " || (line.compare(0, 12, "Connection: ") == 0 && line != "Connection: close")) ok = false, badLine = line;
				p = e + 2;
			}
			rec("every header line has a name and a value", ok ? PROVEN : VIOLATED, badLine);
		}
		auto header = [&](const std::string &h, size_t &pos) {
			std::string l = "\r\n" + h + ": ";
			pos = text.find(l);
			if (pos == std::string::npos) return false;
			pos += l.size();
			return true;
		};
		auto numAt = [&](size_t pos, Lin &v, size_t &end) {
			if (pos < text.size() && text[pos] == '\x01') {
				size_t k = 0;
				for (size_t i = 0; i < pos; i++) if (text[i] == '\x01') k++;
				v = nums[k];
				end = pos + 1;
				return true;
			}
			size_t e = pos;
			I x = 0;
			while (e < text.size() && isdigit((unsigned char)text[e])) { x = x * 10 + (text[e] - '0'); e++; }
			if (e == pos) return false;
			// digits followed by a number piece would be one number
			if (e < text.size() && text[e] == '\x01') return false;
			v = Lin::cst(x);
			end = e;
			return true;
		};
		if (status.isC() && status.c == 206 && boff.isC() && boff.c == -1) { // any part will do
			size_t p0;
			Lin s0;
			size_t e1;
			if (header("Content-Range", p0) && text.compare(p0, 6, "bytes ") == 0 && numAt(p0 + 6, s0, e1)) boff = s0;
			size_t bt = bodyTile;
			blen = q.st.norm(a[0].e + n - (bt < t.size() ? t[bt].lo : q.st.norm(a[0].e + n)));
		}
		auto same = [&](const Lin &x, const Lin &y, const char *msg) {
			if (q.st.entailsEq(x - y)) { rec(msg, PROVEN); return; }
			if (q.st.entailsNe(x - y)) { rec(msg, VIOLATED, q.st.norm(x).str() + " instead of " + q.st.norm(y).str()); return; }
			Lin df = q.st.norm(x - y);
			bool ex1 = false, ex2 = false;
			int r1 = refute(q, {df - Lin(1)}, nullptr, &ex1), r2 = refute(q, {-df - Lin(1)}, nullptr, &ex2);
			if (r1 == 0 && r2 == 0) { rec(msg, PROVEN); return; }
			rec(msg, (r1 == 1 && ex1) || (r2 == 1 && ex2) ? VIOLATED : UNKNOWN, q.st.norm(x).str() + " instead of " + q.st.norm(y).str());
		};
		size_t pos;
		Lin v;
		size_t e;
		Lin bodyStart = bodyTile < t.size() ? t[bodyTile].lo : q.st.norm(a[0].e + n);
		Lin actual = q.st.norm(a[0].e + n - bodyStart);
		if (header("Content-Length", pos)) {
			size_t l2 = text.find("\r\nContent-Length: ", pos);
			if (!numAt(pos, v, e) || text.compare(e, 2, "\r\n") != 0) rec("Content-Length is a decimal number", VIOLATED, text);
			else {
				rec("Content-Length is a decimal number", PROVEN);
				same(v, actual, "Content-Length equals the number of body bytes sent");
			}
			if (l2 != std::string::npos) rec("one Content-Length only", VIOLATED, text); else rec("one Content-Length only", PROVEN);
		} else if (!(status.isC() && (status.c == 304 || status.c == 204))) rec("the response announces its length", VIOLATED, text);
		same(actual, blen, "the body is sent whole");
		if (header("Content-Type", pos)) {
			if (text.compare(pos, 2, "\r\n") == 0) rec("Content-Type has a value", VIOLATED, text); else rec("Content-Type has a value", PROVEN);
		}
		if (status.isC() && status.c == 206) {
			Lin s0, e0, t0_;
			size_t e1, e2, e3;
			if (!header("Content-Range", pos) || text.compare(pos, 6, "bytes ") != 0 || !numAt(pos + 6, s0, e1) || text[e1] != '-' || !numAt(e1 + 1, e0, e2) || text[e2] != '/' || !numAt(e2 + 1, t0_, e3) || text.compare(e3, 2, "\r\n") != 0) rec("a partial response carries a well-formed Content-Range", VIOLATED, text);
			else {
				rec("a partial response carries a well-formed Content-Range", PROVEN);
				same(e0 - s0 + Lin(1), actual, "Content-Range describes the bytes sent");
				same(t0_, total, "Content-Range names the full size");
				same(s0, boff, "Content-Range starts at the first byte sent");
				if (q.st.entailsGe(t0_ - Lin(1) - e0)) rec("Content-Range ends inside the file", PROVEN);
				else rec("Content-Range ends inside the file", q.st.entailsGe(e0 - t0_) ? VIOLATED : UNKNOWN);
			}
		} else if (header("Content-Range", pos)) rec("only a partial response carries Content-Range", VIOLATED, text);
		// the body
		Lin cur = boff;
		for (size_t i = bodyTile; i < t.size(); i++) {
			auto &g = t[i];
			Lin len = q.st.norm(g.hi - g.lo);
			if (g.k == S_UNINIT) { rec("body bytes are the bytes the handler produced", VIOLATED, "never-written bytes"); break; }
			if (g.k == S_COPY && a[3].k == Val::Ptr && g.src == a[3].obj) {
				Lin off = q.st.norm(g.e - a[3].e);
				if (q.st.entailsEq(off - cur)) rec("body bytes are the bytes the handler produced", PROVEN);
				else rec("body bytes are the bytes the handler produced", q.st.entailsNe(off - cur) ? VIOLATED : UNKNOWN, "copied from offset " + off.str() + " instead of " + q.st.norm(cur).str());
			} else if (g.k == S_COPY || g.k == S_LIT || g.k == S_VAL || g.k == S_AMB || g.k == S_ARB) {
				// text of another origin
				std::vector<Seg> want;
				bool okw = a[3].k == Val::Ptr && q.heap.count(a[3].obj) && q.obj(a[3].obj).alive && tiles(q, a[3].obj, q.st.norm(a[3].e + cur), q.st.norm(a[3].e + cur + len), want);
				if (okw && want.size() == 1 && want[0].k == S_LIT && g.k == S_LIT) rec("body bytes are the bytes the handler produced", want[0].lit == g.lit ? PROVEN : VIOLATED, g.lit);
				else rec("body bytes are the bytes the handler produced", UNKNOWN);
			} else rec("body bytes are the bytes the handler produced", g.k == S_DEC || g.k == S_ZERO ? VIOLATED : UNKNOWN);
			cur = cur + len;
		}
		fin();
	}
}

// __v_http_line(p, n, name, namelen, value, valuelen, id): the head has a line made of just these two texts
void Eng::httpLine(State &s, const std::vector<Val> &a, SVals &out) {
	std::string id = idOf(*this, s, a[6]);
	for (auto &r : ints(*this, s, a, {{1, 64, true}, {3, 64, true}, {5, 64, true}})) {
		State &q = r.first;
		Lin n = q.st.norm(r.second[0]), nl = q.st.norm(r.second[1]), vl = q.st.norm(r.second[2]);
		const char *msg = "a header that was added is sent with its value";
		std::vector<Seg> t;
		if (!accessOk(q, a[0], n, false, "response")) continue;
		if (a[2].k != Val::Ptr || a[4].k != Val::Ptr || !tiles(q, a[0].obj, q.st.norm(a[0].e), q.st.norm(a[0].e + n), t)) {
			record(q, id, "response", msg, UNKNOWN, "");
			out.push_back({q, Val()});
			continue;
		}
		std::string text;
		std::vector<size_t> from;
		for (size_t i = 0; i < t.size(); i++) {
			std::string piece = t[i].k == S_LIT ? t[i].lit : std::string(1, '\x02');
			text += piece;
			from.insert(from.end(), piece.size(), i);
		}
		auto isCopy = [&](size_t i, const Val &v, const Lin &len) {
			return t[i].k == S_COPY && t[i].src == v.obj && q.st.entailsEq(t[i].e - v.e) && q.st.entailsEq(t[i].hi - t[i].lo - len);
		};
		bool found = false, seen = false, none = q.st.entailsEq(vl), other = false;
		size_t end = text.find("\r\n\r\n");
		for (size_t k = 0; k < text.size() && k < end; k++) {
			if (text[k] != '\x02') continue;
			auto &g = t[from[k]];
			if (g.k != S_COPY && g.k != S_DEC) other = true;
			if (g.k == S_COPY && g.src == a[2].obj) seen = true;
			if (!isCopy(from[k], a[2], nl) || k < 2 || text.compare(k - 2, 2, "\r\n") != 0) continue;
			if (none) found = found || text.compare(k + 1, 4, ": \r\n") == 0;
			else found = found || (text.compare(k + 1, 5, ": \x02\r\n") == 0 && isCopy(from[k + 3], a[4], vl));
		}
		record(q, id, "response", msg, found ? PROVEN : seen || !other ? VIOLATED : UNKNOWN, text.substr(0, 200));
		out.push_back({q, Val()});
	}
}

void Eng::run(const std::string &entry) {
	t0 = time(nullptr);
	const Function *F = M->getFunction(entry);
	if (!F || F->isDeclaration()) { incomplete("entry " + entry + " not found"); return; }
	State s;
	Frame f;
	f.F = F;
	s.fr.push_back(f);
	SVals r;
	funcsAnalysed.insert(entry);
	// globals that can change exist from the start
	for (auto &g : M->globals()) if (!g.isConstant() && g.hasInitializer() && !g.getName().starts_with("llvm.")) globalObj(s, &g);
	execFunction(std::move(s), r);
	States ss;
	for (auto &x : r) ss.push_back(std::move(x.first));
	for (auto &x : ss) { gc(x, true); }
	reached["end|" + entry] += (long)ss.size();
}
