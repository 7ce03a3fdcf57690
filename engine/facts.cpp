// Facts about a linked module, as JSON: call graph, thread roots, what every write may reach (inclusion-based points-to),
// locks held at each access, and the texts every formatting call may use.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static std::string js(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static Module *M;
static std::string loc(const Instruction *I) {
	const DebugLoc &d = I->getDebugLoc();
	std::string f = "?";
	unsigned l = 0;
	if (d) { f = d->getFilename().str(); l = d.getLine(); }
	else if (auto *sp = I->getFunction()->getSubprogram()) { f = sp->getFilename().str(); l = sp->getLine(); }
	size_t p = f.rfind('/');
	if (p != std::string::npos) f = f.substr(p + 1);
	return f + ":" + std::to_string(l);
}
static std::string nm(const Value *v) { return v->getName().str(); }
static const std::set<std::string> ALLOC{"malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray", "aligned_alloc"};
// external functions that give back (a place in) their first argument
static const std::set<std::string> SAME{"strcpy", "strncpy", "strcat", "strncat", "stpcpy", "memcpy", "memmove", "memset", "strchr", "strrchr", "strstr", "memchr", "memmem", "strchrnul", "strpbrk", "strcasestr", "fgets", "strtok"};
// external functions and the arguments they write through
static const std::map<std::string, std::vector<int>> WRITES{
	{"strcpy", {0}}, {"strncpy", {0}}, {"strcat", {0}}, {"strncat", {0}}, {"stpcpy", {0}}, {"memcpy", {0}}, {"memmove", {0}}, {"memset", {0}}, {"bzero", {0}},
	{"sprintf", {0}}, {"snprintf", {0}}, {"vsprintf", {0}}, {"vsnprintf", {0}}, {"strtol", {1}}, {"strtoul", {1}}, {"strtoll", {1}}, {"strtoull", {1}}, {"strtod", {1}},
	{"recv", {1}}, {"read", {1}}, {"fread", {0}}, {"fgets", {0}}, {"recvfrom", {1, 4, 5}}, {"pread", {1}}, {"getline", {0, 1}}, {"stat", {1}}, {"fstat", {1}}, {"lstat", {1}},
	{"regcomp", {0}}, {"regexec", {3}}, {"regfree", {0}}, {"regerror", {2}}, {"strftime", {0}}, {"localtime_r", {1}}, {"gmtime_r", {1}}, {"gettimeofday", {0}}, {"clock_gettime", {1}}, {"time", {0}},
	{"mq_receive", {1, 3}}, {"mq_timedreceive", {1, 3}}, {"mq_getattr", {1}}, {"getaddrinfo", {3}}, {"getpeername", {1, 2}}, {"getsockname", {1, 2}}, {"accept", {1, 2}}, {"strtok_r", {0, 2}}, {"strsep", {0}},
	{"inet_ntop", {2}}, {"sscanf", {2, 3, 4, 5, 6, 7}}, {"qsort", {0}}, {"ioctl", {2}}, {"getsockopt", {3, 4}}, {"pipe", {0}}, {"sigaction", {2}}};
// ---------------------------------------------------------------- points-to
struct Node { std::set<int> pts; std::set<int> copyTo; std::vector<int> loads, stores; };
static std::deque<Node> N;
static std::map<const Value *, int> valNode;
struct ObjInfo { const Value *v; std::string name; char kind; }; // g global, f function, a alloca, h heap, x outside
static std::vector<ObjInfo> objs;
static std::vector<int> objContent;
static std::map<const Value *, int> objOf;
static int EXT;
static int newNode() { N.emplace_back(); return N.size() - 1; }
static int obj(const Value *v, char kind, const std::string &n) {
	auto it = objOf.find(v);
	if (v && it != objOf.end()) return it->second;
	objs.push_back({v, n, kind});
	objContent.push_back(newNode());
	int id = objs.size() - 1;
	if (v) objOf[v] = id;
	return id;
}
static std::vector<int> work;
static void addPts(int n, int o) { if (N[n].pts.insert(o).second) work.push_back(n); }
static void addCopy(int a, int b) { if (a != b && N[a].copyTo.insert(b).second && !N[a].pts.empty()) work.push_back(a); }
static int node(const Value *v);
static int constNode(const Constant *c) {
	int n = newNode();
	valNode[c] = n;
	if (auto *g = dyn_cast<GlobalVariable>(c)) addPts(n, obj(g, 'g', nm(g)));
	else if (auto *f = dyn_cast<Function>(c)) addPts(n, obj(f, 'f', nm(f)));
	else if (auto *a = dyn_cast<GlobalAlias>(c)) addCopy(node(a->getAliasee()), n);
	else for (auto &op : c->operands()) if (isa<Constant>(op)) addCopy(node(op.get()), n);
	return n;
}
static int node(const Value *v) {
	auto it = valNode.find(v);
	if (it != valNode.end()) return it->second;
	if (auto *c = dyn_cast<Constant>(v)) return constNode(c);
	int n = newNode();
	valNode[v] = n;
	return n;
}
static std::map<const Function *, int> retNode;
static int ret(const Function *f) { auto it = retNode.find(f); if (it != retNode.end()) return it->second; return retNode[f] = newNode(); }
struct ICall { const CallBase *cb; std::set<const Function *> done; };
static std::vector<ICall> icalls;
static std::map<int, std::vector<size_t>> icallAt; // node of the callee -> calls
static std::map<const CallBase *, std::set<const Function *>> targets;
static std::map<const Function *, std::vector<const CallBase *>> callers;
static std::set<const Function *> threadRoots;
static bool ptrLike(const Value *v) { Type *t = v->getType(); return t->isPointerTy() || t->isAggregateType() || (t->isIntegerTy() && t->getIntegerBitWidth() >= 64); }
static void bind(const CallBase *cb, const Function *f) {
	if (!targets[cb].insert(f).second) return;
	callers[f].push_back(cb);
	if (f->isDeclaration()) {
		std::string n = nm(f);
		if (n.rfind("llvm.mem", 0) == 0) return;
		if (ALLOC.count(n)) { addPts(node(cb), obj(cb, 'h', "heap at " + loc(cb))); if (n == "realloc") addCopy(node(cb->getArgOperand(0)), node(cb)); return; }
		if (SAME.count(n) && cb->arg_size()) addCopy(node(cb->getArgOperand(0)), node(cb));
		if (n == "pthread_create" && cb->arg_size() >= 4) {
			// the start routine gets the argument
			int fn = node(cb->getArgOperand(2));
			icalls.push_back({cb, {}});
			icallAt[fn].push_back(icalls.size() - 1);
			for (int o : N[fn].pts) if (objs[o].kind == 'f') { auto *r = cast<Function>(objs[o].v); threadRoots.insert(r); if (r->arg_size()) addCopy(node(cb->getArgOperand(3)), node(r->getArg(0))); }
			return;
		}
		if (ptrLike(cb)) addPts(node(cb), EXT);
		if (n.rfind("llvm.", 0) == 0) return;
		// callbacks handed to the outside are called with anything
		for (auto &a : cb->args()) if (auto *g = dyn_cast<Function>(a.get())) for (auto &p : g->args()) addPts(node(&p), EXT);
		return;
	}
	unsigned i = 0;
	for (auto &p : f->args()) { if (i < cb->arg_size() && ptrLike(&p)) addCopy(node(cb->getArgOperand(i)), node(&p)); i++; }
	if (ptrLike(cb)) addCopy(ret(f), node(cb));
}
static void constraints() {
	EXT = obj(nullptr, 'x', "memory of the caller");
	addPts(objContent[EXT], EXT);
	for (auto &g : M->globals()) {
		int o = obj(&g, 'g', nm(&g));
		if (g.hasInitializer()) addCopy(node(g.getInitializer()), objContent[o]);
		else addPts(objContent[o], EXT);
	}
	for (auto &f : *M) {
		if (f.isDeclaration()) continue;
		if (!f.hasLocalLinkage()) for (auto &a : f.args()) if (ptrLike(&a)) addPts(node(&a), EXT);
		for (auto &I : instructions(f)) {
			if (isa<AllocaInst>(I)) addPts(node(&I), obj(&I, 'a', "local of " + nm(&f)));
			else if (auto *L = dyn_cast<LoadInst>(&I)) { if (ptrLike(L)) { int p = node(L->getPointerOperand()), t = node(L); N[p].loads.push_back(t); work.push_back(p); } }
			else if (auto *S = dyn_cast<StoreInst>(&I)) { if (ptrLike(S->getValueOperand())) { int v = node(S->getValueOperand()); int p = node(S->getPointerOperand()); N[p].stores.push_back(v); work.push_back(p); } }
			else if (auto *mt = dyn_cast<MemTransferInst>(&I)) { // *d includes *s
				int t = newNode();
				int d = node(mt->getRawDest()), sN = node(mt->getRawSource());
				N[sN].loads.push_back(t);
				N[d].stores.push_back(t);
				work.push_back(sN);
				work.push_back(d);
			}
			else if (auto *cb = dyn_cast<CallBase>(&I)) {
				if (auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
					std::string n = nm(t);
					if ((n == "memcpy" || n == "memmove") && cb->arg_size() >= 2) { int x = newNode(); N[node(cb->getArgOperand(1))].loads.push_back(x); N[node(cb->getArgOperand(0))].stores.push_back(x); work.push_back(node(cb->getArgOperand(1))); work.push_back(node(cb->getArgOperand(0))); }
					bind(cb, t);
				} else {
					int fn = node(cb->getCalledOperand());
					icalls.push_back({cb, {}});
					icallAt[fn].push_back(icalls.size() - 1);
					work.push_back(fn);
				}
			}
			else if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue() && ptrLike(r->getReturnValue())) addCopy(node(r->getReturnValue()), ret(&f)); }
			else if (ptrLike(&I)) for (auto &op : I.operands()) if (!isa<BasicBlock>(op) && !isa<MetadataAsValue>(op)) addCopy(node(op.get()), node(&I));
		}
	}
}
static void solve() {
	while (!work.empty()) {
		int n = work.back();
		work.pop_back();
		std::set<int> p = N[n].pts;
		for (int l : std::vector<int>(N[n].loads)) for (int o : p) addCopy(objContent[o], l);
		for (int v : std::vector<int>(N[n].stores)) for (int o : p) if (o != EXT) addCopy(v, objContent[o]);
		for (int c : std::set<int>(N[n].copyTo)) for (int o : p) addPts(c, o);
		auto it = icallAt.find(n);
		if (it != icallAt.end()) for (size_t k : std::vector<size_t>(it->second)) {
			const CallBase *cb = icalls[k].cb;
			bool spawn = false;
			if (auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) spawn = nm(t) == "pthread_create";
			for (int o : p) {
				if (objs[o].kind == 'f') {
					auto *f = cast<Function>(objs[o].v);
					if (!icalls[k].done.insert(f).second) continue;
					if (spawn) { threadRoots.insert(f); if (f->arg_size()) addCopy(node(cb->getArgOperand(3)), node(f->getArg(0))); }
					else bind(cb, f);
				} else if (o == EXT && ptrLike(cb)) addPts(node(cb), EXT);
			}
		}
	}
}
// ---------------------------------------------------------------- locks that are surely held
typedef std::set<int> LockSet; // objects a lock lives in
struct Held { bool top = true; LockSet s; };
static std::map<const Function *, Held> entryHeld;
static std::map<const Instruction *, LockSet> heldAt;
static void meet(Held &a, const LockSet &b) { if (a.top) { a.top = false; a.s = b; return; } LockSet r; for (int x : a.s) if (b.count(x)) r.insert(x); a.s = r; }
static void locks(const Function &f) {
	Held e = entryHeld[&f];
	LockSet start = e.top ? LockSet() : e.s;
	std::map<const BasicBlock *, Held> in;
	in[&f.getEntryBlock()].top = false;
	in[&f.getEntryBlock()].s = start;
	bool ch = true;
	while (ch) {
		ch = false;
		for (auto &B : f) {
			if (in[&B].top) continue;
			LockSet cur = in[&B].s;
			for (auto &I : B) {
				heldAt[&I] = cur;
				auto *cb = dyn_cast<CallBase>(&I);
				auto *t = cb ? dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()) : nullptr;
				if (!t) continue;
				std::string n = nm(t);
				if ((n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock" || n == "pthread_spin_lock" || n == "mtx_lock") && cb->arg_size()) { auto &p = N[node(cb->getArgOperand(0))].pts; if (p.size() == 1) cur.insert(*p.begin()); }
				if ((n == "pthread_mutex_unlock" || n == "pthread_rwlock_unlock" || n == "pthread_spin_unlock" || n == "mtx_unlock") && cb->arg_size()) for (int o : N[node(cb->getArgOperand(0))].pts) cur.erase(o);
			}
			for (auto *S : successors(&B)) { Held o = in[S]; meet(in[S], cur); if (o.top != in[S].top || o.s != in[S].s) ch = true; }
		}
	}
}
// ---------------------------------------------------------------- texts
static void constStrings(const Constant *c, std::set<std::string> &out, bool &bad) {
	c = cast<Constant>(c->stripPointerCasts());
	if (auto *g = dyn_cast<GlobalVariable>(c)) {
		if (g->isConstant() && g->hasInitializer()) {
			if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) { if (d->isCString()) { out.insert(d->getAsCString().str()); return; } if (d->isString()) { out.insert(std::string(d->getAsString().data(), strnlen(d->getAsString().data(), d->getAsString().size()))); return; } }
			if (isa<ConstantAggregateZero>(g->getInitializer())) { out.insert(""); return; }
		}
		bad = true;
		return;
	}
	bad = true;
}
// the constants a path of indices may select
static void select(const Constant *c, const std::vector<const Value *> &idx, size_t at, std::vector<const Constant *> &out) {
	if (at == idx.size()) {
		out.push_back(c);
		return;
	}
	unsigned n = 0;
	if (auto *st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
	else if (auto *ar = dyn_cast<ArrayType>(c->getType())) n = ar->getNumElements();
	if (auto *k = dyn_cast<ConstantInt>(idx[at])) { if (k->getZExtValue() < n) select(c->getAggregateElement((unsigned)k->getZExtValue()), idx, at + 1, out); return; }
	for (unsigned i = 0; i < n; i++) select(c->getAggregateElement(i), idx, at + 1, out);
}
static void pointersIn(const Constant *c, std::vector<const Constant *> &out) {
	if (c->getType()->isPointerTy()) { out.push_back(c); return; }
	if (c->getType()->isAggregateType()) { unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n && i < 4096; i++) if (auto *e = c->getAggregateElement(i)) pointersIn(e, out); }
}
// every part of a constant that has the given type, and what the indices select there
static void atType(const Constant *c, const Type *t, const std::vector<const Value *> &idx, std::vector<const Constant *> &out) {
	if (c->getType() == t) { select(c, idx, 0, out); return; }
	if (!c->getType()->isAggregateType()) return;
	unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
	for (unsigned i = 0; i < n && i < 4096; i++) if (auto *e = c->getAggregateElement(i)) atType(e, t, idx, out);
}
static void texts(const Value *v, std::set<std::string> &out, std::set<int> &params, bool &bad, std::set<const Value *> &seen) {
	v = v->stripPointerCasts();
	if (!seen.insert(v).second) return;
	if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return;
	if (auto *c = dyn_cast<Constant>(v)) { constStrings(c, out, bad); return; }
	if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) texts(o.get(), out, params, bad, seen); return; }
	if (auto *s = dyn_cast<SelectInst>(v)) { texts(s->getTrueValue(), out, params, bad, seen); texts(s->getFalseValue(), out, params, bad, seen); return; }
	if (auto *a = dyn_cast<Argument>(v)) { params.insert(a->getArgNo()); return; }
	if (auto *cb = dyn_cast<CallBase>(v)) {
		auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
		if (t && !t->isDeclaration()) {
			for (auto &I : instructions(t)) if (auto *r = dyn_cast<ReturnInst>(&I)) { std::set<int> ps; texts(r->getReturnValue(), out, ps, bad, seen); for (int k : ps) if ((unsigned)k < cb->arg_size()) texts(cb->getArgOperand(k), out, params, bad, seen); }
			return;
		}
		bad = true;
		return;
	}
	if (auto *L = dyn_cast<LoadInst>(v)) { // an entry of a constant table
		const Value *p = L->getPointerOperand();
		std::vector<const Value *> idx;
		const Value *b = p;
		if (auto *g = dyn_cast<GEPOperator>(p)) { b = g->getPointerOperand(); auto it = g->idx_begin(); ++it; for (; it != g->idx_end(); ++it) idx.push_back(it->get()); }
		std::set<int> where = N[node(b)].pts;
		bool tables = !where.empty();
		for (int o : where) { auto *g = objs[o].kind == 'g' ? cast<GlobalVariable>(objs[o].v) : nullptr; if (!g || !g->isConstant() || !g->hasInitializer()) tables = false; }
		if (tables) {
			std::vector<const Constant *> cs;
			for (int o : where) {
				auto *init = cast<GlobalVariable>(objs[o].v)->getInitializer();
				size_t had = cs.size();
				if (auto *g = dyn_cast<GEPOperator>(p)) atType(init, g->getSourceElementType(), idx, cs);
				if (cs.size() == had) pointersIn(init, cs);
			}
			for (auto *c : cs) { if (!c->getType()->isPointerTy()) { bad = true; continue; } if (!isa<ConstantPointerNull>(c)) constStrings(c, out, bad); }
			return;
		}
		if (auto *al = dyn_cast<AllocaInst>(b)) { // a local variable: everything stored to it
			bool any = false;
			for (auto *u : al->users()) if (auto *S = dyn_cast<StoreInst>(u)) { if (S->getPointerOperand() == al) { texts(S->getValueOperand(), out, params, bad, seen); any = true; } else bad = true; }
			if (any) return;
		}
		bad = true;
		return;
	}
	const Value *b = v;
	if (auto *g = dyn_cast<GEPOperator>(v)) { if (g->hasAllZeroIndices()) b = g->getPointerOperand()->stripPointerCasts(); }
	if (auto *al = dyn_cast<AllocaInst>(b)) { // a local array: filled from a constant and not changed
		std::vector<const Value *> us{al};
		bool filled = false;
		for (size_t i = 0; i < us.size(); i++) for (auto *u : us[i]->users()) {
			if (isa<GetElementPtrInst>(u)) us.push_back(u);
			else if (auto *mc = dyn_cast<MemCpyInst>(u)) { if (mc->getRawDest() == us[i] && us[i] == al) { if (auto *c = dyn_cast<Constant>(mc->getRawSource())) { constStrings(c, out, bad); filled = true; } else bad = true; } else if (mc->getRawDest() == us[i]) bad = true; }
			else if (isa<StoreInst>(u)) bad = true;
			else if (isa<MemSetInst>(u)) bad = true;
			else if (auto *cb = dyn_cast<CallBase>(u)) {
				auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				auto w = t ? WRITES.find(nm(t)) : WRITES.end();
				if (w != WRITES.end()) for (int k : w->second) if ((unsigned)k < cb->arg_size() && cb->getArgOperand(k) == us[i]) bad = true;
			}
		}
		if (!filled) bad = true;
		return;
	}
	bad = true;
}
static std::string tyName(const Type *t) {
	if (t->isPointerTy()) return "ptr";
	if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if (t->isDoubleTy()) return "double";
	if (t->isX86_FP80Ty()) return "ldouble";
	return "other";
}
static std::string list(const std::set<std::string> &s) { std::string r = "["; for (auto &x : s) { if (r.size() > 1) r += ","; r += js(x); } return r + "]"; }
int main(int argc, char **argv) {
	LLVMContext C;
	SMDiagnostic err;
	auto mod = parseIRFile(argv[1], err, C);
	if (!mod) { fprintf(stderr, "cannot read %s\n", argv[1]); return 3; }
	M = mod.get();
	constraints();
	solve();
	// locks: what every caller holds, to a fixed point
	for (auto &f : *M) if (!f.isDeclaration() && (!f.hasLocalLinkage() || callers[&f].empty() || threadRoots.count(&f) || f.hasAddressTaken())) entryHeld[&f].top = false;
	for (int round = 0; round < 20; round++) {
		for (auto &f : *M) if (!f.isDeclaration()) locks(f);
		bool ch = false;
		for (auto &f : *M) if (!f.isDeclaration()) for (auto *cb : callers[&f]) {
			Held o = entryHeld[&f];
			if (heldAt.count(cb)) meet(entryHeld[&f], heldAt[cb]);
			if (o.top != entryHeld[&f].top || o.s != entryHeld[&f].s) ch = true;
		}
		if (!ch) break;
	}
	printf("{\"globals\":[");
	const char *sep = "";
	for (auto &g : M->globals()) {
		if (nm(&g).rfind("llvm.", 0) == 0) continue;
		SmallVector<DIGlobalVariableExpression *, 1> d;
		g.getDebugInfo(d);
		std::string f = d.empty() ? "" : d[0]->getVariable()->getFilename().str() + ":" + std::to_string(d[0]->getVariable()->getLine());
		size_t p = f.rfind('/');
		if (p != std::string::npos) f = f.substr(p + 1);
		printf("%s{\"name\":%s,\"constant\":%d,\"tls\":%d,\"own\":%d,\"at\":%s}", sep, js(nm(&g)).c_str(), g.isConstant(), g.isThreadLocal(), !g.isDeclaration(), js(f).c_str());
		sep = ",\n";
	}
	printf("],\n\"functions\":[");
	sep = "";
	for (auto &f : *M) {
		if (f.isDeclaration()) continue;
		auto *sp = f.getSubprogram();
		std::string file = sp ? sp->getFilename().str() : "";
		size_t p = file.rfind('/');
		if (p != std::string::npos) file = file.substr(p + 1);
		printf("%s{\"name\":%s,\"file\":%s,\"line\":%u,\"external\":%d,\"root\":%d,\"variadic\":%d,\"params\":%u,\n \"calls\":[", sep, js(nm(&f)).c_str(), js(file).c_str(), sp ? sp->getLine() : 0, !f.hasLocalLinkage(), threadRoots.count(&f) ? 1 : 0, f.isVarArg(), (unsigned)f.arg_size());
		sep = ",\n";
		const char *s2 = "";
		for (auto &I : instructions(f)) if (auto *cb = dyn_cast<CallBase>(&I)) {
			for (auto *t : targets[cb]) {
				std::string n = nm(t);
				if (n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.lifetime", 0) == 0) continue;
				std::string types;
				for (auto &a : cb->args()) types += (types.empty() ? "\"" : ",\"") + tyName(a->getType()) + "\"";
				printf("%s{\"to\":%s,\"at\":%s,\"types\":[%s]", s2, js(n).c_str(), js(loc(&I)).c_str(), types.c_str());
				// texts of pointer arguments that are constants (or parameters passed on)
				printf(",\"texts\":{");
				const char *s3 = "";
				for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i)->getType()->isPointerTy()) {
					std::set<std::string> o;
					std::set<int> ps;
					std::set<const Value *> seen;
					bool bad = false;
					texts(cb->getArgOperand(i), o, ps, bad, seen);
					std::string pl;
					for (int x : ps) pl += (pl.empty() ? "" : ",") + std::to_string(x);
					printf("%s\"%u\":{\"is\":%s,\"params\":[%s],\"other\":%d}", s3, i, list(o).c_str(), pl.c_str(), bad);
					s3 = ",";
				}
				printf("}}");
				s2 = ",\n  ";
			}
		}
		printf("],\n \"accesses\":[");
		s2 = "";
		for (auto &I : instructions(f)) {
			std::vector<std::pair<const Value *, const char *>> ps;
			bool atomic = false;
			if (auto *S = dyn_cast<StoreInst>(&I)) { ps.push_back({S->getPointerOperand(), "write"}); atomic = S->isAtomic(); }
			else if (auto *L = dyn_cast<LoadInst>(&I)) { ps.push_back({L->getPointerOperand(), "read"}); atomic = L->isAtomic(); }
			else if (auto *A = dyn_cast<AtomicRMWInst>(&I)) { ps.push_back({A->getPointerOperand(), "write"}); atomic = true; }
			else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { ps.push_back({X->getPointerOperand(), "write"}); atomic = true; }
			else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { ps.push_back({mi->getRawDest(), "write"}); if (auto *mt = dyn_cast<MemTransferInst>(&I)) ps.push_back({mt->getRawSource(), "read"}); }
			else if (auto *cb = dyn_cast<CallBase>(&I)) for (auto *t : targets[cb]) { auto w = WRITES.find(nm(t)); if (t->isDeclaration() && w != WRITES.end()) for (int k : w->second) if ((unsigned)k < cb->arg_size()) ps.push_back({cb->getArgOperand(k), "write"}); }
			for (auto &pr : ps) {
				std::set<std::string> gl, held;
				if (isa<ConstantPointerNull>(pr.first)) continue;
				for (int o : N[node(pr.first)].pts) if (objs[o].kind == 'g' && !cast<GlobalVariable>(objs[o].v)->isConstant()) gl.insert(objs[o].name);
				bool wr = !strcmp(pr.second, "write");
				if (gl.empty() && !wr) continue;
				for (int o : heldAt[&I]) held.insert(objs[o].name);
				if (gl.empty()) { printf("%s{\"at\":%s,\"kind\":\"write\"}", s2, js(loc(&I)).c_str()); s2 = ",\n  "; continue; }
				printf("%s{\"at\":%s,\"kind\":\"%s\",\"globals\":%s,\"atomic\":%d,\"held\":%s}", s2, js(loc(&I)).c_str(), pr.second, list(gl).c_str(), atomic, list(held).c_str());
				s2 = ",\n  ";
			}
		}
		printf("]}");
	}
	printf("]}\n");
}
