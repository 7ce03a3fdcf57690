#pragma once
#include "state.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
using namespace llvm;

enum Verdict { PROVEN, VIOLATED, UNKNOWN };
struct Oblig {
	std::string cat, kind, site, msg;
	long proven = 0, unknown = 0, violated = 0;
	std::string detail, udetail;
};

struct FnInfo {
	std::unique_ptr<DominatorTree> DT;
	std::unique_ptr<LoopInfo> LI;
	std::map<const BasicBlock *, std::set<const Value *>> liveIn;
	std::map<const BasicBlock *, int> rpo;
	std::map<const Value *, int> num;
	std::map<const Instruction *, std::set<const Value *>> liveAfterCache;
};

struct Shape { std::string skel; std::vector<Lin> slots; std::vector<int> slotBits; std::vector<size_t> at; };

class Eng {
public:
	Module *M = nullptr;
	const DataLayout *DL = nullptr;
	std::map<std::string, Oblig> obligs;
	std::map<std::string, long> reached;
	std::map<std::string, std::string> reachMsg;
	std::map<std::string, std::string> catMap; // "mem","life","uninit","assert"... -> property
	std::set<std::string> realFns; // interpreted although a model exists
	std::set<std::string> funcsAnalysed, unmodelled;
	std::map<std::string, long long> params; // initial values of driver variables
	std::set<std::string> paramsUsed;
	long long allocLimit = 0;
	size_t mergeCap = 150;
	bool keepRead = false; // states that have read different bytes are kept apart
	long unrollMax = 60; // a loop that may end in each of so many rounds is generalised
	int guardDepth = 3; // rounds of a walk that forks before it is generalised
	int foldAt = 12; // how many shapes a loop may have before what it puts together is only known to be set
	void allocSize(State &s, const Lin &n);
	std::map<std::string, std::string> contracts;
	std::vector<std::string> incompleteNotes;
	long steps = 0, merges = 0, joins = 0, loopsGeneral = 0, branches = 0, statesMax = 0, calls = 0;
	long stops = 0; // paths ended on purpose (end of the model, exit)
	long stepLimit = 60000000;
	double timeLimit = 600;
	int verbose = 0;
	std::set<std::string> flags;

	void run(const std::string &entry);

	// --- obligations
	std::string site(const State &s);
	std::string locOf(const Instruction *I);
	void record(State &s, const std::string &cat, const std::string &kind, const std::string &msg, Verdict v, const std::string &extra = "");
	bool must(State &s, const std::vector<Lin> &ps, const std::string &cat, const std::string &kind, const std::string &msg);
	void definite(State &s, const std::string &cat, const std::string &kind, const std::string &msg);
	void incomplete(const std::string &why);
	void tightenDl(State &s);
	int refute(State &s, const std::vector<Lin> &cs, std::map<int, I> *m = nullptr, bool *exact = nullptr); // 0 impossible, 1 model, -1 unknown
	bool exactSlice(State &s, const std::set<int> &slice);

	// --- conditions
	void assume(State s, Cnd c, States &out);
	void branch(State &s, Cnd c, States &t, States &f);
	bool condLossy(State &s, Cnd c);
	std::vector<std::pair<State, Lin>> resolve(State &s, const Lin &e, unsigned w, bool sgn);
	int fresh(State &s, const std::string &n, bool lossy);
	int freshR(State &s, const std::string &n, bool lossy, I lo, I hi);

	// --- memory
	int newObj(State &s, ObjK k, const Lin &size, SegK fill, const std::string &site);
	int globalObj(State &s, const GlobalVariable *g);
	void initConst(State &s, int id, long off, const Constant *c);
	bool accessOk(State &s, const Val &p, const Lin &size, bool write, const char *what);
	void load(State &s, const Val &p, Type *ty, int signHint, SVals &out);
	void readByte(State &s, int obj, const Lin &off, int signHint, SVals &out);
	void storeVal(State &s, const Val &p, unsigned size, Type *ty, const Val &v);
	void putScalar(State &s, int obj, const Lin &off, unsigned size, const Val &v);
	void writeRange(State &s, int obj, Seg seg);           // replaces content of [lo,hi)
	void killRange(State &s, Obj &o, const Lin &lo, const Lin &hi);
	void runNonzero(State &s, Obj &o, const Lin &lo, const Lin &hi);
	void runZero(State &s, Obj &o, const Lin &at);
	void runUnknown(State &s, Obj &o, const Lin &lo, const Lin &hi);
	bool tiles(State &s, int obj, const Lin &lo, const Lin &hi, std::vector<Seg> &out);
	int initStatus(State &s, int obj, const Lin &lo, const Lin &hi, std::string *why = nullptr); // 1 init, 0 uninit somewhere, -1 unknown
	void copyRange(State &s, int d, const Lin &dO, int src, const Lin &sO, const Lin &n);
	void strLen(State &s, const Val &p, const Lin *maxLen, const char *who, std::vector<std::pair<State, Lin>> &out);
	int sameBytes(State &s, const Val &p, const Val &w, const Lin &n, std::string *why = nullptr); // 1 the bytes at p are those of w, 0 not, -1 unknown
	bool literal(State &s, const Val &p, std::string &out); // constant C string
	void gc(State &s, bool report);
	void killObj(State &s, int id, const std::string &at);

	// --- interpretation
	std::map<const Function *, std::unique_ptr<FnInfo>> info;
	FnInfo &fi(const Function *F);
	std::set<const Value *> liveAfter(const Instruction *I);
	Val eval(State &s, const Value *v);
	Val constVal(State &s, const Constant *c);
	void callFunction(State s, const Function *F, const std::vector<Val> &args, const Instruction *at, SVals &out);
	void execFunction(State s, SVals &rets);
	typedef std::map<const BasicBlock *, States> Edge;
	void runRegion(const Function *F, const Loop *L, const BasicBlock *entry, States init, Edge &exits, States &backs, SVals &rets);
	void runLoop(const Function *F, const Loop *L, States init, Edge &exits, SVals &rets);
	void execBlock(const BasicBlock *B, State s, std::vector<std::pair<const BasicBlock *, State>> &succ, SVals &rets);
	void step(State &s, const Instruction *I, States &out);
	void enterBlock(State &s, const BasicBlock *from, const BasicBlock *to);
	bool builtin(State &s, const std::string &name, const CallBase *CB, const std::vector<Val> &a, SVals &out);
	Val declen(State &s, const Lin &e, std::vector<std::pair<State, Lin>> &out);
	void doPrintf(State &s, const Val *dst, const Lin *dsz, const std::string &fmt, const std::vector<Val> &a, size_t first, bool writeIt, SVals &out, const char *who);
	void httpCheck(State &s, const std::vector<Val> &a, SVals &out);
	void httpLine(State &s, const std::vector<Val> &a, SVals &out);
	bool constDecided = false;
	int anyConstGuard = 0;
	const Loop *curLoop = nullptr;

	// --- canonical form and merging
	Shape shape(State &s, std::vector<int> *order = nullptr);
	void mergeStates(States &ss, size_t cap, const char *where);
	bool subsumes(State &big, const Shape &bs, State &small, const Shape &ss);
	bool tryJoin(State &a, const Shape &as, State &b, const Shape &bs, bool force, State &out);
	void setSlots(State &s, const std::vector<Lin> &slots);
	void foldLoop(State &base, State &b);
	void foldFrozen(State &base, State &b);
	void foldStrong(State &base, State &b);
	void prune(State &s);
	std::multiset<int> pinned; // counters of loops being generalised
	void liveSyms(State &s, std::set<int> &out);
	time_t t0 = 0;
};
unsigned bitsOf(Type *t, const DataLayout &DL);
