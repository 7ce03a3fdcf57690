// analyse one entry point of a linked module and print the obligations as JSON
#include "eng.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstring>
#include <ctime>

static std::string js(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
int main(int argc, char **argv) {
	std::string file, entry;
	Eng E;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		auto kv = [&](std::map<std::string, std::string> &m) { std::string v = val(); size_t p = v.find('='); if (p != std::string::npos) m[v.substr(0, p)] = v.substr(p + 1); };
		if (a == "--entry") entry = val();
		else if (a == "--contract") kv(E.contracts);
		else if (a == "--cat") kv(E.catMap);
		else if (a == "--set") { std::string v = val(); size_t p = v.find('='); if (p != std::string::npos) E.params[v.substr(0, p)] = atoll(v.c_str() + p + 1); }
		else if (a == "--real") E.realFns.insert(val());
		else if (a == "--alloc-limit") E.allocLimit = atoll(val().c_str());
		else if (a == "--cap") E.mergeCap = atol(val().c_str());
		else if (a == "--keep-read") E.keepRead = true;
		else if (a == "--unroll") E.unrollMax = atol(val().c_str());
		else if (a == "--guard") E.guardDepth = atoi(val().c_str());
		else if (a == "--fold") E.foldAt = atoi(val().c_str());
		else if (a == "--steps") E.stepLimit = atol(val().c_str());
		else if (a == "--time") E.timeLimit = atof(val().c_str());
		else if (a == "-v") E.verbose++;
		else file = a;
	}
	LLVMContext C;
	SMDiagnostic D;
	auto M = parseIRFile(file, D, C);
	if (!M) { D.print("eng", errs()); return 2; }
	E.M = M.get();
	E.DL = &M->getDataLayout();
	time_t t = time(nullptr);
	E.run(entry);
	for (auto &p : E.params) if (!E.paramsUsed.count(p.first)) E.incomplete("no variable " + p.first);
	printf("{\"entry\":%s,\"seconds\":%ld,\"steps\":%ld,\"calls\":%ld,\"branches\":%ld,\"merges\":%ld,\"joins\":%ld,\"loops\":%ld,\"entailments\":%ld,\"gaveup\":%ld,\n", js(entry).c_str(), (long)(time(nullptr) - t), E.steps, E.calls, E.branches, E.merges, E.joins, E.loopsGeneral, STATS.entail, STATS.fmGaveUp);
	printf("\"functions\":[");
	bool f = true;
	for (auto &x : E.funcsAnalysed) { printf("%s%s", f ? "" : ",", js(x).c_str()); f = false; }
	printf("],\n\"unmodelled\":[");
	f = true;
	for (auto &x : E.unmodelled) { printf("%s%s", f ? "" : ",", js(x).c_str()); f = false; }
	printf("],\n\"incomplete\":[");
	f = true;
	for (auto &x : E.incompleteNotes) { printf("%s%s", f ? "" : ",", js(x).c_str()); f = false; }
	printf("],\n\"reached\":{");
	f = true;
	for (auto &x : E.reached) { printf("%s%s:%ld", f ? "" : ",", js(x.first).c_str(), x.second); f = false; }
	printf("},\n\"obligations\":[\n");
	f = true;
	for (auto &x : E.obligs) {
		auto &o = x.second;
		printf("%s{\"property\":%s,\"kind\":%s,\"site\":%s,\"msg\":%s,\"proven\":%ld,\"unknown\":%ld,\"violated\":%ld,\"detail\":%s,\"udetail\":%s}", f ? "" : ",\n", js(o.cat).c_str(), js(o.kind).c_str(), js(o.site).c_str(), js(o.msg).c_str(), o.proven, o.unknown, o.violated, js(o.detail).c_str(), js(o.udetail).c_str());
		f = false;
	}
	printf("]}\n");
	return 0;
}
