// symex: symbolic execution of linked LLVM bitcode.
//   symex [options] -entry FN -o OUT.json a.bc b.bc ...
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <csignal>
#include <fstream>
#include <sstream>
using namespace llvm;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string js(const std::string &s) {
  std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}
int main(int argc, char **argv) {
  std::vector<std::string> files; std::string entry = "harness", out = "-"; bool noopt = false; std::string dumpll; bool verbose = false;
  double maxTime = 600; uint64_t maxSteps = 20000000000ull, pathSteps = 100000000ull; unsigned qt = 60000; int fp = 0; unsigned maxConc = 64, roundSplit = 0; int preempt = 2; bool races = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-entry") entry = nx(); else if (a == "-o") out = nx(); else if (a == "-noopt") noopt = true; else if (a == "-dump") dumpll = nx();
    else if (a == "-max-time") maxTime = atof(nx().c_str()); else if (a == "-max-steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-path-steps") pathSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "-query-timeout") qt = atoi(nx().c_str()) ; else if (a == "-fp") { std::string m = nx(); fp = m == "uf" ? 1 : m == "real" ? 2 : 0; }
    else if (a == "-split-round") roundSplit = atoi(nx().c_str()); else if (a == "-max-conc") maxConc = atoi(nx().c_str()); else if (a == "-preempt") preempt = atoi(nx().c_str()); else if (a == "-races") races = true; else if (a == "-v") verbose = true; else if (a == "-dump-queries") g_dumpDir = nx();
    else files.push_back(a);
  }
  signal(SIGTERM, [](int) { g_stopRequested = 1; });
  double t0 = nowS();
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
  for (auto &f : files) {
    auto m = parseIRFile(f, err, ctx);
    if (!m) { err.print("symex", errs()); return 3; }
    for (auto &F : *m) if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::LinkOnceODRLinkage);
    for (auto &G : m->globals()) if (G.hasAvailableExternallyLinkage()) G.setLinkage(GlobalValue::LinkOnceODRLinkage);
    for (auto &F : *m) { F.removeFnAttr(Attribute::OptimizeNone); if (F.hasFnAttribute("sym_keep")) F.addFnAttr(Attribute::NoInline); }
    if (!M) M = std::move(m);
    else { if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 3; } }
  }
  Function *E0 = M->getFunction(entry);
  if (!E0) { errs() << "no entry " << entry << "\n"; return 3; }
  // internalize everything but the entry and helpers called by the engine
  for (auto &F : *M) if (!F.isDeclaration() && &F != E0 && F.getName() != "sym_rt_throw_bad_alloc") { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); }
  for (auto &G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); }
  for (auto &A : M->aliases()) A.setLinkage(GlobalValue::InternalLinkage);
  std::set<std::string> keep{"llvm.global_ctors"};
  // drop debug intrinsics: only line tables are used
  if (!noopt) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "globaldce,always-inline,function(sroa,early-cse,instcombine<max-iterations=1;no-verify-fixpoint>,simplifycfg),cgscc(inline,function(sroa,early-cse,instcombine<max-iterations=1;no-verify-fixpoint>,simplifycfg)),globaldce")) { errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
  } else {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; (void)!!PB.parsePassPipeline(MPM, "globaldce"); MPM.run(*M, MAM);
  }
  if (!dumpll.empty()) { std::error_code ec; raw_fd_ostream o(dumpll, ec); M->print(o, nullptr); }
  double t1 = nowS();
  g_fpMode = fp; g_queryTimeoutMs = qt; solverInit();
  Executor X(M.get());
  X.limitTime = maxTime; X.limitSteps = maxSteps; X.pathSteps = pathSteps; X.maxConc = maxConc; X.roundSplit = roundSplit; X.preemptBound = preempt; X.races = races;
  X.run(M->getFunction(entry));
  double t2 = nowS();
  // functions of the repository that were symbolically executed, from debug info
  std::set<std::string> fnsCov; uint64_t decoded = 0, executed = 0;
  for (auto &p : X.fns) for (auto &d : p.second->code) { decoded++; if (!d.executed) continue; executed++;
    const DILocation *L = d.I->getDebugLoc().get();
    for (; L; L = L->getInlinedAt()) { auto *SP = L->getScope()->getSubprogram(); if (!SP) continue; std::string f = L->getFilename().str(); std::string dir = L->getDirectory().str();
      if (f.empty() || f[0] != '/') f = dir + "/" + f;
      if (f.find("/repo") == 0 || f.find("/repo/") != std::string::npos) { size_t q = f.find("/repo/"); fnsCov.insert(f.substr(q + 6) + ":" + SP->getName().str()); } } }
  std::ostringstream o;
  o << "{\n \"entry\": " << js(entry) << ",\n \"paths\": " << X.paths << ", \"forks\": " << X.forks << ", \"instructions\": " << X.instrs << ", \"max_path_steps\": " << X.maxStepsPath
    << ", \"asserts_checked\": " << X.assertQ << ", \"mem_checks\": " << X.memChecks << ", \"threads\": " << X.threadsMax << ", \"sched_points\": " << X.schedPoints << ", \"race_checks\": " << X.raceChecks
    << ",\n \"queries\": " << g_ss.queries << ", \"smt_queries\": " << g_ss.smt << ", \"cache_hits\": " << g_ss.cacheHits << ", \"model_hits\": " << g_ss.modelHits << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown
    << ", \"solver_s\": " << g_ss.seconds << ", \"max_query_s\": " << g_ss.maxSeconds << ",\n \"load_s\": " << t1 - t0 << ", \"exec_s\": " << t2 - t1 << ", \"ir_executed\": " << executed << ", \"ir_decoded\": " << decoded << ",\n";
  o << " \"incomplete\": {"; bool first = true; for (auto &k : X.incomplete) { o << (first ? "" : ", ") << js(k.first) << ": " << k.second; first = false; }
  o << "},\n \"reached\": {"; first = true; for (auto &k : X.reached) { o << (first ? "" : ", ") << js(k.first) << ": " << k.second; first = false; }
  o << "},\n \"functions\": ["; first = true; for (auto &f : fnsCov) { o << (first ? "" : ", ") << js(f); first = false; }
  auto dumpV = [&](std::vector<Violation> &vs) { bool first = true;
    for (auto &v : vs) { o << (first ? "" : ",") << "\n  {\"kind\": " << js(v.kind) << ", \"label\": " << js(v.label) << ", \"where\": " << js(v.where) << ", \"inputs\": ["; bool f2 = true;
      for (auto &in : v.inputs) { o << (f2 ? "" : ", ") << "[" << js(in.first) << ", " << in.second.first << ", \"" << in.second.second << "\"]"; f2 = false; }
      o << "], \"schedule\": ["; for (size_t i = 0; i < v.schedule.size(); i++) o << (i ? "," : "") << v.schedule[i];
      o << "]}"; first = false; } };
  o << "],\n \"completed\": " << X.completed << ",\n \"violations\": ["; dumpV(X.violations);
  o << "],\n \"samples\": ["; dumpV(X.samples);
  o << "]\n}\n";
  if (out == "-") fputs(o.str().c_str(), stdout); else { std::ofstream f(out); f << o.str(); }
  if (verbose) { std::vector<std::pair<uint64_t, const Instruction *>> v; for (auto &p : X.forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 12; i++) { errs() << "fork " << v[i].first << " "; if (auto *L = v[i].second->getDebugLoc().get()) { for (; L; L = L->getInlinedAt()) errs() << L->getFilename().rsplit('/').second << ":" << L->getLine() << " "; } errs() << v[i].second->getFunction()->getName().substr(0, 60) << "\n"; } }
  _exit(0);
}
