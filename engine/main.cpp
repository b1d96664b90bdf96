// Bounded symbolic executor: command line, linking, exploration control, report.
#include "engine.h"
#include <cerrno>
#include <csignal>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
using namespace llvm;

static bool keepName(StringRef n) {
  return n == "main" || n == "rt_thread_main" || n == "rt_once" || n == "rt_strlen" || n == "rt_strcmp" || n == "rt_memchr" || n == "rt_atol" || n == "rt_atoi" || n == "rt_strtol" || n == "rt_strtoul";
}
static std::unique_ptr<Module> linkAll(LLVMContext &ctx) {
  std::unique_ptr<Module> M;
  for (auto &f : opt.bcs) {
    SMDiagnostic e; auto m = parseIRFile(f, e, ctx);
    if (!m) { e.print("symex", errs()); exit(3); }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed: %s\n", f.c_str()); exit(3); }
  }
  for (Function &F : *M) {
    if (F.isIntrinsic()) continue;
    if (!F.isDeclaration() && isOverridden(F.getName().str())) { F.deleteBody(); F.setComdat(nullptr); }
    if (F.isDeclaration()) continue;
    F.addFnAttr(Attribute::SanitizeThread);     // keeps the optimiser from speculating memory accesses
  }
  return M;
}
static void optimise(Module &M) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.MergeFunctions = false;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  internalizeModule(M, [](const GlobalValue &G) { return keepName(G.getName()); });
  { ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(M, MAM); }
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
  MPM.run(M, MAM);
}
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32 || (u8)c > 126) o += ' '; else o += c; } return o; }
static void runFn(FnInfo *f) { pushFrame(cur, f, nullptr, 0, -1, 0, false); }

static std::vector<Function *> ctorsOf(Module &M) {
  std::vector<std::pair<u32, Function *>> v;
  if (auto *G = M.getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *A = dyn_cast<ConstantArray>(G->getInitializer()))
    for (auto &O : A->operands()) { auto *S = cast<ConstantStruct>(O); if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) v.push_back({ cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F }); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  std::vector<Function *> r; for (auto &x : v) r.push_back(x.second); return r;
}

int main(int argc, char **argv) {
  std::string linkOut;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
    if (a == "--out") opt.out = nx(); else if (a == "--workers") opt.workers = std::stoi(nx()); else if (a == "--time") opt.time = std::stod(nx());
    else if (a == "--preempt") opt.preempt = std::stoi(nx()); else if (a == "--early") opt.early = std::stoi(nx()); else if (a == "--tier") opt.tier = std::stoi(nx());
    else if (a == "--seed") opt.seed = std::stoul(nx()); else if (a == "--replay") { opt.replay = true; opt.replayFile = nx(); } else if (a == "--max-insts") opt.maxInsts = std::stoull(nx());
    else if (a == "--verbose") opt.verbose++; else if (a == "--qfbv") opt.qfbv = true; else if (a == "--stop-first") opt.stopFirst = std::stoi(nx()); else if (a == "--per-key") opt.perKey = std::stoi(nx());
    else if (a == "--link") linkOut = nx(); else if (a == "--dump") opt.dumpIR = nx(); else if (a == "--max-vis") opt.maxVis = std::stoull(nx()); else if (a == "--max-advance") opt.maxAdvance = std::stoi(nx()); else if (a == "--rlimit") opt.rlimit = std::stoul(nx()); else if (a == "--rlimit1") opt.rlimit1 = std::stoul(nx());
    else opt.bcs.push_back(a);
  }
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)shm, 0, sizeof(Shm));
  runtimeInit();
  LLVMContext ctx; std::unique_ptr<Module> M = linkAll(ctx);
  if (!linkOut.empty()) {
    optimise(*M); std::string e; raw_string_ostream es(e);
    if (verifyModule(*M, &es)) { fprintf(stderr, "module does not verify: %s\n", es.str().c_str()); return 3; }
    std::error_code ec; raw_fd_ostream o(linkOut, ec); WriteBitcodeToFile(*M, o); o.flush();
    if (!opt.dumpIR.empty()) { raw_fd_ostream d(opt.dumpIR, ec); M->print(d, nullptr); }
    return 0;
  }
  MOD = M.get(); DL = &MOD->getDataLayout();
  double t0 = nowSec();
  shm->deadline = t0 + opt.time;
  if (opt.replay) loadReplay(opt.replayFile);
  mkdir(opt.out.c_str(), 0755);
  unlink((opt.out + "/violations.jsonl").c_str()); unlink((opt.out + "/samples.jsonl").c_str());
  memInit(); solverInit();
  if (opt.replay || opt.workers < 1) opt.workers = 1;
  sem_init(&shm->tok, 1, opt.workers - 1);
  initGlobals();
  Function *mf = MOD->getFunction("main");
  if (!mf || mf->isDeclaration()) { fprintf(stderr, "no main\n"); return 3; }
  std::vector<Function *> ctors = ctorsOf(*MOD);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  isRoot = true;
  fflush(stdout); fflush(stderr);
  pid_t w = fork();
  if (w == 0) {
    setpgid(0, 0); isRoot = false; ownsToken = true;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    installSegv();
    cur = newThread();
    // a driver frame list: main at the bottom, constructors pushed above it run first
    runFn(fnOf(mf));
    for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) { pushFrame(cur, fnOf(*it), nullptr, 0, -1, 0, false); cur->frames.back().retDst = -2; }
    runAll();
    endPath("done");
  }
  setpgid(w, w);
  bool killed = false;
  for (;;) {
    int status; pid_t p = waitpid(-1, &status, WNOHANG);
    if (p > 0) { if (WIFSIGNALED(status) && !killed) { int n = shm->nerrors.fetch_add(1); if (n < 8) snprintf(shm->errors[n], 400, "worker killed by signal %d", WTERMSIG(status)); shm->incomplete.fetch_or(INC_ENGINE); } continue; }
    if (p < 0 && errno == ECHILD) break;
    if (nowSec() > shm->deadline + 20 && !killed) { killed = true; shm->incomplete.fetch_or(INC_TIME); kill(-w, SIGKILL); }
    usleep(2000);
  }
  double wall = nowSec() - t0;
  std::string o = "{";
  auto num = [&](const char *k, double v) { char b[100]; if (v == (double)(long long)v) snprintf(b, sizeof b, "\"%s\":%lld,", k, (long long)v); else snprintf(b, sizeof b, "\"%s\":%.3f,", k, v); o += b; };
  num("wall", wall); num("queries", shm->queries); num("hard_queries", shm->hard); num("sat", shm->sat); num("unsat", shm->unsat); num("unknown", shm->unknown); num("solver_s", shm->solver_us * 1e-6);
  num("asserts", shm->asserts); num("asserts_symbolic", shm->assertsSym); num("asserts_concrete_true", shm->dischargedTrivial); num("forks", shm->forks); num("instructions", shm->insts); num("sched_choices", shm->sched); num("preemptions", shm->preempt);
  num("paths_done", shm->pathsDone); num("paths_violating", shm->pathsViol); num("paths_infeasible", shm->pathsAssume); num("paths_cut", shm->pathsOther); num("native_calls", shm->nativeCalls); num("undecided", shm->undecided); num("nviolations", shm->nviol);
  num("preempt_bound", opt.preempt); num("early", opt.early);
  int inc = shm->incomplete;
  o += "\"incomplete\":["; bool f = true; auto add = [&](int b, const char *n) { if (inc & b) { o += std::string(f ? "" : ",") + "\"" + n + "\""; f = false; } };
  add(INC_TIME, "time"); add(INC_SOLVER, "solver"); add(INC_PATH, "path"); add(INC_ENGINE, "engine"); o += "],\"errors\":[";
  for (int i = 0; i < shm->nerrors && i < 8; i++) o += std::string(i ? "," : "") + "\"" + esc(shm->errors[i]) + "\"";
  o += "],\"warnings\":["; for (int i = 0; i < shm->nwarn && i < 16; i++) o += std::string(i ? "," : "") + "\"" + esc(shm->warns[i]) + "\"";
  o += "],\"covers\":{"; f = true; for (int i = 0; i < 128; i++) if (shm->cover[i].name[0]) { o += std::string(f ? "" : ",") + "\"" + esc(shm->cover[i].name) + "\":" + std::to_string((u64)shm->cover[i].n); f = false; }
  o += "},\"functions\":["; f = true;
  for (auto *x : fns) if (shm->fnHits[x->idx & 65535]) { std::string d = demangled(x->name); if (d.compare(0, 6, "ptne::") == 0 || d.find(" ptne::") != std::string::npos || d.find("Elevator") != std::string::npos || d.find("Factorial") != std::string::npos || d.find("PhoneMenu") != std::string::npos) {
    size_t p = d.find('('); if (p != std::string::npos && p > 0) d = d.substr(0, p); if (d.size() > 110) continue; o += std::string(f ? "" : ",") + "\"" + esc(d) + "\""; f = false; } }
  o += "]}";
  printf("%s\n", o.c_str());
  return shm->nerrors ? 3 : 0;
}
