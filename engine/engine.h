// Bounded symbolic executor: interfaces between its parts.
#pragma once
#include <array>
#include "symex.h"
#include <semaphore.h>

static const u64 ARENA = 0x200000000000ull, CODE_BASE = ARENA, CODE_SIZE = 16ull << 20, GLOB_BASE = ARENA + (16ull << 20), GLOB_SIZE = 48ull << 20,
                 STACK_BASE = ARENA + (64ull << 20), STACK_EACH = 5ull << 20, HEAP_BASE = ARENA + (192ull << 20), HEAP_SIZE = 832ull << 20, ARENA_SIZE = 1024ull << 20;
static inline bool inArena(u64 a) { return a - ARENA < ARENA_SIZE; }
enum ObjKind : u8 { K_NONE, K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_FREED };
struct Obj { u64 base, size; u8 kind, tid; };
struct SB { Z3_ast ast; u8 idx, n; };
struct Input { std::string name; int occ; Z3_ast ast; unsigned w; u64 val; };
struct SchedRec { u64 at; int to; };
struct Stats { u64 queries = 0, hard = 0, sat = 0, unsat = 0, unknown = 0, solver_us = 0, asserts = 0, assertsSym = 0, forks = 0, sched = 0, preempt = 0, dischargedTrivial = 0; };
enum { INC_TIME = 1, INC_SOLVER = 2, INC_PATH = 4, INC_ENGINE = 8 };
struct CoverSlot { std::atomic<int> lock; std::atomic<u64> n; char name[60]; };
struct Shm {
  sem_t tok; double deadline; volatile int stop;
  std::atomic<u64> queries, hard, sat, unsat, unknown, solver_us, asserts, assertsSym, forks, insts, sched, preempt, dischargedTrivial, pathsDone, pathsViol, pathsAssume, pathsOther, nativeCalls, undecided, nviol;
  std::atomic<int> incomplete, nerrors; char errors[8][400];
  std::atomic<u64> vkeys[64]; std::atomic<int> vcount[64];
  CoverSlot cover[128]; std::atomic<int> nwarn; char warns[16][160];
  volatile u8 fnHits[65536];
};
struct Options {
  std::string out = "/tmp/symex-out"; int workers = 8; double time = 60; int preempt = 0; int early = 0; bool qfbv = false; unsigned rlimit = 200000000, rlimit1 = 400000; unsigned seed = 1; int perKey = 2; int stopFirst = 0;
  u64 maxInsts = 150000000; int verbose = 0; bool replay = false; std::string replayFile; int tier = 0; int maxAdvance = 400; std::vector<std::string> bcs; std::string dumpIR; u64 maxVis = 200000;
};
extern Options opt; extern Shm *shm; extern const llvm::DataLayout *DL; extern llvm::Module *MOD;
extern std::vector<Obj> objs; extern u32 *granId; extern Stats st; extern std::vector<Input> inputs; extern std::vector<SchedRec> schedTrace;
extern std::vector<Thread *> threads; extern Thread *cur; extern int nThreadsEver; extern std::vector<FnInfo *> fns; extern std::unordered_map<std::string, FnInfo *> fnByName;
extern Z3_context zc; extern bool ownsToken, isRoot; extern u64 insts;

double nowSec(); void memInit(); u64 allocGlobal(u64, u64, bool); u64 allocHeap(u64, u64); void freeHeap(u64, const char *); bool rangeHasSym(u64, u64); void clearSymRange(u64, u64);
void checkAccess(u64, u64, bool); bool badAccess(u64, u64, bool); void memCopy(u64, u64, u64); void memSet(u64, const Val &, u64); Val memLoad(u64, unsigned, unsigned); void memStore(u64, unsigned, unsigned, const Val &);
void solverInit(); int check(Z3_ast); Z3_ast toAst(const Val &, unsigned); Val fromAst(Z3_ast, unsigned); Z3_sort bvSort(unsigned); void addPC(Z3_ast); bool branchOn(Z3_ast); u64 concretize(Val &, unsigned, int limit = 400); Val freshSym(const std::string &, unsigned, u64, u64, bool); Val freshSched(u64); u64 symChoice(const std::string &, u64);
void symAssume(const Val &); void symAssert(const Val &, const std::string &); void violation(const std::string &, const std::string &); void coverHit(const std::string &);
[[noreturn]] void endPath(const char *); void engineError(const std::string &); bool forkPath(); void flushStats();
Val binop(u8, unsigned, const Val &, const Val &); Val icmp(u8, unsigned, const Val &, const Val &); Val iteVal(Z3_ast, const Val &, const Val &, unsigned); Val castop(u8, unsigned, unsigned, const Val &); Val fpPut(long double, u8); long double fpVal(const Val &, u8);
std::string backtrace(); std::string where(); std::string locOf(const llvm::Instruction *, const std::string &); std::string demangled(const std::string &);
void pushFrame(Thread *, FnInfo *, const Val *, int, int, int, bool); void popFrame(Thread *); u64 stackAlloc(Thread *, u64, u64); void unwind(Thread *, u64); void finishCall(Frame &, Inst &, const Val *, int);
FnInfo *fnAt(u64); FnInfo *fnOf(const llvm::Function *); void resolveFn(FnInfo *); u64 fnAddress(FnInfo *); void initGlobals(); void prepare(FnInfo *); void installSegv(); void runAll();
// runtime.cpp
Handler findHandler(FnInfo *); bool isOverridden(const std::string &demangledName); bool nativeCall(u64, CallInfo *, Val *, int, bool, Val *); void raceAccess(u64, u64, bool, bool isFree); void raceForget(u64, u64); void hbAtomic(u64);
bool schedPoint(Thread *); bool pickNext(); void threadFinished(Thread *, const Val &); Thread *newThread(); bool excMatches(u64, u64); u64 typeIdFor(u64); std::string excDesc(u64); void warnOnce(const std::string &); bool replayInput(const std::string &, int, u64 &); void loadReplay(const std::string &); void runtimeInit();
