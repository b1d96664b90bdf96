// Bounded symbolic executor: threads and schedules, exceptions, library calls, harness interface.
#include "engine.h"
#include <cerrno>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <linux/futex.h>
#include <random>
#include <sstream>
#include <sys/syscall.h>
#include <system_error>
#include <typeinfo>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/DebugInfoMetadata.h>
using namespace llvm;

// native code must be able to free interpreted memory without harm
void operator delete(void *p) noexcept { if (inArena((u64)p)) freeHeap((u64)p, "delete"); else free(p); }
void operator delete(void *p, std::size_t) noexcept { if (inArena((u64)p)) freeHeap((u64)p, "delete"); else free(p); }

void warnOnce(const std::string &m) {
  int n = shm->nwarn;
  for (int i = 0; i < n && i < 16; i++) if (!strncmp(shm->warns[i], m.c_str(), 159)) return;
  n = shm->nwarn.fetch_add(1); if (n < 16) strncpy(shm->warns[n], m.c_str(), 159);
}

// ------------------------------------------------------------------ replay
static std::map<std::pair<std::string, int>, u64> rIn; static std::map<u64, int> rSched;
bool replayInput(const std::string &n, int occ, u64 &x) { auto it = rIn.find({ n, occ }); if (it == rIn.end()) return false; x = it->second; return true; }
void loadReplay(const std::string &f) {
  std::ifstream in(f); std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "input") { std::string n; int o; u64 v; s >> n >> o >> v; rIn[{ n, o }] = v; }
    else if (k == "sched") { u64 at; int to; s >> at >> to; rSched[at] = to; }
    else if (k == "preempt") s >> opt.preempt;
    else if (k == "early") s >> opt.early;
  }
}

// ------------------------------------------------------------------ happens-before
struct RS { u32 wc[NSLOT], rc[NSLOT]; u8 wm[NSLOT], rm[NSLOT]; const Instruction *wi[NSLOT], *ri[NSLOT]; FnInfo *wf[NSLOT], *rf[NSLOT]; };
static std::unordered_map<u64, RS *> race; static std::unordered_map<u64, VC> syncVC, rdVC;
static void vjoin(VC &a, const VC &b) { for (int i = 0; i < NSLOT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void hbAcquire(u64 k) { auto it = syncVC.find(k); if (it != syncVC.end()) vjoin(cur->vc, it->second); }
static void hbRelease(u64 k) { vjoin(syncVC[k], cur->vc); cur->vc[cur->slot]++; }
void hbAtomic(u64 a) { if (nThreadsEver <= 1) return; hbAcquire(a); hbRelease(a); }
static bool isUserFn(FnInfo *f) {
  static std::unordered_map<FnInfo *, bool> c; auto it = c.find(f); if (it != c.end()) return it->second;
  std::string d = demangled(f->name); bool r = d.compare(0, 6, "ptne::") == 0 || d.find(" ptne::") != std::string::npos || d.compare(0, 23, "(anonymous namespace)::") == 0 || d.compare(0, 4, "main") == 0 || d.find("Elevator") != std::string::npos;
  return c[f] = r;
}
static FnInfo *userFn() { for (int i = (int)cur->frames.size() - 1; i >= 0; i--) if (isUserFn(cur->frames[i].fn)) return cur->frames[i].fn; return cur->frames.empty() ? nullptr : cur->frames.back().fn; }
static std::string locUser(const Instruction *I, FnInfo *uf) {
  std::string l = locOf(I, uf ? uf->name : "?"); std::istringstream s(l); std::string x;
  while (std::getline(s, x)) if (x.compare(0, 6, "ptne::") == 0) { size_t p = x.rfind(" ("); return x.substr(0, p); }
  return uf ? demangled(uf->name) : "?";
}
void raceForget(u64 a, u64 n) { if (!n || race.empty()) return; for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) { auto it = race.find(g); if (it != race.end()) { delete it->second; race.erase(it); } } }
void raceAccess(u64 a, u64 n, bool wr, bool isFree) {
  if (!n || !inArena(a) || !cur || cur->frames.empty()) return;
  Thread *t = cur; const Instruction *I = t->frames.back().fn->code[t->frames.back().pc].I; FnInfo *uf = nullptr;
  for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    u8 m = 0; for (int i = 0; i < 8; i++) { u64 x = (g << 3) + i; if (x >= a && x < a + n) m |= 1 << i; }
    RS *&r = race[g];
    if (!r) { if (isFree) { race.erase(g); continue; } r = new RS; memset(r, 0, sizeof *r); }
    for (int u = 0; u < NSLOT; u++) if (u != t->slot) {
      bool w = (r->wm[u] & m) && r->wc[u] > t->vc[u], rd = wr && (r->rm[u] & m) && r->rc[u] > t->vc[u];
      if (w || rd) {
        if (!uf) uf = userFn();
        std::string x = locUser(I, uf), y = locUser(w ? r->wi[u] : r->ri[u], w ? r->wf[u] : r->rf[u]);
        if (y < x) std::swap(x, y);
        violation("race", std::string("data race") + (isFree ? " with release of the object" : "") + " between " + x + " and " + y);
        r->wm[u] = r->rm[u] = 0;
      }
    }
    if (!uf) uf = userFn();
    if (wr) { if (r->wc[t->slot] != t->vc[t->slot]) r->wm[t->slot] = 0; r->wc[t->slot] = t->vc[t->slot]; r->wm[t->slot] |= m; r->wi[t->slot] = I; r->wf[t->slot] = uf; }
    else { if (r->rc[t->slot] != t->vc[t->slot]) r->rm[t->slot] = 0; r->rc[t->slot] = t->vc[t->slot]; r->rm[t->slot] |= m; r->ri[t->slot] = I; r->rf[t->slot] = uf; }
  }
}

// ------------------------------------------------------------------ scheduler
struct Mx { int owner = -1; int count = 0; }; struct Rw { int writer = -1; std::map<int, int> rd; };
static std::unordered_map<u64, Mx> mxs; static std::unordered_map<u64, Rw> rws; static std::unordered_map<u64, std::deque<int>> cvq, fxq;
static u64 clockNs = 1000000000000000ull; static u64 visIdx = 0; static int preUsed = 0; static u64 advances = 0;
Thread *newThread() {
  // a clock slot (and its stack) may be reused when everything its thread did happens before the creation of the new one
  int slot = -1; u32 clock = 0;
  if (nThreadsEver < NSLOT - 1) slot = nThreadsEver;
  else for (Thread *o : threads) if (o->finished && o->slot >= 0 && cur && cur->vc[o->slot] + 1 >= o->vc[o->slot] && o->id) { slot = o->slot; clock = o->vc[slot]; o->slot = -1; break; }
  if (slot < 0) { shm->incomplete.fetch_or(INC_PATH); endPath("too many threads"); }
  Thread *t = new Thread; t->id = nThreadsEver++; t->slot = slot;
  t->stackBase = t->sp = STACK_BASE + STACK_EACH * slot; t->stackTop = t->stackBase + STACK_EACH;
  Val *r = (Val *)calloc(1 << 17, sizeof(Val)); t->regBase = t->regTop = r;
  t->vc[slot] = clock + 1; threads.push_back(t); return t;
}
static bool pred(Thread *u) {
  switch (u->wk) {
  case W_MUTEX: return u->timedOut || mxs[u->wa].owner < 0;
  case W_RD: return u->timedOut || rws[u->wa].writer < 0;
  case W_WR: { auto &r = rws[u->wa]; return u->timedOut || (r.writer < 0 && r.rd.empty()); }
  case W_COND: case W_FUTEX: return u->notified || u->timedOut;
  case W_JOIN: return threads[u->wa]->finished;
  case W_SLEEP: return u->timedOut || clockNs >= u->deadline;
  case W_IDLE: return false;
  default: return true; }
}
static bool enabled(Thread *u) { return !u->finished && (!u->blocked || pred(u)); }
static void wake(Thread *u) { if (u->blocked) { u->blocked = false; } }
static void switchTo(Thread *u) {
  if (u->blocked && !pred(u) && u->wk == W_COND && opt.early > 1) { u->notified = true; auto &q = cvq[u->wa]; for (auto it = q.begin(); it != q.end(); ++it) if (*it == u->id) { q.erase(it); break; } }
  if (u->blocked && !pred(u) && u->timed) { u->timedOut = true; clockNs = std::max(clockNs, u->deadline); } wake(u); cur = u; }
static std::string waitDesc() {
  static const char *n[] = { "runnable", "mutex", "shared lock", "exclusive lock", "condition", "join", "futex", "sleep", "idle" };
  std::string s; for (Thread *u : threads) if (!u->finished) { cur = u; std::string w = where(); s += " [thread " + std::to_string(u->id) + " waits for " + n[u->wk] + ": " + w.substr(0, 400) + "]"; }
  return s;
}
// The choice of the next thread is a symbolic variable; the solver enumerates its feasible values.
static u64 schedChoice(u64 n) { st.sched++; Val v = freshSched(n); return concretize(v, 4); }
static bool noPreempt = false;  // set by a harness around code whose schedules do not matter
bool schedPoint(Thread *t) {
  if (t->spDone) return true;
  t->spDone = true;
  int alive = 0; for (Thread *u : threads) alive += !u->finished;
  if (alive <= 1) return true;
  visIdx++;
  if (visIdx > opt.maxVis) { violation("hang", "no termination within the scheduling-step bound"); endPath("violation"); }
  if (opt.replay) {
    auto it = rSched.find(visIdx);
    if (it != rSched.end()) { Thread *u = threads[it->second]; schedTrace.push_back({ visIdx, u->id }); preUsed++; t->visRun = 0; switchTo(u); return false; }
  } else if (preUsed < opt.preempt && !noPreempt) {
    std::vector<Thread *> alt;
    for (Thread *u : threads) {
      if (u == t || u->finished) continue;
      bool en = enabled(u);
      // with early: a waiting thread may also time out now, or (2) wake up without a notification
      if (!en && !(opt.early && u->blocked && u->wk != W_IDLE && (u->timed || (opt.early > 1 && u->wk == W_COND)))) continue;
      alt.push_back(u);
    }
    if (!alt.empty()) {
      u64 k = schedChoice(alt.size() + 1);
      if (k) { Thread *u = alt[k - 1]; schedTrace.push_back({ visIdx, u->id }); preUsed++; st.preempt++; t->visRun = 0; switchTo(u); return false; }
    }
  }
  if (++t->visRun > 3000) {  // fairness: a thread that spins lets the others run
    t->visRun = 0;
    for (size_t k = 1; k < threads.size(); k++) { Thread *u = threads[(t->id + k) % threads.size()]; if (u != t && enabled(u)) { switchTo(u); return false; } }
  }
  return true;
}
bool pickNext() {
  for (;;) {
    std::vector<Thread *> E; Thread *c = cur;
    for (size_t k = 1; k <= threads.size(); k++) { Thread *u = threads[(c->id + k) % threads.size()]; if (enabled(u) && !(u == c && c->yielded)) E.push_back(u); }
    if (E.empty() && c->yielded && enabled(c)) E.push_back(c);
    c->yielded = false;
    if (!E.empty()) {
      Thread *ch = E[0];
      if (E.size() > 1) {
        visIdx++;
        if (opt.replay) { auto it = rSched.find(visIdx); if (it != rSched.end()) { ch = threads[it->second]; schedTrace.push_back({ visIdx, ch->id }); } }
        else if (opt.preempt > 0 && !noPreempt) { u64 k = schedChoice(E.size()); if (k) { ch = E[k]; schedTrace.push_back({ visIdx, ch->id }); } }
      }
      if (ch != c) c->visRun = 0;
      switchTo(ch); return true;
    }
    // nobody can run: let time pass, or wake threads that wait for quiescence
    Thread *idle = nullptr; u64 best = ~0ull;
    for (Thread *u : threads) if (!u->finished && u->blocked) { if (u->wk == W_IDLE) { if (!idle || u->idleLeft < idle->idleLeft) idle = u; } else if (u->timed) best = std::min(best, u->deadline); }
    if (idle && (idle->idleLeft == 0 || best == ~0ull)) { idle->blocked = false; cur = idle; return true; }
    if (best == ~0ull) { violation("deadlock", "deadlock: no thread can continue"); if (opt.replay || opt.verbose) fprintf(stderr, "%s\n", waitDesc().c_str()); endPath("violation"); }
    clockNs = std::max(clockNs, best); advances++;
    if (idle) for (Thread *u : threads) if (u->wk == W_IDLE && u->blocked && u->idleLeft) u->idleLeft--;
    for (Thread *u : threads) if (!u->finished && u->blocked && u->timed && u->deadline <= clockNs) u->timedOut = true;
    if (advances > (u64)opt.maxAdvance) { violation("hang", "no progress: threads keep waiting for something that never happens"); if (opt.replay || opt.verbose) fprintf(stderr, "%s\n", waitDesc().c_str()); endPath("violation"); }
  }
}
void threadFinished(Thread *t, const Val &) {
  t->finished = true; t->vc[t->slot]++;
  if (t->id == 0) { if (opt.replay) fprintf(stderr, "[replay] main returned\n"); endPath("done"); }
}
static HR block(Thread *t, WaitKind k, u64 a, bool timed = false, u64 dl = 0) { t->blocked = true; t->wk = k; t->wa = a; t->timed = timed; t->deadline = dl; t->notified = false; t->timedOut = false; return H_RETRY; }

// ------------------------------------------------------------------ exceptions
struct Exc { u64 type, dtor, adjusted; int handlers; bool native; std::exception_ptr np; };
static std::unordered_map<u64, Exc> excs; static std::unordered_map<u64, u64> tids;
u64 typeIdFor(u64 ti) { if (!ti) return 100000; auto it = tids.find(ti); if (it != tids.end()) return it->second; u64 n = tids.size() + 1; return tids[ti] = n; }
bool excMatches(u64 obj, u64 ti) {
  Exc &e = excs[obj];
  if (!ti) { e.adjusted = obj; return true; }
  void *p = (void *)obj; const std::type_info *c = (const std::type_info *)ti, *th = (const std::type_info *)e.type;
  if (th->__is_pointer_p()) p = *(void **)p;
  if (c->__do_catch(th, &p, 1)) { e.adjusted = (u64)p; return true; }
  return false;
}
std::string excDesc(u64 obj) { Exc &e = excs[obj]; return demangled(std::string("_Z") + ((const std::type_info *)e.type)->name()).substr(0, 200); }
static void addNativeExc(std::exception_ptr ep, u64 &obj) {
  obj = *(u64 *)&ep; Exc e; e.type = (u64)ep.__cxa_exception_type(); e.dtor = 0; e.adjusted = obj; e.handlers = 0; e.native = true; e.np = ep; excs[obj] = e;
}
struct R2 { u64 a, d; };
typedef R2 (*NF)(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
typedef R2 (*NFD)(u64, u64, u64, u64, u64, u64, double, double, double, double);
typedef double (*NFDD)(u64, u64, u64, u64, u64, u64, double, double, double, double);
bool nativeCall(u64 addr, CallInfo *ci, Val *argv, int n, bool anyfp, Val *ret) {
  u64 a[16] = { 0 }; double d[8] = { 0 };
  try {
    if (!anyfp) {
      if (n > 12) engineError("native call with too many arguments");
      for (int i = 0; i < n; i++) a[i] = argv[i].lo;
      R2 r = ((NF)addr)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
      ret[0] = CV(r.a); ret[1] = CV(r.d);
      for (int i = 0; i < ci->nret && i < 2; i++) { unsigned b = ci->retbitsv[i]; if (b < 64) ret[i].lo &= (1ull << b) - 1; }
    } else {
      int ni = 0, nd = 0, k = 0;
      for (size_t i = 0; i < ci->args.size(); i++) { if (ci->argfp[i] == 2) d[nd++] = (double)fpVal(argv[k], 2); else if (ci->argfp[i]) engineError("native call with float or long double"); else a[ni++] = argv[k].lo; k += ci->argn[i]; }
      if (ci->retfp == 2) ret[0] = fpPut(((NFDD)addr)(a[0], a[1], a[2], a[3], a[4], a[5], d[0], d[1], d[2], d[3]), 2);
      else if (ci->retfp) engineError("native call returning float");
      else { R2 r = ((NFD)addr)(a[0], a[1], a[2], a[3], a[4], a[5], d[0], d[1], d[2], d[3]); ret[0] = CV(r.a); ret[1] = CV(r.d); }
    }
  } catch (...) {
    u64 o; addNativeExc(std::current_exception(), o); cur->lpObj = o; cur->uncaught++; return false;
  }
  return true;
}
static HR throwNative(CallCtx &c, std::exception_ptr ep) { u64 o; addNativeExc(ep, o); cur->uncaught++; unwind(c.t, o); return H_THROWN; }
#define A(i) (c.args[i].s ? concretize(c.args[i], 64) : c.args[i].lo)
static HR ret0(CallCtx &c, u64 v = 0) { c.ret[0] = CV(v); return H_DONE; }
static HR hThrow(CallCtx &c) {
  u64 o = A(0); Exc e; e.type = A(1); e.dtor = A(2); e.adjusted = o; e.handlers = 0; e.native = false; excs[o] = e; c.t->uncaught++;
  unwind(c.t, o); return H_THROWN;
}
static HR hAllocExc(CallCtx &c) { u64 p = allocHeap(A(0) + 144, 16); memset((void *)p, 0, 144); *(u64 *)(p + 144 - 128) = 1000000; return ret0(c, p + 144); }
static HR hInitPrimary(CallCtx &c) { u64 o = A(0); Exc e; e.type = A(1); e.dtor = A(2); e.adjusted = o; e.handlers = 0; e.native = false; excs[o] = e; return ret0(c, o - 128); }
static HR hBeginCatch(CallCtx &c) { u64 o = A(0); Exc &e = excs[o]; e.handlers++; c.t->caught.push_back(o); c.t->uncaught--; return ret0(c, e.adjusted); }
static HR hEndCatch(CallCtx &c) {
  if (c.t->caught.empty()) return H_DONE;
  u64 o = c.t->caught.back(); c.t->caught.pop_back(); Exc &e = excs[o];
  if (e.handlers < 0) { e.handlers = -e.handlers - 1; if (e.handlers) e.handlers = -e.handlers; return H_DONE; }   // being rethrown
  if (--e.handlers == 0) {
    if (!e.native && e.dtor && *(int *)(o - 128) <= 1000000) {   // otherwise an exception_ptr still refers to it
      FnInfo *d = fnAt(e.dtor);
      if (d && !d->F->isDeclaration()) { Val a = CV(o); u64 dt = e.dtor; (void)dt; e.dtor = 0; pushFrame(c.t, d, &a, 1, -1, 0, false);
        // the callee returns to this call instruction, which then completes
        return H_PUSHED; }
    }
  }
  return H_DONE;
}
static HR hRethrow(CallCtx &c) { if (c.t->caught.empty()) { violation("exception", "rethrow without exception terminates"); endPath("violation"); } u64 o = c.t->caught.back(); Exc &e = excs[o]; e.handlers = -e.handlers; c.t->uncaught++; unwind(c.t, o); return H_THROWN; }
static HR hGetExcPtr(CallCtx &c) { return ret0(c, excs[A(0)].adjusted); }
static HR hNop(CallCtx &c) { (void)c; return H_DONE; }
static HR hTerminate(CallCtx &c) { violation("terminate", "the program is terminated (std::terminate / abort)"); endPath("violation"); }
static HR hPureVirtual(CallCtx &c) { violation("memory", "pure virtual function called"); endPath("violation"); }
static HR hCurrentException(CallCtx &c) { u64 o = c.t->caught.empty() ? 0 : c.t->caught.back(); *(u64 *)A(0) = o; if (o && !excs[o].native) ++*(int *)(o - 128); return H_DONE; }
static HR hRethrowException(CallCtx &c) { u64 o = *(u64 *)A(0); c.t->uncaught++; unwind(c.t, o); return H_THROWN; }
static HR hUncaught(CallCtx &c) { return ret0(c, c.t->uncaught < 0 ? 0 : c.t->uncaught); }
static HR hUncaughtB(CallCtx &c) { return ret0(c, c.t->uncaught > 0); }

// ------------------------------------------------------------------ memory functions
// injected faults: how many thread creations and allocations may still fail
static u64 faultThreads = 0, faultAllocs = 0;
static bool faultNow(u64 &left, const char *name) { if (!left || !symChoice(name, 2)) return false; left--; return true; }
static HR hNew(CallCtx &c) { u64 n = A(0); u64 p = faultNow(faultAllocs, "fault-alloc") ? 0 : allocHeap(n, 16); if (!p) { try { throw std::bad_alloc(); } catch (...) { return throwNative(c, std::current_exception()); } } return ret0(c, p); }
static u64 errnoCell() { static std::map<Thread *, u64> cell; u64 &p = cell[cur]; if (!p) { p = allocGlobal(4, 4, false); *(u32 *)p = 0; } return p; }
static HR hErrno(CallCtx &c) { return ret0(c, errnoCell()); }
static HR hNewAl(CallCtx &c) { if (faultNow(faultAllocs, "fault-alloc")) { try { throw std::bad_alloc(); } catch (...) { return throwNative(c, std::current_exception()); } } return ret0(c, allocHeap(A(0), A(1))); }
static HR hNewNothrow(CallCtx &c) { return ret0(c, faultNow(faultAllocs, "fault-alloc") ? 0 : allocHeap(A(0), 16)); }
static HR hFaults(CallCtx &c) { faultThreads = A(0); faultAllocs = A(1); return H_DONE; }
static HR hDelete(CallCtx &c) { freeHeap(A(0), "delete"); return H_DONE; }
static HR hMalloc(CallCtx &c) { return ret0(c, allocHeap(A(0), 16)); }
static HR hCalloc(CallCtx &c) { u64 n = A(0) * A(1); u64 p = allocHeap(n, 16); memset((void *)p, 0, n); return ret0(c, p); }
static HR hFree(CallCtx &c) { freeHeap(A(0), "free"); return H_DONE; }
static HR hMemcpy(CallCtx &c) { u64 n = A(2); if (n) memCopy(A(0), A(1), n); c.ret[0] = c.args[0]; return H_DONE; }
static HR hMemset(CallCtx &c) { u64 n = A(2); Val v = c.args[1]; unsigned w = c.fn->F->getFunctionType()->getParamType(1)->getIntegerBitWidth(); if (w > 8) v = castop(OP_TRUNC, 8, w, v); if (n) memSet(A(0), v, n); c.ret[0] = c.args[0]; return H_DONE; }
static HR memcmpImpl(CallCtx &c, u64 a, u64 b, u64 n) {
  if (!n) return ret0(c, 0);
  checkAccess(a, n, false); checkAccess(b, n, false);
  if (nThreadsEver > 1) { raceAccess(a, n, false, false); raceAccess(b, n, false, false); }
  if (!rangeHasSym(a, n) && !rangeHasSym(b, n)) { int r = memcmp((void *)a, (void *)b, n); return ret0(c, (u32)(r < 0 ? -1 : r > 0)); }
  Val r = CV(0);
  for (i64 i = n - 1; i >= 0; i--) {
    Val x = memLoad(a + i, 1, 8), y = memLoad(b + i, 1, 8);
    Val eq = icmp(CmpInst::ICMP_EQ, 8, x, y), lt = icmp(CmpInst::ICMP_ULT, 8, x, y);
    if (!eq.s) { if (eq.lo) continue; r = lt.s ? iteVal(lt.s, CV(0xffffffffu), CV(1), 32) : CV(lt.lo ? 0xffffffffu : 1); continue; }
    Val d = lt.s ? iteVal(lt.s, CV(0xffffffffu), CV(1), 32) : CV(lt.lo ? 0xffffffffu : 1);
    r = iteVal(eq.s, r, d, 32);
  }
  c.ret[0] = r; return H_DONE;
}
static HR hMemcmp(CallCtx &c) { return memcmpImpl(c, A(0), A(1), A(2)); }
static HR redirect(CallCtx &c, const char *n) {
  FnInfo *f = nullptr; auto it = fnByName.find(n); if (it != fnByName.end()) f = it->second;
  if (!f || f->F->isDeclaration()) engineError(std::string("missing runtime model ") + n);
  c.redirect = f; for (int i = 0; i < c.n; i++) c.redirArgs.push_back(c.args[i]); return H_REDIRECT;
}
static bool cstr(u64 p, std::string &out) {   // false if symbolic bytes are met before the end
  for (u64 i = 0; i < 1 << 20; i++) { checkAccess(p + i, 1, false); if (inArena(p + i) && rangeHasSym(p + i, 1)) return false; char ch = *(char *)(p + i); if (!ch) return true; out += ch; }
  engineError("unterminated string"); return true;
}
static HR hStrlen(CallCtx &c) { std::string s; if (!cstr(A(0), s)) return redirect(c, "rt_strlen"); return ret0(c, s.size()); }
static HR hStrcmp(CallCtx &c) { std::string s, t; if (!cstr(A(0), s) || !cstr(A(1), t)) return redirect(c, "rt_strcmp"); int r = strcmp(s.c_str(), t.c_str()); return ret0(c, (u32)(r < 0 ? -1 : r > 0)); }
static HR hMemchr(CallCtx &c) { u64 p = A(0), n = A(2); if (n) checkAccess(p, n, false); if (c.args[1].s || rangeHasSym(p, n)) return redirect(c, "rt_memchr"); return ret0(c, (u64)memchr((void *)p, (int)c.args[1].lo, n)); }
#define STRCONV(NAME, RT) static HR NAME(CallCtx &c) { return redirect(c, RT); }
STRCONV(hAtol, "rt_atol") STRCONV(hAtoi, "rt_atoi") STRCONV(hStrtol, "rt_strtol") STRCONV(hStrtoul, "rt_strtoul")
static u64 mkStdString(u64 at, const std::string &s) {
  checkAccess(at, 32, true); u64 p = at + 16; if (s.size() > 15) { p = allocHeap(s.size() + 1, 16); memStore(at + 16, 8, 64, CV(s.size())); }
  memStore(at, 8, 64, CV(p)); memStore(at + 8, 8, 64, CV(s.size()));
  for (size_t i = 0; i < s.size(); i++) memStore(p + i, 1, 8, CV((u8)s[i]));
  memStore(p + s.size(), 1, 8, CV(0)); return p;
}
static int preciseToString = 0;
// A symbolic number in a text whose digits are not asked for: a mark of fixed length that stands for the number
static std::vector<Val> marks; static const u64 markLen = 6;
static std::string markOf(Val v, unsigned w) {
  if (w < 64) v = castop(OP_ZEXT, 64, w, v);
  size_t i = 0; while (i < marks.size() && !(marks[i].s == v.s && marks[i].lo == v.lo)) i++;
  if (i == marks.size()) marks.push_back(v);
  std::string t = "\001aaaa\002"; for (int k = 4; k >= 1; k--) { t[k] = 'a' + (i & 15); i >>= 4; } return t;
}
static bool markAt(const std::string &t, size_t at, u64 &i) {
  if (at + markLen > t.size() || t[at] != 1 || t[at + 5] != 2) return false;
  i = 0; for (int k = 1; k <= 4; k++) { if (t[at + k] < 'a' || t[at + k] > 'p') return false; i = i * 16 + (t[at + k] - 'a'); }
  return i < marks.size();
}
// the decimal digits of a symbolic number: one path per length, the digits are variables tied to the number
static u64 forkLength(Val v, unsigned w) {
  int maxd = w == 64 ? 20 : 10; u64 L = symChoice("digits", maxd) + 1; u128 lo = 1; for (u64 i = 1; i < L; i++) lo *= 10;
  if (w < 64) v = castop(OP_ZEXT, 64, w, v);
  if (L > 1) symAssume(icmp(CmpInst::ICMP_UGE, 64, v, CV((u64)lo)));
  if (L < 20) symAssume(icmp(CmpInst::ICMP_ULT, 64, v, CV((u64)(lo * 10))));
  return L;
}
static std::vector<Val> decimalDigits(Val v, unsigned w, u64 L) {
  std::vector<Val> d; if (w < 64) v = castop(OP_ZEXT, 64, w, v);
  Val acc = CV(0);
  for (u64 i = 0; i < L; i++) {
    Val x = freshSym("digit", 8, '0', '9', true); d.push_back(x);
    Val z = castop(OP_ZEXT, 64, 8, binop(OP_SUB, 8, x, CV('0')));
    acc = binop(OP_ADD, 64, binop(OP_MUL, 64, acc, CV(10)), z);
  }
  symAssume(icmp(CmpInst::ICMP_EQ, 64, acc, v));
  if (L == 20) { symAssume(icmp(CmpInst::ICMP_EQ, 8, d[0], CV('1'))); Val hi = CV(0); for (u64 i = 0; i < 19; i++) hi = binop(OP_ADD, 64, binop(OP_MUL, 64, hi, CV(10)), castop(OP_ZEXT, 64, 8, binop(OP_SUB, 8, d[i], CV('0')))); symAssume(icmp(CmpInst::ICMP_ULE, 64, hi, CV(1844674407370955161ull))); }
  return d;
}
// std::__detail::__to_chars_len<T>(T, int) and __to_chars_10_impl<T>(char *, unsigned, T): below std::to_string, std::to_chars and std::format
static HR hCharsLen(CallCtx &c) {
  Val v = c.args[0]; unsigned w = c.fn->F->getFunctionType()->getParamType(0)->getIntegerBitWidth(); u64 base = c.n > 1 ? A(1) : 10;
  if (base != 10) { u64 x = A(0), n = 1; while (x >= base) { x /= base; n++; } return ret0(c, n); }
  if (!v.s) return ret0(c, std::to_string((unsigned long)v.lo).size());
  return ret0(c, preciseToString ? forkLength(v, w) : markLen);
}
static HR hChars10(CallCtx &c) {
  u64 p = A(0), L = A(1); Val v = c.args[2]; unsigned w = c.fn->F->getFunctionType()->getParamType(2)->getIntegerBitWidth();
  std::vector<Val> d;
  if (!v.s) { std::string t = std::to_string((unsigned long)v.lo); for (char x : t) d.push_back(CV((u8)x)); while (d.size() > L) d.erase(d.begin()); while (d.size() < L) d.insert(d.begin(), CV('0')); }
  else if (!preciseToString) { std::string t = markOf(v, w); t.resize(L, '#'); for (char x : t) d.push_back(CV((u8)x)); }
  else d = decimalDigits(v, w, L);
  checkAccess(p, L, true);
  for (u64 i = 0; i < L; i++) memStore(p + i, 1, 8, d[i]);
  return H_DONE;
}
static HR hToString(CallCtx &c) {
  u64 at = A(0); Val v = c.args[1]; unsigned w = c.fn->F->getFunctionType()->getParamType(1)->getIntegerBitWidth();
  if (!v.s) { mkStdString(at, std::to_string((unsigned long)v.lo)); return H_DONE; }
  if (!preciseToString) { mkStdString(at, markOf(v, w)); return H_DONE; }
  u64 L = forkLength(v, w); std::vector<Val> d = decimalDigits(v, w, L);
  mkStdString(at, std::string(L, '0')); u64 p = memLoad(at, 8, 64).lo; for (u64 i = 0; i < L; i++) memStore(p + i, 1, 8, d[i]);
  return H_DONE;
}

// ------------------------------------------------------------------ threads
static HR hStartThread(CallCtx &c) {
  u64 self = A(0), up = A(1); u64 state = memLoad(up, 8, 64).lo; 
  if (faultNow(faultThreads, "fault-thread")) { try { throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); } catch (...) { return throwNative(c, std::current_exception()); } }
  auto it = fnByName.find("rt_thread_main"); if (it == fnByName.end() || it->second->F->isDeclaration()) engineError("missing rt_thread_main");
  Thread *p = cur; Thread *t = newThread();
  memStore(up, 8, 64, CV(0)); memStore(self, 8, 64, CV(0x1000 + t->id));
  vjoin(t->vc, p->vc); p->vc[p->slot]++;
  Val a = CV(state); pushFrame(t, it->second, &a, 1, -1, 0, false);
  return H_DONE;
}
static HR hJoin(CallCtx &c) {
  u64 self = A(0); u64 id = memLoad(self, 8, 64).lo;
  if (!id || id < 0x1000 || id >= 0x1000 + threads.size() || threads[id - 0x1000]->detached) { try { throw std::system_error(std::make_error_code(std::errc::invalid_argument)); } catch (...) { return throwNative(c, std::current_exception()); } }
  Thread *o = threads[id - 0x1000];
  if (!schedPoint(c.t)) return H_RETRY;
  if (!o->finished) return block(c.t, W_JOIN, o->id);
  vjoin(c.t->vc, o->vc); memStore(self, 8, 64, CV(0)); return H_DONE;
}
static HR hDetach(CallCtx &c) {
  u64 self = A(0); u64 id = memLoad(self, 8, 64).lo;
  if (!id) { try { throw std::system_error(std::make_error_code(std::errc::invalid_argument)); } catch (...) { return throwNative(c, std::current_exception()); } }
  threads[id - 0x1000]->detached = true; memStore(self, 8, 64, CV(0)); return H_DONE;
}
static HR hSelf(CallCtx &c) { return ret0(c, 0x1000 + c.t->id); }
static HR hHwConc(CallCtx &c) { return ret0(c, 4); }
static HR hMutexLock(CallCtx &c) {
  u64 m = A(0); checkAccess(m, 40, true); if (!schedPoint(c.t)) return H_RETRY;
  Mx &x = mxs[m]; bool rec = *(int *)(m + 16) == 1;
  if (x.owner == c.t->id) { if (rec) { x.count++; return ret0(c, 0); } violation("deadlock", "deadlock: a thread locks a mutex it already holds"); endPath("violation"); }
  if (x.owner >= 0) return block(c.t, W_MUTEX, m);
  x.owner = c.t->id; x.count = 1; hbAcquire(m); return ret0(c, 0);
}
static HR hMutexTry(CallCtx &c) {
  u64 m = A(0); checkAccess(m, 40, true); if (!schedPoint(c.t)) return H_RETRY;
  Mx &x = mxs[m]; bool rec = *(int *)(m + 16) == 1;
  if (x.owner == c.t->id && rec) { x.count++; return ret0(c, 0); }
  if (x.owner >= 0) return ret0(c, EBUSY);
  x.owner = c.t->id; x.count = 1; hbAcquire(m); return ret0(c, 0);
}
static HR hMutexUnlock(CallCtx &c) {
  u64 m = A(0); checkAccess(m, 40, true); Mx &x = mxs[m];
  if (x.owner != c.t->id) { violation("lock", "unlock of a mutex the thread does not hold"); endPath("violation"); }
  if (--x.count == 0) { x.owner = -1; hbRelease(m); } return ret0(c, 0);
}
static HR hRd(CallCtx &c) {
  u64 m = A(0); checkAccess(m, 56, true); if (!schedPoint(c.t)) return H_RETRY;
  Rw &x = rws[m]; if (x.writer == c.t->id) return ret0(c, EDEADLK);
  if (x.writer >= 0) return block(c.t, W_RD, m);
  x.rd[c.t->id]++; hbAcquire(m); return ret0(c, 0);
}
static HR hWr(CallCtx &c) {
  u64 m = A(0); checkAccess(m, 56, true); if (!schedPoint(c.t)) return H_RETRY;
  Rw &x = rws[m]; if (x.writer == c.t->id) return ret0(c, EDEADLK);
  if (x.writer >= 0 || !x.rd.empty()) return block(c.t, W_WR, m);
  x.writer = c.t->id; hbAcquire(m); auto it = rdVC.find(m); if (it != rdVC.end()) vjoin(c.t->vc, it->second); return ret0(c, 0);
}
static HR hTryRd(CallCtx &c) { u64 m = A(0); checkAccess(m, 56, true); if (!schedPoint(c.t)) return H_RETRY; Rw &x = rws[m]; if (x.writer >= 0) return ret0(c, EBUSY); x.rd[c.t->id]++; hbAcquire(m); return ret0(c, 0); }
static HR hTryWr(CallCtx &c) { u64 m = A(0); checkAccess(m, 56, true); if (!schedPoint(c.t)) return H_RETRY; Rw &x = rws[m]; if (x.writer >= 0 || !x.rd.empty()) return ret0(c, EBUSY); x.writer = c.t->id; hbAcquire(m); auto it = rdVC.find(m); if (it != rdVC.end()) vjoin(c.t->vc, it->second); return ret0(c, 0); }
static HR hRwUnlock(CallCtx &c) {
  u64 m = A(0); checkAccess(m, 56, true); Rw &x = rws[m];
  if (x.writer == c.t->id) { x.writer = -1; hbRelease(m); return ret0(c, 0); }
  auto it = x.rd.find(c.t->id);
  if (it == x.rd.end()) { violation("lock", "unlock of a shared mutex the thread does not hold"); endPath("violation"); }
  if (--it->second == 0) x.rd.erase(it);
  vjoin(rdVC[m], cur->vc); cur->vc[cur->slot]++; return ret0(c, 0);
}
// locks with a time limit: the deadline is an absolute time
static u64 tsNs(u64 p);
static bool timedPhase(Thread *t) { if (t->phase == 0) { t->phase = 1; return false; } return t->timedOut; }
static HR timedMutex(CallCtx &c, u64 m, u64 dl) {
  checkAccess(m, 40, true); if (c.t->phase == 0 && !schedPoint(c.t)) return H_RETRY;
  Mx &x = mxs[m]; bool rec = *(int *)(m + 16) == 1;
  if (x.owner == c.t->id && rec) { x.count++; return ret0(c, 0); }
  if (x.owner >= 0) { if (timedPhase(c.t)) return ret0(c, ETIMEDOUT); return block(c.t, W_MUTEX, m, true, dl); }
  x.owner = c.t->id; x.count = 1; hbAcquire(m); return ret0(c, 0);
}
static HR timedRw(CallCtx &c, u64 m, u64 dl, bool wr) {
  checkAccess(m, 56, true); if (c.t->phase == 0 && !schedPoint(c.t)) return H_RETRY;
  Rw &x = rws[m]; if (x.writer == c.t->id) return ret0(c, EDEADLK);
  if (x.writer >= 0 || (wr && !x.rd.empty())) { if (timedPhase(c.t)) return ret0(c, ETIMEDOUT); return block(c.t, wr ? W_WR : W_RD, m, true, dl); }
  if (wr) { x.writer = c.t->id; hbAcquire(m); auto it = rdVC.find(m); if (it != rdVC.end()) vjoin(c.t->vc, it->second); } else { x.rd[c.t->id]++; hbAcquire(m); }
  return ret0(c, 0);
}
static HR hMutexTimed(CallCtx &c) { return timedMutex(c, A(0), tsNs(A(1))); }
static HR hMutexClock(CallCtx &c) { return timedMutex(c, A(0), tsNs(A(2))); }
static HR hRdTimed(CallCtx &c) { return timedRw(c, A(0), tsNs(A(1)), false); }
static HR hRdClock(CallCtx &c) { return timedRw(c, A(0), tsNs(A(2)), false); }
static HR hWrTimed(CallCtx &c) { return timedRw(c, A(0), tsNs(A(1)), true); }
static HR hWrClock(CallCtx &c) { return timedRw(c, A(0), tsNs(A(2)), true); }
static void wakeQ(std::deque<int> &q, u64 n) { while (n-- && !q.empty()) { threads[q.front()]->notified = true; q.pop_front(); } }
static HR condWait(CallCtx &c, u64 cv, u64 m, bool timed, u64 dl) {
  Thread *t = c.t;
  if (t->phase == 0) {
    if (!schedPoint(t)) return H_RETRY;
    checkAccess(cv, 48, true); checkAccess(m, 40, true); Mx &x = mxs[m];
    if (x.owner != t->id) { violation("lock", "condition wait without holding the mutex"); endPath("violation"); }
    x.owner = -1; x.count = 0; hbRelease(m); cvq[cv].push_back(t->id); t->phase = 1;
    return block(t, W_COND, cv, timed, dl);
  }
  if (t->phase == 1) {
    bool to = t->timedOut && !t->notified;
    if (to) { auto &q = cvq[cv]; for (auto it = q.begin(); it != q.end(); ++it) if (*it == t->id) { q.erase(it); break; } }
    if (badAccess(cv, 48, true)) { violation("memory", "condition variable used after free"); endPath("violation"); }
    t->phase = to ? 3 : 2;
  }
  Mx &x = mxs[m]; int ph = t->phase;
  if (x.owner >= 0) { HR r = block(t, W_MUTEX, m); t->phase = ph; return r; }
  x.owner = t->id; x.count = 1; hbAcquire(m); return ret0(c, ph == 3 ? ETIMEDOUT : 0);
}
static u64 tsNs(u64 p) { u64 s = memLoad(p, 8, 64).lo, n = memLoad(p + 8, 8, 64).lo; i64 ss = (i64)s; if (ss < 0) return 0; if (s > 9000000000ull) return ~0ull - 1; return s * 1000000000ull + n; }
static HR hCondClockWait(CallCtx &c) { return condWait(c, A(0), A(1), true, tsNs(A(3))); }
static HR hCondTimedWait(CallCtx &c) { return condWait(c, A(0), A(1), true, tsNs(A(2))); }
static HR hCvWait(CallCtx &c) { u64 lk = A(1); return condWait(c, A(0), memLoad(lk, 8, 64).lo, false, 0); }
static HR hPCondWait(CallCtx &c) { return condWait(c, A(0), A(1), false, 0); }
static HR hNotifyAll(CallCtx &c) { if (!schedPoint(c.t)) return H_RETRY; checkAccess(A(0), 48, true); wakeQ(cvq[A(0)], ~0ull); return ret0(c, 0); }
static HR hNotifyOne(CallCtx &c) { if (!schedPoint(c.t)) return H_RETRY; checkAccess(A(0), 48, true); wakeQ(cvq[A(0)], 1); return ret0(c, 0); }
static HR hCvCtor(CallCtx &c) { memset((void *)A(0), 0, 48); return H_DONE; }
static HR hSyscall(CallCtx &c) {
  u64 nr = A(0);
  if (nr == SYS_futex) {
    u64 a = A(1), op = A(2) & 127; u64 val = A(3);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Thread *t = c.t;
      if (t->phase == 0) {
        checkAccess(a, 4, false); Val v = memLoad(a, 4, 32); hbAtomic(a);
        if ((u32)concretize(v, 32) != (u32)val) { *(u32 *)errnoCell() = EAGAIN; return ret0(c, ~0ull); }
        fxq[a].push_back(t->id); t->phase = 1; u64 ts = A(4);
        bool timed = ts != 0; u64 dl = timed ? (op == FUTEX_WAIT ? clockNs + tsNs(ts) : tsNs(ts)) : 0;
        return block(t, W_FUTEX, a, timed, dl);
      }
      auto &q = fxq[a]; for (auto it = q.begin(); it != q.end(); ++it) if (*it == t->id) { q.erase(it); break; }
      if (t->timedOut && !t->notified) { *(u32 *)errnoCell() = ETIMEDOUT; return ret0(c, ~0ull); }
      return ret0(c, 0);
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wakeQ(fxq[a], val); return ret0(c, 0); }
  }
  if (nr == SYS_gettid) return ret0(c, 0x1000 + c.t->id);
  engineError("system call " + std::to_string(nr)); return H_DONE;
}
static HR hFutureWait(CallCtx &c) {   // __atomic_futex_unsigned_base::_M_futex_wait_until[_steady](unsigned *, unsigned, bool timed, seconds, nanoseconds)
  Thread *t = c.t; u64 a = A(1);
  if (t->phase == 0) {
    checkAccess(a, 4, false); Val v = memLoad(a, 4, 32); hbAtomic(a);
    if ((u32)concretize(v, 32) != (u32)A(2)) return ret0(c, 1);
    fxq[a].push_back(t->id); t->phase = 1; bool timed = A(3) & 1; return block(t, W_FUTEX, a, timed, timed ? A(4) * 1000000000ull + A(5) : 0);
  }
  auto &q = fxq[a]; for (auto it = q.begin(); it != q.end(); ++it) if (*it == t->id) { q.erase(it); break; }
  return ret0(c, t->timedOut && !t->notified ? 0 : 1);
}
static HR hFutureNotify(CallCtx &c) { wakeQ(fxq[A(0)], ~0ull); return H_DONE; }
static HR hYield(CallCtx &c) {
  if (c.t->phase == 0) { bool other = false; for (Thread *u : threads) if (u != c.t && enabled(u)) other = true; if (other) { c.t->phase = 1; c.t->yielded = true; return H_RETRY; } 
    // nobody else can run: a spinning thread waits for a timer
    if (++c.t->yieldAlone < 12) return ret0(c, 0);
    c.t->yieldAlone = 0;
    u64 best = ~0ull; for (Thread *u : threads) if (!u->finished && u->blocked && u->timed) best = std::min(best, u->deadline);
    if (best != ~0ull) { c.t->phase = 1; return block(c.t, W_SLEEP, 0, true, best); }
    if (++advances > (u64)opt.maxAdvance * 100) { violation("hang", "a thread spins for something that never happens"); endPath("violation"); }
  }
  return ret0(c, 0);
}
static HR sleepUntil(CallCtx &c, u64 dl) { if (c.t->phase == 0) { c.t->phase = 1; return block(c.t, W_SLEEP, 0, true, dl); } return ret0(c, 0); }
static HR hNanosleep(CallCtx &c) { return sleepUntil(c, c.t->phase ? 0 : clockNs + tsNs(A(0))); }
static HR hClockNanosleep(CallCtx &c) { if (c.t->phase) return ret0(c, 0); u64 t = tsNs(A(2)); return sleepUntil(c, (A(1) & 1) ? t : clockNs + t); }
static HR hUsleep(CallCtx &c) { return sleepUntil(c, c.t->phase ? 0 : clockNs + A(0) * 1000); }
static HR hNow(CallCtx &c) { clockNs += 100; return ret0(c, clockNs); }
static HR hClockGettime(CallCtx &c) { memStore(A(1), 8, 64, CV(clockNs / 1000000000)); memStore(A(1) + 8, 8, 64, CV(clockNs % 1000000000)); return ret0(c, 0); }
static HR hGuardAcq(CallCtx &c) { u64 g = A(0); if (!schedPoint(c.t)) return H_RETRY; hbAtomic(g); if (*(u8 *)g) return ret0(c, 0); if (mxs[g].owner >= 0 && mxs[g].owner != c.t->id) return block(c.t, W_MUTEX, g); mxs[g].owner = c.t->id; return ret0(c, 1); }
static HR hGuardRel(CallCtx &c) { u64 g = A(0); *(u8 *)g = 1; mxs[g].owner = -1; hbAtomic(g); return H_DONE; }
static HR hGuardAbort(CallCtx &c) { mxs[A(0)].owner = -1; return H_DONE; }
static HR hOnce(CallCtx &c) { return redirect(c, "rt_once"); }

// ------------------------------------------------------------------ random numbers
static HR hRandDev(CallCtx &c) { c.ret[0] = freshSym("rd", 32, 0, ~0u, false); return H_DONE; }
// A generator made from a random device, a clock, an address, ... may return any value of its range; one made from a constant, from
// nothing, or from a small number (a size, a counter; clocks and addresses are larger) returns what the library's own generator returns: such a program makes the same choices in every run.
struct Rng { int kind; std::mt19937_64 w; std::mt19937 n; std::minstd_rand s; std::minstd_rand0 s0; };
static std::unordered_map<u64, Rng> fixedRng;
static HR hRngSeed(CallCtx &c) {
  const std::string d = demangled(c.fn->name); auto *B = llvm::dyn_cast<llvm::CallBase>(c.in->I); u64 at = A(0); fixedRng.erase(at);
  Rng r; r.kind = d.find("mersenne_twister_engine<unsigned long, 64ul, 312ul, 156ul, 31ul") != std::string::npos ? 1 : d.find("mersenne_twister_engine<unsigned long, 32ul, 624ul, 397ul, 31ul") != std::string::npos ? 2 : d.find("linear_congruential_engine<unsigned long, 48271ul") != std::string::npos ? 3 : d.find("linear_congruential_engine<unsigned long, 16807ul") != std::string::npos ? 4 : 0;
  if (!r.kind || !B || B->arg_size() > 2) return H_DONE;
  if (B->arg_size() == 2) { auto *k = llvm::dyn_cast<llvm::ConstantInt>(B->getArgOperand(1)); if (!k && (c.args[1].s || c.args[1].lo >> 19)) return H_DONE; u64 v = c.args[1].lo; r.w.seed(v); r.n.seed(v); r.s.seed(v); r.s0.seed(v); }
  fixedRng.emplace(at, r); return H_DONE;
}
static Rng *fixedAt(u64 p) { auto it = fixedRng.find(p); return it == fixedRng.end() ? nullptr : &it->second; }
template <class F> static u64 withRng(Rng *r, F f) { return r->kind == 1 ? f(r->w) : r->kind == 2 ? f(r->n) : r->kind == 3 ? f(r->s) : f(r->s0); }
static void rngUsed(u64 p) { if (nThreadsEver > 1) raceAccess(p, 8, true, false); }   // a generator that several threads use needs a lock
static HR hRngCall(CallCtx &c) {   // any value of the engine's range
  rngUsed(A(0));
  if (Rng *r = fixedAt(A(0))) { c.ret[0] = CV(withRng(r, [](auto &g) { return (u64)g(); })); return H_DONE; }
  static std::unordered_map<FnInfo *, std::pair<u64, u64>> ranges; unsigned w = c.fn->F->getReturnType()->getIntegerBitWidth();
  auto it = ranges.find(c.fn);
  if (it == ranges.end()) {
    std::string d = demangled(c.fn->name); u64 lo = 0, hi = w == 64 ? ~0ull : (1ull << w) - 1; size_t p = d.find('<'); std::vector<u64> a;
    while (p != std::string::npos && a.size() < 3) { p = d.find(',', p); if (p != std::string::npos) a.push_back(strtoull(d.c_str() + ++p, nullptr, 10)); }
    if (d.find("mersenne") != std::string::npos && a.size() && a[0] && a[0] < 64) hi = (1ull << a[0]) - 1;
    if (d.find("linear_congruential") != std::string::npos && a.size() == 3) { lo = a[1] ? 0 : 1; if (a[2]) hi = a[2] - 1; }
    it = ranges.insert({ c.fn, { lo, hi } }).first;
  }
  c.ret[0] = freshSym("rng", w, it->second.first, it->second.second, true); return H_DONE;
}
static u64 orderMode = 0; // 0: any order, 1/2: the random choices always take the first/last value (harness bound)
static HR hUniform(CallCtx &c) {
  rngUsed(A(1));
  unsigned w = c.fn->F->getReturnType()->getIntegerBitWidth(); u64 p = A(2); Val a = memLoad(p, w / 8, w), b = memLoad(p + w / 8, w / 8, w);
  u64 x = concretize(a, w), y = concretize(b, w), n = y - x + 1; if (w < 64) n &= (1ull << w) - 1;
  if (Rng *r = fixedAt(A(1))) { c.ret[0] = CV(withRng(r, [&](auto &g) { return (u64)std::uniform_int_distribution<u64>(x, y)(g); })); return H_DONE; }
  if (n == 0 || n > 5000) { Val v = freshSym("uniform", w, x, y, true); c.ret[0] = v; return H_DONE; }
  if (n > 1 && orderMode) { c.ret[0] = CV(orderMode == 1 ? x : y); return H_DONE; }
  c.ret[0] = CV(x + symChoice("shuffle", n)); return H_DONE;
}
static bool randFree = false;   // srand was called with something that is no constant
static std::minstd_rand randState;
static HR hSrand(CallCtx &c) { auto *B = llvm::dyn_cast<llvm::CallBase>(c.in->I); auto *k = B && B->arg_size() == 1 ? llvm::dyn_cast<llvm::ConstantInt>(B->getArgOperand(0)) : nullptr; randFree = !k; if (k) randState.seed(k->getZExtValue()); return H_DONE; }
static HR hRand(CallCtx &c) { if (!randFree) { c.ret[0] = CV(randState() & 0x7fffffff); return H_DONE; } c.ret[0] = freshSym("rand", 32, 0, 0x7fffffff, true); return H_DONE; }

// ------------------------------------------------------------------ output streams
// What was written to the harness's stream. Numbers are the runs of digits and the marks of symbolic numbers, everything else is text.
struct OutItem { bool num; std::string text; Val v; };
static std::string outRaw; static std::ostream *symStream;
static void outText(u64 o, const std::string &s) { if (o == (u64)symStream) outRaw += s; }
static void outNum(u64 o, const Val &v, unsigned w = 64) { outText(o, v.s ? markOf(v, w) : std::to_string((unsigned long)v.lo)); }
static const std::vector<OutItem> &outLog() {
  static std::vector<OutItem> r; static size_t seen = 0; static std::string was; if (seen == outRaw.size() && was == outRaw) return r;
  r.clear(); u64 m; auto dig = [&](size_t i) { return outRaw[i] >= '0' && outRaw[i] <= '9'; };
  for (size_t i = 0; i < outRaw.size();) {
    if (markAt(outRaw, i, m)) { r.push_back({ true, "", marks[m] }); i += markLen; continue; }
    bool d = dig(i); size_t j = i; while (j < outRaw.size() && dig(j) == d && !markAt(outRaw, j, m)) j++;
    std::string t = outRaw.substr(i, j - i); r.push_back({ d, d ? "" : t, d ? CV(strtoull(t.c_str(), nullptr, 10)) : CV(0) }); i = j;
  }
  seen = outRaw.size(); was = outRaw; return r;
}
static std::string bytesAt(u64 p, u64 n) { checkAccess(p, n, false); if (rangeHasSym(p, n)) return std::string(n, '?'); return std::string((char *)p, n); }
// string streams of the program: the library's own code formats the text; symbolic characters are kept beside it and restored by str()
struct BufPeek : std::stringbuf { static u64 at(std::stringbuf *b) { BufPeek *p = (BufPeek *)b; return p->pptr() ? p->pptr() - p->pbase() : 0; } };
static std::stringbuf *bufOf(u64 o) { return inArena(o) ? dynamic_cast<std::stringbuf *>(((std::ostream *)o)->rdbuf()) : nullptr; }
static std::unordered_map<std::stringbuf *, std::map<u64, Val>> symText;
template <class F> static bool toStream(u64 o, const std::vector<Val> &syms, F f) {
  std::stringbuf *b = bufOf(o); if (!b) return false;
  u64 p = BufPeek::at(b); f(*(std::ostream *)o); u64 q = BufPeek::at(b); auto it = symText.find(b);
  if (it != symText.end()) it->second.erase(it->second.lower_bound(p), it->second.end());
  for (size_t i = 0; i < syms.size() && p + i < q; i++) if (syms[i].s) symText[b][q - syms.size() + i] = syms[i];
  return true;
}
static std::vector<Val> bytesOf(u64 p, u64 n) { std::vector<Val> v; for (u64 i = 0; i < n; i++) v.push_back(memLoad(p + i, 1, 8)); return v; }
static HR outRet(CallCtx &c) { c.ret[0] = c.args[0]; return H_DONE; }
static HR hOInsert(CallCtx &c) {
  u64 o = A(0), n = A(2), p = A(1); if (nThreadsEver > 1) raceAccess(p, n, false, false);
  if (o == (u64)symStream && rangeHasSym(p, n)) for (u64 i = 0; i < n; i++) { Val v = memLoad(p + i, 1, 8); if (v.s) { u64 x = concretize(v, 8); memStore(p + i, 1, 8, CV(x)); } }
  std::string t = bytesAt(p, n); bool w = c.fn->name == "_ZNSo5writeEPKcl";
  if (!toStream(o, rangeHasSym(p, n) ? bytesOf(p, n) : std::vector<Val>(), [&](std::ostream &s) { if (w) s.write(t.data(), n); else std::__ostream_insert(s, t.data(), (std::streamsize)n); })) outText(o, t);
  return outRet(c);
}
static HR hOCstr(CallCtx &c) {
  u64 o = A(0), p = A(1); if (!p) return outRet(c);
  std::string s; bool ok = cstr(p, s);
  if (!ok) { s += "?"; warnOnce("a C string with symbolic characters is written to a stream"); }
  if (!toStream(o, {}, [&](std::ostream &x) { x << s.c_str(); })) outText(o, s);
  return outRet(c);
}
template <class T> static HR numOut(CallCtx &c, unsigned w) {
  u64 o = A(0); Val v = c.args[1];
  if (o == (u64)symStream) {
    if (w < 64) v = castop(std::is_signed<T>::value ? OP_SEXT : OP_ZEXT, 64, w, v);
    if (std::is_signed<T>::value) { Val neg = icmp(CmpInst::ICMP_SLT, 64, v, CV(0)); if (neg.s ? branchOn(neg.s) : neg.lo) { outText(o, "-"); v = binop(OP_SUB, 64, CV(0), v); } }
    outNum(o, v); return outRet(c);
  }
  if (!bufOf(o)) return outRet(c);
  if (!v.s) toStream(o, {}, [&](std::ostream &x) { x << (T)v.lo; });
  else if (preciseToString && !std::is_signed<T>::value && w >= 32) {
    u64 L = forkLength(v, w); std::vector<Val> d = decimalDigits(v, w, L); std::string t(L, '0');
    toStream(o, d, [&](std::ostream &x) { std::__ostream_insert(x, t.data(), (std::streamsize)L); });
  } else if (preciseToString) { u64 k = concretize(v, w); toStream(o, {}, [&](std::ostream &x) { x << (T)k; }); }
  else {
    if (std::is_signed<T>::value) { Val neg = icmp(CmpInst::ICMP_SLT, w, v, CV(0)); if (neg.s ? branchOn(neg.s) : neg.lo) { toStream(o, {}, [&](std::ostream &x) { x << "-"; }); v = binop(OP_SUB, w, CV(0), v); } }
    std::string t = markOf(v, w); toStream(o, {}, [&](std::ostream &x) { x << t; });
  }
  return outRet(c);
}
static HR hOutUl(CallCtx &c) { return numOut<unsigned long>(c, 64); }
static HR hOutL(CallCtx &c) { return numOut<long>(c, 64); }
static HR hOutU(CallCtx &c) { return numOut<unsigned>(c, 32); }
static HR hOutI(CallCtx &c) { return numOut<int>(c, 32); }
static HR hOutB(CallCtx &c) { return numOut<bool>(c, 1); }
static HR hPut(CallCtx &c) { u64 o = A(0); Val v = c.args[1]; char ch = v.s ? '?' : (char)v.lo; if (!toStream(o, v.s ? std::vector<Val>{ v } : std::vector<Val>(), [&](std::ostream &x) { x.put(ch); })) outText(o, std::string(1, ch)); return outRet(c); }
static HR hFlush(CallCtx &c) { return outRet(c); }
static HR strOf(CallCtx &c, std::stringbuf *b) {
  u64 at = A(0); std::string t = b->str(); u64 p = mkStdString(at, t); auto it = symText.find(b);
  if (it != symText.end()) for (auto &k : it->second) if (k.first < t.size()) memStore(p + k.first, 1, 8, k.second);
  return H_DONE;
}
static HR hBufStr(CallCtx &c) { return strOf(c, (std::stringbuf *)A(1)); }
static HR hOssStr(CallCtx &c) { return strOf(c, ((std::ostringstream *)A(1))->rdbuf()); }
static HR hSsStr(CallCtx &c) { return strOf(c, ((std::stringstream *)A(1))->rdbuf()); }
static HR viewOf(CallCtx &c, std::stringbuf *b) {   // the text as str() gives it, in a block of its own that is not counted as the program's
  std::string t = b->str(); u64 p = allocHeap(t.size() + 1, 16); auto it = symText.find(b);
  for (size_t i = 0; i < t.size(); i++) memStore(p + i, 1, 8, CV((u8)t[i]));
  if (it != symText.end()) for (auto &k : it->second) if (k.first < t.size()) memStore(p + k.first, 1, 8, k.second);
  c.ret[0] = CV(t.size()); c.ret[1] = CV(p); return H_DONE;
}
static HR hBufView(CallCtx &c) { return viewOf(c, (std::stringbuf *)A(0)); }
static HR hOssView(CallCtx &c) { return viewOf(c, ((std::ostringstream *)A(0))->rdbuf()); }
static HR hSsView(CallCtx &c) { return viewOf(c, ((std::stringstream *)A(0))->rdbuf()); }
static HR hLogl(CallCtx &c) { c.ret[0] = fpPut(__builtin_logl(fpVal(c.args[0], c.ci->argfp[0])), c.ci->retfp); return H_DONE; }

// ------------------------------------------------------------------ harness interface
static std::string nameArg(CallCtx &c, int i = 0) { std::string s; cstr(A(i), s); return s; }
static HR hSymU64(CallCtx &c) { c.ret[0] = freshSym(nameArg(c), 64, 0, ~0ull, false); return H_DONE; }
static HR hSymU8(CallCtx &c) { c.ret[0] = freshSym(nameArg(c), 8, 0, 255, false); return H_DONE; }
static HR hSymU32(CallCtx &c) { c.ret[0] = freshSym(nameArg(c), 32, 0, ~0u, false); return H_DONE; }
static HR hSymRange(CallCtx &c) { c.ret[0] = freshSym(nameArg(c), 64, A(1), A(2), true); return H_DONE; }
static HR hSymBool(CallCtx &c) { Val v = freshSym(nameArg(c), 1, 0, 1, false); c.ret[0] = v; return H_DONE; }
static HR hSymChoice(CallCtx &c) { return ret0(c, symChoice(nameArg(c), A(1))); }
static HR hSymAssume(CallCtx &c) { Val v = c.args[0]; symAssume(v); return H_DONE; }
static HR hSymAssert(CallCtx &c) { symAssert(c.args[0], nameArg(c, 1)); return H_DONE; }
static HR hSymFail(CallCtx &c) { symAssert(CV(0), nameArg(c)); return H_DONE; }
static HR hSymCover(CallCtx &c) { coverHit(nameArg(c)); return H_DONE; }
static HR hSymEngine(CallCtx &c) { return ret0(c, 1); }
static HR hSymTier(CallCtx &c) { return ret0(c, opt.tier); }
static HR hSymTid(CallCtx &c) { return ret0(c, c.t->id); }
static HR hSymConfig(CallCtx &c) { std::string k = nameArg(c); if (k == "precise_to_string") preciseToString = A(1); else if (k == "no_preempt") noPreempt = A(1); else if (k == "order") orderMode = A(1); else if (k == "acquire") { for (Thread *o : threads) if (o != cur && o->slot >= 0) { vjoin(cur->vc, o->vc); o->vc[o->slot]++; } }   // what the others have done happens before
  else if (k == "max_advance") opt.maxAdvance = A(1); else engineError("unknown configuration " + k); return H_DONE; }
static HR hSymIdle(CallCtx &c) { if (c.t->phase == 0) { c.t->phase = 1; c.t->idleLeft = A(0); HR r = block(c.t, W_IDLE, 0); return r; } return H_DONE; }
static HR hSymConc(CallCtx &c) { Val v = c.args[0]; return ret0(c, concretize(v, 64)); }
static HR hSymOut(CallCtx &c) { if (!symStream) symStream = new std::ostream(nullptr); return ret0(c, (u64)symStream); }
static HR hOutCount(CallCtx &c) { return ret0(c, outLog().size()); }
static HR hOutIsNum(CallCtx &c) { return ret0(c, outLog().at(A(0)).num); }
static HR hOutNum(CallCtx &c) { c.ret[0] = outLog().at(A(0)).v; return H_DONE; }
static HR hHostFile(CallCtx &c) {
  std::string path; if (!cstr(A(0), path)) engineError("symbolic file name"); FILE *f = fopen(path.c_str(), "rb"); if (!f) return ret0(c, 0);
  std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
  u64 p = allocGlobal(s.size() + 1, 16, true); memcpy((void *)p, s.c_str(), s.size() + 1); return ret0(c, p);
}
static HR hOutText(CallCtx &c) { std::string s = outLog().at(A(0)).text; for (char &x : s) if (!x) x = 3; u64 p = allocHeap(s.size() + 1, 16); memcpy((void *)p, s.c_str(), s.size() + 1); return ret0(c, p); }
static HR hOutClear(CallCtx &c) { outRaw.clear(); return H_DONE; }
static HR hPrint(CallCtx &c) { if (opt.verbose || opt.replay) fprintf(stderr, "[harness] %s %llu%s\n", nameArg(c).c_str(), (unsigned long long)c.args[1].lo, c.args[1].s ? (std::string(" sym ") + Z3_ast_to_string(zc, c.args[1].s)).c_str() : ""); return H_DONE; }
static HR hClock(CallCtx &c) { return ret0(c, clockNs); }
static HR hAlive(CallCtx &c) { u64 n = 0; for (Thread *u : threads) n += !u->finished; return ret0(c, n); }

// ------------------------------------------------------------------ llvm intrinsics
static HR hOverflow(CallCtx &c) {
  unsigned w = c.args ? cast<IntegerType>(c.in->I->getOperand(0)->getType())->getBitWidth() : 0; Val a = c.args[0], b = c.args[1];
  auto id = cast<Function>(c.fn->F)->getIntrinsicID();
  if (!a.s && !b.s && w <= 64) {
    u128 r; bool o;
    auto sxx = [w](u64 v) { return (i128)((i64)(v << (64 - w)) >> (64 - w)); };
    if (id == Intrinsic::uadd_with_overflow) { r = (u128)a.lo + b.lo; o = (r >> w) != 0; }
    else if (id == Intrinsic::usub_with_overflow) { r = (u128)a.lo - b.lo; o = a.lo < b.lo; }
    else if (id == Intrinsic::umul_with_overflow) { r = (u128)a.lo * b.lo; o = (r >> w) != 0; }
    else { i128 q = id == Intrinsic::sadd_with_overflow ? sxx(a.lo) + sxx(b.lo) : id == Intrinsic::ssub_with_overflow ? sxx(a.lo) - sxx(b.lo) : sxx(a.lo) * sxx(b.lo); r = (u128)q; o = q != sxx((u64)q & (w == 64 ? ~0ull : (1ull << w) - 1)); }
    c.ret[0] = CV(w == 64 ? (u64)r : (u64)r & ((1ull << w) - 1)); c.ret[1] = CV(o); return H_DONE;
  }
  if (id == Intrinsic::uadd_with_overflow) { c.ret[0] = binop(OP_ADD, w, a, b); c.ret[1] = icmp(CmpInst::ICMP_ULT, w, c.ret[0], a); }
  else if (id == Intrinsic::usub_with_overflow) { c.ret[0] = binop(OP_SUB, w, a, b); c.ret[1] = icmp(CmpInst::ICMP_ULT, w, a, b); }
  else if (id == Intrinsic::umul_with_overflow) {
    c.ret[0] = binop(OP_MUL, w, a, b);
    if (!b.s && b.lo) { u64 lim = (w == 64 ? ~0ull : (1ull << w) - 1) / b.lo; c.ret[1] = icmp(CmpInst::ICMP_UGT, w, a, CV(lim)); }
    else if (!a.s && a.lo) { u64 lim = (w == 64 ? ~0ull : (1ull << w) - 1) / a.lo; c.ret[1] = icmp(CmpInst::ICMP_UGT, w, b, CV(lim)); }
    else c.ret[1] = fromAst(Z3_mk_not(zc, Z3_mk_bvmul_no_overflow(zc, toAst(a, w), toAst(b, w), false)), 1);
  } else {
    bool add = id == Intrinsic::sadd_with_overflow, sub = id == Intrinsic::ssub_with_overflow;
    c.ret[0] = binop(add ? OP_ADD : sub ? OP_SUB : OP_MUL, w, a, b); Z3_ast x = toAst(a, w), y = toAst(b, w); Z3_ast k[2];
    if (add) { k[0] = Z3_mk_bvadd_no_overflow(zc, x, y, true); k[1] = Z3_mk_bvadd_no_underflow(zc, x, y); }
    else if (sub) { k[0] = Z3_mk_bvsub_no_overflow(zc, x, y); k[1] = Z3_mk_bvsub_no_underflow(zc, x, y, true); }
    else { k[0] = Z3_mk_bvmul_no_overflow(zc, x, y, true); k[1] = Z3_mk_bvmul_no_underflow(zc, x, y); }
    Z3_inc_ref(zc, k[0]); Z3_inc_ref(zc, k[1]);
    c.ret[1] = fromAst(Z3_mk_not(zc, Z3_mk_and(zc, 2, k)), 1);
  }
  return H_DONE;
}
static HR hMinMax(CallCtx &c) {
  unsigned w = cast<IntegerType>(c.in->I->getType())->getBitWidth(); Val a = c.args[0], b = c.args[1]; auto id = c.fn->F->getIntrinsicID();
  u8 p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
  Val k = icmp(p, w, a, b); c.ret[0] = k.s ? iteVal(k.s, a, b, w) : (k.lo ? a : b); return H_DONE;
}
static HR hSat(CallCtx &c) {
  unsigned w = cast<IntegerType>(c.in->I->getType())->getBitWidth(); Val a = c.args[0], b = c.args[1]; auto id = c.fn->F->getIntrinsicID(); Val r{}, k{}, lim{};
  if (id == Intrinsic::usub_sat) { r = binop(OP_SUB, w, a, b); k = icmp(CmpInst::ICMP_ULT, w, a, b); lim = CV(0); }
  else if (id == Intrinsic::uadd_sat) { r = binop(OP_ADD, w, a, b); k = icmp(CmpInst::ICMP_ULT, w, r, a); lim = CV(w == 64 ? ~0ull : (1ull << w) - 1); }
  else { engineError("signed saturation"); }
  c.ret[0] = k.s ? iteVal(k.s, lim, r, w) : (k.lo ? lim : r); return H_DONE;
}
static HR hBits(CallCtx &c) {
  unsigned w = cast<IntegerType>(c.in->I->getType())->getBitWidth(); auto id = c.fn->F->getIntrinsicID();
  if (id == Intrinsic::fshl || id == Intrinsic::fshr) {
    u64 sh = concretize(c.args[2], w) % w; Val a = c.args[0], b = c.args[1];
    if (id == Intrinsic::fshr) sh = (w - sh) % w;
    if (sh == 0) { c.ret[0] = id == Intrinsic::fshr ? b : a; return H_DONE; }
    c.ret[0] = binop(OP_OR, w, binop(OP_SHL, w, a, CV(sh)), binop(OP_LSHR, w, b, CV(w - sh))); return H_DONE;
  }
  if (id == Intrinsic::abs) { Val a = c.args[0], n = binop(OP_SUB, w, CV(0), a), k = icmp(CmpInst::ICMP_SLT, w, a, CV(0)); c.ret[0] = k.s ? iteVal(k.s, n, a, w) : (k.lo ? n : a); return H_DONE; }
  Val &v = c.args[0];
  if (v.s && (id == Intrinsic::ctlz || id == Intrinsic::cttz)) {
    Val r = CV(w);
    if (id == Intrinsic::ctlz) { for (unsigned i = 0; i < w; i++) { Val b = castop(OP_TRUNC, 1, w, binop(OP_LSHR, w, v, CV(i))); r = b.s ? iteVal(b.s, CV(w - 1 - i), r, w) : (b.lo ? CV(w - 1 - i) : r); } }
    else for (int i = w - 1; i >= 0; i--) { Val b = castop(OP_TRUNC, 1, w, binop(OP_LSHR, w, v, CV(i))); r = b.s ? iteVal(b.s, CV(i), r, w) : (b.lo ? CV(i) : r); }
    c.ret[0] = r; return H_DONE;
  }
  u64 x = concretize(v, w), r = 0;
  switch (id) {
  case Intrinsic::ctlz: r = w; for (unsigned i = 0; i < w; i++) if (x >> (w - 1 - i) & 1) { r = i; break; } break;
  case Intrinsic::cttz: r = w; for (unsigned i = 0; i < w; i++) if (x >> i & 1) { r = i; break; } break;
  case Intrinsic::ctpop: r = __builtin_popcountll(x); break;
  case Intrinsic::bswap: r = __builtin_bswap64(x) >> (64 - w); break;
  default: engineError("bit intrinsic"); }
  return ret0(c, r);
}
static HR hCopy0(CallCtx &c) { c.ret[0] = c.args[0]; return H_DONE; }
static HR hTypeId(CallCtx &c) { return ret0(c, typeIdFor(A(0))); }
static HR hIsConst(CallCtx &c) { return ret0(c, 0); }
static HR hObjSize(CallCtx &c) { return ret0(c, ~0ull); }
static HR hStackSave(CallCtx &c) { return ret0(c, 0); }
std::unordered_map<u64, std::string> tlsImage;   // initial contents of the thread_local variables
static HR hTls(CallCtx &c) {
  static std::map<std::pair<u64, int>, u64> copies; u64 g = A(0); if (c.t->id == 0) { c.ret[0] = CV(g); return H_DONE; }
  auto &x = copies[{ g, c.t->id }];
  if (!x) {
    auto it = tlsImage.find(g);
    if (it == tlsImage.end()) { x = allocGlobal(64, 16, false); memset((void *)x, 0, 64); }
    else { x = allocGlobal(it->second.size(), 16, false); memcpy((void *)x, it->second.data(), it->second.size()); }
  }
  return ret0(c, x);
}
static HR hFpIntr(CallCtx &c) {
  u8 k = c.ci->retfp; long double x = fpVal(c.args[0], k); auto id = c.fn->F->getIntrinsicID();
  if (id == Intrinsic::fmuladd || id == Intrinsic::fma) { c.ret[0] = fpPut(x * fpVal(c.args[1], k) + fpVal(c.args[2], k), k); return H_DONE; }
  c.ret[0] = fpPut(id == Intrinsic::ceil ? __builtin_ceill(x) : id == Intrinsic::floor ? __builtin_floorl(x) : id == Intrinsic::fabs ? __builtin_fabsl(x) : __builtin_truncl(x), k); return H_DONE;
}
static HR hHash(CallCtx &c) { return ret0(c, 0x51ed2701); }
static HR hAssertFail(CallCtx &c) { violation("assertion", "assert() in the code fails"); endPath("violation"); }
static HR hExit(CallCtx &c) { if (A(0)) { violation("terminate", "the program exits with an error"); endPath("violation"); } endPath("done"); }
static HR hAtexit(CallCtx &c) { return ret0(c, 0); }
static HR hIosInit(CallCtx &c) { return H_DONE; }

static std::unordered_map<std::string, Handler> table;
void runtimeInit() {
  auto &t = table;
  t["__cxa_throw"] = hThrow; t["__cxa_allocate_exception"] = hAllocExc; t["__cxa_free_exception"] = hNop; t["__cxa_begin_catch"] = hBeginCatch; t["__cxa_end_catch"] = hEndCatch; t["__cxa_rethrow"] = hRethrow; t["__cxa_get_exception_ptr"] = hGetExcPtr;
  t["_ZSt9terminatev"] = t["abort"] = hTerminate; t["__cxa_pure_virtual"] = hPureVirtual; t["_ZSt17current_exceptionv"] = hCurrentException; t["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = hRethrowException;
  t["_ZSt19uncaught_exceptionsv"] = hUncaught; t["_ZSt18uncaught_exceptionv"] = hUncaughtB;
  t["_Znwm"] = t["_Znam"] = hNew; t["_ZnwmSt11align_val_t"] = t["_ZnamSt11align_val_t"] = hNewAl; t["_ZnwmRKSt9nothrow_t"] = t["_ZnamRKSt9nothrow_t"] = hNewNothrow; t["sym_faults"] = hFaults;
  for (auto n : { "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t" }) t[n] = hDelete;
  t["malloc"] = hMalloc; t["calloc"] = hCalloc; t["free"] = hFree; t["aligned_alloc"] = [](CallCtx &c) { return ret0(c, allocHeap(A(1), A(0))); };
  t["memcpy"] = t["memmove"] = hMemcpy; t["memset"] = hMemset; t["memcmp"] = t["bcmp"] = hMemcmp; t["strlen"] = hStrlen; t["strcmp"] = hStrcmp; t["memchr"] = hMemchr;
  t["__errno_location"] = hErrno; t["atol"] = t["atoll"] = hAtol; t["atoi"] = hAtoi; t["strtol"] = t["__isoc23_strtol"] = t["strtoll"] = t["__isoc23_strtoll"] = hStrtol; t["strtoul"] = t["__isoc23_strtoul"] = t["strtoull"] = t["__isoc23_strtoull"] = hStrtoul;
  t["_ZNSt7__cxx119to_stringEm"] = t["_ZNSt7__cxx119to_stringEj"] = t["_ZNSt7__cxx119to_stringEy"] = hToString;
  t["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = hStartThread; t["_ZNSt6thread4joinEv"] = hJoin; t["_ZNSt6thread6detachEv"] = hDetach; t["pthread_self"] = hSelf; t["_ZNSt6thread20hardware_concurrencyEv"] = hHwConc;
  t["pthread_mutex_lock"] = hMutexLock; t["pthread_mutex_trylock"] = hMutexTry; t["pthread_mutex_unlock"] = hMutexUnlock; t["pthread_mutex_init"] = [](CallCtx &c) { memset((void *)A(0), 0, 40); return ret0(c, 0); };
  t["pthread_mutex_destroy"] = t["pthread_rwlock_destroy"] = t["pthread_cond_destroy"] = hNop;
  t["pthread_rwlock_rdlock"] = hRd; t["pthread_rwlock_wrlock"] = hWr; t["pthread_rwlock_tryrdlock"] = hTryRd; t["pthread_rwlock_trywrlock"] = hTryWr; t["pthread_rwlock_unlock"] = hRwUnlock;
  t["pthread_cond_clockwait"] = hCondClockWait; t["pthread_cond_timedwait"] = hCondTimedWait; t["pthread_cond_wait"] = hPCondWait; t["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = hCvWait;
  t["_ZNSt18condition_variable10notify_allEv"] = t["pthread_cond_broadcast"] = hNotifyAll; t["_ZNSt18condition_variable10notify_oneEv"] = t["pthread_cond_signal"] = hNotifyOne; t["_ZNSt18condition_variableC1Ev"] = hCvCtor; t["_ZNSt18condition_variableD1Ev"] = hNop;
  t["syscall"] = hSyscall; t["sched_yield"] = hYield; t["nanosleep"] = hNanosleep; t["clock_nanosleep"] = hClockNanosleep; t["usleep"] = hUsleep; t["_ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE"] = [](CallCtx &c) { return sleepUntil(c, c.t->phase ? 0 : clockNs + A(0) * 1000000000ull + A(1)); };
  t["_ZNSt6chrono3_V212steady_clock3nowEv"] = t["_ZNSt6chrono3_V212system_clock3nowEv"] = hNow; t["clock_gettime"] = hClockGettime;
  t["__cxa_guard_acquire"] = hGuardAcq; t["__cxa_guard_release"] = hGuardRel; t["__cxa_guard_abort"] = hGuardAbort; t["pthread_once"] = hOnce;
  t["_ZNSt13random_device9_M_getvalEv"] = hRandDev; t["_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = t["_ZNSt13random_device7_M_finiEv"] = hNop; t["rand"] = t["random"] = hRand; t["srand"] = t["srandom"] = hSrand;
  t["_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"] = hOInsert; t["_ZNSo5writeEPKcl"] = hOInsert; t["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"] = hOCstr;
  t["_ZNSo9_M_insertImEERSoT_"] = t["_ZNSo9_M_insertIyEERSoT_"] = t["_ZNSolsEm"] = t["_ZNSolsEy"] = hOutUl; t["_ZNSo9_M_insertIlEERSoT_"] = t["_ZNSo9_M_insertIxEERSoT_"] = t["_ZNSolsEl"] = t["_ZNSolsEx"] = hOutL;
  t["_ZNSolsEi"] = hOutI; t["_ZNSolsEj"] = hOutU; t["_ZNSo9_M_insertIbEERSoT_"] = t["_ZNSolsEb"] = hOutB; t["_ZNSo3putEc"] = hPut; t["_ZNSo5flushEv"] = hFlush;
  for (std::string q : { "_ZNKSt7__cxx11", "_ZNKRSt7__cxx11", "_ZNOSt7__cxx11" }) {   // str() const, str() const &, str() &&
    std::string e = "IcSt11char_traitsIcESaIcEE3strEv"; t[q + "15basic_stringbuf" + e] = hBufStr; t[q + "19basic_ostringstream" + e] = hOssStr; t[q + "18basic_stringstream" + e] = hSsStr;
  }
  t["_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE4viewEv"] = hBufView; t["_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE4viewEv"] = hOssView; t["_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE4viewEv"] = hSsView; t["logl"] = hLogl;
  t["__cxa_init_primary_exception"] = hInitPrimary; t["__cxa_thread_atexit"] = hAtexit;
  t["pthread_mutex_timedlock"] = hMutexTimed; t["pthread_mutex_clocklock"] = hMutexClock; t["pthread_rwlock_timedrdlock"] = hRdTimed; t["pthread_rwlock_clockrdlock"] = hRdClock; t["pthread_rwlock_timedwrlock"] = hWrTimed; t["pthread_rwlock_clockwrlock"] = hWrClock;
  for (auto n : { "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE" }) t[n] = hFutureWait;
  t["_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj"] = hFutureNotify;
  t["_ZNSt8ios_base4InitC1Ev"] = t["_ZNSt8ios_base4InitD1Ev"] = hIosInit; t["__cxa_atexit"] = t["atexit"] = hAtexit; t["__assert_fail"] = hAssertFail; t["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = hAssertFail; t["exit"] = hExit; t["_exit"] = hExit; t["_ZSt11_Hash_bytesPKvmm"] = t["_ZSt15_Fnv_hash_bytesPKvmm"] = hHash;
  t["sym_u64"] = hSymU64; t["sym_u8"] = hSymU8; t["sym_u32"] = hSymU32; t["sym_range"] = hSymRange; t["sym_bool"] = hSymBool; t["sym_choice"] = hSymChoice; t["sym_assume"] = hSymAssume; t["sym_assert"] = hSymAssert; t["sym_fail"] = hSymFail; t["sym_cover"] = hSymCover;
  t["sym_engine"] = hSymEngine; t["sym_tier"] = hSymTier; t["sym_tid"] = hSymTid; t["sym_config"] = hSymConfig; t["sym_idle"] = hSymIdle; t["sym_concretize"] = hSymConc; t["sym_ostream_"] = hSymOut; t["sym_out_count"] = hOutCount; t["sym_out_isnum"] = hOutIsNum; t["sym_out_num"] = hOutNum; t["sym_out_text"] = hOutText; t["sym_host_file"] = hHostFile; t["sym_out_clear"] = hOutClear; t["sym_print"] = hPrint; t["sym_clock"] = hClock; t["sym_alive"] = hAlive;
}
static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static Handler patternHandler(const std::string &d) {
  if (d.find("std::mersenne_twister_engine<") != std::string::npos || d.find("std::linear_congruential_engine<") != std::string::npos) {
    if (startsWith(d, "std::mersenne_twister_engine<") || startsWith(d, "std::linear_congruential_engine<") || startsWith(d, "void std::mersenne_twister_engine<") || startsWith(d, "void std::linear_congruential_engine<")) {
      size_t p = d.rfind(">::"); std::string m = p == std::string::npos ? "" : d.substr(p + 3);
      // the method name follows the closing bracket of the class at depth 0
      int depth = 0; size_t i = d.find('<'); for (; i < d.size(); i++) { if (d[i] == '<') depth++; else if (d[i] == '>' && --depth == 0) break; }
      m = d.substr(std::min(i + 3, d.size()));
      if (startsWith(m, "operator()()")) return hRngCall;
      if (startsWith(m, "mersenne_twister_engine") || startsWith(m, "linear_congruential_engine") || startsWith(m, "seed")) return hRngSeed;
      if (startsWith(m, "_M_gen_rand") || startsWith(m, "discard")) return hNop;
    }
  }
  if (d.find("std::__detail::__to_chars_len<unsigned") != std::string::npos) return hCharsLen;
  if (d.find("std::__detail::__to_chars_10_impl<unsigned") != std::string::npos) return hChars10;
  if (d.find("std::uniform_int_distribution<") != std::string::npos && d.find("::operator()<") != std::string::npos && d.size() > 18 && d.compare(d.size() - 18, 18, "param_type const&)") == 0 && d.find("std::uniform_int_distribution<") < d.find("::operator()<")) return hUniform;
  return nullptr;
}
bool isOverridden(const std::string &name) {
  if (table.count(name)) return name != "main";
  return patternHandler(demangled(name)) != nullptr;
}
Handler findHandler(FnInfo *f) {
  Function *F = f->F;
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return hMemcpy;
    case Intrinsic::memset: case Intrinsic::memset_inline: return hMemset;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return hOverflow;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return hMinMax;
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat: return hSat;
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::abs: return hBits;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: return hCopy0;
    case Intrinsic::eh_typeid_for: return hTypeId; case Intrinsic::trap: case Intrinsic::ubsantrap: return hTerminate; case Intrinsic::is_constant: return hIsConst; case Intrinsic::objectsize: return hObjSize;
    case Intrinsic::x86_sse2_pause: return hNop;
    case Intrinsic::stacksave: return hStackSave; case Intrinsic::stackrestore: return hNop; case Intrinsic::threadlocal_address: return hTls;
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::fabs: case Intrinsic::trunc: case Intrinsic::fmuladd: case Intrinsic::fma: return hFpIntr;
    default: engineError("unsupported intrinsic " + f->name);
    }
  }
  auto it = table.find(f->name); if (it != table.end()) return it->second;
  if (F->isDeclaration()) return patternHandler(demangled(f->name));
  return nullptr;
}
