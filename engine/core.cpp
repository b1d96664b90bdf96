// Bounded symbolic executor for LLVM bitcode: memory, solver, forking, interpreter.
#include "engine.h"
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>

using namespace llvm;

Options opt;
Shm *shm;
const DataLayout *DL;
Module *MOD;

double nowSec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ memory
u32 *granId; u8 *granSym;
std::vector<Obj> objs; std::vector<u32> freeObjIds;
u64 globTop = GLOB_BASE, heapTop = HEAP_BASE;
std::unordered_map<u64, SB> shadow;

void memInit() {
  void *r = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void *)ARENA) { fprintf(stderr, "arena mmap failed\n"); exit(3); }
  granId = (u32 *)mmap(nullptr, (ARENA_SIZE >> 4) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  granSym = (u8 *)mmap(nullptr, ARENA_SIZE >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  objs.push_back(Obj{});
}
static u32 newObj(u64 base, u64 size, u8 kind, int tid) {
  u32 id;
  if (kind == K_STACK && !freeObjIds.empty()) { id = freeObjIds.back(); freeObjIds.pop_back(); objs[id] = Obj{ base, size, kind, (u8)tid }; }
  else { id = objs.size(); objs.push_back(Obj{ base, size, kind, (u8)tid }); }
  u64 g = (base - ARENA) >> 4, e = (base + (size ? size : 1) - 1 - ARENA) >> 4;
  for (; g <= e; g++) granId[g] = id;
  return id;
}
u64 allocGlobal(u64 size, u64 align, bool ro) {
  if (align < 16) align = 16;
  globTop = (globTop + align - 1) & ~(align - 1);
  u64 p = globTop; newObj(p, size, ro ? K_CONST : K_GLOBAL, 0);
  globTop += (size + 31) & ~15ull;
  if (globTop > GLOB_BASE + GLOB_SIZE) engineError("global memory exhausted");
  return p;
}
u64 allocHeap(u64 size, u64 align) {
  if (align < 16) align = 16;
  if (size > (256u << 20)) return 0;
  heapTop = (heapTop + align - 1) & ~(align - 1);
  u64 p = heapTop;
  if (p + size + 32 > HEAP_BASE + HEAP_SIZE) engineError("heap exhausted");
  newObj(p, size, K_HEAP, cur ? cur->id : 0);
  heapTop += ((size + 15) & ~15ull) + 16;
  memset((void *)p, 0xAA, size);
  return p;
}
void clearSymRange(u64 a, u64 n) {
  for (u64 g = (a - ARENA) >> 4; g <= (a + n - 1 - ARENA) >> 4; g++)
    if (granSym[g]) {
      u64 b = ARENA + (g << 4);
      for (u64 x = std::max(a, b); x < std::min(a + n, b + 16); x++) if (shadow.erase(x)) granSym[g]--;
    }
}
bool rangeHasSym(u64 a, u64 n) {
  if (!inArena(a) || !n) return false;
  for (u64 g = (a - ARENA) >> 4; g <= (a + n - 1 - ARENA) >> 4; g++)
    if (granSym[g]) {
      u64 b = ARENA + (g << 4);
      for (u64 x = std::max(a, b); x < std::min(a + n, b + 16); x++) if (shadow.count(x)) return true;
    }
  return false;
}
static std::string objDesc(const Obj &o) {
  static const char *kn[] = { "none", "global", "constant", "stack", "heap", "freed heap" };
  return std::string(kn[o.kind]) + " object of " + std::to_string(o.size) + " bytes";
}
void freeHeap(u64 p, const char *what) {
  if (!p) return;
  if (!inArena(p)) { ::free((void *)p); return; }
  u32 id = granId[(p - ARENA) >> 4];
  Obj &o = objs[id];
  if (id == 0 || (o.kind != K_HEAP && o.kind != K_FREED)) { violation("memory", std::string("invalid ") + what + " of a pointer that is not a heap object"); endPath("violation"); }
  if (o.kind == K_FREED) { violation("memory", std::string("double ") + what); endPath("violation"); }
  if (o.base != p) { violation("memory", std::string("invalid ") + what + " of an interior pointer"); endPath("violation"); }
  if (nThreadsEver > 1) raceAccess(p, o.size, true, true);
  o.kind = K_FREED;
  if (o.size) { clearSymRange(p, o.size); memset((void *)p, 0xDD, o.size); }
}
static thread_local char objbuf[200];
bool badAccess(u64 a, u64 n, bool wr) {
  if (a < 65536) {
    snprintf(objbuf, sizeof objbuf, "null pointer %s", wr ? "write" : "read"); return true;
  }
  u32 id = granId[(a - ARENA) >> 4];
  if (a >= CODE_BASE && a < CODE_BASE + CODE_SIZE) { snprintf(objbuf, sizeof objbuf, "data access to code"); return true; }
  if (!id) { snprintf(objbuf, sizeof objbuf, "%s outside any live object (dangling stack or out of bounds)", wr ? "write" : "read"); return true; }
  Obj &o = objs[id];
  if (a < o.base || a + n > o.base + o.size) { snprintf(objbuf, sizeof objbuf, "out-of-bounds %s of %s", wr ? "write" : "read", objDesc(o).c_str()); return true; }
  if (o.kind == K_FREED) { snprintf(objbuf, sizeof objbuf, "use after free (%s) of %s", wr ? "write" : "read", objDesc(o).c_str()); return true; }
  if (wr && o.kind == K_CONST) { snprintf(objbuf, sizeof objbuf, "write to constant data"); return true; }
  return false;
}
void checkAccess(u64 a, u64 n, bool wr) {
  if (!n) return;
  if (!inArena(a) && a >= 65536) return;
  if (inArena(a)) {
    u32 id = granId[(a - ARENA) >> 4]; const Obj &o = objs[id];
    if (id && a >= o.base && a + n <= o.base + o.size && o.kind != K_FREED && !(wr && o.kind == K_CONST)) return;
  }
  if (badAccess(a, n, wr)) { violation("memory", objbuf); endPath("violation"); }
}

// ------------------------------------------------------------------ solver
Z3_context zc; Z3_solver zs; Z3_model curModel = nullptr, qModel = nullptr;
std::vector<Z3_ast> pc;
static Z3_sort bvs[130]; static Z3_sort boolSort;
Stats st;
std::vector<Input> inputs; std::unordered_map<std::string, int> inputOcc;
std::vector<SchedRec> schedTrace;
static Z3_ast ref(Z3_ast a) { if (a) Z3_inc_ref(zc, a); return a; }
static void zerr(Z3_context c, Z3_error_code e) { engineError(std::string("z3: ") + Z3_get_error_msg(c, e)); }
void solverInit() {
  Z3_config c = Z3_mk_config();
  zc = Z3_mk_context_rc(c); Z3_del_config(c);
  Z3_set_error_handler(zc, zerr);
  boolSort = Z3_mk_bool_sort(zc); Z3_inc_ref(zc, Z3_sort_to_ast(zc, boolSort));
  zs = opt.qfbv ? Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")) : Z3_mk_simple_solver(zc);
  Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  if (!opt.qfbv) Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), opt.rlimit);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "random_seed"), opt.seed);
  Z3_solver_set_params(zc, zs, p);
}
Z3_sort bvSort(unsigned w) {
  if (w == 1) return boolSort;
  if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, Z3_sort_to_ast(zc, bvs[w])); }
  return bvs[w];
}
Z3_ast toAst(const Val &v, unsigned w) {
  if (v.s) return v.s;
  if (w == 1) return ref((v.lo & 1) ? Z3_mk_true(zc) : Z3_mk_false(zc));
  if (w <= 64) return ref(Z3_mk_unsigned_int64(zc, v.lo, bvSort(w)));
  Z3_ast h = ref(Z3_mk_unsigned_int64(zc, v.hi, bvSort(w - 64))), l = ref(Z3_mk_unsigned_int64(zc, v.lo, bvSort(64)));
  return ref(Z3_mk_concat(zc, h, l));
}
static std::unordered_map<unsigned, bool> facts;   // conditions known to be true or false on this path
static Z3_ast stripNot(Z3_ast c, bool &pos) {
  pos = true;
  while (Z3_get_ast_kind(zc, c) == Z3_APP_AST && Z3_get_decl_kind(zc, Z3_get_app_decl(zc, Z3_to_app(zc, c))) == Z3_OP_NOT) { c = Z3_get_app_arg(zc, Z3_to_app(zc, c), 0); pos = !pos; }
  return c;
}
static Z3_decl_kind kindOf(Z3_ast c) { return Z3_get_ast_kind(zc, c) == Z3_APP_AST ? Z3_get_decl_kind(zc, Z3_get_app_decl(zc, Z3_to_app(zc, c))) : Z3_OP_INTERNAL; }
static void learn(Z3_ast c, bool v = true) {
  bool pos; Z3_ast b = stripNot(c, pos); ref(b); pos = pos == v; facts[Z3_get_ast_id(zc, b)] = pos;
  Z3_decl_kind k = kindOf(b);
  if ((k == Z3_OP_AND && pos) || (k == Z3_OP_OR && !pos)) { Z3_app p = Z3_to_app(zc, b); for (unsigned i = 0, n = Z3_get_app_num_args(zc, p); i < n; i++) learn(Z3_get_app_arg(zc, p, i), pos); }
}
static int known(Z3_ast c) { bool pos; Z3_ast b = stripNot(c, pos); auto it = facts.find(Z3_get_ast_id(zc, b)); return it == facts.end() ? -1 : it->second == pos; }
static Z3_ast reduce(Z3_ast a, int depth = 0) {   // replaces what is known on this path
  int k = known(a); if (k >= 0) return ref(k ? Z3_mk_true(zc) : Z3_mk_false(zc));
  if (depth > 6) return a;
  bool pos; Z3_ast b = stripNot(a, pos);
  if (!pos) { Z3_ast r = reduce(b, depth + 1); return r == b ? a : ref(Z3_mk_not(zc, r)); }
  Z3_decl_kind d = kindOf(a);
  if (d != Z3_OP_AND && d != Z3_OP_OR) return a;
  Z3_app p = Z3_to_app(zc, a); std::vector<Z3_ast> x; bool ch = false;
  for (unsigned i = 0, n = Z3_get_app_num_args(zc, p); i < n; i++) { Z3_ast o = Z3_get_app_arg(zc, p, i), q = reduce(o, depth + 1); ch |= q != o; x.push_back(q); }
  if (!ch) return a;
  return ref(Z3_simplify(zc, ref(d == Z3_OP_AND ? Z3_mk_and(zc, x.size(), x.data()) : Z3_mk_or(zc, x.size(), x.data()))));
}
Val fromAst(Z3_ast a, unsigned w) {
  ref(a);
  a = ref(Z3_simplify(zc, a));
  if (w == 1) {
    if (!facts.empty()) { Z3_ast r = reduce(a); if (r != a) a = ref(Z3_simplify(zc, r)); }
    Z3_lbool b = Z3_get_bool_value(zc, a);
    if (b == Z3_L_TRUE) return CV(1);
    if (b == Z3_L_FALSE) return CV(0);
    return Val{ 0, 0, a };
  }
  if (w <= 64 && Z3_get_ast_kind(zc, a) == Z3_NUMERAL_AST) { uint64_t x; Z3_get_numeral_uint64(zc, a, &x); return CV(x); }
  return Val{ 0, 0, a };
}
static int evalBool(Z3_model m, Z3_ast a) {   // 1 true 0 false -1 unknown
  Z3_ast r;
  if (!Z3_model_eval(zc, m, a, true, &r)) return -1;
  ref(r);
  Z3_lbool b = Z3_get_bool_value(zc, r);
  return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static bool evalU64(Z3_model m, Z3_ast a, u64 &out) {
  Z3_ast r;
  if (!Z3_model_eval(zc, m, a, true, &r)) return false;
  ref(r);
  if (Z3_get_ast_kind(zc, r) != Z3_NUMERAL_AST) return false;
  uint64_t x; if (!Z3_get_numeral_uint64(zc, r, &x)) return false; out = x; return true;
}
// ------------------------------------------------------------------ exact integer encoding of the linear fragment
// Used when bit-blasting does not finish quickly: every bit-vector term becomes an integer in [0, 2^w), with wrap-around made explicit.
static Z3_solver zl = nullptr; static size_t zlPC = 0; static Z3_sort intSort; static int liaFresh = 0;
static std::unordered_map<unsigned, Z3_ast> liaMemo; static std::vector<Z3_ast> liaSide; static bool liaOK = true;
static std::vector<std::pair<Z3_ast, Z3_ast>> liaConsts;   // bit-vector or boolean constant, its integer counterpart
static Z3_ast iNum(u128 x) {
  char b[48]; int n = 47; b[n] = 0; if (!x) b[--n] = '0'; while (x) { b[--n] = '0' + (int)(x % 10); x /= 10; }
  return ref(Z3_mk_numeral(zc, b + n, intSort));
}
static Z3_ast iBin(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const *), Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return ref(f(zc, 2, x)); }
static Z3_ast iAdd(Z3_ast a, Z3_ast b) { return iBin(Z3_mk_add, a, b); }
static Z3_ast iSub(Z3_ast a, Z3_ast b) { return iBin(Z3_mk_sub, a, b); }
static Z3_ast iMul(Z3_ast a, Z3_ast b) { return iBin(Z3_mk_mul, a, b); }
static Z3_ast iLe(Z3_ast a, Z3_ast b) { return ref(Z3_mk_le(zc, a, b)); }
static Z3_ast iLt(Z3_ast a, Z3_ast b) { return ref(Z3_mk_lt(zc, a, b)); }
static Z3_ast iVar(const char *p, Z3_ast lo, Z3_ast hi) {   // fresh integer in [lo, hi)
  std::string n = std::string(p) + "!" + std::to_string(liaFresh++);
  Z3_ast v = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), intSort));
  liaSide.push_back(iLe(lo, v)); liaSide.push_back(iLt(v, hi)); return v;
}
static bool liaNum(Z3_ast a, u64 &x) { uint64_t y; if (Z3_get_ast_kind(zc, a) != Z3_NUMERAL_AST || !Z3_get_numeral_uint64(zc, a, &y)) return false; x = y; return true; }
static Z3_ast liaBV(Z3_ast a);
// Bounds of bit-vector terms that hold on this path (declared ranges, path constraints); they save wrap-around cases.
struct Rng { u128 lo, hi; };
static std::unordered_map<unsigned, Rng> pcRange, rngMemo;
static u128 wMax(unsigned w) { return ((u128)1 << w) - 1; }
static Rng rangeOf(Z3_ast a, int depth = 0) {
  unsigned w = Z3_get_bv_sort_size(zc, Z3_get_sort(zc, a)); Rng full{ 0, wMax(w > 64 ? 64 : w) }; u64 c;
  if (w > 64 || depth > 200) return full;
  if (liaNum(a, c)) return { c, c };
  if (Z3_get_ast_kind(zc, a) != Z3_APP_AST) return full;
  unsigned id = Z3_get_ast_id(zc, a);
  auto it = rngMemo.find(id); if (it != rngMemo.end()) return it->second;
  Rng r = full; auto pi = pcRange.find(id); if (pi != pcRange.end()) r = pi->second;
  Z3_app p = Z3_to_app(zc, a); Z3_decl_kind k = Z3_get_decl_kind(zc, Z3_get_app_decl(zc, p)); unsigned n = Z3_get_app_num_args(zc, p);
  auto arg = [&](unsigned i) { return rangeOf(Z3_get_app_arg(zc, p, i), depth + 1); };
  auto meet = [&](u128 lo, u128 hi) { if (lo <= hi && hi <= full.hi) { if (lo > r.lo) r.lo = lo; if (hi < r.hi) r.hi = hi; } };
  i128 M = (i128)full.hi + 1;
  if (k == Z3_OP_BADD) {
    i128 lo = 0, hi = 0; bool ok = true;
    for (unsigned i = 0; i < n; i++) { Rng x = arg(i); i128 l = x.lo, h = x.hi; if (l == h && l > M / 2) { l -= M; h -= M; } lo += l; hi += h; }
    if (ok && lo >= 0 && hi < M) meet(lo, hi);
  } else if (k == Z3_OP_BSUB && n == 2) { Rng x = arg(0), y = arg(1); if (x.lo >= y.hi) meet(x.lo - y.hi, x.hi - y.lo); }
  else if (k == Z3_OP_BMUL && n == 2) { Rng x = arg(0), y = arg(1); if (!y.hi || x.hi <= full.hi / y.hi) meet(x.lo * y.lo, x.hi * y.hi); }
  else if (k == Z3_OP_ZERO_EXT) { Rng x = arg(0); meet(x.lo, x.hi); }
  else if (k == Z3_OP_CONCAT && n == 2) { unsigned wl = Z3_get_bv_sort_size(zc, Z3_get_sort(zc, Z3_get_app_arg(zc, p, 1))); Rng x = arg(0), y = arg(1); meet((x.lo << wl) + y.lo, (x.hi << wl) + y.hi); }
  else if (k == Z3_OP_ITE) { Rng x = arg(1), y = arg(2); meet(x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi); }
  else if (k == Z3_OP_EXTRACT) { Z3_func_decl d = Z3_get_app_decl(zc, p); unsigned h = Z3_get_decl_int_parameter(zc, d, 0), l = Z3_get_decl_int_parameter(zc, d, 1); Rng x = arg(0); if (l == 0 && x.hi <= wMax(h + 1)) meet(x.lo, x.hi); }
  if (r.lo > r.hi) r = full;
  rngMemo[id] = r; return r;
}
static void learnRange(Z3_ast c) {
  if (Z3_get_ast_kind(zc, c) != Z3_APP_AST) return;
  Z3_app p = Z3_to_app(zc, c); Z3_decl_kind k = Z3_get_decl_kind(zc, Z3_get_app_decl(zc, p)); bool neg = false;
  if (k == Z3_OP_AND) { for (unsigned i = 0; i < Z3_get_app_num_args(zc, p); i++) learnRange(Z3_get_app_arg(zc, p, i)); return; }
  if (k == Z3_OP_NOT) { Z3_ast q = Z3_get_app_arg(zc, p, 0); if (Z3_get_ast_kind(zc, q) != Z3_APP_AST) return; p = Z3_to_app(zc, q); k = Z3_get_decl_kind(zc, Z3_get_app_decl(zc, p)); neg = true; }
  if (k != Z3_OP_ULEQ && k != Z3_OP_UGEQ && k != Z3_OP_ULT && k != Z3_OP_UGT) return;
  Z3_ast x = Z3_get_app_arg(zc, p, 0), y = Z3_get_app_arg(zc, p, 1); u64 v;
  if (k == Z3_OP_UGEQ) { std::swap(x, y); k = Z3_OP_ULEQ; }
  if (k == Z3_OP_UGT) { std::swap(x, y); k = Z3_OP_ULT; }
  if (neg) { std::swap(x, y); k = k == Z3_OP_ULEQ ? Z3_OP_ULT : Z3_OP_ULEQ; }   // x <= y or x < y holds
  unsigned w = Z3_get_bv_sort_size(zc, Z3_get_sort(zc, x)); if (w > 64) return;
  auto upd = [&](Z3_ast t, u128 lo, u128 hi) {
    unsigned id = Z3_get_ast_id(zc, t); Rng full{ 0, wMax(w) }; auto it = pcRange.find(id); if (it == pcRange.end()) { ref(t); it = pcRange.emplace(id, full).first; }
    if (lo > it->second.lo) it->second.lo = lo; if (hi < it->second.hi) it->second.hi = hi; rngMemo.clear();
  };
  if (liaNum(y, v)) { if (k == Z3_OP_ULT) { if (v) upd(x, 0, v - 1); } else upd(x, 0, v); }
  else if (liaNum(x, v)) { if (k == Z3_OP_ULT) { if (v < wMax(w)) upd(y, (u128)v + 1, wMax(w)); } else upd(y, v, wMax(w)); }
}
static bool liaBit(Z3_ast a) {   // known to be 0 or 1
  u64 c; if (liaNum(a, c)) return c <= 1;
  if (Z3_get_bv_sort_size(zc, Z3_get_sort(zc, a)) == 1) return true;
  if (Z3_get_ast_kind(zc, a) != Z3_APP_AST) return false;
  Z3_app p = Z3_to_app(zc, a); Z3_decl_kind k = Z3_get_decl_kind(zc, Z3_get_app_decl(zc, p)); unsigned n = Z3_get_app_num_args(zc, p);
  if (k == Z3_OP_ITE) return liaBit(Z3_get_app_arg(zc, p, 1)) && liaBit(Z3_get_app_arg(zc, p, 2));
  if (k == Z3_OP_ZERO_EXT) return liaBit(Z3_get_app_arg(zc, p, 0));
  if (k == Z3_OP_BOR || k == Z3_OP_BXOR || k == Z3_OP_BAND) { for (unsigned i = 0; i < n; i++) if (!liaBit(Z3_get_app_arg(zc, p, i))) return false; return true; }
  if (k == Z3_OP_CONCAT) { for (unsigned i = 0; i + 1 < n; i++) if (!liaNum(Z3_get_app_arg(zc, p, i), c) || c) return false; return liaBit(Z3_get_app_arg(zc, p, n - 1)); }
  return false;
}
static Z3_ast liaMod(Z3_ast s, unsigned w) {   // s mod 2^w
  Z3_ast m = iNum((u128)1 << w), r = iVar("r", iNum(0), m);
  std::string n = "k!" + std::to_string(liaFresh++); Z3_ast k = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), intSort));
  liaSide.push_back(ref(Z3_mk_eq(zc, s, iAdd(r, iMul(m, k))))); return r;
}
static Z3_ast liaBool(Z3_ast a) {
  auto it = liaMemo.find(Z3_get_ast_id(zc, a)); if (it != liaMemo.end()) return it->second;
  Z3_ast r = nullptr; Z3_lbool bv = Z3_get_bool_value(zc, a);
  if (bv != Z3_L_UNDEF) return a;
  if (Z3_get_ast_kind(zc, a) != Z3_APP_AST) { liaOK = false; return a; }
  Z3_app p = Z3_to_app(zc, a); Z3_decl_kind k = Z3_get_decl_kind(zc, Z3_get_app_decl(zc, p)); unsigned n = Z3_get_app_num_args(zc, p);
  auto arg = [&](unsigned i) { return Z3_get_app_arg(zc, p, i); };
  auto isB = [&](Z3_ast x) { return Z3_get_sort_kind(zc, Z3_get_sort(zc, x)) == Z3_BOOL_SORT; };
  auto sgn = [&](Z3_ast x) { unsigned w = Z3_get_bv_sort_size(zc, Z3_get_sort(zc, x)); Z3_ast v = liaBV(x); return ref(Z3_mk_ite(zc, iLe(iNum((u128)1 << (w - 1)), v), iSub(v, iNum((u128)1 << w)), v)); };
  std::vector<Z3_ast> s;
  switch (k) {
  case Z3_OP_AND: case Z3_OP_OR: for (unsigned i = 0; i < n; i++) s.push_back(liaBool(arg(i))); r = k == Z3_OP_AND ? Z3_mk_and(zc, n, s.data()) : Z3_mk_or(zc, n, s.data()); break;
  case Z3_OP_NOT: r = Z3_mk_not(zc, liaBool(arg(0))); break;
  case Z3_OP_XOR: r = Z3_mk_xor(zc, liaBool(arg(0)), liaBool(arg(1))); break;
  case Z3_OP_IMPLIES: r = Z3_mk_implies(zc, liaBool(arg(0)), liaBool(arg(1))); break;
  case Z3_OP_ITE: r = Z3_mk_ite(zc, liaBool(arg(0)), liaBool(arg(1)), liaBool(arg(2))); break;
  case Z3_OP_EQ: case Z3_OP_IFF: r = isB(arg(0)) ? Z3_mk_iff(zc, liaBool(arg(0)), liaBool(arg(1))) : Z3_mk_eq(zc, liaBV(arg(0)), liaBV(arg(1))); break;
  case Z3_OP_DISTINCT: if (n == 2) r = Z3_mk_not(zc, isB(arg(0)) ? Z3_mk_iff(zc, liaBool(arg(0)), liaBool(arg(1))) : Z3_mk_eq(zc, liaBV(arg(0)), liaBV(arg(1)))); break;
  case Z3_OP_ULEQ: r = iLe(liaBV(arg(0)), liaBV(arg(1))); break;
  case Z3_OP_UGEQ: r = iLe(liaBV(arg(1)), liaBV(arg(0))); break;
  case Z3_OP_ULT: r = iLt(liaBV(arg(0)), liaBV(arg(1))); break;
  case Z3_OP_UGT: r = iLt(liaBV(arg(1)), liaBV(arg(0))); break;
  case Z3_OP_SLEQ: r = iLe(sgn(arg(0)), sgn(arg(1))); break;
  case Z3_OP_SGEQ: r = iLe(sgn(arg(1)), sgn(arg(0))); break;
  case Z3_OP_SLT: r = iLt(sgn(arg(0)), sgn(arg(1))); break;
  case Z3_OP_SGT: r = iLt(sgn(arg(1)), sgn(arg(0))); break;
  case Z3_OP_UNINTERPRETED: if (n == 0) { r = a; liaConsts.push_back({ a, a }); } break;
  default: break;
  }
  if (!r) { liaOK = false; return a; }
  ref(r); if (liaOK) liaMemo[Z3_get_ast_id(zc, a)] = r;
  return r;
}
static Z3_ast liaBV(Z3_ast a) {
  auto it = liaMemo.find(Z3_get_ast_id(zc, a)); if (it != liaMemo.end()) return it->second;
  unsigned w = Z3_get_bv_sort_size(zc, Z3_get_sort(zc, a)); Z3_ast zero = iNum(0); u128 M = (u128)1 << w; u64 c;
  if (w > 64) { liaOK = false; return zero; }
  if (liaNum(a, c)) return iNum(c);
  if (Z3_get_ast_kind(zc, a) != Z3_APP_AST) { liaOK = false; return zero; }
  Z3_app p = Z3_to_app(zc, a); Z3_func_decl d = Z3_get_app_decl(zc, p); Z3_decl_kind k = Z3_get_decl_kind(zc, d); unsigned n = Z3_get_app_num_args(zc, p);
  auto arg = [&](unsigned i) { return Z3_get_app_arg(zc, p, i); };
  auto width = [&](Z3_ast x) { return Z3_get_bv_sort_size(zc, Z3_get_sort(zc, x)); };
  auto scaled = [&](Z3_ast x, u64 f) { return f > (u64)(M >> 1) ? iMul(iSub(iNum(f), iNum(M)), x) : iMul(iNum(f), x); };
  auto slice = [&](Z3_ast v, unsigned vw, unsigned hi, unsigned lo) {
    if (lo == 0 && hi == vw - 1) return v;
    Z3_ast m = iVar("m", zero, iNum((u128)1 << (hi - lo + 1))), s = lo ? iMul(iNum((u128)1 << lo), m) : m;
    if (hi + 1 < vw) s = iAdd(s, iMul(iNum((u128)1 << (hi + 1)), iVar("h", zero, iNum((u128)1 << (vw - hi - 1)))));
    if (lo) s = iAdd(s, iVar("l", zero, iNum((u128)1 << lo)));
    liaSide.push_back(ref(Z3_mk_eq(zc, v, s))); return m;
  };
  Z3_ast r = nullptr;
  switch (k) {
  case Z3_OP_UNINTERPRETED: if (n == 0) { std::string nm = "i!" + std::string(Z3_get_symbol_string(zc, Z3_get_decl_name(zc, d))); r = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm.c_str()), intSort)); liaSide.push_back(iLe(zero, r)); liaSide.push_back(iLt(r, iNum(M))); liaConsts.push_back({ a, r }); } break;
  case Z3_OP_BADD: case Z3_OP_BSUB: {
    Z3_ast s = nullptr;
    for (unsigned i = 0; i < n; i++) {
      Z3_ast x = arg(i), t = nullptr; u64 f;
      if (liaNum(x, f)) t = f > (u64)(M >> 1) ? iSub(iNum(f), iNum(M)) : iNum(f);
      else if (Z3_get_ast_kind(zc, x) == Z3_APP_AST) {
        Z3_app q = Z3_to_app(zc, x);
        Z3_decl_kind qk = Z3_get_decl_kind(zc, Z3_get_app_decl(zc, q));
        if (qk == Z3_OP_BMUL && Z3_get_app_num_args(zc, q) == 2 && liaNum(Z3_get_app_arg(zc, q, 0), f)) t = scaled(liaBV(Z3_get_app_arg(zc, q, 1)), f);
        else if (qk == Z3_OP_BNOT) t = iSub(iSub(iNum(M), iNum(1)), liaBV(Z3_get_app_arg(zc, q, 0)));
        else if (qk == Z3_OP_BNEG) t = iSub(zero, liaBV(Z3_get_app_arg(zc, q, 0)));
      }
      if (!t) t = liaBV(x);
      s = !s ? t : k == Z3_OP_BADD ? iAdd(s, t) : iSub(s, t);
    }
    if (k == Z3_OP_BADD || k == Z3_OP_BSUB) {   // no wrap-around within the known bounds
      i128 lo = 0, hi = 0; bool ok = true;
      for (unsigned i = 0; i < n && ok; i++) {
        u64 f; Z3_ast x = arg(i); i128 l, h;
        if (liaNum(x, f)) { l = h = f > (u64)(M >> 1) ? (i128)f - (i128)M : (i128)f; }
        else {
          Z3_decl_kind qk = Z3_get_ast_kind(zc, x) == Z3_APP_AST ? Z3_get_decl_kind(zc, Z3_get_app_decl(zc, Z3_to_app(zc, x))) : Z3_OP_UNINTERPRETED;
          if (qk == Z3_OP_BNOT || qk == Z3_OP_BNEG) { ok = false; break; }
          if (qk == Z3_OP_BMUL) {
            Z3_app q = Z3_to_app(zc, x);
            if (Z3_get_app_num_args(zc, q) == 2 && liaNum(Z3_get_app_arg(zc, q, 0), f)) {   // the term above is the unreduced product
              if (f > (u64)(M >> 1)) { ok = false; break; }
              Rng y = rangeOf(Z3_get_app_arg(zc, q, 1)); if (y.hi > ((u128)1 << 120) / (f + 1)) { ok = false; break; }
              l = (i128)(y.lo * f); h = (i128)(y.hi * f);
            } else { Rng y = rangeOf(x); l = y.lo; h = y.hi; }
          } else { Rng y = rangeOf(x); l = y.lo; h = y.hi; }
        }
        if (k == Z3_OP_BSUB && i) { lo -= h; hi -= l; } else { lo += l; hi += h; }
      }
      if (ok && lo >= 0 && hi < (i128)M) { r = s; break; }
    }
    r = liaMod(s, w); break;
  }
  case Z3_OP_BNEG: r = liaMod(iSub(zero, liaBV(arg(0))), w); break;
  case Z3_OP_BNOT: r = iSub(iNum(M - 1), liaBV(arg(0))); break;
  case Z3_OP_BMUL: if (n == 2) { u64 f; for (int j = 0; j < 2 && !r; j++) if (liaNum(arg(j), f) && f && f <= (u64)(M >> 1)) { Rng y = rangeOf(arg(1 - j)); if (y.hi <= (M - 1) / f) r = iMul(iNum(f), liaBV(arg(1 - j))); } if (r) break; if (liaNum(arg(0), f)) r = liaMod(scaled(liaBV(arg(1)), f), w); else if (liaNum(arg(1), f)) r = liaMod(scaled(liaBV(arg(0)), f), w); } break;
  case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: case Z3_OP_BUREM: case Z3_OP_BUREM_I: { u64 f; if (liaNum(arg(1), f) && f) { Z3_ast v = liaBV(arg(0)), q = iVar("q", zero, iNum(M)), m = iVar("m", zero, iNum(f)); liaSide.push_back(ref(Z3_mk_eq(zc, v, iAdd(iMul(iNum(f), q), m)))); r = k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I ? q : m; } break; }
  case Z3_OP_EXTRACT: r = slice(liaBV(arg(0)), width(arg(0)), Z3_get_decl_int_parameter(zc, d, 0), Z3_get_decl_int_parameter(zc, d, 1)); break;
  case Z3_OP_CONCAT: { Z3_ast s = nullptr; for (unsigned i = 0; i < n; i++) { Z3_ast t = liaBV(arg(i)); s = s ? iAdd(iMul(iNum((u128)1 << width(arg(i))), s), t) : t; } r = s; break; }
  case Z3_OP_ZERO_EXT: r = liaBV(arg(0)); break;
  case Z3_OP_SIGN_EXT: { unsigned v = width(arg(0)); Z3_ast x = liaBV(arg(0)); r = Z3_mk_ite(zc, iLe(iNum((u128)1 << (v - 1)), x), iAdd(x, iSub(iNum(M), iNum((u128)1 << v))), x); break; }
  case Z3_OP_ITE: r = Z3_mk_ite(zc, liaBool(arg(0)), liaBV(arg(1)), liaBV(arg(2))); break;
  case Z3_OP_BOR: case Z3_OP_BXOR: {
    bool bits = true; for (unsigned i = 0; i < n; i++) bits &= liaBit(arg(i));
    if (!bits) break;
    r = liaBV(arg(0));
    for (unsigned i = 1; i < n; i++) { Z3_ast s = ref(iAdd(r, liaBV(arg(i)))); r = ref(Z3_mk_ite(zc, k == Z3_OP_BOR ? iLe(iNum(1), s) : ref(Z3_mk_eq(zc, s, iNum(1))), iNum(1), zero)); }
    break;
  }
  case Z3_OP_BAND: if (n == 2 && liaBit(arg(0)) && liaBit(arg(1))) { r = Z3_mk_ite(zc, iLe(iNum(2), iAdd(liaBV(arg(0)), liaBV(arg(1)))), iNum(1), zero); } else if (n == 2) { u64 f; Z3_ast o = nullptr; if (liaNum(arg(0), f)) o = arg(1); else if (liaNum(arg(1), f)) o = arg(0); if (o && f && !(f & (f + 1)) && f + 1) r = slice(liaBV(o), w, __builtin_popcountll(f) - 1, 0); } break;
  case Z3_OP_BSHL: { u64 f; if (liaNum(arg(1), f) && f < w && f < 62) r = liaMod(iMul(iNum((u128)1 << f), liaBV(arg(0))), w); break; }
  case Z3_OP_BLSHR: { u64 f; if (liaNum(arg(1), f) && f < w) r = slice(liaBV(arg(0)), w, w - 1, f); break; }
  default: break;
  }
  if (!r) { liaOK = false; return zero; }
  ref(r); if (liaOK) liaMemo[Z3_get_ast_id(zc, a)] = r;
  return r;
}
static Z3_lbool liaCheck(Z3_ast extra) {
  if (!zl) {
    intSort = Z3_mk_int_sort(zc); Z3_inc_ref(zc, Z3_sort_to_ast(zc, intSort));
    zl = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zl);
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 30000000); Z3_solver_set_params(zc, zl, p);
  }
  static bool partial = false;   // some path constraint is outside the fragment: unsatisfiability still counts, models are checked
  std::vector<Z3_ast> as;
  for (size_t i = zlPC; i < pc.size(); i++) { liaOK = true; Z3_ast t = liaBool(pc[i]); if (liaOK) as.push_back(t); else partial = true; }
  liaOK = true;
  Z3_ast e = extra ? liaBool(extra) : nullptr;
  zlPC = pc.size();
  for (Z3_ast s : liaSide) Z3_solver_assert(zc, zl, s);
  liaSide.clear();
  for (Z3_ast s : as) Z3_solver_assert(zc, zl, s);
  if (!liaOK) return Z3_L_UNDEF;
  if (e) { Z3_solver_push(zc, zl); Z3_solver_assert(zc, zl, e); }
  Z3_lbool r = Z3_solver_check(zc, zl);
  if (r == Z3_L_TRUE) {   // the model over the original constants
    Z3_model m = Z3_solver_get_model(zc, zl); Z3_model_inc_ref(zc, m);
    Z3_model o = Z3_mk_model(zc); Z3_model_inc_ref(zc, o);
    for (auto &pr : liaConsts) {
      Z3_ast v; if (!Z3_model_eval(zc, m, pr.second, true, &v)) continue;
      ref(v);
      if (pr.first != pr.second) v = ref(Z3_mk_numeral(zc, Z3_get_numeral_string(zc, v), Z3_get_sort(zc, pr.first)));
      Z3_add_const_interp(zc, o, Z3_get_app_decl(zc, Z3_to_app(zc, pr.first)), v);
    }
    qModel = o;
    // the model must satisfy the original constraints
    bool good = !extra || evalBool(o, extra) == 1;
    for (Z3_ast c : pc) if (evalBool(o, c) != 1) good = false;
    if (!good && partial) r = Z3_L_UNDEF;
    else if (!good) engineError("integer encoding disagrees with the bit-vector constraints");
  }
  if (e) Z3_solver_pop(zc, zl, 1);
  return r;
}
static size_t zsPC = 0;
int check(Z3_ast extra) {
  double t0 = nowSec();
  st.queries++;
  Z3_lbool r = liaCheck(extra);
  if (r == Z3_L_UNDEF) {
    st.hard++;
    for (; zsPC < pc.size(); zsPC++) Z3_solver_assert(zc, zs, pc[zsPC]);
    if (extra) { Z3_solver_push(zc, zs); Z3_solver_assert(zc, zs, extra); }
    r = Z3_solver_check(zc, zs);
    if (r == Z3_L_TRUE) { qModel = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, qModel); }
    if (extra) Z3_solver_pop(zc, zs, 1);
  }
  int res = -1;
  if (r == Z3_L_TRUE) { res = 1; st.sat++; }
  else if (r == Z3_L_FALSE) { res = 0; st.unsat++; }
  else { st.unknown++; shm->incomplete.fetch_or(INC_SOLVER); }
  st.solver_us += (u64)((nowSec() - t0) * 1e6);
  return res;
}
void addPC(Z3_ast c) { pc.push_back(c); learn(c); learnRange(c); }
static void ensureModel() {
  if (!curModel) { int r = check(nullptr); if (r == 1) curModel = qModel; else if (r == 0) endPath("infeasible"); else endPath("solver-unknown"); }
}
static Z3_ast mkNot(Z3_ast a) { return ref(Z3_mk_not(zc, a)); }

// ------------------------------------------------------------------ forking
bool ownsToken = true; bool isRoot = true;
static u64 instsBase = 0;
u64 insts = 0;
void flushStats() {
  shm->queries += st.queries; shm->hard += st.hard; shm->sat += st.sat; shm->unsat += st.unsat; shm->unknown += st.unknown; shm->solver_us += st.solver_us;
  shm->asserts += st.asserts; shm->assertsSym += st.assertsSym; shm->forks += st.forks; shm->insts += insts - instsBase; shm->sched += st.sched; shm->preempt += st.preempt;
  shm->dischargedTrivial += st.dischargedTrivial;
  st = Stats{}; instsBase = insts;
}
static void dumpSample();
void endPath(const char *why) {
  if (!strcmp(why, "done")) dumpSample();
  flushStats();
  if (!strcmp(why, "done")) shm->pathsDone++; else if (!strcmp(why, "violation")) shm->pathsViol++;
  else if (!strcmp(why, "assume") || !strcmp(why, "infeasible")) shm->pathsAssume++; else { shm->pathsOther++; shm->incomplete.fetch_or(INC_PATH); }
  if (ownsToken) sem_post(&shm->tok);
  if (opt.replay) { fprintf(stderr, "[replay] path ended: %s\n", why); fflush(stderr); }
  _exit(0);
}
void engineError(const std::string &m) {
  int n = shm ? shm->nerrors.fetch_add(1) : 0;
  if (shm && n < 8) snprintf(shm->errors[n], sizeof shm->errors[n], "%s @ %s", m.c_str(), cur ? where().c_str() : "");
  if (!shm || opt.verbose || opt.replay) fprintf(stderr, "ENGINE ERROR: %s @ %s\n", m.c_str(), cur ? where().c_str() : "");
  if (!shm || isRoot) exit(3);
  shm->incomplete.fetch_or(INC_ENGINE);
  endPath("engine-error");
}
bool forkPath() {   // true in the child (takes the alternative side)
  if (nowSec() > shm->deadline) { shm->incomplete.fetch_or(INC_TIME); endPath("deadline"); }
  if (shm->stop) endPath("deadline");
  st.forks++;
  if (sem_trywait(&shm->tok) == 0) {
    pid_t p = fork();
    if (p < 0) { sem_post(&shm->tok); engineError("fork failed"); }
    if (p == 0) { ownsToken = true; st = Stats{}; instsBase = insts; return true; }
    return false;
  }
  pid_t p = fork();
  if (p < 0) engineError("fork failed");
  if (p == 0) { ownsToken = false; st = Stats{}; instsBase = insts; return true; }
  int status = 0;
  while (waitpid(p, &status, 0) < 0 && errno == EINTR) ;
  if (!WIFEXITED(status)) { shm->incomplete.fetch_or(INC_ENGINE); }
  return false;
}
bool branchOn(Z3_ast c) {   // returns the branch taken on this path
  int kn = known(c); if (kn >= 0) return kn;
  ensureModel();
  int e = evalBool(curModel, c);
  bool side = e != 0;
  Z3_ast nc = mkNot(c);
  Z3_ast other = side ? nc : c;
  int r = check(other);
  if (r == 0) { learn(side ? c : nc); return side; }      // the other side is infeasible: the constraint is implied
  Z3_model om = r == 1 ? qModel : nullptr;
  if (forkPath()) { curModel = om; addPC(other); if (!om) ensureModel(); return !side; }
  addPC(side ? c : nc);
  return side;
}
u64 concretize(Val &v, unsigned w, int limit) {
  if (!v.s) return v.lo;
  Z3_sort vs = Z3_get_sort(zc, v.s);   // arguments come without their width
  if (w == 1 || Z3_get_sort_kind(zc, vs) == Z3_BOOL_SORT) { bool b = branchOn(v.s); v = CV(b); return b; }
  w = Z3_get_bv_sort_size(zc, vs);
  for (int i = 0; i < limit; i++) {
    ensureModel();
    u64 x; if (!evalU64(curModel, v.s, x)) engineError("cannot evaluate a value to concretise");
    Z3_ast eq = ref(Z3_mk_eq(zc, v.s, toAst(CV(x), w))), ne = mkNot(eq);
    int r = check(ne);
    if (r == 0) { v = CV(x); return x; }
    Z3_model om = r == 1 ? qModel : nullptr;
    if (forkPath()) { curModel = om; addPC(ne); if (!om) ensureModel(); continue; }
    addPC(eq); v = CV(x); return x;
  }
  shm->incomplete.fetch_or(INC_PATH); endPath("concretise-limit"); return 0;
}
Val freshSym(const std::string &name, unsigned w, u64 lo, u64 hi, bool ranged) {
  int occ = inputOcc[name]++;
  if (opt.replay) {
    u64 x = 0; bool found = replayInput(name, occ, x);
    if (!found) x = ranged ? lo : 0;
    if (ranged && (x < lo || x > hi)) x = lo;
    inputs.push_back(Input{ name, occ, nullptr, w, x });
    return CV(x);
  }
  std::string n = name + "#" + std::to_string(occ);
  Z3_ast a = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), bvSort(w)));
  inputs.push_back(Input{ name, occ, a, w, 0 });
  if (ranged && w > 1 && lo > 0) learn(ref(Z3_simplify(zc, ref(Z3_mk_eq(zc, a, toAst(CV(0), w))))), false);
  if (ranged && w > 1) {
    u64 max = w >= 64 ? ~0ull : (1ull << w) - 1;
    Z3_ast cs[2]; int k = 0;
    if (lo > 0) cs[k++] = ref(Z3_mk_bvuge(zc, a, toAst(CV(lo), w)));
    if (hi < max) cs[k++] = ref(Z3_mk_bvule(zc, a, toAst(CV(hi), w)));
    if (lo > hi) endPath("assume");
    for (int i = 0; i < k; i++) addPC(cs[i]);
    if (k) {   // keep the model valid: the symbol is new, so the model can be extended
      int ok = 1;
      if (curModel) for (int i = 0; i < k; i++) if (evalBool(curModel, cs[i]) != 1) ok = 0;
      if (!ok) curModel = nullptr;
    }
  }
  return Val{ 0, 0, a };
}
Val freshSched(u64 n) {       // schedule variable: which thread runs next
  static int k = 0;
  std::string nm = "sched#" + std::to_string(k++);
  Z3_ast a = ref(Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm.c_str()), bvSort(4)));
  Z3_ast c = ref(Z3_mk_bvult(zc, a, toAst(CV(n), 4)));
  if (n < 16) { addPC(c); if (curModel && evalBool(curModel, c) != 1) curModel = nullptr; }
  return Val{ 0, 0, a };
}
u64 symChoice(const std::string &name, u64 n) {   // symbolic in [0,n), forked to every value
  if (n <= 1) return 0;
  Val v = freshSym(name, 16, 0, n - 1, true);
  return concretize(v, 16);
}
void symAssume(const Val &v) {
  if (!v.s) { if (!(v.lo & 1)) endPath("assume"); return; }
  if (known(v.s) == 1) return;
  ensureModel();
  if (evalBool(curModel, v.s) == 1) { addPC(v.s); return; }
  int r = check(v.s);
  if (r == 0) endPath("assume");
  addPC(v.s); curModel = r == 1 ? qModel : nullptr;
  if (!curModel) ensureModel();
}
void symAssert(const Val &v, const std::string &msg) {
  st.asserts++;
  if (!v.s) {
    if (v.lo & 1) { st.dischargedTrivial++; return; }
    violation("assert", msg); endPath("violation");
  }
  st.assertsSym++;
  { Z3_ast r = ref(Z3_simplify(zc, reduce(v.s))); if (Z3_get_bool_value(zc, r) == Z3_L_TRUE) return; }
  ensureModel();
  Z3_ast nv = mkNot(v.s);
  if (evalBool(curModel, v.s) == 0) {
    violation("assert", msg);
    if (check(v.s) != 1) endPath("violation");
    curModel = qModel; addPC(v.s); return;
  }
  int r = check(nv);
  if (r == 0) { learn(v.s); return; }
  if (r == 1) { Z3_model keep = curModel; curModel = qModel; violation("assert", msg); curModel = keep; addPC(v.s); return; }
  shm->undecided++;
}
static std::string inputsJson();
static std::string jsonEsc(const std::string &s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32 || (u8)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (u8)c); o += b; } else o += c; }
  return o;
}
void violation(const std::string &kind, const std::string &msg) {
  u64 h = std::hash<std::string>()(kind + "|" + msg);
  bool isnew = false; int slot = -1;
  for (int i = 0; i < 64; i++) {
    u64 e = shm->vkeys[i];
    if (e == h) { slot = i; break; }
    if (e == 0) { u64 z = 0; if (shm->vkeys[i].compare_exchange_strong(z, h) || z == h) { slot = i; isnew = true; break; } }
  }
  (void)isnew;
  int cnt = slot >= 0 ? shm->vcount[slot].fetch_add(1) : 99;
  shm->nviol++;
  if (cnt >= opt.perKey && !opt.replay) return;
  if (!opt.replay && !inputs.empty() && !curModel) { if (check(nullptr) == 1) curModel = qModel; }
  std::string o = "{\"kind\":\"" + kind + "\",\"msg\":\"" + jsonEsc(msg) + "\"," + inputsJson();
  o += ",\"threads\":" + std::to_string(nThreadsEver) + ",\"stack\":\"" + jsonEsc(backtrace()) + "\"}\n";
  if (opt.replay) fprintf(stderr, "[replay] VIOLATED %s: %s\n%s\n", kind.c_str(), msg.c_str(), backtrace().c_str());
  int fd = open((opt.out + "/violations.jsonl").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { ssize_t r = write(fd, o.data(), o.size()); (void)r; close(fd); }
  if (opt.stopFirst && (int)shm->nviol >= opt.stopFirst) shm->stop = 1;
}
static std::string inputsJson() {
  std::string o = "\"inputs\":["; bool first = true;
  for (auto &in : inputs) {
    u64 x = in.val;
    if (in.ast) { x = 0; if (curModel) { if (in.w == 1) x = evalBool(curModel, in.ast) == 1; else evalU64(curModel, in.ast, x); } }
    o += std::string(first ? "" : ",") + "[\"" + jsonEsc(in.name) + "\"," + std::to_string(in.occ) + ",\"" + std::to_string(x) + "\"]"; first = false;
  }
  o += "],\"sched\":["; first = true;
  for (auto &s : schedTrace) { o += std::string(first ? "" : ",") + "[" + std::to_string(s.at) + "," + std::to_string(s.to) + "]"; first = false; }
  return o + "],\"preempt\":" + std::to_string(opt.preempt) + ",\"early\":" + std::to_string(opt.early);
}
static void dumpSample() {   // inputs and schedule of a few finished paths
  if (opt.replay) return;
  u64 n = shm->pathsDone;
  if (!(n == 0 || n == 5 || n == 40 || n == 300)) return;
  if (!curModel && check(nullptr) == 1) curModel = qModel;
  std::string o = "{" + inputsJson() + "}\n";
  int fd = open((opt.out + "/samples.jsonl").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { ssize_t r = write(fd, o.data(), o.size()); (void)r; close(fd); }
}
void coverHit(const std::string &id) {
  for (int i = 0; i < 128; i++) {
    if (!strcmp(shm->cover[i].name, id.c_str())) { shm->cover[i].n++; return; }
    if (!shm->cover[i].name[0]) {
      int z = 0;
      if (shm->cover[i].lock.compare_exchange_strong(z, 1)) { strncpy(shm->cover[i].name, id.c_str(), 59); shm->cover[i].n++; return; }
      usleep(100); i--;
    }
  }
}

// ------------------------------------------------------------------ threads & locations
std::vector<Thread *> threads; Thread *cur = nullptr; int nThreadsEver = 0;
std::string demangled(const std::string &n) { return llvm::demangle(n); }
static std::string shortName(std::string d) {
  // strip the argument list
  int depth = 0; size_t cut = d.size();
  for (size_t i = 0; i < d.size(); i++) {
    if (d[i] == '<') depth++; else if (d[i] == '>') depth--;
    else if (d[i] == '(' && depth == 0 && i > 0) { if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; } cut = i; break; }
  }
  d = d.substr(0, cut);
  if (d.size() > 120) d = d.substr(0, 117) + "...";
  return d;
}
std::string locOf(const Instruction *I, const std::string &fn) {
  std::string s;
  if (const DebugLoc &L = I->getDebugLoc()) {
    for (DILocation *x = L.get(); x; x = x->getInlinedAt()) {
      auto *sp = x->getScope()->getSubprogram();
      std::string f = sp ? shortName(demangled(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str())) : "?";
      std::string file = x->getFilename().str(); size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1);
      s += f + " (" + file + ":" + std::to_string(x->getLine()) + ")\n";
    }
  } else s = shortName(demangled(fn)) + "\n";
  return s;
}
std::string backtrace() {
  std::string s; if (!cur) return s;
  s += "thread " + std::to_string(cur->id) + ":\n";
  int n = 0;
  for (int i = (int)cur->frames.size() - 1; i >= 0 && n < 30; i--, n++) {
    Frame &f = cur->frames[i];
    if (f.pc >= 0 && f.pc < (int)f.fn->code.size()) s += locOf(f.fn->code[f.pc].I, f.fn->name);
  }
  return s;
}
std::string where() {
  std::string b = backtrace(), o; int lines = 0;
  for (char c : b) { if (c == '\n') { if (++lines > 8) break; o += " < "; } else o += c; }
  return o;
}
// first frames that belong to the code under test (or harness), used in race messages
std::string userLoc() {
  std::string b = backtrace(), best; size_t i = 0;
  while (i < b.size()) {
    size_t e = b.find('\n', i); std::string l = b.substr(i, e - i); i = e + 1;
    if (l.compare(0, 6, "ptne::") == 0 || l.find(" ptne::") != std::string::npos || l.find("(anonymous namespace)::") == 0 || l.find("harness") != std::string::npos) { best = l; break; }
  }
  if (best.empty()) { size_t e = b.find('\n'); size_t e2 = b.find('\n', e + 1); best = b.substr(e + 1, e2 - e - 1); }
  size_t p = best.rfind(" (");
  return p == std::string::npos ? best : best.substr(0, p);
}

// ------------------------------------------------------------------ loads and stores
static inline u64 maskw(u64 x, unsigned w) { return w >= 64 ? x : x & ((1ull << w) - 1); }
static Val loadBytes(u64 a, unsigned bytes, unsigned bits) {
  bool sym = false;
  if (inArena(a)) { u64 g = (a - ARENA) >> 4, e = (a + bytes - 1 - ARENA) >> 4; sym = granSym[g] || granSym[e]; if (sym) sym = rangeHasSym(a, bytes); }
  if (!sym) {
    u64 x = 0, h = 0;
    switch (bytes) { case 1: x = *(u8 *)a; break; case 2: x = *(u16 *)a; break; case 4: x = *(u32 *)a; break; case 8: x = *(u64 *)a; break;
      case 16: x = *(u64 *)a; h = *(u64 *)(a + 8); break; default: memcpy(&x, (void *)a, std::min(bytes, 8u)); if (bytes > 8) memcpy(&h, (void *)(a + 8), bytes - 8); }
    if (bits < 64) x &= (1ull << bits) - 1;
    return Val{ x, h, nullptr };
  }
  auto it = shadow.find(a);
  if (it != shadow.end() && it->second.idx == 0 && it->second.n == bytes) {
    Z3_ast as = it->second.ast; bool full = true;
    for (unsigned i = 1; i < bytes && full; i++) { auto j = shadow.find(a + i); full = j != shadow.end() && j->second.ast == as && j->second.idx == i; }
    if (full) { Val v = Val{ 0, 0, as }; if (bits == bytes * 8) return v; return fromAst(bits == 1 ? Z3_mk_eq(zc, ref(Z3_mk_extract(zc, 0, 0, as)), ref(Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)))) : Z3_mk_extract(zc, bits - 1, 0, as), bits); }
  }
  Z3_ast r = nullptr;
  for (int i = bytes - 1; i >= 0; i--) {
    auto j = shadow.find(a + i); Z3_ast b;
    if (j != shadow.end()) b = j->second.n == 1 ? j->second.ast : ref(Z3_mk_extract(zc, j->second.idx * 8 + 7, j->second.idx * 8, j->second.ast));
    else b = ref(Z3_mk_unsigned_int64(zc, *(u8 *)(a + i), bvSort(8)));
    r = r ? ref(Z3_mk_concat(zc, r, b)) : b;
  }
  if (bits == 1) return fromAst(Z3_mk_eq(zc, ref(Z3_mk_extract(zc, 0, 0, r)), ref(Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)))), 1);
  if (bits < bytes * 8) return fromAst(Z3_mk_extract(zc, bits - 1, 0, r), bits);
  return fromAst(r, bits);
}
static void storeBytes(u64 a, unsigned bytes, unsigned bits, const Val &v) {
  if (v.s) {
    Z3_ast s = v.s;
    if (bits == 1) s = ref(Z3_mk_ite(zc, s, toAst(CV(1), 8), toAst(CV(0), 8)));
    else if (bits < bytes * 8) s = ref(Z3_mk_zero_ext(zc, bytes * 8 - bits, s));
    if (!inArena(a)) engineError("symbolic store outside the arena");
    clearSymRange(a, bytes);
    memset((void *)a, '?', bytes);
    for (unsigned i = 0; i < bytes; i++) { shadow[a + i] = SB{ s, (u8)i, (u8)bytes }; granSym[(a + i - ARENA) >> 4]++; }
    return;
  }
  if (inArena(a)) { u64 g = (a - ARENA) >> 4, e = (a + bytes - 1 - ARENA) >> 4; if (granSym[g] || granSym[e]) clearSymRange(a, bytes); }
  switch (bytes) { case 1: *(u8 *)a = v.lo; break; case 2: *(u16 *)a = v.lo; break; case 4: *(u32 *)a = v.lo; break; case 8: *(u64 *)a = v.lo; break;
    case 16: *(u64 *)a = v.lo; *(u64 *)(a + 8) = v.hi; break; default: memcpy((void *)a, &v.lo, std::min(bytes, 8u)); if (bytes > 8) memcpy((void *)(a + 8), &v.hi, bytes - 8); }
}
Val memLoad(u64 a, unsigned bytes, unsigned bits) { checkAccess(a, bytes, false); return loadBytes(a, bytes, bits); }
void memStore(u64 a, unsigned bytes, unsigned bits, const Val &v) { checkAccess(a, bytes, true); storeBytes(a, bytes, bits, v); }
void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return;
  checkAccess(s, n, false); checkAccess(d, n, true);
  if (nThreadsEver > 1) { raceAccess(s, n, false, false); raceAccess(d, n, true, false); }
  if (rangeHasSym(s, n)) {
    std::vector<std::pair<u64, SB>> tmp;
    for (u64 i = 0; i < n; i++) { auto it = shadow.find(s + i); if (it != shadow.end()) tmp.push_back({ i, it->second }); }
    if (!inArena(d)) engineError("copy of symbolic data to native memory");
    clearSymRange(d, n); memmove((void *)d, (void *)s, n);
    for (auto &t : tmp) { shadow[d + t.first] = t.second; granSym[(d + t.first - ARENA) >> 4]++; }
  } else { if (inArena(d)) clearSymRange(d, n); memmove((void *)d, (void *)s, n); }
}
void memSet(u64 d, const Val &c, u64 n) {
  if (!n) return;
  checkAccess(d, n, true);
  if (nThreadsEver > 1) raceAccess(d, n, true, false);
  if (c.s) { for (u64 i = 0; i < n; i++) storeBytes(d + i, 1, 8, c); return; }
  if (inArena(d)) clearSymRange(d, n);
  memset((void *)d, (int)c.lo, n);
}

// ------------------------------------------------------------------ functions and globals
std::vector<FnInfo *> fns; std::unordered_map<const Function *, FnInfo *> fnMap; std::unordered_map<std::string, FnInfo *> fnByName;
std::unordered_map<const GlobalVariable *, u64> gvAddr;
FnInfo *fnOf(const Function *F) {
  auto it = fnMap.find(F); if (it != fnMap.end()) return it->second;
  FnInfo *f = new FnInfo; f->F = const_cast<Function *>(F); f->name = F->getName().str(); f->idx = fns.size(); fns.push_back(f); fnMap[F] = f; fnByName[f->name] = f;
  f->addr = CODE_BASE + 16ull * f->idx;
  return f;
}
void resolveFn(FnInfo *f) {
  if (f->resolved) return;
  f->resolved = true;
  f->h = findHandler(f);
  if (!f->h && f->F->isDeclaration()) f->native = dlsym(RTLD_DEFAULT, f->name.c_str());
}
u64 fnAddress(FnInfo *f) {
  resolveFn(f);
  if (f->h || !f->F->isDeclaration()) return f->addr;
  if (f->native) return (u64)f->native;
  if (f->F->hasExternalWeakLinkage()) return 0;
  return f->addr;
}
FnInfo *fnAt(u64 a) {
  if (a >= CODE_BASE && a < CODE_BASE + 16ull * fns.size() && !(a & 15)) return fns[(a - CODE_BASE) >> 4];
  return nullptr;
}
static u64 gvAddress(const GlobalVariable *G) {
  auto it = gvAddr.find(G); if (it != gvAddr.end()) return it->second;
  u64 a;
  if (G->isDeclaration()) {
    std::string n = G->getName().str();
    if (n == "__dso_handle") a = allocGlobal(8, 8, false);
    else if (n == "__libc_single_threaded") { a = allocGlobal(1, 1, false); *(u8 *)a = 0; }
    else { a = (u64)dlsym(RTLD_DEFAULT, n.c_str()); if (!a && !G->hasExternalWeakLinkage()) engineError("unresolved global " + n); }
  } else {
    u64 sz = DL->getTypeAllocSize(G->getValueType());
    a = allocGlobal(sz ? sz : 1, G->getAlign().valueOrOne().value(), false);
  }
  gvAddr[G] = a;
  return a;
}
static unsigned leafBits(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  return 0;
}
static int nslots(Type *T) {
  if (T->isVoidTy()) return 0;
  if (auto *S = dyn_cast<StructType>(T)) { int n = 0; for (auto *e : S->elements()) n += nslots(e); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * nslots(A->getElementType());
  if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * nslots(V->getElementType());
  return 1;
}
static void leaves(Type *T, u64 off, std::vector<LeafInfo> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), off + i * sz, out); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 sz = DL->getTypeStoreSize(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); i++) leaves(V->getElementType(), off + i * sz, out); return; }
  out.push_back(LeafInfo{ off, leafBits(T), (unsigned)DL->getTypeStoreSize(T).getFixedValue(), (u8)T->isFloatingPointTy() });
}
static Val constScalar(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    const APInt &A = I->getValue(); Val v = CV(0); v.lo = A.getRawData()[0]; if (A.getBitWidth() > 64) v.hi = A.getRawData()[1];
    if (A.getBitWidth() < 64) v.lo &= (1ull << A.getBitWidth()) - 1;
    return v;
  }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return CV(0);
  if (auto *F = dyn_cast<ConstantFP>(C)) { APInt A = F->getValueAPF().bitcastToAPInt(); Val v = CV(A.getRawData()[0]); if (A.getBitWidth() > 64) v.hi = A.getRawData()[1]; return v; }
  if (auto *F = dyn_cast<Function>(C)) return CV(fnAddress(fnOf(F)));
  if (auto *G = dyn_cast<GlobalVariable>(C)) return CV(gvAddress(G));
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constScalar(A->getAliasee());
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); auto *G = cast<GEPOperator>(E);
      if (!G->accumulateConstantOffset(*DL, off)) engineError("non constant gep expression");
      return CV(constScalar(cast<Constant>(G->getPointerOperand())).lo + off.getSExtValue());
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
      Val v = constScalar(E->getOperand(0)); unsigned w = leafBits(E->getType()); v.lo = maskw(v.lo, w); return v;
    }
    case Instruction::Add: case Instruction::Sub: {
      u64 a = constScalar(E->getOperand(0)).lo, b = constScalar(E->getOperand(1)).lo; unsigned w = leafBits(E->getType());
      return CV(maskw(E->getOpcode() == Instruction::Add ? a + b : a - b, w));
    }
    case Instruction::ICmp: {
      u64 a = constScalar(E->getOperand(0)).lo, b = constScalar(E->getOperand(1)).lo;
      if (E->getPredicate() == CmpInst::ICMP_EQ) return CV(a == b);
      if (E->getPredicate() == CmpInst::ICMP_NE) return CV(a != b);
      break;
    }
    case Instruction::Trunc: { Val v = constScalar(E->getOperand(0)); v.lo = maskw(v.lo, leafBits(E->getType())); return v; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); engineError("unsupported constant " + s); return CV(0);
}
static void constFlatten(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (int i = 0, n = nslots(T); i < n; i++) out.push_back(CV(0)); return; }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) constFlatten(C->getAggregateElement(i), out);
    return;
  }
  out.push_back(constScalar(C));
}
static void initMem(const Constant *C, u64 a) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { memset((void *)a, 0, DL->getTypeAllocSize(T)); return; }
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) initMem(C->getAggregateElement(i), a + L->getElementOffset(i)); return; }
  if (T->isArrayTy() || T->isVectorTy()) {
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
    u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    u64 sz = DL->getTypeAllocSize(T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType());
    for (u64 i = 0; i < n; i++) initMem(C->getAggregateElement(i), a + i * sz);
    return;
  }
  Val v = constScalar(C); memcpy((void *)a, &v.lo, std::min<u64>(8, DL->getTypeStoreSize(T))); if (DL->getTypeStoreSize(T) > 8) memcpy((void *)(a + 8), &v.hi, DL->getTypeStoreSize(T) - 8);
}
extern std::unordered_map<u64, std::string> tlsImage;
void initGlobals() {
  for (Function &F : *MOD) fnOf(&F);
  for (GlobalVariable &G : MOD->globals()) if (!G.getName().starts_with("llvm.")) gvAddress(&G);
  for (GlobalVariable &G : MOD->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) {
    u64 a = gvAddress(&G); initMem(G.getInitializer(), a);
    if (G.isThreadLocal()) tlsImage[a] = std::string((char *)a, DL->getTypeAllocSize(G.getValueType()));
    if (G.isConstant()) objs[granId[(a - ARENA) >> 4]].kind = K_CONST;
  }
}

// ------------------------------------------------------------------ translation
struct Translator {
  FnInfo *f; DenseMap<const Value *, int> slot; DenseMap<const BasicBlock *, int> start; DenseMap<const Constant *, int> cmap;
  int constOp(const Constant *C) {
    auto it = cmap.find(C); if (it != cmap.end()) return it->second;
    int base = f->consts.size(); constFlatten(C, f->consts);
    int r = ~base; cmap[C] = r; return r;
  }
  int opnd(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constOp(C);
    auto it = slot.find(V); if (it == slot.end()) { if (isa<MetadataAsValue>(V)) return ~0; engineError("operand without slot in " + f->name); }
    return it->second;
  }
  static int opAt(int o, int k) { return o >= 0 ? o + k : ~(~o + k); }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = start[to];
    for (const PHINode &P : to->phis()) {
      int s = opnd(P.getIncomingValueForBlock(from)), d = slot[&P], n = nslots(P.getType());
      for (int i = 0; i < n; i++) e.copies.push_back({ d + i, opAt(s, i) });
    }
    f->edges.push_back(e); return f->edges.size() - 1;
  }
  void run();
};
static bool scopeFiltered(const Instruction *I) {
  auto bad = [](StringRef n) {
    return n.contains("_Sp_counted") || n.contains("__shared_count") || n.contains("__weak_count") || n.contains("_M_release") || n.contains("_M_add_ref") || n.contains("_M_add_owner") ||
           n.contains("_M_sub_owner") || n.contains("barrier") || n.contains("__exchange_and_add") || n.contains("__atomic_add") || n.contains("_Stop_state_ref") || n.contains("shared_ptr") || n.contains("weak_ptr") || n.contains("_Stop_state_t6_M_try_lock") || n.contains("__atomic_wait") || n.contains("__atomic_notify") || n.contains("__waiter") || n.contains("SymCell");
  };
  if (bad(I->getFunction()->getName())) return true;
  if (const DebugLoc &L = I->getDebugLoc())
    for (DILocation *x = L.get(); x; x = x->getInlinedAt()) { auto *sp = x->getScope()->getSubprogram(); if (sp && (bad(sp->getLinkageName()) || bad(sp->getName()))) return true; }
  return false;
}
void Translator::run() {
  Function &F = *f->F; int n = 0;
  for (auto &A : F.args()) { slot[&A] = n; n += nslots(A.getType()); }
  f->nargs = n;
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nslots(I.getType()); }
  f->nregs = n;
  int p = 0;
  for (auto &B : F) { start[&B] = p; for (auto &I : B) if (!isa<PHINode>(I)) p++; }
  f->code.reserve(p);
  for (auto &B : F) for (auto &I : B) {
    if (isa<PHINode>(I)) continue;
    Inst x{}; x.I = &I; x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.op = OP_UNSUPPORTED;
    Type *T = I.getType();
    unsigned nb = I.getNumOperands();
    if (nb > 0 && !isa<CallBase>(I) && !isa<BranchInst>(I) && !isa<SwitchInst>(I) && !isa<LandingPadInst>(I) && !isa<AllocaInst>(I)) x.a = opnd(I.getOperand(0));
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      x.b = opnd(I.getOperand(1)); x.w = leafBits(T); x.fp = T->isFloatingPointTy() ? (T->isFloatTy() ? 1 : T->isDoubleTy() ? 2 : 3) : 0;
      if (T->isVectorTy()) x.op = OP_UNSUPPORTED; else
      switch (BO->getOpcode()) {
      case Instruction::Add: x.op = OP_ADD; break; case Instruction::Sub: x.op = OP_SUB; break; case Instruction::Mul: x.op = OP_MUL; break;
      case Instruction::UDiv: x.op = OP_UDIV; break; case Instruction::SDiv: x.op = OP_SDIV; break; case Instruction::URem: x.op = OP_UREM; break; case Instruction::SRem: x.op = OP_SREM; break;
      case Instruction::Shl: x.op = OP_SHL; break; case Instruction::LShr: x.op = OP_LSHR; break; case Instruction::AShr: x.op = OP_ASHR; break;
      case Instruction::And: x.op = OP_AND; break; case Instruction::Or: x.op = OP_OR; break; case Instruction::Xor: x.op = OP_XOR; break;
      case Instruction::FAdd: x.op = OP_FADD; break; case Instruction::FSub: x.op = OP_FSUB; break; case Instruction::FMul: x.op = OP_FMUL; break; case Instruction::FDiv: x.op = OP_FDIV; break;
      default: break; }
    } else if (I.getOpcode() == Instruction::FNeg) { x.op = OP_FNEG; x.w = leafBits(T); x.fp = T->isFloatTy() ? 1 : T->isDoubleTy() ? 2 : 3; }
    else if (auto *C = dyn_cast<ICmpInst>(&I)) { x.op = C->getOperand(0)->getType()->isVectorTy() ? OP_UNSUPPORTED : OP_ICMP; x.sub = C->getPredicate(); x.b = opnd(C->getOperand(1)); x.w = leafBits(C->getOperand(0)->getType()); }
    else if (auto *C = dyn_cast<FCmpInst>(&I)) { x.op = OP_FCMP; x.sub = C->getPredicate(); x.b = opnd(C->getOperand(1)); Type *t = C->getOperand(0)->getType(); x.fp = t->isFloatTy() ? 1 : t->isDoubleTy() ? 2 : 3; }
    else if (auto *C = dyn_cast<CastInst>(&I)) {
      Type *S = C->getSrcTy(); x.w = leafBits(T); x.w2 = leafBits(S);
      auto fk = [](Type *t) -> u8 { return t->isFloatTy() ? 1 : t->isDoubleTy() ? 2 : t->isX86_FP80Ty() ? 3 : 0; };
      if (T->isVectorTy() || S->isVectorTy()) x.op = OP_UNSUPPORTED; else
      switch (C->getOpcode()) {
      case Instruction::Trunc: x.op = OP_TRUNC; break; case Instruction::ZExt: x.op = OP_ZEXT; break; case Instruction::SExt: x.op = OP_SEXT; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w < x.w2 ? OP_TRUNC : x.w > x.w2 ? OP_ZEXT : OP_COPY; break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: x.op = OP_COPY; break;
      case Instruction::FPToUI: x.op = OP_FPTOUI; x.fp = fk(S); break; case Instruction::FPToSI: x.op = OP_FPTOSI; x.fp = fk(S); break;
      case Instruction::UIToFP: x.op = OP_UITOFP; x.fp = fk(T); break; case Instruction::SIToFP: x.op = OP_SITOFP; x.fp = fk(T); break;
      case Instruction::FPExt: case Instruction::FPTrunc: x.op = OP_FPCONV; x.fp = fk(S); x.sub = fk(T); break;
      default: break; }
    } else if (auto *L = dyn_cast<LoadInst>(&I)) {
      x.op = OP_LOAD; if (L->isAtomic()) { x.flags |= IF_ATOMIC; if (L->getOrdering() == AtomicOrdering::Monotonic || L->getOrdering() == AtomicOrdering::Unordered) x.flags |= IF_RELAXED; if (!scopeFiltered(&I)) x.flags |= IF_VISIBLE; }
      auto *lv = new std::vector<LeafInfo>; leaves(T, 0, *lv); x.p = lv; if (lv->size() == 1) { x.w = (*lv)[0].bits; x.w2 = (*lv)[0].bytes; } else x.flags |= IF_MULTI;
    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
      x.op = OP_STORE; x.a = opnd(S->getValueOperand()); x.b = opnd(S->getPointerOperand()); if (S->isAtomic()) { x.flags |= IF_ATOMIC; if (S->getOrdering() == AtomicOrdering::Monotonic || S->getOrdering() == AtomicOrdering::Unordered) x.flags |= IF_RELAXED; if (!scopeFiltered(&I)) x.flags |= IF_VISIBLE; }
      auto *lv = new std::vector<LeafInfo>; leaves(S->getValueOperand()->getType(), 0, *lv); x.p = lv; if (lv->size() == 1) { x.w = (*lv)[0].bits; x.w2 = (*lv)[0].bytes; } else x.flags |= IF_MULTI;
    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      x.op = OP_ALLOCA; x.imm = DL->getTypeAllocSize(A->getAllocatedType()); x.a = opnd(A->getArraySize()); x.w = leafBits(A->getArraySize()->getType()); x.b = A->getAlign().value();
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      x.op = G->getType()->isVectorTy() ? OP_UNSUPPORTED : OP_GEP; auto *gi = new GepInfo; gi->off = 0; x.a = opnd(G->getPointerOperand());
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Value *ix = it.getOperand();
        if (StructType *ST = it.getStructTypeOrNull()) gi->off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else {
          i64 sc = it.getSequentialElementStride(*DL).getFixedValue();
          if (auto *CI = dyn_cast<ConstantInt>(ix)) gi->off += CI->getSExtValue() * sc; else gi->idx.push_back({ opnd(ix), sc, leafBits(ix->getType()) });
        }
      }
      x.p = gi;
    } else if (auto *S = dyn_cast<SelectInst>(&I)) { x.op = S->getCondition()->getType()->isVectorTy() ? OP_UNSUPPORTED : OP_SELECT; x.b = opnd(S->getTrueValue()); x.c = opnd(S->getFalseValue()); x.imm = nslots(T); auto *lv = new std::vector<LeafInfo>; leaves(T, 0, *lv); x.p = lv; }
    else if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isConditional()) { x.op = OP_CONDBR; x.a = opnd(Br->getCondition()); x.b = edge(&B, Br->getSuccessor(0)); x.c = edge(&B, Br->getSuccessor(1)); }
      else { x.op = OP_BR; x.b = edge(&B, Br->getSuccessor(0)); }
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      x.op = OP_SWITCH; x.a = opnd(S->getCondition()); x.w = leafBits(S->getCondition()->getType());
      auto *v = new std::vector<std::pair<u64, int>>; for (auto &c : S->cases()) v->push_back({ maskw(c.getCaseValue()->getZExtValue(), x.w), edge(&B, c.getCaseSuccessor()) });
      x.b = edge(&B, S->getDefaultDest()); x.p = v;
    } else if (auto *R = dyn_cast<ReturnInst>(&I)) { x.op = OP_RET; x.imm = R->getReturnValue() ? nslots(R->getReturnValue()->getType()) : 0; }
    else if (isa<UnreachableInst>(I)) x.op = OP_UNREACHABLE;
    else if (auto *C = dyn_cast<CallBase>(&I)) {
      x.op = isa<InvokeInst>(I) ? OP_INVOKE : OP_CALL; auto *ci = new CallInfo; x.p = ci; x.w = leafBits(T);
      if (C->isInlineAsm()) { x.op = OP_NOP; if (!T->isVoidTy()) x.op = OP_UNSUPPORTED; f->code.push_back(x); continue; }
      Value *callee = C->getCalledOperand()->stripPointerCasts();
      if (auto *GA = dyn_cast<GlobalAlias>(callee)) callee = GA->getAliaseeObject();
      bool isIntr = false;
      if (auto *CF = dyn_cast<Function>(callee)) {
        ci->direct = fnOf(CF);
        if (CF->isIntrinsic()) {
          isIntr = true;
          switch (CF->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
            x.op = OP_NOP; f->code.push_back(x); goto next;
          default: break;
          }
        }
      } else ci->calleeOp = opnd(callee);
      for (unsigned i = 0; i < C->arg_size(); i++) {
        Value *a = C->getArgOperand(i); 
        if (a->getType()->isMetadataTy()) { ci->args.push_back(constOp(ConstantInt::get(Type::getInt64Ty(I.getContext()), 0))); ci->argn.push_back(1); ci->byval.push_back(0); ci->argfp.push_back(0); continue; }
        ci->args.push_back(opnd(a)); ci->argn.push_back(nslots(a->getType()));
        ci->byval.push_back(C->isByValArgument(i) ? (u64)DL->getTypeAllocSize(C->getParamByValType(i)) : 0);
        ci->argfp.push_back(a->getType()->isFloatTy() ? 1 : a->getType()->isDoubleTy() ? 2 : a->getType()->isX86_FP80Ty() ? 3 : 0);
      }
      (void)isIntr;
      ci->nret = nslots(T); ci->retfp = T->isFloatTy() ? 1 : T->isDoubleTy() ? 2 : T->isX86_FP80Ty() ? 3 : 0;
      { std::vector<LeafInfo> lv; if (ci->nret) leaves(T, 0, lv); for (auto &l : lv) ci->retbitsv.push_back(l.bits); }
      if (auto *IV = dyn_cast<InvokeInst>(&I)) { ci->edge0 = edge(&B, IV->getNormalDest()); ci->edge1 = edge(&B, IV->getUnwindDest()); }
    } else if (isa<LandingPadInst>(I)) x.op = OP_LANDINGPAD;
    else if (isa<ResumeInst>(I)) x.op = OP_RESUME;
    else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      x.op = OP_EXTRACT; Type *t = E->getAggregateOperand()->getType(); int off = 0;
      for (unsigned ix : E->indices()) { if (auto *S = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(S->getElementType(k)); t = S->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * nslots(t); } }
      x.imm = nslots(t); x.a = opAt(x.a, off);
    } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      x.op = OP_INSERT; Type *t = E->getType(); int off = 0; x.b = opnd(E->getInsertedValueOperand());
      for (unsigned ix : E->indices()) { if (auto *S = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(S->getElementType(k)); t = S->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * nslots(t); } }
      x.c = off; x.w = nslots(t); x.imm = nslots(E->getType());
    } else if (isa<FreezeInst>(I)) { x.op = OP_EXTRACT; x.imm = nslots(T); }
    else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { x.op = OP_ATOMICRMW; x.sub = R->getOperation(); x.b = opnd(R->getValOperand()); x.w = leafBits(T); x.w2 = DL->getTypeStoreSize(T); x.flags = IF_ATOMIC | (scopeFiltered(&I) ? 0 : IF_VISIBLE) | (R->getOrdering() == AtomicOrdering::Monotonic ? IF_RELAXED : 0); }
    else if (auto *R = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = OP_CMPXCHG; x.b = opnd(R->getCompareOperand()); x.c = opnd(R->getNewValOperand()); x.w = leafBits(R->getCompareOperand()->getType()); x.w2 = DL->getTypeStoreSize(R->getCompareOperand()->getType()); x.flags = IF_ATOMIC | (scopeFiltered(&I) ? 0 : IF_VISIBLE); }
    else if (isa<FenceInst>(I)) x.op = OP_NOP;
    f->code.push_back(x);
  next:;
  }
}
void prepare(FnInfo *f) {
  if (f->prepared) return;
  f->prepared = true;
  Translator t; t.f = f; t.run();
}

// ------------------------------------------------------------------ arithmetic
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static u128 u128of(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static Val v128(u128 x, unsigned w) { if (w < 128) x &= (((u128)1) << w) - 1; return Val{ (u64)x, (u64)(x >> 64), nullptr }; }
Val binop(u8 op, unsigned w, const Val &a, const Val &b) {
  if (!a.s && !b.s) {
    if (w > 64) {
      u128 x = u128of(a), y = u128of(b); i128 sxx = w == 128 ? (i128)x : ((i128)(x << (128 - w)) >> (128 - w)), syy = w == 128 ? (i128)y : ((i128)(y << (128 - w)) >> (128 - w));
      switch (op) {
      case OP_ADD: return v128(x + y, w); case OP_SUB: return v128(x - y, w); case OP_MUL: return v128(x * y, w); case OP_AND: return v128(x & y, w); case OP_OR: return v128(x | y, w); case OP_XOR: return v128(x ^ y, w);
      case OP_SHL: return v128(x << y, w); case OP_LSHR: return v128(x >> y, w); case OP_ASHR: return v128((u128)(sxx >> y), w);
      case OP_UDIV: if (!y) break; return v128(x / y, w); case OP_UREM: if (!y) break; return v128(x % y, w); case OP_SDIV: if (!y) break; return v128((u128)(sxx / syy), w); case OP_SREM: if (!y) break; return v128((u128)(sxx % syy), w);
      }
      violation("arith", "division by zero"); endPath("violation");
    }
    u64 x = a.lo, y = b.lo, r = 0;
    switch (op) {
    case OP_ADD: r = x + y; break; case OP_SUB: r = x - y; break; case OP_MUL: r = x * y; break;
    case OP_AND: r = x & y; break; case OP_OR: r = x | y; break; case OP_XOR: r = x ^ y; break;
    case OP_SHL: r = y >= w ? 0 : x << y; break; case OP_LSHR: r = y >= w ? 0 : x >> y; break; case OP_ASHR: r = (u64)(sx(x, w) >> (y >= w ? 63 : y)); break;
    case OP_UDIV: case OP_UREM: case OP_SDIV: case OP_SREM:
      if (!y) { violation("arith", "division by zero"); endPath("violation"); }
      if (op == OP_UDIV) r = x / y; else if (op == OP_UREM) r = x % y;
      else { i64 p = sx(x, w), q = sx(y, w); if (q == -1) r = op == OP_SDIV ? (u64)-(u64)p : 0; else r = op == OP_SDIV ? p / q : p % q; }
    }
    return CV(maskw(r, w));
  }
  Z3_ast x = toAst(a, w), y = toAst(b, w), r = nullptr;
  if (w == 1) {
    Z3_ast xs[2] = { x, y };
    switch (op) { case OP_AND: case OP_MUL: r = Z3_mk_and(zc, 2, xs); break; case OP_OR: r = Z3_mk_or(zc, 2, xs); break; case OP_XOR: case OP_ADD: case OP_SUB: r = Z3_mk_xor(zc, x, y); break; default: engineError("i1 arithmetic"); }
    return fromAst(r, 1);
  }
  if (op == OP_UDIV || op == OP_UREM || op == OP_SDIV || op == OP_SREM) {
    Val z = fromAst(Z3_mk_eq(zc, y, toAst(CV(0), w)), 1);
    if (z.s ? branchOn(z.s) : z.lo) { violation("arith", "division by zero"); endPath("violation"); }
  }
  switch (op) {
  case OP_ADD: r = Z3_mk_bvadd(zc, x, y); break; case OP_SUB: r = Z3_mk_bvsub(zc, x, y); break; case OP_MUL: r = Z3_mk_bvmul(zc, x, y); break;
  case OP_UDIV: r = Z3_mk_bvudiv(zc, x, y); break; case OP_SDIV: r = Z3_mk_bvsdiv(zc, x, y); break; case OP_UREM: r = Z3_mk_bvurem(zc, x, y); break; case OP_SREM: r = Z3_mk_bvsrem(zc, x, y); break;
  case OP_SHL: r = Z3_mk_bvshl(zc, x, y); break; case OP_LSHR: r = Z3_mk_bvlshr(zc, x, y); break; case OP_ASHR: r = Z3_mk_bvashr(zc, x, y); break;
  case OP_AND: r = Z3_mk_bvand(zc, x, y); break; case OP_OR: r = Z3_mk_bvor(zc, x, y); break; case OP_XOR: r = Z3_mk_bvxor(zc, x, y); break;
  default: engineError("binop"); }
  return fromAst(r, w);
}
Val icmp(u8 pred, unsigned w, const Val &a, const Val &b) {
  if (!a.s && !b.s) {
    if (w > 64) {
      u128 x = u128of(a), y = u128of(b); i128 p = (i128)(x << (128 - w)) >> (128 - w), q = (i128)(y << (128 - w)) >> (128 - w);
      switch (pred) { case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y); case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_UGE: return CV(x >= y); case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_ULE: return CV(x <= y);
        case CmpInst::ICMP_SGT: return CV(p > q); case CmpInst::ICMP_SGE: return CV(p >= q); case CmpInst::ICMP_SLT: return CV(p < q); case CmpInst::ICMP_SLE: return CV(p <= q); }
    }
    u64 x = a.lo, y = b.lo; i64 p = sx(x, w), q = sx(y, w);
    switch (pred) { case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y); case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_UGE: return CV(x >= y); case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_ULE: return CV(x <= y);
      case CmpInst::ICMP_SGT: return CV(p > q); case CmpInst::ICMP_SGE: return CV(p >= q); case CmpInst::ICMP_SLT: return CV(p < q); case CmpInst::ICMP_SLE: return CV(p <= q); }
  }
  Z3_ast x = toAst(a, w), y = toAst(b, w), r = nullptr;
  if (w == 1) {
    switch (pred) { case CmpInst::ICMP_EQ: r = Z3_mk_iff(zc, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_xor(zc, x, y); break;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: { Z3_ast q[2] = { mkNot(x), y }; r = Z3_mk_and(zc, 2, q); break; }
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: { Z3_ast q[2] = { x, mkNot(y) }; r = Z3_mk_and(zc, 2, q); break; }
      case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: { Z3_ast q[2] = { mkNot(x), y }; r = Z3_mk_or(zc, 2, q); break; }
      case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: { Z3_ast q[2] = { x, mkNot(y) }; r = Z3_mk_or(zc, 2, q); break; } }
    return fromAst(r, 1);
  }
  switch (pred) {
  case CmpInst::ICMP_EQ: r = Z3_mk_eq(zc, x, y); break; case CmpInst::ICMP_NE: r = mkNot(ref(Z3_mk_eq(zc, x, y))); break;
  case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(zc, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(zc, x, y); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(zc, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(zc, x, y); break;
  case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(zc, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(zc, x, y); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(zc, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(zc, x, y); break; }
  return fromAst(r, 1);
}
Val iteVal(Z3_ast c, const Val &a, const Val &b, unsigned w) {
  if (!a.s && !b.s && a.lo == b.lo && a.hi == b.hi) return a;
  return fromAst(Z3_mk_ite(zc, c, toAst(a, w), toAst(b, w)), w);
}
Val castop(u8 op, unsigned w, unsigned w2, const Val &a) {
  if (!a.s) {
    if (op == OP_TRUNC) return w > 64 ? v128(u128of(a), w) : CV(maskw(a.lo, w));
    if (op == OP_ZEXT) return Val{ a.lo, w2 > 64 ? a.hi : 0, nullptr };
    i128 x = w2 <= 64 ? (i128)sx(a.lo, w2) : (i128)(u128of(a) << (128 - w2)) >> (128 - w2);
    return w > 64 ? v128((u128)x, w) : CV(maskw((u64)x, w));
  }
  if (op == OP_TRUNC) {
    if (w == 1) { static Z3_ast one1 = nullptr; static Z3_sort b1; if (!one1) { b1 = Z3_mk_bv_sort(zc, 1); Z3_inc_ref(zc, Z3_sort_to_ast(zc, b1)); one1 = ref(Z3_mk_unsigned_int64(zc, 1, b1)); } return fromAst(Z3_mk_eq(zc, ref(Z3_mk_extract(zc, 0, 0, a.s)), one1), 1); }
    return fromAst(Z3_mk_extract(zc, w - 1, 0, a.s), w);
  }
  if (w2 == 1) return fromAst(Z3_mk_ite(zc, a.s, op == OP_ZEXT ? toAst(CV(1), w) : toAst(Val{ maskw(~0ull, w), w > 64 ? ~0ull : 0, nullptr }, w), toAst(CV(0), w)), w);
  return fromAst(op == OP_ZEXT ? Z3_mk_zero_ext(zc, w - w2, a.s) : Z3_mk_sign_ext(zc, w - w2, a.s), w);
}
static long double fpGet(const Val &v, u8 k) {
  if (v.s) engineError("symbolic floating point");
  if (k == 1) { float f; memcpy(&f, &v.lo, 4); return f; }
  if (k == 2) { double d; memcpy(&d, &v.lo, 8); return d; }
  long double l = 0; memcpy(&l, &v.lo, 8); memcpy((char *)&l + 8, &v.hi, 2); return l;
}
Val fpPut(long double x, u8 k) {
  Val v = CV(0);
  if (k == 1) { float f = x; memcpy(&v.lo, &f, 4); } else if (k == 2) { double d = x; memcpy(&v.lo, &d, 8); } else { memcpy(&v.lo, &x, 8); memcpy(&v.hi, (char *)&x + 8, 2); }
  return v;
}
long double fpVal(const Val &v, u8 k) { return fpGet(v, k); }

// ------------------------------------------------------------------ frames
static inline Val &O(Frame &f, int o) { return o >= 0 ? f.regs[o] : f.fn->consts[~o]; }
void pushFrame(Thread *t, FnInfo *fn, const Val *args, int n, int retDst, int nret, bool dropRet) {
  prepare(fn);
  if (t->frames.size() > 4000) { violation("memory", "stack overflow: call depth above 4000"); endPath("violation"); }
  Frame f; f.fn = fn; f.pc = 0; f.regs = t->regTop; f.retDst = retDst; f.nret = nret; f.sp = t->sp; f.nalloca = t->allocas.size(); f.dropRet = dropRet;
  t->regTop += fn->nregs;
  if (n < fn->nargs) for (int i = n; i < fn->nargs; i++) f.regs[i] = CV(0);
  for (int i = 0; i < n && i < fn->nargs; i++) f.regs[i] = args[i];
  t->frames.push_back(f);
  shm->fnHits[fn->idx & 65535] = 1;
}
u64 stackAlloc(Thread *t, u64 size, u64 align) {
  if (align < 16) align = 16;
  t->sp = (t->sp + align - 1) & ~(align - 1);
  u64 p = t->sp;
  if (p + size + 32 > t->stackTop) { violation("memory", "stack exhausted"); endPath("violation"); }
  newObj(p, size, K_STACK, t->id);
  t->sp += ((size + 15) & ~15ull) + 16;
  t->allocas.push_back(p);
  return p;
}
void popFrame(Thread *t) {
  Frame &f = t->frames.back();
  while (t->allocas.size() > f.nalloca) {
    u64 p = t->allocas.back(); t->allocas.pop_back();
    u32 id = granId[(p - ARENA) >> 4]; Obj &o = objs[id];
    if (o.size) clearSymRange(p, o.size);
    if (nThreadsEver > 1) raceForget(p, o.size);
    for (u64 g = (p - ARENA) >> 4, e = (p + (o.size ? o.size : 1) - 1 - ARENA) >> 4; g <= e; g++) granId[g] = 0;
    memset((void *)p, 0xCC, o.size);
    freeObjIds.push_back(id);
  }
  t->sp = f.sp; t->regTop = f.regs; t->frames.pop_back();
}
static inline void takeEdge(Frame &f, int e) {
  Edge &E = f.fn->edges[e]; size_t n = E.copies.size();
  if (n == 1) f.regs[E.copies[0].first] = O(f, E.copies[0].second);
  else if (n) {
    Val tmp[64]; if (n > 64) engineError("too many phis");
    for (size_t i = 0; i < n; i++) tmp[i] = O(f, E.copies[i].second);
    for (size_t i = 0; i < n; i++) f.regs[E.copies[i].first] = tmp[i];
  }
  f.pc = E.target;
}
void finishCall(Frame &f, Inst &in, const Val *ret, int n) {
  CallInfo *ci = (CallInfo *)in.p;
  for (int i = 0; i < ci->nret; i++) f.regs[in.dst + i] = i < n ? ret[i] : CV(0);
  if (in.op == OP_INVOKE) takeEdge(f, ci->edge0); else f.pc++;
}
// Unwinds the current thread with exception object obj. Ends the path if nobody catches.
void unwind(Thread *t, u64 obj) {
  while (!t->frames.empty()) {
    Frame &f = t->frames.back();
    if (f.pc >= 0 && f.pc < (int)f.fn->code.size()) {
      Inst &in = f.fn->code[f.pc];
      if (in.op == OP_INVOKE) {
        CallInfo *ci = (CallInfo *)in.p;
        int target = f.fn->edges[ci->edge1].target;
        auto *LP = cast<LandingPadInst>(f.fn->code[target].I);
        bool enter = false; u64 sel = 0;
        for (unsigned i = 0; i < LP->getNumClauses() && !enter; i++) {
          if (LP->isCatch(i)) {
            u64 ti = constScalar(LP->getClause(i)).lo;
            if (excMatches(obj, ti)) { enter = true; sel = typeIdFor(ti); }
          } else { // filter: treated as not matching when it is empty (throw())
            violation("exception", "exception leaves a function that must not throw"); endPath("violation");
          }
        }
        if (!enter && LP->isCleanup()) { enter = true; sel = 0; }
        if (enter) { t->lpObj = obj; t->lpSel = sel; takeEdge(f, ci->edge1); return; }
      }
    }
    popFrame(t);
  }
  violation("exception", "uncaught exception terminates the program: " + excDesc(obj));
  endPath("violation");
}

static u64 maxInsts() { return opt.maxInsts; }
static inline void raceMaybe(u64 a, unsigned n, bool wr) { if (nThreadsEver > 1) raceAccess(a, n, wr, false); }

enum SR { S_OK, S_RESCHED };
static SR doCall(Thread *t, Frame &f, Inst &in) {
  CallInfo *ci = (CallInfo *)in.p; FnInfo *fn = ci->direct;
  Val argv[64]; int n = 0;
  for (size_t i = 0; i < ci->args.size(); i++) { int k = ci->argn[i]; if (n + k > 60) engineError("too many arguments"); for (int j = 0; j < k; j++) argv[n++] = O(f, Translator::opAt(ci->args[i], j)); }
  u64 naddr = 0;
  if (!fn) {
    Val &cv = O(f, ci->calleeOp); u64 a = concretize(cv, 64);
    fn = fnAt(a);
    if (!fn) {
      if (inArena(a) || a < 65536) { violation("memory", a < 65536 ? "call through a null function pointer" : "call through an invalid function pointer"); endPath("violation"); }
      naddr = a;
    }
  }
  if (fn) {
    if (!fn->resolved) resolveFn(fn);
    if (fn->h) {
      CallCtx c; c.t = t; c.in = &in; c.ci = ci; c.fn = fn; c.args = argv; c.n = n; c.redirect = nullptr; for (auto &r : c.ret) r = CV(0);
      HR r = fn->h(c);
      switch (r) {
      case H_DONE: { Frame &g = t->frames.back(); t->spDone = false; t->phase = 0; finishCall(g, in, c.ret, 4); return S_OK; }
      case H_RETRY: return S_RESCHED;
      case H_PUSHED: case H_THROWN: t->spDone = false; t->phase = 0; return S_OK;
      case H_REDIRECT: t->spDone = false; t->phase = 0; fn = c.redirect; n = c.redirArgs.size(); for (int i = 0; i < n; i++) argv[i] = c.redirArgs[i]; break;
      }
    }
    if (!fn->F->isDeclaration()) {
      u64 spSave = t->sp; size_t naSave = t->allocas.size(); (void)spSave; (void)naSave;
      int k = 0; std::vector<std::pair<int, u64>> bv;
      for (size_t i = 0; i < ci->args.size(); i++) { if (ci->byval[i]) bv.push_back({ k, ci->byval[i] }); k += ci->argn[i]; }
      pushFrame(t, fn, argv, n, in.dst, ci->nret, false);
      for (auto &b : bv) { u64 p = stackAlloc(t, b.second, 16); memCopy(p, concretize(argv[b.first], 64), b.second); t->frames.back().regs[b.first] = CV(p); }
      return S_OK;
    }
    naddr = (u64)fn->native;
    if (!naddr) engineError("call to an unknown external function " + fn->name);
  }
  // native call
  int k = 0; bool anyfp = ci->retfp != 0;
  for (size_t i = 0; i < ci->args.size(); i++) { if (ci->argfp[i]) anyfp = true; if (ci->byval[i]) engineError("native call with byval argument " + (fn ? fn->name : "?")); k += ci->argn[i]; }
  for (int i = 0; i < n; i++) concretize(argv[i], 64);
  for (int i = 0; i < n; i++) if (inArena(argv[i].lo)) { u32 id = granId[(argv[i].lo - ARENA) >> 4]; if (id && rangeHasSym(objs[id].base, objs[id].size)) warnOnce("native call with symbolic memory: " + (fn ? fn->name : "?")); }
  Val ret[4] = { CV(0), CV(0), CV(0), CV(0) };
  shm->nativeCalls++;
  if (opt.verbose > 1) fprintf(stderr, "native %s\n", fn ? fn->name.c_str() : "?");
  if (!nativeCall(naddr, ci, argv, n, anyfp, ret)) { unwind(t, t->lpObj); return S_OK; }
  finishCall(t->frames.back(), in, ret, 4);
  return S_OK;
}

// Executes instructions of the current thread until it must be rescheduled.
static void runThread(Thread *t) {
  for (;;) {
    Frame &f = t->frames.back();
    Inst &in = f.fn->code[f.pc];
    insts++;
    if ((insts & 0xffff) == 0) {
      if (nowSec() > shm->deadline) { shm->incomplete.fetch_or(INC_TIME); endPath("deadline"); }
      if (shm->stop) endPath("deadline");
    }
    if (insts > maxInsts()) { violation("hang", "no termination within the instruction bound"); endPath("violation"); }
    switch (in.op) {
    case OP_ADD: { Val &a = O(f, in.a), &b = O(f, in.b); if (!a.s && !b.s && in.w <= 64) f.regs[in.dst] = CV(maskw(a.lo + b.lo, in.w)); else f.regs[in.dst] = binop(in.op, in.w, a, b); f.pc++; break; }
    case OP_SUB: case OP_MUL: case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM: case OP_SHL: case OP_LSHR: case OP_ASHR: case OP_AND: case OP_OR: case OP_XOR:
      f.regs[in.dst] = binop(in.op, in.w, O(f, in.a), O(f, in.b)); f.pc++; break;
    case OP_FADD: f.regs[in.dst] = fpPut(fpGet(O(f, in.a), in.fp) + fpGet(O(f, in.b), in.fp), in.fp); f.pc++; break;
    case OP_FSUB: f.regs[in.dst] = fpPut(fpGet(O(f, in.a), in.fp) - fpGet(O(f, in.b), in.fp), in.fp); f.pc++; break;
    case OP_FMUL: f.regs[in.dst] = fpPut(fpGet(O(f, in.a), in.fp) * fpGet(O(f, in.b), in.fp), in.fp); f.pc++; break;
    case OP_FDIV: f.regs[in.dst] = fpPut(fpGet(O(f, in.a), in.fp) / fpGet(O(f, in.b), in.fp), in.fp); f.pc++; break;
    case OP_FNEG: f.regs[in.dst] = fpPut(-fpGet(O(f, in.a), in.fp), in.fp); f.pc++; break;
    case OP_FCMP: {
      long double a = fpGet(O(f, in.a), in.fp), b = fpGet(O(f, in.b), in.fp); bool un = std::isnan(a) || std::isnan(b), r = false;
      switch (in.sub) { case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; }
      f.regs[in.dst] = CV(r); f.pc++; break;
    }
    case OP_FPTOUI: f.regs[in.dst] = CV(maskw((u64)fpGet(O(f, in.a), in.fp), in.w)); f.pc++; break;
    case OP_FPTOSI: f.regs[in.dst] = CV(maskw((u64)(i64)fpGet(O(f, in.a), in.fp), in.w)); f.pc++; break;
    case OP_UITOFP: { Val v = O(f, in.a); if (v.s && in.w2 == 64) for (u64 lim : { 1ull << 53, 1ull << 63 }) if (!branchOn(ref(Z3_mk_bvugt(zc, v.s, toAst(CV(lim), 64))))) break; concretize(v, in.w2, 20); f.regs[in.dst] = fpPut((long double)v.lo, in.fp); f.pc++; break; }
    case OP_SITOFP: { Val v = O(f, in.a); concretize(v, in.w2); f.regs[in.dst] = fpPut((long double)sx(v.lo, in.w2), in.fp); f.pc++; break; }
    case OP_FPCONV: f.regs[in.dst] = fpPut(fpGet(O(f, in.a), in.fp), in.sub); f.pc++; break;
    case OP_ICMP: f.regs[in.dst] = icmp(in.sub, in.w, O(f, in.a), O(f, in.b)); f.pc++; break;
    case OP_TRUNC: case OP_ZEXT: case OP_SEXT: f.regs[in.dst] = castop(in.op, in.w, in.w2, O(f, in.a)); f.pc++; break;
    case OP_COPY: f.regs[in.dst] = O(f, in.a); f.pc++; break;
    case OP_LOAD: {
      if ((in.flags & IF_VISIBLE) && !schedPoint(t)) return;
      u64 a = concretize(O(f, in.a), 64);
      if (in.flags & IF_MULTI) { auto &lv = *(std::vector<LeafInfo> *)in.p; int k = 0; for (auto &l : lv) { raceMaybe(a + l.off, l.bytes, false); f.regs[in.dst + k++] = memLoad(a + l.off, l.bytes, l.bits); } }
      else { checkAccess(a, in.w2, false); if (in.flags & IF_ATOMIC) { if (!(in.flags & IF_RELAXED)) hbAtomic(a); } else raceMaybe(a, in.w2, false); f.regs[in.dst] = loadBytes(a, in.w2, in.w); }
      t->spDone = false; f.pc++; break;
    }
    case OP_STORE: {
      if ((in.flags & IF_VISIBLE) && !schedPoint(t)) return;
      u64 a = concretize(O(f, in.b), 64);
      if (in.flags & IF_MULTI) { auto &lv = *(std::vector<LeafInfo> *)in.p; int k = 0; for (auto &l : lv) { raceMaybe(a + l.off, l.bytes, true); memStore(a + l.off, l.bytes, l.bits, O(f, Translator::opAt(in.a, k))); k++; } }
      else { checkAccess(a, in.w2, true); if (in.flags & IF_ATOMIC) { if (!(in.flags & IF_RELAXED)) hbAtomic(a); } else raceMaybe(a, in.w2, true); storeBytes(a, in.w2, in.w, O(f, in.a)); }
      t->spDone = false; f.pc++; break;
    }
    case OP_ALLOCA: { Val n = O(f, in.a); u64 k = concretize(n, in.w); u64 p = stackAlloc(t, in.imm * k, in.b); memset((void *)p, 0xAB, in.imm * k); f.regs[in.dst] = CV(p); f.pc++; break; }
    case OP_GEP: {
      GepInfo *g = (GepInfo *)in.p; Val r = O(f, in.a);
      if (r.s) r = binop(OP_ADD, 64, r, CV((u64)g->off)); else r = CV(r.lo + g->off);
      for (auto &ix : g->idx) {
        Val v = O(f, std::get<0>(ix)); unsigned w = std::get<2>(ix);
        if (!v.s && !r.s) r.lo += (u64)(sx(v.lo, w) * std::get<1>(ix));
        else { if (w < 64) v = castop(OP_SEXT, 64, w, v); r = binop(OP_ADD, 64, r, binop(OP_MUL, 64, v, CV((u64)std::get<1>(ix)))); }
      }
      f.regs[in.dst] = r; f.pc++; break;
    }
    case OP_SELECT: {
      Val &c = O(f, in.a);
      if (!c.s) { int s = (c.lo & 1) ? in.b : in.c; for (u64 i = 0; i < in.imm; i++) f.regs[in.dst + i] = O(f, Translator::opAt(s, i)); }
      else {
        auto &lv = *(std::vector<LeafInfo> *)in.p;
        bool ptr = in.I->getType()->isPointerTy();
        if (ptr || lv[0].fp) { bool b = branchOn(c.s); int s = b ? in.b : in.c; Val cc = CV(b); if (in.a >= 0) f.regs[in.a] = cc; for (u64 i = 0; i < in.imm; i++) f.regs[in.dst + i] = O(f, Translator::opAt(s, i)); }
        else for (u64 i = 0; i < in.imm; i++) f.regs[in.dst + i] = iteVal(c.s, O(f, Translator::opAt(in.b, i)), O(f, Translator::opAt(in.c, i)), lv[i].bits);
      }
      f.pc++; break;
    }
    case OP_BR: takeEdge(f, in.b); break;
    case OP_CONDBR: {
      Val &c = O(f, in.a); bool b;
      if (c.s) b = branchOn(c.s); else b = c.lo & 1;
      takeEdge(f, b ? in.b : in.c); break;
    }
    case OP_SWITCH: {
      Val &c = O(f, in.a); auto &cs = *(std::vector<std::pair<u64, int>> *)in.p; int e = in.b;
      if (!c.s) { for (auto &k : cs) if (k.first == c.lo) { e = k.second; break; } }
      else for (auto &k : cs) { Val q = icmp(CmpInst::ICMP_EQ, in.w, c, CV(k.first)); if (q.s ? branchOn(q.s) : (q.lo & 1)) { e = k.second; break; } }
      takeEdge(f, e); break;
    }
    case OP_RET: {
      Val r[16]; int n = (int)in.imm; for (int i = 0; i < n; i++) r[i] = O(f, Translator::opAt(in.a, i));
      bool drop = f.dropRet, startup = f.retDst == -2;
      popFrame(t);
      if (startup) break;
      if (t->frames.empty()) { threadFinished(t, n ? r[0] : CV(0)); return; }
      Frame &g = t->frames.back();
      if (drop) g.pc++; else finishCall(g, g.fn->code[g.pc], r, n);
      break;
    }
    case OP_UNREACHABLE: violation("ub", "reached code the compiler marked unreachable"); endPath("violation"); break;
    case OP_CALL: case OP_INVOKE: if (doCall(t, f, in) == S_RESCHED) return; break;
    case OP_LANDINGPAD: f.regs[in.dst] = CV(t->lpObj); f.regs[in.dst + 1] = CV(t->lpSel); f.pc++; break;
    case OP_RESUME: { u64 o = O(f, in.a).lo; popFrame(t); unwind(t, o); break; }
    case OP_EXTRACT: for (u64 i = 0; i < in.imm; i++) f.regs[in.dst + i] = O(f, Translator::opAt(in.a, i)); f.pc++; break;
    case OP_INSERT: for (u64 i = 0; i < in.imm; i++) f.regs[in.dst + i] = O(f, Translator::opAt(in.a, i)); for (int i = 0; i < in.w; i++) f.regs[in.dst + in.c + i] = O(f, Translator::opAt(in.b, i)); f.pc++; break;
    case OP_ATOMICRMW: {
      if ((in.flags & IF_VISIBLE) && !schedPoint(t)) return;
      u64 a = concretize(O(f, in.a), 64); checkAccess(a, in.w2, true); if (!(in.flags & IF_RELAXED)) hbAtomic(a);
      Val o = loadBytes(a, in.w2, in.w), v = O(f, in.b), r;
      switch (in.sub) {
      case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(OP_ADD, in.w, o, v); break; case AtomicRMWInst::Sub: r = binop(OP_SUB, in.w, o, v); break;
      case AtomicRMWInst::And: r = binop(OP_AND, in.w, o, v); break; case AtomicRMWInst::Or: r = binop(OP_OR, in.w, o, v); break; case AtomicRMWInst::Xor: r = binop(OP_XOR, in.w, o, v); break;
      default: engineError("atomicrmw op"); }
      storeBytes(a, in.w2, in.w, r); f.regs[in.dst] = o; t->spDone = false; f.pc++; break;
    }
    case OP_CMPXCHG: {
      if ((in.flags & IF_VISIBLE) && !schedPoint(t)) return;
      u64 a = concretize(O(f, in.a), 64); checkAccess(a, in.w2, true); hbAtomic(a);
      Val o = loadBytes(a, in.w2, in.w); Val q = icmp(CmpInst::ICMP_EQ, in.w, o, O(f, in.b)); bool eq = q.s ? branchOn(q.s) : (q.lo & 1);
      if (eq) storeBytes(a, in.w2, in.w, O(f, in.c));
      f.regs[in.dst] = o; f.regs[in.dst + 1] = CV(eq); t->spDone = false; f.pc++; break;
    }
    case OP_NOP: f.pc++; break;
    default: { std::string s; raw_string_ostream os(s); in.I->print(os); engineError("unsupported instruction " + s); }
    }
  }
}
static sigjmp_buf segvJmp; static volatile bool segvArmed = false;
static void onSegv(int sig, siginfo_t *, void *) {
  if (segvArmed) { segvArmed = false; siglongjmp(segvJmp, sig); }
  const char m[] = "engine crashed\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r;
  int n = shm->nerrors.fetch_add(1); if (n < 8) strcpy(shm->errors[n], "engine crashed (signal)");
  shm->incomplete.fetch_or(INC_ENGINE);
  if (ownsToken) sem_post(&shm->tok);
  _exit(9);
}
void installSegv() {
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
}
void runAll() {
  if (sigsetjmp(segvJmp, 1)) {
    violation("memory", "access through a wild pointer"); endPath("violation");
  }
  segvArmed = true;
  for (;;) { runThread(cur); if (!pickNext()) break; }
}
