// Bounded symbolic executor for LLVM bitcode: shared declarations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <z3.h>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 u128; typedef __int128 i128;

struct Val { u64 lo; u64 hi; Z3_ast s; };
static inline Val CV(u64 x) { return Val{ x, 0, nullptr }; }

struct FnInfo;
enum Op : u8 {
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FCMP, OP_ICMP,
  OP_TRUNC, OP_ZEXT, OP_SEXT, OP_COPY, OP_BITCASTFP, OP_FPTOUI, OP_FPTOSI, OP_UITOFP, OP_SITOFP, OP_FPCONV,
  OP_LOAD, OP_STORE, OP_ALLOCA, OP_GEP, OP_SELECT, OP_BR, OP_CONDBR, OP_SWITCH, OP_RET, OP_UNREACHABLE,
  OP_CALL, OP_INVOKE, OP_LANDINGPAD, OP_RESUME, OP_EXTRACT, OP_INSERT, OP_FREEZE,
  OP_ATOMICRMW, OP_CMPXCHG, OP_FENCE, OP_NOP, OP_UNSUPPORTED
};
struct Edge { int target; std::vector<std::pair<int,int>> copies; /* dst slot, src operand */ };
struct GepInfo { i64 off; std::vector<std::tuple<int,i64,unsigned>> idx; };
struct LeafInfo { u64 off; unsigned bits; unsigned bytes; u8 fp; };   // leaves of a first-class type
struct CallInfo {
  FnInfo *direct = nullptr; int calleeOp = 0; std::vector<int> args; std::vector<int> argn; std::vector<u64> byval;
  std::vector<u8> argfp; int nret = 0; u8 retfp = 0; unsigned retbits = 0; int edge0 = -1, edge1 = -1;
  std::vector<unsigned> retbitsv;
};
struct Inst {
  u8 op; u8 sub; u8 fp; u8 flags; u16 w; u16 w2;
  i32 dst, a, b, c; u64 imm; void *p; const llvm::Instruction *I;
};
enum { IF_ATOMIC = 1, IF_VISIBLE = 2, IF_MULTI = 4, IF_RELAXED = 8 };

struct Thread; struct CallCtx;
enum HR { H_DONE, H_RETRY, H_PUSHED, H_THROWN, H_REDIRECT };
typedef HR (*Handler)(CallCtx &);
struct CallCtx { Thread *t; Inst *in; CallInfo *ci; FnInfo *fn; Val *args; int n; Val ret[4]; FnInfo *redirect; std::vector<Val> redirArgs; };

struct FnInfo {
  llvm::Function *F = nullptr; std::string name; int idx = 0;
  bool prepared = false; Handler h = nullptr; void *native = nullptr; u64 addr = 0; bool resolved = false;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; int nregs = 0; int nargs = 0;
};

struct Frame { FnInfo *fn; int pc; Val *regs; int retDst; int nret; u64 sp; size_t nalloca; bool dropRet; };
enum WaitKind { W_NONE, W_MUTEX, W_RD, W_WR, W_COND, W_JOIN, W_FUTEX, W_SLEEP, W_IDLE };
enum { NSLOT = 24 };
typedef std::array<u32, NSLOT> VC;
struct Thread {
  int id, slot = 0; bool finished = false; bool blocked = false; WaitKind wk = W_NONE; u64 wa = 0; u64 deadline = ~0ull; bool timed = false;
  bool notified = false, timedOut = false; int phase = 0; bool spDone = false; bool detached = false; bool yielded = false;
  std::vector<Frame> frames; std::vector<u64> allocas; Val *regBase, *regTop; u64 stackBase, stackTop, sp;
  u64 lpObj = 0; u64 lpSel = 0; std::vector<u64> caught; int uncaught = 0; VC vc{}; u64 visRun = 0; u64 idleLeft = 0; int yieldAlone = 0;
  int startFn = 0; u64 advAtStart=0;
};
