#pragma once
#include "mem.h"
#include "solver.h"
#include <string>
#include <atomic>
#include <map>
#include <tuple>
#include <set>
#include <list>

struct Val { E e; uint64_t v; };
static inline Val C(uint64_t v) { return Val{nullptr, v}; }
static inline Val SV(E e) { if (e->op == O_Const) return Val{nullptr, e->v}; return Val{e, 0}; }
static inline E toE(const Val &a, unsigned w) { return a.e ? a.e : EP.cst(a.v, w); }

enum IOp : uint8_t { I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_CMP, I_SELECT, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_UNREACH,
  I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_FP, I_EXTRACTV, I_INSERTV, I_RMW, I_CMPXCHG, I_BYVAL, I_OVF, I_UNSUP };
struct Opd { int32_t reg; uint8_t undef; uint64_t v; };   // reg<0: constant
struct Edge { uint32_t target; std::vector<std::pair<int32_t, Opd>> copies; std::vector<uint8_t> w; };
struct DFunc;
struct DInst {
  IOp op; uint8_t sub = 0; uint8_t w = 0, w2 = 0;
  int32_t dst = -1;
  std::vector<Opd> o;
  std::vector<uint8_t> ow;
  std::vector<int64_t> aux;               // gep scales, alloca size, switch cases
  std::vector<Edge> edges;
  DFunc *callee = nullptr; int intr = -1;
  uint32_t line = 0;
  std::string note;
  bool isNoReturn = false;
};
struct DFunc {
  std::string name, file;
  bool hasBody = false, vararg = false, repo = false, decoded = false;
  int nregs = 0, idx = 0, nargs = 0;
  std::vector<int32_t> argRegs;
  std::vector<DInst> code;
  void *llvm = nullptr;
  int intr = -1;
  uint32_t objId = 0;
  uint8_t retw = 0;
};

struct Frame {
  DFunc *f; uint32_t pc = 0;
  std::vector<Val> R;
  std::vector<uint32_t> allocas;
  uint32_t varObj = 0;
};
struct Thread { std::vector<Frame> st; };
struct SymLog { E e; std::string name; };
struct State {
  std::vector<Thread> th; int cur = 0;
  ObjTab mem;
  std::vector<E> cons;
  std::unordered_set<uint32_t> known;
  std::unordered_map<uint32_t, uint64_t> eq;      // variables fixed by equality
  std::vector<uint64_t> wit;
  uint32_t nvar = 0;
  std::vector<SymLog> log;
  std::vector<std::pair<std::string, Val>> obs;
  uint64_t steps = 0;
  int64_t liveHeap = 0;
  std::vector<uint32_t> freed;                    // with --reuse: freed blocks, given out again last first
  uint32_t depth = 0;                             // number of forks on this path
  bool usedUninit = false;
  VarSet uninit;                                  // variables that stand for uninitialised memory
  std::map<const void *, E> undefs;
  std::map<std::pair<E, unsigned>, std::vector<E>> big;      // digits of large doubles, in full
  std::map<std::pair<uint32_t, std::vector<uint64_t>>, E> crcs;   // checksums of the same bytes share one expression
  std::map<std::tuple<E, unsigned, unsigned>, E> digits;   // decimal digits already introduced for a value
  State() {}
  State(const State &) = default;
};

struct Shared {
  std::atomic<int> active, stop, crashed, nviol, nsamples;
  std::atomic<uint64_t> paths, killed, forks, instrs, queries, sat, unsat, unknown, hits, asserts, incomplete, checks, checksSolver, maxDepth, maxSteps, maxCons, us, maxus, procs;
  std::atomic<uint64_t> cover[256]; char coverName[256][64]; std::atomic<int> ncover;
  char incMsg[16][256]; std::atomic<int> nincMsg;
  std::atomic<uint8_t> fnUsed[8192];
  uint32_t violHash[256];
};
struct KillPath {};
struct Violation { std::string msg; };
struct Incomplete { std::string msg; };
