// Symbolic executor for LLVM bitcode: program representation and state.
#pragma once
#include "expr.h"
#include "solver.h"
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace llvm { class Function; class Instruction; class BasicBlock; class Module; }

struct Val { uint64_t c = 0; Ex e = nullptr; };

// ---------------------------------------------------------------- program
enum Op : uint8_t {
  O_NOP, O_BIN, O_DIV, O_CMP, O_ZEXT, O_SEXT, O_NARROW, O_COPY, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET,
  O_UNREACH, O_CALL, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_MOVES, O_LPAD, O_RESUME, O_RMW, O_CMPXCHG,
  O_FENCE, O_FREEZE, O_UNSUP, O_FBIN, O_FCMP, O_FCAST
};
struct Edge { uint32_t target; uint32_t block; std::vector<std::pair<int32_t, int32_t>> moves; };
struct GepTerm { int32_t op; uint8_t w; int64_t scale; };
struct Leaf { uint32_t off; uint16_t w; bool ptr; };
struct Inst {
  Op op; uint8_t sub = 0; uint16_t w = 0;
  int32_t dst = -1, a = 0, b = 0, c = 0;
  uint32_t aux = 0;
  uint32_t line = 0;
  const llvm::Instruction *src = nullptr;
};
struct Fn;
struct CallInfo {
  Fn *callee = nullptr; int builtin = -1; int32_t target = 0; // operand when indirect
  std::vector<std::vector<int32_t>> args;                      // flattened operands
  std::vector<uint16_t> argw;                                  // width of the first leaf
  std::vector<uint32_t> byval;                                 // byval size or 0
  bool invoke = false; uint32_t normal = 0, unwind = 0;        // edges
  uint32_t nret = 0;
};
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct LpadInfo { bool cleanup; std::vector<int32_t> clauses; std::vector<bool> isFilter; };
struct GepInfo { int64_t off = 0; std::vector<GepTerm> terms; };
struct Fn {
  std::string name, pretty;
  llvm::Function *llf = nullptr;
  uint32_t id = 0;
  bool defined = false;
  int builtin = -1;
  uint64_t addr = 0;
  uint32_t nslots = 0;
  std::vector<int32_t> argSlots; // first slot for each arg
  std::vector<uint32_t> argLeaves;
  std::vector<Inst> code;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls;
  std::vector<SwitchInfo> switches;
  std::vector<GepInfo> geps;
  std::vector<LpadInfo> lpads;
  std::vector<std::vector<Leaf>> leaves; // for aggregate load/store
  std::vector<std::vector<std::pair<int32_t, int32_t>>> moves;
  uint32_t covBase = 0, nblocks = 0;
  bool vararg = false;
};

// ---------------------------------------------------------------- memory
struct SymB { Ex e = nullptr; uint8_t idx = 0; };
struct Shadow { uint32_t wc = 0; uint32_t rc[4] = {0, 0, 0, 0}; uint8_t wt = 255; };
enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_NEW, OK_NEWARR, OK_MALLOC };
struct Obj {
  uint32_t rc = 1;
  uint32_t size = 0;
  ObjKind kind = OK_GLOBAL;
  uint8_t owner = 0;
  std::vector<uint8_t> b;
  std::vector<SymB> sym;      // empty or one per byte
  std::vector<uint8_t> undef; // empty or one per byte
  std::vector<Shadow> shadow; // race detection (only with several threads)
};
static const uint32_t CH = 128;
struct Chunk { uint32_t rc = 1; uint32_t live = 0; Obj *o[CH] = {}; };

struct Memory {
  std::vector<Chunk *> ch;
  uint32_t next = 0;
  Memory() {}
  Memory(const Memory &m) : ch(m.ch), next(m.next) { for (Chunk *c : ch) c->rc++; }
  Memory &operator=(const Memory &) = delete;
  ~Memory() { for (Chunk *c : ch) drop(c); }
  static void drop(Chunk *c);
  static void dropO(Obj *o) { if (o && --o->rc == 0) delete o; }
  Obj *get(uint32_t id) const { return id < next ? ch[id / CH]->o[id % CH] : nullptr; }
  Chunk *wchunk(uint32_t ci);
  Obj *wr(uint32_t id);
  uint32_t add(Obj *o);
  void kill(uint32_t id);
};

// ---------------------------------------------------------------- state
struct Frame {
  Fn *f; uint32_t pc; uint32_t base; uint32_t allocaBase;
  int32_t retDst; int32_t callIdx; // call info index in the caller (-1: none)
  uint64_t va = 0; // variadic arguments
};
struct LockSt { uint8_t writer = 255; uint8_t depth = 0; uint8_t readers[4] = {0, 0, 0, 0}; uint32_t clk[4] = {0, 0, 0, 0}; uint32_t rclk[4] = {0,0,0,0}; };
struct Thread {
  std::vector<Frame> fr;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  uint8_t status = 0; // 0 runnable, 1 done
  bool joined = false;
  uint32_t clk[4] = {0, 0, 0, 0};
  std::vector<uint64_t> caught; // caught exceptions
  uint64_t curExc = 0, curSel = 0;
  uint64_t blockedOn = 0; uint8_t blockKind = 0;
};
struct HashEnt { std::vector<Ex> bytes; std::vector<uint8_t> conc; uint64_t seed; uint64_t out; };
struct State {
  Memory mem;
  std::vector<Thread> th;
  uint32_t cur = 0;
  std::vector<Ex> pc;
  std::unordered_map<Ex, Ex> facts;
  uint64_t factsStamp = 0;
  Model model;
  uint64_t mstamp = 0;
  std::vector<Ex> inputs;
  std::vector<uint32_t> inputIdx;
  uint32_t nvars = 0, nundef = 0, nsched = 0, preempt = 0;
  int64_t liveHeap = 0;
  std::vector<HashEnt> hashlog;
  int hashMode = -1, layout = 0;
  std::map<uint64_t, LockSt> locks;
  std::map<std::pair<uint32_t, uint32_t>, uint64_t> tls; // (thread, variable) -> its copy
  std::map<uint64_t, std::pair<uint64_t, uint32_t>> exc; // exception object -> (typeinfo, refcount)
  uint64_t steps = 0;
  uint32_t forks = 0;
  std::vector<std::string> notes;
};
