// LLVM bitcode -> compact program
#include "program.h"
#include <cxxabi.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;

Program P;
static LLVMContext C;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
int builtinId(const std::string &name);

std::string demangle(const std::string &n) {
  int st = 0;
  char *d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = d ? d : n;
  free(d);
  return r;
}

static void flatten(Type *t, uint32_t off, std::vector<Leaf> &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + l->getElementOffset(i), out);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * sz, out);
  } else if (t->isPointerTy()) out.push_back({off, 64, true});
  else if (t->isIntegerTy()) out.push_back({off, (uint16_t)t->getIntegerBitWidth(), false});
  else if (t->isFloatTy()) out.push_back({off, 32, false});
  else if (t->isDoubleTy()) out.push_back({off, 64, false});
  else if (t->isVoidTy()) {}
  else out.push_back({off, 1000, false}); // unsupported
}
static bool okType(Type *t) {
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return true;
  std::vector<Leaf> l;
  flatten(t, 0, l);
  for (auto &x : l) if (x.w > 64) return false;
  return true;
}

static uint64_t constVal(const Constant *c, bool &ok);
static uint64_t constExprVal(const ConstantExpr *ce, bool &ok) {
  switch (ce->getOpcode()) {
  case Instruction::GetElementPtr: {
    APInt off(64, 0);
    if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { ok = false; return 0; }
    return constVal(cast<Constant>(ce->getOperand(0)), ok) + off.getSExtValue();
  }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    return constVal(cast<Constant>(ce->getOperand(0)), ok);
  case Instruction::Trunc:
    return constVal(cast<Constant>(ce->getOperand(0)), ok) & maskw(ce->getType()->getIntegerBitWidth());
  case Instruction::Sub:
    return constVal(cast<Constant>(ce->getOperand(0)), ok) - constVal(cast<Constant>(ce->getOperand(1)), ok);
  case Instruction::Add:
    return constVal(cast<Constant>(ce->getOperand(0)), ok) + constVal(cast<Constant>(ce->getOperand(1)), ok);
  default: ok = false; return 0;
  }
}
static uint64_t constVal(const Constant *c, bool &ok) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 64) { ok = false; return 0; }
    return i->getZExtValue();
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    APInt b = f->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() > 64) { ok = false; return 0; }
    return b.getZExtValue();
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee(), ok);
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) { ok = false; return 0; }
    return it->second;
  }
  if (auto *e = dyn_cast<ConstantExpr>(c)) return constExprVal(e, ok);
  if (auto *nc = dyn_cast<NoCFIValue>(c)) return constVal(nc->getGlobalValue(), ok);
  ok = false;
  return 0;
}
static void constLeaves(const Constant *c, std::vector<uint64_t> &out, bool &ok) {
  Type *t = c->getType();
  if (isa<StructType>(t) || isa<ArrayType>(t)) {
    unsigned n = isa<StructType>(t) ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant *e = c->getAggregateElement(i);
      if (!e) { ok = false; return; }
      constLeaves(e, out, ok);
    }
  } else out.push_back(constVal(c, ok));
}
static void initMem(const Constant *c, uint8_t *p, uint64_t room) {
  Type *t = c->getType();
  if (c->isNullValue() || isa<UndefValue>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = d->getRawDataValues();
    memcpy(p, r.data(), std::min<uint64_t>(r.size(), room));
    return;
  }
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) initMem(c->getAggregateElement(i), p + l->getElementOffset(i), room - l->getElementOffset(i));
    return;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) initMem(c->getAggregateElement(i), p + i * sz, room - i * sz);
    return;
  }
  bool ok = true;
  uint64_t v = constVal(c, ok);
  if (!ok) { P.warn.push_back("unsupported global initialiser"); return; }
  memcpy(p, &v, std::min<uint64_t>(DL->getTypeStoreSize(t), 8));
}

struct Dec {
  Fn &F;
  std::unordered_map<const Value *, int32_t> slot;
  std::unordered_map<const BasicBlock *, uint32_t> bstart, bidx;
  std::map<std::pair<uint64_t, int>, int32_t> cmap;
  std::vector<std::pair<uint32_t, const BasicBlock *>> fix; // edge -> block
  bool bad = false;
  std::string why;

  int32_t kconst(uint64_t v) {
    auto it = cmap.find({v, 0});
    if (it != cmap.end()) return it->second;
    F.consts.push_back({v, nullptr});
    return cmap[{v, 0}] = ~(int32_t)(F.consts.size() - 1);
  }
  std::vector<int32_t> ops(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<uint64_t> l;
      bool ok = true;
      constLeaves(c, l, ok);
      if (!ok) { bad = true; why = "constant operand"; }
      std::vector<int32_t> r;
      for (uint64_t x : l) r.push_back(kconst(x));
      if (r.empty()) r.push_back(kconst(0));
      return r;
    }
    auto it = slot.find(v);
    if (it == slot.end()) { bad = true; why = "operand"; return {kconst(0)}; }
    std::vector<Leaf> l;
    flatten(v->getType(), 0, l);
    std::vector<int32_t> r;
    for (unsigned i = 0; i < std::max<size_t>(l.size(), 1); i++) r.push_back(it->second + i);
    return r;
  }
  int32_t op1(const Value *v) { return ops(v)[0]; }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.target = 0;
    e.block = bidx[to];
    for (auto &phi : to->phis()) {
      auto o = ops(phi.getIncomingValueForBlock(from));
      int32_t d = slot[&phi];
      for (unsigned i = 0; i < o.size(); i++) if (d + (int)i != o[i]) e.moves.push_back({d + (int)i, o[i]});
    }
    F.edges.push_back(e);
    fix.push_back({(uint32_t)F.edges.size() - 1, to});
    return F.edges.size() - 1;
  }
  void unsup(Inst I, const Instruction &i, const std::string &w) {
    I.op = O_UNSUP;
    P.unsup.push_back(F.name + ": " + w + " " + i.getOpcodeName());
    I.aux = P.unsup.size() - 1;
    F.code.push_back(I);
  }
  void run() {
    Function *f = F.llf;
    uint32_t ns = 0;
    auto give = [&](const Value &v) {
      if (v.getType()->isVoidTy()) return;
      std::vector<Leaf> l;
      flatten(v.getType(), 0, l);
      slot[&v] = ns;
      ns += std::max<size_t>(l.size(), 1);
    };
    for (auto &a : f->args()) {
      give(a);
      std::vector<Leaf> l;
      flatten(a.getType(), 0, l);
      F.argSlots.push_back(slot[&a]);
      F.argLeaves.push_back(l.size());
    }
    uint32_t bi = 0;
    for (auto &b : *f) {
      bidx[&b] = bi++;
      for (auto &i : b) give(i);
    }
    F.nblocks = bi;
    F.nslots = ns;
    for (auto &b : *f) {
      bstart[&b] = F.code.size();
      for (auto &i : b) inst(i);
    }
    for (auto &p : fix) F.edges[p.first].target = bstart[p.second];
  }
  void inst(const Instruction &i) {
    Inst I;
    I.src = &i;
    if (auto &d = i.getDebugLoc()) I.line = d.getLine();
    if (isa<PHINode>(i)) return;
    bad = false;
    if (!okType(i.getType())) { unsup(I, i, "type"); return; }
    for (auto &o : i.operands())
      if (!okType(o->getType())) { unsup(I, i, "operand type"); return; }
    if (!i.getType()->isVoidTy()) I.dst = slot[&i];
    auto width = [&](Type *t) -> uint16_t {
      std::vector<Leaf> l;
      flatten(t, 0, l);
      return l.empty() ? 0 : l[0].w;
    };
    I.w = i.getType()->isVoidTy() ? 0 : width(i.getType());
    size_t at = F.code.size();
    switch (i.getOpcode()) {
    case Instruction::Add: I.op = O_BIN; I.sub = K_ADD; break;
    case Instruction::Sub: I.op = O_BIN; I.sub = K_SUB; break;
    case Instruction::Mul: I.op = O_BIN; I.sub = K_MUL; break;
    case Instruction::And: I.op = O_BIN; I.sub = K_AND; break;
    case Instruction::Or: I.op = O_BIN; I.sub = K_OR; break;
    case Instruction::Xor: I.op = O_BIN; I.sub = K_XOR; break;
    case Instruction::Shl: I.op = O_BIN; I.sub = K_SHL; break;
    case Instruction::LShr: I.op = O_BIN; I.sub = K_LSHR; break;
    case Instruction::AShr: I.op = O_BIN; I.sub = K_ASHR; break;
    case Instruction::UDiv: I.op = O_DIV; I.sub = K_UDIV; break;
    case Instruction::SDiv: I.op = O_DIV; I.sub = K_SDIV; break;
    case Instruction::URem: I.op = O_DIV; I.sub = K_UREM; break;
    case Instruction::SRem: I.op = O_DIV; I.sub = K_SREM; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      I.op = O_FBIN;
      I.sub = i.getOpcode() == Instruction::FAdd ? 0 : i.getOpcode() == Instruction::FSub ? 1 : i.getOpcode() == Instruction::FMul ? 2 : 3;
      break;
    case Instruction::ICmp: {
      I.op = O_CMP;
      auto &c = cast<ICmpInst>(i);
      I.sub = c.getPredicate();
      I.w = width(c.getOperand(0)->getType());
      break;
    }
    case Instruction::FCmp: I.op = O_FCMP; I.sub = cast<FCmpInst>(i).getPredicate(); I.w = width(i.getOperand(0)->getType()); break;
    case Instruction::ZExt: I.op = O_ZEXT; I.aux = width(i.getOperand(0)->getType()); break;
    case Instruction::SExt: I.op = O_SEXT; I.aux = width(i.getOperand(0)->getType()); break;
    case Instruction::Trunc: I.op = O_NARROW; I.aux = width(i.getOperand(0)->getType()); break;
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
    case Instruction::FPExt: case Instruction::FPTrunc:
      I.op = O_FCAST; I.sub = i.getOpcode() - Instruction::Trunc; I.c = i.getOpcode(); I.aux = width(i.getOperand(0)->getType());
      I.a = op1(i.getOperand(0));
      F.code.push_back(I);
      return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      uint16_t ow = width(i.getOperand(0)->getType());
      I.aux = ow;
      I.op = I.w < ow ? O_NARROW : I.w > ow ? O_ZEXT : O_COPY;
      break;
    }
    case Instruction::Freeze: {
      auto o = ops(i.getOperand(0));
      std::vector<std::pair<int32_t, int32_t>> mv;
      for (unsigned k = 0; k < o.size(); k++) mv.push_back({I.dst + (int)k, o[k]});
      I.op = O_MOVES; I.aux = F.moves.size(); F.moves.push_back(mv);
      F.code.push_back(I);
      return;
    }
    case Instruction::Select: {
      auto x = ops(i.getOperand(1)), y = ops(i.getOperand(2));
      std::vector<Leaf> l;
      flatten(i.getType(), 0, l);
      for (unsigned k = 0; k < x.size(); k++) {
        Inst J = I;
        J.op = O_SELECT; J.w = l[k].w; J.sub = l[k].ptr; J.dst = I.dst + k;
        J.c = op1(i.getOperand(0)); J.a = x[k]; J.b = y[k];
        F.code.push_back(J);
      }
      return;
    }
    case Instruction::ExtractValue: {
      auto &ev = cast<ExtractValueInst>(i);
      std::vector<Leaf> skip;
      Type *t = ev.getAggregateOperand()->getType();
      uint32_t pos = 0;
      for (unsigned ix : ev.indices()) {
        for (unsigned k = 0; k < ix; k++) {
          std::vector<Leaf> l;
          flatten(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType(), 0, l);
          pos += l.size();
        }
        t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType();
      }
      std::vector<Leaf> l;
      flatten(t, 0, l);
      auto o = ops(ev.getAggregateOperand());
      std::vector<std::pair<int32_t, int32_t>> mv;
      for (unsigned k = 0; k < l.size(); k++) mv.push_back({I.dst + (int)k, o[pos + k]});
      I.op = O_MOVES; I.aux = F.moves.size(); F.moves.push_back(mv);
      F.code.push_back(I);
      return;
    }
    case Instruction::InsertValue: {
      auto &iv = cast<InsertValueInst>(i);
      Type *t = iv.getAggregateOperand()->getType();
      uint32_t pos = 0;
      for (unsigned ix : iv.indices()) {
        for (unsigned k = 0; k < ix; k++) {
          std::vector<Leaf> l;
          flatten(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType(), 0, l);
          pos += l.size();
        }
        t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType();
      }
      auto o = ops(iv.getAggregateOperand()), v = ops(iv.getInsertedValueOperand());
      for (unsigned k = 0; k < v.size(); k++) o[pos + k] = v[k];
      std::vector<std::pair<int32_t, int32_t>> mv;
      for (unsigned k = 0; k < o.size(); k++) mv.push_back({I.dst + (int)k, o[k]});
      I.op = O_MOVES; I.aux = F.moves.size(); F.moves.push_back(mv);
      F.code.push_back(I);
      return;
    }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(i);
      if (b.isUnconditional()) { I.op = O_BR; I.aux = edge(i.getParent(), b.getSuccessor(0)); }
      else {
        I.op = O_CBR; I.c = op1(b.getCondition());
        I.a = edge(i.getParent(), b.getSuccessor(0));
        I.b = edge(i.getParent(), b.getSuccessor(1));
      }
      F.code.push_back(I);
      return;
    }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(i);
      SwitchInfo si;
      si.def = edge(i.getParent(), s.getDefaultDest());
      for (auto &c : s.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(i.getParent(), c.getCaseSuccessor())});
      I.op = O_SWITCH; I.w = width(s.getCondition()->getType()); I.a = op1(s.getCondition());
      I.aux = F.switches.size();
      F.switches.push_back(si);
      F.code.push_back(I);
      return;
    }
    case Instruction::Ret: {
      auto &r = cast<ReturnInst>(i);
      I.op = O_RET;
      std::vector<std::pair<int32_t, int32_t>> mv;
      if (r.getReturnValue()) for (int32_t o : ops(r.getReturnValue())) mv.push_back({0, o});
      I.aux = F.moves.size();
      F.moves.push_back(mv);
      F.code.push_back(I);
      return;
    }
    case Instruction::Unreachable: I.op = O_UNREACH; F.code.push_back(I); return;
    case Instruction::Fence: I.op = O_FENCE; F.code.push_back(I); return;
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst>(i);
      I.op = O_ALLOCA;
      I.aux = DL->getTypeAllocSize(a.getAllocatedType());
      I.a = op1(a.getArraySize());
      F.code.push_back(I);
      return;
    }
    case Instruction::Load: case Instruction::Store: {
      bool ld = i.getOpcode() == Instruction::Load;
      Type *t = ld ? i.getType() : i.getOperand(0)->getType();
      std::vector<Leaf> l;
      flatten(t, 0, l);
      auto v = ld ? std::vector<int32_t>() : ops(i.getOperand(0));
      bool atomic = i.isAtomic();
      for (unsigned k = 0; k < l.size(); k++) {
        Inst J = I;
        J.op = ld ? O_LOAD : O_STORE;
        J.w = l[k].w;
        J.sub = (l[k].ptr ? 1 : 0) | (atomic ? 2 : 0);
        J.a = op1(i.getOperand(ld ? 0 : 1));
        J.aux = l[k].off;
        if (ld) J.dst = I.dst + k;
        else J.b = v[k];
        F.code.push_back(J);
      }
      break;
    }
    case Instruction::AtomicRMW: {
      auto &r = cast<AtomicRMWInst>(i);
      I.op = O_RMW; I.sub = r.getOperation();
      I.a = op1(r.getPointerOperand()); I.b = op1(r.getValOperand());
      F.code.push_back(I);
      break;
    }
    case Instruction::AtomicCmpXchg: {
      auto &r = cast<AtomicCmpXchgInst>(i);
      I.op = O_CMPXCHG;
      I.w = width(r.getCompareOperand()->getType());
      I.a = op1(r.getPointerOperand()); I.b = op1(r.getCompareOperand()); I.c = op1(r.getNewValOperand());
      F.code.push_back(I);
      break;
    }
    case Instruction::GetElementPtr: {
      GepInfo g;
      auto &ge = cast<GetElementPtrInst>(i);
      for (auto it = gep_type_begin(ge), e = gep_type_end(ge); it != e; ++it) {
        Value *ix = it.getOperand();
        if (StructType *s = it.getStructTypeOrNull()) {
          g.off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        } else {
          int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) g.off += ci->getSExtValue() * sc;
          else g.terms.push_back({op1(ix), (uint8_t)width(ix->getType()), sc});
        }
      }
      I.op = O_GEP; I.a = op1(ge.getPointerOperand()); I.aux = F.geps.size();
      F.geps.push_back(g);
      F.code.push_back(I);
      break;
    }
    case Instruction::LandingPad: {
      auto &l = cast<LandingPadInst>(i);
      LpadInfo li;
      li.cleanup = l.isCleanup();
      for (unsigned k = 0; k < l.getNumClauses(); k++) {
        li.isFilter.push_back(l.isFilter(k));
        li.clauses.push_back(l.isCatch(k) ? op1(l.getClause(k)) : 0);
      }
      I.op = O_LPAD; I.aux = F.lpads.size();
      F.lpads.push_back(li);
      F.code.push_back(I);
      break;
    }
    case Instruction::Resume: I.op = O_RESUME; I.a = op1(i.getOperand(0)); F.code.push_back(I); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto &cb = cast<CallBase>(i);
      if (isa<DbgInfoIntrinsic>(i)) return;
      if (cb.isInlineAsm()) {
        // an empty asm statement with memory clobber is a no-op
        if (i.getType()->isVoidTy() && cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty()) return;
        unsup(I, i, "inline asm");
        return;
      }
      CallInfo ci;
      auto *cal = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
      if (cal && cal->isIntrinsic()) {
        switch (cal->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation:
        case Intrinsic::donothing:
          return;
        default: break;
        }
      }
      if (cal) {
        ci.callee = P.fnOf[cal];
        ci.builtin = ci.callee->builtin;
      } else ci.target = op1(cb.getCalledOperand());
      for (unsigned k = 0; k < cb.arg_size(); k++) {
        Value *a = cb.getArgOperand(k);
        if (a->getType()->isMetadataTy()) { ci.args.push_back({kconst(0)}); ci.argw.push_back(64); ci.byval.push_back(0); continue; }
        std::vector<Leaf> l;
        flatten(a->getType(), 0, l);
        ci.args.push_back(ops(a));
        ci.argw.push_back(l.empty() ? 0 : l[0].w);
        ci.byval.push_back(cb.isByValArgument(k) ? DL->getTypeAllocSize(cb.getParamByValType(k)) : 0);
      }
      std::vector<Leaf> rl;
      flatten(i.getType(), 0, rl);
      ci.nret = rl.size();
      if (auto *inv = dyn_cast<InvokeInst>(&i)) {
        ci.invoke = true;
        ci.normal = edge(i.getParent(), inv->getNormalDest());
        ci.unwind = edge(i.getParent(), inv->getUnwindDest());
      }
      I.op = O_CALL; I.aux = F.calls.size();
      F.calls.push_back(ci);
      F.code.push_back(I);
      break;
    }
    default: unsup(I, i, "instruction"); return;
    }
    if (F.code.size() == at) { // generic one/two operand form
      I.a = op1(i.getOperand(0));
      if (i.getNumOperands() > 1) I.b = op1(i.getOperand(1));
      F.code.push_back(I);
    }
    if (bad) {
      F.code.resize(at);
      unsup(I, i, why);
    }
  }
};

bool loadProgram(const std::string &path, Memory &mem, uint64_t (*addrOf)(uint32_t)) {
  SMDiagnostic err;
  M = parseIRFile(path, err, C);
  if (!M) { fprintf(stderr, "cannot load %s: %s\n", path.c_str(), err.getMessage().str().c_str()); return false; }
  DL = &M->getDataLayout();
  // every use of a thread-local variable goes through llvm.threadlocal.address
  std::vector<GlobalVariable *> tls;
  for (auto &g : M->globals()) if (g.isThreadLocal()) tls.push_back(&g);
  for (auto *g : tls) {
    convertUsersOfConstantsToInstructions({g});
    std::vector<Instruction *> us;
    for (auto *u : g->users())
      if (auto *i = dyn_cast<Instruction>(u)) {
        auto *in = dyn_cast<IntrinsicInst>(i);
        if (!(in && in->getIntrinsicID() == Intrinsic::threadlocal_address)) us.push_back(i);
      }
    for (auto *i : us)
      for (unsigned k = 0; k < i->getNumOperands(); k++) {
        if (i->getOperand(k) != g) continue;
        auto *phi = dyn_cast<PHINode>(i);
        IRBuilder<> b(phi ? phi->getIncomingBlock(k)->getTerminator() : i);
        i->setOperand(k, b.CreateThreadLocalAddress(g));
      }
  }
  uint32_t id = 0;
  for (auto &f : *M) {
    Fn *fn = new Fn();
    fn->name = f.getName().str();
    fn->llf = &f;
    fn->id = id++;
    fn->addr = 0x3f0000000000ull + (uint64_t)fn->id * 16;
    fn->builtin = builtinId(fn->name);
    fn->defined = !f.isDeclaration();
    fn->vararg = f.isVarArg();
    P.fns.push_back(fn);
    P.fnOf[&f] = fn;
    P.byName[fn->name] = fn;
    gaddr[&f] = (f.hasExternalWeakLinkage() && f.isDeclaration() && fn->builtin < 0) ? 0 : fn->addr;
  }
  std::vector<std::pair<GlobalVariable *, uint32_t>> gs;
  for (auto &g : M->globals()) {
    if (g.isDeclaration() && g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; }
    Obj *o = new Obj();
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
    if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 512);
    o->size = sz;
    o->kind = g.isConstant() && !g.isDeclaration() ? OK_CONST : OK_GLOBAL;
    o->b.assign(sz, 0);
    uint32_t gid = mem.add(o);
    gaddr[&g] = addrOf(gid);
    gs.push_back({&g, gid});
    P.gname[gid] = g.getName().str();
    P.gaddr[g.getName().str()] = addrOf(gid);
  }
  for (auto &p : gs)
    if (p.first->hasInitializer()) {
      Obj *o = mem.wr(p.second);
      if (o->size) initMem(p.first->getInitializer(), o->b.data(), o->size);
    }
  for (auto &p : gs) if (p.first->isThreadLocal()) P.tls[p.second] = new Obj(*mem.get(p.second));
  // type hierarchy for catch matching and dynamic_cast
  for (auto &g : M->globals()) {
    std::string n = g.getName().str();
    if (n.rfind("_ZTI", 0) == 0 && g.hasInitializer() && g.getValueType()->isStructTy()) {
      auto *c = dyn_cast<ConstantStruct>(g.getInitializer());
      if (!c || c->getNumOperands() < 3) continue;
      if (c->getNumOperands() == 3) {
        if (auto *b = dyn_cast<GlobalValue>(c->getOperand(2)->stripPointerCasts())) P.tiBase[n].push_back({b->getName().str(), 0});
      } else
        for (unsigned k = 4; k + 1 < c->getNumOperands(); k += 2) {
          auto *b = dyn_cast<GlobalValue>(c->getOperand(k)->stripPointerCasts());
          auto *fl = dyn_cast<ConstantInt>(c->getOperand(k + 1));
          if (b && fl) P.tiBase[n].push_back({b->getName().str(), (fl->getSExtValue() & 1) ? INT64_MIN : fl->getSExtValue() >> 8});
        }
    }
  }
  uint32_t cov = 0;
  for (Fn *f : P.fns)
    if (f->defined) {
      Dec d{*f};
      d.run();
      f->covBase = cov;
      cov += f->nblocks;
    }
  P.covTotal = cov;
  // static constructors, by priority
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto *a = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Fn *>> v;
        for (auto &o : a->operands()) {
          auto *s = cast<ConstantStruct>(o.get());
          if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()))
            v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), P.fnOf[f]});
        }
        std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (auto &x : v) P.ctors.push_back(x.second);
      }
  return true;
}

// source position "file:line (function)" of an instruction
static std::string shortFile(const DILocation *l) {
  std::string d = l->getDirectory().str(), f = l->getFilename().str();
  if (!f.empty() && f[0] != '/') f = d + "/" + f;
  return f;
}
void sourceStack(const Instruction *i, std::vector<std::string> &out) {
  const DILocation *l = i->getDebugLoc();
  if (!l) { out.push_back(demangle(i->getFunction()->getName().str())); return; }
  while (l) {
    std::string fn;
    if (auto *sp = l->getScope()->getSubprogram()) fn = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
    out.push_back(shortFile(l) + ":" + std::to_string(l->getLine()) + " " + fn);
    l = l->getInlinedAt();
  }
}
// functions and lines of prefix covered
void coverage(const uint8_t *cov, const std::vector<std::string> &prefixes, std::map<std::string, std::set<unsigned>> &lines,
              std::map<std::string, std::set<std::string>> &funcs, std::map<std::string, std::set<unsigned>> &allLines) {
  for (Fn *f : P.fns) {
    if (!f->defined) continue;
    uint32_t bi = 0;
    for (auto &b : *f->llf) {
      bool hit = cov[f->covBase + bi++];
      for (auto &i : b) {
        const DILocation *l = i.getDebugLoc();
        while (l) {
          std::string file = shortFile(l);
          for (auto &p : prefixes)
            if (file.rfind(p, 0) == 0) {
              if (l->getLine()) allLines[file].insert(l->getLine());
              if (hit) {
                if (l->getLine()) lines[file].insert(l->getLine());
                if (auto *sp = l->getScope()->getSubprogram())
                  funcs[file].insert(sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()));
              }
            }
          l = l->getInlinedAt();
        }
      }
    }
  }
}
