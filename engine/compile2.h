#pragma once
#include "compile.h"
static u16 fpred(CmpInst::Predicate p) { return (u16)p; }
void Compiler::compI(Instruction& I) {
  auto S = [&](const Value* v) { return slot[v]; };
  switch (I.getOpcode()) {
    case Instruction::Add: bin(O_ADD, I); break; case Instruction::Sub: bin(O_SUB, I); break; case Instruction::Mul: bin(O_MUL, I); break;
    case Instruction::UDiv: bin(O_UDIV, I); break; case Instruction::SDiv: bin(O_SDIV, I); break; case Instruction::URem: bin(O_UREM, I); break; case Instruction::SRem: bin(O_SREM, I); break;
    case Instruction::And: bin(O_AND, I); break; case Instruction::Or: bin(O_OR, I); break; case Instruction::Xor: bin(O_XOR, I); break;
    case Instruction::Shl: bin(O_SHL, I); break; case Instruction::LShr: bin(O_LSHR, I); break; case Instruction::AShr: bin(O_ASHR, I); break;
    case Instruction::FAdd: bin(O_FADD, I); break; case Instruction::FSub: bin(O_FSUB, I); break; case Instruction::FMul: bin(O_FMUL, I); break; case Instruction::FDiv: bin(O_FDIV, I); break; case Instruction::FRem: bin(O_FREM, I); break;
    case Instruction::FNeg: { std::vector<Comp> cs; typeComps(I.getType(), cs); auto a = ops(I.getOperand(0)); for (size_t i = 0; i < cs.size(); i++) emit(O_FNEG, cs[i].w, 0, S(&I) + i, a[i]); break; }
    case Instruction::ICmp: {
      auto& C = cast<ICmpInst>(I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); std::vector<Comp> cs; typeComps(I.getOperand(0)->getType(), cs); u16 o;
      switch (C.getPredicate()) { case CmpInst::ICMP_EQ: o = O_EQ; break; case CmpInst::ICMP_NE: o = O_NE; break; case CmpInst::ICMP_ULT: o = O_ULT; break; case CmpInst::ICMP_ULE: o = O_ULE; break; case CmpInst::ICMP_UGT: o = O_UGT; break; case CmpInst::ICMP_UGE: o = O_UGE; break; case CmpInst::ICMP_SLT: o = O_SLT; break; case CmpInst::ICMP_SLE: o = O_SLE; break; case CmpInst::ICMP_SGT: o = O_SGT; break; default: o = O_SGE; }
      for (size_t i = 0; i < cs.size(); i++) { if (cs[i].w > 128) { unsupp("wide icmp"); return; } emit(o, cs[i].w, 1, S(&I) + i, a[i], b[i]); }
      break; }
    case Instruction::FCmp: { auto& C = cast<FCmpInst>(I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); std::vector<Comp> cs; typeComps(I.getOperand(0)->getType(), cs); for (size_t i = 0; i < cs.size(); i++) emit(O_FCMP, cs[i].w, fpred(C.getPredicate()), S(&I) + i, a[i], b[i]); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
      std::vector<Comp> sc, dc; typeComps(I.getOperand(0)->getType(), sc); typeComps(I.getType(), dc); auto a = ops(I.getOperand(0)); u16 o = O_MOV;
      for (size_t i = 0; i < dc.size(); i++) {
        int sw = sc[i].w, dw = dc[i].w; if (sw > 128 || dw > 128) { unsupp("wide cast"); return; }
        switch (I.getOpcode()) { case Instruction::Trunc: o = OP_TRUNC; break; case Instruction::ZExt: o = O_ZEXT; break; case Instruction::SExt: o = O_SEXT; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: o = dw < sw ? OP_TRUNC : dw > sw ? O_ZEXT : O_MOV; break;
          case Instruction::FPExt: o = O_FPEXT; break; case Instruction::FPTrunc: o = O_FPTRUNC; break; case Instruction::FPToUI: o = O_FPTOUI; break; case Instruction::FPToSI: o = O_FPTOSI; break; case Instruction::UIToFP: o = O_UITOFP; break; default: o = O_SITOFP; }
        emit(o, dw, sw, S(&I) + i, a[i]);
      }
      break; }
    case Instruction::BitCast: bitcast(I.getOperand(0)->getType(), I.getType(), ops(I.getOperand(0)), S(&I)); break;
    case Instruction::AddrSpaceCast: emit(O_MOV, 64, 0, S(&I), op1(I.getOperand(0))); break;
    case Instruction::Freeze: { auto a = ops(I.getOperand(0)); for (size_t i = 0; i < a.size(); i++) emit(O_MOV, 0, 0, S(&I) + i, a[i]); break; }
    case Instruction::Select: {
      auto c = ops(I.getOperand(0)), a = ops(I.getOperand(1)), b = ops(I.getOperand(2)); std::vector<Comp> cs; typeComps(I.getType(), cs);
      for (size_t i = 0; i < cs.size(); i++) emit(O_SELECT, cs[i].w, 0, S(&I) + i, c.size() > 1 ? c[i] : c[0], a[i], b[i]);
      break; }
    case Instruction::GetElementPtr: gep(cast<GEPOperator>(&I), S(&I)); break;
    case Instruction::Alloca: {
      auto& A = cast<AllocaInst>(I); u64 sz = gDL->getTypeAllocSize(A.getAllocatedType()); i32 n = op1(A.getArraySize()); int nw = A.getArraySize()->getType()->getIntegerBitWidth(); (void)nw;
      emit(O_ALLOCA, 64, 0, S(&I), n, konst(sz), (i32)A.getAlign().value()); break; }
    case Instruction::Load: emitLoad(I.getType(), S(&I), op1(I.getOperand(0))); break;
    case Instruction::Store: emitStore(I.getOperand(0)->getType(), ops(I.getOperand(0)), op1(I.getOperand(1))); break;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); int w = ncomps(R.getType()) == 1 ? (int)gDL->getTypeSizeInBits(R.getType()) : 0; emit(O_RMW, w, (int)R.getOperation(), S(&I), op1(R.getPointerOperand()), op1(R.getValOperand())); break; }
    case Instruction::AtomicCmpXchg: { auto& X = cast<AtomicCmpXchgInst>(I); int w = gDL->getTypeSizeInBits(X.getCompareOperand()->getType()); emit(O_CMPXCHG, w, 0, S(&I), op1(X.getPointerOperand()), op1(X.getCompareOperand()), op1(X.getNewValOperand())); break; }
    case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); auto a = ops(X.getAggregateOperand()); Type* T = X.getAggregateOperand()->getType(); int off = 0;
      for (unsigned i : X.indices()) { if (T->isStructTy()) { for (unsigned k = 0; k < i; k++) off += ncomps(T->getStructElementType(k)); T = T->getStructElementType(i); } else { T = T->getArrayElementType(); off += i * ncomps(T); } }
      int n = ncomps(I.getType()); for (int i = 0; i < n; i++) emit(O_MOV, 0, 0, S(&I) + i, a[off + i]); break; }
    case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); auto a = ops(X.getAggregateOperand()), b = ops(X.getInsertedValueOperand()); Type* T = I.getType(); int off = 0;
      for (unsigned i : X.indices()) { if (T->isStructTy()) { for (unsigned k = 0; k < i; k++) off += ncomps(T->getStructElementType(k)); T = T->getStructElementType(i); } else { T = T->getArrayElementType(); off += i * ncomps(T); } }
      for (size_t i = 0; i < a.size(); i++) emit(O_MOV, 0, 0, S(&I) + i, (int)i >= off && (int)i < off + (int)b.size() ? b[i - off] : a[i]); break; }
    case Instruction::ExtractElement: { auto a = ops(I.getOperand(0)); if (auto* c = dyn_cast<ConstantInt>(I.getOperand(1))) emit(O_MOV, 0, 0, S(&I), a[std::min<u64>(c->getZExtValue(), a.size() - 1)]);
      else { int w = I.getOperand(1)->getType()->getIntegerBitWidth(); i32 idx = op1(I.getOperand(1)); emit(O_MOV, 0, 0, S(&I), a[0]); std::vector<Comp> cs; typeComps(I.getType(), cs);
        i32 acc = a[0]; for (size_t i = 1; i < a.size(); i++) { i32 t = newSlots(1), r = newSlots(1); emit(O_EQ, w, 1, t, idx, konst(i)); emit(O_SELECT, cs[0].w, 0, r, t, a[i], acc); acc = r; } emit(O_MOV, 0, 0, S(&I), acc); }
      break; }
    case Instruction::InsertElement: { auto a = ops(I.getOperand(0)); i32 v = op1(I.getOperand(1)); std::vector<Comp> cs; typeComps(I.getType(), cs);
      if (auto* c = dyn_cast<ConstantInt>(I.getOperand(2))) { u64 k = c->getZExtValue(); for (size_t i = 0; i < a.size(); i++) emit(O_MOV, 0, 0, S(&I) + i, i == k ? v : a[i]); }
      else { int w = I.getOperand(2)->getType()->getIntegerBitWidth(); i32 idx = op1(I.getOperand(2)); for (size_t i = 0; i < a.size(); i++) { i32 t = newSlots(1); emit(O_EQ, w, 1, t, idx, konst(i)); emit(O_SELECT, cs[i].w, 0, S(&I) + i, t, v, a[i]); } }
      break; }
    case Instruction::ShuffleVector: { auto& X = cast<ShuffleVectorInst>(I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); auto m = X.getShuffleMask();
      for (size_t i = 0; i < m.size(); i++) { int k = m[i]; i32 s = k < 0 ? konst(0) : k < (int)a.size() ? a[k] : b[k - a.size()]; emit(O_MOV, 0, 0, S(&I) + i, s); } break; }
    case Instruction::Br: { auto& B = cast<BranchInst>(I); if (B.isUnconditional()) emit(O_BR, 0, 0, 0, edge(I.getParent(), B.getSuccessor(0)), 0, 0, 1);
      else { i32 c = op1(B.getCondition()); int t = edge(I.getParent(), B.getSuccessor(0)), f = edge(I.getParent(), B.getSuccessor(1)); emit(O_CBR, 0, 0, 0, c, t, f); } break; }
    case Instruction::Switch: { auto& X = cast<SwitchInst>(I); SwitchTab t; t.w = X.getCondition()->getType()->getIntegerBitWidth(); if (t.w > 128) { unsupp("wide switch"); return; } t.def = edge(I.getParent(), X.getDefaultDest());
      for (auto& c : X.cases()) { u128 v; constNum(c.getCaseValue(), v); t.m[{(u64)v, (u64)(v >> 64)}] = edge(I.getParent(), c.getCaseSuccessor()); }
      fn.sw.push_back(t); emit(O_SWITCH, t.w, 0, 0, op1(X.getCondition()), fn.sw.size() - 1); break; }
    case Instruction::Ret: { auto& R = cast<ReturnInst>(I); std::vector<i32> v; if (R.getReturnValue()) v = ops(R.getReturnValue()); i32 base = 0;
      if (v.size() == 1) base = v[0]; else if (v.size() > 1) { base = newSlots(v.size()); for (size_t i = 0; i < v.size(); i++) emit(O_MOV, 0, 0, base + i, v[i]); }
      emit(O_RET, 0, 0, 0, base, v.size()); break; }
    case Instruction::Unreachable: emit(O_UNREACHABLE, 0, 0, 0); break;
    case Instruction::Call: call(cast<CallBase>(I)); break;
    case Instruction::Invoke: { call(cast<CallBase>(I)); emit(O_BR, 0, 0, 0, edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()), 0, 0, 1); break; }
    case Instruction::LandingPad: unsupp("landingpad"); break;
    case Instruction::Resume: unsupp("resume"); break;
    default: { std::string s; raw_string_ostream o(s); o << I; unsupp("instruction " + s); }
  }
}
static int intrinsicId(StringRef n, int& w) {
  w = 0;
  auto st = [&](const char* p) { return n.starts_with(p); };
  if (st("llvm.lifetime") || st("llvm.dbg") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.donothing") || st("llvm.prefetch") || st("llvm.invariant") || st("llvm.pseudoprobe") || st("llvm.var.annotation")) return I_NOP;
  if (st("llvm.memcpy") || st("llvm.memmove")) return I_MEMCPY; if (st("llvm.memset")) return I_MEMSET;
  if (st("llvm.bswap")) return I_BSWAP; if (st("llvm.bitreverse")) return I_BITREV; if (st("llvm.ctlz")) return I_CTLZ; if (st("llvm.cttz")) return I_CTTZ; if (st("llvm.ctpop")) return I_CTPOP;
  if (st("llvm.fshl")) return I_FSHL; if (st("llvm.fshr")) return I_FSHR;
  if (st("llvm.uadd.with")) return I_UADDO; if (st("llvm.usub.with")) return I_USUBO; if (st("llvm.umul.with")) return I_UMULO; if (st("llvm.sadd.with")) return I_SADDO; if (st("llvm.ssub.with")) return I_SSUBO; if (st("llvm.smul.with")) return I_SMULO;
  if (st("llvm.uadd.sat")) return I_UADDS; if (st("llvm.usub.sat")) return I_USUBS; if (st("llvm.sadd.sat")) return I_SADDS; if (st("llvm.ssub.sat")) return I_SSUBS;
  if (st("llvm.umax")) return I_UMAX; if (st("llvm.umin")) return I_UMIN; if (st("llvm.smax")) return I_SMAX; if (st("llvm.smin")) return I_SMIN; if (st("llvm.abs")) return I_ABS;
  if (st("llvm.vector.reduce.add")) return I_RED_ADD; if (st("llvm.vector.reduce.and")) return I_RED_AND; if (st("llvm.vector.reduce.or")) return I_RED_OR; if (st("llvm.vector.reduce.xor")) return I_RED_XOR; if (st("llvm.vector.reduce.mul")) return I_RED_MUL;
  if (st("llvm.vector.reduce.umax")) return I_RED_UMAX; if (st("llvm.vector.reduce.umin")) return I_RED_UMIN; if (st("llvm.vector.reduce.smax")) return I_RED_SMAX; if (st("llvm.vector.reduce.smin")) return I_RED_SMIN;
  if (st("llvm.load.relative")) return I_LOADREL; if (st("llvm.threadlocal.address") || st("llvm.expect") || st("llvm.launder") || st("llvm.strip") || st("llvm.ssa.copy") || st("llvm.annotation") || st("llvm.ptrmask_")) return I_ID;
  if (st("llvm.trap") || st("llvm.debugtrap") || st("llvm.ubsantrap")) return I_TRAP; if (st("llvm.is.constant")) return I_ZERO; if (st("llvm.objectsize")) return I_ONES;
  if (st("llvm.stacksave")) return I_STACKSAVE; if (st("llvm.stackrestore")) return I_STACKRESTORE; if (st("llvm.x86.sse2.pmovmskb")) return I_PMOVMSKB;
  if (st("llvm.fabs")) return I_FABS; if (st("llvm.floor")) return I_FLOOR; if (st("llvm.ceil")) return I_CEIL; if (st("llvm.trunc")) return I_TRUNCF; if (st("llvm.rint") || st("llvm.nearbyint")) return I_RINT;
  return -1;
}
void Compiler::call(CallBase& CB) {
  Value* cv_ = CB.getCalledOperand()->stripPointerCastsAndAliases(); Function* F2 = dyn_cast<Function>(cv_);
  if (isa<InlineAsm>(CB.getCalledOperand())) { if (CB.getType()->isVoidTy()) return; unsupp("inline asm"); return; }
  i32 d = ncomps(CB.getType()) ? slot[&CB] : 0;
  std::vector<i32> args; std::vector<int> argn;
  for (auto& A : CB.args()) { auto o = ops(A.get()); argn.push_back(o.size()); args.insert(args.end(), o.begin(), o.end()); }
  if (F2 && F2->isIntrinsic()) {
    int w; int id = intrinsicId(F2->getName(), w);
    if (F2->getName().starts_with("llvm.x86.sse2.pause")) { emit(O_YIELD, 0, 0, 0); return; }
    if (id == I_NOP) return;
    if (id < 0) { unsupp("intrinsic " + F2->getName().str()); return; }
    std::vector<Comp> rc; typeComps(CB.getType(), rc);
    CallSite cs{F2, -1, args, d, (int)rc.size(), &CB, id};
    bool elementwise = id == I_BSWAP || id == I_BITREV || id == I_CTLZ || id == I_CTTZ || id == I_CTPOP || id == I_FSHL || id == I_FSHR || (id >= I_UADDS && id <= I_ABS) || (id >= I_FABS);
    int aw = 0; if (CB.arg_size()) { std::vector<Comp> ac; typeComps(CB.getArgOperand(0)->getType(), ac); aw = ac.empty() ? 0 : ac[0].w; if (aw > 128) { unsupp("wide intrinsic"); return; } }
    if (elementwise && rc.size() > 1) {
      for (size_t i = 0; i < rc.size(); i++) { std::vector<i32> av; size_t p = 0; for (size_t k = 0; k < argn.size(); k++) { av.push_back(args[p + (argn[k] > 1 ? i : 0)]); p += argn[k]; } CallSite c1{F2, -1, av, d + (i32)i, 1, &CB, id}; fn.calls.push_back(c1); emit(O_INTR, rc[i].w, aw, d + i, fn.calls.size() - 1); }
      return;
    }
    if (id >= I_UADDO && id <= I_SMULO && rc.size() != 2) { unsupp("vector with.overflow"); return; }
    fn.calls.push_back(cs); emit(O_INTR, rc.empty() ? 0 : rc[0].w, aw, d, fn.calls.size() - 1);
    return;
  }
  CallSite cs{F2, -1, args, d, ncomps(CB.getType()), &CB, 0};
  if (F2) { cs.fnIdx = gFnIdx[F2]; fn.calls.push_back(cs); emit(O_CALL, 0, 0, d, fn.calls.size() - 1); }
  else { i32 t = op1(CB.getCalledOperand()); fn.calls.push_back(cs); emit(O_CALLI, 0, 0, d, fn.calls.size() - 1, t); }
}
