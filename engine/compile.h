#pragma once
#include "code.h"
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
extern std::vector<Fn*> gFns; extern DenseMap<const Function*, int> gFnIdx; extern DenseMap<const GlobalValue*, u64> gAddr; extern const DataLayout* gDL;

struct Comp { int w; u64 off; bool fp; };
static void typeComps(Type* T, std::vector<Comp>& out, u64 base = 0) {
  if (T->isVoidTy()) return;
  if (auto* I = dyn_cast<IntegerType>(T)) { out.push_back({(int)I->getBitWidth(), base, false}); return; }
  if (T->isPointerTy()) { out.push_back({64, base, false}); return; }
  if (T->isFloatTy()) { out.push_back({32, base, true}); return; }
  if (T->isDoubleTy()) { out.push_back({64, base, true}); return; }
  if (auto* S = dyn_cast<StructType>(T)) { auto* L = gDL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) typeComps(S->getElementType(i), out, base + L->getElementOffset(i)); return; }
  if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = gDL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) typeComps(A->getElementType(), out, base + i * es); return; }
  if (auto* V = dyn_cast<FixedVectorType>(T)) {
    Type* E = V->getElementType(); u64 bits = gDL->getTypeSizeInBits(E);
    for (unsigned i = 0; i < V->getNumElements(); i++) typeComps(E, out, base + (bits % 8 == 0 ? i * bits / 8 : 0));
    return;
  }
  out.push_back({-1, base, false});
}
static int ncomps(Type* T) { std::vector<Comp> c; typeComps(T, c); return c.size(); }

// constant evaluation to (lo,hi)
static bool constNum(const Constant* C, u128& out);
static bool constNum(const Constant* C, u128& out) {
  if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 128) return false; APInt v = I->getValue(); out = v.getRawData()[0]; if (v.getNumWords() > 1) out |= (u128)v.getRawData()[1] << 64; return true; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) { out = 0; return true; }
  if (auto* F = dyn_cast<ConstantFP>(C)) { APInt v = F->getValueAPF().bitcastToAPInt(); out = v.getRawData()[0]; return true; }
  if (auto* G = dyn_cast<GlobalAlias>(C)) return constNum(G->getAliasee(), out);
  if (auto* G = dyn_cast<GlobalValue>(C)) { auto it = gAddr.find(G); if (it == gAddr.end()) return false; out = it->second; return true; }
  if (auto* E = dyn_cast<ConstantExpr>(C)) {
    u128 a, b; int w = E->getType()->isIntegerTy() ? E->getType()->getIntegerBitWidth() : 64;
    switch (E->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(E); if (!constNum(cast<Constant>(G->getPointerOperand()), a)) return false;
        APInt off(64, 0); if (!G->accumulateConstantOffset(*gDL, off)) return false; out = (u64)(a + off.getZExtValue()); return true; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
        if (!constNum(E->getOperand(0), a)) return false; out = a & maskw(w); return true;
      case Instruction::SExt: { if (!constNum(E->getOperand(0), a)) return false; int w0 = E->getOperand(0)->getType()->getIntegerBitWidth(); u128 m = (u128)1 << (w0 - 1); out = ((a ^ m) - m) & maskw(w); return true; }
      case Instruction::Add: if (!constNum(E->getOperand(0), a) || !constNum(E->getOperand(1), b)) return false; out = (a + b) & maskw(w); return true;
      case Instruction::Sub: if (!constNum(E->getOperand(0), a) || !constNum(E->getOperand(1), b)) return false; out = (a - b) & maskw(w); return true;
      case Instruction::And: if (!constNum(E->getOperand(0), a) || !constNum(E->getOperand(1), b)) return false; out = a & b; return true;
      case Instruction::Or: if (!constNum(E->getOperand(0), a) || !constNum(E->getOperand(1), b)) return false; out = a | b; return true;
      case Instruction::Xor: if (!constNum(E->getOperand(0), a) || !constNum(E->getOperand(1), b)) return false; out = a ^ b; return true;
      case Instruction::ICmp: { if (!constNum(E->getOperand(0), a) || !constNum(E->getOperand(1), b)) return false;
        switch (E->getPredicate()) { case CmpInst::ICMP_EQ: out = a == b; return true; case CmpInst::ICMP_NE: out = a != b; return true; case CmpInst::ICMP_ULT: out = a < b; return true; case CmpInst::ICMP_UGT: out = a > b; return true; default: return false; } }
      default: return false;
    }
  }
  return false;
}
static bool constComps(const Constant* C, std::vector<u128>& out) {
  Type* T = C->getType();
  if (T->isAggregateType() || T->isVectorTy()) {
    std::vector<Comp> cs; typeComps(T, cs);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { out.insert(out.end(), cs.size(), 0); return true; }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? (unsigned)T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant* e = C->getAggregateElement(i); if (!e || !constComps(e, out)) return false; }
    return true;
  }
  u128 v; if (!constNum(C, v)) return false; out.push_back(v); return true;
}

// does a constant refer to a thread-local variable?
static bool usesTls(const Constant* C, int depth = 0) {
  if (auto* G = dyn_cast<GlobalVariable>(C)) return G->isThreadLocal();
  if (isa<GlobalValue>(C) || depth > 8) return false;
  for (auto& O : C->operands()) if (auto* K = dyn_cast<Constant>(O.get())) if (usesTls(K, depth + 1)) return true;
  return false;
}
struct Compiler {
  Fn& fn; Function& F; DenseMap<const Value*, i32> slot; DenseMap<const BasicBlock*, i32> blockPos; std::map<std::pair<u64,u64>, i32> cidx;
  std::vector<std::pair<size_t, int>> fixups; // handled by edges
  struct Edge { BasicBlock *from, *to; i32 pos = -1; }; std::vector<Edge> edges; std::map<std::pair<BasicBlock*, BasicBlock*>, int> edgeIdx;
  Compiler(Fn& f) : fn(f), F(*f.F) {}
  i32 newSlots(int n) { i32 r = fn.nslots; fn.nslots += n; return r; }
  i32 konst(u128 v) { auto k = std::make_pair((u64)v, (u64)(v >> 64)); auto it = cidx.find(k); if (it != cidx.end()) return it->second; fn.consts.push_back(cval(k.first, k.second)); i32 r = -(i32)fn.consts.size(); cidx[k] = r; return r; }
  void emit(u16 op, int w, int w2, i32 dst, i32 a = 0, i32 b = 0, i32 c = 0, int n = 0) { fn.code.push_back(Ins{op, (u16)w, (u16)w2, (u16)n, dst, a, b, c}); }
  void unsupp(const std::string& m) { fn.msgs.push_back(m); emit(O_UNSUPP, 0, 0, 0, fn.msgs.size() - 1); }
  bool bad = false;
  std::vector<i32> ops(const Value* v) {
    std::vector<i32> r;
    if (auto* C = dyn_cast<Constant>(v)) { std::vector<u128> n; if (!constComps(C, n)) { std::string s; raw_string_ostream o(s); v->printAsOperand(o); bad = true; fn.msgs.push_back("constant " + s); r.assign(std::max(1, ncomps(v->getType())), konst(0)); return r; }
      if (usesTls(C)) { if (n.size() != 1) { bad = true; fn.msgs.push_back("aggregate with thread-local address"); } i32 t = newSlots(1); emit(O_TLS, 64, 0, t, konst(n.empty() ? 0 : n[0])); r.push_back(t); return r; }
      for (u128 x : n) r.push_back(konst(x)); return r; }
    if (isa<MetadataAsValue>(v)) return r;
    auto it = slot.find(v); if (it == slot.end()) { bad = true; fn.msgs.push_back("unknown operand"); r.assign(std::max(1, ncomps(v->getType())), konst(0)); return r; }
    int n = ncomps(v->getType()); for (int i = 0; i < n; i++) r.push_back(it->second + i); return r;
  }
  i32 op1(const Value* v) { auto r = ops(v); return r.empty() ? konst(0) : r[0]; }
  int edge(BasicBlock* f, BasicBlock* t) { auto k = std::make_pair(f, t); auto it = edgeIdx.find(k); if (it != edgeIdx.end()) return it->second; edges.push_back({f, t}); return edgeIdx[k] = edges.size() - 1; }
  void run() {
    fn.compiled = true;
    for (auto& A : F.args()) { int n = ncomps(A.getType()); slot[&A] = newSlots(n); if (A.hasByValAttr()) fn.msgs.push_back("byval"); }
    fn.nargs = fn.nslots; fn.nret = ncomps(F.getReturnType());
    for (auto& B : F) for (auto& I : B) { int n = ncomps(I.getType()); if (n) slot[&I] = newSlots(n); }
    for (auto& B : F) { blockPos[&B] = fn.code.size(); for (auto& I : B) { if (!isa<PHINode>(I)) comp(I); } }
    // edges
    for (size_t k = 0; k < edges.size(); k++) {
      Edge& e = edges[k]; e.pos = fn.code.size();
      std::vector<std::pair<i32, i32>> mv; std::vector<int> ws;
      for (auto& P : e.to->phis()) { auto src = ops(P.getIncomingValueForBlock(e.from)); i32 d = slot[&P]; for (size_t i = 0; i < src.size(); i++) if (src[i] != d + (i32)i) mv.push_back({d + (i32)i, src[i]}); }
      // parallel move: if a destination is a later source, use temporaries
      bool conflict = false; for (size_t i = 0; i < mv.size(); i++) for (size_t j = i + 1; j < mv.size(); j++) if (mv[j].second == mv[i].first) conflict = true;
      if (conflict) { i32 t = newSlots(mv.size()); for (size_t i = 0; i < mv.size(); i++) emit(O_MOV, 0, 0, t + i, mv[i].second); for (size_t i = 0; i < mv.size(); i++) emit(O_MOV, 0, 0, mv[i].first, t + i); }
      else for (auto& m : mv) emit(O_MOV, 0, 0, m.first, m.second);
      emit(O_BR, 0, 0, 0, blockPos[e.to]);
    }
    auto tgt = [&](i32 k) { // short-circuit empty edges
      i32 p = edges[k].pos; if (fn.code[p].op == O_BR) return fn.code[p].a; return p; };
    for (size_t i = 0; i < fn.code.size(); i++) {
      Ins& n = fn.code[i];
      if (n.op == O_CBR) { n.b = tgt(n.b); n.c = tgt(n.c); }
      else if (n.op == O_BR && n.n == 1) { n.a = tgt(n.a); n.n = 0; }
    }
    for (auto& s : fn.sw) { s.def = tgt(s.def); for (auto& m : s.m) m.second = tgt(m.second); }
  }
  void bin(u16 op, Instruction& I) {
    std::vector<Comp> cs; typeComps(I.getType(), cs); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); i32 d = slot[&I];
    for (size_t i = 0; i < cs.size(); i++) { if (cs[i].w > 128) { unsupp("wide int"); return; } emit(op, cs[i].w, 0, d + i, a[i], b[i]); }
  }
  void comp(Instruction& I) {
    size_t before = fn.code.size(); bad = false; compI(I);
    if (bad) { fn.code.resize(before); std::string s; raw_string_ostream o(s); o << I; unsupp("operand in " + s); }
  }
  void emitLoad(Type* T, i32 d, i32 addr) {
    if (auto* V = dyn_cast<FixedVectorType>(T)) if (gDL->getTypeSizeInBits(V->getElementType()) % 8) { // packed bits
      int n = V->getNumElements(), ew = gDL->getTypeSizeInBits(V->getElementType()); i32 t = newSlots(1);
      if (n * ew > 128) { unsupp("wide packed vector load"); return; }
      emit(O_LOAD, n * ew, (n * ew + 7) / 8, t, addr, konst(0)); for (int i = 0; i < n; i++) emit(O_BITX, ew, n * ew, d + i, t, 0, i * ew); return; }
    std::vector<Comp> cs; typeComps(T, cs);
    for (size_t i = 0; i < cs.size(); i++) { if (cs[i].w > 128 || cs[i].w < 0) { unsupp("wide load"); return; } emit(O_LOAD, cs[i].w, (cs[i].w + 7) / 8, d + i, addr, konst(cs[i].off)); }
  }
  void emitStore(Type* T, const std::vector<i32>& v, i32 addr) {
    if (auto* V = dyn_cast<FixedVectorType>(T)) if (gDL->getTypeSizeInBits(V->getElementType()) % 8) {
      int n = V->getNumElements(), ew = gDL->getTypeSizeInBits(V->getElementType());
      if (n * ew > 128) { unsupp("wide packed vector store"); return; }
      i32 t = pack(v, ew); emit(O_STORE, n * ew, (n * ew + 7) / 8, 0, addr, konst(0), t); return; }
    std::vector<Comp> cs; typeComps(T, cs);
    for (size_t i = 0; i < cs.size(); i++) { if (cs[i].w > 128 || cs[i].w < 0) { unsupp("wide store"); return; } emit(O_STORE, cs[i].w, (cs[i].w + 7) / 8, 0, addr, konst(cs[i].off), v[i]); }
  }
  i32 pack(const std::vector<i32>& v, int ew) { // little end first
    i32 t = v[0]; int w = ew; for (size_t i = 1; i < v.size(); i++) { i32 n = newSlots(1); emit(O_CONCAT, w + ew, w, n, v[i], t); t = n; w += ew; } return t;
  }
  void bitcast(Type* S, Type* D, const std::vector<i32>& a, i32 d) {
    std::vector<Comp> sc, dc; typeComps(S, sc); typeComps(D, dc);
    if (sc.size() == dc.size()) { for (size_t i = 0; i < a.size(); i++) emit(O_MOV, 0, 0, d + i, a[i]); return; }
    int sw = sc[0].w, dw = dc[0].w;
    if (sw < dw) { int k = dw / sw; if (dw > 128 || dw % sw) { unsupp("bitcast"); return; } for (size_t i = 0; i < dc.size(); i++) { std::vector<i32> p(a.begin() + i * k, a.begin() + (i + 1) * k); i32 t = pack(p, sw); emit(O_MOV, 0, 0, d + i, t); } }
    else { int k = sw / dw; if (sw % dw) { unsupp("bitcast"); return; } for (size_t i = 0; i < dc.size(); i++) emit(O_BITX, dw, sw, d + i, a[i / k], 0, (i % k) * dw); }
  }
  void gep(GEPOperator* G, i32 d) {
    if (G->getType()->isVectorTy()) { unsupp("vector gep"); return; }
    i32 cur = op1(G->getPointerOperand()); i64 coff = 0; bool first = true;
    std::vector<std::pair<i32, std::pair<u64, int>>> var;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value* idx = it.getOperand();
      if (StructType* st = it.getStructTypeOrNull()) { coff += gDL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      u64 sz = gDL->getTypeAllocSize(it.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) { coff += (i64)sz * ci->getSExtValue(); continue; }
      int w = idx->getType()->isIntegerTy() ? idx->getType()->getIntegerBitWidth() : -1;
      var.push_back({op1(idx), {sz, w}});
    }
    for (auto& v : var) {
      i32 x = v.first; int w = v.second.second; if (w < 0) { unsupp("gep idx"); return; }
      if (w < 64) { i32 t = newSlots(1); emit(O_SEXT, 64, w, t, x); x = t; } else if (w > 64) { i32 t = newSlots(1); emit(OP_TRUNC, 64, w, t, x); x = t; }
      emit(O_MADD, 64, 0, d, cur, x, konst(v.second.first)); cur = d; first = false;
    }
    if (coff || first) emit(O_ADDI, 64, 0, d, cur, konst((u64)coff));
  }
  void compI(Instruction& I);
  void call(CallBase& CB);
};
