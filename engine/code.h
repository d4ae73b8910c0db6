// LLVM IR -> flat scalar bytecode
#pragma once
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <map>

enum Opc : u16 {
  O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
  O_SELECT, OP_TRUNC, O_ZEXT, O_SEXT, O_BITX /*extract w bits at c*/, O_CONCAT /* a hi, b lo, w2 = lo width*/,
  O_LOAD, O_STORE, O_ADDI, O_MADD, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_CALLI, O_INTR, O_UNREACHABLE, O_UNSUPP,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP, O_FPEXT, O_FPTRUNC, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP,
  O_RMW, O_CMPXCHG, O_TLS, O_YIELD
};
enum Intr : i32 { I_NOP, I_MEMCPY, I_MEMSET, I_BSWAP, I_BITREV, I_CTLZ, I_CTTZ, I_CTPOP, I_FSHL, I_FSHR, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO,
  I_UADDS, I_USUBS, I_SADDS, I_SSUBS, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS, I_RED_ADD, I_RED_AND, I_RED_OR, I_RED_XOR, I_RED_UMAX, I_RED_UMIN, I_RED_SMAX, I_RED_SMIN, I_RED_MUL, I_LOADREL, I_ID, I_TRAP, I_ZERO, I_ONES,
  I_STACKSAVE, I_STACKRESTORE, I_PMOVMSKB, I_FABS, I_FLOOR, I_CEIL, I_TRUNCF, I_RINT };
struct Ins { u16 op; u16 w; u16 w2; u16 n; i32 dst; i32 a, b, c; };
struct SwitchTab { std::map<std::pair<u64,u64>, i32> m; i32 def; int w; };
struct CallSite { llvm::Function* F; int fnIdx; std::vector<i32> args; i32 dst; int nret; const llvm::Instruction* I; int intr; };
struct Fn {
  llvm::Function* F; int idx; std::string name, dem; bool compiled = false; bool decl = false; int special = 0; u64 addr;
  std::vector<Ins> code; std::vector<Val> consts; int nslots = 0; int nargs = 0; int nret = 0;
  std::vector<SwitchTab> sw; std::vector<CallSite> calls; std::vector<std::string> msgs;
  u64 ncalls = 0;
};
std::string demangle(const std::string& s);
