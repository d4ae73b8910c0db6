// Hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <algorithm>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8;

enum EOp : u8 { E_CONST, E_VAR, E_NOT, E_AND, E_OR, E_XOR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_SHL, E_LSHR, E_ASHR, E_CONCAT, E_EXTRACT, E_SEXT, E_ITE, E_EQ, E_ULT, E_SLT };

// set of variable ids, interned
struct VSet { std::vector<u64> w; };
struct Expr {
  EOp op; u8 w; u16 pad; u32 id; u64 hash;
  Expr *a, *b, *c;
  u64 lo, hi;          // E_CONST value; E_VAR: lo = var id; E_EXTRACT: lo = offset
  const VSet* vars;
  void* z3;
  u32 gen; u64 evlo, evhi;
};
struct VarInfo { std::string name; int w; Expr* e; };

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(int w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
static inline u128 U(u64 lo, u64 hi) { return ((u128)hi << 64) | lo; }

extern std::vector<VarInfo> gVars;
extern u64 gNumExprs;

Expr* mkConst(u128 v, int w);
Expr* mkVar(const std::string& name, int w);
Expr* mkNot(Expr* a);
Expr* mkBin(EOp op, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, int off, int w);
Expr* mkZext(Expr* a, int w);
Expr* mkSext(Expr* a, int w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkUlt(Expr* a, Expr* b);
Expr* mkSlt(Expr* a, Expr* b);
static inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(E_AND, a, b); }
static inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(E_OR, a, b); }
static inline Expr* mkUle(Expr* a, Expr* b) { return mkNot(mkUlt(b, a)); }
static inline Expr* mkSle(Expr* a, Expr* b) { return mkNot(mkSlt(b, a)); }
static inline bool isC(const Expr* e) { return e->op == E_CONST; }
static inline u128 cv(const Expr* e) { return U(e->lo, e->hi); }

typedef std::vector<u64> Model; // var id -> value (0 when beyond the end)
u128 evalExpr(Expr* e, const Model& m);   // single evaluation
void evalBegin();                          // start a batch with a fixed model
u128 evalIn(Expr* e, const Model& m);      // evaluate within the batch
u128 foldBin(EOp op, u128 a, u128 b, int w);
Expr* substVars(Expr* e, const std::vector<std::pair<u32, u64>>& binds, std::unordered_map<Expr*, Expr*>& memo);
bool vsIntersects(const VSet* a, const VSet* b);
const VSet* vsUnion(const VSet* a, const VSet* b);
std::string exprStr(Expr* e, int depth = 6);
