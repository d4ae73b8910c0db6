#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unistd.h>
#include <fstream>
SolverStats gSS; int gQueryTimeoutMs = 60000; u64 gMaxLits = getenv("VF_LITS") ? atoi(getenv("VF_LITS")) : 300;
const char* gDumpDir = nullptr; int gDumpMax = 0;
static Z3_context C = nullptr; static Z3_solver S = nullptr; static u64 litCount = 0;
static std::unordered_map<Expr*, Z3_ast> lits;
static std::vector<Expr*> translated;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }
static void init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errh);
}
static void newSolver() {
  if (S) Z3_solver_dec_ref(C, S);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD")); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gQueryTimeoutMs);
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  for (auto& l : lits) Z3_dec_ref(C, l.second);
  lits.clear(); litCount = 0;
}
static Z3_ast bvc(u128 v, int w) {
  Z3_ast r;
  if (w <= 64) { r = Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, w)); Z3_inc_ref(C, r); return r; }
  Z3_ast lo = bvc((u64)v, 64), hi = bvc(v >> 64, w - 64);
  r = Z3_mk_concat(C, hi, lo); Z3_inc_ref(C, r); return r;
}
// 1-bit expressions are translated to Bool, others to bit-vectors
static Z3_ast tr(Expr* e);
static Z3_ast trBV(Expr* e) {
  Z3_ast t = tr(e);
  if (e->w != 1) return t;
  Z3_ast r = Z3_mk_ite(C, t, bvc(1, 1), bvc(0, 1)); Z3_inc_ref(C, r); return r;
}
static Z3_ast tr(Expr* e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr; bool b1 = e->w == 1;
  switch (e->op) {
    case E_CONST: r = b1 ? (cv(e) ? Z3_mk_true(C) : Z3_mk_false(C)) : bvc(cv(e), e->w); break;
    case E_VAR: { std::string n = "v" + std::to_string(e->lo); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), b1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w)); break; }
    case E_NOT: r = b1 ? Z3_mk_not(C, tr(e->a)) : Z3_mk_bvnot(C, tr(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(C, trBV(e->a), trBV(e->b)); break;
    case E_EXTRACT: { r = Z3_mk_extract(C, (unsigned)(e->lo + e->w - 1), (unsigned)e->lo, trBV(e->a)); if (b1) { Z3_inc_ref(C, r); r = Z3_mk_eq(C, r, bvc(1, 1)); } break; }
    case E_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, trBV(e->a)); break;
    case E_ITE: r = Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c)); break;
    case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(C, tr(e->a), tr(e->b)) : Z3_mk_eq(C, tr(e->a), tr(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(C, trBV(e->a), trBV(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(C, trBV(e->a), trBV(e->b)); break;
    default: {
      if (b1) {
        Z3_ast x[2] = {tr(e->a), tr(e->b)};
        if (e->op == E_AND) r = Z3_mk_and(C, 2, x); else if (e->op == E_OR) r = Z3_mk_or(C, 2, x); else if (e->op == E_XOR) r = Z3_mk_xor(C, x[0], x[1]);
        else { fprintf(stderr, "1-bit op %d\n", e->op); _exit(71); }
        break;
      }
      Z3_ast x = tr(e->a), y = tr(e->b);
      switch (e->op) {
        case E_AND: r = Z3_mk_bvand(C, x, y); break; case E_OR: r = Z3_mk_bvor(C, x, y); break; case E_XOR: r = Z3_mk_bvxor(C, x, y); break;
        case E_ADD: r = Z3_mk_bvadd(C, x, y); break; case E_SUB: r = Z3_mk_bvsub(C, x, y); break; case E_MUL: r = Z3_mk_bvmul(C, x, y); break;
        case E_UDIV: r = Z3_mk_bvudiv(C, x, y); break; case E_SDIV: r = Z3_mk_bvsdiv(C, x, y); break; case E_UREM: r = Z3_mk_bvurem(C, x, y); break; case E_SREM: r = Z3_mk_bvsrem(C, x, y); break;
        case E_SHL: r = Z3_mk_bvshl(C, x, y); break; case E_LSHR: r = Z3_mk_bvlshr(C, x, y); break; case E_ASHR: r = Z3_mk_bvashr(C, x, y); break;
        default: abort();
      }
    }
  }
  Z3_inc_ref(C, r); e->z3 = r; return r;
}
// Order formulas (comparisons, equalities, if-then-else and boolean structure over whole variables and
// constants) are translated exactly to integer arithmetic, where the solver is much faster.
static Z3_solver SI = nullptr; static std::unordered_map<Expr*, Z3_ast> ilits, imemo; static std::unordered_map<Expr*, char> iok; static u64 ilitCount = 0;
static std::vector<char> varBounded;
static bool isInt(Expr* e) {
  auto it = iok.find(e); if (it != iok.end()) return it->second;
  bool r = false;
  switch (e->op) {
    case E_CONST: r = true; break;
    case E_VAR: r = true; break;
    case E_NOT: r = e->w == 1 && isInt(e->a); break;
    case E_AND: case E_OR: case E_XOR: r = e->w == 1 && isInt(e->a) && isInt(e->b); break;
    case E_CONCAT: r = isC(e->a) && cv(e->a) == 0 && e->b->w > 1 && isInt(e->b); break;
    case E_ITE: r = isInt(e->a) && isInt(e->b) && isInt(e->c); break;
    case E_EQ: case E_ULT: r = isInt(e->a) && isInt(e->b); break;
    default: break;
  }
  iok[e] = r; return r;
}
static Z3_ast inum(u128 v) {
  char b[48]; int p = 47; b[p] = 0; if (!v) b[--p] = '0'; while (v) { b[--p] = '0' + (int)(v % 10); v /= 10; }
  Z3_ast r = Z3_mk_numeral(C, b + p, Z3_mk_int_sort(C)); Z3_inc_ref(C, r); return r;
}
static Z3_ast tri(Expr* e) {
  auto it = imemo.find(e); if (it != imemo.end()) return it->second;
  Z3_ast r = nullptr; bool b1 = e->w == 1;
  switch (e->op) {
    case E_CONST: r = b1 ? (cv(e) ? Z3_mk_true(C) : Z3_mk_false(C)) : inum(cv(e)); break;
    case E_VAR: { std::string n = "i" + std::to_string(e->lo); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), b1 ? Z3_mk_bool_sort(C) : Z3_mk_int_sort(C)); break; }
    case E_NOT: r = Z3_mk_not(C, tri(e->a)); break;
    case E_AND: { Z3_ast x[2] = {tri(e->a), tri(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {tri(e->a), tri(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case E_XOR: r = Z3_mk_xor(C, tri(e->a), tri(e->b)); break;
    case E_CONCAT: r = tri(e->b); break;
    case E_ITE: r = Z3_mk_ite(C, tri(e->a), tri(e->b), tri(e->c)); break;
    case E_EQ: r = Z3_mk_eq(C, tri(e->a), tri(e->b)); break;
    case E_ULT: r = Z3_mk_lt(C, tri(e->a), tri(e->b)); break;
    default: abort();
  }
  Z3_inc_ref(C, r); imemo[e] = r; return r;
}
static void newIntSolver() {
  if (SI) Z3_solver_dec_ref(C, SI);
  SI = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, SI);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gQueryTimeoutMs);
  Z3_solver_set_params(C, SI, p); Z3_params_dec_ref(C, p);
  for (auto& l : ilits) Z3_dec_ref(C, l.second);
  ilits.clear(); ilitCount = 0; varBounded.clear();
}
static Z3_ast ilit(Expr* c) {
  auto it = ilits.find(c); if (it != ilits.end()) return it->second;
  for (u32 i = 0; i < c->vars->w.size(); i++) for (int b = 0; b < 64; b++) if (c->vars->w[i] >> b & 1) {
    u32 id = i * 64 + b; if (varBounded.size() <= id) varBounded.resize(id + 1, 0);
    if (!varBounded[id] && gVars[id].w > 1) { varBounded[id] = 1; Z3_ast v = tri(gVars[id].e);
      Z3_ast x = Z3_mk_le(C, inum(0), v); Z3_inc_ref(C, x); Z3_solver_assert(C, SI, x); Z3_ast y = Z3_mk_le(C, v, inum(maskw(gVars[id].w))); Z3_inc_ref(C, y); Z3_solver_assert(C, SI, y); } }
  Z3_ast l = Z3_mk_fresh_const(C, "l", Z3_mk_bool_sort(C)); Z3_inc_ref(C, l);
  Z3_ast imp = Z3_mk_implies(C, l, tri(c)); Z3_inc_ref(C, imp);
  Z3_solver_assert(C, SI, imp); Z3_dec_ref(C, imp);
  ilits[c] = l; ilitCount++; return l;
}
static Z3_ast lit(Expr* c) {
  auto it = lits.find(c); if (it != lits.end()) return it->second;
  Z3_ast l = Z3_mk_fresh_const(C, "l", Z3_mk_bool_sort(C)); Z3_inc_ref(C, l);
  Z3_ast imp = Z3_mk_implies(C, l, tr(c)); Z3_inc_ref(C, imp);
  Z3_solver_assert(C, S, imp); Z3_dec_ref(C, imp);
  lits[c] = l; litCount++; return l;
}
struct KHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 0x12345; for (u32 x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
typedef std::vector<std::pair<u32, u64>> PModel;
static std::unordered_map<std::vector<u32>, std::pair<SatRes, PModel>, KHash> cache;
// unsat cores by condition: any query whose constraints include a known core is unsat
static std::unordered_map<u32, std::vector<std::vector<u32>>> cores;
static std::vector<PModel> recent; static size_t recentPos = 0;
static void applyModel(Model& m, const PModel& p) { for (auto& x : p) { if (m.size() <= x.first) m.resize(x.first + 1, 0); m[x.first] = x.second; } }

SatRes solverCheck(const std::vector<Expr*>& pc, Expr* cond, Model& m) {
  gSS.queries++;
  if (isC(cond)) return cv(cond) ? SAT : UNSAT;
  { Expr* n = mkNot(cond); for (Expr* e : pc) { if (e == n) return UNSAT; if (e == cond) return SAT; } }
  // independent slice
  const VSet* vs = cond->vars; std::vector<Expr*> sl; std::vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i] && vsIntersects(pc[i]->vars, vs)) { in[i] = 1; ch = true; vs = vsUnion(vs, pc[i]->vars); sl.push_back(pc[i]); } }
  std::vector<u32> key; key.reserve(sl.size() + 1); for (Expr* e : sl) key.push_back(e->id); key.push_back(cond->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { gSS.cacheHits++; if (it->second.first == SAT) applyModel(m, it->second.second); return it->second.first; }
  { auto ci = cores.find(cond->id);
    if (ci != cores.end()) for (auto& c : ci->second) if (std::includes(key.begin(), key.end(), c.begin(), c.end())) { gSS.coreHits++; return UNSAT; } }
  // recent models
  for (size_t k = 0; k < recent.size(); k++) {
    Model t = m; // restrict to slice vars: other vars unaffected (independent)
    bool rel = false; for (auto& x : recent[k]) { u32 i = x.first / 64; if (i < vs->w.size() && (vs->w[i] >> (x.first % 64) & 1)) { if (t.size() <= x.first) t.resize(x.first + 1, 0); t[x.first] = x.second; rel = true; } }
    if (!rel) continue;
    evalBegin();
    if (!evalIn(cond, t)) continue;
    bool ok = true; for (Expr* e : sl) if (!evalIn(e, t)) { ok = false; break; }
    if (ok) { gSS.modelHits++; m = t; 
      PModel pm; for (u32 i = 0; i < vs->w.size(); i++) for (int b = 0; b < 64; b++) if (vs->w[i] >> b & 1) pm.push_back({i * 64 + b, i * 64 + b < t.size() ? t[i * 64 + b] : 0});
      cache[key] = {SAT, pm}; return SAT; }
  }
  if (!C) init();
  bool useInt = isInt(cond); for (Expr* e : sl) useInt = useInt && isInt(e);
  std::vector<Z3_ast> as; Z3_solver S0;
  if (useInt) { if (!SI || ilitCount > gMaxLits) newIntSolver(); for (Expr* e : sl) as.push_back(ilit(e)); as.push_back(ilit(cond)); S0 = SI; gSS.intCalls++; }
  else { if (!S || litCount > gMaxLits) newSolver(); for (Expr* e : sl) as.push_back(lit(e)); as.push_back(lit(cond)); S0 = S; }
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check_assumptions(C, S0, as.size(), as.data());
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gSS.z3time += dt; gSS.z3calls++;
  static double slow = getenv("VF_SLOW") ? atof(getenv("VF_SLOW")) : 1e9;
  if (dt > slow) { std::string o = "slow " + std::to_string(dt) + (useInt ? " int " : " bv ") + std::to_string((int)r) + " n=" + std::to_string(as.size()) + "\n"; fprintf(stderr, "%s  cond %s\n", o.c_str(), exprStr(cond, 8).c_str()); for (Expr* e : sl) fprintf(stderr, "    %s\n", exprStr(e, 8).c_str()); }
  if (gDumpDir && gDumpMax > 0 && r != Z3_L_UNDEF) { // self-contained SMT-LIB dump for cross-checking with another solver
    gDumpMax--;
    std::string f = std::string(gDumpDir) + "/q" + std::to_string(getpid()) + "_" + std::to_string(gSS.z3calls) + (r == Z3_L_TRUE ? ".sat" : ".unsat") + ".smt2";
    std::vector<Z3_ast> xs; for (Expr* e : sl) xs.push_back(tr(e));
    Z3_string s = Z3_benchmark_to_smtlib_string(C, "q", "QF_BV", "unknown", "", xs.size(), xs.data(), tr(cond));
    std::ofstream o(f); o << s;
  }
  if (r == Z3_L_FALSE) { gSS.unsat++;
    Z3_ast_vector core = Z3_solver_get_unsat_core(C, S0); Z3_ast_vector_inc_ref(C, core);
    std::vector<u32> ck; ck.push_back(cond->id); unsigned n = Z3_ast_vector_size(C, core);
    for (unsigned i = 0; i < n; i++) { Z3_ast a = Z3_ast_vector_get(C, core, i); for (size_t j = 0; j < sl.size(); j++) if (as[j] == a) { ck.push_back(sl[j]->id); break; } }
    Z3_ast_vector_dec_ref(C, core);
    std::sort(ck.begin(), ck.end()); ck.erase(std::unique(ck.begin(), ck.end()), ck.end());
    auto& cl = cores[cond->id]; if (cl.size() < 200) cl.push_back(ck);
    cache[key] = {UNSAT, {}}; return UNSAT; }
  if (r == Z3_L_UNDEF) { gSS.unknown++; if (useInt) newIntSolver(); else newSolver(); return UNKNOWN; }
  gSS.sat++;
  Z3_model md = Z3_solver_get_model(C, S0); Z3_model_inc_ref(C, md);
  PModel pm;
  for (u32 i = 0; i < vs->w.size(); i++) for (int b = 0; b < 64; b++) if (vs->w[i] >> b & 1) {
    u32 id = i * 64 + b; Expr* v = gVars[id].e; u64 val = 0;
    Z3_ast vz = nullptr; if (useInt) { auto f = imemo.find(v); if (f != imemo.end()) vz = f->second; } else vz = (Z3_ast)v->z3;
    if (vz) {
      Z3_ast r; if (Z3_model_eval(C, md, vz, true, &r)) {
        Z3_inc_ref(C, r);
        if (v->w == 1) val = Z3_get_bool_value(C, r) == Z3_L_TRUE; else { uint64_t x = 0; Z3_get_numeral_uint64(C, r, &x); val = x; }
        Z3_dec_ref(C, r);
      }
    }
    pm.push_back({id, val});
  }
  Z3_model_dec_ref(C, md);
  applyModel(m, pm);
  // sanity: the model must satisfy the query under our own evaluator
  evalBegin(); bool ok = evalIn(cond, m); for (Expr* e : sl) ok = ok && evalIn(e, m);
  if (!ok) { fprintf(stderr, "engine: z3 model does not satisfy query under own evaluator\n"); _exit(72); }
  cache[key] = {SAT, pm};
  if (recent.size() < 12) recent.push_back(pm); else { recent[recentPos] = pm; recentPos = (recentPos + 1) % 12; }
  return SAT;
}
