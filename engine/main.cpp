// Symbolic executor for LLVM IR (KLEE-style): forks at feasible symbolic branches, decides feasibility and assertions with Z3.
#include "compile2.h"
#include "solver.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/LLVMContext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <set>
#include <csignal>

std::vector<Fn*> gFns; DenseMap<const Function*, int> gFnIdx; DenseMap<const GlobalValue*, u64> gAddr; const DataLayout* gDL;
static Module* gM;

enum Special { SP_NONE, SP_MALLOC, SP_CALLOC, SP_REALLOC, SP_FREE, SP_MEMALIGN, SP_ALIGNED, SP_MEMCPY, SP_MEMSET, SP_MEMCMP, SP_STRLEN, SP_ABORT, SP_EXIT, SP_WRITE,
  SP_PANIC, SP_PANICFMT, SP_SYM, SP_ASSUME, SP_ASSERT, SP_REACH, SP_OBSERVE, SP_CONCRETIZE, SP_PARAM, SP_LOG, SP_FMTU, SP_RALLOC, SP_RDEALLOC, SP_RREALLOC, SP_RZALLOC, SP_ITE, SP_NOSYM, SP_THREAD, SP_JOIN, SP_FWAIT, SP_FWAKE, SP_YIELD, SP_SELF };

struct Shared {
  std::atomic<int> active, stop, incomplete; std::atomic<u64> created, finished, completed, assumedOut, violations, errors, forks, instrs, queries, z3calls, sat, unsat, unknown, cacheHits, modelHits, coreHits, asserts, assertsSym, samples, maxDepth, concretizations, peakRss, maxSteps; std::atomic<u64> z3us;
};
static Shared* SH; static std::atomic<u64>*SHcalls, *SHforks;

struct Frame { Fn* fn; u32 base; u32 ip; u64 sp; i32 dst; i32 nret; };
struct SymRec { const char* label; int label_len; u32 var; u64 lo; int w; u64 fixed; bool isVar; };
struct Thr { std::vector<Val> vals; std::vector<Frame> fr; u64 sp = 0, stkEnd = 0, tls = 0; int st = 0; u64 wait = 0; u32 noyield = 0; }; // st: 0 runnable, 1 futex, 2 join, 3 done
struct State {
  std::vector<Thr> th; int cur = 0; u64 tls = 0, stkEnd = 0; u32 preempts = 0, impatient = 0; bool resched = false; u64 slice = 0; std::vector<std::pair<u64, u32>> acc, sites; /* atomically used locations and by which threads */
  Mem mem; std::vector<Val> vals; std::vector<Frame> fr; std::vector<Expr*> pc; Model m; u64 steps = 0; u64 depth = 0;
  u64 heapTop = 0, sp = 0; std::vector<std::vector<u64>> freeL; std::vector<SymRec> syms; std::vector<Val> obs;
  std::vector<std::pair<u32, u64>> binds; const VSet* bound = nullptr; std::vector<u32> reached; u64 heapLive = 0;
};
static std::vector<State*> work; static std::map<std::string, u64> gParams; static std::vector<std::string> gLabels; static std::map<std::string, u32> gLabelIdx; static std::vector<char> gLabelReported;
static std::string gOut = "/tmp"; static u64 gMaxSteps = 50000000, gMaxHeap = 512ull << 20; static int gWorkers = 8; static double gTime = 600; static u64 gMaxViol = 4; static int gSampleMax = 24; static u64 gSeed = 1; static bool gVerbose = false; static u64 gMaxConc = 4096; static u64 gPreempt = 0, gTlsLo = 0, gTlsHi = 0; static std::vector<u8> gTlsImage;
static const u64 gSlice = 400000; /* no thread runs longer than this while others can */
static u32 gSites = 12;
static u64 gRssLimitMB = 3500;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static const u64 STACK_BASE = 3ull << 32, STACK_MAX = 7ull << 20, HEAP_BASE = 2ull << 32, GLOB_BASE = 1ull << 32, FN_BASE = 4ull << 32;

std::string demangle(const std::string& s) {
  if (s.compare(0, 3, "_ZN") != 0) return s;
  std::string o; size_t i = 3;
  while (i < s.size() && isdigit(s[i])) {
    size_t n = 0; while (i < s.size() && isdigit(s[i])) n = n * 10 + (s[i++] - '0');
    if (i + n > s.size()) break; std::string p = s.substr(i, n); i += n;
    if (p.size() == 17 && p[0] == 'h' && i < s.size() && s[i] == 'E') break;
    if (!o.empty()) o += "::";
    static const std::pair<const char*, const char*> R[] = {{"$LT$", "<"}, {"$GT$", ">"}, {"$RF$", "&"}, {"$BP$", "*"}, {"$C$", ","}, {"$LP$", "("}, {"$RP$", ")"}, {"$u20$", " "}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"$u5b$", "["}, {"$u5d$", "]"}, {"$u3b$", ";"}, {"$u27$", "'"}, {"$u2b$", "+"}, {"$u22$", "\""}, {"$SP$", "@"}, {"..", "::"}};
    for (auto& r : R) { size_t k; while ((k = p.find(r.first)) != std::string::npos) p.replace(k, strlen(r.first), r.second); }
    if (p.size() > 1 && p[0] == '_' && p[1] == '<') p = p.substr(1);
    o += p;
  }
  return o;
}
static void appendFile(const std::string& f, const std::string& line) { int fd = open((gOut + "/" + f).c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { std::string l = line + "\n"; if (write(fd, l.data(), l.size()) < 0) {} close(fd); } }
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void incomplete(const std::string& why) { SH->incomplete++; appendFile("incomplete.txt", why); }

// ---------- path constraint helpers
static void addC(State& s, Expr* c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  if (c->op == E_NOT && c->a->op == E_OR) { addC(s, mkNot(c->a->a)); addC(s, mkNot(c->a->b)); return; }
  for (Expr* e : s.pc) if (e == c) return;
  s.pc.push_back(c);
  Expr* v = nullptr; u64 k = 0;
  if (c->op == E_EQ && c->a->op == E_VAR && isC(c->b)) { v = c->a; k = c->b->lo; }
  else if (c->op == E_VAR) { v = c; k = 1; } else if (c->op == E_NOT && c->a->op == E_VAR) { v = c->a; k = 0; }
  if (v) { s.binds.push_back({(u32)v->lo, k}); s.bound = s.bound ? vsUnion(s.bound, v->vars) : v->vars; }
}
static Expr* simp(State& s, Expr* e) {
  if (!s.bound || isC(e) || !vsIntersects(e->vars, s.bound)) return e;
  std::unordered_map<Expr*, Expr*> memo; return substVars(e, s.binds, memo);
}
static State* cloneS(State& s) { { auto& f = s.fr.back(); size_t used = f.base + f.fn->nslots + 8; if (s.vals.size() > used) s.vals.resize(used); }
  State* n = new State(s); n->depth++; SH->created++; SH->forks++; return n; }
static void recordModel(State& s, std::string& o, const Model& m) {
  o += "\"syms\":[";
  for (size_t i = 0; i < s.syms.size(); i++) {
    auto& r = s.syms[i]; u64 v = r.isVar ? r.lo + (r.var < m.size() ? m[r.var] : 0) : r.fixed;
    o += (i ? "," : "") + std::string("[") + jstr(std::string(r.label, r.label_len)) + "," + std::to_string(v) + "]";
  }
  o += "]";
}
static std::string stackStr(State& s) { std::string o; int n = 0; for (int i = (int)s.fr.size() - 1; i >= 0 && n < 14; i--, n++) { if (n) o += " < "; o += s.fr[i].fn->dem; } return o; }
static u64 pathNo = 0;
static void report(State& s, const std::string& kind, const std::string& msg, const Model& m, bool err = false) {
  std::string o = "{\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"stack\":" + jstr(stackStr(s)) + ",\"steps\":" + std::to_string(s.steps) + ",";
  recordModel(s, o, m); o += "}";
  u64 n = err ? SH->errors++ : SH->violations++;
  if (n < 200) appendFile(err ? "errors.jsonl" : "violations.jsonl", o);
  if (!err && n + 1 >= gMaxViol) SH->stop = 1;
}
static void samplePath(State& s) {
  u64 n = SH->completed++;
  // deterministic thinning: first paths and then at exponentially growing intervals
  bool take = n < 3; if (!take) { u64 h = (n * 0x9E3779B97F4A7C15ull + gSeed * 0xD1B54A32D192ED03ull); h ^= h >> 31; u64 step = 1; while (step * 4 < n) step *= 2; take = (h % step) == 0; }
  if (!take || SH->samples >= (u64)gSampleMax) return;
  SH->samples++;
  // unconstrained inputs get arbitrary distinct values, so that the native replay is not run on zeros
  Model m = s.m; const VSet* cs = nullptr; for (Expr* e : s.pc) cs = cs ? vsUnion(cs, e->vars) : e->vars;
  for (auto& r : s.syms) if (r.isVar) { u32 i = r.var / 64; if (cs && i < cs->w.size() && (cs->w[i] >> (r.var % 64) & 1)) continue; if (m.size() <= r.var) m.resize(r.var + 1, 0); u64 h = (r.var + 1 + gSeed) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; m[r.var] = h & mask64(gVars[r.var].w); }
  evalBegin(); for (Expr* e : s.pc) if (!evalIn(e, m)) { fprintf(stderr, "engine: sample model violates its path\n"); _exit(73); }
  std::string o = "{"; recordModel(s, o, m); o += ",\"obs\":[";
  for (size_t i = 0; i < s.obs.size(); i++) { u64 v = s.obs[i].e ? (u64)evalIn(s.obs[i].e, m) : s.obs[i].lo; o += (i ? "," : "") + std::to_string(v); }
  o += "],\"steps\":" + std::to_string(s.steps) + ",\"constraints\":" + std::to_string(s.pc.size()) + "}";
  appendFile("samples.jsonl", o);
}

// ---------- interpreter
struct Interp {
  State& s; Val* fp; const Val* kp; Frame* f; Fn* fn; bool forked = false, done = false;
  Interp(State& st) : s(st) { refresh(); }
  void refresh() { f = &s.fr.back(); fn = f->fn; fp = s.vals.data() + f->base; kp = fn->consts.data(); }
  inline const Val& V(i32 i) { return i >= 0 ? fp[i] : kp[-i - 1]; }
  void end() { done = true; }
  void violation(const std::string& kind, const std::string& msg) { report(s, kind, msg, s.m); end(); }
  void error(const std::string& msg) { report(s, "engine", msg, s.m, true); incomplete("engine: " + msg + " @ " + stackStr(s).substr(0, 600)); end(); }
  // make operand concrete; forks the remaining values
  u64 conc(i32 slot) {
    Val v = V(slot); if (!v.e) return v.lo;
    Expr* e = simp(s, v.e);
    if (!isC(e)) {
      u128 x = evalExpr(e, s.m); Expr* eq = mkEq(e, mkConst(x, e->w)); Expr* ne = mkNot(eq);
      Model m2 = s.m; SatRes r = solverCheck(s.pc, ne, m2);
      if (r == SAT) { State* n = cloneS(s); SH->concretizations++; SHforks[fn->idx]++; addC(*n, ne); n->m = m2; pushWork(n); forked = true; addC(s, eq); }
      else if (r == UNKNOWN) { incomplete("solver timeout (concretize)"); addC(s, eq); }
      e = mkConst(x, e->w);
    }
    fp[slot] = cval(e->lo, e->hi); return e->lo;
  }
  // ---- threads: one runs at a time; control changes where it blocks, ends, spins, or (at most gPreempt times) before an atomic operation
  static void switchTo(State& t, int n) {
    Thr& o = t.th[t.cur]; o.vals.swap(t.vals); o.fr.swap(t.fr); o.sp = t.sp; o.stkEnd = t.stkEnd; o.tls = t.tls;
    Thr& w = t.th[n]; t.vals.swap(w.vals); t.fr.swap(w.fr); t.sp = w.sp; t.stkEnd = w.stkEnd; t.tls = w.tls; t.cur = n; t.slice = t.steps;
  }
  static void logSched(State& t, int n) { static const char* L = "sched"; t.syms.push_back(SymRec{L, 5, 0, 0, 0, (u64)n, false}); }
  void impatient() { // at a spin or yield of a waiting thread: the other choice is that it gives up waiting before any other thread runs
    if (s.impatient >= (gPreempt ? 1 : 0) || s.th.size() < 2) return;
    { u64 k = (u64)s.fr.back().fn->idx << 32 | 0x80000000u; auto si = std::lower_bound(s.sites.begin(), s.sites.end(), std::make_pair(k, 0u));
      if (si == s.sites.end() || si->first != k) s.sites.insert(si, {k, 1}); else if (si->second++ >= gSites) return; }
    State* n = cloneS(s); n->impatient++; n->th[n->cur].noyield = 64; logSched(*n, n->cur); pushWork(n); forked = true;
  }
  void reschedule() { // the current thread cannot go on
    s.th[s.cur].noyield = 0;
    std::vector<int> c; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st == 0) c.push_back(i);
    if (c.empty()) { violation("deadlock", "all threads are blocked"); return; }
    for (size_t i = 1; i < c.size(); i++) { State* n = cloneS(s); logSched(*n, c[i]); switchTo(*n, c[i]); pushWork(n); forked = true; }
    if (c.size() > 1) logSched(s, c[0]);
    switchTo(s, c[0]);
  }
  void preempt(u32 ip, u64 a) { // the other choice at this point: another thread runs first; only where another thread uses the same location
    u32 me = 1u << s.cur; auto it = std::lower_bound(s.acc.begin(), s.acc.end(), std::make_pair(a, 0u));
    if (it == s.acc.end() || it->first != a) { s.acc.insert(it, {a, me}); return; }
    bool other = it->second & ~me; it->second |= me; // what was used before a thread was started counts as used by it
    if (!other || s.preempts >= gPreempt) return;
    { u64 k = (u64)fn->idx << 32 | ip; auto si = std::lower_bound(s.sites.begin(), s.sites.end(), std::make_pair(k, 0u)); // a busy-waiting loop would give a new point on every turn
      if (si == s.sites.end() || si->first != k) s.sites.insert(si, {k, 1}); else if (si->second++ >= gSites) return; }
    for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st == 0) { State* n = cloneS(s); n->fr.back().ip = ip; n->preempts++; logSched(*n, i); switchTo(*n, i); pushWork(n); forked = true; }
  }
  bool yieldTo() { for (size_t k = 1; k < s.th.size(); k++) { int i = (s.cur + k) % s.th.size(); if (s.th[i].st == 0) { switchTo(s, i); return true; } } return false; }
  void pushWork(State* n) { work.push_back(n); }
  // decide a symbolic condition for the current state; the other side is forked and continues at otherIp
  bool branch(Expr* c, u32 ipT, u32 ipF) {
    c = simp(s, c);
    if (isC(c)) return cv(c);
    bool v = evalExpr(c, s.m); Expr* other = v ? mkNot(c) : c; Model m2 = s.m; SatRes r = solverCheck(s.pc, other, m2);
    if (r == UNSAT) return v;
    if (r == UNKNOWN) { incomplete("solver timeout (branch)"); addC(s, v ? c : mkNot(c)); return v; }
    SHforks[fn->idx]++;
    State* n = cloneS(s); addC(*n, other); n->m = m2; n->fr.back().ip = v ? ipF : ipT; pushWork(n); forked = true;
    addC(s, v ? c : mkNot(c)); return v;
  }
  bool memok(u64 a, u64 n, const char* what) { if (s.mem.ok(a, n)) return true; char b[100]; snprintf(b, 100, "invalid %s of %llu bytes at 0x%llx", what, (unsigned long long)n, (unsigned long long)a); violation("memory", b); return false; }
  // ---- heap
  static int cls(u64 n, u64& cap) { if (n <= 1024) { int c = (n + 15) / 16; if (c == 0) c = 1; cap = c * 16; return c; } int c = 65; cap = 2048; while (cap < n) { cap *= 2; c++; } return c; }
  u64 galloc(u64 n, u64 align) {
    if (n > (1ull << 31)) return 0;
    u64 cap; int c = cls(n, cap);
    if ((int)s.freeL.size() <= c) s.freeL.resize(c + 1);
    u64 p = 0;
    if (align <= 16 && !s.freeL[c].empty()) { p = s.freeL[c].back(); s.freeL[c].pop_back(); }
    else { u64 a = std::max<u64>(align, 16); p = (s.heapTop + 16 + a - 1) / a * a; s.heapTop = p + cap; if (s.heapTop - HEAP_BASE > gMaxHeap) return 0; s.mem.grow(2, s.heapTop - HEAP_BASE + 4096); }
    s.mem.store(p - 16, 8, 64, cval(n)); s.mem.store(p - 8, 8, 64, cval(0xA110C0DE00000000ull | c)); s.heapLive += cap; return p;
  }
  bool gfree(u64 p) {
    if (!p) return true; if (!s.mem.ok(p - 16, 16)) return false; Val t = s.mem.load(p - 8, 8, 64); if (t.e || (t.lo >> 32) != 0xA110C0DE) return false;
    int c = (u32)t.lo; s.mem.store(p - 8, 8, 64, cval(0xDEAD)); if (p % 16 == 0) { if ((int)s.freeL.size() <= c) s.freeL.resize(c + 1); s.freeL[c].push_back(p); } return true;
  }
  u64 grealloc(u64 p, u64 n) { if (!p) return galloc(n, 16); u64 o = s.mem.load(p - 16, 8, 64).lo; Val t = s.mem.load(p - 8, 8, 64); u64 cap; int c = cls(n, cap);
    if ((int)(u32)t.lo == c) { s.mem.store(p - 16, 8, 64, cval(n)); return p; }
    u64 q = galloc(n, 16); if (!q) return 0; s.mem.copy(q, p, std::min(o, n)); gfree(p); return q; }
  std::string gstr(u64 p, u64 n) { std::string o; if (n > 4096 || !s.mem.ok(p, n)) return "?"; for (u64 i = 0; i < n; i++) { Val v = s.mem.load(p + i, 1, 8); o += v.e ? '?' : (char)v.lo; } return o; }
  const char* istr(const std::string& x) { static std::set<std::string> S; return S.insert(x).first->c_str(); }
  void ret0(const CallSite& c, const Val& v) { if (c.nret) fp[c.dst] = v; }
  bool doCall(const CallSite& c, Fn* g);
  bool special(const CallSite& c, Fn* g);
  void intrinsic(const Ins& I, const CallSite& c);
  void go();
  Val binop(const Ins& I, const Val& A, const Val& B);
};
static inline i64 sx64(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline i128 sx128(u128 v, int w) { if (w >= 128) return (i128)v; return (i128)(v << (128 - w)) >> (128 - w); }
static const EOp EOPS[] = {E_CONST, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};

static Expr* popcnt(Expr* e, int w) { Expr* r = mkConst(0, w); for (int i = 0; i < e->w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(e, i, 1), w)); return r; }
void Interp::intrinsic(const Ins& I, const CallSite& c) {
  auto A = [&](int i) -> const Val& { return V(c.args[i]); };
  int w = I.w2; // width of the first argument
  switch (c.intr) {
    case I_MEMCPY: { u64 n = conc(c.args[2]); u64 d = conc(c.args[0]), p = conc(c.args[1]); if (n == 0) return; if (!memok(d, n, "memcpy destination") || !memok(p, n, "memcpy source")) return; s.mem.copy(d, p, n); s.steps += n / 16; return; }
    case I_MEMSET: { u64 n = conc(c.args[2]); u64 d = conc(c.args[0]); if (n == 0) return; if (!memok(d, n, "memset")) return; s.mem.fill(d, A(1), n); return; }
    case I_ID: fp[I.dst] = A(0); return;
    case I_ZERO: fp[I.dst] = cval(0); return; case I_ONES: fp[I.dst] = cval(mask64(I.w)); return;
    case I_TRAP: violation("trap", "llvm.trap"); return;
    case I_STACKSAVE: fp[I.dst] = cval(s.sp); return; case I_STACKRESTORE: s.sp = conc(c.args[0]); return;
    case I_LOADREL: { u64 p = conc(c.args[0]); i64 o = sx64(conc(c.args[1]), 64); if (!memok(p + o, 4, "load.relative")) return; fp[I.dst] = cval(p + (i64)(i32)s.mem.load(p + o, 4, 32).lo); return; }
    case I_PMOVMSKB: { Expr* e = nullptr; for (int i = 0; i < 16; i++) { Expr* b = mkExtract(toE(A(i), 8), 7, 1); e = e ? mkConcat(b, e) : b; } fp[I.dst] = eval2val(mkZext(e, 32)); return; }
    default: break;
  }
  if (c.intr >= I_RED_ADD && c.intr <= I_RED_MUL) {
    Expr* acc = toE(A(0), w);
    for (size_t i = 1; i < c.args.size(); i++) { Expr* b = toE(A(i), w);
      switch (c.intr) { case I_RED_ADD: acc = mkBin(E_ADD, acc, b); break; case I_RED_AND: acc = mkBin(E_AND, acc, b); break; case I_RED_OR: acc = mkBin(E_OR, acc, b); break; case I_RED_XOR: acc = mkBin(E_XOR, acc, b); break; case I_RED_MUL: acc = mkBin(E_MUL, acc, b); break;
        case I_RED_UMAX: acc = mkIte(mkUlt(acc, b), b, acc); break; case I_RED_UMIN: acc = mkIte(mkUlt(b, acc), b, acc); break; case I_RED_SMAX: acc = mkIte(mkSlt(acc, b), b, acc); break; default: acc = mkIte(mkSlt(b, acc), b, acc); } }
    fp[I.dst] = eval2val(acc); return;
  }
  if (c.intr >= I_FABS) { Val v = A(0); if (v.e) v = cval(conc(c.args[0])); double d; float f32; if (w == 64) memcpy(&d, &v.lo, 8); else { u32 t = v.lo; memcpy(&f32, &t, 4); d = f32; }
    switch (c.intr) { case I_FABS: d = fabs(d); break; case I_FLOOR: d = floor(d); break; case I_CEIL: d = ceil(d); break; case I_TRUNCF: d = trunc(d); break; default: d = rint(d); }
    u64 o = 0; if (w == 64) memcpy(&o, &d, 8); else { f32 = d; memcpy(&o, &f32, 4); } fp[I.dst] = cval(o); return; }
  Expr* a = toE(A(0), w);
  Expr* b = c.args.size() > 1 && c.intr != I_CTLZ && c.intr != I_CTTZ && c.intr != I_ABS ? toE(A(1), w) : nullptr;
  Expr* r = nullptr;
  switch (c.intr) {
    case I_BSWAP: for (int i = 0; i < w / 8; i++) { Expr* x = mkExtract(a, i * 8, 8); r = r ? mkConcat(r, x) : x; } break;
    case I_BITREV: for (int i = 0; i < w; i++) { Expr* x = mkExtract(a, i, 1); r = r ? mkConcat(r, x) : x; } break;
    case I_CTLZ: r = mkConst(w, w); for (int i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); break;
    case I_CTTZ: r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); break;
    case I_CTPOP: r = popcnt(a, w); break;
    case I_FSHL: case I_FSHR: { Expr* sh = toE(A(2), w); Expr* k = mkBin(E_UREM, sh, mkConst(w, w)); Expr* inv = mkBin(E_SUB, mkConst(w, w), k);
      if (c.intr == I_FSHL) r = mkOr(mkBin(E_SHL, a, k), mkBin(E_LSHR, b, inv)); else r = mkOr(mkBin(E_LSHR, b, k), mkBin(E_SHL, a, inv)); break; }
    case I_UADDO: { r = mkBin(E_ADD, a, b); fp[I.dst + 1] = eval2val(mkUlt(r, a)); break; }
    case I_USUBO: { r = mkBin(E_SUB, a, b); fp[I.dst + 1] = eval2val(mkUlt(a, b)); break; }
    case I_UMULO: { r = mkBin(E_MUL, a, b); if (w <= 64) { Expr* x = mkBin(E_MUL, mkZext(a, 2 * w), mkZext(b, 2 * w)); fp[I.dst + 1] = eval2val(mkNot(mkEq(mkExtract(x, w, w), mkConst(0, w)))); }
      else { if (!isC(a) || !isC(b)) { error("symbolic umul.with.overflow.i128"); return; } bool o = cv(a) && (cv(r) / cv(a) != cv(b)); fp[I.dst + 1] = cval(o); } break; }
    case I_SADDO: { r = mkBin(E_ADD, a, b); Expr* z = mkConst(0, w); Expr *sa = mkSlt(a, z), *sb = mkSlt(b, z), *sr = mkSlt(r, z); fp[I.dst + 1] = eval2val(mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr)))); break; }
    case I_SSUBO: { r = mkBin(E_SUB, a, b); Expr* z = mkConst(0, w); Expr *sa = mkSlt(a, z), *sb = mkSlt(b, z), *sr = mkSlt(r, z); fp[I.dst + 1] = eval2val(mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr)))); break; }
    case I_SMULO: { r = mkBin(E_MUL, a, b); if (w > 64) { error("smul.with.overflow.i128"); return; } Expr* x = mkBin(E_MUL, mkSext(a, 2 * w), mkSext(b, 2 * w)); fp[I.dst + 1] = eval2val(mkNot(mkEq(x, mkSext(r, 2 * w)))); break; }
    case I_UADDS: { Expr* x = mkBin(E_ADD, a, b); r = mkIte(mkUlt(x, a), mkConst(~(u128)0, w), x); break; }
    case I_USUBS: r = mkIte(mkUlt(a, b), mkConst(0, w), mkBin(E_SUB, a, b)); break;
    case I_SADDS: case I_SSUBS: { if (w >= 128) { error("sat i128"); return; } Expr* x = mkBin(c.intr == I_SADDS ? E_ADD : E_SUB, mkSext(a, w + 1), mkSext(b, w + 1)); Expr* mx = mkConst(maskw(w - 1), w + 1); Expr* mn = mkSext(mkConst((u128)1 << (w - 1), w), w + 1);
      r = mkExtract(mkIte(mkSlt(mx, x), mx, mkIte(mkSlt(x, mn), mn, x)), 0, w); break; }
    case I_UMAX: r = mkIte(mkUlt(a, b), b, a); break; case I_UMIN: r = mkIte(mkUlt(b, a), b, a); break;
    case I_SMAX: r = mkIte(mkSlt(a, b), b, a); break; case I_SMIN: r = mkIte(mkSlt(b, a), b, a); break;
    case I_ABS: r = mkIte(mkSlt(a, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), a), a); break;
    default: error("intrinsic"); return;
  }
  fp[I.dst] = eval2val(r);
}
bool Interp::special(const CallSite& c, Fn* g) { // true when handled
  auto A = [&](size_t i) -> Val { return i < c.args.size() ? V(c.args[i]) : cval(0); };
  auto CA = [&](size_t i) -> u64 { return conc(c.args[i]); };
  switch (g->special) {
    case SP_MALLOC: ret0(c, cval(galloc(CA(0), 16))); return true;
    case SP_CALLOC: { u64 n = CA(0) * CA(1); u64 p = galloc(n, 16); if (p) s.mem.fill(p, cval(0), n); ret0(c, cval(p)); return true; }
    case SP_RALLOC: ret0(c, cval(galloc(CA(0), CA(1)))); return true;
    case SP_RZALLOC: { u64 n = CA(0); u64 p = galloc(n, CA(1)); if (p) s.mem.fill(p, cval(0), n); ret0(c, cval(p)); return true; }
    case SP_RDEALLOC: case SP_FREE: if (!gfree(CA(0))) violation("memory", "invalid free"); return true;
    case SP_REALLOC: ret0(c, cval(grealloc(CA(0), CA(1)))); return true;
    case SP_RREALLOC: ret0(c, cval(grealloc(CA(0), CA(3)))); return true;
    case SP_MEMALIGN: { u64 al = CA(1), n = CA(2), pp = CA(0); u64 p = galloc(n, al); if (!memok(pp, 8, "posix_memalign")) return true; s.mem.store(pp, 8, 64, cval(p)); ret0(c, cval(p ? 0 : 12)); return true; }
    case SP_ALIGNED: { u64 al = CA(0), n = CA(1); ret0(c, cval(galloc(n, al))); return true; }
    case SP_MEMCPY: { u64 n = CA(2), d = CA(0), p = CA(1); if (n && memok(d, n, "memcpy destination") && memok(p, n, "memcpy source")) s.mem.copy(d, p, n); ret0(c, cval(d)); return true; }
    case SP_MEMSET: { u64 n = CA(2), d = CA(0); Val v = A(1); if (v.e) v = eval2val(mkExtract(v.e, 0, 8)); if (n && memok(d, n, "memset")) s.mem.fill(d, v, n); ret0(c, cval(d)); return true; }
    case SP_MEMCMP: {
      u64 n = CA(2), p = CA(0), q = CA(1); if (n == 0) { ret0(c, cval(0)); return true; }
      if (!memok(p, n, "memcmp") || !memok(q, n, "memcmp")) return true; s.steps += n / 8;
      bool eqOnly = g->name == "bcmp"; Expr* r = nullptr;
      if (eqOnly) { Expr* eq = mkConst(1, 1); for (u64 i = 0; i < n; i += 8) { int k = (int)std::min<u64>(8, n - i); Val x = s.mem.load(p + i, k, k * 8), y = s.mem.load(q + i, k, k * 8); if (!x.e && !y.e) { if (x.lo != y.lo) { ret0(c, cval(1)); return true; } continue; } eq = mkAnd(eq, mkEq(toE(x, k * 8), toE(y, k * 8))); }
        r = mkIte(eq, mkConst(0, 32), mkConst(1, 32)); }
      else {
        // find the first concrete difference to bound the chain
        u64 lim = n; for (u64 i = 0; i < n; i++) { Val x = s.mem.load(p + i, 1, 8), y = s.mem.load(q + i, 1, 8); if (!x.e && !y.e && x.lo != y.lo) { lim = i + 1; break; } }
        r = mkConst(0, 32);
        for (i64 i = (i64)lim - 1; i >= 0; i--) { Expr *x = s.mem.byteE(p + i), *y = s.mem.byteE(q + i); r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst((u64)-1, 32), mkConst(1, 32))); }
      }
      ret0(c, eval2val(r)); return true; }
    case SP_STRLEN: { u64 p = CA(0), n = 0; while (s.mem.ok(p + n, 1)) { Val v = s.mem.load(p + n, 1, 8); if (v.e) { error("symbolic strlen"); return true; } if (!v.lo) break; n++; } ret0(c, cval(n)); return true; }
    case SP_ABORT: violation("abort", "abort"); return true;
    case SP_EXIT: error("exit called"); return true;
    case SP_WRITE: { u64 p = CA(1), n = CA(2); if (gVerbose) fprintf(stderr, "%s", gstr(p, n).c_str()); ret0(c, cval(n)); return true; }
    case SP_PANIC: violation("panic", g->dem); return true;
    case SP_PANICFMT: { std::string loc; Val l = A(1); if (!l.e && s.mem.ok(l.lo, 24)) { u64 fpn = s.mem.load(l.lo, 8, 64).lo, fl = s.mem.load(l.lo + 8, 8, 64).lo; u64 line = s.mem.load(l.lo + 16, 4, 32).lo; loc = gstr(fpn, fl) + ":" + std::to_string(line); }
      // first literal piece of the message
      std::string piece; Val a = A(0); if (!a.e && s.mem.ok(a.lo, 48)) { for (int k = 0; k < 6; k += 2) { u64 pp = s.mem.load(a.lo + 8 * k, 8, 64).lo, n = s.mem.load(a.lo + 8 * k + 8, 8, 64).lo; if (n > 0 && n < 10 && s.mem.ok(pp, 16)) { u64 sp_ = s.mem.load(pp, 8, 64).lo, sl = s.mem.load(pp + 8, 8, 64).lo; if (sl < 200 && s.mem.ok(sp_, sl)) { piece = gstr(sp_, sl); break; } } } }
      violation("panic", loc + " " + piece); return true; }
    case SP_SYM: {
      u64 lp = CA(0), ln = CA(1), lo = CA(2), hi = CA(3); std::string l = gstr(lp, ln); const char* cl = istr(l);
      if (lo > hi) { error("vf_sym range"); return true; }
      { std::string u = l; for (char& x : u) if (x == ' ') x = '_'; auto it = gParams.find("min_" + u); if (it != gParams.end() && it->second > lo) lo = std::min(hi, (u64)it->second); it = gParams.find("max_" + u); if (it != gParams.end() && it->second < hi) hi = std::max(lo, (u64)it->second); }
      u64 rg = hi - lo; SymRec r{cl, (int)l.size(), 0, lo, 0, lo, false};
      if (rg == 0) { s.syms.push_back(r); ret0(c, cval(lo)); return true; }
      int w = 0; while (w < 64 && (rg >> w)) w++;
      std::string vn = std::to_string(s.syms.size()) + "_" + l; Expr* v = mkVar(vn, w); r.isVar = true; r.var = v->lo; r.w = w; s.syms.push_back(r);
      if (s.m.size() <= v->lo) s.m.resize(v->lo + 1, 0); s.m[v->lo] = 0;
      if (rg != mask64(w)) addC(s, mkUle(v, mkConst(rg, w)));
      ret0(c, eval2val(mkBin(E_ADD, mkZext(v, 64), mkConst(lo, 64)))); return true; }
    case SP_ASSUME: {
      Val v = A(0); if (!v.e) { if (!(v.lo & 1)) { SH->assumedOut++; end(); } return true; }
      Expr* e = simp(s, v.e); if (e->w > 1) e = mkExtract(e, 0, 1);
      if (isC(e)) { if (!cv(e)) { SH->assumedOut++; end(); } return true; }
      if (!evalExpr(e, s.m)) { SatRes r = solverCheck(s.pc, e, s.m); if (r == UNKNOWN) { incomplete("solver timeout (assume)"); end(); return true; } if (r == UNSAT) { SH->assumedOut++; end(); return true; } }
      addC(s, e); return true; }
    case SP_ASSERT: {
      Val v = A(0); SH->asserts++; std::string msg;
      if (!v.e) { if (!(v.lo & 1)) { violation("assert", gstr(CA(1), CA(2))); } return true; }
      SH->assertsSym++; Expr* e = simp(s, v.e); if (e->w > 1) e = mkExtract(e, 0, 1);
      if (isC(e)) { if (!cv(e)) violation("assert", gstr(CA(1), CA(2))); return true; }
      Model m2 = s.m; SatRes r = SAT; if (evalExpr(e, s.m)) r = solverCheck(s.pc, mkNot(e), m2);
      if (r == UNKNOWN) { incomplete("solver timeout (assert)"); end(); return true; }
      if (r == SAT) { report(s, "assert", gstr(CA(1), CA(2)), m2); SatRes q = evalExpr(e, s.m) ? SAT : solverCheck(s.pc, e, s.m); if (q != SAT) { end(); return true; } addC(s, e); }
      return true; }
    case SP_REACH: { std::string l = gstr(CA(0), CA(1)); auto it = gLabelIdx.find(l); if (it == gLabelIdx.end()) { gLabelIdx[l] = 1; appendFile("reach.txt", l); } return true; }
    case SP_OBSERVE: s.obs.push_back(A(0)); return true;
    case SP_CONCRETIZE: { u64 v = CA(0); ret0(c, cval(v)); return true; }
    case SP_PARAM: { std::string l = gstr(CA(0), CA(1)); auto it = gParams.find(l); ret0(c, cval(it == gParams.end() ? CA(2) : it->second)); return true; }
    case SP_LOG: { if (gVerbose) { std::string l = gstr(CA(0), CA(1)); Val v = A(2); fprintf(stderr, "[log] %s %s\n", l.c_str(), v.e ? exprStr(v.e).c_str() : std::to_string(v.lo).c_str()); } return true; }
    case SP_THREAD: {
      u64 pp = CA(0), t = CA(2), arg = CA(3); u64 k = (t - FN_BASE) / 16; if (t < FN_BASE || k >= gFns.size() || (t & 15)) { violation("memory", "thread with invalid address"); return true; }
      if (!memok(pp, 8, "pthread_create")) return true; Fn* e = gFns[k]; if (!e->compiled) { Compiler C(*e); C.run(); } e->ncalls++;
      if (s.th.empty()) s.th.resize(1); if (s.th.size() > 15) { error("too many threads"); return true; }
      const u64 SS = 1 << 20; u64 stk = galloc(SS, 16), tl = galloc(gTlsHi - gTlsLo + 64, 64); if (!stk || !tl) { error("no memory for a thread"); return true; }
      for (u64 i = 0; i < gTlsImage.size(); i++) s.mem.store(tl + i, 1, 8, cval(gTlsImage[i]));
      Thr w; w.sp = stk + 64; w.stkEnd = stk + SS; w.tls = tl - gTlsLo; w.vals.resize(e->nslots + 64); w.vals[0] = cval(arg); w.fr.push_back(Frame{e, 0, 0, w.sp, 0, 0});
      s.th.push_back(w); for (auto& a : s.acc) a.second = ~0u; s.mem.store(pp, 8, 64, cval(s.th.size())); ret0(c, cval(0)); return true; }
    case SP_JOIN: { u64 t = CA(0) - 1; if (t >= s.th.size()) { error("join of unknown thread"); return true; } ret0(c, cval(0)); if (s.th[t].st != 3) { s.th[s.cur].st = 2; s.th[s.cur].wait = t; s.resched = true; } return true; }
    case SP_FWAIT: { u64 a = CA(0), v = CA(1); if (!memok(a, 4, "futex")) return true; Val x = s.mem.load(a, 4, 32); if (x.e) { error("symbolic futex"); return true; }
      if ((u32)x.lo != (u32)v) { ret0(c, cval((u64)-1)); return true; } ret0(c, cval(0));
      if (s.th.size() < 2) { violation("deadlock", "a single thread waits forever"); return true; } s.th[s.cur].st = 1; s.th[s.cur].wait = a; s.resched = true; return true; }
    case SP_FWAKE: { u64 a = CA(0), n = CA(1), k = 0; for (auto& t : s.th) if (k < n && t.st == 1 && t.wait == a) { t.st = 0; k++; } ret0(c, cval(k)); return true; }
    case SP_YIELD: if (s.th[s.cur].noyield) { s.th[s.cur].noyield--; ret0(c, cval(0)); return true; } impatient(); ret0(c, cval(0)); s.resched = s.th.size() > 1; return true;
    case SP_SELF: ret0(c, cval(s.cur + 1)); return true;
    case SP_ITE: { Val cnd = A(0), x = A(1), y = A(2); if (!cnd.e) { ret0(c, (cnd.lo & 1) ? x : y); return true; } Expr* e = cnd.e; if (e->w > 1) e = mkExtract(e, 0, 1); ret0(c, eval2val(mkIte(e, toE(x, 64), toE(y, 64)))); return true; }
    case SP_FMTU: { Val v = A(0); if (v.e) { ret0(c, cval(0)); return true; } return false; }
    default: return false;
  }
}
bool Interp::doCall(const CallSite& c, Fn* g) {
  if (g->special && special(c, g)) { if (done) return false; return true; }
  if (done) return false;
  if (g->decl) { error("call to undefined function " + g->name); return false; }
  if (!g->compiled) { Compiler C(*g); C.run(); }
  g->ncalls++;
  if (s.fr.size() > 20000) { violation("stack", "call depth exceeds 20000 frames"); return false; }
  if ((int)c.args.size() < g->nargs) { error("argument count mismatch calling " + g->dem); return false; }
  u32 nb = f->base + fn->nslots; size_t need = (size_t)nb + g->nslots + 8;
  if (s.vals.size() < need) { s.vals.resize(need + need / 4); fp = s.vals.data() + f->base; }
  Val* np = s.vals.data() + nb; for (int i = 0; i < g->nargs; i++) np[i] = V(c.args[i]);
  s.fr.push_back(Frame{g, nb, 0, s.sp, c.dst, c.nret}); refresh(); return true;
}
static double fd(const Val& v, int w) { if (w == 64) { double d; memcpy(&d, &v.lo, 8); return d; } float f; u32 t = v.lo; memcpy(&f, &t, 4); return f; }
static Val mkF(double d, int w) { u64 o = 0; if (w == 64) memcpy(&o, &d, 8); else { float f = (float)d; memcpy(&o, &f, 4); } return cval(o); }
void Interp::go() {
  u64 steps = s.steps; u64 limit = gMaxSteps; u64 chk = steps + 2000000;
  const Ins* code = fn->code.data(); u32 ip = f->ip; const Ins* I;
#define RELOAD() do { refresh(); code = fn->code.data(); ip = f->ip; } while (0)
  for (;;) {
    I = code + ip; steps++;
    switch (I->op) {
      case O_MOV: fp[I->dst] = V(I->a); break;
#define ARITH(OP, EXPR64) case OP: { const Val &A = V(I->a), &B = V(I->b); if (!A.e && !B.e && I->w <= 64) { u64 a = A.lo, b = B.lo; int w = I->w; (void)w; u64 r = EXPR64; fp[I->dst] = cval(r & mask64(I->w)); } else fp[I->dst] = binop(*I, A, B); break; }
      ARITH(O_ADD, a + b) ARITH(O_SUB, a - b) ARITH(O_MUL, a * b) ARITH(O_AND, a & b) ARITH(O_OR, a | b) ARITH(O_XOR, a ^ b)
      ARITH(O_SHL, b >= (u64)w ? 0 : a << b) ARITH(O_LSHR, b >= (u64)w ? 0 : a >> b) ARITH(O_ASHR, (u64)(sx64(a, w) >> (b >= (u64)w ? w - 1 : b)))
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { const Val &A = V(I->a), &B = V(I->b); if (!B.e && B.lo == 0 && B.hi == 0) { f->ip = ip; s.steps = steps; violation("trap", "division by zero"); return; } fp[I->dst] = binop(*I, A, B); break; }
#define CMP(OP, EXPR64, SYM) case OP: { const Val &A = V(I->a), &B = V(I->b); int w = I->w; if (!A.e && !B.e && w <= 64) { u64 a = A.lo, b = B.lo; fp[I->dst] = cval(EXPR64); } else { Expr *x = toE(A, w), *y = toE(B, w); fp[I->dst] = eval2val(SYM); } break; }
      CMP(O_EQ, a == b, mkEq(x, y)) CMP(O_NE, a != b, mkNot(mkEq(x, y))) CMP(O_ULT, a < b, mkUlt(x, y)) CMP(O_ULE, a <= b, mkUle(x, y)) CMP(O_UGT, a > b, mkUlt(y, x)) CMP(O_UGE, a >= b, mkUle(y, x))
      CMP(O_SLT, sx64(a, w) < sx64(b, w), mkSlt(x, y)) CMP(O_SLE, sx64(a, w) <= sx64(b, w), mkSle(x, y)) CMP(O_SGT, sx64(a, w) > sx64(b, w), mkSlt(y, x)) CMP(O_SGE, sx64(a, w) >= sx64(b, w), mkSle(y, x))
      case O_SELECT: { const Val& c = V(I->a); if (!c.e) fp[I->dst] = (c.lo & 1) ? V(I->b) : V(I->c); else { Expr *x = toE(V(I->b), I->w), *y = toE(V(I->c), I->w); fp[I->dst] = eval2val(mkIte(c.e, x, y)); } break; }
      case OP_TRUNC: { const Val& a = V(I->a); if (!a.e) { if (I->w <= 64) fp[I->dst] = cval(a.lo & mask64(I->w)); else { u128 v = U(a.lo, a.hi) & maskw(I->w); fp[I->dst] = cval((u64)v, (u64)(v >> 64)); } } else fp[I->dst] = eval2val(mkExtract(a.e, 0, I->w)); break; }
      case O_ZEXT: { const Val& a = V(I->a); if (!a.e) fp[I->dst] = a; else fp[I->dst] = eval2val(mkZext(a.e, I->w)); break; }
      case O_SEXT: { const Val& a = V(I->a); if (!a.e) { if (I->w <= 64) fp[I->dst] = cval((u64)sx64(a.lo, I->w2) & mask64(I->w)); else { u128 v = (u128)sx128(U(a.lo, a.hi), I->w2) & maskw(I->w); fp[I->dst] = cval((u64)v, (u64)(v >> 64)); } } else fp[I->dst] = eval2val(mkSext(a.e, I->w)); break; }
      case O_BITX: { const Val& a = V(I->a); if (!a.e) { u128 v = (U(a.lo, a.hi) >> I->c) & maskw(I->w); fp[I->dst] = cval((u64)v, (u64)(v >> 64)); } else fp[I->dst] = eval2val(mkExtract(a.e, I->c, I->w)); break; }
      case O_CONCAT: { const Val &a = V(I->a), &b = V(I->b); if (!a.e && !b.e) { u128 v = (U(a.lo, a.hi) << I->w2) | U(b.lo, b.hi); fp[I->dst] = cval((u64)v, (u64)(v >> 64)); } else fp[I->dst] = eval2val(mkConcat(toE(a, I->w - I->w2), toE(b, I->w2))); break; }
      case O_LOAD: { const Val& p = V(I->a); u64 a = p.lo; if (p.e) { f->ip = ip; s.steps = steps; a = conc(I->a); } a += V(I->b).lo; int n = I->w2;
        if (!s.mem.ok(a, n)) { f->ip = ip; s.steps = steps; memok(a, n, "load"); return; }
        fp[I->dst] = s.mem.load(a, n, I->w); break; }
      case O_STORE: { const Val& p = V(I->a); u64 a = p.lo; if (p.e) { f->ip = ip; s.steps = steps; a = conc(I->a); } a += V(I->b).lo; int n = I->w2;
        if (!s.mem.ok(a, n)) { f->ip = ip; s.steps = steps; memok(a, n, "store"); return; }
        s.mem.store(a, n, I->w, V(I->c)); break; }
      case O_ADDI: { const Val& a = V(I->a); u64 k = V(I->b).lo; if (!a.e) fp[I->dst] = cval(a.lo + k); else fp[I->dst] = eval2val(mkBin(E_ADD, a.e, mkConst(k, 64))); break; }
      case O_MADD: { const Val &a = V(I->a), &b = V(I->b); u64 k = V(I->c).lo; if (!a.e && !b.e) fp[I->dst] = cval(a.lo + b.lo * k); else fp[I->dst] = eval2val(mkBin(E_ADD, toE(a, 64), mkBin(E_MUL, toE(b, 64), mkConst(k, 64)))); break; }
      case O_ALLOCA: { f->ip = ip; s.steps = steps; u64 n = conc(I->a) * V(I->b).lo; u64 al = std::max(16, I->c); u64 p = (s.sp + al - 1) / al * al; u64 e = p + n + 8;
        if (e > s.stkEnd) { violation("stack", "guest stack exhausted"); return; } s.sp = e; if (!s.cur) s.mem.grow(3, e - STACK_BASE + 64); fp[I->dst] = cval(p); break; }
      case O_BR: ip = I->a; if (!s.th.empty() && steps > s.slice + gSlice) { f->ip = ip; s.steps = steps; s.slice = steps; if (yieldTo()) RELOAD(); } if (steps > chk) { chk = steps + 2000000; if (steps > limit) { f->ip = ip; s.steps = steps; violation("steps", "step limit exceeded (possible non-termination)"); return; } if (SH->stop || now() > gTime) { f->ip = ip; s.steps = steps; return; } } continue;
      case O_CBR: { const Val& c = V(I->a); bool t; if (!c.e) t = c.lo & 1; else { f->ip = ip; s.steps = steps; t = branch(c.e, I->b, I->c); }
        ip = t ? I->b : I->c; if (forked) { f->ip = ip; s.steps = steps; return; } continue; }
      case O_SWITCH: {
        SwitchTab& t = fn->sw[I->b]; const Val& c = V(I->a);
        if (!c.e) { auto it = t.m.find({c.lo, c.hi}); ip = it == t.m.end() ? t.def : it->second; continue; }
        f->ip = ip; s.steps = steps; Expr* e = simp(s, c.e);
        if (isC(e)) { auto it = t.m.find({e->lo, e->hi}); ip = it == t.m.end() ? t.def : it->second; continue; }
        std::map<i32, Expr*> conds; Expr* any = mkConst(0, 1);
        for (auto& k : t.m) { Expr* q = mkEq(e, mkConst(U(k.first.first, k.first.second), t.w)); if (k.second != t.def) { auto& x = conds[k.second]; x = x ? mkOr(x, q) : q; any = mkOr(any, q); } }
        conds[t.def] = mkNot(any);
        u128 cur = evalExpr(e, s.m); auto it = t.m.find({(u64)cur, (u64)(cur >> 64)}); i32 ct = it == t.m.end() ? t.def : it->second;
        for (auto& k : conds) if (k.first != ct) {
          Expr* q = simp(s, k.second); if (isC(q) && !cv(q)) continue; Model m2 = s.m; SatRes r = solverCheck(s.pc, q, m2);
          if (r == UNKNOWN) { incomplete("solver timeout (switch)"); continue; }
          if (r == SAT) { SHforks[fn->idx]++; State* n = cloneS(s); addC(*n, q); n->m = m2; n->fr.back().ip = k.first; pushWork(n); forked = true; }
        }
        if (forked) addC(s, conds[ct]);
        ip = ct; if (forked) { f->ip = ip; return; } continue; }
      case O_RET: {
        Frame cur = *f; i32 base = I->a; int n = I->b; SHcalls[fn->idx].fetch_add(0);
        if (s.fr.size() == 1) { f->ip = ip; s.steps = steps; if (!s.cur) { samplePath(s); end(); return; }
          s.th[s.cur].st = 3; for (auto& t : s.th) if (t.st == 2 && t.wait == (u64)s.cur) t.st = 0; reschedule(); if (done || forked) return; RELOAD(); continue; }
        Val tmp = n == 1 ? V(base) : cval(0); Val* src = n > 1 ? fp + base : nullptr;
        s.sp = cur.sp; s.fr.pop_back(); RELOAD();
        if (n == 1) { if (cur.nret == 1) fp[cur.dst] = tmp; } else for (int i = 0; i < n && i < cur.nret; i++) fp[cur.dst + i] = src[i];
        continue; }
      case O_CALL: { CallSite& c = fn->calls[I->a]; f->ip = ip + 1; s.steps = steps; Fn* g = gFns[c.fnIdx]; 
        size_t depth = s.fr.size(); if (g->special) f->ip = ip; // re-executed by forked states
        bool ok = doCall(c, g); if (!ok) return; steps = s.steps; s.fr[depth - 1].ip = ip + 1;
        RELOAD();
        if (s.resched) { s.resched = false; s.steps = steps; if (s.th[s.cur].st) reschedule(); else yieldTo(); if (done || forked) return; RELOAD(); continue; }
        if (forked) { s.steps = steps; return; } continue; }
      case O_YIELD: if (s.th.size() > 1) { f->ip = ip + 1; s.steps = steps; if (s.th[s.cur].noyield) { s.th[s.cur].noyield--; break; } if (gPreempt) impatient(); if (yieldTo()) { RELOAD(); if (steps > limit) { violation("steps", "step limit exceeded (possible non-termination)"); return; } continue; } } break;
      case O_TLS: fp[I->dst] = cval(V(I->a).lo + s.tls); break;
      case O_CALLI: { CallSite& c = fn->calls[I->a]; f->ip = ip; s.steps = steps; u64 t = conc(I->b); u64 k = (t - FN_BASE) / 16;
        if (t < FN_BASE || k >= gFns.size() || (t & 15)) { violation("memory", "indirect call to invalid address"); return; }
        Fn* g = gFns[k]; size_t depth = s.fr.size(); bool ok = doCall(c, g); if (!ok) return; steps = s.steps; s.fr[depth - 1].ip = ip + 1; RELOAD(); if (forked) { s.steps = steps; return; } continue; }
      case O_INTR: { f->ip = ip; s.steps = steps; intrinsic(*I, fn->calls[I->a]); if (done) return; steps = s.steps; break; }
      case O_UNREACHABLE: f->ip = ip; s.steps = steps; violation("trap", "unreachable executed"); return;
      case O_UNSUPP: f->ip = ip; s.steps = steps; error("unsupported: " + fn->msgs[I->a] + " in " + fn->dem); return;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: { f->ip = ip; s.steps = steps; conc(I->a); conc(I->b); double a = fd(V(I->a), I->w), b = fd(V(I->b), I->w), r; 
        if (I->w == 32) { float x = a, y = b, z; switch (I->op) { case O_FADD: z = x + y; break; case O_FSUB: z = x - y; break; case O_FMUL: z = x * y; break; case O_FDIV: z = x / y; break; default: z = fmodf(x, y); } r = z; }
        else switch (I->op) { case O_FADD: r = a + b; break; case O_FSUB: r = a - b; break; case O_FMUL: r = a * b; break; case O_FDIV: r = a / b; break; default: r = fmod(a, b); }
        fp[I->dst] = mkF(r, I->w); break; }
      case O_FNEG: { conc(I->a); fp[I->dst] = mkF(-fd(V(I->a), I->w), I->w); break; }
      case O_FCMP: { f->ip = ip; s.steps = steps; conc(I->a); conc(I->b); double a = fd(V(I->a), I->w), b = fd(V(I->b), I->w); bool un = std::isnan(a) || std::isnan(b); int p = I->w2; bool r = ((p & 1) && !un && a == b) || ((p & 2) && !un && a > b) || ((p & 4) && !un && a < b) || ((p & 8) && un); fp[I->dst] = cval(r); break; }
      case O_FPEXT: case O_FPTRUNC: f->ip = ip; conc(I->a); fp[I->dst] = mkF(fd(V(I->a), I->w2), I->w); break;
      case O_FPTOUI: case O_FPTOSI: { f->ip = ip; conc(I->a); double d = fd(V(I->a), I->w2); u64 r = I->op == O_FPTOUI ? (u64)d : (u64)(i64)d; fp[I->dst] = cval(r & mask64(I->w)); break; }
      case O_UITOFP: f->ip = ip; conc(I->a); fp[I->dst] = mkF(I->w == 32 ? (double)(float)V(I->a).lo : (double)V(I->a).lo, I->w); break;
      case O_SITOFP: f->ip = ip; conc(I->a); fp[I->dst] = mkF((double)sx64(V(I->a).lo, I->w2), I->w); break;
      case O_RMW: { f->ip = ip; s.steps = steps; u64 a = conc(I->a); if (gPreempt && I->w2 != (int)AtomicRMWInst::Add && I->w2 != (int)AtomicRMWInst::Sub) preempt(ip, a); int w = I->w, n = w / 8; if (!memok(a, n, "atomicrmw")) return; Val o = s.mem.load(a, n, w); Expr *x = toE(o, w), *y = toE(V(I->b), w), *r;
        switch ((AtomicRMWInst::BinOp)I->w2) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(E_SUB, x, y); break; case AtomicRMWInst::And: r = mkBin(E_AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(E_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(E_XOR, x, y); break; case AtomicRMWInst::Nand: r = mkNot(mkBin(E_AND, x, y)); break;
          case AtomicRMWInst::UMax: r = mkIte(mkUlt(x, y), y, x); break; case AtomicRMWInst::UMin: r = mkIte(mkUlt(x, y), x, y); break; case AtomicRMWInst::Max: r = mkIte(mkSlt(x, y), y, x); break; case AtomicRMWInst::Min: r = mkIte(mkSlt(x, y), x, y); break; default: error("atomicrmw op"); return; }
        s.mem.store(a, n, w, eval2val(r)); fp[I->dst] = o; break; }
      case O_CMPXCHG: { f->ip = ip; s.steps = steps; u64 a = conc(I->a); if (gPreempt) preempt(ip, a); int w = I->w, n = w / 8; if (!memok(a, n, "cmpxchg")) return; Val o = s.mem.load(a, n, w); Expr* eq = mkEq(toE(o, w), toE(V(I->b), w)); Expr* r = mkIte(eq, toE(V(I->c), w), toE(o, w)); s.mem.store(a, n, w, eval2val(r)); fp[I->dst] = o; fp[I->dst + 1] = eval2val(eq); break; }
      default: error("bad opcode " + std::to_string((int)I->op)); return;
    }
    ip++;
    if (forked) { f->ip = ip; s.steps = steps; return; }
  }
}
Val Interp::binop(const Ins& I, const Val& A, const Val& B) {
  int w = I.w; if (!A.e && !B.e) { u128 r = foldBin(EOPS[I.op], U(A.lo, A.hi), U(B.lo, B.hi), w); return cval((u64)r, (u64)(r >> 64)); }
  return eval2val(mkBin(EOPS[I.op], toE(A, w), toE(B, w)));
}

// ---------- globals
static void initGlobal(Mem& m, u64 addr, const Constant* C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  Type* T = C->getType();
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) m.wr(addr + i)->d[(addr + i) & (PS - 1)] = r[i]; return; }
  if (auto* S = dyn_cast<StructType>(T)) { auto* L = gDL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) initGlobal(m, addr + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto* A = dyn_cast<ArrayType>(T)) { u64 es = gDL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) initGlobal(m, addr + i * es, C->getAggregateElement(i)); return; }
  if (auto* V = dyn_cast<FixedVectorType>(T)) { u64 es = gDL->getTypeAllocSize(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); i++) initGlobal(m, addr + i * es, C->getAggregateElement(i)); return; }
  u128 v; if (!constNum(C, v)) { std::string s; raw_string_ostream o(s); C->print(o); fprintf(stderr, "engine: unsupported initializer %s\n", s.c_str()); _exit(73); }
  int n = gDL->getTypeStoreSize(T); m.store(addr, n, n * 8, cval((u64)v, (u64)(v >> 64)));
}
static int specialOf(const std::string& n, const std::string& d, bool decl) {
  static const std::map<std::string, int> M = {{"malloc", SP_MALLOC}, {"calloc", SP_CALLOC}, {"realloc", SP_REALLOC}, {"free", SP_FREE}, {"posix_memalign", SP_MEMALIGN}, {"aligned_alloc", SP_ALIGNED}, {"memcpy", SP_MEMCPY}, {"memmove", SP_MEMCPY}, {"memset", SP_MEMSET}, {"memcmp", SP_MEMCMP}, {"bcmp", SP_MEMCMP}, {"strlen", SP_STRLEN}, {"abort", SP_ABORT}, {"exit", SP_EXIT}, {"_exit", SP_EXIT}, {"write", SP_WRITE},
    {"vf_sym", SP_SYM}, {"vf_assume", SP_ASSUME}, {"vf_assert", SP_ASSERT}, {"vf_reach", SP_REACH}, {"vf_observe", SP_OBSERVE}, {"vf_concretize", SP_CONCRETIZE}, {"vf_param", SP_PARAM}, {"vf_log", SP_LOG}, {"vf_ite", SP_ITE}, {"pthread_create", SP_THREAD}, {"pthread_join", SP_JOIN}, {"vf_futex_wait", SP_FWAIT}, {"vf_futex_wake", SP_FWAKE}, {"sched_yield", SP_YIELD}, {"pthread_self", SP_SELF}, {"rust_begin_unwind", SP_PANIC}};
  static const std::map<std::string, int> MD = {{"__rust_alloc", SP_RALLOC}, {"__rust_dealloc", SP_RDEALLOC}, {"__rust_realloc", SP_RREALLOC}, {"__rust_alloc_zeroed", SP_RZALLOC}};
  auto it = M.find(n); if (it != M.end()) return it->second;
  if (decl) { auto i2 = MD.find(n); if (i2 != MD.end()) return i2->second; }
  if (d == "core::panicking::panic_fmt") return SP_PANICFMT;
  if (d.compare(0, 27, "core::panicking::panic_nounw") == 0 || d == "std::panicking::rust_panic_with_hook" || d == "alloc::alloc::handle_alloc_error" || d == "std::panicking::begin_panic_handler" || d.compare(0, 28, "std::panicking::begin_panic") == 0 || d == "alloc::raw_vec::capacity_overflow_") return SP_PANIC;
  if (d == "core::fmt::num::imp::fmt_u64" || d == "core::fmt::num::imp::<impl core::fmt::Display for u64>::fmt_") return SP_FMTU;
  return SP_NONE;
}
static void flushStats() {
  SH->queries += gSS.queries; SH->z3calls += gSS.z3calls; SH->sat += gSS.sat; SH->unsat += gSS.unsat; SH->unknown += gSS.unknown; SH->cacheHits += gSS.cacheHits; SH->modelHits += gSS.modelHits; SH->coreHits += gSS.coreHits; SH->z3us += (u64)(gSS.z3time * 1e6);
  gSS = SolverStats(); for (auto* f : gFns) if (f->ncalls) { SHcalls[f->idx] += f->ncalls; f->ncalls = 0; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru); u64 k = ru.ru_maxrss; u64 o = SH->peakRss; while (k > o && !SH->peakRss.compare_exchange_weak(o, k)) {}
}
static u64 rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a, b; if (!f) return 0; int r = fscanf(f, "%ld %ld", &a, &b); fclose(f); return r == 2 ? b * 4096 / (1 << 20) : 0; }
static void workLoop() {
  double lastSplit = 0; u64 it = 0;
  while (!work.empty()) {
    if (SH->stop) { work.clear(); break; }
    if (now() > gTime) { if (!SH->incomplete) incomplete("time limit"); SH->stop = 2; break; }
    State* s = work.back(); u64 before = s->steps;
    size_t idx = work.size() - 1;
    { Interp in(*s); in.go();
      SH->instrs += s->steps - before;
      if (in.done) { // remove s (it may no longer be at the top)
        u64 o = SH->maxSteps; while (s->steps > o && !SH->maxSteps.compare_exchange_weak(o, s->steps)) {}
        o = SH->maxDepth; while (s->depth > o && !SH->maxDepth.compare_exchange_weak(o, s->depth)) {}
        work.erase(work.begin() + idx); delete s; SH->finished++; }
      else if (idx != work.size() - 1) { work.erase(work.begin() + idx); work.push_back(s); }
    }
    if ((++it & 255) == 0 && rssMB() > gRssLimitMB) { incomplete("worker memory limit"); SH->stop = 2; break; }
    if (work.size() >= 2 && SH->active < gWorkers && now() - lastSplit > 0.03) {
      lastSplit = now();
      int a = SH->active.fetch_add(1);
      if (a >= gWorkers) { SH->active--; continue; }
      flushStats();
      pid_t p = fork();
      if (p < 0) { SH->active--; continue; }
      size_t n = work.size(), half = n / 2; // the child takes the older half
      if (p == 0) { work.resize(half); lastSplit = now(); }
      else work.erase(work.begin(), work.begin() + half);
    }
  }
  flushStats(); SH->active--;
}
int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now();
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("VF_RESTACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(1ull << 30, rl.rlim_max); setrlimit(RLIMIT_STACK, &rl); setenv("VF_RESTACK", "1", 1); execv("/proc/self/exe", argv); }
  std::vector<std::string> bcs; std::string entry; bool listMode = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") gOut = nx(); else if (a == "--workers") gWorkers = stoi(nx()); else if (a == "--time") gTime = stod(nx());
    else if (a == "--max-steps") gMaxSteps = stoull(nx()); else if (a == "--max-viol") gMaxViol = stoull(nx()); else if (a == "--samples") gSampleMax = stoi(nx()); else if (a == "--seed") gSeed = stoull(nx()); else if (a == "-v") gVerbose = true;
    else if (a == "--query-timeout") gQueryTimeoutMs = stoi(nx()); else if (a == "--dump") { gDumpDir = argv[++i]; gDumpMax = stoi(nx()); }
    else if (a == "--param") { std::string p = nx(); auto k = p.find('='); gParams[p.substr(0, k)] = stoull(p.substr(k + 1)); } else if (a == "--list") listMode = true; else bcs.push_back(a);
  }
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
  for (auto& b : bcs) { auto m = parseIRFile(b, err, ctx); if (!m) { err.print("engine", errs()); return 74; } if (!M) M = std::move(m); else { m->setDataLayout(M->getDataLayout()); m->setTargetTriple(M->getTargetTriple()); if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed\n"); return 74; } } }
  if (!M) return 74;
  gM = M.get(); gDL = &gM->getDataLayout();
  if (listMode) { for (auto& F : *gM) if (!F.isDeclaration() && F.getName().starts_with("h_")) printf("%s\n", F.getName().str().c_str()); return 0; }
  for (auto& F : *gM) { Fn* f = new Fn(); f->F = &F; f->idx = gFns.size(); f->name = F.getName().str(); f->dem = demangle(f->name); f->decl = F.isDeclaration(); f->addr = FN_BASE + 16 * f->idx; f->special = specialOf(f->name, f->dem, f->decl); gFnIdx[&F] = f->idx; gAddr[&F] = (f->decl && F.hasExternalWeakLinkage()) ? 0 : f->addr; gFns.push_back(f); }
  size_t NF = gFns.size();
  SH = (Shared*)mmap(0, sizeof(Shared) + 16 * NF + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SHcalls = (std::atomic<u64>*)((char*)SH + sizeof(Shared) + 64); SHforks = SHcalls + NF;
  State* s0 = new State();
  u64 top = GLOB_BASE + 64;
  for (int pass = 0; pass < 2; pass++) { if (pass) { top = (top + 63) / 64 * 64; gTlsLo = top; } for (auto& G : gM->globals()) { if (G.isThreadLocal() != (pass == 1)) continue; if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gAddr[&G] = 0; continue; } u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); top = (top + al - 1) / al * al; gAddr[&G] = top; top += std::max<u64>(1, G.getValueType()->isSized() ? (u64)gDL->getTypeAllocSize(G.getValueType()) : 1); } }
  gTlsHi = top;
  s0->mem.grow(1, top - GLOB_BASE + 64);
  for (auto& G : gM->globals()) if (G.hasInitializer()) initGlobal(s0->mem, gAddr[&G], G.getInitializer());
  for (u64 a = gTlsLo; a < gTlsHi; a++) gTlsImage.push_back((u8)s0->mem.load(a, 1, 8).lo);
  s0->stkEnd = STACK_BASE + STACK_MAX; { auto it = gParams.find("preempt"); if (it != gParams.end()) gPreempt = it->second; it = gParams.find("sites"); if (it != gParams.end()) gSites = it->second; }
  s0->heapTop = HEAP_BASE + 64; s0->mem.grow(2, 65536); s0->sp = STACK_BASE + 64; s0->mem.grow(3, 65536);
  Function* E = gM->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 75; }
  Fn* ef = gFns[gFnIdx[E]]; { Compiler C(*ef); C.run(); } ef->ncalls++;
  s0->vals.resize(ef->nslots + 64); s0->fr.push_back(Frame{ef, 0, 0, s0->sp, 0, 0});
  work.push_back(s0); SH->created = 1; SH->active = 1; double tload = now();
  prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0); pid_t root = getpid();
  signal(SIGINT, SIG_DFL);
  workLoop();
  if (getpid() != root) _exit(0);
  int st, badp = 0; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { badp++; SH->active--; }
  if (badp) incomplete("worker process died");
  if (SH->stop != 1 && SH->created != SH->finished && !SH->incomplete) incomplete("unfinished states");
  // result
  FILE* o = fopen((gOut + "/result.json").c_str(), "w"); if (!o) return 76;
  fprintf(o, "{\"entry\":%s,\"complete\":%s,\"paths\":%llu,\"assumed_out\":%llu,\"violations\":%llu,\"errors\":%llu,\"states\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"solver_calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"core_hits\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"max_steps\":%llu,\"max_depth\":%llu,\"concretizations\":%llu,\"peak_rss_mb\":%llu,\"load_s\":%.2f,\"wall_s\":%.2f,\"stopped\":%d,\n",
    jstr(entry).c_str(), (SH->incomplete == 0 && SH->stop == 0) ? "true" : "false", (unsigned long long)SH->completed, (unsigned long long)SH->assumedOut, (unsigned long long)SH->violations, (unsigned long long)SH->errors, (unsigned long long)SH->created, (unsigned long long)SH->forks, (unsigned long long)SH->instrs, (unsigned long long)SH->queries, (unsigned long long)SH->z3calls, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->cacheHits, (unsigned long long)SH->modelHits, (unsigned long long)SH->coreHits, SH->z3us / 1e6, (unsigned long long)SH->asserts, (unsigned long long)SH->assertsSym, (unsigned long long)SH->maxSteps, (unsigned long long)SH->maxDepth, (unsigned long long)SH->concretizations, (unsigned long long)SH->peakRss / 1024, tload, now(), (int)SH->stop);
  fprintf(o, "\"functions\":{"); bool first = true;
  for (auto* f : gFns) if (SHcalls[f->idx] && !f->decl) { fprintf(o, "%s%s:[%llu,%llu]", first ? "" : ",\n", jstr(f->name).c_str(), (unsigned long long)SHcalls[f->idx], (unsigned long long)SHforks[f->idx]); first = false; }
  fprintf(o, "},\n\"demangled\":{"); first = true;
  for (auto* f : gFns) if (SHcalls[f->idx] && !f->decl) { fprintf(o, "%s%s:%s", first ? "" : ",\n", jstr(f->name).c_str(), jstr(f->dem).c_str()); first = false; }
  fprintf(o, "}}\n"); fclose(o);
  return 0;
}
