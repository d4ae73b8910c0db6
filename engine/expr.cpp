#include "expr.h"
std::vector<VarInfo> gVars;
u64 gNumExprs = 0;
static std::unordered_map<std::string, u32> gVarIdx;
static u32 gGen = 1;

// ---- var sets
struct VSHash { size_t operator()(const VSet* s) const { u64 h = 1469598103934665603ull; for (u64 x : s->w) h = (h ^ x) * 1099511628211ull + (h >> 29); return h; } };
struct VSEq { bool operator()(const VSet* a, const VSet* b) const { return a->w == b->w; } };
static std::unordered_set<const VSet*, VSHash, VSEq> gVS;
static const VSet* vsIntern(std::vector<u64>&& w) {
  while (!w.empty() && w.back() == 0) w.pop_back();
  VSet t{std::move(w)};
  auto it = gVS.find(&t); if (it != gVS.end()) return *it;
  VSet* n = new VSet(std::move(t)); gVS.insert(n); return n;
}
static const VSet* vsEmpty() { static const VSet* e = vsIntern({}); return e; }
struct PHash { size_t operator()(const std::pair<const void*, const void*>& p) const { return ((u64)p.first * 0x9E3779B97F4A7C15ull) ^ ((u64)p.second * 0xC2B2AE3D27D4EB4Full); } };
static std::unordered_map<std::pair<const void*, const void*>, const VSet*, PHash> gVSU;
const VSet* vsUnion(const VSet* a, const VSet* b) {
  if (a == b) return a; if (a->w.empty()) return b; if (b->w.empty()) return a;
  if (a > b) std::swap(a, b);
  auto k = std::make_pair((const void*)a, (const void*)b);
  auto it = gVSU.find(k); if (it != gVSU.end()) return it->second;
  std::vector<u64> w(std::max(a->w.size(), b->w.size()), 0);
  for (size_t i = 0; i < a->w.size(); i++) w[i] |= a->w[i];
  for (size_t i = 0; i < b->w.size(); i++) w[i] |= b->w[i];
  return gVSU[k] = vsIntern(std::move(w));
}
bool vsIntersects(const VSet* a, const VSet* b) {
  size_t n = std::min(a->w.size(), b->w.size());
  for (size_t i = 0; i < n; i++) if (a->w[i] & b->w[i]) return true;
  return false;
}

// ---- interning
static Expr** gTab = nullptr; static u64 gCap = 0;
static char* gArena = nullptr; static size_t gArenaLeft = 0;
static Expr* newExpr() {
  if (gArenaLeft < sizeof(Expr)) { gArenaLeft = 1 << 20; gArena = (char*)malloc(gArenaLeft); }
  Expr* e = (Expr*)gArena; gArena += sizeof(Expr); gArenaLeft -= sizeof(Expr); return e;
}
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static Expr* intern(EOp op, int w, Expr* a, Expr* b, Expr* c, u64 lo, u64 hi) {
  u64 h = mix(mix(mix(mix(mix(op * 131 + w, a ? a->id + 1 : 0), b ? b->id + 1 : 0), c ? c->id + 1 : 0), lo), hi);
  if (gNumExprs * 2 >= gCap) {
    u64 nc = gCap ? gCap * 2 : 1 << 16; Expr** nt = (Expr**)calloc(nc, sizeof(Expr*));
    for (u64 i = 0; i < gCap; i++) if (gTab[i]) { u64 j = gTab[i]->hash & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = gTab[i]; }
    free(gTab); gTab = nt; gCap = nc;
  }
  u64 j = h & (gCap - 1);
  while (Expr* e = gTab[j]) {
    if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->lo == lo && e->hi == hi) return e;
    j = (j + 1) & (gCap - 1);
  }
  Expr* e = newExpr();
  e->op = op; e->w = w; e->pad = 0; e->id = (u32)gNumExprs++; e->hash = h; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi;
  e->z3 = nullptr; e->gen = 0;
  const VSet* vs = vsEmpty();
  if (op == E_VAR) { std::vector<u64> ww(lo / 64 + 1, 0); ww[lo / 64] = 1ull << (lo % 64); vs = vsIntern(std::move(ww)); }
  if (a) vs = a->vars; if (b) vs = vsUnion(vs, b->vars); if (c) vs = vsUnion(vs, c->vars);
  e->vars = vs;
  gTab[j] = e; return e;
}
Expr* mkConst(u128 v, int w) { v &= maskw(w); return intern(E_CONST, w, 0, 0, 0, (u64)v, (u64)(v >> 64)); }
Expr* mkVar(const std::string& name, int w) {
  std::string k = name + ":" + std::to_string(w);
  auto it = gVarIdx.find(k); if (it != gVarIdx.end()) return gVars[it->second].e;
  u32 id = gVars.size(); gVarIdx[k] = id; gVars.push_back({name, w, nullptr});
  Expr* e = intern(E_VAR, w, 0, 0, 0, id, 0); gVars[id].e = e; return e;
}
static inline i128 sx(u128 v, int w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }
u128 foldBin(EOp op, u128 a, u128 b, int w) {
  u128 m = maskw(w);
  switch (op) {
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return x >= 0 ? m : 1; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case E_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case E_ASHR: { int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(sx(a, w) >> s) & m; }
    case E_EQ: return a == b; case E_ULT: return a < b; case E_SLT: return sx(a, w) < sx(b, w);
    default: abort();
  }
}
Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(~cv(a), a->w);
  if (a->op == E_NOT) return a->a;
  if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  if (a->op == E_CONCAT) return mkConcat(mkNot(a->a), mkNot(a->b));
  return intern(E_NOT, a->w, a, 0, 0, 0, 0);
}
static bool iteConst(Expr* e) { return e->op == E_ITE && isC(e->b) && isC(e->c); }

struct Seg { Expr* e; };
static void segs(Expr* e, std::vector<Expr*>& out) { // low to high
  while (e->op == E_CONCAT) { segs(e->b, out); e = e->a; }
  out.push_back(e);
}
static bool isZero(Expr* e) { return isC(e) && cv(e) == 0; }
static bool isOnes(Expr* e) { return isC(e) && cv(e) == maskw(e->w); }
// attempt to split bitwise op on segment boundaries; constants are split into runs
static Expr* segBit(EOp op, Expr* a, Expr* b) {
  std::vector<int> cuts; int w = a->w;
  auto addCuts = [&](Expr* e) {
    std::vector<Expr*> s; segs(e, s); int off = 0;
    for (Expr* x : s) {
      if (isC(x)) { // runs
        u128 v = cv(x); int n = 0;
        for (int i = 1; i < x->w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) { cuts.push_back(off + i); n++; }
      }
      off += x->w; cuts.push_back(off);
    }
  };
  addCuts(a); addCuts(b);
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() <= 1 || cuts.size() > 20) return nullptr;
  // require that at least one piece is decided by a constant
  std::vector<Expr*> pieces; int prev = 0; int triv = 0;
  for (int c : cuts) {
    Expr* x = mkExtract(a, prev, c - prev); Expr* y = mkExtract(b, prev, c - prev);
    if (isC(x) || isC(y)) triv++;
    prev = c; pieces.push_back(x); pieces.push_back(y);
  }
  if (triv * 2 < (int)cuts.size()) return nullptr;
  Expr* r = nullptr;
  for (size_t i = 0; i < pieces.size(); i += 2) { Expr* p = mkBin(op, pieces[i], pieces[i + 1]); r = r ? mkConcat(p, r) : p; }
  (void)w; return r;
}
Expr* mkBin(EOp op, Expr* a, Expr* b) {
  int w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  if (op == E_EQ) return mkEq(a, b); if (op == E_ULT) return mkUlt(a, b); if (op == E_SLT) return mkSlt(a, b);
  if (isC(a) && isC(b)) return mkConst(foldBin(op, cv(a), cv(b), w), w);
  bool comm = op == E_AND || op == E_OR || op == E_XOR || op == E_ADD || op == E_MUL;
  if (comm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->id > b->id) std::swap(a, b); }
  // push into ite with constant arms
  if (isC(b) && iteConst(a)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (isC(a) && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  switch (op) {
    case E_AND:
      if (a == b) return a;
      if (isC(b)) { if (isZero(b)) return b; if (isOnes(b)) return a; }
      if (a->op == E_NOT && a->a == b) return mkConst(0, w);
      if (b->op == E_NOT && b->a == a) return mkConst(0, w);
      if (w == 1) {
        // absorption with nested conjunction
        if (a->op == E_AND && (a->a == b || a->b == b)) return a;
        if (b->op == E_AND && (b->a == a || b->b == a)) return b;
      } else if (Expr* r = segBit(op, a, b)) return r;
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b)) { if (isZero(b)) return a; if (isOnes(b)) return b; }
      if (a->op == E_NOT && a->a == b) return mkConst(~(u128)0, w);
      if (b->op == E_NOT && b->a == a) return mkConst(~(u128)0, w);
      if (w > 1) { if (Expr* r = segBit(op, a, b)) return r; }
      else { if (a->op == E_OR && (a->a == b || a->b == b)) return a; if (b->op == E_OR && (b->a == a || b->b == a)) return b; }
      break;
    case E_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (isZero(b)) return a; if (isOnes(b)) return mkNot(a); 
        if (a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(cv(a->b) ^ cv(b), w)); }
      if (a->op == E_XOR) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (b->op == E_XOR) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
      if (w > 1 && (a->op == E_CONCAT && b->op == E_CONCAT)) if (Expr* r = segBit(op, a, b)) return r;
      break;
    case E_ADD:
      if (isZero(b)) return a;
      if (isC(b)) { if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(cv(a->b) + cv(b), w)); }
      if (a->op == E_SUB && a->b == b) return a->a;
      if (b->op == E_SUB && b->b == a) return b->a;
      if (w == 1) return mkBin(E_XOR, a, b);
      break;
    case E_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(E_ADD, a, mkConst(-cv(b), w));
      if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a;
        if (isC(a->b)) return mkBin(E_ADD, mkBin(E_SUB, a->a, b), a->b); }
      if (b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_SUB, a, b->a), mkConst(-cv(b->b), w));
      if (w == 1) return mkBin(E_XOR, a, b);
      break;
    case E_MUL:
      if (isC(b)) {
        u128 v = cv(b); if (v == 0) return b; if (v == 1) return a;
        if ((v & (v - 1)) == 0) { int s = 0; while (!((v >> s) & 1)) s++; return mkBin(E_SHL, a, mkConst(s, w)); }
      }
      if (w == 1) return mkAnd(a, b);
      break;
    case E_UDIV:
      if (isC(b)) { u128 v = cv(b); if (v == 1) return a; if (v && (v & (v - 1)) == 0) { int s = 0; while (!((v >> s) & 1)) s++; return mkBin(E_LSHR, a, mkConst(s, w)); } }
      break;
    case E_UREM:
      if (isC(b)) { u128 v = cv(b); if (v == 1) return mkConst(0, w); if (v && (v & (v - 1)) == 0) return mkBin(E_AND, a, mkConst(v - 1, w)); }
      break;
    case E_SHL:
      if (isC(b)) { u128 s = cv(b); if (s == 0) return a; if (s >= (u128)w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - (int)s), mkConst(0, (int)s)); }
      break;
    case E_LSHR:
      if (isC(b)) { u128 s = cv(b); if (s == 0) return a; if (s >= (u128)w) return mkConst(0, w);
        return mkZext(mkExtract(a, (int)s, w - (int)s), w); }
      break;
    case E_ASHR:
      if (isC(b)) { u128 s = cv(b); if (s == 0) return a; if (s >= (u128)w) s = w - 1;
        return mkSext(mkExtract(a, (int)s, w - (int)s), w); }
      break;
    default: break;
  }
  return intern(op, w, a, b, 0, 0, 0);
}
// join two adjacent pieces into one term that is not a concatenation, if possible
static Expr* tryMerge(Expr* hi, Expr* lo) {
  if (hi->w + lo->w > 128) return nullptr;
  if (isC(hi) && isC(lo)) return mkConst((cv(hi) << lo->w) | cv(lo), hi->w + lo->w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, (int)lo->lo, hi->w + lo->w);
  if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) {
    Expr* x = tryMerge(hi->b, lo->b); if (!x || x->op == E_CONCAT) return nullptr;
    Expr* y = tryMerge(hi->c, lo->c); if (!y || y->op == E_CONCAT) return nullptr;
    return mkIte(hi->a, x, y);
  }
  return nullptr;
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  int w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((cv(hi) << lo->w) | cv(lo), w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, (int)lo->lo, w);
  if (hi->op == E_ITE && lo->op == E_ITE) { Expr* r = tryMerge(hi, lo); if (r) return r; }
  // right-nested normal form: Concat(hi, Concat(..)) where first is not a concat
  if (hi->op == E_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->op == E_CONCAT) {
    Expr* m = lo->a;
    if (isC(hi) && isC(m)) return mkConcat(mkConst((cv(hi) << m->w) | cv(m), hi->w + m->w), lo->b);
    if (hi->op == E_EXTRACT && m->op == E_EXTRACT && hi->a == m->a && hi->lo == m->lo + m->w) return mkConcat(mkExtract(hi->a, (int)m->lo, hi->w + m->w), lo->b);
    if (hi->op == E_ITE && m->op == E_ITE) { Expr* r = tryMerge(hi, m); if (r) return mkConcat(r, lo->b); }
  }
  return intern(E_CONCAT, w, hi, lo, 0, 0, 0);
}
Expr* mkExtract(Expr* a, int off, int w) {
  if (off == 0 && w == a->w) return a;
  if (off < 0 || off + w > a->w) { fprintf(stderr, "bad extract %d %d of %d\n", off, w, a->w); abort(); }
  if (isC(a)) return mkConst(cv(a) >> off, w);
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->a, (int)a->lo + off, w);
    case E_CONCAT: {
      int lw = a->b->w;
      if (off + w <= lw) return mkExtract(a->b, off, w);
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case E_NOT: return mkNot(mkExtract(a->a, off, w));
    case E_AND: case E_OR: case E_XOR: return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case E_ITE: if (isC(a->b) || isC(a->c) || a->b->op == E_CONCAT || a->c->op == E_CONCAT)
        return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case E_SEXT: if (off + w <= a->a->w) return mkExtract(a->a, off, w); break;
    case E_ADD: case E_SUB: case E_MUL: if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return intern(E_EXTRACT, w, a, 0, 0, off, 0);
}
Expr* mkZext(Expr* a, int w) { if (w == a->w) return a; return mkConcat(mkConst(0, w - a->w), a); }
Expr* mkSext(Expr* a, int w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sx(cv(a), a->w), w);
  if (a->op == E_CONCAT && isC(a->a)) { bool neg = (cv(a->a) >> (a->a->w - 1)) & 1; return mkConcat(mkConst(neg ? ~(u128)0 : 0, w - a->w), a); }
  if (iteConst(a)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  if (a->w == 1) return mkIte(a, mkConst(~(u128)0, w), mkConst(0, w));
  return intern(E_SEXT, w, a, 0, 0, 0, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return cv(c) ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) { std::swap(a, b); c = c->a; }
  if (a->w == 1) {
    if (isC(a) && isC(b)) return cv(a) ? c : mkNot(c);
    if (isC(a)) return cv(a) ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return cv(b) ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  // common concat structure
  if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
  if (a->op == E_CONCAT && isC(b) && isC(a->a)) return mkConcat(mkIte(c, a->a, mkExtract(b, a->b->w, a->a->w)), mkIte(c, a->b, mkExtract(b, 0, a->b->w)));
  if (b->op == E_CONCAT && isC(a) && isC(b->a)) return mkConcat(mkIte(c, mkExtract(a, b->b->w, b->a->w), b->a), mkIte(c, mkExtract(a, 0, b->b->w), b->b));
  return intern(E_ITE, a->w, c, a, b, 0, 0);
}
Expr* mkEq(Expr* a, Expr* b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(cv(a) == cv(b), 1);
  if (isC(a)) std::swap(a, b);
  else if (!isC(b) && a->id > b->id) std::swap(a, b);
  if (a->w == 1) { if (isC(b)) return cv(b) ? a : mkNot(a); }
  if (isC(b)) {
    switch (a->op) {
      case E_CONCAT: return mkAnd(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), mkEq(a->b, mkExtract(b, 0, a->b->w)));
      case E_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(cv(b) - cv(a->b), a->w)); break;
      case E_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(cv(b) ^ cv(a->b), a->w)); if (isZero(b)) return mkEq(a->a, a->b); break;
      case E_SUB: if (isZero(b)) return mkEq(a->a, a->b); break;
      case E_NOT: return mkEq(a->a, mkNot(b));
      case E_SEXT: { u128 lo = cv(b) & maskw(a->a->w); if (((u128)sx(lo, a->a->w) & maskw(a->w)) != cv(b)) return mkConst(0, 1); return mkEq(a->a, mkConst(lo, a->a->w)); }
      case E_ITE: if (isC(a->b) || isC(a->c) || a->b->op == E_ITE || a->c->op == E_ITE) { 
          if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); } break;
      default: break;
    }
  } else {
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if ((a->op == E_CONCAT) != (b->op == E_CONCAT)) {
      Expr* c = a->op == E_CONCAT ? a : b; Expr* o = a->op == E_CONCAT ? b : a;
      if (isC(c->a)) return mkAnd(mkEq(mkExtract(o, c->b->w, c->a->w), c->a), mkEq(mkExtract(o, 0, c->b->w), c->b));
    } else if (a->op == E_CONCAT && b->op == E_CONCAT) {
      int m = std::min(a->b->w, b->b->w);
      return mkAnd(mkEq(mkExtract(a, m, a->w - m), mkExtract(b, m, b->w - m)), mkEq(mkExtract(a, 0, m), mkExtract(b, 0, m)));
    }
    if (a->op == E_ADD && b->op == E_ADD) { if (a->a == b->a) return mkEq(a->b, b->b); if (a->b == b->b) return mkEq(a->a, b->a); if (a->a == b->b) return mkEq(a->b, b->a); if (a->b == b->a) return mkEq(a->a, b->b); }
    if (a->op == E_ADD && a->a == b) return mkEq(a->b, mkConst(0, a->w));
    if (b->op == E_ADD && b->a == a) return mkEq(b->b, mkConst(0, a->w));
    if (a->op == E_ITE && (a->b == b || a->c == b) ) { return a->b == b ? mkOr(a->a, mkEq(a->c, b)) : mkOr(mkNot(a->a), mkEq(a->b, b)); }
    if (b->op == E_ITE && (b->b == a || b->c == a) ) { return b->b == a ? mkOr(b->a, mkEq(b->c, a)) : mkOr(mkNot(b->a), mkEq(b->b, a)); }
  }
  return intern(E_EQ, 1, a, b, 0, 0, 0);
}
Expr* mkUlt(Expr* a, Expr* b) {
  if (a == b) return mkConst(0, 1);
  if (isC(a) && isC(b)) return mkConst(cv(a) < cv(b), 1);
  int w = a->w;
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isC(b)) {
    u128 v = cv(b);
    if (v == 0) return mkConst(0, 1);
    if (v == 1) return mkEq(a, mkConst(0, w));
    if (v == maskw(w)) return mkNot(mkEq(a, b));
    if (iteConst(a)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (a->op == E_CONCAT && isC(a->a)) {
      u128 h = cv(a->a), bh = v >> a->b->w;
      if (h < bh) return mkConst(1, 1); if (h > bh) return mkConst(0, 1);
      return mkUlt(a->b, mkConst(v, a->b->w));
    }
  }
  if (isC(a)) {
    u128 v = cv(a);
    if (v == maskw(w)) return mkConst(0, 1);
    if (v == 0) return mkNot(mkEq(b, a));
    if (v == maskw(w) - 1) return mkEq(b, mkConst(maskw(w), w));
    if (iteConst(b)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    if (b->op == E_CONCAT && isC(b->a)) {
      u128 h = cv(b->a), ah = v >> b->b->w;
      if (ah < h) return mkConst(1, 1); if (ah > h) return mkConst(0, 1);
      return mkUlt(mkConst(v, b->b->w), b->b);
    }
  }
  if (a->op == E_CONCAT && b->op == E_CONCAT && isC(a->a) && isC(b->a)) {
    int m = std::min(a->a->w, b->a->w); // leading constant bits
    u128 ha = cv(a->a) >> (a->a->w - m), hb = cv(b->a) >> (b->a->w - m);
    if (ha < hb) return mkConst(1, 1); if (ha > hb) return mkConst(0, 1);
    return mkUlt(mkExtract(a, 0, w - m), mkExtract(b, 0, w - m));
  }
  if (a->op == E_CONCAT && b->op == E_CONCAT && a->a == b->a) return mkUlt(a->b, b->b);
  return intern(E_ULT, 1, a, b, 0, 0, 0);
}
Expr* mkSlt(Expr* a, Expr* b) {
  if (a == b) return mkConst(0, 1);
  int w = a->w;
  if (isC(a) && isC(b)) return mkConst(sx(cv(a), w) < sx(cv(b), w), 1);
  auto topKnown = [&](Expr* e, bool& v) { if (isC(e)) { v = (cv(e) >> (w - 1)) & 1; return true; } if (e->op == E_CONCAT && isC(e->a)) { v = (cv(e->a) >> (e->a->w - 1)) & 1; return true; } return false; };
  bool ta, tb; bool ka = topKnown(a, ta), kb = topKnown(b, tb);
  if (ka && kb) { if (ta != tb) return mkConst(ta, 1); return mkUlt(a, b); }
  if (isC(b) && iteConst(a)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (isC(a) && iteConst(b)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
  if (isZero(b)) return mkExtract(a, w - 1, 1);
  if (isOnes(a)) return mkNot(mkExtract(b, w - 1, 1));
  return intern(E_SLT, 1, a, b, 0, 0, 0);
}

// ---- evaluation
void evalBegin() { gGen++; if (gGen == 0) gGen = 1; }
static u128 ev(Expr* e, const Model& m) {
  if (e->op == E_CONST) return cv(e);
  if (e->gen == gGen) return U(e->evlo, e->evhi);
  u128 r;
  switch (e->op) {
    case E_VAR: r = e->lo < m.size() ? (u128)m[e->lo] : 0; break;
    case E_NOT: r = ~ev(e->a, m) & maskw(e->w); break;
    case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case E_EXTRACT: r = (ev(e->a, m) >> (int)e->lo) & maskw(e->w); break;
    case E_SEXT: r = (u128)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    default: r = foldBin(e->op, ev(e->a, m), ev(e->b, m), e->a->w); break;
  }
  e->gen = gGen; e->evlo = (u64)r; e->evhi = (u64)(r >> 64);
  return r;
}
u128 evalIn(Expr* e, const Model& m) { return ev(e, m); }
u128 evalExpr(Expr* e, const Model& m) { evalBegin(); return ev(e, m); }

Expr* substVars(Expr* e, const std::vector<std::pair<u32, u64>>& binds, std::unordered_map<Expr*, Expr*>& memo) {
  if (e->vars->w.empty()) return e;
  bool hit = false;
  for (auto& b : binds) { u32 i = b.first / 64; if (i < e->vars->w.size() && (e->vars->w[i] >> (b.first % 64) & 1)) { hit = true; break; } }
  if (!hit) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr* r = e;
  switch (e->op) {
    case E_VAR: for (auto& b : binds) if (b.first == e->lo) r = mkConst(b.second, e->w); break;
    case E_NOT: r = mkNot(substVars(e->a, binds, memo)); break;
    case E_CONCAT: r = mkConcat(substVars(e->a, binds, memo), substVars(e->b, binds, memo)); break;
    case E_EXTRACT: r = mkExtract(substVars(e->a, binds, memo), (int)e->lo, e->w); break;
    case E_SEXT: r = mkSext(substVars(e->a, binds, memo), e->w); break;
    case E_ITE: { Expr* c = substVars(e->a, binds, memo); if (isC(c)) r = substVars(cv(c) ? e->b : e->c, binds, memo); else r = mkIte(c, substVars(e->b, binds, memo), substVars(e->c, binds, memo)); break; }
    default: r = mkBin(e->op, substVars(e->a, binds, memo), substVars(e->b, binds, memo)); break;
  }
  memo[e] = r; return r;
}
std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const","var","not","and","or","xor","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","concat","extract","sext","ite","eq","ult","slt"};
  if (isC(e)) { char b[64]; snprintf(b, 64, "%llu:%d", (unsigned long long)e->lo, e->w); return b; }
  if (e->op == E_VAR) return gVars[e->lo].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == E_EXTRACT) s += " " + std::to_string(e->lo) + "+" + std::to_string(e->w);
  for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
