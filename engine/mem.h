// Guest memory: flat 64-bit address space, copy-on-write pages with a per-byte symbolic overlay.
#pragma once
#include "expr.h"
static const int PB = 10; static const u64 PS = 1ull << PB;
struct Page { u32 rc; u32 nsym; Expr** sym; u8 d[PS]; };
static inline Page* newPage() { Page* p = (Page*)malloc(sizeof(Page)); p->rc = 1; p->nsym = 0; p->sym = nullptr; memset(p->d, 0, PS); return p; }
static inline void decPage(Page* p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
static inline Page* clonePage(Page* p) {
  Page* q = (Page*)malloc(sizeof(Page)); q->rc = 1; q->nsym = p->nsym; memcpy(q->d, p->d, PS);
  if (p->nsym) { q->sym = (Expr**)malloc(PS * sizeof(Expr*)); memcpy(q->sym, p->sym, PS * sizeof(Expr*)); } else q->sym = nullptr;
  return q;
}
struct Val { Expr* e; u64 lo, hi; };
static inline Val cval(u64 lo, u64 hi = 0) { return Val{nullptr, lo, hi}; }
static inline Val eval2val(Expr* e) { if (isC(e)) return Val{nullptr, e->lo, e->hi}; return Val{e, 0, 0}; }
static inline Expr* toE(const Val& v, int w) { return v.e ? v.e : mkConst(U(v.lo, v.hi), w); }

// regions: 1 globals, 2 heap, 3 stack, 4 functions (not readable)
struct Region { std::vector<Page*> pg; u64 size = 0; };
struct Mem {
  Region r[4];
  Mem() {}
  Mem(const Mem& o) { for (int i = 1; i < 4; i++) { r[i] = o.r[i]; for (Page* p : r[i].pg) if (p) p->rc++; } }
  ~Mem() { for (int i = 1; i < 4; i++) for (Page* p : r[i].pg) decPage(p); }
  inline bool ok(u64 a, u64 n) const { u64 g = a >> 32; if (g < 1 || g > 3) return false; u64 o = a & 0xffffffff; return o + n <= r[g].size; }
  inline Page* rd(u64 a) const { return r[a >> 32].pg[(a & 0xffffffff) >> PB]; }
  inline Page* wr(u64 a) {
    Page*& p = r[a >> 32].pg[(a & 0xffffffff) >> PB];
    if (!p) p = newPage(); else if (p->rc > 1) { Page* q = clonePage(p); p->rc--; p = q; }
    return p;
  }
  void grow(int g, u64 size) { if (size > r[g].size) { r[g].size = size; r[g].pg.resize((size + PS - 1) >> PB, nullptr); } }
  // caller checks ok()
  Val load(u64 a, int n, int w) const { // n bytes (<=16), value of w bits
    u64 o = a & (PS - 1);
    if (o + n <= PS) {
      Page* p = rd(a);
      if (!p) return cval(0);
      bool s = false;
      if (p->nsym) for (int i = 0; i < n; i++) if (p->sym[o + i]) { s = true; break; }
      if (!s) {
        u64 lo = 0, hi = 0;
        if (n <= 8) memcpy(&lo, p->d + o, n); else { memcpy(&lo, p->d + o, 8); memcpy(&hi, p->d + o + 8, n - 8); }
        if (w < 64) lo &= mask64(w); else if (w > 64 && w < 128) hi &= mask64(w - 64);
        return cval(lo, hi);
      }
    }
    Expr* e = nullptr;
    for (int i = 0; i < n; i++) { Expr* b = byteE(a + i); e = e ? mkConcat(b, e) : b; }
    if (e->w > w) e = mkExtract(e, 0, w);
    return eval2val(e);
  }
  Expr* byteE(u64 a) const { Page* p = rd(a); u64 o = a & (PS - 1); if (!p) return mkConst(0, 8); if (p->nsym && p->sym[o]) return p->sym[o]; return mkConst(p->d[o], 8); }
  void storeByte(u64 a, Expr* b) {
    Page* p = wr(a); u64 o = a & (PS - 1);
    if (isC(b)) { p->d[o] = (u8)b->lo; if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } return; }
    if (!p->sym) p->sym = (Expr**)calloc(PS, sizeof(Expr*));
    if (!p->sym[o]) p->nsym++;
    p->sym[o] = b;
  }
  void store(u64 a, int n, int w, const Val& v) {
    u64 o = a & (PS - 1);
    if (!v.e && o + n <= PS) {
      Page* p = wr(a);
      if (n <= 8) memcpy(p->d + o, &v.lo, n); else { memcpy(p->d + o, &v.lo, 8); memcpy(p->d + o + 8, &v.hi, n - 8); }
      if (p->nsym) for (int i = 0; i < n; i++) if (p->sym[o + i]) { p->sym[o + i] = nullptr; p->nsym--; }
      return;
    }
    Expr* e = toE(v, w); if (e->w < n * 8) e = mkZext(e, n * 8);
    for (int i = 0; i < n; i++) storeByte(a + i, mkExtract(e, i * 8, 8));
  }
  void copy(u64 d, u64 s, u64 n) { // memmove
    if (n == 0 || d == s) return;
    bool back = d > s && d < s + n;
    if (back) { // go through a temporary
      std::vector<Expr*> t(n, nullptr); std::vector<u8> b(n);
      for (u64 i = 0; i < n; i++) { Page* p = rd(s + i); u64 o = (s + i) & (PS - 1); b[i] = p ? p->d[o] : 0; if (p && p->nsym) t[i] = p->sym[o]; }
      for (u64 i = 0; i < n; i++) { if (t[i]) storeByte(d + i, t[i]); else { Page* p = wr(d + i); u64 o = (d + i) & (PS - 1); p->d[o] = b[i]; if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } } }
      return;
    }
    while (n) {
      u64 so = s & (PS - 1), dof = d & (PS - 1); u64 k = std::min(n, std::min(PS - so, PS - dof));
      Page* q = wr(d); Page* p = rd(s); // wr first: may reallocate the same page
      if (!p) { memset(q->d + dof, 0, k); } else memmove(q->d + dof, p->d + so, k);
      bool ss = p && p->nsym;
      if (ss) for (u64 i = 0; i < k; i++) {
        Expr* e = p->sym[so + i];
        if (e) { if (!q->sym) q->sym = (Expr**)calloc(PS, sizeof(Expr*)); if (!q->sym[dof + i]) q->nsym++; q->sym[dof + i] = e; }
        else if (q->nsym && q->sym[dof + i]) { q->sym[dof + i] = nullptr; q->nsym--; }
      } else if (q->nsym) for (u64 i = 0; i < k; i++) if (q->sym[dof + i]) { q->sym[dof + i] = nullptr; q->nsym--; }
      s += k; d += k; n -= k;
    }
  }
  void fill(u64 d, const Val& v, u64 n) {
    if (v.e) { for (u64 i = 0; i < n; i++) storeByte(d + i, v.e); return; }
    while (n) {
      u64 o = d & (PS - 1), k = std::min(n, PS - o); if (!(u8)v.lo && !rd(d)) { d += k; n -= k; continue; }
      if (!(u8)v.lo && k == PS) { Page*& p = r[d >> 32].pg[(d & 0xffffffff) >> PB]; decPage(p); p = nullptr; d += k; n -= k; continue; }
      Page* q = wr(d); memset(q->d + o, (int)v.lo, k);
      if (q->nsym) for (u64 i = 0; i < k; i++) if (q->sym[o + i]) { q->sym[o + i] = nullptr; q->nsym--; }
      d += k; n -= k;
    }
  }
};
