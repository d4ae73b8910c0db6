// Environment model: identity "zstd" codec honouring the zstd stream contract, deterministic clock/randomness.
// Linked into the symbolic program; also linked into the native "model" replay build (VF_NATIVE).
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
typedef struct { const void *src; size_t size, pos; } InB;
typedef struct { void *dst; size_t size, pos; } OutB;
#ifndef VF_NATIVE
extern uint64_t vf_param(const char *n, size_t len, uint64_t dflt);
#else
uint64_t vf_cparam(const char *n, uint64_t dflt);
static uint64_t vf_param(const char *n, size_t len, uint64_t dflt) { (void)len; return vf_cparam(n, dflt); }
#endif
#define ERR(k) ((size_t)-(k))
// frame: 28 B5 2F FD, then blocks [len:2 LE, last:1][bytes]
typedef struct { uint8_t *out; size_t outLen, outCap, outPos; uint8_t *pend; size_t pendLen, pendCap; size_t block; int started, small; } CC;
static void outb(CC *c, const void *p, size_t n) { if (c->outLen + n > c->outCap) { c->outCap = (c->outLen + n) * 2 + 64; c->out = realloc(c->out, c->outCap); } memcpy(c->out + c->outLen, p, n); c->outLen += n; }
static void start(CC *c) { if (!c->started) { uint8_t m[4] = {0x28, 0xb5, 0x2f, 0xfd}; outb(c, m, 4); c->started = 1; } }
// with zstd_ratio = 1 blocks of more than 2 bytes are replaced by a 2 byte handle of a table, so that blocks get smaller whatever they contain
static struct { uint8_t *p; size_t n; } vf_tab[4096]; static unsigned vf_ntab;
static void blk(CC *c, size_t n, int last) { uint8_t h[5]; h[0] = n & 255; h[1] = n >> 8; h[2] = last; start(c);
  if (c->small && n > 2 && vf_ntab < 4096) { vf_tab[vf_ntab].p = malloc(n); memcpy(vf_tab[vf_ntab].p, c->pend, n); vf_tab[vf_ntab].n = n; h[2] = last | 2; h[3] = vf_ntab & 255; h[4] = vf_ntab >> 8; vf_ntab++; outb(c, h, 5); }
  else { outb(c, h, 3); outb(c, c->pend, n); } memmove(c->pend, c->pend + n, c->pendLen - n); c->pendLen -= n; }
static void drain(CC *c, OutB *o) { size_t n = c->outLen - c->outPos; if (n > o->size - o->pos) n = o->size - o->pos; if (n) memcpy((uint8_t *)o->dst + o->pos, c->out + c->outPos, n); o->pos += n; c->outPos += n; if (c->outPos == c->outLen) c->outPos = c->outLen = 0; }
void *ZSTD_createCCtx(void) { CC *c = calloc(1, sizeof(CC)); c->pendCap = 64; c->pend = malloc(64); c->outCap = 64; c->out = malloc(64); c->block = vf_param("zstd_block", 10, 32768); c->small = vf_param("zstd_ratio", 10, 0) == 1; return c; }
size_t ZSTD_freeCCtx(void *p) { CC *c = p; if (c) { free(c->out); free(c->pend); free(c); } return 0; }
size_t ZSTD_CCtx_reset(void *p, int d) { CC *c = p; (void)d; c->outLen = c->outPos = c->pendLen = 0; c->started = 0; return 0; }
size_t ZSTD_CCtx_setParameter(void *p, int k, int v) { (void)p; (void)k; (void)v; return 0; }
size_t ZSTD_CCtx_loadDictionary(void *p, const void *d, size_t n) { (void)p; (void)d; (void)n; return 0; }
size_t ZSTD_CCtx_setPledgedSrcSize(void *p, unsigned long long n) { (void)p; (void)n; return 0; }
size_t ZSTD_compressStream(void *p, OutB *o, InB *i) {
  CC *c = p; size_t n = i->size - i->pos;
  if (c->pendLen + n > c->pendCap) { c->pendCap = (c->pendLen + n) * 2; c->pend = realloc(c->pend, c->pendCap); }
  memcpy(c->pend + c->pendLen, (const uint8_t *)i->src + i->pos, n); c->pendLen += n; i->pos += n;
  while (c->pendLen > c->block) blk(c, c->block, 0);
  drain(c, o); return 1;
}
size_t ZSTD_flushStream(void *p, OutB *o) { CC *c = p; if (c->pendLen) blk(c, c->pendLen, 0); drain(c, o); return c->outLen - c->outPos; }
size_t ZSTD_endStream(void *p, OutB *o) { CC *c = p; if (c->started != 2) { while (c->pendLen > 65535) blk(c, 65535, 0); blk(c, c->pendLen, 1); c->started = 2; } drain(c, o); return c->outLen - c->outPos; }
void *ZSTD_createDCtx(void) { return calloc(1, 16); }
size_t ZSTD_freeDCtx(void *p) { free(p); return 0; }
unsigned ZSTD_isError(size_t c) { return c > ERR(120); }
const char *ZSTD_getErrorName(size_t c) { (void)c; return "zstd model error"; }
size_t ZSTD_decompress_usingDict(void *d, void *dst, size_t cap, const void *src, size_t n, const void *dict, size_t dn) {
  (void)d; (void)dict; (void)dn; const uint8_t *s = src; size_t pos = 0, out = 0;
  while (pos < n) {
    if (n - pos < 4 || s[pos] != 0x28 || s[pos + 1] != 0xb5 || s[pos + 2] != 0x2f || s[pos + 3] != 0xfd) return n - pos < 4 ? ERR(72) : ERR(10);
    pos += 4;
    for (;;) {
      if (n - pos < 3) return ERR(72);
      size_t l = s[pos] | (size_t)s[pos + 1] << 8; int last = s[pos + 2]; pos += 3;
      if (last > 1) {
        if (last > 3 || !vf_ntab) return ERR(20);
        if (n - pos < 2) return ERR(72);
        unsigned k = s[pos] | s[pos + 1] << 8; pos += 2; if (k >= vf_ntab || vf_tab[k].n != l) return ERR(20);
        if (l > cap - out) return ERR(70);
        memcpy((uint8_t *)dst + out, vf_tab[k].p, l); out += l; last &= 1; if (last) break; continue;
      }
      if (l > n - pos) return ERR(20);
      if (l > cap - out) return ERR(70);
      memcpy((uint8_t *)dst + out, s + pos, l); out += l; pos += l;
      if (last) break;
    }
  }
  return out;
}
unsigned long long ZSTD_decompressBound(const void *src, size_t n) { const uint8_t *s = src; if (!vf_ntab) return n;
  size_t pos = 0, r = 0; int first = 1; while (pos + 3 <= n) { if (first) { pos += 4; first = 0; continue; } size_t l = s[pos] | (size_t)s[pos + 1] << 8; int f = s[pos + 2]; r += l; pos += 3 + (f & 2 ? 2 : l); first = f & 1; } return r; }
size_t ZSTD_CStreamOutSize(void) { return 131591; }
size_t ZSTD_CStreamInSize(void) { return 131072; }
#ifndef VF_NATIVE
static long vf_ticks;
struct ts { long s, ns; };
int clock_gettime(int c, struct ts *t) { (void)c; vf_ticks++; t->s = 1000 + vf_ticks; t->ns = 0; return 0; }
char *getenv(const char *n) { (void)n; return 0; }
static __thread int vf_errno; int *__errno_location(void) { return &vf_errno; }
extern long vf_futex_wait(uint64_t addr, uint64_t val); extern long vf_futex_wake(uint64_t addr, uint64_t n);
long syscall(long nr, uint64_t a, uint64_t b, uint64_t c) {
  if (nr == 202) { b &= 127; if (b == 0 || b == 9) return vf_futex_wait(a, c); if (b == 1 || b == 10) return vf_futex_wake(a, c); return -1; }
  if (nr == 318) { uint8_t *p = (uint8_t *)a; for (uint64_t i = 0; i < b; i++) p[i] = (uint8_t)(0x5a + 37 * i); return (long)b; }
  (void)c; return -1;
}
long getrandom(void *a, size_t b, unsigned f) { (void)f; return syscall(318, (uint64_t)a, b, 0); }
void *dlsym(void *h, const char *n) { (void)h; (void)n; return 0; }
static unsigned vf_nkeys = 1; static __thread void *vf_keys[64];
int pthread_key_create(unsigned *k, void *d) { (void)d; *k = vf_nkeys++; return 0; }
int pthread_key_delete(unsigned k) { (void)k; return 0; }
void *pthread_getspecific(unsigned k) { return vf_keys[k & 63]; }
int pthread_setspecific(unsigned k, const void *v) { vf_keys[k & 63] = (void *)v; return 0; }
int pthread_attr_init(void *a) { (void)a; return 0; }
int pthread_attr_destroy(void *a) { (void)a; return 0; }
int pthread_attr_setstacksize(void *a, size_t n) { (void)a; (void)n; return 0; }
int pthread_getattr_np(uint64_t t, void *a) { (void)t; (void)a; return 1; }
int pthread_detach(uint64_t t) { (void)t; return 0; }
int pthread_setname_np(uint64_t t, const char *n) { (void)t; (void)n; return 0; }
int prctl(int o, ...) { (void)o; return 0; }
int open64(const char *p, int f, ...) { (void)p; (void)f; vf_errno = 2; return -1; }
int sched_getaffinity(int p, size_t n, void *m) { (void)p; (void)n; (void)m; return -1; }
long sysconf(int n) { (void)n; return 4096; }
#endif
