#include "expr.h"
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdio>

std::vector<VarInfo> g_vars;
static Expr **g_tab; static size_t g_cap, g_n;
static uint32_t g_id;
static char *pool; static size_t pool_left;
size_t exprCount() { return g_n; }

static inline uint32_t mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return (uint32_t)(h ^ (h >> 32)); }
static void grow() {
  size_t nc = g_cap ? g_cap * 2 : (1 << 16);
  Expr **nt = (Expr **)calloc(nc, sizeof(Expr *));
  for (size_t i = 0; i < g_cap; i++) if (g_tab[i]) { size_t j = g_tab[i]->hash & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = g_tab[i]; }
  free(g_tab); g_tab = nt; g_cap = nc;
}
static Expr *intern(Kind k, unsigned w, Expr *a, Expr *b, Expr *c, u64 lo, u64 hi) {
  if (g_n * 2 >= g_cap) grow();
  uint32_t h = mix(mix(mix(mix(mix(mix(k * 131 + w, a ? a->id + 1 : 0), b ? b->id + 1 : 0), c ? c->id + 1 : 0), lo), hi), 7);
  size_t j = h & (g_cap - 1);
  for (; g_tab[j]; j = (j + 1) & (g_cap - 1)) {
    Expr *e = g_tab[j];
    if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->lo == lo && e->hi == hi) return e;
  }
  if (pool_left < sizeof(Expr)) { pool_left = 1 << 20; pool = (char *)malloc(pool_left); }
  Expr *e = (Expr *)pool; pool += sizeof(Expr); pool_left -= sizeof(Expr);
  memset(e, 0, sizeof *e);
  e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi; e->hash = h; e->id = ++g_id;
  e->fp = (k >= K_FADD) || (a && a->fp) || (b && b->fp) || (c && c->fp);
  g_tab[j] = e; g_n++;
  return e;
}
Expr *mkC(u128 v, unsigned w) { v &= maskw(w); return intern(K_CONST, w, 0, 0, 0, (u64)v, (u64)(v >> 64)); }
Expr *mkVar(unsigned w, const std::string &name) {
  u64 ix = g_vars.size();
  Expr *e = intern(K_VAR, w, 0, 0, 0, ix, 0);
  g_vars.push_back({name, w, e});
  return e;
}

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (k) {
  case K_ADD: return (a + b) & m;
  case K_SUB: return (a - b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b == 0 ? m : a / b;
  case K_UREM: return b == 0 ? a : a % b;
  case K_SDIV: { s128 x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? (u128)1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case K_SREM: { s128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case K_ASHR: { s128 x = sx(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : x >> (unsigned)b) & m; }
  default: abort();
  }
}
bool foldCmp(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (k) {
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_ULE: return a <= b;
  case K_SLT: return sx(a, w) < sx(b, w);
  case K_SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 ofD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { uint32_t u = v; float d; memcpy(&d, &u, 4); return d; }
static u64 ofF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
u128 foldF(Kind k, unsigned w, u128 a, unsigned wa, u128 b, unsigned mode) {
  switch (k) {
  case K_FADD: return w == 64 ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
  case K_FSUB: return w == 64 ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
  case K_FMUL: return w == 64 ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
  case K_FDIV: return w == 64 ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
  case K_FREM: return w == 64 ? ofD(fmod(asD(a), asD(b))) : ofF(fmodf(asF(a), asF(b)));
  case K_FSQRT: return w == 64 ? ofD(sqrt(asD(a))) : ofF(sqrtf(asF(a)));
  case K_FRINT: {
    double d = wa == 64 ? asD(a) : asF(a), r;
    switch (mode) { case 0: r = trunc(d); break; case 1: r = floor(d); break; case 2: r = ceil(d); break; case 3: r = round(d); break; default: r = nearbyint(d); break; }
    return w == 64 ? ofD(r) : ofF((float)r); }
  case K_F2S: { double d = wa == 64 ? asD(a) : asF(a); // out of range -> "integer indefinite" by width
    if (w > 64) abort();
    if (!(d >= -ldexp(1, w - 1) - (w < 53 ? 0.99999 : 0) && d < ldexp(1, w - 1))) { double t = trunc(d); if (!(t >= -ldexp(1, w-1) && t < ldexp(1, w-1))) return ((u128)1 << (w - 1)); }
    return (u128)(s128)(int64_t)d & maskw(w); }
  case K_F2U: { double d = wa == 64 ? asD(a) : asF(a); double t = trunc(d);
    if (!(t >= 0 && t < ldexp(1, w))) return maskw(w); return (u128)(u64)t & maskw(w); }
  case K_S2F: { s128 v = sx(a, wa); return w == 64 ? ofD((double)(int64_t)v) : ofF((float)(int64_t)v); }
  case K_U2F: { u64 v = (u64)(a & maskw(wa)); return w == 64 ? ofD((double)v) : ofF((float)v); }
  case K_FEXT: return ofD((double)asF(a));
  case K_FTRUNC: return ofF((float)asD(a));
  default: abort();
  }
}

static inline bool isNegC(Expr *e, u128 &v) { if (isC(e)) { v = cval(e); return true; } return false; }

Expr *mkNot(Expr *a) {
  if (isC(a)) return mkC(!cval(a), 1);
  if (a->k == K_XOR && isCv(a->b, 1) && a->w == 1) return a->a;
  if (a->k == K_ULT) return mkCmp(K_ULE, a->b, a->a);
  if (a->k == K_ULE) return mkCmp(K_ULT, a->b, a->a);
  if (a->k == K_SLT) return mkCmp(K_SLE, a->b, a->a);
  if (a->k == K_SLE) return mkCmp(K_SLT, a->b, a->a);
  return intern(K_XOR, 1, a, mkC(1, 1), 0, 0, 0);
}
Expr *mkAnd1(Expr *a, Expr *b) { return mkBin(K_AND, a, b); }
Expr *mkOr1(Expr *a, Expr *b) { return mkBin(K_OR, a, b); }

// number of low bits known zero
// memo of the recursive simplifications (direct mapped; expressions live forever)
struct Memo { Expr *a, *b; uint32_t x; Expr *r; }; static Memo g_memo[1 << 16];
static inline Memo &memo(Expr *a, Expr *b, uint32_t x) { return g_memo[mix(mix(a->id, b ? b->id : 0), x) & 0xffff]; }
static unsigned ktz0(Expr *e);
unsigned knownTrailingZeros(Expr *e) {
  if (e->k == K_CONST || e->k == K_VAR) return ktz0(e);
  Memo &m = memo(e, 0, 0x80000000u); if (m.a == e && m.x == 0x80000000u) return (unsigned)(uintptr_t)m.r;
  unsigned n = ktz0(e); m = {e, 0, 0x80000000u, (Expr *)(uintptr_t)n}; return n;
}
static unsigned ktz0(Expr *e) {
  switch (e->k) {
  case K_CONST: { u128 v = cval(e); if (!v) return e->w; unsigned n = 0; while (!(v & 1)) { v >>= 1; n++; } return n; }
  case K_SHL: if (isC(e->b)) { unsigned n = knownTrailingZeros(e->a) + (unsigned)cval(e->b); return n > e->w ? e->w : n; } return knownTrailingZeros(e->a);
  case K_MUL: { unsigned n = knownTrailingZeros(e->a) + knownTrailingZeros(e->b); return n > e->w ? e->w : n; }
  case K_ADD: case K_SUB: case K_OR: case K_XOR: { unsigned x = knownTrailingZeros(e->a), y = knownTrailingZeros(e->b); return x < y ? x : y; }
  case K_AND: { unsigned x = knownTrailingZeros(e->a), y = knownTrailingZeros(e->b); return x > y ? x : y; }
  case K_ZEXT: case K_SEXT: { unsigned n = knownTrailingZeros(e->a); return n == e->a->w ? e->w : n; }
  case K_ITE: { unsigned x = knownTrailingZeros(e->b), y = knownTrailingZeros(e->c); return x < y ? x : y; }
  case K_CONCAT: { unsigned n = knownTrailingZeros(e->b); return n == e->b->w ? n + knownTrailingZeros(e->a) : n; }
  default: return 0;
  }
}
// unsigned upper bound (cheap)
static u128 ubound(Expr *e, int depth = 6) {
  u128 m = maskw(e->w);
  if (depth == 0) return m;
  switch (e->k) {
  case K_CONST: return cval(e);
  case K_ZEXT: return ubound(e->a, depth - 1);
  case K_AND: { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); return x < y ? x : y; }
  case K_ITE: { u128 x = ubound(e->b, depth - 1), y = ubound(e->c, depth - 1); return x > y ? x : y; }
  case K_UREM: if (isC(e->b) && cval(e->b)) return cval(e->b) - 1; return m;
  case K_UDIV: if (isC(e->b) && cval(e->b)) return ubound(e->a, depth - 1) / cval(e->b); return m;
  case K_LSHR: if (isC(e->b)) { u128 s = cval(e->b); return s >= e->w ? 0 : ubound(e->a, depth - 1) >> (unsigned)s; } return ubound(e->a, depth - 1);
  case K_OR: case K_XOR: { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); u128 z = x | y; // round up to mask
      unsigned n = 0; while (n < 128 && (z >> n)) n++; return maskw(n) & m; }
  case K_ADD: { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); u128 s = x + y; if (s < x || s > m) return m; return s; }
  case K_SHL: if (isC(e->b)) { u128 x = ubound(e->a, depth - 1); unsigned s = (unsigned)cval(e->b); if (s < e->w && x <= (m >> s)) return x << s; } return m;
  case K_MUL: { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); if (x == 0 || y == 0) return 0; if (x <= m / y) return x * y; return m; }
  case K_CONCAT: return (ubound(e->a, depth - 1) << e->b->w) | maskw(e->b->w);
  case K_EXTRACT: if (e->lo == 0) { u128 x = ubound(e->a, depth - 1); return x < m ? x : m; } else { u128 x = ubound(e->a, depth - 1) >> e->lo; return x < m ? x : m; }
  default: return m;
  }
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "symx: width mismatch %d %d kind %d\n", a->w, b->w, k); abort(); }
  if (isC(a) && isC(b)) return mkC(foldBin(k, cval(a), cval(b), w), w);
  u128 m = maskw(w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) { Expr *t = a; a = b; b = t; } }
  if (w == 1) { // boolean specials
    if (k == K_ADD || k == K_SUB) return mkBin(K_XOR, a, b);
    if (k == K_MUL) return mkBin(K_AND, a, b);
  }
  switch (k) {
  case K_ADD:
    if (isC(b)) {
      u128 cb = cval(b);
      if (cb == 0) return a;
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkC(cval(a->b) + cb, w));
      if (a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkC(cval(a->a) + cb, w), a->b);
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkC(cval(a->b) + cb, w), mkC(cval(a->c) + cb, w));
    } else {
      // pull constants out:  (x+c)+y -> (x+y)+c
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (a == b) return mkBin(K_SHL, a, mkC(1, w));
      if (b->k == K_SUB && b->b == a) return b->a; // a + (x - a)
      if (a->k == K_SUB && a->b == b) return a->a;
      if (b->k == K_SUB && isCv(b->a, 0)) return mkBin(K_SUB, a, b->b);
      if (a->k == K_SUB && isCv(a->a, 0)) return mkBin(K_SUB, b, a->b);
      // disjoint bits: zext-or-concat merge
      if (a->k == K_SHL && isC(a->b) && b->k == K_ZEXT && cval(a->b) >= b->a->w) return mkBin(K_OR, a, b);
      if (b->k == K_SHL && isC(b->b) && a->k == K_ZEXT && cval(b->b) >= a->a->w) return mkBin(K_OR, a, b);
    }
    break;
  case K_SUB:
    if (a == b) return mkC(0, w);
    if (isC(b)) return mkBin(K_ADD, a, mkC(0 - cval(b), w));
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkC(0 - cval(b->b), w));
    if (a->k == K_ADD && isC(a->b)) { if (!isC(a->a)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b); }
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b == b) return a->a;
    if (b->k == K_SUB && isCv(b->a, 0)) return mkBin(K_ADD, a, b->b);
    if (b->k == K_SUB && b->a == a) return b->b;
    if (isCv(a, 0) && b->k == K_SUB) return mkBin(K_SUB, b->b, b->a);
    break;
  case K_MUL:
    if (isC(b)) {
      u128 cb = cval(b);
      if (cb == 0) return b;
      if (cb == 1) return a;
      if (cb == m) return mkBin(K_SUB, mkC(0, w), a);
      if ((cb & (cb - 1)) == 0) { unsigned n = 0; while (!((cb >> n) & 1)) n++; return mkBin(K_SHL, a, mkC(n, w)); }
      if (a->k == K_MUL && isC(a->b)) return mkBin(K_MUL, a->a, mkC(cval(a->b) * cb, w));
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_MUL, a->a, b), mkC(cval(a->b) * cb, w));
      if (a->k == K_SHL && isC(a->b)) return mkBin(K_MUL, a->a, mkC(cb << (unsigned)cval(a->b), w));
      if (a->k == K_SUB && isCv(a->a, 0)) return mkBin(K_MUL, a->b, mkC(0 - cb, w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkC(cval(a->b) * cb, w), mkC(cval(a->c) * cb, w));
    } else {
      if (a->k == K_SHL && isC(a->b)) return mkBin(K_SHL, mkBin(K_MUL, a->a, b), a->b);
      if (b->k == K_SHL && isC(b->b)) return mkBin(K_SHL, mkBin(K_MUL, a, b->a), b->b);
      if (a->k == K_SUB && isCv(a->a, 0)) return mkBin(K_SUB, mkC(0, w), mkBin(K_MUL, a->b, b));
      if (b->k == K_SUB && isCv(b->a, 0)) return mkBin(K_SUB, mkC(0, w), mkBin(K_MUL, a, b->b));
    }
    break;
  case K_UDIV:
    if (isCv(b, 1)) return a;
    if (isC(b) && cval(b)) { u128 cb = cval(b); if ((cb & (cb - 1)) == 0) { unsigned n = 0; while (!((cb >> n) & 1)) n++; return mkBin(K_LSHR, a, mkC(n, w)); }
      if (ubound(a) < cb) return mkC(0, w);
      if (a->k == K_ZEXT && cb <= maskw(a->a->w)) return mkZext(mkBin(K_UDIV, a->a, mkC(cb, a->a->w)), w); }
    break;
  case K_UREM:
    if (isCv(b, 1)) return mkC(0, w);
    if (isC(b) && cval(b)) { u128 cb = cval(b); if ((cb & (cb - 1)) == 0) return mkBin(K_AND, a, mkC(cb - 1, w));
      if (ubound(a) < cb) return a;
      if (a->k == K_ZEXT && cb <= maskw(a->a->w)) return mkZext(mkBin(K_UREM, a->a, mkC(cb, a->a->w)), w); }
    break;
  case K_SDIV:
    if (isCv(b, 1)) return a;
    if (isCv(b, m)) return mkBin(K_SUB, mkC(0, w), a);
    break;
  case K_SREM:
    if (isCv(b, 1) || isCv(b, m)) return mkC(0, w);
    break;
  case K_AND:
    if (a == b) return a;
    if (isC(b)) {
      u128 cb = cval(b);
      if (cb == 0) return b;
      if (cb == m) return a;
      if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkC(cval(a->b) & cb, w));
      if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(K_AND, a->b, b), mkBin(K_AND, a->c, b));
      if ((cb & (cb + 1)) == 0) { unsigned n = 0; while ((cb >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
      if (a->k == K_ZEXT) return mkZext(mkBin(K_AND, a->a, mkC(cb, a->a->w)), w);
      // mask with trailing zeros: if high part full ones
      if (a->k == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkC(cb >> a->b->w, a->a->w)), mkBin(K_AND, a->b, mkC(cb, a->b->w)));
      if ((a->k == K_OR || a->k == K_XOR) && isC(a->b)) return mkBin(a->k, mkBin(K_AND, a->a, b), mkC(cval(a->b) & cb, w));
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkBin(K_AND, a->a, b->a), w);
      if (w == 1) {
        if (a == mkNot(b)) return mkC(0, 1);
        if (a->k == K_AND && (a->a == b || a->b == b)) return a;
        if (b->k == K_AND && (b->a == a || b->b == a)) return b;
      }
    }
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b)) {
      u128 cb = cval(b);
      if (cb == 0) return a;
      if (cb == m) return b;
      if (a->k == K_OR && isC(a->b)) return mkBin(K_OR, a->a, mkC(cval(a->b) | cb, w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkC(cval(a->b) | cb, w), mkC(cval(a->c) | cb, w));
      if (a->k == K_CONCAT) return mkConcat(mkBin(K_OR, a->a, mkC(cb >> a->b->w, a->a->w)), mkBin(K_OR, a->b, mkC(cb, a->b->w)));
      if (a->k == K_ZEXT) return mkConcat(mkC(cb >> a->a->w, w - a->a->w), mkBin(K_OR, a->a, mkC(cb, a->a->w)));
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkBin(K_OR, a->a, b->a), w);
      if (w == 1) {
        if (a == mkNot(b)) return mkC(1, 1);
        if (a->k == K_OR && (a->a == b || a->b == b)) return a;
        if (b->k == K_OR && (b->a == a || b->b == a)) return b;
      }
      // (x << n) | zext(y) with y->w <= n  ==> concat
      for (int sw = 0; sw < 2; sw++) {
        Expr *x = sw ? b : a, *y = sw ? a : b;
        if (x->k == K_SHL && isC(x->b) && y->k == K_ZEXT) {
          unsigned n = (unsigned)cval(x->b);
          if (n < w && y->a->w <= n) return mkConcat(mkExtract(x->a, 0, w - n), mkZext(y->a, n));
        }
        if (x->k == K_CONCAT && isCv(x->b, 0) && y->k == K_ZEXT && y->a->w <= x->b->w) return mkConcat(x->a, mkZext(y->a, x->b->w));
        if (x->k == K_CONCAT && y->k == K_CONCAT && x->b->w == y->b->w) return mkConcat(mkBin(K_OR, x->a, y->a), mkBin(K_OR, x->b, y->b));
        if (x->k == K_CONCAT && y->k == K_ZEXT && y->a->w <= x->b->w) return mkConcat(x->a, mkBin(K_OR, x->b, mkZext(y->a, x->b->w)));
      }
    }
    break;
  case K_XOR:
    if (a == b) return mkC(0, w);
    if (isC(b)) {
      u128 cb = cval(b);
      if (cb == 0) return a;
      if (w == 1) return mkNot(a);
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkC(cval(a->b) ^ cb, w));
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkC(cval(a->b) ^ cb, w), mkC(cval(a->c) ^ cb, w));
      if (a->k == K_ZEXT) { if ((cb >> a->a->w) == 0) return mkZext(mkBin(K_XOR, a->a, mkC(cb, a->a->w)), w); }
      if (a->k == K_SEXT && cb == m) return mkSext(mkBin(K_XOR, a->a, mkC(cb, a->a->w)), w);
      if (a->k == K_CONCAT) return mkConcat(mkBin(K_XOR, a->a, mkC(cb >> a->b->w, a->a->w)), mkBin(K_XOR, a->b, mkC(cb, a->b->w)));
      // ~(x + c) == -x -1 -c ; leave
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkBin(K_XOR, a->a, b->a), w);
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, mkBin(K_XOR, a->a, b), a->b);
      if (b->k == K_XOR && isC(b->b)) return mkBin(K_XOR, mkBin(K_XOR, a, b->a), b->b);
      if (a->k == K_XOR && a->a == b) return a->b;
      if (a->k == K_XOR && a->b == b) return a->a;
      if (b->k == K_XOR && b->a == a) return b->b;
      if (b->k == K_XOR && b->b == a) return b->a;
    }
    break;
  case K_SHL:
    if (isC(b)) {
      u128 n = cval(b);
      if (n == 0) return a;
      if (n >= w) return mkC(0, w);
      if (a->k == K_SHL && isC(a->b)) { u128 t = n + cval(a->b); return t >= w ? mkC(0, w) : mkBin(K_SHL, a->a, mkC(t, w)); }
      if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(K_SHL, a->b, b), mkBin(K_SHL, a->c, b));
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SHL, a->a, b), mkBin(K_SHL, a->b, b));
      // shl(zext(x)) where nothing is lost : keep
    }
    if (isCv(a, 0)) return a;
    break;
  case K_LSHR:
    if (isC(b)) {
      u128 n = cval(b);
      if (n == 0) return a;
      if (n >= w) return mkC(0, w);
      return mkZext(mkExtract(a, (unsigned)n, w - (unsigned)n), w);
    }
    if (isCv(a, 0)) return a;
    break;
  case K_ASHR:
    if (isC(b)) {
      u128 n = cval(b);
      if (n == 0) return a;
      if (n >= w) n = w - 1;
      return mkSext(mkExtract(a, (unsigned)n, w - (unsigned)n), w);
    }
    if (isCv(a, 0)) return a;
    break;
  default: break;
  }
  if (comm && !isC(b) && a->id > b->id) { Expr *t = a; a = b; b = t; }
  // narrow sdiv/udiv/... of extended operands where it is exact
  return intern(k, w, a, b, 0, 0, 0);
}

Expr *mkCmp(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "symx: cmp width mismatch\n"); abort(); }
  if (isC(a) && isC(b)) return mkC(foldCmp(k, cval(a), cval(b), w), 1);
  if (a == b) return mkC(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  u128 m = maskw(w);
  if (k == K_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) { Expr *t = a; a = b; b = t; }
    if (w == 1) { if (isC(b)) return cval(b) ? a : mkNot(a); }
    if (isC(b)) {
      u128 cb = cval(b);
      switch (a->k) {
      case K_ZEXT: if (cb >> a->a->w) return mkC(0, 1); return mkCmp(K_EQ, a->a, mkC(cb, a->a->w));
      case K_SEXT: if ((u128)sx(cb & maskw(a->a->w), a->a->w) != (u128)sx(cb, w)) return mkC(0, 1); return mkCmp(K_EQ, a->a, mkC(cb, a->a->w));
      case K_ITE:
        if (isC(a->b) || isC(a->c)) {
          Expr *x = mkCmp(K_EQ, a->b, b), *y = mkCmp(K_EQ, a->c, b);
          if (isC(x) || isC(y)) return mkIte(a->a, x, y);
        }
        break;
      case K_ADD: if (isC(a->b)) return mkCmp(K_EQ, a->a, mkC(cb - cval(a->b), w)); break;
      case K_SUB: if (cb == 0) return mkCmp(K_EQ, a->a, a->b); if (isC(a->a)) return mkCmp(K_EQ, a->b, mkC(cval(a->a) - cb, w)); break;
      case K_XOR: if (cb == 0) return mkCmp(K_EQ, a->a, a->b); if (isC(a->b)) return mkCmp(K_EQ, a->a, mkC(cb ^ cval(a->b), w)); break;
      case K_CONCAT: return mkBin(K_AND, mkCmp(K_EQ, a->b, mkC(cb, a->b->w)), mkCmp(K_EQ, a->a, mkC(cb >> a->b->w, a->a->w)));
      case K_SHL: if (isC(a->b)) { unsigned n = (unsigned)cval(a->b); if (cb & maskw(n)) return mkC(0, 1); return mkCmp(K_EQ, mkExtract(a->a, 0, w - n), mkC(cb >> n, w - n)); } break;
      default: break;
      }
      if (cb > ubound(a)) return mkC(0, 1);
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; return mkCmp(K_EQ, mkZext(a->a, n), mkZext(b->a, n)); }
      if (a->k == K_SEXT && b->k == K_SEXT) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; return mkCmp(K_EQ, mkSext(a->a, n), mkSext(b->a, n)); }
      if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return mkCmp(K_EQ, a->a, b->a);
      if (a->k == K_ADD && b->k == K_ADD && a->a == b->a) return mkCmp(K_EQ, a->b, b->b);
      if (a->k == K_ADD && (a->a == b)) return mkCmp(K_EQ, a->b, mkC(0, w));
      if (b->k == K_ADD && (b->a == a)) return mkCmp(K_EQ, b->b, mkC(0, w));
      if (a->k == K_ITE && b->k == K_ITE && a->a == b->a) return mkIte(a->a, mkCmp(K_EQ, a->b, b->b), mkCmp(K_EQ, a->c, b->c));
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkBin(K_AND, mkCmp(K_EQ, a->a, b->a), mkCmp(K_EQ, a->b, b->b));
      if (w == 1) { if (a == mkNot(b)) return mkC(0, 1); }
    }
    return intern(K_EQ, 1, a, b, 0, 0, 0);
  }
  if (w == 1) {
    if (k == K_ULT) return mkBin(K_AND, mkNot(a), b);
    if (k == K_ULE) return mkBin(K_OR, mkNot(a), b);
    if (k == K_SLT) return mkBin(K_AND, a, mkNot(b));
    if (k == K_SLE) return mkBin(K_OR, a, mkNot(b));
  }
  u128 smin = (u128)1 << (w - 1), smax = smin - 1;
  switch (k) {
  case K_ULT:
    if (isCv(b, 0)) return mkC(0, 1);
    if (isCv(b, 1)) return mkCmp(K_EQ, a, mkC(0, w));
    if (isCv(a, m)) return mkC(0, 1);
    if (isC(b) && ubound(a) < cval(b)) return mkC(1, 1);
    if (isC(a) && ubound(b) <= cval(a)) return mkC(0, 1);
    if (isCv(a, 0)) return mkNot(mkCmp(K_EQ, b, mkC(0, w)));
    if (isC(a) && b->k == K_CONCAT && isC(b->a)) { unsigned n = b->b->w; u128 h = cval(a) >> n, g = cval(b->a); return h != g ? mkC(h < g, 1) : mkCmp(K_ULT, mkC(cval(a) & maskw(n), n), b->b); }
    if (isC(b) && a->k == K_CONCAT && isC(a->a)) { unsigned n = a->b->w; u128 h = cval(b) >> n, g = cval(a->a); return h != g ? mkC(g < h, 1) : mkCmp(K_ULT, a->b, mkC(cval(b) & maskw(n), n)); }
    break;
  case K_ULE:
    if (isCv(a, 0)) return mkC(1, 1);
    if (isCv(b, m)) return mkC(1, 1);
    if (isCv(b, 0)) return mkCmp(K_EQ, a, b);
    if (isC(b) && ubound(a) <= cval(b)) return mkC(1, 1);
    if (isC(a) && ubound(b) < cval(a)) return mkC(0, 1);
    if (isC(b)) return mkCmp(K_ULT, a, mkC(cval(b) + 1, w));
    if (isC(a)) return mkCmp(K_ULT, mkC(cval(a) - 1, w), b);
    break;
  case K_SLT:
    if (isCv(b, smin)) return mkC(0, 1);
    if (isCv(a, smax)) return mkC(0, 1);
    break;
  case K_SLE:
    if (isCv(a, smin)) return mkC(1, 1);
    if (isCv(b, smax)) return mkC(1, 1);
    if (isC(b)) return mkCmp(K_SLT, a, mkC(cval(b) + 1, w));
    if (isC(a)) return mkCmp(K_SLT, mkC(cval(a) - 1, w), b);
    break;
  default: break;
  }
  bool sg = k == K_SLT || k == K_SLE;
  // narrow
  auto fitsZ = [&](Expr *e, unsigned n) { return (e->k == K_ZEXT && e->a->w <= n) || (isC(e) && (cval(e) >> n) == 0); };
  auto fitsS = [&](Expr *e, unsigned n) { return (e->k == K_SEXT && e->a->w <= n) || (e->k == K_ZEXT && e->a->w < n) || (isC(e) && (u128)sx(cval(e), w) == (u128)sx(cval(e) & maskw(n), n)); };
  {
    unsigned n = 0;
    if (a->k == K_ZEXT || a->k == K_SEXT) n = a->a->w;
    if ((b->k == K_ZEXT || b->k == K_SEXT) && b->a->w > n) n = b->a->w;
    if (n && n < w) {
      if (!sg) {
        if (fitsZ(a, n) && fitsZ(b, n)) return mkCmp(k, mkExtract(a, 0, n), mkExtract(b, 0, n));
        if (fitsS(a, n) && fitsS(b, n) && !isC(a) && !isC(b)) return mkCmp(k, mkExtract(a, 0, n), mkExtract(b, 0, n));
      } else {
        if (fitsZ(a, n) && fitsZ(b, n)) return mkCmp(k == K_SLT ? K_ULT : K_ULE, mkExtract(a, 0, n), mkExtract(b, 0, n));
        if (fitsS(a, n) && fitsS(b, n)) return mkCmp(k, mkExtract(a, 0, n), mkExtract(b, 0, n));
        if (isC(b) && (a->k == K_SEXT || a->k == K_ZEXT)) { // const outside range of extended value
          s128 cb = sx(cval(b), w);
          s128 lo = a->k == K_ZEXT ? 0 : -((s128)1 << (a->a->w - 1)), hi = a->k == K_ZEXT ? (s128)maskw(a->a->w) : ((s128)1 << (a->a->w - 1)) - 1;
          if (k == K_SLT) { if (hi < cb) return mkC(1, 1); if (lo >= cb) return mkC(0, 1); }
        }
        if (isC(a) && (b->k == K_SEXT || b->k == K_ZEXT)) {
          s128 ca = sx(cval(a), w);
          s128 lo = b->k == K_ZEXT ? 0 : -((s128)1 << (b->a->w - 1)), hi = b->k == K_ZEXT ? (s128)maskw(b->a->w) : ((s128)1 << (b->a->w - 1)) - 1;
          if (k == K_SLT) { if (ca < lo) return mkC(1, 1); if (ca >= hi) return mkC(0, 1); }
        }
      }
    }
  }
  if (sg && isC(b) && ubound(a) <= smax) { // a non-negative
    s128 cb = sx(cval(b), w);
    if (cb <= 0) return mkC(0, 1);   // only SLT reaches here
    return mkCmp(K_ULT, a, b);
  }
  if (sg && isC(a) && ubound(b) <= smax) {
    s128 ca = sx(cval(a), w);
    if (ca < 0) return mkC(1, 1);
    return mkCmp(K_ULT, a, b);
  }
  // canonical: prefer extracting sign bit test  slt(x,0)
  if (k == K_SLT && isCv(b, 0)) return mkExtract(a, w - 1, 1);
  if (k == K_SLT && isCv(a, m)) return mkNot(mkExtract(b, w - 1, 1));
  if (a->k == K_ITE && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (b->k == K_ITE && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return intern(k, 1, a, b, 0, 0, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return cval(c) ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && c->w == 1 && isCv(c->b, 1)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return cval(a) ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isC(b)) return cval(b) ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    if (a == c) return mkBin(K_OR, c, b);
    if (b == c) return mkBin(K_AND, c, a);
    if (mkNot(a) == b) return mkNot(mkBin(K_XOR, c, a)) ;
  }
  if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->c);
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZext(mkIte(c, a->a, b->a), a->w);
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSext(mkIte(c, a->a, b->a), a->w);
  // canonical 0/1 -> zext(c), 0/-1 -> sext
  if (isCv(a, 1) && isCv(b, 0)) return mkZext(c, a->w);
  if (isCv(a, 0) && isCv(b, 1)) return mkZext(mkNot(c), a->w);
  if (isCv(a, maskw(a->w)) && isCv(b, 0)) return mkSext(c, a->w);
  if (isCv(a, 0) && isCv(b, maskw(a->w))) return mkSext(mkNot(c), a->w);
  return intern(K_ITE, a->w, c, a, b, 0, 0);
}

Expr *mkConcat(Expr *h, Expr *l) {
  unsigned w = h->w + l->w;
  if (w > 128) { fprintf(stderr, "symx: concat > 128\n"); abort(); }
  if (isC(h) && isC(l)) return mkC((cval(h) << l->w) | cval(l), w);
  if (isCv(h, 0)) return mkZext(l, w);
  if (h->k == K_EXTRACT) {
    if (h->lo >= l->w && mkExtract(h->a, h->lo - l->w, l->w) == l) return mkExtract(h->a, h->lo - l->w, w);
  }
  if (l->k == K_EXTRACT && l->lo + l->w + h->w <= l->a->w) {
    if (mkExtract(l->a, l->lo + l->w, h->w) == h) return mkExtract(l->a, l->lo, w);
  }
  // sign extension reassembly: h == sext(msb(l))
  if (h->k == K_SEXT && h->a->w == 1 && mkExtract(l, l->w - 1, 1) == h->a) return mkSext(l, w);
  if (h->w == 1 && mkExtract(l, l->w - 1, 1) == h) return mkSext(l, w);
  if (l->k == K_CONCAT) { // concat(h, concat(lh, ll)): try merging h with lh
    Expr *t = mkConcat(h, l->a);
    if (t->k != K_CONCAT) return mkConcat(t, l->b);
  }
  if (h->k == K_CONCAT && l->k != K_CONCAT) { // right-assoc
    Expr *t = mkConcat(h->b, l);
    return mkConcat(h->a, t);
  }
  if (h->k == K_ZEXT) return mkZext(mkConcat(h->a, l), w);
  if (h->k == K_SEXT && !(h->a->w == 1)) { Expr *t = mkConcat(h->a, l); return mkSext(t, w); }
  if (h->k == K_ITE && l->k == K_ITE && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
  if (h->k == K_ITE && isC(l) && isC(h->b) && isC(h->c)) return mkIte(h->a, mkConcat(h->b, l), mkConcat(h->c, l));
  return intern(K_CONCAT, w, h, l, 0, 0, 0);
}

static Expr *extract0(Expr *a, unsigned lo, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (a->k != K_ITE && a->k != K_AND && a->k != K_OR && a->k != K_XOR && a->k != K_ADD && a->k != K_SUB && a->k != K_MUL) return extract0(a, lo, w);
  uint32_t x = 1u << 30 | lo << 10 | w; Memo &m = memo(a, 0, x);
  if (m.a == a && !m.b && m.x == x) return m.r;
  Expr *r = extract0(a, lo, w); m = {a, 0, x, r}; return r;
}
static Expr *extract0(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w || w == 0) { fprintf(stderr, "symx: bad extract %u+%u of %u\n", lo, w, a->w); abort(); }
  switch (a->k) {
  case K_CONST: return mkC(cval(a) >> lo, w);
  case K_EXTRACT: return mkExtract(a->a, lo + (unsigned)a->lo, w);
  case K_CONCAT: {
    unsigned lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case K_ZEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo >= iw) return mkC(0, w);
    return mkZext(mkExtract(a->a, lo, iw - lo), w);
  }
  case K_SEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w);
    return mkSext(mkExtract(a->a, iw - 1, 1), w);
  }
  case K_AND: case K_OR: case K_XOR:
    return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_ADD: case K_SUB: case K_MUL:
    if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    if (a->k != K_MUL && knownTrailingZeros(a->a) >= lo && knownTrailingZeros(a->b) >= lo) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case K_SHL:
    if (isC(a->b)) {
      unsigned n = (unsigned)cval(a->b);
      if (lo >= n) return mkExtract(a->a, lo - n, w);
      if (lo + w <= n) return mkC(0, w);
      if (lo == 0) return mkBin(K_SHL, mkExtract(a->a, 0, w), mkC(n, w));
      return mkConcat(mkExtract(a->a, 0, lo + w - n), mkC(0, n - lo));
    }
    break;
  case K_ITE:
    return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  case K_SDIV: case K_SREM: {
    if (lo != 0) break;
    // both operands are sign-extensions of <= w bits
    auto narrow = [&](Expr *e) -> Expr * {
      if (e->k == K_SEXT && e->a->w <= w) return mkSext(e->a, w);
      if (e->k == K_ZEXT && e->a->w < w) return mkZext(e->a, w);
      if (isC(e) && (u128)sx(cval(e), e->w) == (u128)sx(cval(e) & maskw(w), w)) return mkC(cval(e), w);
      return nullptr;
    };
    Expr *x = narrow(a->a), *y = narrow(a->b);
    if (x && y) return mkBin(a->k, x, y);
    break;
  }
  case K_UDIV: case K_UREM: {
    if (lo != 0) break;
    auto narrow = [&](Expr *e) -> Expr * {
      if (e->k == K_ZEXT && e->a->w <= w) return mkZext(e->a, w);
      if (isC(e) && (cval(e) >> w) == 0) return mkC(cval(e), w);
      return nullptr;
    };
    Expr *x = narrow(a->a), *y = narrow(a->b);
    if (x && y) return mkBin(a->k, x, y);
    break;
  }
  default: break;
  }
  return intern(K_EXTRACT, w, a, 0, 0, lo, 0);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC(cval(a), w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) {
    if (!(isCv(a->b, 1) && isCv(a->c, 0))) return mkIte(a->a, mkC(cval(a->b), w), mkC(cval(a->c), w));
  }
  return intern(K_ZEXT, w, a, 0, 0, 0, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC((u128)sx(cval(a), a->w), w);
  if (a->k == K_SEXT) return mkSext(a->a, w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return intern(K_SEXT, w, a, 0, 0, 0, 0);
}
Expr *mkF(Kind k, unsigned w, Expr *a, Expr *b, unsigned mode) {
  if (isC(a) && (!b || isC(b))) return mkC(foldF(k, w, cval(a), a->w, b ? cval(b) : 0, mode), w);
  if ((k == K_FADD || k == K_FMUL) && a->id > b->id) { Expr *t = a; a = b; b = t; }
  // exact algebra: a - b == a + (-b) is NOT bit exact for NaN; leave.
  if (k == K_FEXT && a->k == K_FTRUNC) { /* not identity */ }
  if (k == K_S2F && a->k == K_ZEXT) return mkF(K_U2F, w, a->a); // non-negative
  if (k == K_S2F && a->k == K_SEXT) return mkF(K_S2F, w, a->a);
  if (k == K_U2F && a->k == K_ZEXT) return mkF(K_U2F, w, a->a);
  return intern(k, w, a, b, 0, mode, 0);
}
Expr *mkUF(unsigned fid, unsigned w, Expr *a, Expr *b, Expr *c) { return intern(K_UF, w, a, b, c, fid, 0); }

u128 evalE(Expr *e, const std::vector<u128> &asg, uint32_t gen) {
  if (e->k == K_CONST) return cval(e);
  if (e->ev_gen == gen) return ((u128)e->ev_hi << 64) | e->ev_lo;
  u128 r = 0;
  switch (e->k) {
  case K_VAR: r = e->lo < asg.size() ? asg[e->lo] : 0; break;
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = foldCmp(e->k, evalE(e->a, asg, gen), evalE(e->b, asg, gen), e->a->w); break;
  case K_ITE: r = evalE(e->a, asg, gen) ? evalE(e->b, asg, gen) : evalE(e->c, asg, gen); break;
  case K_CONCAT: r = (evalE(e->a, asg, gen) << e->b->w) | evalE(e->b, asg, gen); break;
  case K_EXTRACT: r = (evalE(e->a, asg, gen) >> e->lo) & maskw(e->w); break;
  case K_ZEXT: r = evalE(e->a, asg, gen); break;
  case K_SEXT: r = (u128)sx(evalE(e->a, asg, gen), e->a->w) & maskw(e->w); break;
  case K_UF: r = 0; break;
  default:
    if (e->k >= K_FADD) r = foldF(e->k, e->w, evalE(e->a, asg, gen), e->a->w, e->b ? evalE(e->b, asg, gen) : 0, (unsigned)e->lo);
    else r = foldBin(e->k, evalE(e->a, asg, gen), evalE(e->b, asg, gen), e->w);
  }
  r &= maskw(e->w);
  e->ev_gen = gen; e->ev_lo = (u64)r; e->ev_hi = (u64)(r >> 64);
  return r;
}

static const char *kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","f2s","f2u","s2f","u2f","fext","ftrunc","frint","uf"};
std::string exprStr(Expr *e, int d) {
  char buf[128];
  if (isC(e)) { if (e->hi) snprintf(buf, 128, "0x%llx%016llx:%d", (unsigned long long)e->hi, (unsigned long long)e->lo, e->w); else snprintf(buf, 128, "0x%llx:%d", (unsigned long long)e->lo, e->w); return buf; }
  if (e->k == K_VAR) return g_vars[e->lo].name;
  if (d == 0) { snprintf(buf, 128, "#%u", e->id); return buf; }
  std::string s = std::string("(") + kn[e->k];
  if (e->k == K_EXTRACT) { snprintf(buf, 128, "[%d+%d]", (int)e->lo, e->w); s += buf; }
  if (e->k == K_ZEXT || e->k == K_SEXT) { snprintf(buf, 128, "%d", e->w); s += buf; }
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
