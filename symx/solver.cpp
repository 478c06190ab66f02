#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <bitset>
#include <unordered_set>
#include <map>
#include <string>
SolverStats g_ss; extern uint32_t g_gen;
unsigned g_rlimit = 12000000, g_rlimit_assert = 60000000;
static Z3_context C;
static Z3_solver g_inc; static std::vector<Expr *> g_asserted; static bool g_inc_fp;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg); // not reference counted: temporaries of nested translations stay alive
  Z3_set_error_handler(C, errh);
}
void solverAfterFork() {}
static Z3_sort bvs(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto &s = m[w]; if (!s) { s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }
static Z3_ast cst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, bvs(w));
  Z3_ast h = Z3_mk_unsigned_int64(C, (u64)(v >> 64), bvs(w - 64)), l = Z3_mk_unsigned_int64(C, (u64)v, bvs(64));
  return Z3_mk_concat(C, h, l);
}
// 1-bit expressions are represented as bv1; helper to bool
static Z3_ast one1, zero1;
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, one1, zero1); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(C, v, one1); }
static Z3_func_decl uf(const char *nm, unsigned n, unsigned *ws, unsigned rw) {
  static std::map<std::string, Z3_func_decl> m;
  std::string key = nm; for (unsigned i = 0; i < n; i++) key += "_" + std::to_string(ws[i]); key += "_" + std::to_string(rw);
  auto &d = m[key];
  if (!d) { Z3_sort s[3]; for (unsigned i = 0; i < n; i++) s[i] = bvs(ws[i]); d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, key.c_str()), n, s, bvs(rw)); Z3_inc_ref(C, Z3_func_decl_to_ast(C, d)); }
  return d;
}
static Z3_ast tr(Expr *e, bool precise);
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
static Z3_ast trFp(Expr *e) { // precise FP operation -> bv
  auto toF = [&](Expr *x) { return Z3_mk_fpa_to_fp_bv(C, tr(x, true), fps(x->w)); };
  Z3_ast rm = Z3_mk_fpa_round_nearest_ties_to_even(C);
  Z3_ast r = nullptr;
  switch (e->k) {
  case K_FADD: r = Z3_mk_fpa_add(C, rm, toF(e->a), toF(e->b)); break;
  case K_FSUB: r = Z3_mk_fpa_sub(C, rm, toF(e->a), toF(e->b)); break;
  case K_FMUL: r = Z3_mk_fpa_mul(C, rm, toF(e->a), toF(e->b)); break;
  case K_FDIV: r = Z3_mk_fpa_div(C, rm, toF(e->a), toF(e->b)); break;
  case K_FSQRT: r = Z3_mk_fpa_sqrt(C, rm, toF(e->a)); break;
  case K_FRINT: { Z3_ast m2 = e->lo == 0 ? Z3_mk_fpa_rtz(C) : e->lo == 1 ? Z3_mk_fpa_rtn(C) : e->lo == 2 ? Z3_mk_fpa_rtp(C) : e->lo == 3 ? Z3_mk_fpa_rna(C) : rm; r = Z3_mk_fpa_round_to_integral(C, m2, toF(e->a)); break; }
  case K_S2F: r = Z3_mk_fpa_to_fp_signed(C, rm, tr(e->a, true), fps(e->w)); break;
  case K_U2F: r = Z3_mk_fpa_to_fp_unsigned(C, rm, tr(e->a, true), fps(e->w)); break;
  case K_FEXT: case K_FTRUNC: r = Z3_mk_fpa_to_fp_float(C, rm, toF(e->a), fps(e->w)); break;
  case K_F2S: case K_F2U: {
    Z3_ast x = toF(e->a); Z3_ast rz = Z3_mk_fpa_rtz(C); Z3_sort s = fps(e->a->w);
    bool sg = e->k == K_F2S;
    Z3_ast t = Z3_mk_fpa_round_to_integral(C, rz, x);
    double hi = 1, lo = sg ? -1 : 0; for (unsigned i = 0; i < (sg ? e->w - 1 : e->w); i++) { hi *= 2; lo *= 2; }
    Z3_ast in = Z3_mk_fpa_lt(C, t, Z3_mk_fpa_numeral_double(C, hi, s));
    Z3_ast in2 = Z3_mk_fpa_geq(C, t, Z3_mk_fpa_numeral_double(C, lo, s));
    Z3_ast both[2] = {in, in2};
    Z3_ast v = sg ? Z3_mk_fpa_to_sbv(C, rz, x, e->w) : Z3_mk_fpa_to_ubv(C, rz, x, e->w);
    return Z3_mk_ite(C, Z3_mk_and(C, 2, both), v, sg ? cst((u128)1 << (e->w - 1), e->w) : cst(~(u128)0 & maskw(e->w), e->w));
  }
  default: return nullptr;
  }
  return Z3_mk_fpa_to_ieee_bv(C, r);
}
static Z3_ast tr(Expr *e, bool precise) {
  void *&slot = (precise && e->fp) ? e->zf : e->z;
  if (slot) return (Z3_ast)slot;
  if (!one1) { one1 = cst(1, 1); Z3_inc_ref(C, one1); zero1 = cst(0, 1); Z3_inc_ref(C, zero1); }
  Z3_ast r = nullptr;
  auto T = [&](Expr *x) { return tr(x, precise); };
  switch (e->k) {
  case K_CONST: r = cst(cval(e), e->w); break;
  case K_VAR: { char nm[32]; snprintf(nm, 32, "v%llu", (unsigned long long)e->lo); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(e->w)); break; }
  case K_ADD: r = Z3_mk_bvadd(C, T(e->a), T(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(C, T(e->a), T(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(C, T(e->a), T(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(C, T(e->a), T(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(C, T(e->a), T(e->b)); break;
  case K_UREM: r = Z3_mk_bvurem(C, T(e->a), T(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(C, T(e->a), T(e->b)); break;
  case K_AND: r = Z3_mk_bvand(C, T(e->a), T(e->b)); break;
  case K_OR: r = Z3_mk_bvor(C, T(e->a), T(e->b)); break;
  case K_XOR: r = Z3_mk_bvxor(C, T(e->a), T(e->b)); break;
  case K_SHL: r = Z3_mk_bvshl(C, T(e->a), T(e->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(C, T(e->a), T(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(C, T(e->a), T(e->b)); break;
  case K_EQ: r = b2v(Z3_mk_eq(C, T(e->a), T(e->b))); break;
  case K_ULT: r = b2v(Z3_mk_bvult(C, T(e->a), T(e->b))); break;
  case K_ULE: r = b2v(Z3_mk_bvule(C, T(e->a), T(e->b))); break;
  case K_SLT: r = b2v(Z3_mk_bvslt(C, T(e->a), T(e->b))); break;
  case K_SLE: r = b2v(Z3_mk_bvsle(C, T(e->a), T(e->b))); break;
  case K_ITE: r = Z3_mk_ite(C, v2b(T(e->a)), T(e->b), T(e->c)); break;
  case K_CONCAT: r = Z3_mk_concat(C, T(e->a), T(e->b)); break;
  case K_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->lo + e->w - 1, (unsigned)e->lo, T(e->a)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, T(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, T(e->a)); break;
  default:
    if (precise && e->k != K_UF) r = trFp(e);
    if (!r) {
      char nm[32]; snprintf(nm, 32, "f%d_%llu", e->k, (unsigned long long)e->lo);
      Expr *as[3] = {e->a, e->b, e->c}; unsigned ws[3]; Z3_ast zs[3]; unsigned n = 0;
      for (int i = 0; i < 3; i++) if (as[i]) { ws[n] = as[i]->w; zs[n] = T(as[i]); n++; }
      r = Z3_mk_app(C, uf(nm, n, ws, e->w), n, zs);
    }
  }
  Z3_inc_ref(C, r);
  slot = r;
  return r;
}
bool anyFp(const std::vector<Expr *> &pc, Expr *q) { if (q && q->fp) return true; for (auto e : pc) if (e->fp) return true; return false; }

// variable sets for independence slicing
static std::unordered_map<uint32_t, std::vector<uint32_t>> g_vs;
static const std::vector<uint32_t> &varsOf(Expr *e) {
  auto it = g_vs.find(e->id);
  if (it != g_vs.end()) return it->second;
  std::vector<uint32_t> out; std::unordered_set<uint32_t> seen, vs; std::vector<Expr *> st{e};
  while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (!x || isC(x) || !seen.insert(x->id).second) continue; if (x->k == K_VAR) { if (vs.insert((uint32_t)x->lo).second) out.push_back((uint32_t)x->lo); continue; } st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); }
  return g_vs[e->id] = out;
}


// ---- sweeping: merge internal nodes proved equal, bottom up, so that two differently shaped but equal computations meet
static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  if (a == e->a && b == e->b && c == e->c) return e;
  switch (e->k) {
  case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_AND: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR: return mkBin(e->k, a, b);
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: return mkCmp(e->k, a, b);
  case K_ITE: return mkIte(a, b, c);
  case K_CONCAT: return mkConcat(a, b);
  case K_EXTRACT: return mkExtract(a, (unsigned)e->lo, e->w);
  case K_ZEXT: return mkZext(a, e->w);
  case K_SEXT: return mkSext(a, e->w);
  case K_UF: return mkUF((unsigned)e->lo, e->w, a, b, c);
  default: return mkF(e->k, e->w, a, b, (unsigned)e->lo);
  }
}
static bool proveEq(Expr *x, Expr *y, unsigned rl) {
  Z3_solver s = g_inc; auto setRl = [&](unsigned r) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), r); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); };
  setRl(rl); Z3_solver_push(C, s); Z3_solver_assert(C, s, Z3_mk_not(C, Z3_mk_eq(C, tr(x, false), tr(y, false)))); Z3_lbool r = Z3_solver_check(C, s); Z3_solver_pop(C, s, 1); setRl(400000); g_ss.queries++; if (r == Z3_L_FALSE) g_ss.unsat++; else if (r == Z3_L_TRUE) g_ss.sat++; else g_ss.unknown++;
  return r == Z3_L_FALSE;
}
uint32_t g_sweepGen = 0x80000000u;
static Expr *sweep(Expr *root) {
  std::vector<Expr *> order, st{root}; std::unordered_map<Expr *, int> state;
  while (!st.empty()) { Expr *x = st.back(); int &v = state[x]; if (v == 0) { v = 1; for (Expr *y : {x->a, x->b, x->c}) if (y && !state.count(y)) st.push_back(y); } else { st.pop_back(); if (v == 1) { v = 2; order.push_back(x); } } if (order.size() > 6000) return root; }
  const int N = 24; static u64 rs = 0x9e3779b97f4a7c15ULL; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  std::unordered_map<Expr *, u64> sig; 
  for (int i = 0; i < N; i++) {
    std::vector<u128> asg(g_vars.size()); for (size_t j = 0; j < asg.size(); j++) { u128 v = ((u128)rnd() << 64) | rnd(); int m = rnd() & 7; if (m == 0) v = rnd() & 3; else if (m == 1) v = ~(u128)(rnd() & 3); else if (m == 2) v = (u128)1 << (rnd() & 63); asg[j] = v & maskw(g_vars[j].w); }
    uint32_t gen = ++g_sweepGen;
    for (Expr *x : order) { if (x->fp) continue; u128 v = evalE(x, asg, gen); u64 &h = sig[x]; h = (h ^ (u64)v) * 0x9ddfea08eb382d69ULL; h ^= h >> 29; h = (h ^ (u64)(v >> 64)) * 0x9ddfea08eb382d69ULL; h ^= h >> 32; }
  }
  std::unordered_map<Expr *, Expr *> mp; std::map<std::pair<unsigned, u64>, std::vector<Expr *>> cls; int fails = 0;
  for (Expr *x : order) {
    Expr *n = x; if (x->a) { n = rebuild(x, mp[x->a], x->b ? mp[x->b] : nullptr, x->c ? mp[x->c] : nullptr); }
    if (!isC(n) && !x->fp && x->w > 1) {
      auto &c = cls[{x->w, sig[x]}]; bool done = false;
      for (Expr *r : c) if (r == n) { done = true; break; }
      if (!done) for (Expr *r : c) if (fails < 40) { if (proveEq(r, n, 150000)) { n = r; done = true; break; } else fails++; }
      if (!done && c.size() < 3) c.push_back(n);
    }
    mp[x] = n;
  }
  return mp[root];
}
// the values of variable v (at most 8 bits wide) for which e, which depends on v only, holds
typedef std::bitset<256> Dom;
static const Dom &domOf(Expr *e, uint32_t v) {
  static std::unordered_map<uint32_t, Dom> m; auto it = m.find(e->id); if (it != m.end()) return it->second;
  Dom d; std::vector<u128> mod(g_vars.size(), 0); for (unsigned i = 0; i < (1u << g_vars[v].w); i++) { mod[v] = i; if (evalE(e, mod, ++g_gen)) d.set(i); }
  return m[e->id] = d;
}
// ---- intervals: bounds of an expression from the domains of the bytes in it
struct Iv { u128 lo, hi; };
static const std::vector<Expr *> *iv_pc; static const std::vector<const std::vector<uint32_t> *> *iv_pv;
static std::unordered_map<uint32_t, Iv> iv_m; static std::unordered_map<uint32_t, Dom> iv_d;
static Iv ivOf(Expr *e, int depth) {
  u128 M = maskw(e->w); Iv full = {0, M}; if (isC(e)) return {cval(e), cval(e)}; if (e->w > 64 || e->fp || depth > 60) return full;
  auto it = iv_m.find(e->id); if (it != iv_m.end()) return it->second;
  Iv r = full, a = full, b = full; auto A = [&](Expr *x) { return ivOf(x, depth + 1); };
  switch (e->k) {
  case K_VAR: if (e->w <= 8) { uint32_t v = (uint32_t)e->lo; auto f = iv_d.find(v); if (f == iv_d.end()) { Dom d; for (unsigned i = 0; i < (1u << e->w); i++) d.set(i); for (size_t i = 0; i < iv_pc->size(); i++) if ((*iv_pv)[i]->size() == 1 && (*(*iv_pv)[i])[0] == v && !(*iv_pc)[i]->fp) d &= domOf((*iv_pc)[i], v); f = iv_d.emplace(v, d).first; } const Dom &d = f->second; if (d.any()) { unsigned i = 0, j = 255; while (!d[i]) i++; while (!d[j]) j--; r = {i, j}; } } break;
  case K_ADD: a = A(e->a); b = A(e->b); if (a.hi + b.hi <= M) r = {a.lo + b.lo, a.hi + b.hi}; else if (a.lo + b.lo > M) r = {a.lo + b.lo - M - 1, a.hi + b.hi - M - 1}; break;
  case K_SUB: a = A(e->a); b = A(e->b); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break;
  case K_MUL: a = A(e->a); b = A(e->b); if (e->w <= 64 && a.hi * b.hi <= M) r = {a.lo * b.lo, a.hi * b.hi}; break;
  case K_UDIV: a = A(e->a); b = A(e->b); if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break;
  case K_UREM: a = A(e->a); b = A(e->b); if (b.lo) r = a.hi < b.lo ? a : Iv{0, b.hi - 1}; break;
  case K_AND: a = A(e->a); b = A(e->b); if (e->w == 1) r = {a.lo & b.lo, a.hi & b.hi}; else r = {0, a.hi < b.hi ? a.hi : b.hi}; break;
  case K_OR: a = A(e->a); b = A(e->b); if (e->w == 1) r = {a.lo | b.lo, a.hi | b.hi}; else { u128 h = a.hi | b.hi; while (h & (h + 1)) h |= h >> 1; r = {a.lo > b.lo ? a.lo : b.lo, h}; } break;
  case K_XOR: a = A(e->a); b = A(e->b); if (e->w == 1) { if (a.lo == a.hi && b.lo == b.hi) r = {a.lo ^ b.lo, a.lo ^ b.lo}; } else { u128 h = a.hi | b.hi; while (h & (h + 1)) h |= h >> 1; r = {0, h}; } break;
  case K_SHL: a = A(e->a); b = A(e->b); if (b.hi < 64 && (a.hi << b.hi) <= M) r = {a.lo << b.lo, a.hi << b.hi}; break;
  case K_LSHR: a = A(e->a); b = A(e->b); if (b.hi < 128) r = {a.lo >> b.hi, a.hi >> b.lo}; break;
  case K_EQ: a = A(e->a); b = A(e->b); if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if (a.lo == a.hi && b.lo == b.hi) r = {1, 1}; break;
  case K_ULT: a = A(e->a); b = A(e->b); if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; break;
  case K_ULE: a = A(e->a); b = A(e->b); if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; break;
  case K_SLT: case K_SLE: { if (e->a->w > 64) break; a = A(e->a); b = A(e->b); u128 H = (u128)1 << (e->a->w - 1); // both of one sign each: shift by the sign bit
    auto one = [&](Iv x) { return x.hi < H || x.lo >= H; }; if (!one(a) || !one(b)) break; auto fl = [&](Iv x) { return Iv{x.lo ^ H, x.hi ^ H}; }; a = fl(a); b = fl(b);
    if (e->k == K_SLT) { if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; } else { if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; } break; }
  case K_ITE: { Iv c = A(e->a); a = A(e->b); b = A(e->c); if (c.lo == c.hi) r = c.lo ? a : b; else r = {a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi}; break; }
  case K_CONCAT: a = A(e->a); b = A(e->b); r = {(a.lo << e->b->w) | b.lo, (a.hi << e->b->w) | b.hi}; break;
  case K_EXTRACT: if (e->a->w <= 64) { a = A(e->a); if ((a.lo >> e->lo >> e->w) == (a.hi >> e->lo >> e->w)) r = {(a.lo >> e->lo) & M, (a.hi >> e->lo) & M}; } break;
  case K_ZEXT: r = A(e->a); if (e->a->w > 64) r = full; break;
  case K_SEXT: { a = A(e->a); u128 H = (u128)1 << (e->a->w - 1), X = M & ~maskw(e->a->w); if (a.hi < H) r = a; else if (a.lo >= H) r = {a.lo | X, a.hi | X}; break; }
  default: break;
  }
  if (r.hi > M || r.lo > r.hi) r = full;
  return iv_m[e->id] = r;
}
static SatRes solve_(const std::vector<Expr *> &pc, Expr *q, std::vector<u128> *model, bool precise, unsigned rlimit, bool quick) {
  auto t0 = std::chrono::steady_clock::now();
  g_ss.queries++;
  // slice: constraints transitively sharing variables with q
  std::vector<Expr *> cs;
  bool full = false;
  if (q) {
    static std::vector<uint32_t> mark; static uint32_t mgen; mgen++; mark.resize(g_vars.size() + 1, 0); size_t nvs = 0; uint32_t v0 = 0;
    for (auto v : varsOf(q)) { mark[v] = mgen; nvs++; v0 = v; }
    static std::vector<const std::vector<uint32_t> *> pv; pv.clear(); for (auto e : pc) pv.push_back(&varsOf(e));
    if (quick && nvs == 1 && g_vars[v0].w <= 8 && !q->fp) { // no value of the byte by itself
      Dom d = domOf(q, v0); for (size_t i = 0; i < pc.size() && d.any(); i++) if (pv[i]->size() == 1 && (*pv[i])[0] == v0 && !pc[i]->fp) d &= domOf(pc[i], v0);
      if (d.none()) { g_ss.unsat++; g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return UNSAT; }
    }
    if (quick && !q->fp) { iv_pc = &pc; iv_pv = &pv; iv_m.clear(); iv_d.clear(); if (ivOf(q, 0).hi == 0) { g_ss.unsat++; g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return UNSAT; } }
    std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (auto v : *pv[i]) if (mark[v] == mgen) { hit = true; break; } if (hit) { in[i] = 1; for (auto v : *pv[i]) if (mark[v] != mgen) { mark[v] = mgen; nvs++; ch = true; } } } }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) cs.push_back(pc[i]);
    if (quick && nvs == 1 && g_vars[v0].w <= 8 && !anyFp(cs, q)) { // one byte: decided over its whole domain
      Dom d = domOf(q, v0); for (auto e : cs) d &= domOf(e, v0);
      SatRes res = d.none() ? UNSAT : SAT;
      if (res == SAT && model) { model->resize(g_vars.size(), 0); unsigned keep = (unsigned)(*model)[v0]; if (!d[keep & 255]) { unsigned i = 0; while (!d[i]) i++; (*model)[v0] = i; } }
      if (res == SAT) g_ss.sat++; else g_ss.unsat++;
      g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      return res;
    }
    if (quick && nvs > 1 && nvs <= 6 && !anyFp(cs, q)) { // a few bytes with small domains: decided over the product of the domains
      std::vector<uint32_t> vs; for (uint32_t v = 0; v < g_vars.size(); v++) if (mark[v] == mgen) vs.push_back(v);
      double prod = 1; std::vector<std::vector<u128>> dv; std::vector<Expr *> rest; bool ok = true;
      for (auto v : vs) if (g_vars[v].w > 8) ok = false;
      if (ok) {
        std::vector<Dom> ds; for (auto v : vs) { Dom d; for (unsigned i = 0; i < (1u << g_vars[v].w); i++) d.set(i); ds.push_back(d); }
        auto add = [&](Expr *e) { auto &x = varsOf(e); if (x.size() == 1) { size_t k = 0; while (vs[k] != x[0]) k++; ds[k] &= domOf(e, x[0]); } else rest.push_back(e); };
        add(q); for (auto e : cs) add(e);
        for (auto &d : ds) { std::vector<u128> l; for (unsigned i = 0; i < 256; i++) if (d[i]) l.push_back(i); prod *= l.size(); dv.push_back(l); }
        if (prod <= 10000) {
          std::vector<u128> m; if (model) m = *model; m.resize(g_vars.size(), 0); std::vector<size_t> ix(vs.size(), 0); bool sat = false, done = prod == 0;
          while (!done) {
            for (size_t k = 0; k < vs.size(); k++) m[vs[k]] = dv[k][ix[k]];
            bool all = true; uint32_t gen = ++g_gen; for (auto e : rest) if (!evalE(e, m, gen)) { all = false; break; }
            if (all) { sat = true; break; }
            size_t k = 0; while (k < vs.size() && ++ix[k] == dv[k].size()) ix[k++] = 0;
            done = k == vs.size();
          }
          if (sat && model) *model = m;
          if (sat) g_ss.sat++; else g_ss.unsat++;
          g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
          return sat ? SAT : UNSAT;
        }
      }
    }
  } else { cs = pc; full = true; }
  bool fp = anyFp(cs, q);
  // cheap attempt first (persistent incremental core, small budget), then the full bit-vector tactic
  Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF; bool pushed = false;
  auto setRl = [&](Z3_solver sv, unsigned rl) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rl); Z3_solver_set_params(C, sv, p); Z3_params_dec_ref(C, p); };
  if (!(fp && precise)) {
    if (!g_inc) { g_inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, g_inc); setRl(g_inc, 400000); }
    s = g_inc; pushed = true; Z3_solver_push(C, s);
    for (auto e : cs) Z3_solver_assert(C, s, v2b(tr(e, precise)));
    if (q) Z3_solver_assert(C, s, v2b(tr(q, precise)));
    r = Z3_solver_check(C, s);
    if (r == Z3_L_UNDEF) { Z3_solver_pop(C, s, 1); pushed = false; }
    if (getenv("SYMX_NOINC")) { if (pushed) Z3_solver_pop(C, s, 1); pushed = false; r = Z3_L_UNDEF; }
  }
  if (r == Z3_L_UNDEF && q && !(fp && precise) && rlimit >= g_rlimit_assert) {
    Expr *q2 = sweep(q);
    if (isCv(q2, 0)) { g_ss.unsat++; g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return UNSAT; }
    if (q2 != q) {
      q = q2; s = g_inc; pushed = true; Z3_solver_push(C, s);
      for (auto e : cs) Z3_solver_assert(C, s, v2b(tr(e, precise)));
      Z3_solver_assert(C, s, v2b(tr(q, precise)));
      r = Z3_solver_check(C, s);
      if (r == Z3_L_UNDEF) { Z3_solver_pop(C, s, 1); pushed = false; }
    }
  }
  if (r == Z3_L_UNDEF) {
    if (fp && precise) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
    else if (fp) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_UFBV"));
    else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, s); setRl(s, rlimit);
    for (auto e : cs) Z3_solver_assert(C, s, v2b(tr(e, precise)));
    if (q) Z3_solver_assert(C, s, v2b(tr(q, precise)));
    r = Z3_solver_check(C, s);
  }
  SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT && model) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    model->resize(g_vars.size(), 0);
    unsigned n = Z3_model_get_num_consts(C, m);
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(C, m, i);
      Z3_symbol sym = Z3_get_decl_name(C, d);
      if (Z3_get_symbol_kind(C, sym) != Z3_STRING_SYMBOL) continue;
      const char *nm = Z3_get_symbol_string(C, sym);
      if (nm[0] != 'v' || nm[1] < '0' || nm[1] > '9') continue;
      u64 ix = strtoull(nm + 1, 0, 10); if (ix >= g_vars.size()) continue;
      Z3_ast v = Z3_model_get_const_interp(C, m, d);
      if (!v) continue;
      unsigned w = g_vars[ix].w; u128 val = 0;
      std::string str = Z3_get_numeral_string(C, v);
      for (char c : str) val = val * 10 + (c - '0');
      (*model)[ix] = val & maskw(w);
    }
    Z3_model_dec_ref(C, m);
  }
  if (pushed) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
  (void)full;
  g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (res == SAT) g_ss.sat++; else if (res == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  return res;
}
SatRes solve(const std::vector<Expr *> &pc, Expr *q, std::vector<u128> *model, bool precise, unsigned rlimit) {
  static const bool xcheck = getenv("SYMX_XCHECK") != nullptr;
  SatRes r = solve_(pc, q, model, precise, rlimit, true);
  if (xcheck && q) { SatRes z = solve_(pc, q, nullptr, precise, rlimit, false); if (z != UNKNOWN && r != UNKNOWN && z != r) { fprintf(stderr, "symx: solver cross-check failed\n"); FILE *f = fopen("/tmp/xcheck.log", "a"); fprintf(f, "mismatch %d %d\n", r, z); fclose(f); abort(); } }
  return r;
}
