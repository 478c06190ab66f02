// Random differential self-test of the expression simplifier: every constructed
// expression must evaluate to the value computed directly from its operands' values.
#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
int main(int argc, char **argv) {
  std::mt19937_64 R(argc > 1 ? atoi(argv[1]) : 1); const int K = 6; long checks = 0;
  static const unsigned W[] = {1, 1, 3, 8, 8, 8, 16, 24, 32, 32, 64, 64, 65, 80, 128};
  auto rnd = [&](unsigned w) -> u128 { u128 v; switch (R() % 6) { case 0: v = R() % 5; break; case 1: v = ~(u128)0 - R() % 3; break; case 2: v = (u128)1 << (R() % w); break; case 3: v = ((u128)1 << (R() % w)) - 1; break; default: v = ((u128)R() << 64) | R(); } return v & maskw(w); };
  static uint32_t gen = 1;
  for (int round = 0; round < (argc > 2 ? atoi(argv[2]) : 300); round++) {
    struct It { Expr *e; u128 v[K]; }; std::vector<It> pool; std::vector<u128> asg[K];
    size_t v0 = g_vars.size();
    for (unsigned i = 0; i < 15; i++) { It t; t.e = mkVar(W[i], "v"); pool.push_back(t); }
    for (int k = 0; k < K; k++) { asg[k].resize(g_vars.size(), 0); for (size_t i = v0; i < g_vars.size(); i++) { asg[k][i] = rnd(g_vars[i].w); pool[i - v0].v[k] = asg[k][i]; } }
    for (int i = 0; i < 12; i++) { unsigned w = W[R() % 15]; u128 c = rnd(w); It t; t.e = mkC(c, w); for (int k = 0; k < K; k++) t.v[k] = c; pool.push_back(t); }
    for (int n = 0; n < 400; n++) {
      It t; It &a = pool[R() % pool.size()];
      auto same = [&](unsigned w) -> It & { for (int i = 0; i < 200; i++) { It &x = pool[R() % pool.size()]; if (x.e->w == w) return x; } return a; };
      unsigned w = a.e->w; int op = R() % 24;
      if (op < 13) { Kind kk = (Kind)(K_ADD + op); It &b = same(w); if (b.e->w != w) continue; t.e = mkBin(kk, a.e, b.e); for (int k = 0; k < K; k++) t.v[k] = foldBin(kk, a.v[k], b.v[k], w); }
      else if (op < 18) { Kind kk = (Kind)(K_EQ + op - 13); It &b = same(w); if (b.e->w != w) continue; t.e = mkCmp(kk, a.e, b.e); for (int k = 0; k < K; k++) t.v[k] = foldCmp(kk, a.v[k], b.v[k], w); }
      else if (op == 18) { It &b = same(w); It &c = same(1); if (b.e->w != w || c.e->w != 1) continue; t.e = mkIte(c.e, a.e, b.e); for (int k = 0; k < K; k++) t.v[k] = c.v[k] ? a.v[k] : b.v[k]; }
      else if (op == 19) { It &b = pool[R() % pool.size()]; if (w + b.e->w > 128) continue; t.e = mkConcat(a.e, b.e); for (int k = 0; k < K; k++) t.v[k] = (a.v[k] << b.e->w) | b.v[k]; }
      else if (op == 20) { unsigned lo = R() % w, nw = 1 + R() % (w - lo); if (R() & 1) { lo &= ~7u; nw = w - lo >= 8 ? 8 : nw; if (lo + nw > w) continue; } t.e = mkExtract(a.e, lo, nw); for (int k = 0; k < K; k++) t.v[k] = (a.v[k] >> lo) & maskw(nw); }
      else if (op == 21) { unsigned nw = w + R() % (129 - w); if (R() & 1) nw = w < 32 ? 32 : w < 64 ? 64 : 128; t.e = mkZext(a.e, nw); for (int k = 0; k < K; k++) t.v[k] = a.v[k]; }
      else if (op == 22) { unsigned nw = w + R() % (129 - w); if (R() & 1) nw = w < 32 ? 32 : w < 64 ? 64 : 128; t.e = mkSext(a.e, nw); for (int k = 0; k < K; k++) t.v[k] = (u128)sx(a.v[k], w) & maskw(nw); }
      else { if (w != 1) continue; t.e = mkNot(a.e); for (int k = 0; k < K; k++) t.v[k] = !a.v[k]; }
      for (int k = 0; k < K; k++) { checks++; u128 g = evalE(t.e, asg[k], ++gen); if (g != t.v[k]) { printf("MISMATCH op %d w %u: got %llx:%llx want %llx:%llx expr %s\n", op, t.e->w, (long long)(g >> 64), (long long)g, (long long)(t.v[k] >> 64), (long long)t.v[k], exprStr(t.e, 5).c_str()); return 1; } }
      unsigned tz = knownTrailingZeros(t.e); for (int k = 0; k < K; k++) if (tz < t.e->w && (t.v[k] & (((u128)1 << tz) - 1))) { printf("TZ wrong %u: %s\n", tz, exprStr(t.e, 5).c_str()); return 1; }
      pool.push_back(t);
    }
  }
  printf("exprtest ok: %ld evaluations\n", checks); return 0;
}
