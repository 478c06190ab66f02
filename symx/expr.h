// Hash-consed bit-vector expressions (<=128 bits) with local simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point on IEEE bit patterns (width 32/64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT,
  K_F2S, K_F2U, K_S2F, K_U2F, K_FEXT, K_FTRUNC, K_FRINT, // FRINT: c=mode const in lo
  K_UF,   // uninterpreted: lo = function id
};

struct Expr {
  Kind k; bool fp; uint16_t w; uint32_t id;
  Expr *a, *b, *c;
  u64 lo, hi;      // const value / var index / extract offset
  void *z;         // z3 ast (UF mode)
  void *zf;        // z3 ast (precise FP mode)
  u64 ev_lo, ev_hi; uint32_t ev_gen;   // evaluation memo
  uint32_t hash;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 cval(const Expr *e) { return ((u128)e->hi << 64) | e->lo; }
inline bool isC(const Expr *e) { return e->k == K_CONST; }
inline bool isCv(const Expr *e, u128 v) { return e->k == K_CONST && cval(e) == v; }
inline s128 sx(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

Expr *mkC(u128 v, unsigned w);
Expr *mkVar(unsigned w, const std::string &name);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkCmp(Kind k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkNot(Expr *a);       // 1-bit not
Expr *mkAnd1(Expr *a, Expr *b);
Expr *mkOr1(Expr *a, Expr *b);
Expr *mkF(Kind k, unsigned w, Expr *a, Expr *b = nullptr, unsigned mode = 0);
Expr *mkUF(unsigned fid, unsigned w, Expr *a, Expr *b, Expr *c);
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
bool foldCmp(Kind k, u128 a, u128 b, unsigned w);
u128 foldF(Kind k, unsigned w, u128 a, unsigned wa, u128 b, unsigned mode);

struct VarInfo { std::string name; unsigned w; Expr *e; };
extern std::vector<VarInfo> g_vars;
// evaluate under assignment (indexed by var index; missing => 0)
u128 evalE(Expr *e, const std::vector<u128> &asg, uint32_t gen);
unsigned knownTrailingZeros(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
size_t exprCount();
