// symx: a symbolic executor for LLVM bitcode. Mostly-concrete interpretation with
// symbolic islands; a symbolic branch with two feasible sides forks the process.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/TargetParser/Triple.h>
#include <functional>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <ctime>
#include <cerrno>
#include <cstring>
#include <cstdarg>
#include <map>
#include <set>
#include <unordered_map>
using namespace llvm;

struct Val { u64 lo, hi; Expr *e; };

// ------------------------------------------------------------------ options
static u64 o_maxPaths = 200000; static double o_timeout = 600, o_grace = 90; static int o_jobs = 8; static u64 o_maxSteps = 400000000; static bool o_verbose = false; static unsigned o_maxIte = 1024; static unsigned o_maxConc = 300; static int o_queryAlarm = 120;
static const char *o_out = "/dev/stdout";
static bool low32 = false;

// ------------------------------------------------------------------ shared state
struct Shared { volatile u64 paths, forks, violations, limits; sem_t slots; double deadline; u64 steps; };
static Shared *sh;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int g_outfd = -1;
static bool g_haveSlot = false; // this process holds a slot it must release
static bool g_isRoot = true;
static u64 g_steps = 0;
static std::vector<Expr *> g_pc;
static std::vector<u128> g_model; static bool g_modelOk = true; uint32_t g_gen = 1;
static std::string g_tag;   // label set by the harness (symx_label)
static u64 g_asserts = 0, g_assertsSolver = 0, g_inconc = 0;
static std::set<std::string> g_covers;
static std::vector<u64> g_choices;

static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string u128s(u128 v) { char b[64]; if (v >> 64) snprintf(b, 64, "\"0x%llx%016llx\"", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 64, "\"0x%llx\"", (unsigned long long)v); return b; }
static std::string modelJson(const std::vector<u128> &m) {
  std::string s = "{"; bool first = true;
  for (size_t i = 0; i < g_vars.size(); i++) { if (!first) s += ","; first = false; s += jstr(g_vars[i].name) + ":" + u128s(i < m.size() ? m[i] : 0); }
  return s + "}";
}
static void emitLine(const std::string &s) { std::string t = s + "\n"; if (write(g_outfd, t.data(), t.size()) < 0) {} }
static void report(const char *kind, const std::string &msg, const std::vector<u128> *m) {
  std::string s = std::string("{\"kind\":\"") + kind + "\",\"label\":" + jstr(g_tag) + ",\"msg\":" + jstr(msg);
  if (!g_choices.empty()) { s += ",\"choices\":["; for (size_t i = 0; i < g_choices.size(); i++) s += (i ? "," : "") + std::to_string(g_choices[i]); s += "]"; }
  if (m) s += ",\"model\":" + modelJson(*m);
  emitLine(s + "}");
}
static std::string where();
static void waitChildren() { int st = 0; while (waitpid(-1, &st, 0) > 0 || errno == EINTR) if (WIFSIGNALED(st)) { char b[128]; snprintf(b, sizeof b, "{\"kind\":\"engine\",\"label\":\"\",\"msg\":\"process ended by signal %d\"}", WTERMSIG(st)); std::string t = std::string(b) + "\n"; if (write(g_outfd, t.data(), t.size()) < 0) {} st = 0; } }
// after the first violation the rest of the exploration gets a bounded time only
static void noteViolation() { if (__sync_fetch_and_add(&sh->violations, 1) == 0 && sh->deadline > now() + o_grace) sh->deadline = now() + o_grace; }
[[noreturn]] static void pathDone(const char *status, const std::string &msg) {
  __sync_fetch_and_add(&sh->paths, 1);
  std::string cov = "["; bool f = true; for (auto &c : g_covers) { if (!f) cov += ","; f = false; cov += jstr(c); } cov += "]";
  char b[512];
  snprintf(b, sizeof b, ",\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"stime\":%.3f,\"asserts\":%llu,\"asolver\":%llu,\"pcs\":%zu}",
    (unsigned long long)g_steps, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, g_ss.time, (unsigned long long)g_asserts, (unsigned long long)g_assertsSolver, g_pc.size());
  emitLine(std::string("{\"kind\":\"path\",\"status\":\"") + status + "\",\"label\":" + jstr(g_tag) + ",\"msg\":" + jstr(msg) + ",\"cover\":" + cov + b);
  if (g_haveSlot) sem_post(&sh->slots);
  if (g_isRoot) waitChildren();
  _exit(0);
}
[[noreturn]] static void fatal(const char *fmt, ...) { char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); pathDone("error", std::string(b) + " at " + where()); }
static void checkLimits() {
  if (now() > sh->deadline) { __sync_fetch_and_add(&sh->limits, 1); pathDone("limit", "time limit"); }
  if (sh->paths > o_maxPaths) { __sync_fetch_and_add(&sh->limits, 1); pathDone("limit", "path limit"); }
}
static void onAlarm(int) { // solver query ran too long
  const char *m = "{\"kind\":\"path\",\"status\":\"limit\",\"msg\":\"query time limit\"}\n"; if (write(g_outfd, m, strlen(m)) < 0) {}
  __sync_fetch_and_add(&sh->limits, 1);
  if (g_haveSlot) sem_post(&sh->slots);
  if (g_isRoot) waitChildren();
  _exit(0);
}
static SatRes solveT(const std::vector<Expr *> &pc, Expr *q, std::vector<u128> *model, bool precise, unsigned rl) {
  alarm(o_queryAlarm); SatRes r = solve(pc, q, model, precise, rl); alarm(0); return r;
}

// fork; returns true in child
static bool doFork() {
  checkLimits();
  bool par = sem_trywait(&sh->slots) == 0;
  __sync_fetch_and_add(&sh->forks, 1);
  pid_t p = fork();
  if (p < 0) { perror("fork"); pathDone("limit", "fork failed"); }
  if (p == 0) {
    g_isRoot = false; g_haveSlot = par; g_steps = 0; g_ss = SolverStats(); g_asserts = g_assertsSolver = 0;
    return true;
  }
  if (!par) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { report("engine", "child died with signal " + std::to_string(WTERMSIG(st)), nullptr); } }
  return false;
}

static bool modelSatisfies(const std::vector<u128> &m, Expr *q) {
  uint32_t gen = ++g_gen;
  if (q && !evalE(q, m, gen)) return false;
  for (auto e : g_pc) if (!evalE(e, m, gen)) return false;
  return true;
}
static u128 evalCur(Expr *e) { return evalE(e, g_model, ++g_gen); }
static void addPc(Expr *c) { // split conjunctions
  if (isC(c)) return;
  if (c->k == K_AND && c->w == 1) { addPc(c->a); addPc(c->b); return; }
  g_pc.push_back(c);
}
static SatRes feasible(Expr *q, std::vector<u128> *m, bool *mok) {
  *m = g_model;
  SatRes r = solveT(g_pc, q, m, false, g_rlimit);
  if (r == SAT) *mok = !anyFp(g_pc, q) || modelSatisfies(*m, q);
  return r;
}
// decide a 1-bit condition, forking if both sides are feasible
static bool decide(Expr *c) {
  if (isC(c)) return cval(c);
  std::vector<u128> m; bool mok = false;
  if (g_modelOk) {
    bool v = evalCur(c) != 0;
    Expr *other = v ? mkNot(c) : c;
    SatRes r = feasible(other, &m, &mok);
    if (r == UNSAT) return v;
    if (r == UNKNOWN) { mok = false; report("inconclusive", "branch query unknown", nullptr); }
    if (doFork()) { g_model = m; g_modelOk = mok; addPc(other); return !v; }
    addPc(v ? c : mkNot(c));
    return v;
  }
  SatRes rt = feasible(c, &m, &mok);
  if (rt == UNSAT) return false;
  std::vector<u128> m2; bool mok2 = false;
  SatRes rf = feasible(mkNot(c), &m2, &mok2);
  if (rf == UNSAT) { if (rt == SAT) { g_model = m; g_modelOk = mok; } return true; }
  if (doFork()) { if (rf == SAT) { g_model = m2; g_modelOk = mok2; } addPc(mkNot(c)); return false; }
  if (rt == SAT) { g_model = m; g_modelOk = mok; }
  addPc(c); return true;
}
static void assume(Expr *c) {
  if (isC(c)) { if (!cval(c)) pathDone("assume", ""); return; }
  if (g_modelOk && evalCur(c)) { addPc(c); return; }
  std::vector<u128> m; bool mok;
  SatRes r = feasible(c, &m, &mok);
  if (r == UNSAT) pathDone("assume", "");
  if (r == SAT) { g_model = m; g_modelOk = mok; } else g_modelOk = false;
  addPc(c);
}
static u128 concretize(Expr *e) {
  if (isC(e)) return cval(e);
  for (unsigned n = 0;; n++) {
    if (n > o_maxConc) { report("inconclusive", "concretization limit at " + where(), nullptr); __sync_fetch_and_add(&sh->limits, 1); pathDone("limit", "concretization limit"); }
    u128 v; std::vector<u128> m; bool mok;
    if (g_modelOk) v = evalCur(e);
    else { SatRes r = feasible(mkC(1, 1), &m, &mok); if (r == UNSAT) pathDone("infeasible", ""); g_model = m; v = evalCur(e); }
    Expr *eq = mkCmp(K_EQ, e, mkC(v, e->w));
    if (decide(eq)) return v;
  }
}
static bool g_fatalViol = false;
static void checkAssert(Expr *c, const std::string &msg, bool endOnFail = true) {
  g_asserts++;
  Expr *n = mkNot(c);
  if (isC(n)) {
    if (!cval(n)) return;
    std::vector<u128> m = g_model;
    if (!g_modelOk) { SatRes r = solveT(g_pc, nullptr, &m, true, g_rlimit_assert); if (r == UNSAT) pathDone("infeasible", ""); if (r == UNKNOWN) { report("inconclusive", msg, nullptr); pathDone("inconclusive", msg); } }
    noteViolation();
    report("violation", msg, &m); pathDone("violation", msg);
  }
  g_assertsSolver++;
  std::vector<u128> m = g_model;
  SatRes r = solveT(g_pc, n, &m, false, g_rlimit_assert);
  if (r == UNSAT) { addPc(c); return; }
  if (r == SAT && anyFp(g_pc, n) && !modelSatisfies(m, n)) {
    m = g_model;
    r = solveT(g_pc, n, &m, true, g_rlimit_assert);
    if (r == UNSAT) { addPc(c); return; }
    if (r == SAT && !modelSatisfies(m, n)) r = UNKNOWN;
  }
  if (r == UNKNOWN) { static const bool dbg = getenv("SYMX_DEBUG") != nullptr; if (dbg) fprintf(stderr, "inconclusive: %s\n", exprStr(n, 14).c_str()); g_inconc++; report("inconclusive", msg, nullptr); addPc(c); g_modelOk = false; return; }
  noteViolation();
  report("violation", msg, &m);
  if (endOnFail) pathDone("violation", msg);
}

// ------------------------------------------------------------------ memory
static u64 A_BASE, A_SIZE = 1ull << 30, A_END; static unsigned char *validBits; static Expr ***shPages;
static u64 heapTop, stackTop, stackLimit;
static inline bool validRange(u64 a, u64 n) {
  if (a < A_BASE || a + n > A_END || a + n < a) return false;
  u64 o = a - A_BASE;
  if (n <= 8 && (o & 7) + n <= 8) { unsigned m = ((1u << n) - 1) << (o & 7); return (validBits[o >> 3] & m) == m; }
  while (n && (o & 7)) { if (!(validBits[o >> 3] >> (o & 7) & 1)) return false; o++; n--; }
  while (n >= 8) { if (validBits[o >> 3] != 0xff) return false; o += 8; n -= 8; }
  while (n) { if (!(validBits[o >> 3] >> (o & 7) & 1)) return false; o++; n--; }
  return true;
}
static void setValid(u64 a, u64 n, bool v) {
  u64 o = a - A_BASE;
  while (n && (o & 7)) { if (v) validBits[o >> 3] |= 1 << (o & 7); else validBits[o >> 3] &= ~(1 << (o & 7)); o++; n--; }
  if (n >= 8) { memset(validBits + (o >> 3), v ? 0xff : 0, n >> 3); o += n & ~7ull; n &= 7; }
  while (n) { if (v) validBits[o >> 3] |= 1 << (o & 7); else validBits[o >> 3] &= ~(1 << (o & 7)); o++; n--; }
}
static inline Expr *shGet(u64 a) { Expr **p = shPages[(a - A_BASE) >> 12]; return p ? p[a & 4095] : nullptr; }
static inline void shSet(u64 a, Expr *e) {
  Expr **&p = shPages[(a - A_BASE) >> 12];
  if (!p) { if (!e) return; p = (Expr **)calloc(4096, sizeof(Expr *)); }
  p[a & 4095] = e;
}
static void shClear(u64 a, u64 n) {
  u64 e = a + n;
  while (a < e) { u64 pe = (a | 4095) + 1; if (pe > e) pe = e; Expr **p = shPages[(a - A_BASE) >> 12]; if (p) memset(p + (a & 4095), 0, (pe - a) * sizeof(Expr *)); a = pe; }
}
static inline bool shAny(u64 a, u64 n) {
  u64 p0 = (a - A_BASE) >> 12, p1 = (a + n - 1 - A_BASE) >> 12;
  if (!shPages[p0] && (p0 == p1 || !shPages[p1])) { if (p1 - p0 > 1) { for (u64 p = p0; p <= p1; p++) if (shPages[p]) return true; } return false; }
  return true;
}
static u64 heapAlloc(u64 n, u64 align = 16) {
  u64 a = (heapTop + 32 + align - 1) & ~(align - 1);
  if (a + n + 64 > stackLimit) fatal("out of arena memory (%llu)", (unsigned long long)n);
  heapTop = a + n; setValid(a, n, true); shClear(a, n ? n : 1); memset((void *)a, 0xCD, n); return a;
}
static bool objExtent(u64 a, u64 *base, u64 *size) {
  if (!validRange(a, 1)) return false;
  u64 o = a - A_BASE, l = o, r = o;
  while (l > 0) { if ((l & 7) == 0 && validBits[(l >> 3) - 1] == 0xff) { l -= 8; continue; } if (validBits[(l - 1) >> 3] >> ((l - 1) & 7) & 1) l--; else break; }
  while (r < A_SIZE) { if ((r & 7) == 0 && validBits[r >> 3] == 0xff) { r += 8; continue; } if (validBits[r >> 3] >> (r & 7) & 1) r++; else break; }
  *base = A_BASE + l; *size = r - l; return true;
}
[[noreturn]] static void memError(const char *what, u64 a, u64 n) {
  char b[160]; snprintf(b, sizeof b, "memory error: %s of %llu bytes at 0x%llx", what, (unsigned long long)n, (unsigned long long)a);
  std::string msg = std::string(b) + " in " + where();
  std::vector<u128> m = g_model;
  if (!g_modelOk) { SatRes r = solveT(g_pc, nullptr, &m, true, g_rlimit_assert); if (r == UNSAT) pathDone("infeasible", ""); if (r == UNKNOWN) { report("inconclusive", msg, nullptr); pathDone("inconclusive", msg); } }
  report("memerror", msg, &m); pathDone("memerror", msg);
}
static Val ldC(u64 a, unsigned bytes, unsigned w) { // concrete address
  if (!validRange(a, bytes)) memError("load", a, bytes);
  Val v{0, 0, nullptr};
  if (!shAny(a, bytes)) {
    switch (bytes) { case 1: v.lo = *(uint8_t *)a; break; case 2: v.lo = *(uint16_t *)a; break; case 4: v.lo = *(uint32_t *)a; break; case 8: v.lo = *(u64 *)a; break;
    default: memcpy(&v, (void *)a, bytes > 16 ? 16 : bytes); }
  } else {
    bool any = false; for (unsigned i = 0; i < bytes; i++) if (shGet(a + i)) { any = true; break; }
    if (!any) memcpy(&v, (void *)a, bytes);
    else {
      Expr *e = nullptr;
      for (unsigned i = 0; i < bytes; i++) { Expr *b = shGet(a + i); if (!b) b = mkC(*(uint8_t *)(a + i), 8); e = e ? mkConcat(b, e) : b; }
      if (w < e->w) e = mkExtract(e, 0, w);
      if (isC(e)) { v.lo = e->lo; v.hi = e->hi; } else v.e = e;
      return v;
    }
  }
  if (w < 64) { v.lo &= (1ull << w) - 1; v.hi = 0; } else if (w < 128) v.hi &= (u64)(maskw(w) >> 64);
  return v;
}
static void stC(u64 a, unsigned bytes, unsigned w, const Val &v) {
  if (!validRange(a, bytes)) memError("store", a, bytes);
  if (!v.e) {
    switch (bytes) { case 1: *(uint8_t *)a = v.lo; break; case 2: *(uint16_t *)a = v.lo; break; case 4: *(uint32_t *)a = v.lo; break; case 8: *(u64 *)a = v.lo; break;
    default: memcpy((void *)a, &v, bytes > 16 ? 16 : bytes); }
    if (shAny(a, bytes)) for (unsigned i = 0; i < bytes; i++) shSet(a + i, nullptr);
    return;
  }
  Expr *e = v.e; if (e->w < bytes * 8) e = mkZext(e, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) { Expr *b = mkExtract(e, i * 8, 8); if (isC(b)) { *(uint8_t *)(a + i) = (uint8_t)cval(b); shSet(a + i, nullptr); } else shSet(a + i, b); }
}
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkC(((u128)v.hi << 64) | v.lo, w); }
static inline Val fromE(Expr *e) { Val v; if (isC(e)) { v.lo = e->lo; v.hi = e->hi; v.e = nullptr; } else { v.lo = v.hi = 0; v.e = e; } return v; }
static inline Val mkV(u64 x) { return Val{x, 0, nullptr}; }

static unsigned PW = 64;
static Expr *peelIte(Expr *a) { // resolve ITEs over pointers to different objects by deciding the condition
  for (int guard = 0; guard < 64; guard++) {
    if (a->k == K_ITE) { a = decide(a->a) ? a->b : a->c; continue; }
    if (a->k == K_ADD && a->a->k == K_ITE) { Expr *i = a->a; bool c1 = isC(i->b), c2 = isC(i->c); if (c1 && c2) { u64 x = i->b->lo, y = i->c->lo; u64 b1, s1, b2, s2; if (objExtent(x, &b1, &s1) && objExtent(y, &b2, &s2) && b1 != b2) { a = mkBin(K_ADD, decide(i->a) ? i->b : i->c, a->b); continue; } } }
    break;
  }
  return a;
}
struct Region { u64 base, size; Expr *off; };
// constant addend of an address expression (the object it is based on, usually)
static bool constAddend(Expr *a, u64 *c) {
  if (isC(a)) { *c = (u64)cval(a); return true; }
  if (a->k == K_ADD) return constAddend(a->b, c) || constAddend(a->a, c);
  if (a->k == K_SUB) return constAddend(a->a, c);
  if (a->k == K_ITE) return constAddend(a->b, c);
  return false;
}
static bool symRegion(Expr *&a, unsigned bytes, Region *r, const char *what) {
  a = peelIte(a);
  if (isC(a)) return false;
  for (int guard = 0;; guard++) {
    u64 v;
    if (g_modelOk) v = (u64)evalCur(a);
    else { std::vector<u128> m; bool mok; SatRes s = feasible(mkC(1, 1), &m, &mok); if (s == UNSAT) pathDone("infeasible", ""); g_model = m; g_modelOk = mok; v = (u64)evalCur(a); }
    u64 base = 0, size = 0; bool have = objExtent(v, &base, &size) && v + bytes <= base + size;
    u64 c;
    if (guard < 2 && constAddend(a, &c)) {
      u64 b2, s2; bool h2 = false;
      for (int d = 0; d < 17 && !h2; d++) h2 = objExtent(c + (guard ? 64 * d : d), &b2, &s2) || objExtent(c - (guard ? 64 * d : d), &b2, &s2);
      if (h2 && s2 >= bytes && (!have || b2 == base)) { base = b2; size = s2; have = true; }
    }
    if (!have) {
      // the model points outside every object: report this value, then look for others
      Expr *eq = mkCmp(K_EQ, a, mkC(v, a->w));
      if (guard > 2 || decide(eq)) memError(what, v, bytes);
      if (guard > 12) { report("inconclusive", "symbolic address with many invalid values at " + where(), nullptr); pathDone("limit", "symbolic address"); }
      continue;
    }
    Expr *off = mkBin(K_SUB, a, mkC(base, a->w));
    Expr *in = mkCmp(K_ULE, off, mkC(size - bytes, a->w));
    if (decide(in)) { r->base = base; r->size = size; r->off = off; return true; }
    if (guard > 40) { report("inconclusive", "symbolic address over many objects at " + where(), nullptr); pathDone("limit", "symbolic address"); }
  }
}
static Val ld(Val p, unsigned bytes, unsigned w) {
  if (!p.e) return ldC(p.lo, bytes, w);
  Expr *a = p.e; Region r;
  if (!symRegion(a, bytes, &r, "load")) return ldC((u64)cval(a), bytes, w);
  unsigned tz = knownTrailingZeros(r.off); u64 stride = tz >= 3 ? 8 : 1ull << tz; if (tz >= 63) stride = 8; if (tz > 3 && tz < 12) stride = 1ull << tz;
  if (r.size / stride > o_maxIte) { u64 v = (u64)concretize(a); return ldC(v, bytes, w); }
  // build balanced ITE over offsets
  std::vector<std::pair<u64, Expr *>> items;
  for (u64 o = 0; o + bytes <= r.size; o += stride) items.push_back({o, toE(ldC(r.base + o, bytes, w), w)});
  unsigned ow = r.off->w;
  std::function<Expr *(size_t, size_t)> build = [&](size_t l, size_t h) -> Expr * { // [l,h)
    if (h - l == 1) return items[l].second;
    size_t m = (l + h) / 2; Expr *x = build(l, m), *y = build(m, h);
    if (x == y) return x;
    return mkIte(mkCmp(K_ULT, r.off, mkC(items[m].first, ow)), x, y);
  };
  if (items.empty()) memError("load", r.base, bytes);
  return fromE(build(0, items.size()));
}
static void st(Val p, unsigned bytes, unsigned w, const Val &v) {
  if (!p.e) { stC(p.lo, bytes, w, v); return; }
  Expr *a = p.e; Region r;
  if (!symRegion(a, bytes, &r, "store")) { stC((u64)cval(a), bytes, w, v); return; }
  unsigned tz = knownTrailingZeros(r.off); u64 stride = tz >= 3 ? 8 : 1ull << tz; if (tz > 3 && tz < 12) stride = 1ull << tz;
  if (r.size / stride > o_maxIte / 4) { u64 c = (u64)concretize(a); stC(c, bytes, w, v); return; }
  Expr *ve = toE(v, w); if (ve->w < bytes * 8) ve = mkZext(ve, bytes * 8);
  std::vector<Expr *> nb(r.size, nullptr);
  for (u64 i = 0; i < r.size; i++) { Expr *b = shGet(r.base + i); nb[i] = b ? b : mkC(*(uint8_t *)(r.base + i), 8); }
  for (u64 o = 0; o + bytes <= r.size; o += stride) {
    Expr *c = mkCmp(K_EQ, r.off, mkC(o, r.off->w));
    if (isCv(c, 0)) continue;
    for (unsigned i = 0; i < bytes; i++) nb[o + i] = mkIte(c, mkExtract(ve, i * 8, 8), nb[o + i]);
  }
  for (u64 i = 0; i < r.size; i++) stC(r.base + i, 1, 8, fromE(nb[i]));
}
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return;
  if (!validRange(s, n)) memError("memcpy read", s, n);
  if (!validRange(d, n)) memError("memcpy write", d, n);
  bool sy = shAny(s, n), dy = shAny(d, n);
  if (sy || dy) {
    std::vector<Expr *> t(n); for (u64 i = 0; i < n; i++) t[i] = shGet(s + i);
    for (u64 i = 0; i < n; i++) shSet(d + i, t[i]);
  }
  memmove((void *)d, (void *)s, n);
}

// ------------------------------------------------------------------ code
struct Fn;
enum Oc : uint8_t { OC_BIN, OC_CMP, OC_FCMP, OC_FBIN, OC_FNEG, OC_SELECT, OC_LOAD, OC_STORE, OC_GEP, OC_ALLOCA, OC_CALL, OC_RET, OC_BR, OC_CBR, OC_SWITCH, OC_TRUNC, OC_ZEXT, OC_SEXT, OC_COPY, OC_FPCONV, OC_EXTRACTV, OC_INSERTV, OC_UNREACH, OC_NOP, OC_VINS, OC_VEXT, OC_VAARG };
struct Edge { std::vector<std::pair<int, int>> copies; std::vector<int> widths; int target; };
struct GepTerm { int idx; unsigned iw; u64 scale; };
struct Op {
  Oc c; uint8_t sub; uint8_t ubits; uint16_t w, w2; int d, a, b, e; u64 imm;
  int ed0, ed1; unsigned n; void *x; const Instruction *I;
};
struct SwitchInfo { std::vector<std::pair<u128, int>> cases; int def; };
struct CallInfo { Fn *fn; int callee; std::vector<int> args; std::vector<unsigned> aw; std::vector<u64> byval; unsigned nret; const CallBase *cb; std::string name; int builtin; unsigned nfixed; };
struct Fn { Function *F; bool compiled = false; std::vector<Op> ops; std::vector<int> bbStart; std::vector<Edge> edges; unsigned nslots = 0; unsigned nargs = 0; u64 addr; std::vector<unsigned> argSlots; int builtin = -1; std::string name; };
static std::vector<Val> g_consts; static std::unordered_map<const Value *, int> g_constIdx;
static std::unordered_map<const Function *, Fn *> g_fns; static std::map<u64, Fn *> g_fnByAddr; static std::unordered_map<const GlobalVariable *, u64> g_globals;
static const DataLayout *DL; static Module *M;
struct Frame { Fn *fn; size_t base; unsigned pc; u64 stackSave; std::vector<u64> allocas; int retSlot; bool isCatch; std::vector<Val> varargs; std::vector<unsigned> varw; u64 vaArea; };
static std::vector<Frame> g_frames; static std::vector<Val> g_regs; static size_t g_regTop;
static std::string where() {
  std::string s; int n = 0;
  for (size_t i = g_frames.size(); i-- > 0 && n < 6; n++) s += (n ? " < " : "") + g_frames[i].fn->name;
  return s;
}
static unsigned flatCount(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *E : S->elements()) n += flatCount(E); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * flatCount(A->getElementType());
  if (T->isVoidTy()) return 0;
  return 1;
}
static unsigned bitw(Type *T) {
  if (T->isPointerTy()) return PW;
  if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * bitw(V->getElementType());
  if (T->isX86_FP80Ty()) return 80;
  return T->getPrimitiveSizeInBits();
}
static unsigned bytesOf(Type *T) { return (unsigned)DL->getTypeStoreSize(T).getFixedValue(); }
static Fn *fnOf(Function *F);
static u64 constAddr(const Constant *C);
static void constVals(const Constant *C, std::vector<Val> &out);
static Val constScalar(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) { const APInt &v = I->getValue(); return Val{v.getRawData()[0] & (v.getBitWidth() >= 64 ? ~0ull : (1ull << v.getBitWidth()) - 1), v.getBitWidth() > 64 ? v.getRawData()[1] : 0, nullptr}; }
  if (auto *F = dyn_cast<ConstantFP>(C)) { APInt v = F->getValueAPF().bitcastToAPInt(); return Val{v.getRawData()[0], v.getBitWidth() > 64 ? v.getRawData()[1] : 0, nullptr}; }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return mkV(0);
  if (C->getType()->isVectorTy()) { auto *VT = cast<FixedVectorType>(C->getType()); u128 v = 0; unsigned ew = bitw(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) { Val x = constScalar(C->getAggregateElement(i)); v |= (((u128)x.hi << 64) | x.lo) << (i * ew); } return Val{(u64)v, (u64)(v >> 64), nullptr}; }
  return mkV(constAddr(C));
}
static u64 constAddr(const Constant *C) {
  if (auto *G = dyn_cast<GlobalVariable>(C)) { auto it = g_globals.find(G); if (it == g_globals.end()) fatal("unknown global %s", G->getName().str().c_str()); return it->second; }
  if (auto *F = dyn_cast<Function>(C)) return fnOf(const_cast<Function *>(F))->addr;
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constAddr(A->getAliasee());
  if (isa<ConstantPointerNull>(C)) return 0;
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    u64 m = PW == 32 ? 0xffffffffull : ~0ull;
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(CE); APInt off(DL->getIndexSizeInBits(0), 0);
      if (!G->accumulateConstantOffset(*DL, off)) fatal("gep const");
      return (constAddr(cast<Constant>(G->getPointerOperand())) + off.getSExtValue()) & m;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constScalar(CE->getOperand(0)).lo;
    case Instruction::Trunc: { u64 v = constScalar(CE->getOperand(0)).lo; unsigned w = bitw(CE->getType()); return w >= 64 ? v : v & ((1ull << w) - 1); }
    case Instruction::Add: return constScalar(CE->getOperand(0)).lo + constScalar(CE->getOperand(1)).lo;
    case Instruction::Sub: return constScalar(CE->getOperand(0)).lo - constScalar(CE->getOperand(1)).lo;
    case Instruction::ICmp: { u64 x = constScalar(CE->getOperand(0)).lo, y = constScalar(CE->getOperand(1)).lo; return CE->getPredicate() == CmpInst::ICMP_EQ ? x == y : CE->getPredicate() == CmpInst::ICMP_NE ? x != y : CE->getPredicate() == CmpInst::ICMP_ULT ? x < y : x > y; }
    case Instruction::Select: return constScalar(CE->getOperand(0)).lo ? constScalar(CE->getOperand(1)).lo : constScalar(CE->getOperand(2)).lo;
    default: fatal("const expr %s", CE->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); fatal("unhandled constant %s", s.c_str());
}
static void constVals(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constVals(C->getAggregateElement(i), out);
    return;
  }
  out.push_back(constScalar(C));
}
static void initMem(u64 a, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  if (auto *S = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) initMem(a + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) initMem(a + i * es, C->getAggregateElement(i)); return; }
  Val v = constScalar(C); u64 b[2] = {v.lo, v.hi}; memcpy((void *)a, b, bytesOf(T) > 16 ? 16 : bytesOf(T));
}

// ------------------------------------------------------------------ builtins
enum Builtin {
  B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_EXIT, B_ASSERTFAIL,
  B_SYMBOLIC, B_ASSUME, B_ASSERT, B_COVER, B_ISSYM, B_CONC, B_CATCH, B_PATHEND, B_NOTE, B_CHOOSE, B_LABEL, B_TAGRUN, B_TAGAT, B_PRINT, B_ASSERTSOFT, B_VALID, B_OBJSIZE, B_FORKLABEL, B_MAYBE, B_FAIL, B_IS64SYM,
  B_LIBM1, B_LIBM2, B_STRTOLD, B_STRTOD, B_SNPRINTF_LD, B_HOSTREAD, B_HOSTSIZE, B_FREXP, B_GETARG, B_LDEXP,
};
static const std::map<std::string, int> kBuiltins = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"abort", B_ABORT}, {"symx_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL},
  {"symx_symbolic", B_SYMBOLIC}, {"symx_assume", B_ASSUME}, {"symx_assert", B_ASSERT}, {"symx_cover", B_COVER}, {"symx_is_symbolic", B_ISSYM}, {"symx_concretize", B_CONC}, {"symx_catch", B_CATCH}, {"symx_path_end", B_PATHEND}, {"symx_note", B_NOTE}, {"symx_choose", B_CHOOSE}, {"symx_label", B_LABEL}, {"symx_tagrun", B_TAGRUN}, {"symx_tag_at", B_TAGAT}, {"symx_print", B_PRINT}, {"symx_check", B_ASSERTSOFT}, {"symx_valid", B_VALID}, {"symx_objsize", B_OBJSIZE}, {"symx_maybe", B_MAYBE}, {"symx_fail", B_FAIL},
  {"symx_host_read", B_HOSTREAD}, {"symx_host_size", B_HOSTSIZE}, {"symx_getarg", B_GETARG},
  {"strtold", B_STRTOLD}, {"strtod", B_STRTOD}, {"symx_snprintf_ld", B_SNPRINTF_LD}, {"frexp", B_FREXP}, {"ldexp", B_LDEXP},
  {"fabs", B_LIBM1}, {"floor", B_LIBM1}, {"ceil", B_LIBM1}, {"sqrt", B_LIBM1}, {"trunc", B_LIBM1}, {"round", B_LIBM1}, {"fmod", B_LIBM2}, {"pow", B_LIBM2},
};
static int builtinOf(const std::string &n) { auto it = kBuiltins.find(n); return it == kBuiltins.end() ? -1 : it->second; }
static Fn *fnOf(Function *F) {
  auto &f = g_fns[F];
  if (!f) { f = new Fn; f->F = F; f->name = F->getName().str(); static u64 na = 0; if (!na) na = low32 ? 0x1000 : 0x7000000000ull; f->addr = na; na += 16; g_fnByAddr[f->addr] = f;
    if (F->isDeclaration()) f->builtin = builtinOf(f->name); }
  return f;
}
static int constIdx(const Constant *C) {
  auto it = g_constIdx.find(C); if (it != g_constIdx.end()) return it->second;
  int ix = ~(int)g_consts.size();
  std::vector<Val> vs; constVals(C, vs); for (auto &v : vs) g_consts.push_back(v);
  if (vs.empty()) g_consts.push_back(mkV(0));
  return g_constIdx[C] = ix;
}

static void compileFn(Fn *f) {
  f->compiled = true;
  Function *F = f->F;
  std::unordered_map<const Value *, int> slot; unsigned ns = 0;
  for (auto &A : F->args()) { slot[&A] = ns; f->argSlots.push_back(ns); ns += flatCount(A.getType()) ? flatCount(A.getType()) : 1; }
  f->nargs = F->arg_size();
  std::unordered_map<const BasicBlock *, int> bbIx; int n = 0;
  for (auto &B : *F) { bbIx[&B] = n++; for (auto &I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; unsigned c = flatCount(I.getType()); ns += c ? c : 1; } }
  f->bbStart.resize(n);
  auto opnd = [&](const Value *V) -> int { if (auto *C = dyn_cast<Constant>(V)) return constIdx(C); auto it = slot.find(V); if (it == slot.end()) { if (isa<MetadataAsValue>(V)) return 0; fatal("operand"); } return it->second; };
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) -> int {
    Edge e; e.target = bbIx[to];
    for (auto &P : to->phis()) { int v = opnd(P.getIncomingValueForBlock(from)); unsigned c = flatCount(P.getType()); int d = slot[&P]; for (unsigned i = 0; i < c; i++) e.copies.push_back({d + (int)i, v >= 0 ? v + (int)i : v - (int)i}); }
    f->edges.push_back(e); return f->edges.size() - 1;
  };
  for (auto &B : *F) {
    f->bbStart[bbIx[&B]] = f->ops.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      Op o; memset((void *)&o, 0, sizeof o); o.I = &I; o.d = I.getType()->isVoidTy() ? -1 : slot[&I]; o.w = I.getType()->isVoidTy() ? 0 : flatCount(I.getType()) == 1 && !I.getType()->isAggregateType() ? bitw(I.getType()) : 0;
      if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
        o.a = opnd(BO->getOperand(0)); o.b = opnd(BO->getOperand(1)); o.c = OC_BIN;
        switch (BO->getOpcode()) {
        case Instruction::Add: o.sub = K_ADD; break; case Instruction::Sub: o.sub = K_SUB; break; case Instruction::Mul: o.sub = K_MUL; break;
        case Instruction::UDiv: o.sub = K_UDIV; break; case Instruction::SDiv: o.sub = K_SDIV; break; case Instruction::URem: o.sub = K_UREM; break; case Instruction::SRem: o.sub = K_SREM; break;
        case Instruction::And: o.sub = K_AND; break; case Instruction::Or: o.sub = K_OR; break; case Instruction::Xor: o.sub = K_XOR; break;
        case Instruction::Shl: o.sub = K_SHL; break; case Instruction::LShr: o.sub = K_LSHR; break; case Instruction::AShr: o.sub = K_ASHR; break;
        case Instruction::FAdd: o.c = OC_FBIN; o.sub = K_FADD; break; case Instruction::FSub: o.c = OC_FBIN; o.sub = K_FSUB; break; case Instruction::FMul: o.c = OC_FBIN; o.sub = K_FMUL; break; case Instruction::FDiv: o.c = OC_FBIN; o.sub = K_FDIV; break; case Instruction::FRem: o.c = OC_FBIN; o.sub = K_FREM; break;
        default: fatal("binop");
        }
        if (I.getType()->isVectorTy()) { o.w2 = bitw(cast<FixedVectorType>(I.getType())->getElementType()); } else o.w2 = o.w;
      } else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
        o.c = OC_CMP; o.sub = IC->getPredicate(); o.a = opnd(IC->getOperand(0)); o.b = opnd(IC->getOperand(1)); o.w2 = bitw(IC->getOperand(0)->getType());
      } else if (auto *FC = dyn_cast<FCmpInst>(&I)) {
        o.c = OC_FCMP; o.sub = FC->getPredicate(); o.a = opnd(FC->getOperand(0)); o.b = opnd(FC->getOperand(1)); o.w2 = bitw(FC->getOperand(0)->getType());
      } else if (auto *U = dyn_cast<UnaryOperator>(&I)) { o.c = OC_FNEG; o.a = opnd(U->getOperand(0));
      } else if (auto *S = dyn_cast<SelectInst>(&I)) { o.c = OC_SELECT; o.a = opnd(S->getCondition()); o.b = opnd(S->getTrueValue()); o.e = opnd(S->getFalseValue()); o.n = flatCount(I.getType());
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        o.c = OC_LOAD; o.a = opnd(L->getPointerOperand()); o.imm = bytesOf(I.getType());
        if (I.getType()->isAggregateType()) fatal("aggregate load");
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        o.c = OC_STORE; o.a = opnd(S->getPointerOperand()); o.b = opnd(S->getValueOperand()); o.imm = bytesOf(S->getValueOperand()->getType()); o.w = bitw(S->getValueOperand()->getType());
        if (S->getValueOperand()->getType()->isAggregateType()) fatal("aggregate store");
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        o.c = OC_GEP; o.a = opnd(G->getPointerOperand()); auto *terms = new std::vector<GepTerm>; u64 off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value *idx = it.getOperand();
          if (StructType *ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(idx)) { off += CI->getSExtValue() * sc; continue; }
          terms->push_back({opnd(idx), bitw(idx->getType()), sc});
        }
        o.imm = off; o.x = terms; o.n = terms->size();
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        o.c = OC_ALLOCA; o.imm = DL->getTypeAllocSize(A->getAllocatedType()); o.a = opnd(A->getArraySize()); o.n = std::max<u64>(A->getAlign().value(), 8); o.w2 = bitw(A->getArraySize()->getType());
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        o.c = OC_CALL; auto *ci = new CallInfo; ci->cb = C; ci->fn = nullptr; ci->builtin = -1; ci->nret = I.getType()->isVoidTy() ? 0 : flatCount(I.getType());
        Value *cv = C->getCalledOperand()->stripPointerCasts();
        if (isa<InlineAsm>(cv)) { ci->name = "<inline asm>"; }
        else if (auto *cf = dyn_cast<Function>(cv)) {
          ci->name = cf->getName().str();
          if (ci->name.rfind("llvm.dbg", 0) == 0 || ci->name.rfind("llvm.lifetime", 0) == 0 || ci->name.rfind("llvm.experimental.noalias", 0) == 0 || ci->name.rfind("llvm.assume", 0) == 0 || ci->name.rfind("llvm.invariant", 0) == 0) continue;
          ci->fn = fnOf(cf);
        }
        ci->callee = opnd(C->getCalledOperand()); ci->nfixed = C->getFunctionType()->getNumParams();
        for (unsigned i = 0; i < C->arg_size(); i++) { Value *av = C->getArgOperand(i); if (isa<MetadataAsValue>(av)) { ci->args.push_back(0); ci->aw.push_back(0); ci->byval.push_back(0); continue; } ci->args.push_back(opnd(av)); ci->aw.push_back(av->getType()->isAggregateType() ? 1000 + flatCount(av->getType()) : bitw(av->getType())); ci->byval.push_back(C->isByValArgument(i) ? (u64)DL->getTypeAllocSize(C->getParamByValType(i)) : 0); }
        o.x = ci;
      } else if (auto *R = dyn_cast<ReturnInst>(&I)) { o.c = OC_RET; if (R->getReturnValue()) { o.a = opnd(R->getReturnValue()); o.n = flatCount(R->getReturnValue()->getType()); } else o.n = 0;
      } else if (auto *BR = dyn_cast<BranchInst>(&I)) {
        if (BR->isConditional()) { o.c = OC_CBR; o.a = opnd(BR->getCondition()); o.ed0 = mkEdge(&B, BR->getSuccessor(0)); o.ed1 = mkEdge(&B, BR->getSuccessor(1)); }
        else { o.c = OC_BR; o.ed0 = mkEdge(&B, BR->getSuccessor(0)); }
      } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
        o.c = OC_SWITCH; o.a = opnd(SW->getCondition()); o.w2 = bitw(SW->getCondition()->getType()); auto *si = new SwitchInfo; si->def = mkEdge(&B, SW->getDefaultDest());
        std::map<const BasicBlock *, int> em;
        for (auto &c : SW->cases()) { auto it = em.find(c.getCaseSuccessor()); int e; if (it == em.end()) em[c.getCaseSuccessor()] = e = mkEdge(&B, c.getCaseSuccessor()); else e = it->second; si->cases.push_back({c.getCaseValue()->getValue().getZExtValue(), e}); }
        o.x = si;
      } else if (auto *CA = dyn_cast<CastInst>(&I)) {
        o.a = opnd(CA->getOperand(0)); o.w2 = bitw(CA->getOperand(0)->getType());
        switch (CA->getOpcode()) {
        case Instruction::Trunc: o.c = OC_TRUNC; break; case Instruction::ZExt: o.c = OC_ZEXT; break; case Instruction::SExt: o.c = OC_SEXT; break;
        case Instruction::PtrToInt: o.c = o.w < o.w2 ? OC_TRUNC : o.w > o.w2 ? OC_ZEXT : OC_COPY; break;
        case Instruction::IntToPtr: o.c = o.w < o.w2 ? OC_TRUNC : o.w > o.w2 ? OC_ZEXT : OC_COPY; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: o.c = OC_COPY; break;
        default: o.c = OC_FPCONV; o.sub = CA->getOpcode(); break;
        }
        if (I.getType()->isVectorTy() && CA->getOpcode() != Instruction::BitCast) fatal("vector cast");
      } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
        o.c = OC_EXTRACTV; Type *T = EV->getAggregateOperand()->getType(); unsigned off = 0;
        for (unsigned ix : EV->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; k++) off += flatCount(ST->getElementType(k)); T = ST->getElementType(ix); } else { T = T->getArrayElementType(); off += ix * flatCount(T); } }
        o.a = opnd(EV->getAggregateOperand()); o.imm = off; o.n = flatCount(I.getType());
      } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
        o.c = OC_INSERTV; Type *T = I.getType(); unsigned off = 0;
        for (unsigned ix : IV->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; k++) off += flatCount(ST->getElementType(k)); T = ST->getElementType(ix); } else { T = T->getArrayElementType(); off += ix * flatCount(T); } }
        o.a = opnd(IV->getAggregateOperand()); o.b = opnd(IV->getInsertedValueOperand()); o.imm = off; o.n = flatCount(I.getType()); o.w2 = flatCount(IV->getInsertedValueOperand()->getType());
      } else if (auto *IE = dyn_cast<InsertElementInst>(&I)) { o.c = OC_VINS; o.a = opnd(IE->getOperand(0)); o.b = opnd(IE->getOperand(1)); o.e = opnd(IE->getOperand(2)); o.w2 = bitw(IE->getOperand(1)->getType());
      } else if (auto *EE = dyn_cast<ExtractElementInst>(&I)) { o.c = OC_VEXT; o.a = opnd(EE->getVectorOperand()); o.b = opnd(EE->getIndexOperand()); o.w2 = bitw(EE->getVectorOperand()->getType());
      } else if (isa<FreezeInst>(I)) { o.c = OC_COPY; o.a = opnd(I.getOperand(0)); o.w2 = o.w;
      } else if (isa<UnreachableInst>(I)) { o.c = OC_UNREACH;
      } else if (isa<FenceInst>(I)) { continue;
      } else { std::string s; raw_string_ostream os(s); I.print(os); fatal("unsupported instruction %s", s.c_str()); }
      f->ops.push_back(o);
    }
  }
  f->nslots = ns;
}

// ------------------------------------------------------------------ interpretation helpers
static inline Val &R(size_t base, int ix) { return ix >= 0 ? g_regs[base + ix] : g_consts[~ix]; }
static Val doBin(Kind k, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    if (w <= 64) {
      u64 x = a.lo, y = b.lo, r; u64 m = w == 64 ? ~0ull : (1ull << w) - 1;
      switch (k) {
      case K_ADD: r = x + y; break; case K_SUB: r = x - y; break; case K_MUL: r = x * y; break;
      case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break;
      case K_SHL: r = y >= w ? 0 : x << y; break; case K_LSHR: r = y >= w ? 0 : x >> y; break;
      default: r = (u64)foldBin(k, x, y, w);
      }
      return mkV(r & m);
    }
    u128 r = foldBin(k, ((u128)a.hi << 64) | a.lo, ((u128)b.hi << 64) | b.lo, w); return Val{(u64)r, (u64)(r >> 64), nullptr};
  }
  return fromE(mkBin(k, toE(a, w), toE(b, w)));
}
static Expr *isNanE(Expr *a) { unsigned w = a->w; u128 expm = w == 64 ? (u128)0x7ff0000000000000ull : 0x7f800000u; Expr *m = mkBin(K_AND, a, mkC(maskw(w - 1), w)); return mkCmp(K_ULT, mkC(expm, w), m); }
static Expr *fltE(Expr *a, Expr *b, bool orEq) { // ordered a<b or a<=b, assuming not NaN handled separately
  unsigned w = a->w; Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1);
  Expr *z = mkBin(K_AND, mkCmp(K_EQ, mkExtract(a, 0, w - 1), mkC(0, w - 1)), mkCmp(K_EQ, mkExtract(b, 0, w - 1), mkC(0, w - 1)));
  Expr *pp = mkCmp(orEq ? K_ULE : K_ULT, a, b), *nn = mkCmp(orEq ? K_ULE : K_ULT, b, a);
  Expr *r = mkIte(sa, mkIte(sb, nn, mkC(1, 1)), mkIte(sb, mkC(0, 1), pp));
  return orEq ? mkOr1(z, r) : mkAnd1(mkNot(z), r);
}
static Expr *feqE(Expr *a, Expr *b) { unsigned w = a->w; Expr *z = mkBin(K_AND, mkCmp(K_EQ, mkExtract(a, 0, w - 1), mkC(0, w - 1)), mkCmp(K_EQ, mkExtract(b, 0, w - 1), mkC(0, w - 1))); return mkOr1(z, mkCmp(K_EQ, a, b)); }
static long double ld80(const Val &v) { long double x = 0; memcpy(&x, &v, 10); return x; }
static Val of80(long double x) { Val v{0, 0, nullptr}; memcpy(&v, &x, 10); return v; }
static double dbl(const Val &v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v.lo, 8); return d; } uint32_t u = v.lo; float f; memcpy(&f, &u, 4); return f; }
static Val fcmpV(unsigned pred, const Val &a0, const Val &b0, unsigned w) {
  if (w == 80) {
    if (a0.e || b0.e) fatal("symbolic fp80 compare");
    long double a = ld80(a0), b = ld80(b0); bool un = a != a || b != b, r;
    switch (pred & 7) { case 0: r = false; break; case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a != b && !un; break; default: r = !un; }
    if (pred & 8) r = r || un; if (pred == FCmpInst::FCMP_UNO) r = un; if (pred == FCmpInst::FCMP_TRUE) r = true; return mkV(r);
  }
  if (!a0.e && !b0.e) {
    double a = dbl(a0, w), b = dbl(b0, w); bool un = a != a || b != b; bool r = false;
    if ((pred & 1) && a == b) r = true; if ((pred & 2) && a > b) r = true; if ((pred & 4) && a < b) r = true; if ((pred & 8) && un) r = true;
    return mkV(r);
  }
  Expr *a = toE(a0, w), *b = toE(b0, w);
  Expr *un = mkOr1(isNanE(a), isNanE(b)); Expr *r = mkC(0, 1);
  unsigned q = pred & 7;
  if (q == 7) r = mkC(1, 1);
  else if (q == 1) r = feqE(a, b); else if (q == 2) r = fltE(b, a, false); else if (q == 3) r = fltE(b, a, true); else if (q == 4) r = fltE(a, b, false); else if (q == 5) r = fltE(a, b, true); else if (q == 6) r = mkNot(feqE(a, b));
  if (pred & 8) return fromE(mkOr1(un, r));
  return fromE(mkAnd1(mkNot(un), r));
}
static Val fbinV(Kind k, const Val &a, const Val &b, unsigned w) {
  if (w == 80) {
    if (a.e || b.e) fatal("symbolic fp80 arithmetic");
    long double x = ld80(a), y = ld80(b); return of80(k == K_FADD ? x + y : k == K_FSUB ? x - y : k == K_FMUL ? x * y : k == K_FDIV ? x / y : fmodl(x, y));
  }
  if (!a.e && !b.e) { u128 r = foldF(k, w, a.lo, w, b.lo, 0); return mkV((u64)r); }
  return fromE(mkF(k, w, toE(a, w), toE(b, w)));
}
static Val fconv(unsigned opc, const Val &a, unsigned wf, unsigned wt) {
  if (wf == 80 || wt == 80) {
    if (a.e) fatal("symbolic fp80 conversion");
    switch (opc) {
    case Instruction::FPExt: return of80(dbl(a, wf));
    case Instruction::FPTrunc: { long double x = ld80(a); if (wt == 64) { double d = (double)x; u64 u; memcpy(&u, &d, 8); return mkV(u); } float f = (float)x; uint32_t u; memcpy(&u, &f, 4); return mkV(u); }
    case Instruction::FPToSI: { long double x = ld80(a); int64_t v = (int64_t)x; return mkV((u64)v & (u64)maskw(wt)); }
    case Instruction::FPToUI: { long double x = ld80(a); u64 v = (u64)x; return mkV(v & (u64)maskw(wt)); }
    case Instruction::SIToFP: return of80((long double)(int64_t)sx(a.lo, wf));
    case Instruction::UIToFP: return of80((long double)a.lo);
    }
  }
  Kind k = opc == Instruction::FPExt ? K_FEXT : opc == Instruction::FPTrunc ? K_FTRUNC : opc == Instruction::FPToSI ? K_F2S : opc == Instruction::FPToUI ? K_F2U : opc == Instruction::SIToFP ? K_S2F : K_U2F;
  if (wt > 64 && (k == K_F2S || k == K_F2U)) fatal("fp to int128");
  if (!a.e) return mkV((u64)foldF(k, wt, a.lo, wf, 0, 0));
  return fromE(mkF(k, wt, a.e));
}
static std::string readStr(u64 a) { std::string s; for (int i = 0; i < 100000; i++) { Val v = ldC(a + i, 1, 8); if (v.e) { s += '?'; continue; } if (!v.lo) break; s += (char)v.lo; } return s; }
static u64 conc(Val v, unsigned w = 64) { if (!v.e) return v.lo; return (u64)concretize(v.e); }

struct TagRun { Expr *val; unsigned len; u64 var0; };
static std::unordered_map<u64, TagRun> g_tags;
static std::unordered_map<std::string, unsigned> g_nameCount;
static std::string uniq(const std::string &n) { unsigned c = g_nameCount[n]++; return c ? n + "#" + std::to_string(c) : n; }
static std::vector<std::string> g_hostArgs;

static void popFrame() {
  Frame &fr = g_frames.back();
  for (size_t i = 0; i + 1 < fr.allocas.size(); i += 2) { setValid(fr.allocas[i], fr.allocas[i + 1], false); shClear(fr.allocas[i], fr.allocas[i + 1]); }
  stackTop = fr.stackSave; g_regTop = fr.base; g_frames.pop_back();
}
static u64 stackAlloc(u64 n, u64 align) {
  u64 a = (stackTop + 32 + align - 1) & ~(align - 1);
  if (a + n + 64 > A_END) { std::vector<u128> m = g_model; report("memerror", "stack overflow in " + where(), &m); pathDone("memerror", "stack overflow"); }
  stackTop = a + n; setValid(a, n, true); shClear(a, n ? n : 1); if (n <= (1u << 20)) memset((void *)a, 0xCD, n);
  g_frames.back().allocas.push_back(a); g_frames.back().allocas.push_back(n); return a;
}
static void pushFrame(Fn *f, int retSlot, bool isCatch) {
  if (!f->compiled) compileFn(f);
  if (g_frames.size() > 20000) { std::vector<u128> m = g_model; report("memerror", "call depth exceeded in " + where(), &m); pathDone("memerror", "call depth"); }
  Frame fr; fr.fn = f; fr.base = g_regTop; fr.pc = 0; fr.stackSave = stackTop; fr.retSlot = retSlot; fr.isCatch = isCatch; fr.vaArea = 0;
  g_regTop += f->nslots + 1;
  if (g_regs.size() < g_regTop + 64) g_regs.resize(g_regTop * 2 + 1024);
  g_frames.push_back(std::move(fr));
}
static inline void setRet(size_t callerBase, int slot, const Val &v) { if (slot >= 0) g_regs[callerBase + slot] = v; }
static void takeEdge(Frame &fr, int eix) {
  Edge &e = fr.fn->edges[eix];
  size_t n = e.copies.size();
  if (n == 1) { Val t = R(fr.base, e.copies[0].second); g_regs[fr.base + e.copies[0].first] = t; }
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = R(fr.base, e.copies[i].second); for (size_t i = 0; i < n; i++) g_regs[fr.base + e.copies[i].first] = t[i]; }
  fr.pc = fr.fn->bbStart[e.target];
}
static Val minmax(Kind k, bool wantFirst, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) { bool c = foldCmp(k, ((u128)a.hi << 64) | a.lo, ((u128)b.hi << 64) | b.lo, w); return c == wantFirst ? a : b; }
  Expr *x = toE(a, w), *y = toE(b, w); Expr *c = mkCmp(k, x, y); return fromE(wantFirst ? mkIte(c, x, y) : mkIte(c, y, x));
}
// va area: every variadic argument in an 8-byte slot (16 for wider)
static u64 buildVaArea(Frame &fr) {
  if (fr.vaArea) return fr.vaArea;
  u64 slotSz = low32 ? 4 : 8; u64 sz = 16;
  for (auto w : fr.varw) sz += w > 64 ? 32 : 16;
  u64 a = stackAlloc(sz, 16), p = a;
  for (size_t i = 0; i < fr.varargs.size(); i++) {
    unsigned w = fr.varw[i];
    if (w > 64) { p = (p + 15) & ~15ull; stC(p, 16, w == 80 ? 128 : w, fr.varargs[i]); p += 16; }
    else if (low32) { if (w == 64) { p = (p + 7) & ~7ull; stC(p, 8, 64, fr.varargs[i]); p += 8; } else { Val v = fr.varargs[i]; stC(p, 4, w, v); p += 4; } }
    else { Val v = fr.varargs[i]; if (v.e && v.e->w < 64) v.e = mkZext(v.e, 64); stC(p, 8, 64, v); p += slotSz; }
  }
  return fr.vaArea = a;
}
static bool intrinsic(Frame &fr, Op &o, CallInfo *ci) { // llvm.*
  const std::string &n = ci->name; size_t base = fr.base;
  auto A = [&](unsigned i) -> Val & { return R(base, ci->args[i]); };
  auto has = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  auto ret = [&](const Val &v) { g_regs[base + o.d] = v; };
  unsigned w = o.w;
  if (has("llvm.memcpy") || has("llvm.memmove")) { u64 len = conc(A(2)); u64 d = conc(A(0)), s = conc(A(1)); memCopy(d, s, len); return true; }
  if (has("llvm.memset")) { u64 len = conc(A(2)); u64 d = conc(A(0)); Val v = A(1); if (len && !validRange(d, len)) memError("memset", d, len); for (u64 i = 0; i < len; i++) stC(d + i, 1, 8, v); return true; }
  if (has("llvm.va_start")) {
    u64 ap = conc(A(0)); u64 area = buildVaArea(fr);
    Triple T(M->getTargetTriple());
    if (T.getArch() == Triple::x86_64) { stC(ap, 4, 32, mkV(48)); stC(ap + 4, 4, 32, mkV(176)); stC(ap + 8, 8, 64, mkV(area)); stC(ap + 16, 8, 64, mkV(0)); }
    else stC(ap, PW / 8, PW, mkV(area));
    return true;
  }
  if (has("llvm.va_end")) return true;
  if (has("llvm.va_copy")) { Triple T(M->getTargetTriple()); memCopy(conc(A(0)), conc(A(1)), T.getArch() == Triple::x86_64 ? 24 : PW / 8); return true; }
  if (has("llvm.umin")) { ret(minmax(K_ULT, true, A(0), A(1), w)); return true; }
  if (has("llvm.umax")) { ret(minmax(K_ULT, false, A(0), A(1), w)); return true; }
  if (has("llvm.smin")) { ret(minmax(K_SLT, true, A(0), A(1), w)); return true; }
  if (has("llvm.smax")) { ret(minmax(K_SLT, false, A(0), A(1), w)); return true; }
  if (has("llvm.abs")) { Expr *x = toE(A(0), w); ret(fromE(mkIte(mkCmp(K_SLT, x, mkC(0, w)), mkBin(K_SUB, mkC(0, w), x), x))); return true; }
  if (has("llvm.expect")) { ret(A(0)); return true; }
  if (has("llvm.is.constant")) { ret(mkV(0)); return true; }
  if (has("llvm.objectsize")) { ret(mkV(~0ull)); return true; }
  if (has("llvm.stacksave")) { ret(mkV(0)); return true; }
  if (has("llvm.stackrestore")) return true;
  if (has("llvm.trap") || has("llvm.ubsantrap")) { std::vector<u128> m = g_model; report("memerror", "trap in " + where(), &m); pathDone("memerror", "trap"); }
  if (has("llvm.bswap")) { Expr *x = toE(A(0), w), *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } ret(fromE(r)); return true; }
  if (has("llvm.ctpop")) { Expr *x = toE(A(0), w), *r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(x, i, 1), w)); ret(fromE(r)); return true; }
  if (has("llvm.ctlz")) { Expr *x = toE(A(0), w), *r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkC(w - 1 - i, w), r); ret(fromE(r)); return true; }
  if (has("llvm.cttz")) { Expr *x = toE(A(0), w), *r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkC(i, w), r); ret(fromE(r)); return true; }
  if (has("llvm.fshl") || has("llvm.fshr")) {
    Expr *hi = toE(A(0), w), *lo = toE(A(1), w), *s = mkBin(K_UREM, toE(A(2), w), mkC(w, w)); bool l = has("llvm.fshl");
    Expr *cat; if (w * 2 > 128) fatal("fsh wide"); cat = mkConcat(hi, lo); Expr *s2 = mkZext(s, 2 * w);
    Expr *r = l ? mkExtract(mkBin(K_SHL, cat, s2), w, w) : mkExtract(mkBin(K_LSHR, cat, s2), 0, w); ret(fromE(r)); return true;
  }
  if (n.find(".with.overflow") != std::string::npos) {
    unsigned ww = ci->aw[0]; bool sg = n[5] == 's'; Kind k = n.find("add") != std::string::npos ? K_ADD : n.find("sub") != std::string::npos ? K_SUB : K_MUL;
    Expr *x = toE(A(0), ww), *y = toE(A(1), ww); Expr *r = mkBin(k, x, y); Expr *ov;
    if (ww * 2 <= 128) { unsigned W = k == K_MUL ? ww * 2 : ww + 1; Expr *X = sg ? mkSext(x, W) : mkZext(x, W), *Y = sg ? mkSext(y, W) : mkZext(y, W); ov = mkNot(mkCmp(K_EQ, mkBin(k, X, Y), sg ? mkSext(r, W) : mkZext(r, W))); } else fatal("ovf width");
    g_regs[base + o.d] = fromE(r); g_regs[base + o.d + 1] = fromE(ov); return true;
  }
  if (has("llvm.usub.sat")) { Expr *x = toE(A(0), w), *y = toE(A(1), w); ret(fromE(mkIte(mkCmp(K_ULT, x, y), mkC(0, w), mkBin(K_SUB, x, y)))); return true; }
  if (has("llvm.uadd.sat")) { Expr *x = toE(A(0), w), *y = toE(A(1), w); Expr *s = mkBin(K_ADD, x, y); ret(fromE(mkIte(mkCmp(K_ULT, s, x), mkC(maskw(w), w), s))); return true; }
  if (has("llvm.fabs")) { if (w == 80) { ret(of80(fabsl(ld80(A(0))))); return true; } ret(fromE(mkBin(K_AND, toE(A(0), w), mkC(maskw(w - 1), w)))); return true; }
  if (has("llvm.copysign")) { Expr *x = toE(A(0), w), *y = toE(A(1), w); ret(fromE(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); return true; }
  if (has("llvm.sqrt")) { ret(fromE(mkF(K_FSQRT, w, toE(A(0), w)))); return true; }
  if (has("llvm.fmuladd")) { ret(fbinV(K_FADD, fbinV(K_FMUL, A(0), A(1), w), A(2), w)); return true; }
  if (has("llvm.trunc.")) { ret(fromE(mkF(K_FRINT, w, toE(A(0), w), nullptr, 0))); return true; }
  if (has("llvm.floor.")) { ret(fromE(mkF(K_FRINT, w, toE(A(0), w), nullptr, 1))); return true; }
  if (has("llvm.ceil.")) { ret(fromE(mkF(K_FRINT, w, toE(A(0), w), nullptr, 2))); return true; }
  if (has("llvm.round.")) { ret(fromE(mkF(K_FRINT, w, toE(A(0), w), nullptr, 3))); return true; }
  if (has("llvm.is.fpclass")) { u64 m = conc(A(1)); unsigned fw = ci->aw[0]; Expr *x = toE(A(0), fw); if (m == 3) { ret(fromE(isNanE(x))); return true; } fatal("fpclass %llu", (unsigned long long)m); }
  if (has("llvm.ptrmask")) { ret(doBin(K_AND, A(0), A(1), w)); return true; }
  if (has("llvm.prefetch") || has("llvm.donothing") || has("llvm.sideeffect") || has("llvm.var.annotation")) return true;
  if (has("llvm.launder") || has("llvm.strip") || has("llvm.ssa.copy") || has("llvm.ptr.annotation") || has("llvm.annotation")) { ret(A(0)); return true; }
  if (has("llvm.load.relative")) { u64 p = conc(A(0)), off = conc(A(1)); Val v = ldC(p + off, 4, 32); if (v.e) fatal("load.relative sym"); ret(mkV(p + (int64_t)(int32_t)v.lo)); return true; }
  return false;
}

static void doBuiltin(Frame &fr, Op &o, CallInfo *ci, int b, const std::string &fname) {
  size_t base = fr.base;
  auto A = [&](unsigned i) -> Val & { return R(base, ci->args[i]); };
  auto ret = [&](const Val &v) { if (o.d >= 0) g_regs[base + o.d] = v; };
  u64 pm = PW == 32 ? 0xffffffffull : ~0ull;
  switch (b) {
  case B_MALLOC: { u64 n = conc(A(0)); ret(mkV(heapAlloc(n))); return; }
  case B_CALLOC: { u64 n = conc(A(0)) * conc(A(1)); u64 a = heapAlloc(n); memset((void *)a, 0, n); ret(mkV(a)); return; }
  case B_REALLOC: {
    u64 p = conc(A(0)), n = conc(A(1)); if (!p) { ret(mkV(heapAlloc(n))); return; }
    u64 ob, os; if (!objExtent(p, &ob, &os)) { if (validRange(p - 1, 1)) memError("realloc", p, 0); os = 0; ob = p; } if (ob != p) memError("realloc of interior pointer", p, 0);
    u64 a = heapAlloc(n); u64 c = os < n ? os : n; if (c) memCopy(a, p, c); setValid(p, os, false); ret(mkV(a)); return; }
  case B_FREE: { u64 p = conc(A(0)); if (!p) return; u64 ob, os; if (!objExtent(p, &ob, &os)) { return; } if (ob != p) memError("free of interior pointer", p, 0); setValid(p, os, false); return; }
  case B_MEMCPY: case B_MEMMOVE: { u64 n = conc(A(2)); Val d = A(0); memCopy(conc(d), conc(A(1)), n); ret(d); return; }
  case B_MEMSET: { u64 n = conc(A(2)); u64 d = conc(A(0)); Val v = A(1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); if (n && !validRange(d, n)) memError("memset", d, n); for (u64 i = 0; i < n; i++) stC(d + i, 1, 8, v); ret(A(0)); return; }
  case B_ABORT: { std::vector<u128> m = g_model; std::string s = "abort() in " + where(); report("memerror", s, &m); pathDone("memerror", s); }
  case B_ASSERTFAIL: {
    std::string s = "assertion `" + readStr(conc(A(0))) + "' failed in " + where(); std::vector<u128> m = g_model;
    if (!g_modelOk) { SatRes r = solveT(g_pc, nullptr, &m, true, g_rlimit_assert); if (r == UNSAT) pathDone("infeasible", ""); }
    report("memerror", s, &m); pathDone("memerror", s); }
  case B_EXIT: {
    Val code = A(0);
    while (!g_frames.empty()) { bool c = g_frames.back().isCatch; int rs = g_frames.back().retSlot; popFrame(); if (c) { if (g_frames.empty()) break; Val v = code; if (v.e) v = fromE(mkBin(K_OR, mkBin(K_AND, v.e, mkC(0xff, 32)), mkC(0x10000, 32))); else v.lo = (v.lo & 0xff) | 0x10000; setRet(g_frames.back().base, rs, v); return; } }
    pathDone("exit", "exit outside catch"); }
  case B_SYMBOLIC: {
    u64 p = conc(A(0)), n = conc(A(1)); std::string nm = uniq(readStr(conc(A(2))));
    if (n && !validRange(p, n)) memError("symx_symbolic", p, n);
    if (n <= 8) { Expr *v = mkVar(n * 8, nm); stC(p, n, n * 8, Val{0, 0, v}); }
    else for (u64 i = 0; i < n; i++) stC(p + i, 1, 8, Val{0, 0, mkVar(8, nm + "[" + std::to_string(i) + "]")});
    return; }
  case B_ASSUME: { Val c = A(0); if (!c.e) { if (!c.lo) pathDone("assume", ""); return; } assume(mkNot(mkCmp(K_EQ, c.e, mkC(0, c.e->w)))); return; }
  case B_ASSERT: case B_ASSERTSOFT: { Val c = A(0); std::string msg = readStr(conc(A(1))); Expr *e = c.e ? mkNot(mkCmp(K_EQ, c.e, mkC(0, c.e->w))) : mkC(c.lo != 0, 1); checkAssert(e, msg, b == B_ASSERT); return; }
  case B_FAIL: checkAssert(mkC(0, 1), readStr(conc(A(0)))); return;
  case B_COVER: g_covers.insert(readStr(conc(A(0)))); return;
  case B_ISSYM: ret(mkV(A(0).e != nullptr)); return;
  case B_CONC: ret(mkV(conc(A(0)))); return;
  case B_PATHEND: pathDone("ok", readStr(conc(A(0))));
  case B_NOTE: fprintf(stderr, "note[%d]: %s\n", getpid(), readStr(conc(A(0))).c_str()); return;
  case B_PRINT: { Val v = A(1); fprintf(stderr, "print[%d]: %s = %s\n", getpid(), readStr(conc(A(0))).c_str(), v.e ? exprStr(v.e, 8).c_str() : (std::to_string((int64_t)v.lo) + " 0x" + [&] { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)v.lo); return std::string(b); }()).c_str()); return; }
  case B_CHOOSE: { // non-deterministic concrete choice
    u64 n = conc(A(0)); if (n == 0) pathDone("assume", "");
    u64 i = 0; for (; i + 1 < n; i++) if (doFork()) break;
    g_choices.push_back(i);
    ret(mkV(i)); return; }
  case B_LABEL: g_tag = readStr(conc(A(0))); return;
  case B_TAGRUN: { // symx_tagrun(char *dst, uint64_t val): 3 digit chars standing for the decimal rendering of val (>0)
    u64 d = conc(A(0)); Expr *v = toE(A(1), 64); u64 v0 = g_vars.size(); char nm[32];
    for (int i = 0; i < 3; i++) { snprintf(nm, 32, "digit%llu_%d", (unsigned long long)v0, i); Expr *x = mkVar(8, nm); stC(d + i, 1, 8, Val{0, 0, x});
      g_model.resize(g_vars.size(), 0); g_model[x->lo] = '1'; addPc(mkCmp(K_ULE, mkC(i == 0 ? '1' : '0', 8), x)); addPc(mkCmp(K_ULE, x, mkC('9', 8))); }
    g_tags[v0] = TagRun{v, 3, v0}; ret(mkV(3)); return; }
  case B_TAGAT: { // int symx_tag_at(const char *p, uint64_t *val)
    u64 p = conc(A(0)); Val c = validRange(p, 1) ? ldC(p, 1, 8) : mkV(0);
    if (!c.e || c.e->k != K_VAR) { ret(mkV(0)); return; }
    auto it = g_tags.find(c.e->lo); if (it == g_tags.end()) { ret(mkV(0)); return; }
    for (unsigned i = 1; i < it->second.len; i++) { Val d = ldC(p + i, 1, 8); if (!d.e || d.e->k != K_VAR || d.e->lo != it->second.var0 + i) { ret(mkV(0)); return; } }
    stC(conc(A(1)), 8, 64, fromE(it->second.val)); ret(mkV(it->second.len)); return; }
  case B_VALID: { ret(mkV(validRange(conc(A(0)), conc(A(1))))); return; }
  case B_OBJSIZE: { u64 ob, os; u64 p = conc(A(0)); ret(mkV(objExtent(p, &ob, &os) ? ob + os - p : 0)); return; }
  case B_MAYBE: { // is the condition possibly true (no fork)?
    Val c = A(0); if (!c.e) { ret(mkV(c.lo != 0)); return; }
    std::vector<u128> m; bool mok; SatRes r = feasible(mkNot(mkCmp(K_EQ, c.e, mkC(0, c.e->w))), &m, &mok); ret(mkV(r != UNSAT)); return; }
  case B_HOSTSIZE: { std::string s = readStr(conc(A(0))); FILE *f = fopen(s.c_str(), "rb"); if (!f) { ret(mkV(~0ull & pm)); return; } fseek(f, 0, SEEK_END); ret(mkV(ftell(f))); fclose(f); return; }
  case B_HOSTREAD: { std::string s = readStr(conc(A(0))); u64 d = conc(A(1)), n = conc(A(2)); FILE *f = fopen(s.c_str(), "rb"); if (!f) { ret(mkV(0)); return; } if (n && !validRange(d, n)) memError("host_read", d, n); std::vector<char> t(n + 1); size_t r = fread(t.data(), 1, n, f); fclose(f); for (size_t i = 0; i < r; i++) stC(d + i, 1, 8, mkV((unsigned char)t[i])); ret(mkV(r)); return; }
  case B_GETARG: { u64 i = conc(A(0)); if (i >= g_hostArgs.size()) { ret(mkV(0)); return; } std::string &s = g_hostArgs[i]; u64 a = heapAlloc(s.size() + 1); memcpy((void *)a, s.c_str(), s.size() + 1); ret(mkV(a)); return; }
  case B_STRTOLD: case B_STRTOD: {
    u64 p = conc(A(0)); std::string s; for (int i = 0; i < 128; i++) { if (!validRange(p + i, 1)) break; Val v = ldC(p + i, 1, 8); u64 c = v.e ? (u64)concretize(v.e) : v.lo; if (!c) break; s += (char)c; if (!strchr("0123456789abcdefABCDEFxX.+-pPinfINFtyTYnaNA", (int)c)) break; }
    char *end; if (b == B_STRTOLD) { long double x = strtold(s.c_str(), &end); ret(of80(x)); } else { double x = strtod(s.c_str(), &end); u64 u; memcpy(&u, &x, 8); ret(mkV(u)); }
    u64 ep = conc(A(1)); if (ep) stC(ep, PW / 8, PW, mkV(p + (end - s.c_str()))); return; }
  case B_LIBM1: {
    Val x = A(0); unsigned w = o.w;
    if (fname == "fabs") { ret(fromE(mkBin(K_AND, toE(x, w), mkC(maskw(w - 1), w)))); return; }
    if (fname == "sqrt") { ret(fromE(mkF(K_FSQRT, w, toE(x, w)))); return; }
    ret(fromE(mkF(K_FRINT, w, toE(x, w), nullptr, fname == "trunc" ? 0 : fname == "floor" ? 1 : fname == "ceil" ? 2 : 3))); return; }
  case B_LIBM2: { if (A(0).e || A(1).e) { if (fname == "fmod") { ret(fromE(mkF(K_FREM, 64, toE(A(0), 64), toE(A(1), 64)))); return; } fatal("symbolic %s", fname.c_str()); } double x = dbl(A(0), 64), y = dbl(A(1), 64), r = fname == "fmod" ? fmod(x, y) : pow(x, y); u64 u; memcpy(&u, &r, 8); ret(mkV(u)); return; }
  case B_FREXP: { if (A(0).e) fatal("symbolic frexp"); int e; double r = frexp(dbl(A(0), 64), &e); stC(conc(A(1)), 4, 32, mkV((uint32_t)e)); u64 u; memcpy(&u, &r, 8); ret(mkV(u)); return; }
  case B_LDEXP: { if (A(0).e || A(1).e) fatal("symbolic ldexp"); double r = ldexp(dbl(A(0), 64), (int)A(1).lo); u64 u; memcpy(&u, &r, 8); ret(mkV(u)); return; }
  case B_SNPRINTF_LD: { // int symx_snprintf_ld(char*buf, size_t n, const char*fmt, long double v)
    u64 d = conc(A(0)), n = conc(A(1)); std::string f = readStr(conc(A(2))); char buf[512]; Val v = A(3); if (v.e) fatal("print symbolic float");
    int r = ci->aw[3] == 80 ? snprintf(buf, sizeof buf, f.c_str(), ld80(v)) : snprintf(buf, sizeof buf, f.c_str(), dbl(v, ci->aw[3]));
    for (int i = 0; i <= r && (u64)i < n; i++) stC(d + i, 1, 8, mkV((unsigned char)buf[i])); ret(mkV((uint32_t)r)); return; }
  }
  fatal("unknown builtin %s", fname.c_str());
}

static void callFn(Frame &fr0, Op &o, CallInfo *ci, Fn *f, bool isCatch) {
  size_t cb = fr0.base;
  // gather args first (pushFrame may reallocate registers)
  pushFrame(f, o.d, isCatch);
  Frame &fr = g_frames.back();
  unsigned na = f->nargs;
  for (unsigned i = 0; i < ci->args.size(); i++) {
    if (ci->aw[i] > 1000) { unsigned c = ci->aw[i] - 1000; if (i < na) for (unsigned k = 0; k < c; k++) g_regs[fr.base + f->argSlots[i] + k] = R(cb, ci->args[i] >= 0 ? ci->args[i] + (int)k : ci->args[i] - (int)k); else fatal("aggregate vararg"); continue; }
    Val v = R(cb, ci->args[i]);
    if (ci->byval[i]) { u64 src = conc(v); u64 d = stackAlloc(ci->byval[i], 16); memCopy(d, src, ci->byval[i]); v = mkV(d); }
    if (i < na) g_regs[fr.base + f->argSlots[i]] = v; else { fr.varargs.push_back(v); fr.varw.push_back(ci->aw[i]); }
  }
}

static void run() {
  u64 tick = 0;
  for (;;) {
    Frame &fr = g_frames.back();
    Op &o = fr.fn->ops[fr.pc++];
    size_t base = fr.base;
    g_steps++;
    if ((++tick & 0xfffff) == 0) { checkLimits(); if (g_steps > o_maxSteps) { __sync_fetch_and_add(&sh->limits, 1); pathDone("limit", "step limit in " + where()); } }
    switch (o.c) {
    case OC_BIN: {
      const Val &a = R(base, o.a), &b = R(base, o.b);
      if (o.w2 != o.w) { // vector
        Expr *r = nullptr; for (unsigned i = 0; i < o.w; i += o.w2) { Expr *x = mkBin((Kind)o.sub, mkExtract(toE(a, o.w), i, o.w2), mkExtract(toE(b, o.w), i, o.w2)); r = r ? mkConcat(x, r) : x; } g_regs[base + o.d] = fromE(r); break; }
      if (o.sub >= K_UDIV && o.sub <= K_SREM) {
        if (!b.e) { if (b.lo == 0 && b.hi == 0) { std::vector<u128> m = g_model; if (!g_modelOk && solveT(g_pc, nullptr, &m, true, g_rlimit_assert) == UNSAT) pathDone("infeasible", ""); std::string s = "division by zero in " + where(); report("divzero", s, &m); pathDone("divzero", s); } }
        else if (decide(mkCmp(K_EQ, b.e, mkC(0, o.w)))) { std::vector<u128> m = g_model; std::string s = "division by zero in " + where(); report("divzero", s, &m); pathDone("divzero", s); }
      }
      g_regs[base + o.d] = doBin((Kind)o.sub, R(base, o.a), R(base, o.b), o.w); break; }
    case OC_CMP: {
      const Val &a = R(base, o.a), &b = R(base, o.b); unsigned w = o.w2;
      if (!a.e && !b.e && w <= 64) {
        u64 x = a.lo, y = b.lo; bool r; int64_t s = (int64_t)(x << (64 - w)), t = (int64_t)(y << (64 - w));
        switch (o.sub) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; case CmpInst::ICMP_SGT: r = s > t; break; default: r = s >= t; }
        g_regs[base + o.d] = mkV(r); break;
      }
      Expr *x = toE(a, w), *y = toE(b, w), *r;
      switch (o.sub) {
      case CmpInst::ICMP_EQ: r = mkCmp(K_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkCmp(K_EQ, x, y)); break; case CmpInst::ICMP_ULT: r = mkCmp(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(K_ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkCmp(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(K_ULE, y, x); break;
      case CmpInst::ICMP_SLT: r = mkCmp(K_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkCmp(K_SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkCmp(K_SLT, y, x); break; default: r = mkCmp(K_SLE, y, x); }
      g_regs[base + o.d] = fromE(r); break; }
    case OC_FCMP: g_regs[base + o.d] = fcmpV(o.sub, R(base, o.a), R(base, o.b), o.w2); break;
    case OC_FBIN: g_regs[base + o.d] = fbinV((Kind)o.sub, R(base, o.a), R(base, o.b), o.w); break;
    case OC_FNEG: { Val &a = R(base, o.a); if (o.w == 80) { g_regs[base + o.d] = of80(-ld80(a)); break; } g_regs[base + o.d] = doBin(K_XOR, a, mkV(o.w == 64 ? 1ull << 63 : 1ull << 31), o.w); break; }
    case OC_SELECT: {
      Val &c = R(base, o.a);
      if (!c.e) { int s = c.lo ? o.b : o.e; if (o.n == 1) { Val t = R(base, s); g_regs[base + o.d] = t; } else for (unsigned i = 0; i < o.n; i++) { Val t = R(base, s >= 0 ? s + (int)i : s - (int)i); g_regs[base + o.d + i] = t; } break; }
      if (o.n != 1 || o.w == 80) { bool v = decide(c.e); Frame &f2 = g_frames.back(); int s = v ? o.b : o.e; for (unsigned i = 0; i < o.n; i++) { Val t = R(f2.base, s >= 0 ? s + (int)i : s - (int)i); g_regs[f2.base + o.d + i] = t; } break; }
      g_regs[base + o.d] = fromE(mkIte(c.e, toE(R(base, o.b), o.w), toE(R(base, o.e), o.w))); break; }
    case OC_LOAD: { Val v = ld(R(base, o.a), o.imm, o.w); g_regs[base + o.d] = v; break; }
    case OC_STORE: { Val v = R(base, o.b); st(R(base, o.a), o.imm, o.w, v); break; }
    case OC_GEP: {
      Val p = R(base, o.a); auto *ts = (std::vector<GepTerm> *)o.x; bool sym = p.e; u64 m = PW == 32 ? 0xffffffffull : ~0ull;
      for (auto &t : *ts) if (R(base, t.idx).e) sym = true;
      if (!sym) { u64 a = p.lo + o.imm; for (auto &t : *ts) { u64 ix = R(base, t.idx).lo; if (t.iw < 64) ix = (u64)sx(ix, t.iw); a += ix * t.scale; } g_regs[base + o.d] = mkV(a & m); break; }
      Expr *a = mkBin(K_ADD, toE(p, PW), mkC(o.imm, PW));
      for (auto &t : *ts) { Expr *ix = toE(R(base, t.idx), t.iw); ix = t.iw < PW ? mkSext(ix, PW) : t.iw > PW ? mkExtract(ix, 0, PW) : ix; a = mkBin(K_ADD, a, mkBin(K_MUL, ix, mkC(t.scale, PW))); }
      g_regs[base + o.d] = fromE(a); break; }
    case OC_ALLOCA: { u64 n = conc(R(base, o.a)); u64 a = stackAlloc(o.imm * n, o.n); g_regs[g_frames.back().base + o.d] = mkV(a); break; }
    case OC_CALL: {
      CallInfo *ci = (CallInfo *)o.x; Fn *f = ci->fn;
      if (!f) {
        if (ci->name == "<inline asm>") { if (o.d >= 0) g_regs[base + o.d] = mkV(0); break; }
        u64 a = conc(R(base, ci->callee)); auto it = g_fnByAddr.find(a); if (it == g_fnByAddr.end()) memError("call through bad pointer", a, 0); f = it->second;
      }
      if (f->F->isDeclaration()) {
        if (f->name.compare(0, 5, "llvm.") == 0) { if (!intrinsic(g_frames.back(), o, ci)) fatal("intrinsic %s", f->name.c_str()); break; }
        if (f->builtin == B_CATCH) { // int symx_catch(int (*fn)(void*), void *arg)
          u64 a = conc(R(base, ci->args[0])); auto it = g_fnByAddr.find(a); if (it == g_fnByAddr.end()) fatal("catch target");
          Val arg = R(base, ci->args[1]); Fn *g = it->second; int d = o.d; pushFrame(g, d, true); if (g->nargs) g_regs[g_frames.back().base + g->argSlots[0]] = arg; break; }
        if (f->builtin < 0) fatal("call to unmodelled function %s", f->name.c_str());
        doBuiltin(fr, o, ci, f->builtin, f->name); break;
      }
      callFn(fr, o, ci, f, false); break; }
    case OC_RET: {
      Val tmp[8]; std::vector<Val> big; Val *t = tmp; unsigned n = o.n; if (n > 8) { big.resize(n); t = big.data(); }
      for (unsigned i = 0; i < n; i++) t[i] = R(base, o.a >= 0 ? o.a + (int)i : o.a - (int)i);
      int rs = fr.retSlot; popFrame();
      if (g_frames.empty()) pathDone("ok", "");
      if (rs >= 0) for (unsigned i = 0; i < n; i++) g_regs[g_frames.back().base + rs + i] = t[i];
      break; }
    case OC_BR: takeEdge(fr, o.ed0); break;
    case OC_CBR: { Val &c = R(base, o.a); bool v = c.e ? decide(c.e) : c.lo != 0; takeEdge(g_frames.back(), v ? o.ed0 : o.ed1); break; }
    case OC_SWITCH: {
      auto *si = (SwitchInfo *)o.x; Val c = R(base, o.a);
      if (!c.e) { int e = si->def; for (auto &k : si->cases) if ((u64)k.first == c.lo) { e = k.second; break; } takeEdge(fr, e); break; }
      std::vector<std::pair<int, Expr *>> groups;
      for (auto &k : si->cases) { Expr *eq = mkCmp(K_EQ, c.e, mkC(k.first, o.w2)); if (isCv(eq, 0)) continue; bool f = false; for (auto &g : groups) if (g.first == k.second) { g.second = mkOr1(g.second, eq); f = true; break; } if (!f) groups.push_back({k.second, eq}); }
      int e = si->def; for (auto &g : groups) if (decide(g.second)) { e = g.first; break; }
      takeEdge(g_frames.back(), e); break; }
    case OC_TRUNC: { Val &a = R(base, o.a); if (!a.e) { u128 v = (((u128)a.hi << 64) | a.lo) & maskw(o.w); g_regs[base + o.d] = Val{(u64)v, (u64)(v >> 64), nullptr}; } else g_regs[base + o.d] = fromE(mkExtract(a.e, 0, o.w)); break; }
    case OC_ZEXT: { Val &a = R(base, o.a); if (!a.e) { Val t = a; g_regs[base + o.d] = t; } else g_regs[base + o.d] = fromE(mkZext(a.e, o.w)); break; }
    case OC_SEXT: { Val &a = R(base, o.a); if (!a.e) { u128 v = (u128)sx(((u128)a.hi << 64) | a.lo, o.w2) & maskw(o.w); g_regs[base + o.d] = Val{(u64)v, (u64)(v >> 64), nullptr}; } else g_regs[base + o.d] = fromE(mkSext(a.e, o.w)); break; }
    case OC_COPY: { Val t = R(base, o.a); g_regs[base + o.d] = t; break; }
    case OC_FPCONV: g_regs[base + o.d] = fconv(o.sub, R(base, o.a), o.w2, o.w); break;
    case OC_EXTRACTV: for (unsigned i = 0; i < o.n; i++) { int s = o.a >= 0 ? o.a + (int)(o.imm + i) : o.a - (int)(o.imm + i); Val t = R(base, s); g_regs[base + o.d + i] = t; } break;
    case OC_INSERTV: {
      for (unsigned i = 0; i < o.n; i++) { Val t = R(base, o.a >= 0 ? o.a + (int)i : o.a - (int)i); g_regs[base + o.d + i] = t; }
      for (unsigned i = 0; i < o.w2; i++) { Val t = R(base, o.b >= 0 ? o.b + (int)i : o.b - (int)i); g_regs[base + o.d + o.imm + i] = t; } break; }
    case OC_VINS: { u64 ix = conc(R(base, o.e)); unsigned ew = o.w2; Expr *v = toE(R(base, o.a), o.w), *x = toE(R(base, o.b), ew); Expr *r = nullptr; for (unsigned i = 0; i < o.w / ew; i++) { Expr *p = i == ix ? x : mkExtract(v, i * ew, ew); r = r ? mkConcat(p, r) : p; } g_regs[base + o.d] = fromE(r); break; }
    case OC_VEXT: { u64 ix = conc(R(base, o.b)); g_regs[base + o.d] = fromE(mkExtract(toE(R(base, o.a), o.w2), ix * o.w, o.w)); break; }
    case OC_UNREACH: { std::vector<u128> m = g_model; std::string s = "unreachable executed in " + where(); report("memerror", s, &m); pathDone("memerror", s); }
    default: fatal("op %d", o.c);
    }
  }
}

int main(int argc, char **argv) {
  const char *file = nullptr; std::string entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--timeout") o_timeout = atof(argv[++i]); else if (a == "--grace") o_grace = atof(argv[++i]); else if (a == "--jobs") o_jobs = atoi(argv[++i]); else if (a == "--max-paths") o_maxPaths = atoll(argv[++i]); else if (a == "--max-steps") o_maxSteps = atoll(argv[++i]);
    else if (a == "--out") o_out = argv[++i]; else if (a == "--arg") g_hostArgs.push_back(argv[++i]); else if (a == "--rlimit") g_rlimit_assert = atoll(argv[++i]); else if (a == "--max-ite") o_maxIte = atoi(argv[++i]); else if (a == "--max-conc") o_maxConc = atoi(argv[++i]); else if (a == "--query-alarm") o_queryAlarm = atoi(argv[++i]); else file = argv[i];
  }
  if (!file) { fprintf(stderr, "usage: symx file.bc [--entry f] ...\n"); return 2; }
  g_outfd = open(o_out, O_WRONLY | O_CREAT | O_APPEND, 0644);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&sh->slots, 1, o_jobs > 1 ? o_jobs - 1 : 0); sh->deadline = now() + o_timeout;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  signal(SIGALRM, onAlarm);
  solverInit();
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get(); static DataLayout dl(M); DL = &dl; PW = DL->getPointerSizeInBits(); low32 = PW == 32;
  A_BASE = low32 ? 0x20000000ull : 0x200000000000ull; A_END = A_BASE + A_SIZE;
  if (mmap((void *)A_BASE, A_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)A_BASE) { perror("mmap arena"); return 2; }
  validBits = (unsigned char *)mmap(0, A_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shPages = (Expr ***)mmap(0, (A_SIZE >> 12) * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  heapTop = A_BASE + 4096; stackLimit = A_BASE + A_SIZE * 3 / 4; stackTop = stackLimit + 4096;
  for (auto &G : M->globals()) { u64 n = DL->getTypeAllocSize(G.getValueType()); u64 al = std::max<u64>(G.getAlign() ? G.getAlign()->value() : 1, 16); u64 a = heapAlloc(n, al); memset((void *)a, 0, n); g_globals[&G] = a; if (G.isDeclaration() && o_verbose) fprintf(stderr, "undefined global %s\n", G.getName().str().c_str()); }
  for (auto &F : *M) fnOf(&F);
  for (auto &G : M->globals()) if (G.hasInitializer()) initMem(g_globals[&G], G.getInitializer());
  g_regs.resize(1 << 16);
  Function *E = M->getFunction(entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 2; }
  fnOf(E); pushFrame(fnOf(E), -1, false);
  // the root explores in a child so that the summary is written by a clean parent
  pid_t p = fork();
  if (p == 0) { g_isRoot = false; run(); }
  waitChildren();
  char b[256]; snprintf(b, sizeof b, "{\"kind\":\"summary\",\"paths\":%llu,\"forks\":%llu,\"violations\":%llu,\"limits\":%llu}", (unsigned long long)sh->paths, (unsigned long long)sh->forks, (unsigned long long)sh->violations, (unsigned long long)sh->limits);
  emitLine(b);
  return 0;
}
