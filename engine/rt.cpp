// Symbolic runtime: shadow memory, expression building (error-tracked ideal
// reals for doubles, bit-vectors for integers), path condition, solver,
// decision scheduling and the coordinator.
#include "poly.h"
#include "sx.h"
#include <z3++.h>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <limits>
#include <memory>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <deque>
#include <atomic>
#include <new>

typedef int64_t i64; typedef uint64_t u64;
extern "C" {
extern void *_sym_args[48]; void *_sym_args[48];
void *_sym_ret[8];
void *_sym_callee;
size_t __sanitizer_get_allocated_size(const volatile void *p);
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
void __asan_set_error_report_callback(void (*)(const char *));
void __sanitizer_set_death_callback(void (*)(void));
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ---------------------------------------------------------------- expressions
enum EK { FP, BV };
struct Expr {
  EK k; int width;
  // FP
  Poly p; double lo, hi, ea, er; int gran; int errAtom = -1; bool nn = false; // nn: the double itself is never negative
  Poly act; bool hasAct = false;
  // BV
  Z3_ast ast = nullptr;
};
std::vector<Atom> atoms;

static z3::context *Z; static z3::solver *SR, *SB; // reals, bit-vectors
static bool inRt = false;
// The engine's own allocations (solver included) come from an arena of its own: they need no
// red zones or quarantine, and reusing warm pages keeps the forked paths cheap.  Everything
// the code under test allocates still goes to the sanitizer.
namespace heap {
static const size_t SPAN = 64ull << 30;
static char *base = nullptr, *cur = nullptr, *end = nullptr;
static void *freel[128]; static std::atomic_flag lk = ATOMIC_FLAG_INIT;
static unsigned cls(size_t n, size_t &sz) { // n > 0
  if (n <= 1024) { unsigned c = (n + 15) / 16; sz = c * 16; return c; }
  unsigned b = 63 - __builtin_clzll(n - 1); size_t half = (1ull << b) + (1ull << (b - 1)); if (n <= half) { sz = half; return 65 + (b - 10) * 2; } sz = 2ull << b; return 66 + (b - 10) * 2;
}
static bool own(const void *p) { return (char *)p >= base && (char *)p < end && base; }
static void *get(size_t n) {
  size_t sz; if (!n) n = 1; unsigned c = cls(n, sz); if (c >= 128) return nullptr;
  while (lk.test_and_set(std::memory_order_acquire));
  if (!base) { void *m = mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { lk.clear(); return nullptr; } base = cur = (char *)m; end = base + SPAN; }
  void *r = freel[c];
  if (r) freel[c] = *(void **)r;
  else if (cur + sz + 16 > end) r = nullptr;
  else { r = cur + 16; ((u64 *)cur)[0] = c; ((u64 *)cur)[1] = sz; cur += sz + 16; }
  lk.clear(std::memory_order_release);
  return r;
}
static size_t size(const void *p) { return ((u64 *)p)[-1]; }
static void put(void *p) { u64 c = ((u64 *)p)[-2]; while (lk.test_and_set(std::memory_order_acquire)); *(void **)p = freel[c]; freel[c] = p; lk.clear(std::memory_order_release); }
}
extern "C" {
void *__interceptor_malloc(size_t); void *__interceptor_calloc(size_t, size_t); void *__interceptor_realloc(void *, size_t); void __interceptor_free(void *); size_t __interceptor_malloc_usable_size(void *);
void *malloc(size_t n) { return inRt ? heap::get(n) : __interceptor_malloc(n); }
void free(void *p) { if (heap::own(p)) heap::put(p); else __interceptor_free(p); }
void *calloc(size_t a, size_t b) { if (!inRt) return __interceptor_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *r = heap::get(n); if (r) memset(r, 0, n); return r; }
void *realloc(void *p, size_t n) {
  if (!heap::own(p)) { if (p || !inRt) return __interceptor_realloc(p, n); return heap::get(n); }
  if (!n) { heap::put(p); return nullptr; }
  if (n <= heap::size(p)) return p;
  void *r = inRt ? heap::get(n) : __interceptor_malloc(n); if (r) { memcpy(r, p, heap::size(p)); heap::put(p); } return r; }
size_t malloc_usable_size(void *p) { return heap::own(p) ? heap::size(p) : __interceptor_malloc_usable_size(p); }
}
static void *newOrThrow(size_t n) { void *p = inRt ? heap::get(n) : __interceptor_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return newOrThrow(n); }
void *operator new[](size_t n) { return newOrThrow(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
struct RtG { bool o; RtG() : o(inRt) { inRt = true; } ~RtG() { inRt = o; } };

struct Input { char kind; std::string name; double d; u64 u; double lo, hi; u64 ulo, uhi; int gran; int atom = -1; Z3_ast ast = nullptr; };
struct Item { int harness; std::vector<char> prefix; std::vector<double> dv; std::vector<u64> uv; bool nomodel = false; int tries = 0; };

static Item cur;
static std::vector<Input> inputs;
static size_t dpos = 0, dIdx = 0, uIdx = 0;
static std::vector<char> trail;
static bool diverged = false;
static unsigned seed = 1;
static double tEnd = 1e300;
static int qTimeout = 2000, maxDecisions = 4000;
static bool dbg = false;

// statistics of one path, sent to the coordinator
struct Stats { u64 qsat = 0, qunsat = 0, qunk = 0, qassert = 0; double tsolve = 0; u64 quick = 0, decisions = 0; u64 mism = 0; };
static Stats st;

// ---- reporting channel (shared memory, records are length-prefixed strings)
static char *chan; static size_t chanCap; static u64 *chanLen;
static void emit(const std::string &r) {
  if (!chan) return;
  if (*chanLen + r.size() + 8 > chanCap) return;
  u64 n = r.size(); memcpy(chan + *chanLen, &n, 8); memcpy(chan + *chanLen + 8, r.data(), n); *chanLen += 8 + n;
}
static std::set<std::string> emitted;
static void emit1(const std::string &r) { if (emitted.insert(r).second) emit(r); }
static std::string serItem(const Item &it) {
  std::string s; auto put = [&](const void *p, size_t n) { s.append((const char *)p, n); };
  int n = it.prefix.size(), d = it.dv.size(), u = it.uv.size(); char nm = it.nomodel; 
  put(&it.harness, 4); put(&n, 4); put(it.prefix.data(), n); put(&d, 4); put(it.dv.data(), 8 * d); put(&u, 4); put(it.uv.data(), 8 * u); put(&nm, 1); put(&it.tries, 4);
  return s;
}
static Item desItem(const char *p) {
  Item it; int n;
  memcpy(&it.harness, p, 4); p += 4; memcpy(&n, p, 4); p += 4; it.prefix.assign(p, p + n); p += n;
  memcpy(&n, p, 4); p += 4; it.dv.resize(n); memcpy(it.dv.data(), p, 8 * n); p += 8 * n;
  memcpy(&n, p, 4); p += 4; it.uv.resize(n); memcpy(it.uv.data(), p, 8 * n); p += 8 * n;
  it.nomodel = *p++; memcpy(&it.tries, p, 4);
  return it;
}
static std::string inputLine(const Input &i) {
  char b[200];
  if (i.kind == 'd') snprintf(b, sizeof b, "d %s %a %.17g\n", i.name.c_str(), i.d, i.d);
  else snprintf(b, sizeof b, "%c %s %llu\n", i.kind, i.name.c_str(), (unsigned long long)i.u);
  return b;
}
static std::string inputText() { std::string s; for (auto &i : inputs) s += inputLine(i); return s; }
// the inputs so far, where the parent finds them should this process hang or be killed
static char *inLog = nullptr; static const size_t inLogCap = 1 << 16;
static void pushInput(const Input &i) { inputs.push_back(i); if (!inLog) return; std::string l = inputLine(i); u64 &n = *(u64 *)inLog; if (n + l.size() + 8 > inLogCap) return; memcpy(inLog + 8 + n, l.data(), l.size()); n += l.size(); }
[[noreturn]] static void finish(const char *how) {
  inRt = true;
  char b[400];
  snprintf(b, sizeof b, "E%s\n%llu %llu %llu %llu %llu %llu %llu %.6f %d", how, (unsigned long long)st.qsat, (unsigned long long)st.qunsat, (unsigned long long)st.qunk, (unsigned long long)st.qassert, (unsigned long long)st.quick, (unsigned long long)st.decisions, (unsigned long long)st.mism, st.tsolve, diverged ? 1 : 0);
  emit(b);
  emit("I" + inputText());
  _exit(0);
}
static void violation(const std::string &label, const char *cls) {
  // cls: C = concretely observed on this native run
  emit(std::string("V") + cls + (diverged ? "D" : "N") + label + "\n" + inputText());
}
static void incomplete(const std::string &why) { if (dbg) { fprintf(stderr, "INCOMPLETE %s\n", why.c_str()); void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); } emit1("X" + why); }

// ---------------------------------------------------------------- shadow memory
struct Cell { Expr *e[8]; unsigned char sz[8]; }; // for granule: entry at byte offset o with size sz
struct Page { int cnt; Cell *c[512]; };
static std::unordered_map<u64, Page *> pages;
static unsigned char pbits[1 << 16];
static inline bool maybe(u64 a) { return pbits[(a >> 12) & 0xffff]; }
static Page *pageOf(u64 a, bool mk) {
  auto it = pages.find(a >> 12);
  if (it != pages.end()) return it->second;
  if (!mk) return nullptr;
  Page *p = new Page(); memset(p, 0, sizeof *p); pages[a >> 12] = p; pbits[(a >> 12) & 0xffff] = 1; return p;
}
static Expr *byteOf(Expr *w, unsigned off, unsigned n = 1) { // n bytes of a wider integer
  z3::expr ex = z3::expr(*Z, w->ast).extract(8 * (off + n) - 1, 8 * off).simplify();
  if (ex.is_numeral()) return nullptr;
  Expr *r = new Expr(); r->k = BV; r->width = 8 * n; r->ast = ex; Z3_inc_ref(*Z, ex); return r;
}
static void clearRange(u64 a, u64 n, bool dead = false) { // dead: fresh storage, whatever straddled its border is stale
  if (n == 0) return;
  u64 end = a + n;
  for (u64 pg = a >> 12; pg <= (end - 1) >> 12; pg++) {
    if (!pbits[pg & 0xffff]) continue;
    auto it = pages.find(pg); if (it == pages.end() || it->second->cnt == 0) continue;
    Page *p = it->second;
    u64 s = std::max(a, pg << 12), e = std::min(end, (pg + 1) << 12);
    for (u64 g = s >> 3; g <= (e - 1) >> 3; g++) {
      Cell *c = p->c[g & 511]; if (!c) continue;
      u64 base = g << 3;
      for (int o = 0; o < 8; o++) if (c->e[o]) {
        u64 x = base + o, y = x + c->sz[o];
        if (x < e && y > s) {
          // partial overwrite of a wider cell: keep the other bytes
          Expr *w = c->e[o]; c->e[o] = nullptr; p->cnt--;
          if (!dead && (x < s || y > e)) {
            if (w->k == BV) { for (u64 z = x; z < y; z++) if (z < s || z >= e) if (Expr *q = byteOf(w, z - x)) { c->e[z & 7] = q; c->sz[z & 7] = 1; p->cnt++; } }
            else incomplete("partial overwrite of a symbolic cell");
          }
        }
      }
    }
  }
}
static void setCell(u64 a, u64 n, Expr *e) {
  clearRange(a, n);
  if (!e) return;
  if ((a & 7) + n > 8) {
    if (e->k == BV && (u64)e->width == 8 * n) { for (u64 i = 0; i < n; i++) if (Expr *q = byteOf(e, i)) setCell(a + i, 1, q); }
    else incomplete("unaligned symbolic cell");
    return;
  }
  Page *p = pageOf(a, true);
  Cell *&c = p->c[(a >> 3) & 511];
  if (!c) { c = new Cell(); memset(c, 0, sizeof *c); }
  c->e[a & 7] = e; c->sz[a & 7] = n; p->cnt++;
}
static Expr *getCell(u64 a, u64 n) {
  if (!maybe(a)) return nullptr;
  Page *p = pageOf(a, false); if (!p || !p->cnt) return nullptr;
  if (n > 1 && n <= 8 && (a & 7) + n > 8) { // straddles two granules: byte by byte
    z3::expr v(*Z); bool any = false;
    for (u64 i = n; i-- > 0;) { Expr *b = getCell(a + i, 1); if (b) any = true; z3::expr x = b ? z3::expr(*Z, b->ast) : Z->bv_val((unsigned)*(unsigned char *)(a + i), 8); if (i == n - 1) v = x; else v = z3::concat(v, x); }
    if (!any) return nullptr;
    Expr *r = new Expr(); r->k = BV; r->width = 8 * n; z3::expr q = v.simplify(); r->ast = q; Z3_inc_ref(*Z, q); return r;
  }
  Cell *c = p->c[(a >> 3) & 511]; if (!c) return nullptr;
  Expr *e = c->e[a & 7];
  if (e && c->sz[a & 7] == n) return e;
  // other overlaps
  for (int o = 0; o < 8; o++) if (c->e[o]) {
    u64 x = (a & ~7ull) + o, y = x + c->sz[o];
    if (x < a + n && y > a) {
      Expr *w = c->e[o];
      if (w->k == BV && x <= a && a + n <= y) { // sub-read of a wider integer
        Expr *r = new Expr(); r->k = BV; r->width = 8 * n;
        unsigned lowb = (a - x) * 8;
        z3::expr ex = z3::expr(*Z, w->ast).extract(lowb + 8 * n - 1, lowb).simplify();
        r->ast = ex; Z3_inc_ref(*Z, r->ast); return r;
      }
      if (w->k == BV && n > 1 && n <= 8) { // composed of narrower cells and concrete bytes
        z3::expr v(*Z);
        for (u64 i = n; i-- > 0;) { Expr *b = getCell(a + i, 1); z3::expr x = b ? z3::expr(*Z, b->ast) : Z->bv_val((unsigned)*(unsigned char *)(a + i), 8); if (i == n - 1) v = x; else v = z3::concat(v, x); }
        Expr *r = new Expr(); r->k = BV; r->width = 8 * n; z3::expr q = v.simplify(); r->ast = q; Z3_inc_ref(*Z, q); return r;
      }
      incomplete("partial read of a symbolic cell");
    }
  }
  return nullptr;
}

// ---------------------------------------------------------------- solver side
static std::vector<Z3_ast> z3atom;  // real constant per atom
static std::vector<Z3_ast> z3inv;   // inverse constant per atom (or null)
static std::vector<char> atomDefd;
static z3::expr ratExpr(const mpq_class &c) { return Z->real_val(c.get_str().c_str()); }
struct RC { Poly p; int rel; }; // rel: 0 '<0', 1 '<=0', 2 '==0', 3 '!=0' ,4 '>0', 5 '>=0'
static std::vector<RC> PCR; static size_t pcrAsserted = 0;
static std::vector<Z3_ast> PCB; static size_t pcbAsserted = 0;
static std::vector<Z3_ast> sideAx; // axioms for atoms (already asserted into SR)

static z3::expr toZ(const Poly &p, z3::solver &S);
static std::map<std::string, std::vector<int>> ufAtoms;
static void axiom(z3::solver &S, const z3::expr &e) { S.add(e); Z3_ast a = e; Z3_inc_ref(*Z, a); sideAx.push_back(a); }
static z3::expr atomZ(int a, z3::solver &S) {
  while ((int)z3atom.size() <= a) { z3atom.push_back(nullptr); z3inv.push_back(nullptr); atomDefd.push_back(0); }
  if (!z3atom[a]) { z3::expr e = Z->real_const(("a" + std::to_string(a)).c_str()); z3atom[a] = e; Z3_inc_ref(*Z, e); }
  z3::expr e(*Z, z3atom[a]);
  if (!atomDefd[a]) {
    atomDefd[a] = 1;
    Atom &A = atoms[a];
    auto fin = [&](double d) { return std::isfinite(d); };
    auto rq = [&](double d) { mpq_class q(d); return ratExpr(q); };
    double lo = A.lo, hi = A.hi;
    if (fin(lo)) axiom(S, e >= rq(lo));
    if (fin(hi)) axiom(S, e <= rq(hi));
    if (A.kind == A_DEF) axiom(S, e == toZ(atoms[a].arg, S));
    if (A.kind == A_SQRT) { axiom(S, e >= 0); axiom(S, e * e == toZ(atoms[a].arg, S)); }
    if (A.kind == A_UF && atoms[a].arg2.empty() && atoms[a].name[0] != '#') {
      z3::expr x = toZ(atoms[a].arg, S);
      std::string nm = atoms[a].name;
      for (int b : ufAtoms[nm]) {
        z3::expr y = toZ(atoms[b].arg, S), fy(*Z, z3atom[b]);
        axiom(S, (x < y) == (e < fy)); axiom(S, (x == y) == (e == fy));
      }
      ufAtoms[nm].push_back(a);
      if (nm == "log") { axiom(S, (x < 1) == (e < 0)); axiom(S, (x == 1) == (e == 0)); axiom(S, e <= x - 1); }
      if (nm == "exp") { axiom(S, e > 0); axiom(S, (x < 0) == (e < 1)); axiom(S, (x == 0) == (e == 1)); axiom(S, e >= x + 1);
        // convex: above its tangents, below its chords
        static const int K[] = {-4, -2, -1, 0, 1, 2, 4}; auto dn = [&](int k) { return rq(std::exp((double)k) * (1 - 1e-9)); }; auto upq = [&](int k) { return k ? rq(std::exp((double)k) * (1 + 1e-9)) : Z->real_val(1); };
        for (int i = 0; i < 7; i++) if (K[i]) axiom(S, z3::implies(x >= K[i] - 1, e >= dn(K[i]) * (x - K[i] + 1)));
        axiom(S, z3::implies(x <= K[0], e <= upq(K[0])));
        for (int i = 0; i < 6; i++) { z3::expr a = upq(K[i]), b = upq(K[i + 1]); axiom(S, z3::implies(x >= K[i] && x <= K[i + 1], (e - a) * (K[i + 1] - K[i]) <= (b - a) * (x - K[i]))); }
      }
    }
  }
  return z3::expr(*Z, z3atom[a]);
}
static z3::expr invZ(int a, z3::solver &S) {
  z3::expr e = atomZ(a, S);
  if (!z3inv[a]) { z3::expr v = Z->real_const(("i" + std::to_string(a)).c_str()); z3inv[a] = v; Z3_inc_ref(*Z, v); axiom(S, v * e == 1);
    Atom &A = atoms[a]; if (A.lo >= 0) axiom(S, v > 0); else if (A.hi <= 0) axiom(S, v < 0); }
  return z3::expr(*Z, z3inv[a]);
}
static z3::expr toZ(const Poly &p, z3::solver &S) {
  z3::expr_vector v(*Z);
  for (auto &t : p) {
    z3::expr_vector f(*Z);
    if (t.first.empty() || t.second != 1) f.push_back(ratExpr(t.second));
    for (auto &x : t.first) {
      z3::expr b = x.second > 0 ? atomZ(x.first, S) : invZ(x.first, S);
      for (int k = 0; k < std::abs(x.second); k++) f.push_back(b);
    }
    if (f.size() == 1) v.push_back(f[0]);
    else { std::vector<Z3_ast> a; for (unsigned i = 0; i < f.size(); i++) a.push_back(f[i]); v.push_back(z3::expr(*Z, Z3_mk_mul(*Z, a.size(), a.data()))); }
  }
  if (v.empty()) return Z->real_val(0);
  if (v.size() == 1) return v[0];
  return z3::sum(v);
}
// All-grid constraints are strengthened to the next reachable grid value (sound: inputs are multiples of their step).
// returns 1 changed/unchanged, 0 when no grid point satisfies it
static mpz_class fdiv(const mpq_class &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return r; }
static bool gridTighten(RC &c) {
  mpq_class u = 0, k = 0;
  for (auto &t : c.p) {
    if (t.first.empty()) { k = t.second; continue; }
    mpq_class w = abs(t.second);
    for (auto &x : t.first) {
      const Atom &A = atoms[x.first];
      if (A.kind != A_VAR || A.gran <= -1000 || x.second < 0 || x.second > 8) return true;
      mpq_class st = 1; int g = A.gran * x.second; if (g > 400 || g < -400) return true; if (g >= 0) st = mpz_class(1) << g; else st = mpq_class(1, mpz_class(1) << -g); w *= st;
    }
    if (sgn(u) == 0) u = w; else { mpz_class n, d; mpz_gcd(n.get_mpz_t(), mpz_class(u.get_num() * w.get_den()).get_mpz_t(), mpz_class(w.get_num() * u.get_den()).get_mpz_t()); d = u.get_den() * w.get_den(); u = mpq_class(n, d); u.canonicalize(); }
  }
  if (sgn(u) == 0) return true;
  // value = u*m + k with integer m
  mpq_class q = -k / u; bool onq = q.get_den() == 1; mpz_class f = fdiv(q), nb;
  switch (c.rel) {
  case 0: nb = onq ? mpz_class(f - 1) : f; break;        // m < q  -> m <= nb
  case 1: nb = f; break;
  case 4: nb = f + 1; break;                  // m > q  -> m >= nb
  case 5: nb = onq ? f : mpz_class(f + 1); break;
  case 2: return onq;
  default: return true;
  }
  c.p.erase(Mono()); addTo(c.p, Mono(), -u * mpq_class(nb)); c.rel = c.rel <= 1 ? 1 : 5;
  return true;
}
// denominators of known sign are multiplied out
static void clearDen(RC &c) {
  for (int round = 0; round < 2; round++) {
    int a = -1, k = 0;
    for (auto &t : c.p) for (auto &x : t.first) { if (atoms[x.first].kind == A_ERR) return; if (x.second < 0) { if (a < 0) a = x.first; if (x.first == a) k = std::max(k, -x.second); } }
    if (a < 0 || k > 2) return;
    Iv iv{atoms[a].lo, atoms[a].hi}; if (atoms[a].kind == A_DEF) { Iv d = pival(atoms[a].arg); iv.lo = std::max(iv.lo, d.lo); iv.hi = std::min(iv.hi, d.hi); }
    if (!(iv.lo > 0 || iv.hi < 0)) return;
    Poly r;
    for (auto &t : c.p) {
      int e = 0; Mono m; for (auto &x : t.first) if (x.first == a) e = x.second; else m.push_back(x);
      Poly q; q[m] = t.second; e += k;
      if (atoms[a].kind == A_DEF) for (int i = 0; i < e; i++) q = pmulraw(q, atoms[a].arg); else if (e) { Poly z = patom(a, e); q = pmulraw(q, z); }
      for (auto &y : q) addTo(r, y.first, y.second);
    }
    c.p = reducep(r);
    if (iv.hi < 0 && k % 2) { static const int fl[] = {4, 5, 2, 3, 0, 1}; c.rel = fl[c.rel]; }
  }
}
static z3::expr rcZ(const RC &c0, z3::solver &S) {
  RC c = c0; if (!gridTighten(c)) return Z->bool_val(false);
  z3::expr e = toZ(c.p, S);
  switch (c.rel) { case 0: return e < 0; case 1: return e <= 0; case 2: return e == 0; case 3: return e != 0; case 4: return e > 0; default: return e >= 0; }
}
static int neg(int r) { static const int n[] = {5, 4, 3, 2, 1, 0}; return n[r]; }

static bool pdegLinear(const Poly &p) { for (auto &t : p) { if (t.first.size() > 1) return false; if (t.first.size() == 1 && t.first[0].second != 1) return false; if (t.first.size() == 1 && atoms[t.first[0].first].kind != A_VAR && atoms[t.first[0].first].kind != A_ERR) return false; } return true; }

enum Res { SAT, UNSAT, UNK };
struct RModel { bool ok = false; std::vector<double> d; std::vector<u64> u; };

static mpq_class modelVal(z3::model &m, Z3_ast a, bool &exact) {
  z3::expr v = m.eval(z3::expr(*Z, a), true);
  exact = true;
  if (v.is_numeral()) { std::string s = Z3_get_numeral_string(*Z, v); mpq_class q(s); q.canonicalize(); return q; }
  if (v.is_algebraic()) { z3::expr lo(*Z, Z3_get_algebraic_number_lower(*Z, v, 60)); std::string s = Z3_get_numeral_string(*Z, lo); exact = false; mpq_class q(s); q.canonicalize(); return q; }
  exact = false; return 0;
}
static double toD(const mpq_class &q) { // nearest double
  double d = q.get_d(); // truncated
  mpq_class e0 = abs(q - mpq_class(d));
  double d2 = std::nextafter(d, q > mpq_class(d) ? INFINITY : -INFINITY);
  if (std::isfinite(d2) && abs(q - mpq_class(d2)) < e0) return d2;
  return d;
}
static bool onGrid(const mpq_class &q, int g) {
  double d = toD(q); if (mpq_class(d) != q) return false;
  if (g <= -1000) return true;
  double s = std::ldexp(d, -g); return s == std::floor(s);
}
static Res chk(z3::solver &S, bool) {
  double t = now();
  Res r;
  z3::check_result c = S.check();
  r = c == z3::sat ? SAT : c == z3::unsat ? UNSAT : UNK;
  st.tsolve += now() - t;
  if (r == SAT) st.qsat++; else if (r == UNSAT) st.qunsat++; else st.qunk++;
  return r;
}
static void syncR() {
  for (; pcrAsserted < PCR.size(); pcrAsserted++) { z3::expr e = rcZ(PCR[pcrAsserted], *SR); SR->add(e); }
}
static void syncB() { for (; pcbAsserted < PCB.size(); pcbAsserted++) SB->add(z3::expr(*Z, PCB[pcbAsserted])); }

// extract input values from the current SR model; tries to make them exact doubles on their grid
static void getRealModel(RModel &rm, z3::solver &S, bool refine) {
  z3::model m = S.get_model();
  rm.ok = true; rm.d.clear();
  std::vector<std::pair<int, mpq_class>> vals;
  for (size_t i = 0; i < inputs.size(); i++) if (inputs[i].kind == 'd') {
    bool ex = true; mpq_class q;
    int a = inputs[i].atom;
    if (a >= 0 && a < (int)z3atom.size() && z3atom[a] && atomDefd[a]) q = modelVal(m, z3atom[a], ex);
    else q = mpq_class(inputs[i].d);
    vals.push_back({(int)i, q});
  }
  bool all = true;
  for (auto &v : vals) if (!onGrid(v.second, inputs[v.first].gran)) all = false;
  if (!all && refine) {
    int depth = 0; double t0 = now();
    for (size_t k = 0; k < vals.size(); k++) {
      Input &in = inputs[vals[k].first];
      if (in.atom < 0 || in.atom >= (int)z3atom.size() || !z3atom[in.atom] || !atomDefd[in.atom]) continue;
      z3::expr x(*Z, z3atom[in.atom]);
      std::vector<double> cand;
      double d = toD(vals[k].second);
      if (onGrid(vals[k].second, in.gran)) cand.push_back(d);
      else {
        int g = in.gran > -1000 ? in.gran : -6;
        for (int gg : {g, in.gran > -1000 ? g : -20}) {
          double s = std::ldexp(d, -gg);
          cand.push_back(std::ldexp(std::floor(s), gg)); cand.push_back(std::ldexp(std::ceil(s), gg));
        }
        if (in.gran <= -1000) cand.push_back(d);
      }
      for (double c : cand) {
        if (c < in.lo || c > in.hi) continue;
        S.push(); depth++;
        S.add(x == ratExpr(mpq_class(c)));
        if (now() - t0 < 3 && chk(S, false) == SAT) {
          z3::model m2 = S.get_model();
          vals[k].second = mpq_class(c);
          for (size_t j = k + 1; j < vals.size(); j++) { int a = inputs[vals[j].first].atom; bool ex; if (a >= 0 && a < (int)z3atom.size() && z3atom[a] && atomDefd[a]) vals[j].second = modelVal(m2, z3atom[a], ex); }
          break;
        }
        S.pop(); depth--;
      }
    }
    while (depth-- > 0) S.pop();
  }
  for (auto &v : vals) {
    Input &in = inputs[v.first];
    double d = toD(v.second);
    if (in.gran > -1000) d = std::ldexp(std::nearbyint(std::ldexp(d, -in.gran)), in.gran);
    rm.d.push_back(std::min(in.hi, std::max(in.lo, d)));
  }
}
static std::vector<int> errAtomsUsed; // error atoms mentioned in the path condition
static Res realCheck(const std::vector<RC> &extra, RModel *rm, bool &zone) {
  syncR(); zone = false;
  z3::solver &S = *SR;
  std::vector<z3::expr> es; for (auto &c : extra) es.push_back(rcZ(c, S)); // defines atoms at base level
  bool useErr = !errAtomsUsed.empty();
  for (int a : errAtomsUsed) atomZ(a, S);
  S.push();
  for (auto &e : es) S.add(e);
  Res r = UNK;
  if (useErr) {
    S.push();
    for (int a : errAtomsUsed) S.add(atomZ(a, S) == 0);
    r = chk(S, true);
    if (r == SAT && rm) getRealModel(*rm, S, true);
    S.pop();
  }
  if (r != SAT) {
    if (useErr) zone = true;
    Res r2 = chk(S, true);
    if (r2 == SAT && rm) getRealModel(*rm, S, true);
    r = r2;
    if (r == UNK) { // non-linear fallback: fresh solver, QF_NRA tactic
      z3::solver N(*Z, "QF_NRA");
      z3::params pp(*Z); pp.set("timeout", (unsigned)qTimeout * 3); N.set(pp);
      for (unsigned i = 0; i < S.assertions().size(); i++) N.add(S.assertions()[i]);
      r = chk(N, true);
      if (r == SAT && rm) getRealModel(*rm, N, false);
    }
  }
  S.pop();
  return r;
}

// ---- push an alternative
static void pushAlt(char dir, RModel *rm, std::vector<u64> *um, bool nomodel) {
  Item it; it.harness = cur.harness; it.prefix = trail; it.prefix.push_back(dir);
  if (rm && rm->ok) it.dv = rm->d; else for (auto &i : inputs) if (i.kind == 'd') it.dv.push_back(i.d);
  if (um) it.uv = *um; else for (auto &i : inputs) if (i.kind == 'u') it.uv.push_back(i.u);
  it.nomodel = nomodel;
  emit("W" + serItem(it));
}
static void checkBudget() {
  if (now() > tEnd) { incomplete("time budget"); finish("timeout"); }
  if ((int)trail.size() > maxDecisions) { incomplete("decision depth bound"); finish("depth"); }
}

// knowledge about polynomials already compared on this path: allowed signs
static std::map<std::string, int> known; // bits: 1 neg, 2 zero, 4 pos
static int relMask(int rel) { static const int m[] = {1, 3, 2, 5, 4, 6}; return m[rel]; }
static int flipMask(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }

static void assertRC(const RC &c0) {
  RC c = c0; gridTighten(c);
  PCR.push_back(c);
  // linear single-variable constraint refines the variable's bounds
  if (c.p.size() <= 2) {
    int a = -1; mpq_class k = 0, b = 0; bool ok = true;
    for (auto &t : c.p) { if (t.first.empty()) b = t.second; else if (t.first.size() == 1 && t.first[0].second == 1 && a < 0) { a = t.first[0].first; k = t.second; } else ok = false; }
    if (ok && a >= 0) {
      mpq_class v = -b / k; double d = v.get_d(); int rel = c.rel; if (sgn(k) < 0) { static const int f[] = {4, 5, 2, 3, 0, 1}; rel = f[rel]; }
      double u = mpq_class(d) >= v ? d : std::nextafter(d, INFINITY), l = mpq_class(d) <= v ? d : std::nextafter(d, -INFINITY);
      if (rel <= 2) atoms[a].hi = std::min(atoms[a].hi, u);
      if (rel == 2 || rel >= 4) atoms[a].lo = std::max(atoms[a].lo, l);
    }
  }
}
// returns truth of constraint c on this path
static bool decideReal(const RC &c0, bool native) {
  checkBudget();
  RC c = c0; clearDen(c);
  if (pisconst(c.p)) { int s = sgn(pcval(c.p)); int bit = s < 0 ? 1 : s == 0 ? 2 : 4; bool r = relMask(c.rel) & bit; if (r != native && !diverged) { st.mism++; if (dbg) fprintf(stderr, "MISMATCH const %s rel %d native %d\n", pstr(c.p).c_str(), c.rel, native); diverged = true; } st.quick++; return r; }
  Iv iv = pival(c.p);
  int can = 0;
  if (iv.lo < 0) can |= 1; if (iv.hi > 0) can |= 4; if (iv.lo <= 0 && iv.hi >= 0) can |= 2;
  // canonical sign key
  mpq_class lc = c.p.begin()->second; bool fl = sgn(lc) < 0;
  std::string key = pstr(pscale(c.p, mpq_class(1) / lc));
  auto it = known.find(key);
  if (it != known.end()) can &= fl ? flipMask(it->second) : it->second;
  int m = relMask(c.rel);
  if ((can & m) == can || (can & m) == 0) {
    bool r = (can & m) != 0;
    if (can == 0) r = native;
    if (r != native && !diverged) { st.mism++; if (dbg) fprintf(stderr, "MISMATCH quick %s rel %d native %d can %d iv %g %g\n", pstr(c.p).c_str(), c.rel, native, can, iv.lo, iv.hi); diverged = true; }
    st.quick++;
    return r;
  }
  bool dir;
  if (dpos < cur.prefix.size()) {
    dir = cur.prefix[dpos++];
    if (dir != native) { if (dbg && !diverged) fprintf(stderr, "DIVERGE %s rel %d native %d want %d\n", pstr(c.p).c_str(), c.rel, native, dir); diverged = true; }
  } else {
    dir = native;
    for (auto &t : c.p) for (auto &x : t.first) if (atoms[x.first].kind == A_ERR && std::find(errAtomsUsed.begin(), errAtomsUsed.end(), x.first) == errAtomsUsed.end()) errAtomsUsed.push_back(x.first);
    RModel rm; bool zone;
    RC alt{c.p, native ? neg(c.rel) : c.rel};
    Res r = realCheck({alt}, &rm, zone);
    if (diverged && r != UNSAT) { // native direction has no witness: check it as well
      bool z2; RModel rm2; RC same{c.p, native ? c.rel : neg(c.rel)};
      Res r2 = realCheck({same}, &rm2, z2);
      if (r2 == UNSAT) { dir = !native; r = UNSAT; }
    } else if (diverged && r == UNSAT) dir = native;
    if (r == SAT) pushAlt(!dir, &rm, nullptr, zone);
    else if (r == UNK) { pushAlt(!dir, nullptr, nullptr, true); }
    if (dbg) fprintf(stderr, "BR %s rel %d -> %d alt %d zone %d\n", pstr(c.p).c_str(), c.rel, dir, (int)r, zone);
  }
  for (auto &t : c.p) for (auto &x : t.first) if (atoms[x.first].kind == A_ERR && std::find(errAtomsUsed.begin(), errAtomsUsed.end(), x.first) == errAtomsUsed.end()) errAtomsUsed.push_back(x.first);
  trail.push_back(dir); st.decisions++;
  RC take{c.p, dir ? c.rel : neg(c.rel)};
  assertRC(take);
  int tm = relMask(take.rel); if (fl) tm = flipMask(tm);
  auto ins = known.insert({key, 7}); ins.first->second &= tm;
  return dir;
}
static std::unordered_map<Z3_ast, bool> knownB;
static void where() { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
static bool decideBV(const z3::expr &b /*Bool*/, bool native) {
  checkBudget();
  z3::expr s = b.simplify();
  if (s.is_true() || s.is_false()) { bool r = s.is_true(); if (r != native && !diverged) { st.mism++; diverged = true; if (dbg) fprintf(stderr, "MISMATCH bv\n"); } st.quick++; return r; }
  auto it = knownB.find((Z3_ast)s); if (it != knownB.end()) { if (it->second != native && !diverged) { st.mism++; diverged = true; if (dbg) { fprintf(stderr, "MISMATCH known bv\n"); where(); } } st.quick++; return it->second; }
  bool dir;
  if (dpos < cur.prefix.size()) { dir = cur.prefix[dpos++]; if (dir != native) { if (dbg && !diverged) { fprintf(stderr, "DIVERGE bv at %zu of %zu: %s native %d\n", dpos, cur.prefix.size(), s.to_string().c_str(), native); where(); } diverged = true; } }
  else {
    dir = native; syncB();
    auto q = [&](bool want, std::vector<u64> &um) {
      SB->push(); SB->add(want ? s : !s); Res r = chk(*SB, true);
      if (r == SAT) { z3::model m = SB->get_model(); for (auto &i : inputs) if (i.kind == 'u') { z3::expr v = m.eval(z3::expr(*Z, i.ast), true); u64 x = i.u; v.is_numeral_u64(x); um.push_back(x); } }
      SB->pop(); return r; };
    std::vector<u64> um;
    Res r = q(!native, um);
    if (diverged && r != UNSAT) { std::vector<u64> um2; if (q(native, um2) == UNSAT) { dir = !native; r = UNSAT; } }
    if (r == SAT) pushAlt(!dir, nullptr, &um, diverged); else if (r == UNK) pushAlt(!dir, nullptr, nullptr, true);
  }
  trail.push_back(dir); st.decisions++;
  z3::expr t = dir ? s : !s; Z3_inc_ref(*Z, t); PCB.push_back(t);
  Z3_inc_ref(*Z, s); knownB[(Z3_ast)s] = dir;
  return dir;
}

// ---------------------------------------------------------------- FP expressions
static const double U = std::ldexp(1.0, -53);
static int granOf(double d) { if (d == 0) return 1000; int e; double m = std::frexp(d, &e); i64 k = (i64)std::ldexp(m, 53); int tz = __builtin_ctzll(k < 0 ? -k : k); return e - 53 + tz; }
static Expr *mkC(double d) {
  Expr *e = new Expr(); e->k = FP; e->p = pconst(mpq_class(d)); e->lo = e->hi = d; e->ea = e->er = 0; e->gran = granOf(d); return e;
}
static double absErr(const Expr *e) { double m = std::max(std::fabs(e->lo), std::fabs(e->hi)); double r = e->er == 0 ? 0 : up(e->er * m * 1.0000001); return std::min(e->ea, r); }
static double relErr(const Expr *e) {
  double m = (e->lo <= 0 && e->hi >= 0) ? 0 : std::min(std::fabs(e->lo), std::fabs(e->hi));
  double a = e->ea == 0 ? 0 : (m > e->ea * 2 ? up(e->ea / (m - e->ea)) : INFINITY);
  return std::min(e->er, a);
}
static Expr *asFP(Expr *s, double v) {
  if (!s) return mkC(v);
  if (s->k == FP) return s;
  incomplete("bit pattern used as double"); return mkC(v);
}
static void tight(Expr *e) {
  Iv i = pival(e->p); double x = absErr(e);
  if (std::isfinite(x)) { e->lo = std::max(e->lo, i.lo == 0 && x == 0 ? 0 : dn(i.lo - x)); e->hi = std::min(e->hi, i.hi == 0 && x == 0 ? 0 : up(i.hi + x)); }
  if (pisconst(e->p) && e->ea == 0) e->lo = e->hi = pcval(e->p).get_d();
  if (e->lo > e->hi) { /* infeasible or diverged */ double t = e->lo; e->lo = e->hi; e->hi = t; }
}
static const int kBig = 400;
static void blowup(Expr *e) { // keep polynomials small: name them
  if (e->p.size() <= (size_t)kBig) return;
  Iv i = pival(e->p);
  Atom A; A.kind = A_DEF; A.arg = e->p; A.lo = i.lo; A.hi = i.hi; A.name = "def";
  atoms.push_back(A); e->p = patom(atoms.size() - 1);
}
Poly reducep(const Poly &p0) {
  Poly p = p0;
  for (int guard = 0; guard < 50; guard++) {
    // sqrt atoms with exponent >= 2 or <= -2... expand squares
    int sq = -1; bool changed = false;
    for (auto &t : p) { for (auto &x : t.first) if (atoms[x.first].kind == A_SQRT && x.second >= 2) sq = x.first; if (sq >= 0) break; }
    if (sq >= 0) {
      Poly r;
      for (auto &t : p) {
        int e = 0; Mono m;
        for (auto &x : t.first) if (x.first == sq) e = x.second; else m.push_back(x);
        if (e >= 2) {
          if (e % 2) m = monoMul(m, Mono{{sq, 1}});
          Poly q; q[m] = t.second;
          for (int k = 0; k < e / 2; k++) q = pmulraw(q, atoms[sq].arg);
          for (auto &y : q) addTo(r, y.first, y.second);
        } else addTo(r, t.first, t.second);
      }
      p = r; continue;
    }
    // definition atoms with negative exponents: divide their coefficient
    std::map<std::pair<int, int>, Poly> grp; // (atom, exp<0) -> coefficient
    for (auto &t : p) for (auto &x : t.first) if (atoms[x.first].kind == A_DEF && x.second < 0 && atoms[x.first].name == "den") {
      Mono m; for (auto &y : t.first) if (y.first != x.first) m.push_back(y);
      addTo(grp[{x.first, x.second}], m, t.second);
    }
    for (auto &g : grp) {
      Poly q, r; pdivmod(g.second, atoms[g.first.first].arg, q, r);
      if (q.empty()) continue;
      Poly np;
      for (auto &t : p) { bool in = false; for (auto &x : t.first) if (x.first == g.first.first && x.second == g.first.second) in = true; if (!in) addTo(np, t.first, t.second); }
      Mono sk{{g.first.first, g.first.second}}, sk1; if (g.first.second + 1) sk1 = Mono{{g.first.first, g.first.second + 1}};
      for (auto &t : r) addTo(np, monoMul(t.first, sk), t.second);
      for (auto &t : q) addTo(np, monoMul(t.first, sk1), t.second);
      p = np; changed = true; break;
    }
    if (!changed) break;
  }
  return p;
}
static Poly pinv(const Poly &b) {
  if (b.size() == 1) { Mono m; for (auto &x : b.begin()->first) m.push_back({x.first, -x.second}); Poly r; r[m] = 1 / b.begin()->second; return r; }
  // common monomial factor: pull negative exponents out so that the denominator is a true polynomial
  Mono f; // factor to multiply by
  std::map<int, int> mn;
  for (auto &t : b) for (auto &x : t.first) if (x.second < 0) mn[x.first] = std::min(mn[x.first], x.second);
  for (auto &x : mn) f.push_back({x.first, -x.second});
  Poly bb = b; if (!f.empty()) { Poly fp; fp[f] = 1; bb = reducep(pmulraw(b, fp)); if (bb.size() == 1) { Poly r = pinv(bb); return pmul(r, fp); } }
  // also divide by common positive factors
  Mono cf = bb.begin()->first;
  for (auto &t : bb) { Mono n; for (auto &x : cf) for (auto &y : t.first) if (x.first == y.first) n.push_back({x.first, std::min(x.second, y.second)}); cf = n; }
  Mono icf; for (auto &x : cf) icf.push_back({x.first, -x.second});
  if (!icf.empty()) { Poly q; q[icf] = 1; bb = pmulraw(bb, q); }
  mpq_class c = bb.begin()->second;
  Poly mon = pscale(bb, mpq_class(1) / c);
  int a = -1;
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == A_DEF && atoms[i].name == "den" && atoms[i].arg == mon) a = i;
  Iv iv = pival(mon);
  if (a < 0) { Atom A; A.kind = A_DEF; A.name = "den"; A.arg = mon; A.lo = iv.lo; A.hi = iv.hi; atoms.push_back(A); a = atoms.size() - 1; }
  Poly r; r[monoMul(monoMul(Mono{{a, -1}}, icf), f)] = 1 / c;
  return reducep(r);
}
static Poly actual(Expr *e) { // polynomial of the actual double value
  double E = absErr(e);
  if (E == 0) return e->p;
  if (e->hasAct) return e->act;
  e->hasAct = true;
  Atom A; A.kind = A_ERR; A.name = "err";
  if (std::isfinite(E)) {
    A.lo = -E; A.hi = E; atoms.push_back(A); e->act = padd(e->p, patom(atoms.size() - 1));
  } else {
    double r = relErr(e);
    if (!std::isfinite(r)) { incomplete("unbounded rounding error"); r = 1e-9; }
    A.lo = -r; A.hi = r; atoms.push_back(A); e->act = padd(e->p, pmul(e->p, patom(atoms.size() - 1)));
  }
  return e->act;
}
// sign decision for an FP expression value relative to zero
static bool isNN(Expr *e);
static bool decideSign(Expr *e, int rel, double native) {
  if ((rel == 0 || rel == 5) && isNN(e)) return rel == 5;
  bool n = false; switch (rel) { case 0: n = native < 0; break; case 1: n = native <= 0; break; case 2: n = native == 0; break; case 4: n = native > 0; break; case 5: n = native >= 0; break; default: n = native != 0; }
  return decideReal(RC{actual(e), rel}, n);
}

struct OpKey { int op; const void *a, *b; double va, vb; bool operator<(const OpKey &o) const { if (op != o.op) return op < o.op; if (a != o.a) return a < o.a; if (b != o.b) return b < o.b; if (memcmp(&va, &o.va, 8)) return memcmp(&va, &o.va, 8) < 0; return memcmp(&vb, &o.vb, 8) < 0; } };
static std::map<OpKey, Expr *> memo;
static bool isNN(Expr *e) { return e->nn || (e->lo >= 0 && (absErr(e) == 0 || relErr(e) < 0.5)); } // rounding is monotone: sums, products, quotients of non-negatives and squares stay non-negative
static Expr *finishFP(Expr *e) {
  tight(e); blowup(e);
  if (std::fabs(e->lo) > 1e300 || std::fabs(e->hi) > 1e300) { /* overflow not modelled */ }
  if (pisconst(e->p) && absErr(e) == 0) return nullptr; // constant again
  return e;
}
static bool exactFits(int g, double lo, double hi) { return g > -1074 && std::max(std::fabs(lo), std::fabs(hi)) <= std::ldexp(1.0, std::min(1023, g + 53)); }
static Expr *fpAdd(Expr *a, Expr *b, int s) {
  Expr *r = new Expr(); r->k = FP;
  r->p = padd(a->p, b->p, s);
  Iv i = s > 0 ? ivadd({a->lo, a->hi}, {b->lo, b->hi}) : ivadd({a->lo, a->hi}, {-b->hi, -b->lo});
  r->lo = i.lo; r->hi = i.hi;
  double ea = absErr(a), eb = absErr(b);
  r->gran = std::min(a->gran, b->gran);
  if (r->gran > -1900 && r->gran < 1000 && exactFits(r->gran, i.lo, i.hi)) { r->ea = ea + eb; if (r->ea) r->ea = up(r->ea); }
  else if ((a->lo == 0 && a->hi == 0 && ea == 0) || (b->lo == 0 && b->hi == 0 && eb == 0)) r->ea = ea + eb;
  else { double m = std::max(std::fabs(i.lo), std::fabs(i.hi)); r->ea = up(ea + eb + U * m * 1.0000001); r->gran = -2000; }
  if (ea + eb > 0) r->gran = r->gran; 
  r->er = INFINITY;
  double blo = s > 0 ? b->lo : -b->hi, bhi = s > 0 ? b->hi : -b->lo;
  if ((a->lo >= 0 && blo >= 0) || (a->hi <= 0 && bhi <= 0)) r->er = up(std::max(relErr(a), relErr(b)) + U * 1.0000001);
  if (r->ea == 0) r->er = 0;
  r->nn = s > 0 && isNN(a) && isNN(b);
  return finishFP(r);
}
static bool isZero(Expr *e) { return e->p.empty() && absErr(e) == 0; }
static Expr *fpMul(Expr *a, Expr *b) {
  if (isZero(a) || isZero(b)) return nullptr; // exactly zero
  Expr *r = new Expr(); r->k = FP; r->p = pmul(a->p, b->p);
  Iv i = ivmul({a->lo, a->hi}, {b->lo, b->hi}); r->lo = i.lo; r->hi = i.hi;
  double ea = absErr(a), eb = absErr(b), ma = std::max(std::fabs(a->lo), std::fabs(a->hi)), mb = std::max(std::fabs(b->lo), std::fabs(b->hi)), m = std::max(std::fabs(i.lo), std::fabs(i.hi));
  auto pow2 = [](Expr *e) { if (!pisconst(e->p) || e->ea) return false; int x; double f = std::frexp(std::fabs(e->lo), &x); return f == 0.5; };
  bool ga = a->gran > -1900, gb = b->gran > -1900;
  r->gran = ga && gb ? (a->gran == 1000 || b->gran == 1000 ? 1000 : a->gran + b->gran) : -2000;
  bool ex = (ga && gb && exactFits(r->gran, i.lo, i.hi)) || pow2(a) || pow2(b);
  double e = mul0(ma, eb) + mul0(mb, ea) + mul0(ea, eb);
  if (!ex) { e = up(e + U * m * 1.0000001 + 1e-320); r->gran = -2000; } else if (e) e = up(e);
  r->nn = a == b || (isNN(a) && isNN(b));
  double ra = relErr(a), rb = relErr(b);
  r->ea = std::isnan(e) ? INFINITY : e; r->er = (ra + rb + ra * rb + (ex ? 0 : U)); if (r->er) r->er = up(r->er * 1.0000001);
  if (r->ea == 0) r->er = 0;
  return finishFP(r);
}
static Expr *fpDiv(Expr *a, Expr *b, double vb) {
  // b != 0 has been decided by the caller
  if (isZero(a)) return nullptr;
  if (b->p.empty()) { incomplete("division by a pure rounding error"); return nullptr; }
  Expr *r = new Expr(); r->k = FP;
  r->nn = isNN(a) && isNN(b);
  if (!std::isfinite(relErr(b)) && std::isfinite(absErr(b)) && vb != 0) { // ask the solver how far the divisor is from zero on this path
    int sg = vb > 0 ? 1 : -1; bool zone;
    for (int k : {0, -4, -10, -20, -30}) { double lim = std::ldexp(1.0, k); if (lim <= 4 * absErr(b)) break; if (realCheck({RC{padd(pscale(b->p, sg), pconst(mpq_class(lim)), -1), 0}}, nullptr, zone) == UNSAT) { double e = absErr(b); if (sg > 0) b->lo = std::max(b->lo, lim - e); else b->hi = std::min(b->hi, e - lim); break; } }
  }
  r->p = pmul(a->p, pinv(b->p));
  Iv bi{b->lo, b->hi};
  Iv i = ivmul({a->lo, a->hi}, ivinv(bi)); if (std::isnan(i.lo)) i.lo = -INFINITY; if (std::isnan(i.hi)) i.hi = INFINITY;
  r->lo = i.lo; r->hi = i.hi;
  double ra = relErr(a), rb = relErr(b), ea = absErr(a), eb = absErr(b);
  auto pow2 = [](Expr *e) { if (!pisconst(e->p) || e->ea) return false; int x; double f = std::frexp(std::fabs(e->lo), &x); return f == 0.5; };
  bool ex = pow2(b);
  r->gran = -2000;
  if (ex && a->gran > -1900) { int x; std::frexp(std::fabs(b->lo), &x); r->gran = a->gran - (x - 1); }
  r->er = rb < 0.5 ? (ra + rb / (1 - rb) * (1 + ra) + (ex ? 0 : U)) : INFINITY; if (r->er && std::isfinite(r->er)) r->er = up(r->er * 1.0000001);
  double bm = (bi.lo <= 0 && bi.hi >= 0) ? 0 : std::min(std::fabs(bi.lo), std::fabs(bi.hi));
  double m = std::max(std::fabs(i.lo), std::fabs(i.hi));
  if (bm > 2 * eb && bm > 0) { double e = (ea + mul0(m, eb)) / (bm - eb) * 1.0000001 + (ex ? 0 : U * m * 1.0000001 + 1e-320); r->ea = std::isnan(e) ? INFINITY : e; }
  else r->ea = INFINITY;
  if (ex && ea == 0) { r->ea = 0; }
  if (r->ea == 0) r->er = 0;
  if (r->er == 0) r->ea = 0;
  return finishFP(r);
}
static int ufAtom(const std::string &nm, const Poly &arg, const Poly &arg2, double lo, double hi, AtomKind k = A_UF) {
  for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == k && atoms[i].name == nm && atoms[i].arg == arg && atoms[i].arg2 == arg2) return i;
  Atom A; A.kind = k; A.name = nm; A.arg = arg; A.arg2 = arg2; A.lo = lo; A.hi = hi; atoms.push_back(A); return atoms.size() - 1;
}

extern "C" {
static std::set<void *> pcs;
static void notePC(void *pc) { if (pcs.insert(pc).second) { char b[40]; snprintf(b, sizeof b, "F%llx", (unsigned long long)pc); emit(b); } }
#define NOTE notePC(__builtin_return_address(0))

void *_sym_fop(int op, void *sa, double a, void *sb, double b, double res) {
  if (!sa && !sb) return nullptr;
  RtG g; NOTE;
  if (!sa && !std::isfinite(a)) return nullptr; // inf/nan with a finite symbolic value: native result is right up to sign of zero
  if (!sb && !std::isfinite(b)) return nullptr;
  OpKey key{op, sa, sb, sa ? 0 : a, sb ? 0 : b};
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  Expr *x = asFP((Expr *)sa, a), *y = asFP((Expr *)sb, b), *r = nullptr;
  // opcode numbers of LLVM 18
  switch (op) {
  case 14: r = fpAdd(x, y, 1); break;          // FAdd
  case 16: r = (sa == sb && sa) ? nullptr : fpAdd(x, y, -1); break; // FSub
  case 18: r = fpMul(x, y); break;             // FMul
  case 21: {                                   // FDiv
    if (sb) { if (decideSign(y, 2, b)) return nullptr; }
    else if (b == 0) { // constant zero denominator: sign of numerator decides inf/nan, natively computed
      if (!decideSign(x, 2, a)) decideSign(x, 0, a);
      return nullptr;
    }
    if (sa == sb && sa) { r = nullptr; break; }
    r = fpDiv(x, y, b); break;
  }
  default: incomplete("frem"); return nullptr;
  }
  memo[key] = r;
  return r;
}
void *_sym_fneg(void *sa, double a) {
  if (!sa) return nullptr; RtG g;
  Expr *x = asFP((Expr *)sa, a);
  OpKey key{1001, sa, nullptr, 0, 0}; auto it = memo.find(key); if (it != memo.end()) return it->second;
  Expr *r = new Expr(*x); r->nn = false; r->p = pscale(x->p, -1); r->lo = -x->hi; r->hi = -x->lo; r->hasAct = false; r->errAtom = -1;
  if (absErr(x) != 0) { r->act = pscale(actual(x), -1); r->hasAct = true; }
  memo[key] = r; return r;
}
void *_sym_fabs(void *sa, double a) {
  if (!sa) return nullptr; RtG g; NOTE;
  Expr *x = asFP((Expr *)sa, a);
  if (decideSign(x, 0, a)) return _sym_fneg(sa, a);
  return sa;
}
// LLVM FCmp predicates: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
int _sym_fcmp(int pred, void *sa, double a, void *sb, double b, int native) {
  if (!sa && !sb) return native;
  RtG g; NOTE;
  if (pred == 7) return (sa || !std::isnan(a)) && (sb || !std::isnan(b));
  if (pred == 8) return !((sa || !std::isnan(a)) && (sb || !std::isnan(b)));
  if (pred == 0) return 0; if (pred == 15) return 1;
  double na = sa && !std::isfinite(a) ? 0 : a, nb = sb && !std::isfinite(b) ? 0 : b; // diverged guard
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) {
    // comparison of a finite symbolic value with inf/nan
    bool un = (!sa && std::isnan(a)) || (!sb && std::isnan(b));
    if (un) return pred >= 8;
    double fa = sa ? 0 : a, fb = sb ? 0 : b;
    switch (pred & 7) { case 1: return fa == fb; case 2: return fa > fb; case 3: return fa >= fb; case 4: return fa < fb; case 5: return fa <= fb; case 6: return fa != fb; }
  }
  int rel; switch (pred & 7) { case 1: rel = 2; break; case 2: rel = 4; break; case 3: rel = 5; break; case 4: rel = 0; break; case 5: rel = 1; break; default: rel = 3; }
  bool n; switch (rel) { case 2: n = na == nb; break; case 4: n = na > nb; break; case 5: n = na >= nb; break; case 0: n = na < nb; break; case 1: n = na <= nb; break; default: n = na != nb; }
  if (sa == sb) return rel == 2 || rel == 5 || rel == 1;
  Expr *x = asFP((Expr *)sa, na), *y = asFP((Expr *)sb, nb);
  if (!sb && b == 0 && (rel == 0 || rel == 5) && isNN(x)) return rel == 5;
  return decideReal(RC{padd(actual(x), actual(y), -1), rel}, n) ? 1 : 0;
}

// ---- integers
static z3::expr bvOf(void *s, int w, u64 v) {
  if (s && ((Expr *)s)->k == BV) { Expr *e = (Expr *)s; z3::expr x(*Z, e->ast); if (e->width == w) return x; return e->width < w ? z3::zext(x, w - e->width) : x.extract(w - 1, 0); }
  if (s) incomplete("double used as integer");
  if (w < 64) v &= ((1ull << w) - 1);
  return Z->bv_val((uint64_t)v, w);
}
static Expr *mkBV(const z3::expr &x0, int w) {
  z3::expr x = x0.simplify();
  if (x.is_numeral()) return nullptr;
  Expr *e = new Expr(); e->k = BV; e->width = w; e->ast = x; Z3_inc_ref(*Z, x); return e;
}
static i64 sx(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= (1ull << w) - 1; return (i64)((v ^ m) - m); }
void *_sym_bin(int op, int w, void *sa, u64 a, void *sb, u64 b) {
  if (!sa && !sb) return nullptr;
  RtG g; NOTE;
  // sign-bit tricks on doubles moved through integer registers
  if ((sa && ((Expr *)sa)->k == FP) || (sb && ((Expr *)sb)->k == FP)) { incomplete("integer operation on a symbolic double"); return nullptr; }
  z3::expr x = bvOf(sa, w, a), y = bvOf(sb, w, b);
  switch (op) {
  case 13: return mkBV(x + y, w); case 15: return mkBV(x - y, w); case 17: return mkBV(x * y, w);
  case 19: return mkBV(z3::udiv(x, y), w); case 20: return mkBV(x / y, w); case 22: return mkBV(z3::urem(x, y), w); case 23: return mkBV(z3::srem(x, y), w);
  case 25: return mkBV(z3::shl(x, y), w); case 26: return mkBV(z3::lshr(x, y), w); case 27: return mkBV(z3::ashr(x, y), w);
  case 28: return mkBV(x & y, w); case 29: return mkBV(x | y, w); case 30: return mkBV(x ^ y, w);
  }
  incomplete("integer opcode"); return nullptr;
}
// LLVM ICmp predicates: 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
static z3::expr icmpE(int pred, const z3::expr &x, const z3::expr &y) {
  switch (pred) { case 32: return x == y; case 33: return x != y; case 34: return z3::ugt(x, y); case 35: return z3::uge(x, y); case 36: return z3::ult(x, y); case 37: return z3::ule(x, y);
  case 38: return x > y; case 39: return x >= y; case 40: return x < y; default: return x <= y; }
}
void *_sym_icmp(int pred, int w, void *sa, u64 a, void *sb, u64 b) {
  if (!sa && !sb) return nullptr;
  RtG g; NOTE;
  if ((sa && ((Expr *)sa)->k == FP) || (sb && ((Expr *)sb)->k == FP)) { incomplete("integer comparison of a symbolic double"); return nullptr; }
  z3::expr c = icmpE(pred, bvOf(sa, w, a), bvOf(sb, w, b));
  return mkBV(z3::ite(c, Z->bv_val(1, 1), Z->bv_val(0, 1)), 1);
}
int _sym_branch(void *s, int native) {
  if (!s) return native;
  RtG g; NOTE;
  Expr *e = (Expr *)s;
  if (e->k != BV) { incomplete("branch on double bits"); return native; }
  z3::expr x(*Z, e->ast);
  return decideBV(x.extract(0, 0) == Z->bv_val(1, 1), native) ? 1 : 0;
}
int _sym_minmax(int pred, int w, void *sa, u64 a, void *sb, u64 b) {
  bool n; switch (pred) { case 36: n = a < b; break; case 34: n = a > b; break; case 40: n = sx(a, w) < sx(b, w); break; default: n = sx(a, w) > sx(b, w); }
  if (!sa && !sb) return n;
  RtG g; NOTE;
  return decideBV(icmpE(pred, bvOf(sa, w, a), bvOf(sb, w, b)), n);
}
u64 _sym_conc(int w, void *s, u64 v) {
  if (!s) return v;
  RtG g; NOTE;
  Expr *e = (Expr *)s;
  if (e->k != BV) { incomplete("double bits concretised"); return v; }
  z3::expr x(*Z, e->ast);
  u64 r = 0;
  for (int i = e->width - 1; i >= 0; i--) if (decideBV(x.extract(i, i) == Z->bv_val(1, 1), (v >> i) & 1)) r |= 1ull << i;
  if (e->width > w && w < 64) r &= (1ull << w) - 1;
  return r;
}
u64 _sym_switch(int w, void *s, u64 v, int n, const u64 *cs) { // one decision per case label
  if (!s) return v;
  RtG g; NOTE;
  Expr *e = (Expr *)s;
  if (e->k != BV) { incomplete("switch on double bits"); return v; }
  z3::expr x = bvOf(s, w, v);
  for (int i = 0; i < n; i++) if (decideBV(x == Z->bv_val((uint64_t)cs[i], (unsigned)w), v == cs[i])) return cs[i];
  for (int i = 0; i < n; i++) if (v == cs[i]) return ~v; // diverged
  return v;
}
double _sym_concd(void *s, double v) {
  if (!s) return v;
  RtG g;
  Expr *e = asFP((Expr *)s, v);
  incomplete("symbolic double concretised");
  PCR.push_back(RC{padd(actual(e), pconst(mpq_class(v)), -1), 2});
  return v;
}
// narrowing to single precision: the value is fixed; inputs that single precision holds exactly say nothing, so others nearby are tried as well
double _sym_concf(void *s, double v) {
  if (!s) return v;
  static bool again = false;
  if (!again && double(float(v)) == v && cur.tries < 3) {
    RtG g; again = true;
    for (int how = 0; how < 3; how++) { // a little more, a little less, and all nearly the same
      Item it; it.harness = cur.harness; it.prefix = trail; it.tries = cur.tries + 1; it.nomodel = false; int k = 0; double c = NAN;
      for (auto &i : inputs) if (i.kind == 'd') { double d = i.d; if (how == 2) { if (!(c >= i.lo && c < i.hi)) c = d; d = c; } double ulp = d ? std::ldexp(1, std::ilogb(d) - 23) : 0; d += (how == 1 ? -1 : 1) * ulp * (0.25 + (++k % 7) / 32.); it.dv.push_back(d < i.lo || d > i.hi ? i.d : d); } else if (i.kind == 'u') it.uv.push_back(i.u);
      emit("W" + serItem(it));
    }
  }
  return _sym_concd(s, v);
}
void *_sym_cast(int op, int from, int to, void *s) {
  if (!s) return nullptr;
  RtG g;
  Expr *e = (Expr *)s;
  if (e->k == FP) { incomplete("cast of double bits"); return nullptr; }
  z3::expr x = bvOf(s, from, 0);
  switch (op) { case 38: return mkBV(x.extract(to - 1, 0), to); case 39: return mkBV(z3::zext(x, to - from), to); default: return mkBV(z3::sext(x, to - from), to); }
}
static double floorTo(Expr *e, double v, bool trunc) { // decides k with k <= x < k+1 by binary search
  double lo = std::floor(e->lo), hi = std::floor(e->hi);
  if (!std::isfinite(lo) || !std::isfinite(hi) || hi - lo > 1e6) { incomplete("unbounded float to int"); return trunc ? std::trunc(v) : std::floor(v); }
  Poly ap = actual(e);
  while (lo < hi) { double mid = lo + std::ceil((hi - lo) / 2); if (decideReal(RC{padd(ap, pconst(mpq_class(mid)), -1), 5}, v >= mid)) lo = mid; else hi = mid - 1; }
  if (trunc && lo < 0) { if (!decideReal(RC{padd(ap, pconst(mpq_class(lo)), -1), 2}, v == lo)) lo += 1; }
  return lo;
}
u64 _sym_fptoint(int op, int w, void *s, double v, u64 native) {
  if (!s) return native;
  RtG g; NOTE;
  Expr *e = asFP((Expr *)s, v);
  if (!std::isfinite(v)) v = e->lo;
  double k = floorTo(e, v, true);
  return (u64)(i64)k;
}

void *_sym_load(u64 a, u64 n) { if (!maybe(a)) return nullptr; RtG g; return getCell(a, n); }
void _sym_store(u64 a, u64 n, void *s) {
  if (!s) { if (maybe(a) || maybe(a + n - 1)) { RtG g; clearRange(a, n); } return; }
  RtG g; Expr *e = (Expr *)s;
  if (e->k == BV && (u64)e->width < 8 * n) { z3::expr x = z3::zext(z3::expr(*Z, e->ast), 8 * n - e->width); Expr *r = mkBV(x, 8 * n); setCell(a, n, r); return; }
  setCell(a, n, e);
}
void _sym_memcpy(u64 d, u64 s, u64 n) {
  if (n == 0) return;
  RtG g;
  if (!s) { clearRange(d, n); return; }
  struct T { u64 off; Expr *e; int sz; }; std::vector<T> v;
  for (u64 pg = s >> 12; pg <= (s + n - 1) >> 12; pg++) {
    if (!pbits[pg & 0xffff]) continue;
    auto it = pages.find(pg); if (it == pages.end() || !it->second->cnt) continue;
    u64 b = std::max(s, pg << 12), e = std::min(s + n, (pg + 1) << 12);
    for (u64 gq = b >> 3; gq <= (e - 1) >> 3; gq++) { Cell *c = it->second->c[gq & 511]; if (!c) continue; for (int o = 0; o < 8; o++) if (c->e[o]) { u64 x = (gq << 3) + o; if (x >= s && x + c->sz[o] <= s + n) v.push_back({x - s, c->e[o], c->sz[o]}); else if (x < s + n && x + c->sz[o] > s) { if (c->e[o]->k == BV) { for (u64 y = std::max(x, s); y < std::min(x + c->sz[o], s + n); y++) if (Expr *q = byteOf(c->e[o], y - x)) v.push_back({y - s, q, 1}); } else incomplete("partial memcpy of a symbolic cell"); } } }
  }
  clearRange(d, n);
  for (auto &t : v) setCell(d + t.off, t.sz, t.e);
}
int _sym_any(const void *p, u64 n) { u64 a = (u64)p; if (!n || (!maybe(a) && !maybe(a + n - 1))) return 0; RtG g; for (u64 i = a; i < a + n;) { Page *q = pageOf(i, false); if (!q || !q->cnt) { i = ((i >> 12) + 1) << 12; continue; } Cell *c = q->c[(i >> 3) & 511]; if (c) for (int o = 0; o < 8; o++) if (c->e[o] && (i & ~7ull) + o < a + n && (i & ~7ull) + o + c->sz[o] > a) return 1; i = ((i >> 3) + 1) << 3; } return 0; }
void _sym_memset(u64 d, u64 n) { if (n) { RtG g; clearRange(d, n); } }
void _sym_clear(u64 d, u64 n) { if (n && n < (1u << 26)) { RtG g; clearRange(d, n, true); } }
void _sym_concmem(u64 a, u64 n) { for (u64 i = 0; i < n; i++) if (maybe(a + i)) { RtG g; if (getCell(a + i, 1) || (((a + i) & 7) == 0 && getCell(a + i, 8))) { incomplete("wide load of symbolic memory"); return; } } }
void _sym_extcheck(void *callee, int mask) {
  if (_sym_callee != callee) return;
  RtG g;
  bool any = false; for (int i = 0; i < 31; i++) if ((mask >> i & 1) && _sym_args[i]) any = true;
  if (!any) return;
  Dl_info di; std::string nm = "?";
  if (dladdr(callee, &di) && di.dli_sname) nm = di.dli_sname;
  // formatting of values into text: value is printed from the native run
  if (nm.find("basic_ostream") != std::string::npos || nm.find("_ZNSo") == 0 || nm.find("printf") != std::string::npos || nm.find("_M_insert") != std::string::npos) { emit1("Ovalue formatted into text"); return; }
  incomplete("symbolic argument passed to external " + nm);
}
void _sym_hook_malloc(const volatile void *p, size_t n) { if (!inRt && p && n) { u64 a = (u64)p; if (n > (1u << 24)) return; inRt = true; clearRange(a, n, true); inRt = false; } }
void _sym_hook_free(const volatile void *p) { (void)p; }

// ---- math wrappers
static inline Expr *arg(int i, void *self) { (void)self; return (Expr *)_sym_args[i]; }
#define ENTER(self) bool mine = (_sym_callee == (void *)&self); _sym_callee = nullptr; void *s0 = mine ? _sym_args[0] : nullptr; void *s1 = mine ? _sym_args[1] : nullptr; (void)s1; _sym_ret[0] = nullptr;
static Expr *mkUF(const char *nm, Expr *x, double lo, double hi, double ea, double er) {
  Expr *r = new Expr(); r->k = FP; int a = ufAtom(nm, x->p, Poly(), lo, hi); r->p = patom(a);
  r->lo = lo; r->hi = hi; r->ea = ea; r->er = er; r->gran = -2000; 
  if (std::isfinite(ea)) { r->lo -= ea; r->hi += ea; } 
  return r;
}
static std::map<std::pair<std::string, void *>, Expr *> memoU;
#define MEMO(nm) { auto it = memoU.find({nm, s0}); if (it != memoU.end()) { _sym_ret[0] = it->second; return res; } }
double _symw_sqrt(double v) {
  ENTER(_symw_sqrt) double res = std::sqrt(v); if (!s0) return res; RtG g; MEMO("sqrt")
  Expr *x = asFP((Expr *)s0, v);
  if (decideSign(x, 0, v)) return NAN;
  if (decideSign(x, 2, v)) return 0;
  double lo = x->lo > 0 ? dn(std::sqrt(x->lo)) : 0, hi = up(std::sqrt(x->hi));
  int a = ufAtom("sqrt", x->p, Poly(), std::max(0.0, lo - 1e-9), hi + 1e-9, A_SQRT);
  Expr *r = new Expr(); r->k = FP; r->p = patom(a); r->lo = lo; r->hi = hi; r->gran = -2000;
  double rr = relErr(x); r->er = std::isfinite(rr) ? up(rr * 0.6 + 2 * U) : INFINITY; r->ea = std::isfinite(r->er) ? INFINITY : std::sqrt(absErr(x)) + 2 * U * hi;
  Expr *f = finishFP(r); memoU[{"sqrt", s0}] = f; _sym_ret[0] = f; return res;
}
double _symw_log(double v) {
  ENTER(_symw_log) double res = std::log(v); if (!s0) return res; RtG g; MEMO("log")
  Expr *x = asFP((Expr *)s0, v);
  if (decideSign(x, 1, v)) { if (decideSign(x, 2, v)) return -INFINITY; return NAN; }
  double lo = x->lo > 0 ? dn(std::log(x->lo)) : -INFINITY, hi = up(std::log(x->hi));
  double rr = relErr(x); double m = std::max(std::isfinite(lo) ? std::fabs(lo) : 800.0, std::fabs(hi));
  if (!std::isfinite(rr)) incomplete("log of value with unbounded relative error");
  Expr *r = mkUF("log", x, lo, hi, std::isfinite(rr) ? rr * 1.01 + 2 * U * m : 1e-12, INFINITY);
  memoU[{"log", s0}] = r; _sym_ret[0] = r; return res;
}
double _symw_exp(double v) {
  ENTER(_symw_exp) double res = std::exp(v); if (!s0) return res; RtG g; MEMO("exp")
  Expr *x = asFP((Expr *)s0, v);
  double lo = dn(std::exp(x->lo)), hi = up(std::exp(x->hi)); lo = std::max(lo, 0.0);
  double ae = absErr(x); if (!std::isfinite(ae)) incomplete("exp of value with unbounded error");
  Expr *r = mkUF("exp", x, lo, hi, INFINITY, ae * 1.01 + 2 * U);
  memoU[{"exp", s0}] = r; _sym_ret[0] = r; return res;
}
static double uf1(const char *nm, double v, double res, void *s0, double lo, double hi, double lip) {
  if (!s0) return res; RtG g;
  auto it = memoU.find({nm, s0}); if (it != memoU.end()) { _sym_ret[0] = it->second; return res; }
  Expr *x = asFP((Expr *)s0, v);
  Expr *r = mkUF(nm, x, lo, hi, absErr(x) * lip + 8 * U, INFINITY);
  memoU[{nm, s0}] = r; _sym_ret[0] = r; return res;
}
double _symw_erf(double v) { ENTER(_symw_erf) return uf1("erf", v, std::erf(v), s0, -1, 1, 1.2); }
double _symw_erfc(double v) { ENTER(_symw_erfc) return uf1("#erfc", v, std::erfc(v), s0, 0, 2, 1.2); }
double _symw_tanh(double v) { ENTER(_symw_tanh) return uf1("tanh", v, std::tanh(v), s0, -1, 1, 1.0); }
double _symw_sin(double v) { ENTER(_symw_sin) return uf1("#sin", v, std::sin(v), s0, -1, 1, 1.0); }
double _symw_cos(double v) { ENTER(_symw_cos) return uf1("#cos", v, std::cos(v), s0, -1, 1, 1.0); }
double gsl_cdf_gaussian_P(double, double) __attribute__((weak));
double gsl_cdf_ugaussian_P(double) __attribute__((weak));
void *_sym_mulC(void *s, double v, double c) { return _sym_fop(18, s, v, nullptr, c, v * c); }
double _symw_gsl_cdf_gaussian_P(double v, double sig) {
  ENTER(_symw_gsl_cdf_gaussian_P) double res = gsl_cdf_gaussian_P(v, sig); if (!s0 && !s1) return res;
  // Phi(v/sig)
  void *q = _sym_fop(21, s0, v, s1, sig, v / sig);
  if (!q) return res;
  uf1("Phi", v / sig, res, q, 0, 1, 0.5); return res;
}
double _symw_gsl_cdf_ugaussian_P(double v) { ENTER(_symw_gsl_cdf_ugaussian_P) double res = gsl_cdf_ugaussian_P(v); return uf1("Phi", v, res, s0, 0, 1, 0.5); }
double _symw_floor(double v) { ENTER(_symw_floor) if (!s0) return std::floor(v); RtG g; return floorTo(asFP((Expr *)s0, v), v, false); }
double _symw_ceil(double v) { ENTER(_symw_ceil) if (!s0) return std::ceil(v); RtG g; void *n = _sym_fneg(s0, v); return -floorTo(asFP((Expr *)n, -v), -v, false); }
double _symw_trunc(double v) { ENTER(_symw_trunc) if (!s0) return std::trunc(v); RtG g; return floorTo(asFP((Expr *)s0, v), v, true); }
static double rnd(void *s0, double v) { RtG g; Expr *x = asFP((Expr *)s0, v); // half away from zero
  if (decideSign(x, 0, v)) { void *n = _sym_fneg(s0, v); Expr *h = fpAdd(asFP((Expr *)n, -v), mkC(0.5), 1); return -floorTo(h ? h : mkC(-v + 0.5), -v + 0.5, false); }
  Expr *h = fpAdd(x, mkC(0.5), 1); return floorTo(h ? h : mkC(v + 0.5), v + 0.5, false); }
double _symw_round(double v) { ENTER(_symw_round) if (!s0) return std::round(v); return rnd(s0, v); }
double _symw_rint(double v) { ENTER(_symw_rint) if (!s0) return std::rint(v); return rnd(s0, v); }
double _symw_nearbyint(double v) { ENTER(_symw_nearbyint) if (!s0) return std::nearbyint(v); return rnd(s0, v); }
long _symw_lround(double v) { ENTER(_symw_lround) if (!s0) return std::lround(v); return (long)rnd(s0, v); }
double _symw_fabs(double v) { ENTER(_symw_fabs) if (!s0) return std::fabs(v); _sym_ret[0] = _sym_fabs(s0, v); return std::fabs(v); }
double _symw_fmin(double a, double b) { ENTER(_symw_fmin) if (!s0 && !s1) return std::fmin(a, b); bool c = _sym_fcmp(4, s0, a, s1, b, a < b); _sym_ret[0] = c ? s0 : s1; return c ? a : b; }
double _symw_fmax(double a, double b) { ENTER(_symw_fmax) if (!s0 && !s1) return std::fmax(a, b); bool c = _sym_fcmp(2, s0, a, s1, b, a > b); _sym_ret[0] = c ? s0 : s1; return c ? a : b; }
double _symw_copysign(double a, double b) { ENTER(_symw_copysign) double res = std::copysign(a, b); if (!s0 && !s1) return res; bool nb = s1 ? _sym_fcmp(4, s1, b, nullptr, 0, b < 0) : std::signbit(b); void *x = s0 ? _sym_fabs(s0, a) : nullptr; double f = std::fabs(a); _sym_ret[0] = x && nb ? _sym_fneg(x, f) : x; return nb ? -f : f; }
double _symw_pow(double a, double b) {
  ENTER(_symw_pow) double res = std::pow(a, b); if (!s0 && !s1) return res; RtG g;
  if (!s1 && b == std::floor(b) && std::fabs(b) <= 8) {
    if (b == 0) return 1;
    void *r = s0; double v = a; for (int i = 1; i < std::fabs(b); i++) { r = _sym_fop(18, r, v, s0, a, v * a); v *= a; }
    if (b < 0) r = _sym_fop(21, nullptr, 1, r, v, 1 / v);
    _sym_ret[0] = r; return res;
  }
  if (!s1 && b == 0.5) { _sym_callee = (void *)&_symw_sqrt; _sym_args[0] = s0; double q = _symw_sqrt(a); return q; }
  // general power: uninterpreted in both arguments
  Expr *x = asFP((Expr *)s0, a), *y = asFP((Expr *)s1, b);
  if (absErr(x) != 0 || absErr(y) != 0) incomplete("pow of inexact arguments");
  int at = ufAtom("#pow", x->p, y->p, -INFINITY, INFINITY);
  Expr *r = new Expr(); r->k = FP; r->p = patom(at); r->lo = x->lo >= 0 ? 0 : -INFINITY; r->hi = INFINITY; r->ea = INFINITY; r->er = 4 * U; r->gran = -2000; _sym_ret[0] = r; return res;
}
#define UNSUP1(f) double _symw_##f(double v) { ENTER(_symw_##f) if (s0) { RtG g; _sym_concd(s0, v); } return std::f(v); }
UNSUP1(log1p) UNSUP1(expm1) UNSUP1(log10) UNSUP1(atan) UNSUP1(lgamma) UNSUP1(tgamma) UNSUP1(log2) UNSUP1(exp2) UNSUP1(cosh) UNSUP1(sinh) UNSUP1(tan)
#define UNSUP2(f) double _symw_##f(double v, double w) { ENTER(_symw_##f) if (s0) _sym_concd(s0, v); if (s1) _sym_concd(s1, w); return std::f(v, w); }
UNSUP2(fmod) UNSUP2(hypot)
double _symw_modf(double v, double *ip) { ENTER(_symw_modf) if (!s0) return std::modf(v, ip); double k; { RtG g; k = floorTo(asFP((Expr *)s0, v), v, true); } *ip = k; _sym_store((u64)ip, 8, nullptr); _sym_ret[0] = _sym_fop(16, s0, v, nullptr, k, v - k); return v - k; }
double _symw_fma(double a, double b, double c) { ENTER(_symw_fma) void *s2 = mine ? _sym_args[2] : nullptr; double res = std::fma(a, b, c); if (!s0 && !s1 && !s2) return res; void *m = _sym_fop(18, s0, a, s1, b, a * b); _sym_ret[0] = _sym_fop(14, m, a * b, s2, c, res); return res; }
void *_symw_memcpy(void *d, const void *s, size_t n) { _sym_callee = nullptr; _sym_memcpy((u64)d, (u64)s, n); return memcpy(d, s, n); }
void *_symw_memmove(void *d, const void *s, size_t n) { _sym_callee = nullptr; _sym_memcpy((u64)d, (u64)s, n); return memmove(d, s, n); }
void *_symw_memset(void *d, int c, size_t n) { _sym_callee = nullptr; _sym_memset((u64)d, n); return memset(d, c, n); }

// ---------------------------------------------------------------- harness API
static u64 rng = 88172645463325252ull;
static u64 rnd64() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
double sx_double_(const char *name, double lo, double hi, int gran) {
  RtG g; _sym_callee = nullptr; _sym_ret[0] = nullptr;
  Input in; in.kind = 'd'; in.name = name; in.lo = lo; in.hi = hi; in.gran = gran; in.u = 0;
  if (dIdx < cur.dv.size()) in.d = cur.dv[dIdx];
  else { double f = (rnd64() >> 40) / double(1 << 24); double d = lo + (hi - lo) * f; int gg = gran > -1000 ? gran : -8; d = std::ldexp(std::floor(std::ldexp(d, -gg)), gg); in.d = std::min(hi, std::max(lo, d)); }
  dIdx++;
  if (lo == hi) { in.d = lo; pushInput(in); return lo; }
  Atom A; A.kind = A_VAR; A.name = name; A.lo = lo; A.hi = hi; A.gran = gran; A.input = inputs.size(); atoms.push_back(A); in.atom = atoms.size() - 1;
  pushInput(in);
  Expr *e = new Expr(); e->k = FP; e->p = patom(in.atom); e->lo = lo; e->hi = hi; e->ea = e->er = 0; e->gran = gran > -1000 ? gran : -2000;
  // refuse non-dyadic bounds silently: bounds are doubles, hence dyadic
  _sym_ret[0] = e; return in.d;
}
uint64_t sx_u64_(const char *name, uint64_t lo, uint64_t hi) {
  RtG g; _sym_callee = nullptr; _sym_ret[0] = nullptr;
  Input in; in.kind = 'u'; in.name = name; in.ulo = lo; in.uhi = hi; in.d = 0;
  if (uIdx < cur.uv.size()) in.u = cur.uv[uIdx]; else in.u = hi - lo == ~0ull ? rnd64() % 16 : lo + rnd64() % std::min<u64>(hi - lo + 1, 16);
  uIdx++;
  z3::expr x = Z->bv_const(("u" + std::to_string(inputs.size())).c_str(), 64);
  Expr *e = new Expr(); e->k = BV; e->width = 64; e->ast = x; Z3_inc_ref(*Z, x);
  in.ast = x; Z3_inc_ref(*Z, x);
  auto add = [&](const z3::expr &c) { Z3_inc_ref(*Z, c); PCB.push_back(c); };
  if (lo) add(z3::uge(x, Z->bv_val((uint64_t)lo, 64))); if (hi != ~0ull) add(z3::ule(x, Z->bv_val((uint64_t)hi, 64)));
  pushInput(in);
  _sym_ret[0] = e; return in.u;
}
int sx_choice(const char *name, int n) {
  RtG g; _sym_callee = nullptr; _sym_ret[0] = nullptr; checkBudget();
  Input in; in.kind = 'c'; in.name = name; in.d = 0;
  int v = 0;
  if (n > 1) {
    if (dpos < cur.prefix.size()) v = (unsigned char)cur.prefix[dpos++];
    else {
      for (int k = n - 1; k >= 1; k--) { Item it; it.harness = cur.harness; it.prefix = trail; it.prefix.push_back((char)k); for (auto &i : inputs) if (i.kind == 'd') it.dv.push_back(i.d); for (auto &i : inputs) if (i.kind == 'u') it.uv.push_back(i.u); it.nomodel = cur.nomodel || diverged; emit("W" + serItem(it)); }
    }
    trail.push_back((char)v);
  }
  in.u = v; pushInput(in);
  return v;
}
void sx_assume(int c) {
  void *s = _sym_callee == (void *)&sx_assume ? _sym_args[0] : nullptr; _sym_callee = nullptr;
  if (s) { c = _sym_branch(_sym_cast(38, 32, 1, s), c != 0); }
  if (!c) finish("assume");
}
void sx_assert_(int c, const char *label) {
  void *s = _sym_callee == (void *)&sx_assert_ ? _sym_args[0] : nullptr; _sym_callee = nullptr;
  bool nat = c != 0;
  if (s) { RtG g; z3::expr x = bvOf(s, 32, c); st.qassert++; c = decideBV(x != Z->bv_val(0, 32), c != 0); }
  RtG g;
  emit1(std::string("A") + label);
  if (!c) { violation(label, nat ? "S" : "C"); finish("violation"); }
}
void sx_close_(double a, double b, double tabs, double trel, const char *label) {
  bool mine = _sym_callee == (void *)&sx_close_; _sym_callee = nullptr;
  void *sa = mine ? _sym_args[0] : nullptr, *sb = mine ? _sym_args[1] : nullptr;
  RtG g;
  emit1(std::string("A") + label);
  auto bad = [&]() { if (std::isnan(a) || std::isnan(b)) return !(std::isnan(a) && std::isnan(b)); if (std::isinf(a) || std::isinf(b)) return a != b; return std::fabs(a - b) > tabs + trel * std::max(std::fabs(a), std::fabs(b)); };
  if (bad()) { if (!diverged || (!sa && !sb)) { violation(label, "C"); finish("violation"); } }
  if (!sa && !sb) return;
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) { if (!diverged) return; violation(label, "S"); finish("violation"); }
  Expr *x = asFP((Expr *)sa, a), *y = asFP((Expr *)sb, b);
  double E = absErr(x) + absErr(y);
  double Er = 0; // relative part when absolute errors are unbounded
  if (!std::isfinite(E)) { Er = relErr(x) + relErr(y); E = 0; if (!std::isfinite(Er)) { incomplete(std::string("unbounded rounding error at ") + label); Er = 0; } }
  // engine self-check: symbolic ideal evaluated at the inputs must agree with the native value
  Poly D = padd(x->p, y->p, -1);
  double tol = tabs; // relative tolerance folded via |y|
  if (Er > trel * 0.5 && Er > 0) incomplete(std::string("rounding error above tolerance at ") + label);
  if (E > 0.5 * (tabs + 0) && E > 0) {
    double m = std::max(std::max(std::fabs(x->lo), std::fabs(x->hi)), std::max(std::fabs(y->lo), std::fabs(y->hi)));
    if (std::isfinite(m) && E > 0.5 * (tabs + trel * m)) incomplete(std::string("rounding error above tolerance at ") + label);
  }
  checkBudget();
  st.qassert++;
  // violation formula: |D| > tol + E + (trel+Er)|y|  -- definite; between tol-E and tol+E -- zone
  syncR();
  z3::solver &S = *SR;
  auto q = [&](double sgnE, RModel &rm) {
    z3::expr d = toZ(D, S), yy = toZ(y->p, S);
    S.push();
    mpq_class base = mpq_class(tol) + mpq_class(sgnE * E); if (base < 0) base = 0;
    mpq_class rl = mpq_class(trel) + mpq_class(sgnE * Er); if (rl < 0) rl = 0;
    z3::expr ay = z3::ite(yy >= 0, yy, -yy);
    z3::expr bound = ratExpr(base) + ratExpr(rl) * ay;
    Res r;
    if (pisconst(D) && sgn(abs(pcval(D)) - base) <= 0) { S.add(Z->bool_val(false)); r = chk(S, true); }
    else {
      r = UNSAT;
      for (int sg = 0; sg < 2 && r == UNSAT; sg++) {
        S.push(); S.add(sg ? d > bound : d < -bound);
        r = chk(S, true);
        if (r == UNK) { z3::solver N(*Z, "QF_NRA"); z3::params pp(*Z); pp.set("timeout", (unsigned)qTimeout * 3); N.set(pp); for (unsigned i = 0; i < S.assertions().size(); i++) N.add(S.assertions()[i]); r = chk(N, true); if (r == SAT) getRealModel(rm, N, false); }
        else if (r == SAT) getRealModel(rm, S, true);
        S.pop();
      }
    }
    S.pop();
    return r;
  };
  RModel rm;
  Res r = q(1, rm);
  if (r == UNSAT && (E > 0 || Er > 0)) { RModel rm2; Res r2 = q(-1, rm2); if (r2 != UNSAT) { incomplete(std::string("within rounding error: ") + label); } return; }
  if (r == UNSAT) return;
  if (r == UNK) { incomplete(std::string("solver unknown at assertion: ") + label); return; }
  // candidate: run the same path with the model's inputs
  if (cur.tries < 3) {
    if (dbg) fprintf(stderr, "CAND %s D=%s\n", label, pstr(D).c_str());
    emit1(std::string("P") + label);
    Item it; it.harness = cur.harness; it.prefix = trail; it.dv = rm.d; for (auto &i : inputs) if (i.kind == 'u') it.uv.push_back(i.u); it.tries = cur.tries + 1; it.nomodel = false; emit("W" + serItem(it));
  } else incomplete(std::string("candidate violation not reproduced: ") + label);
}
void sx_reach(const char *label) { RtG g; _sym_callee = nullptr; emit1(std::string("R") + label); }
void sx_note(const char *k, double v) { _sym_callee = nullptr; (void)k; (void)v; }
int sx_symbolic() { _sym_callee = nullptr; _sym_ret[0] = nullptr; return 1; }
struct Har { const char *n; sx_fn f; };
static std::vector<Har> &hars() { static std::vector<Har> h; return h; }
void sx_register(const char *n, sx_fn f) { hars().push_back({n, f}); }

static std::string asanMsg;
static void asanReport(const char *m) { inRt = true; const char *p = strstr(m, "ERROR: AddressSanitizer:"); std::string k = "memory error"; if (p) { p += 25; const char *e = p; while (*e && *e != '\n') e++; k = std::string(p, e); size_t x = k.find(" on "); if (x != std::string::npos) k = k.substr(0, x); } 
  std::string fr; // first frames
  const char *q = m; int n = 0; while ((q = strstr(q, " in ")) && n < 6) { q += 4; const char *e = q; while (*e && *e != '\n') e++; std::string l(q, e); fr += " < " + l.substr(0, 100); n++; }
  violation("memory-safety: " + k + fr, "C"); }
static void onDeath() { finish("violation"); }
static void onSig(int s) {
  inRt = true;
  if (s == SIGALRM) { emit("Tpath timeout"); violation("non-termination: path exceeded its time limit", "T"); finish("pathtimeout"); }
  if (dbg) { void *bt[60]; int n = backtrace(bt, 60); backtrace_symbols_fd(bt, n, 2); }
  char b[60]; snprintf(b, sizeof b, "crash: signal %d", s); violation(b, "C"); finish("violation");
}
const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=0:handle_sigill=1:allocator_may_return_null=1:detect_odr_violation=0:symbolize=0:print_legend=0:abort_on_error=0:exitcode=77:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0"; }
}

static void runItem(const Item &it, double pathLimit) {
  RtG g;
  cur = it; diverged = it.nomodel;
  z3::params p(*Z); p.set("rlimit", (unsigned)qTimeout * 1000);
  SR->set(p); SB->set(p);
  inputs.reserve(64);
  __sanitizer_install_malloc_and_free_hooks(_sym_hook_malloc, _sym_hook_free);
  __asan_set_error_report_callback(asanReport); __sanitizer_set_death_callback(onDeath);
  { static char alt[1 << 18]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int sg : {SIGALRM, SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) sigaction(sg, &sa, nullptr); }
  alarm((unsigned)pathLimit);
  rng += seed * 7919ull; rnd64();
  inRt = false;
  try { hars()[it.harness].f(); }
  catch (const std::exception &e) { inRt = true; violation(std::string("unexpected exception: ") + e.what(), "C"); finish("violation"); }
  catch (...) { inRt = true; violation("unexpected exception", "C"); finish("violation"); }
  finish("ok");
}

static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

int main(int argc, char **argv) {
  double budget = 100; int workers = 8; std::string out = "out.json", only; double pathLimit = 25; bool list = false; int maxViol = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-t") budget = atof(argv[++i]); else if (a == "-j") workers = atoi(argv[++i]); else if (a == "-o") out = argv[++i]; else if (a == "-h") only = argv[++i];
    else if (a == "-q") qTimeout = atoi(argv[++i]); else if (a == "-s") seed = atoi(argv[++i]); else if (a == "-l") list = true; else if (a == "-d") dbg = true; else if (a == "-p") pathLimit = atof(argv[++i]);
  }
  if (list) { for (auto &h : hars()) puts(h.n); return 0; }
  inRt = true;
  Z = new z3::context(); SR = new z3::solver(*Z); SB = new z3::solver(*Z, "QF_BV");
  { z3::solver t(*Z); z3::expr x = Z->real_const("warm"); t.add(x > 1); t.check(); }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  struct HS { u64 paths = 0, ok = 0, assume = 0, viol = 0, timeouts = 0, div = 0, qsat = 0, qunsat = 0, qunk = 0, qassert = 0, quick = 0, dec = 0, mism = 0, crash = 0; double ts = 0, wall = 0; std::map<std::string, u64> inc, reach, asserts, notes, pend; struct V { std::string label, cls, in; }; std::vector<V> v; std::string sample; bool done = true; };
  std::vector<HS> hs(hars().size());
  std::set<u64> fpcs;
  std::vector<std::deque<Item>> q(hars().size());
  for (size_t i = 0; i < hars().size(); i++) if (only.empty() || only == hars()[i].n) { Item it; it.harness = i; q[i].push_back(it); }
  double t0 = now(); tEnd = t0 + budget;
  struct W { pid_t pid = 0; char *mem = nullptr; int harness = 0; double t; bool killed = false; };
  const size_t cap = 4 << 20;
  std::vector<W> ws(workers);
  for (auto &w : ws) { w.mem = (char *)mmap(nullptr, cap + 16 + inLogCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  size_t rr = 0; int running = 0;
  { struct sigaction sa{}; sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, nullptr); struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &tv, nullptr); } // interrupts the wait below, so that hung workers are noticed
  for (;;) {
    // launch
    for (auto &w : ws) if (!w.pid) {
      if (now() > tEnd) break;
      size_t n = q.size(), pick = n;
      for (size_t k = 0; k < n; k++) { size_t h = (rr + k) % n; if (!q[h].empty() && (int)hs[h].v.size() < maxViol) { pick = h; break; } }
      if (pick == n) break;
      rr = pick + 1;
      Item it = q[pick].back(); q[pick].pop_back();
      // mix depth-first with breadth so that a time-limited run still spreads
      if (q[pick].size() > 64 && (hs[pick].paths & 3) == 3) { q[pick].push_back(it); it = q[pick].front(); q[pick].pop_front(); }
      *(u64 *)w.mem = 0; *(u64 *)(w.mem + cap + 16) = 0; w.killed = false; w.harness = pick; w.t = now();
      pid_t p = _Fork(); // not fork(): the sanitizer would touch its whole stack table in every child
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        chan = w.mem + 8; chanCap = cap; inLog = w.mem + cap + 16; chanLen = (u64 *)w.mem;
        if (!dbg) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        runItem(it, pathLimit);
      }
      w.pid = p; running++;
    }
    if (!running) break;
    int stt; pid_t p = waitpid(-1, &stt, 0);
    if (p < 0 && errno == EINTR) { for (auto &w : ws) if (w.pid && now() - w.t > pathLimit + 10) { w.killed = true; kill(w.pid, SIGKILL); } continue; } // its own alarm came inside an allocation
    if (p < 0) break;
    for (auto &w : ws) if (w.pid == p) {
      w.pid = 0; running--;
      HS &h = hs[w.harness]; h.paths++; h.wall += now() - w.t;
      u64 len = *(u64 *)w.mem; size_t o = 0; const char *m = w.mem + 8; bool ended = false;
      while (o < len) {
        u64 n; memcpy(&n, m + o, 8); std::string r(m + o + 8, n); o += 8 + n;
        switch (r[0]) {
        case 'W': q[w.harness].push_back(desItem(r.data() + 1)); break;
        case 'X': h.inc[r.substr(1)]++; break;
        case 'R': h.reach[r.substr(1)]++; break;
        case 'A': h.asserts[r.substr(1)]++; break;
        case 'O': h.notes[r.substr(1)]++; break;
        case 'P': h.pend[r.substr(1)]++; break;
        case 'F': fpcs.insert(strtoull(r.c_str() + 1, 0, 16)); break;
        case 'T': h.timeouts++; break;
        case 'I': if (h.sample.empty() || (h.paths % 97) == 0) h.sample = r.substr(1); break;
        case 'V': { size_t nl = r.find('\n'); HS::V v; v.cls = r.substr(1, 2); v.label = r.substr(3, nl - 3); v.in = r.substr(nl + 1); h.viol++; bool dup = false; for (auto &x : h.v) if (x.label == v.label && x.cls[1] == v.cls[1]) dup = true; if (!dup) h.v.push_back(v); break; }
        case 'E': { ended = true; size_t nl = r.find('\n'); std::string how = r.substr(1, nl - 1); unsigned long long a, b, c, d, e, f, g; double ts; int dv; if (sscanf(r.c_str() + nl + 1, "%llu %llu %llu %llu %llu %llu %llu %lf %d", &a, &b, &c, &d, &e, &f, &g, &ts, &dv) == 9) { h.qsat += a; h.qunsat += b; h.qunk += c; h.qassert += d; h.quick += e; h.dec += f; h.mism += g; h.ts += ts; h.div += dv; } if (how == "ok") h.ok++; else if (how == "assume") h.assume++; break; }
        }
      }
      if (!ended && (w.killed || (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL))) { HS::V v; v.cls = "TN"; v.label = "non-termination: path exceeded its limits"; u64 n = *(u64 *)(w.mem + cap + 16); v.in = std::string(w.mem + cap + 24, n); h.viol++; h.timeouts++; bool dup = false; for (auto &x : h.v) if (x.label == v.label) dup = true; if (!dup) h.v.push_back(v); }
      if (h.timeouts >= 3) { q[w.harness].clear(); h.inc["paths exceeded their limits"]++; }
      if (!ended) { h.crash++; h.inc["worker died without a report (status " + std::to_string(stt) + ")"]++; }
    }
  }
  { struct itimerval tv = {}; setitimer(ITIMER_REAL, &tv, nullptr); }
  FILE *f = fopen(out.c_str(), "w"); if (!f) return 3;
  fprintf(f, "{\"wall\": %.3f, \"harnesses\": [", now() - t0);
  bool first = true;
  for (size_t i = 0; i < hs.size(); i++) {
    if (!(only.empty() || only == hars()[i].n)) continue;
    HS &h = hs[i];
    if (!q[i].empty() && (int)h.v.size() < maxViol) h.inc["unexplored work items: " + std::to_string(q[i].size())]++;
    fprintf(f, "%s\n{\"name\": \"%s\", \"paths\": %llu, \"completed\": %llu, \"assume_pruned\": %llu, \"diverged\": %llu, \"mismatch\": %llu, \"decisions\": %llu, \"quick\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"assert_queries\": %llu, \"solver_s\": %.3f, \"cpu_s\": %.2f, \"timeouts\": %llu,", first ? "" : ",", hars()[i].n, (unsigned long long)h.paths, (unsigned long long)h.ok, (unsigned long long)h.assume, (unsigned long long)h.div, (unsigned long long)h.mism, (unsigned long long)h.dec, (unsigned long long)h.quick, (unsigned long long)h.qsat, (unsigned long long)h.qunsat, (unsigned long long)h.qunk, (unsigned long long)h.qassert, h.ts, h.wall, (unsigned long long)h.timeouts);
    auto mp = [&](const char *k, std::map<std::string, u64> &m) { fprintf(f, " \"%s\": {", k); bool c = false; for (auto &x : m) { fprintf(f, "%s\"%s\": %llu", c ? ", " : "", esc(x.first).c_str(), (unsigned long long)x.second); c = true; } fprintf(f, "},"); };
    mp("incomplete", h.inc); mp("reach", h.reach); mp("asserts", h.asserts); mp("notes", h.notes); mp("candidates", h.pend);
    fprintf(f, " \"sample\": \"%s\", \"violations\": [", esc(h.sample).c_str());
    bool c = false; for (auto &v : h.v) { fprintf(f, "%s{\"label\": \"%s\", \"class\": \"%s\", \"inputs\": \"%s\"}", c ? ", " : "", esc(v.label).c_str(), v.cls.c_str(), esc(v.in).c_str()); c = true; }
    fprintf(f, "]}"); first = false;
  }
  fprintf(f, "],\n \"functions\": [");
  std::set<std::string> fn;
  for (u64 pc : fpcs) { Dl_info di; if (dladdr((void *)pc, &di) && di.dli_sname) fn.insert(di.dli_sname); }
  first = true; for (auto &x : fn) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(x).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}
