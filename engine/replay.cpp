// Native replay runtime: feeds the harness with the concrete inputs of a
// counterexample (or of an explored path) and reports what really happens.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <string>
#include <vector>
#include <unistd.h>
struct In { char k; std::string n; double d; unsigned long long u; };
static std::vector<In> ins; static size_t pos = 0;
struct H { const char *n; sx_fn f; };
static std::vector<H> &hs() { static std::vector<H> h; return h; }
// inputs are found by name: compilers may evaluate a call's arguments in different orders
static bool extra = false;
static In next(char k, const char *name) {
  extra = false; size_t at = pos; while (at < ins.size() && (ins[at].k != k || ins[at].n != name)) at++;
  if (at < ins.size()) { In i = ins[at]; ins.erase(ins.begin() + at); ins.insert(ins.begin() + pos, i); pos++; return i; }
  if (pos >= ins.size()) { extra = true; In i; i.k = k; i.n = name; i.d = 0; i.u = 0; printf("REPLAY-EXTRA-INPUT %s\n", name); return i; }
  printf("REPLAY-DIVERGED expected %c %s got %c %s\n", k, name, ins[pos].k, ins[pos].n.c_str()); fflush(stdout); _exit(5);
}
static void fail(const std::string &l) { printf("REPLAY-FAIL %s\n", l.c_str()); fflush(stdout); _exit(1); }
extern "C" {
const char *__asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:allocator_may_return_null=1:exitcode=1"; }
double sx_double_(const char *n, double lo, double hi, int) { In i = next('d', n); return extra ? lo : i.d; }
uint64_t sx_u64_(const char *n, uint64_t, uint64_t) { return next('u', n).u; }
int sx_choice(const char *n, int) { return (int)next('c', n).u; }
void sx_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(0); } }
void sx_assert_(int c, const char *l) { if (!c) fail(l); }
void sx_close_(double a, double b, double ab, double rl, const char *l) {
  bool bad; if (std::isnan(a) || std::isnan(b)) bad = !(std::isnan(a) && std::isnan(b)); else if (std::isinf(a) || std::isinf(b)) bad = a != b; else bad = std::fabs(a - b) > ab + rl * std::fmax(std::fabs(a), std::fabs(b));
  if (bad) { char t[100]; snprintf(t, sizeof t, " (got %.17g, expected %.17g)", a, b); fail(std::string(l) + t); }
}
void sx_reach(const char *) {}
void sx_note(const char *, double) {}
int sx_symbolic() { return 0; }
void sx_register(const char *n, sx_fn f) { hs().push_back({n, f}); }
}
static void onAlarm(int) { const char m[] = "REPLAY-FAIL non-termination\n"; if (write(1, m, sizeof m - 1)) {} _exit(1); }
int main(int argc, char **argv) {
  if (argc < 3) return 4;
  FILE *f = fopen(argv[2], "r"); if (!f) return 4;
  char b[4096];
  while (fgets(b, sizeof b, f)) {
    if (b[0] == '#') continue;
    In i; char n[512], v[512]; if (sscanf(b, "%c %511s %511s", &i.k, n, v) != 3) continue;
    i.n = n; if (i.k == 'd') i.d = strtod(v, 0); else i.u = strtoull(v, 0, 10); ins.push_back(i);
  }
  signal(SIGALRM, onAlarm); alarm(20);
  for (auto &h : hs()) if (!strcmp(h.n, argv[1])) {
    try { h.f(); } catch (const std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); } catch (...) { fail("unexpected exception"); }
    printf("REPLAY-OK\n"); return 0;
  }
  return 4;
}
