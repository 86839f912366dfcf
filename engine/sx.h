// Harness API.  The same harness source is compiled twice: instrumented and
// linked with the symbolic runtime, and natively (replay) reading concrete
// inputs from a file.
#ifndef SX_H
#define SX_H
#include <cstddef>
#include <cstdint>
extern "C" {
// symbolic double in [lo,hi]; gran: value is a multiple of 2^gran (gran <= -1000: any double)
double sx_double_(const char* name, double lo, double hi, int gran);
// symbolic 64-bit unsigned integer in [lo,hi] (stays symbolic)
uint64_t sx_u64_(const char* name, uint64_t lo, uint64_t hi);
// forks: one path per value 0..n-1
int sx_choice(const char* name, int n);
void sx_assume(int c);
void sx_assert_(int c, const char* label);
// |a-b| <= abs + rel*max(|a|,|b|)
void sx_close_(double a, double b, double abs, double rel, const char* label);
void sx_reach(const char* label);
void sx_note(const char* key, double v);
int sx_symbolic();   // 1 in the symbolic run, 0 in replay
typedef void (*sx_fn)();
void sx_register(const char* name, sx_fn f);
}
inline double sx_double(const char* n, double lo, double hi, int gran = -2000) { return sx_double_(n, lo, hi, gran); }
inline double sx_grid(const char* n, double lo, double hi, int gran) { return sx_double_(n, lo, hi, gran); }
inline uint64_t sx_u64(const char* n, uint64_t lo = 0, uint64_t hi = ~0ull) { return sx_u64_(n, lo, hi); }
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c, label) sx_assert_((c) ? 1 : 0, label)
#define sx_close(a, b, label) sx_close_((a), (b), 1e-9, 1e-9, label)
#define sx_close_tol(a, b, tol, label) sx_close_((a), (b), (tol), (tol), label)
#define SX_HARNESS(name) static void name(); namespace { struct R_##name { R_##name() { sx_register(#name, name); } } r_##name; } static void name()
// expects expression to throw an exception of the given type (and nothing else)
#define SX_THROWS(T, expr, label) do { int sx_r = 0; try { expr; } catch (const T&) { sx_r = 1; } catch (...) { sx_r = 2; } sx_assert(sx_r == 1, label); } while (0)
#define SX_THROWS_ANY(expr, label) do { int sx_r = 0; try { expr; } catch (...) { sx_r = 1; } sx_assert(sx_r == 1, label); } while (0)
#define SX_NOTHROW(expr, label) do { int sx_r = 0; try { expr; } catch (...) { sx_r = 1; } sx_assert(sx_r == 0, label); } while (0)
#endif
