// C15: matrix algebra
// SRC: SparseMatrix.cpp DenseMatrix.cpp
// BOUNDS: sparse and dense matrices up to 4x4 and 5x3 with any components within +-100 set in any order (zeros included on up to 4 cells), any vectors, every pair of these shapes; symmetric matrices up to 5x5; histories of up to four operations on matrices that share or exchange their contents (copies, assignments, products, zeroing, resizing)
#include "hx.h"
#include <DenseMatrix.h>
#include <Exceptions.h>
#include <SparseMatrix.h>
typedef std::vector<double> Vd; typedef std::vector<long long unsigned int> Vi;
static std::string S(int i) { return std::to_string(i); }
static const int SH[][2] = {{1, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 3}, {3, 1}, {4, 4}, {5, 3}};
static double val(const std::string &n) { return sx_double(n.c_str(), 0.25, 100); }
static bool shp(const SparseMatrix &x, int n, int m) { return (int)x.GetNRows() == n && (int)x.GetNCols() == m; }
static bool shp(const DenseMatrix &x, int n, int m) { int ok = 0; if (n && m) x.GetComponent(n - 1, m - 1); try { x.GetComponent(n, 0); } catch (const NotFoundError &) { ok++; } try { x.GetComponent(0, m); } catch (const NotFoundError &) { ok++; } return ok == 2; }
// reference: plain nested vectors
typedef std::vector<Vd> R;
template <class M> M mk(R &r, int n, int m, const char *pre, bool keep0 = false) {
  M x(n, m); r.assign(n, Vd(m, 0));
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (!keep0 || (i + j) % 2) { r[i][j] = val(pre + S(i) + S(j)); x.SetComponent(i, j, r[i][j]); }
  return x;
}
template <class M> void same(const M &x, const R &r, const char *l) { for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) sx_close(x.GetComponent(i, j), r[i][j], l); }
static R mul(const R &a, const R &b) { R c(a.size(), Vd(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) c[i][j] += a[i][k] * b[k][j]; return c; }
template <class M> void setget() {
  int s = sx_choice("shape", 9), n = SH[s][0], m = SH[s][1]; R r; M x(n, m); r.assign(n, Vd(m, 0)); same(x, r, "a new matrix is all zero");
  x = mk<M>(r, n, m, "a", sx_choice("holes", 2)); same(x, r, "components read back as set, others zero");
  int i = sx_choice("i", 6), j = sx_choice("j", 6); double v = sx_double("v", -100, 100);
  if (i < n && j < m) { x.SetComponent(i, j, v); r[i][j] = v; sx_assert(x.GetComponent(i, j) == v, "a component reads back the last value set"); }
  else { SX_THROWS(NotFoundError, x.SetComponent(i, j, v), "components outside are refused"); SX_THROWS(NotFoundError, x.GetComponent(i, j), "components outside are refused"); }
  same(x, r, "setting one component changes no other"); sx_assert(shp(x, n, m), "shape is kept");
}
SX_HARNESS(h_sparse_setget) { setget<SparseMatrix>(); }
SX_HARNESS(h_dense_setget) { setget<DenseMatrix>(); }
SX_HARNESS(h_index_any) { uint64_t i = sx_u64("i"), j = sx_u64("j"); sx_assume(i >= 2 || j >= 3); SparseMatrix s(2, 3); DenseMatrix d(2, 3); SX_THROWS(NotFoundError, s.SetComponent(i, j, 1), "components outside are refused"); SX_THROWS(NotFoundError, s.GetComponent(i, j), "components outside are refused"); SX_THROWS(NotFoundError, d.SetComponent(i, j, 1), "components outside are refused"); SX_THROWS(NotFoundError, d.GetComponent(i, j), "components outside are refused"); }
template <class M> void apply() {
  int s = sx_choice("shape", 9), n = SH[s][0], m = SH[s][1]; R r; M x = mk<M>(r, n, m, "a", sx_choice("holes", 2)); int L = sx_choice("len", 6); Vd v; for (int i = 0; i < L; i++) v.push_back(val("v" + S(i))); Vd v0 = v;
  if (L != m) { SX_THROWS(DimensionError, x(v), "vectors of the wrong length are refused"); return; }
  Vd o = x(v); sx_assert((int)o.size() == n && v == v0, "the result has one entry per row"); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < m; j++) t += r[i][j] * v[j]; sx_close(o[i], t, "each entry is the row times the vector"); }
}
SX_HARNESS(h_sparse_apply) { apply<SparseMatrix>(); }
SX_HARNESS(h_dense_apply) { apply<DenseMatrix>(); }
SX_HARNESS(h_sparse_signs) { // negative and zero entries, cancellation
  Vd a, v; for (int i = 0; i < 4; i++) a.push_back(sx_grid(("a" + S(i)).c_str(), -8, 8, -2)); for (int i = 0; i < 2; i++) v.push_back(sx_grid(("v" + S(i)).c_str(), -8, 8, -2)); SparseMatrix x(2, 2); for (int i = 0; i < 4; i++) x.SetComponent(i / 2, i % 2, a[i]); Vd o = x(v); sx_assert(o[0] == a[0] * v[0] + a[1] * v[1] && o[1] == a[2] * v[0] + a[3] * v[1], "each entry is the row times the vector");
}
template <class M> void product(bool sparse) {
  int s = sx_choice("shape", 9), t = sx_choice("shape2", 9); R a, b; M x = mk<M>(a, SH[s][0], SH[s][1], "a", sx_choice("holes", 2)), y = mk<M>(b, SH[t][0], SH[t][1], "b");
  if (SH[s][1] != SH[t][0]) { SX_THROWS_ANY(M(x) *= y, "products of shapes that do not fit are refused"); same(x, a, "operands are left alone"); return; }
  M z(x); z *= y; R c = mul(a, b); same(z, c, "a product is row times column"); sx_assert(shp(z, SH[s][0], SH[t][1]), "a product's shape"); same(x, a, "operands are left alone"); same(y, b, "operands are left alone");
  Vd v; for (int i = 0; i < SH[t][1]; i++) v.push_back(val("v" + S(i))); Vd p = z(v), q = x(y(v)); for (size_t i = 0; i < p.size(); i++) sx_close(p[i], q[i], "a product acts like one after the other");
}
SX_HARNESS(h_sparse_product) { product<SparseMatrix>(true); }
SX_HARNESS(h_dense_product) { product<DenseMatrix>(false); }
SX_HARNESS(h_sparse_times) { int s = sx_choice("shape", 9), t = sx_choice("shape2", 9); R a, b; SparseMatrix x = mk<SparseMatrix>(a, SH[s][0], SH[s][1], "a"), y = mk<SparseMatrix>(b, SH[t][0], SH[t][1], "b"); if (SH[s][1] != SH[t][0]) { SX_THROWS_ANY(x * y, "products of shapes that do not fit are refused"); } else { SparseMatrix z = x * y; same(z, mul(a, b), "a product is row times column"); sx_assert(shp(z, SH[s][0], SH[t][1]), "a product's shape"); } same(x, a, "operands are left alone"); same(y, b, "operands are left alone"); }
SX_HARNESS(h_sparse_chain) { R a, b, c; SparseMatrix x = mk<SparseMatrix>(a, 2, 2, "a"), y = mk<SparseMatrix>(b, 2, 2, "b", true), z = mk<SparseMatrix>(c, 2, 2, "c", true); same(x * y * z, mul(mul(a, b), c), "chained products"); same((x *= y) * z, mul(mul(a, b), c), "chained products"); same(x, mul(a, b), "multiplying in place"); }
template <class M> void special() {
  int n = sx_choice("rows", 5), m = sx_choice("cols", 5); M x(n, m); R r(n, Vd(m, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { r[i][j] = val("a" + S(i) + S(j)); x.SetComponent(i, j, r[i][j]); }
  if (sx_choice("what", 2)) { if (n && m) { x.SetZeros(); same(x, R(n, Vd(m, 0)), "clearing zeroes all"); sx_assert(shp(x, n, m), "clearing keeps the shape"); } else SX_THROWS(DimensionError, x.SetZeros(), "an empty matrix cannot be cleared"); }
  else if (n && n == m) { x.SetToIdentity(); R id(n, Vd(n, 0)); for (int i = 0; i < n; i++) id[i][i] = 1; same(x, id, "identity"); Vd v; for (int i = 0; i < n; i++) v.push_back(sx_grid(("v" + S(i)).c_str(), -100, 100, -20)); sx_assert(x(v) == v, "the identity changes nothing"); }
  else { SX_THROWS(DimensionError, x.SetToIdentity(), "non-square identities are refused"); same(x, r, "a refused request changes nothing"); }
}
SX_HARNESS(h_sparse_special) { special<SparseMatrix>(); }
SX_HARNESS(h_dense_special) { special<DenseMatrix>(); }
SX_HARNESS(h_sparse_scale) { int s = sx_choice("shape", 9); R r; SparseMatrix x = mk<SparseMatrix>(r, SH[s][0], SH[s][1], "a", true); double k = sx_grid("k", -10, 10, -20); x.Scale(k); for (auto &q : r) for (auto &e : q) e *= k; same(x, r, "scaling scales every component"); sx_assert(shp(x, SH[s][0], SH[s][1]), "scaling keeps the shape"); }
SX_HARNESS(h_sparse_bulk) { // all components at once: any order, missing ones become zero
  int n = 2, m = 3; SparseMatrix x(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) x.SetComponent(i, j, 7); int k = 1 + sx_choice("count", 3); Vi ri, ci; Vd v; R r(n, Vd(m, 0)); bool bad = false, dup = false; std::set<std::pair<int, int>> seen;
  for (int i = 0; i < k; i++) { int a = sx_choice(("r" + S(i)).c_str(), i ? 2 : 3), b = sx_choice(("c" + S(i)).c_str(), i ? 3 : 4); ri.push_back(a); ci.push_back(b); v.push_back(val("v" + S(i))); if (a >= n || b >= m) bad = true; else r[a][b] = v.back(); if (!seen.insert({a, b}).second) dup = true; }
  sx_assume(!dup);
  if (bad) { SX_THROWS(NotFoundError, x.SetComponents(ri, ci, v), "components outside are refused"); sx_assert(x.GetComponent(0, 0) == 7, "a refused request changes nothing"); }
  else { x.SetComponents(ri, ci, v); same(x, r, "setting all components sets these and clears the rest"); sx_assert(shp(x, n, m), "setting components keeps the shape"); Vd o = x(Vd{1, 2, 3}); sx_assert(o.size() == 2, "setting components keeps the shape"); for (int i = 0; i < n; i++) sx_close(o[i], r[i][0] + 2 * r[i][1] + 3 * r[i][2], "each entry is the row times the vector"); }
  Vd w = v; w.push_back(1); SX_THROWS(DimensionError, x.SetComponents(ri, ci, w), "lists of different lengths are refused"); Vi q = ri; q.push_back(0); SX_THROWS(DimensionError, x.SetComponents(q, ci, v), "lists of different lengths are refused"); SX_THROWS(DimensionError, x.SetComponents(ri, q, v), "lists of different lengths are refused");
}
SX_HARNESS(h_dense_symmetric) {
  int n = 1 + sx_choice("rows", 5), m = 1 + sx_choice("cols", 5), L = sx_choice("len", 17); DenseMatrix x(n, m); Vd v; for (int i = 0; i < L; i++) v.push_back(sx_double(("v" + S(i)).c_str(), -100, 100));
  if (n != m || L != n * (n + 1) / 2) { SX_THROWS(DimensionError, x.SetSymmetricMatrix(v), "a symmetric matrix needs its triangle"); return; }
  x.SetSymmetricMatrix(v); int k = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++, k++) sx_assert(x.GetComponent(i, j) == v[k] && x.GetComponent(j, i) == v[k], "a symmetric matrix holds the triangle on both sides");
}
template <class M> void more(M &, R &, int, double, const M &, const R &) {}
template <> void more<SparseMatrix>(SparseMatrix &x, R &r, int op, double w, const SparseMatrix &o, const R &q) {
  if (op == 0) { x.Scale(w); for (auto &a : r) for (double &e : a) e *= w; } else if (op == 1) { x.SetComponents(Vi{1, 0}, Vi{0, 1}, Vd{w, 3}); r = R{{0, 3}, {w, 0}}; } else { x = o * x; r = mul(q, r); }
}
template <class M> void chain() { // any sequence of changes; the matrix acts as its components say at every point
  R r, q; M x = mk<M>(r, 2, 2, "a", sx_choice("holes", 2)), o = mk<M>(q, 2, 2, "b", true), kept = x; R rk = r; Vd v{val("v0"), val("v1")};
  for (int k = 0; k < (h_thorough() ? 4 : 3); k++) {
    int op = sx_choice(("op" + S(k)).c_str(), std::is_same<M, SparseMatrix>::value ? 9 : 6); double w = 0.5 + k;
    switch (op) {
    case 0: x.SetComponent(k % 2, 1, w); r[k % 2][1] = w; break;
    case 1: x.SetComponent(1, k % 2, 0); r[1][k % 2] = 0; break;
    case 2: x *= o; r = mul(r, q); break;
    case 3: x.SetZeros(); r.assign(2, Vd(2, 0)); break;
    case 4: x.SetToIdentity(); r = R{{1, 0}, {0, 1}}; break;
    case 5: { M t(x); x = kept; kept = t; std::swap(r, rk); break; }
    default: more(x, r, op - 6, w, o, q);
    }
    same(x, r, "components follow every operation"); same(kept, rk, "copies are independent"); same(o, q, "operands are left alone"); Vd u = x(v); for (int i = 0; i < 2; i++) sx_close(u[i], r[i][0] * v[0] + r[i][1] * v[1], "each entry is the row times the vector");
  }
}
SX_HARNESS(h_sparse_history) { chain<SparseMatrix>(); }
SX_HARNESS(h_dense_history) { chain<DenseMatrix>(); }
SX_HARNESS(h_sparse_small) { // components of any magnitude take part
  double f = std::ldexp(1, -30), g = std::ldexp(1, 30); R a(2, Vd(2)), b(2, Vd(2)), ab; SparseMatrix x(2, 2), y(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { a[i][j] = val("a" + S(i) + S(j)); b[i][j] = val("b" + S(i) + S(j)); x.SetComponent(i, j, a[i][j] * f); y.SetComponent(i, j, b[i][j] * f); } ab = mul(a, b); auto ck = [&](const SparseMatrix &m, const R &r, double k) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx_close(m.GetComponent(i, j) * k, r[i][j], "small components take part like any other"); };
  ck(x, a, g); ck(x * y, ab, g * g); Vd v = x(Vd{f, 2 * f}); for (int i = 0; i < 2; i++) sx_close(v[i] * g * g, a[i][0] + 2 * a[i][1], "small components take part like any other"); x *= y; ck(x, ab, g * g); x.Scale(f); ck(x, ab, g * g * g); DenseMatrix p(2, 2), q(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { p.SetComponent(i, j, a[i][j] * f); q.SetComponent(i, j, b[i][j] * f); } p *= q; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx_close(p.GetComponent(i, j) * g * g, ab[i][j], "small components take part like any other");
}
