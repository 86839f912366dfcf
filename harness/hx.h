// shared harness helpers
#ifndef HX_H
#define HX_H
#include <sx.h>
#include <AxisCollection.h>
#include <BinAxis.h>
#include <Histogram.h>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
inline bool h_thorough() { const char *t = getenv("SX_TIER"); return t && !strcmp(t, "thorough"); }
static const char *const h_names[] = {"z", "y", "x", "w"};
// non-uniform axis: edges depend on axis number; all dyadic
inline BinAxis h_axis(const std::string &name, int n, int kind = 0) {
  if (kind == 0) return BinAxis(name, 0, n, n);
  if (kind == 1) return BinAxis(name, -1, -1 + 0.5 * n, n);
  static const double e[] = {-2, -1.5, 0, 3, 4, 7};
  std::vector<double> lo(e, e + n), hi(e + 1, e + n + 1);
  return BinAxis(name, lo, hi);
}
// axis with arbitrary (symbolic) contiguous edges, bin i inside [10*i, 10*i+19]
inline BinAxis h_symaxis(const std::string &name, int n) {
  std::vector<double> e;
  for (int i = 0; i <= n; i++) e.push_back(sx_double((name + "_e" + std::to_string(i)).c_str(), 10 * i, 10 * i + 9));
  return BinAxis(name, std::vector<double>(e.begin(), e.end() - 1), std::vector<double>(e.begin() + 1, e.end()));
}
inline AxisCollection h_axes(const std::vector<int> &n) {
  AxisCollection a;
  for (size_t i = 0; i < n.size(); i++) a.AddAxis(h_axis(h_names[i], n[i], i % 3));
  return a;
}
inline std::vector<double> h_contents(size_t n, double lo = -100, double hi = 100) {
  std::vector<double> v;
  for (size_t i = 0; i < n; i++) v.push_back(sx_double(("c" + std::to_string(i)).c_str(), lo, hi));
  return v;
}
inline Histogram h_hist(const std::vector<int> &n, double lo = -100, double hi = 100) {
  Histogram h(h_axes(n));
  h.SetBinContents(h_contents(h.GetNBins(), lo, hi));
  return h;
}
// independent oracle for row-major indices, last axis fastest
inline std::vector<size_t> h_unflat(size_t b, const std::vector<int> &n) {
  std::vector<size_t> r(n.size());
  for (size_t i = n.size(); i-- > 0;) { r[i] = b % n[i]; b /= n[i]; }
  return r;
}
inline size_t h_flat(const std::vector<size_t> &ix, const std::vector<int> &n) {
  size_t r = 0;
  for (size_t i = 0; i < n.size(); i++) r = r * n[i] + ix[i];
  return r;
}
// a shape chosen among several, up to maxDims axes
inline std::vector<int> h_shape(int maxDims = 3) {
  static const std::vector<std::vector<int>> S = {{3}, {2, 3}, {3, 2}, {2, 3, 2}, {1}, {1, 3}, {3, 2, 4}, {2, 2, 2, 3}};
  std::vector<std::vector<int>> c;
  for (auto &s : S) if ((int)s.size() <= maxDims) c.push_back(s);
  return c[sx_choice("shape", c.size())];
}
#endif
