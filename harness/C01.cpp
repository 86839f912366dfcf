// C01: bin axes
// SRC: BinAxis.cpp
// BOUNDS: equal-width axes with 1..5 bins and arbitrary real min/max in [-1000,1000]; explicit contiguous edges with up to 4 bins and arbitrary real edges in [-1000,1000], with 7 and 12 bins of any widths in [0.01,20]; any lookup value in [-1e6,1e6]; lookup of any value on fixed even and uneven axes of up to 200 bins
// OUTSIDE: non-finite values and edges; more bins than stated with arbitrary edges; explicit edge lists whose bins overlap or leave gaps
#include "hx.h"
#include <Exceptions.h>

SX_HARNESS(h_equal_width) {
  double lo = sx_double("min", -1000, 1000), hi = sx_double("max", -1000, 1000);
  int n = 1 + sx_choice("nbins", 5);
  sx_assume(hi - lo > 1e-3);
  BinAxis a("ax", lo, hi, n, "lat");
  sx_reach("built");
  sx_assert(a.GetNBins() == (size_t)n, "bin count");
  sx_assert(a.GetName() == "ax" && a.GetLatexName() == "lat", "names");
  sx_close(a.GetBinLowEdge(0), lo, "first low edge");
  sx_close(a.GetBinHighEdge(n - 1), hi, "last high edge");
  sx_close(a.GetMin(), lo, "min"); sx_close(a.GetMax(), hi, "max");
  sx_close(a.GetMinimum(), lo, "minimum"); sx_close(a.GetMaximum(), hi, "maximum");
  double w = (hi - lo) / n;
  for (int i = 0; i < n; i++) {
    sx_close(a.GetBinLowEdge(i), lo + i * w, "low edge formula");
    sx_close(a.GetBinHighEdge(i) - a.GetBinLowEdge(i), w, "edges a width apart");
    sx_close(a.GetBinWidth(i), w, "width");
    sx_close(a.GetBinCentre(i), 0.5 * (a.GetBinLowEdge(i) + a.GetBinHighEdge(i)), "centre in the middle");
    sx_close(a.GetBinLowEdges().at(i), a.GetBinLowEdge(i), "low edge vector");
    sx_close(a.GetBinHighEdges().at(i), a.GetBinHighEdge(i), "high edge vector");
    sx_close(a.GetBinCentres().at(i), a.GetBinCentre(i), "centre vector");
    if (i) sx_close(a.GetBinLowEdge(i), a.GetBinHighEdge(i - 1), "contiguous");
  }
  sx_assert(a.GetBinLowEdges().size() == (size_t)n && a.GetBinHighEdges().size() == (size_t)n && a.GetBinCentres().size() == (size_t)n, "vector sizes");
}
static void find(const BinAxis &a, double v) {
  size_t n = a.GetNBins(), b = a.FindBin(v);
  sx_reach("found");
  sx_assert(b < n, "bin in range");
  if (b > 0) { sx_assert(v >= a.GetBinHighEdge(b - 1), "value not below its bin"); sx_assert(v >= a.GetBinLowEdge(b), "value at or above its bin's low edge"); }
  if (b + 1 < n) sx_assert(v < a.GetBinHighEdge(b), "value below the high edge");
}
SX_HARNESS(h_equal_find) { // edges exactly representable: lookup decided for every value
  static const double R[][2] = {{0, 1}, {-3, 5}, {-1, 0.5}, {100, 104}};
  static const int N[] = {1, 2, 4, 8};
  int r = sx_choice("range", 4), n = N[sx_choice("nbins", 4)];
  find(BinAxis("ax", R[r][0], R[r][1], n), sx_double("value", -1e6, 1e6));
}
SX_HARNESS(h_explicit) {
  int n = 1 + sx_choice("nbins", h_thorough() ? 4 : 3);
  std::vector<double> e;
  for (int i = 0; i <= n; i++) { e.push_back(sx_double(("e" + std::to_string(i)).c_str(), -1000, 1000)); if (i) sx_assume(e[i] > e[i - 1]); }
  std::vector<double> lo(e.begin(), e.end() - 1), hi(e.begin() + 1, e.end());
  BinAxis a("ax", lo, hi);
  sx_reach("built");
  sx_assert(a.GetNBins() == (size_t)n && a.GetName() == "ax" && a.GetLatexName() == "ax", "count and names");
  sx_assert(a.GetMin() == e.front() && a.GetMax() == e.back(), "range");
  for (int i = 0; i < n; i++) {
    sx_assert(a.GetBinLowEdge(i) == e[i] && a.GetBinHighEdge(i) == e[i + 1], "edges as given");
    sx_close(a.GetBinCentre(i), 0.5 * (e[i] + e[i + 1]), "centre in the middle");
    sx_close(a.GetBinWidth(i), e[i + 1] - e[i], "width");
  }
  find(a, sx_double("value", -1e6, 1e6));
}
SX_HARNESS(h_explicit_many) { // more bins, each of any width
  int n = sx_choice("nbins", 2) ? 12 : 7; std::vector<double> e{sx_double("start", -100, 100)}, g{0}; for (int i = 0; i < n; i++) e.push_back(e.back() + sx_double(("w" + std::to_string(i)).c_str(), 0.01, 20));
  std::vector<double> lo(e.begin(), e.end() - 1), hi(e.begin() + 1, e.end()); BinAxis a("ax", lo, hi, "l"); sx_assert(a.GetNBins() == (size_t)n && a.GetName() == "ax" && a.GetLatexName() == "l", "count and names"); sx_assert(a.GetMin() == e.front() && a.GetMax() == e.back() && a.GetMinimum() == e.front() && a.GetMaximum() == e.back(), "range");
  for (int i = 0; i < n; i++) { sx_assert(a.GetBinLowEdge(i) == e[i] && a.GetBinHighEdge(i) == e[i + 1] && a.GetBinLowEdges().at(i) == e[i] && a.GetBinHighEdges().at(i) == e[i + 1], "edges as given"); sx_close(a.GetBinCentre(i), 0.5 * (e[i] + e[i + 1]), "centre in the middle"); sx_close(a.GetBinWidth(i), e[i + 1] - e[i], "width"); }
  find(a, sx_double("value", -1e6, 1e6)); }
SX_HARNESS(h_find_many) { // axes of many bins, even and uneven, edges not all exactly representable
  static const int N[] = {9, 16, 33, 100, 200}; int k = sx_choice("kind", 4), n = N[sx_choice("nbins", k ? 5 : 2)];
  double v = sx_double("value", -1e6, 1e6);
  if (k == 0) { BinAxis a("ax", -3, 7, n); for (int i = 0; i <= n; i++) sx_assume(fabs(v - (-3 + i * (10.0 / n))) > 1e-9); find(a, v); return; }
  std::vector<double> lo, hi; double x = -50;
  for (int i = 0; i < n; i++) { lo.push_back(x); x += k == 1 ? 0.25 * (1 + i % 7) : k == 2 ? 0.001 + 0.1 * (i % 3) : ldexp(1, i % 12 - 6); hi.push_back(x); }
  BinAxis a("ax", lo, hi); find(a, v);
  for (int i = 0; i < n; i++) sx_assert(a.FindBin(lo[i]) == (size_t)i && a.GetBinLowEdge(i) == lo[i] && a.GetBinHighEdge(i) == hi[i], "a value on an edge belongs to the bin above it");
  sx_assert(a.FindBin(hi[n - 1]) == (size_t)n - 1, "the upper end of the axis belongs to the last bin");
}
SX_HARNESS(h_assigned) { // assigning over an axis leaves nothing of the old one
  int n = 1 + sx_choice("nbins", 6), m = 1 + sx_choice("before", 6); double v = sx_double("value", -100, 100);
  std::vector<double> lo, hi; for (int i = 0; i < n; i++) { lo.push_back(i * i); hi.push_back((i + 1) * (i + 1)); }
  BinAxis a("old", 0, 10, m, "oldlatex"); a.FindBin(v); BinAxis b("new", lo, hi, "newlatex"); a = b;
  sx_assert(a.GetName() == "new" && a.GetLatexName() == "newlatex" && a.GetNBins() == (size_t)n && a == b && a.GetMin() == 0 && a.GetMax() == n * n, "an assigned axis is the new one"); find(a, v); sx_assert(a.FindBin(v) == b.FindBin(v), "an assigned axis is the new one");
}
SX_HARNESS(h_refused) {
  switch (sx_choice("case", 4)) {
  case 0: { double lo = sx_double("min", -1000, 1000), hi = sx_double("max", -1000, 1000); sx_assume(lo >= hi); SX_THROWS_ANY(BinAxis("a", lo, hi, 3), "inverted or empty range is refused"); sx_reach("refused"); break; }
  case 1: { double lo = sx_double("min", -1000, 1000), hi = sx_double("max", -1000, 1000); SX_THROWS_ANY(BinAxis("a", lo, hi, 0), "no bins is refused"); break; }
  case 2: { int n = sx_choice("nlow", 4), m = sx_choice("nhigh", 4); sx_assume(n != m || n == 0); std::vector<double> lo, hi; for (int i = 0; i < n; i++) lo.push_back(i); for (int i = 0; i < m; i++) hi.push_back(i + 1); SX_THROWS_ANY(BinAxis("a", lo, hi), "edge lists of different length or empty are refused"); break; }
  case 3: { std::vector<double> lo, hi; for (int i = 0; i < 3; i++) { lo.push_back(sx_double(("l" + std::to_string(i)).c_str(), -10, 10)); hi.push_back(sx_double(("h" + std::to_string(i)).c_str(), -10, 10)); }
    bool bad = false; for (int i = 0; i < 3; i++) { if (lo[i] > hi[i]) bad = true; if (i && lo[i - 1] > lo[i]) bad = true; }
    sx_assume(bad); SX_THROWS_ANY(BinAxis("a", lo, hi), "inverted or unordered edges are refused"); sx_reach("bad edges"); break; }
  }
}
SX_HARNESS(h_compare) {
  std::vector<double> e = {0, 1, 2}, f;
  for (int i = 0; i < 3; i++) f.push_back(sx_double(("f" + std::to_string(i)).c_str(), -10, 10));
  sx_assume(f[0] < f[1]); sx_assume(f[1] < f[2]);
  BinAxis a("a", {e[0], e[1]}, {e[1], e[2]}), b("b", {f[0], f[1]}, {f[1], f[2]});
  bool same = f[0] == 0 && f[1] == 1 && f[2] == 2;
  sx_assert((a == b) == same, "axes are equal exactly when the edges are");
  sx_assert((a != b) == !same, "inequality is the negation");
  BinAxis c("a", 0, 2, 3); sx_assert(a != c && !(a == c), "different bin counts differ");
}
