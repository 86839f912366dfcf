// C02: global bins <-> per-axis indices
// SRC: BinAxis.cpp AxisCollection.cpp Histogram.cpp ContainerTools.cpp Combinations.cpp
// BOUNDS: every set of 1..4 axes with 1..3 bins each (120 shapes; 4 dims with up to 3 bins); symbolic global bin and symbolic index tuples; lookup of any point on axes up to 3 dimensions; shapes of up to 6 axes and up to 40 bins per axis; axes added after use; names spelt almost alike; shapes of up to 3.6e11 bins at any index tuple; equality of collections of three axes
#include "hx.h"
#include <Exceptions.h>

static std::vector<int> shape(int maxd) {
  int d = 1 + sx_choice("dims", maxd);
  std::vector<int> n; for (int i = 0; i < d; i++) n.push_back(1 + sx_choice("bins", d == 4 ? 2 : 3) + (i == 1 ? 1 : 0));
  return n;
}
SX_HARNESS(h_bin_to_index_to_bin) {
  std::vector<int> n = shape(4);
  AxisCollection a = h_axes(n);
  size_t tot = 1; for (int k : n) tot *= k;
  sx_assert(a.GetNBins() == tot && a.GetNDimensions() == n.size(), "bin count is the product");
  size_t b = sx_u64("bin", 0, tot - 1);
  std::vector<size_t> ix;
  for (size_t d = 0; d < n.size(); d++) { ix.push_back(a.UnflattenIndex(b, d)); sx_assert(ix[d] < (size_t)n[d], "index in range"); }
  sx_assert(a.FlattenIndices(ix) == b, "bin -> indices -> bin is the identity");
  std::vector<size_t> up = a.UnpackIndices(b);
  for (size_t d = 0; d < n.size(); d++) sx_assert(up[d] == ix[d], "unpack agrees with unflatten");
  sx_reach("roundtrip");
}
SX_HARNESS(h_index_to_bin_to_index) {
  std::vector<int> n = shape(4);
  AxisCollection a = h_axes(n);
  Histogram h(a);
  std::vector<size_t> ix;
  for (size_t d = 0; d < n.size(); d++) ix.push_back(sx_u64(("i" + std::to_string(d)).c_str(), 0, n[d] - 1));
  size_t b = a.FlattenIndices(ix);
  sx_assert(b < a.GetNBins(), "flattened index in range");
  sx_assert(h.FlattenIndices(ix) == b, "histogram agrees with its axes");
  std::vector<size_t> up = h.UnpackIndices(b);
  for (size_t d = 0; d < n.size(); d++) sx_assert(up[d] == ix[d], "indices -> bin -> indices is the identity");
}
SX_HARNESS(h_lookup) {
  static const std::vector<std::vector<int>> S = {{3}, {2, 3}, {3, 2}, {2, 3, 2}};
  std::vector<int> n = S[sx_choice("shape", 4)];
  AxisCollection a = h_axes(n);
  Histogram h(a);
  std::vector<double> p; std::vector<size_t> ix;
  for (size_t d = 0; d < n.size(); d++) { p.push_back(sx_double(("p" + std::to_string(d)).c_str(), -20, 20)); ix.push_back(a.GetAxis(d).FindBin(p[d])); }
  size_t b = a.FindBin(p);
  sx_assert(b == a.FlattenIndices(ix), "bin of a point is that of its per-axis bins");
  sx_assert(h.FindBin(p) == b, "histogram lookup agrees");
  if (n.size() == 1) sx_assert(h.FindBin(p[0]) == b, "scalar lookup agrees");
  for (size_t d = 0; d < n.size(); d++) sx_assert(h.UnpackIndices(b).at(d) == ix[d], "indices of the found bin");
  sx_reach("lookup");
}
SX_HARNESS(h_edges) {
  std::vector<int> n = shape(3);
  AxisCollection a;
  for (size_t d = 0; d < n.size(); d++) a.AddAxis(h_symaxis(h_names[d], n[d]));
  Histogram h(a);
  std::vector<double> lo(n.size()), hi(n.size()), ce(n.size()), hlo(n.size()), hhi(n.size()), hce(n.size());
  for (size_t b = 0; b < a.GetNBins(); b++) {
    std::vector<size_t> ix = a.UnpackIndices(b);
    a.GetBinLowEdges(b, lo); a.GetBinHighEdges(b, hi); a.GetBinCentres(b, ce);
    h.GetBinLowEdges(b, hlo); h.GetBinHighEdges(b, hhi); h.GetBinCentres(b, hce);
    for (size_t d = 0; d < n.size(); d++) {
      const BinAxis &x = a.GetAxis(d);
      sx_assert(&a.GetAxis(h_names[d]) == &x && a.GetAxisIndex(h_names[d]) == d && h.GetAxisIndex(h_names[d]) == d && a.GetAxisNames().at(d) == h_names[d] && h.GetAxisNames().at(d) == h_names[d], "axis names and indices agree");
      sx_assert(lo[d] == x.GetBinLowEdge(ix[d]) && hlo[d] == lo[d] && a.GetBinLowEdge(b, d) == lo[d] && h.GetBinLowEdge(b, d) == lo[d], "low edge of the per-axis bin");
      sx_assert(hi[d] == x.GetBinHighEdge(ix[d]) && hhi[d] == hi[d] && a.GetBinHighEdge(b, d) == hi[d] && h.GetBinHighEdge(b, d) == hi[d], "high edge of the per-axis bin");
      sx_assert(ce[d] == x.GetBinCentre(ix[d]) && hce[d] == ce[d] && a.GetBinCentre(b, d) == ce[d] && h.GetBinCentre(b, d) == ce[d], "centre of the per-axis bin");
      sx_assert(a.GetBinWidth(b, d) == x.GetBinWidth(ix[d]), "width of the per-axis bin");
    }
    if (h.FindBin(ce) != b) sx_assert(false, "the centre of a bin lies in that bin");
  }
  sx_reach("edges");
}
SX_HARNESS(h_large) { // more axes and more bins
  static const std::vector<std::vector<int>> S = {{40}, {17, 23}, {7, 11, 5}, {2, 3, 2, 3, 2}, {1, 2, 1, 3, 1, 2}, {5, 1, 1, 4}, {9, 2, 3, 2}};
  std::vector<int> n = S[sx_choice("shape", S.size())]; AxisCollection a; for (size_t i = 0; i < n.size(); i++) a.AddAxis(BinAxis("a" + std::to_string(i), 0, n[i], n[i]));
  size_t tot = 1; for (int k : n) tot *= k; sx_assert(a.GetNBins() == tot && a.GetNDimensions() == n.size(), "bin count is the product");
  std::vector<bool> seen(tot, false);
  for (size_t b = 0; b < tot; b++) {
    std::vector<size_t> ix = a.UnpackIndices(b), e = h_unflat(b, n); sx_assert(ix == e, "unpacking counts the last axis fastest"); for (size_t d = 0; d < n.size(); d++) sx_assert(a.UnflattenIndex(b, d) == e[d], "unpack agrees with unflatten");
    sx_assert(a.FlattenIndices(ix) == b, "bin -> indices -> bin is the identity"); std::vector<double> c(n.size()); for (size_t d = 0; d < n.size(); d++) c[d] = e[d] + 0.25; sx_assert(a.FindBin(c) == b, "bin of a point is that of its per-axis bins");
  }
  std::vector<size_t> ix; for (size_t d = 0; d < n.size(); d++) ix.push_back(sx_u64(("i" + std::to_string(d)).c_str(), 0, n[d] - 1)); sx_assert(a.FlattenIndices(ix) == h_flat(ix, n), "flattening counts the last axis fastest");
}
SX_HARNESS(h_grow) { // axes added after the collection was used
  AxisCollection a; std::vector<int> n; double p = sx_double("p", -20, 20); std::vector<double> pt;
  sx_assert(a.GetNBins() == 0 && a.GetNDimensions() == 0, "no axes, no bins");
  for (int k = 0; k < 4; k++) {
    int nb = 1 + sx_choice(("n" + std::to_string(k)).c_str(), 3); BinAxis ax = h_axis(h_names[k], nb, k % 3); if (k == 3 || !sx_choice("several", 2)) a.AddAxis(ax); else { a.AddAxes(std::vector<BinAxis>{ax, h_axis(h_names[k + 1], 2, 0)}); n.push_back(nb); pt.push_back(p); k++; nb = 2; }
    n.push_back(nb); pt.push_back(p);
    size_t tot = 1; for (int q : n) tot *= q; sx_assert(a.GetNBins() == tot && a.GetNDimensions() == n.size(), "bin count is the product");
    std::vector<size_t> ix; for (size_t d = 0; d < n.size(); d++) { ix.push_back(a.GetAxis(d).FindBin(p)); sx_assert(a.GetAxisIndex(h_names[d]) == d && a.GetAxisNames().at(d) == h_names[d], "axis names and indices agree"); }
    SX_THROWS(NotFoundError, a.GetAxisIndex("nope"), "an unknown axis is refused"); sx_assert(a.FindBin(pt) == h_flat(ix, n) && a.UnpackIndices(a.FindBin(pt)) == ix, "bin of a point is that of its per-axis bins");
    AxisCollection c(a), d; d.AddAxis(h_axis("other", 2, 0)); d = c; sx_assert(d == a && d.GetNBins() == tot && d.FindBin(pt) == a.FindBin(pt) && d.GetAxisNames() == a.GetAxisNames(), "copies agree"); Histogram h(a); sx_assert(h.GetNBins() == tot && h.GetNDims() == n.size() && h.FindBin(pt) == a.FindBin(pt), "histogram agrees with its axes");
    SX_THROWS(ValueError, a.AddAxis(h_axis(h_names[0], 2, 0)), "a name in use is refused"); sx_assert(a.GetNBins() == tot && a.GetNDimensions() == n.size() && a.FindBin(pt) == h_flat(ix, n), "a refused axis changes nothing");
  }
}
SX_HARNESS(h_alike) { // names that begin, end or are spelt almost like one another
  static const std::vector<std::string> N{"e_10", "e", "E", "e_1", "ee", "", " e", "e_"}; AxisCollection a; size_t k = sx_choice("first", 8); std::vector<std::string> o; for (int i = 0; i < 8; i++) o.push_back(N[(k + i * 3) % 8]); for (int i = 0; i < 8; i++) a.AddAxis(BinAxis(o[i], i, i + 1 + i % 2, 1 + i % 2, "l" + o[i]));
  Histogram h(a); sx_assert(a.GetAxisNames() == o && h.GetAxisNames() == o && a.GetNDimensions() == 8 && a.GetNBins() == 16, "axis names and indices agree"); for (size_t i = 0; i < 8; i++) sx_assert(a.GetAxisIndex(o[i]) == i && h.GetAxisIndex(o[i]) == i && &a.GetAxis(o[i]) == &a.GetAxis(i) && a.GetAxis(i).GetName() == o[i] && a.GetAxis(o[i]).GetLatexName() == "l" + o[i] && a.GetAxis(o[i]).GetMin() == i, "axis names and indices agree");
  for (const char *x : {"e_11", "e_1 ", "EE", "_e", "z"}) { SX_THROWS(NotFoundError, a.GetAxisIndex(x), "an unknown axis is refused"); SX_THROWS_ANY(a.GetAxis(x), "an unknown axis is refused"); } for (auto &x : o) SX_THROWS(ValueError, a.AddAxis(BinAxis(x, 0, 1, 1)), "a name in use is refused");
}
SX_HARNESS(h_huge) { // more bins than fit two, or four, bytes
  static const std::vector<std::vector<int>> S = {{2, 300, 300}, {70000}, {3, 70000}, {2000, 2000, 2000}, {2, 2, 40000, 40000}, {200, 300, 1, 400, 300}, {65536, 65536, 4}}; std::vector<int> n = S[sx_choice("shape", S.size())]; AxisCollection a; size_t tot = 1; for (size_t i = 0; i < n.size(); i++) { a.AddAxis(BinAxis("a" + std::to_string(i), 0, n[i], n[i])); tot *= n[i]; } sx_assert(a.GetNBins() == tot && a.GetNDimensions() == n.size(), "bin count is the product");
  std::vector<size_t> ix; for (size_t d = 0; d < n.size(); d++) ix.push_back(sx_u64(("i" + std::to_string(d)).c_str(), 0, n[d] - 1)); size_t b = a.FlattenIndices(ix); sx_assert(b == h_flat(ix, n), "flattening counts the last axis fastest"); sx_assert(b < tot, "flattened index in range");
  for (size_t g : {tot - 1, tot / 2, tot / 2 + 1, tot / 3, (size_t)65536, (size_t)65535, tot - n.back()}) if (g < tot) { std::vector<size_t> up = a.UnpackIndices(g), e = h_unflat(g, n); sx_assert(up == e && a.FlattenIndices(e) == g, "bin -> indices -> bin is the identity"); std::vector<double> c; for (size_t d = 0; d < n.size(); d++) { sx_assert(a.UnflattenIndex(g, d) == e[d], "unpack agrees with unflatten"); c.push_back(e[d] + 0.25); sx_assert(a.GetBinLowEdge(g, d) == e[d], "low edge of the per-axis bin"); } if (n.size() > 1) sx_assert(a.FindBin(c) == g, "bin of a point is that of its per-axis bins"); }
}
SX_HARNESS(h_equal) { // collections are equal exactly when their axes are
  std::vector<double> lo{0, 1, 2}, hi{1, 2, 4}, lo2{0, 1, 3}, hi2{1, 3, 4}; const BinAxis A[] = {BinAxis("z", lo, hi), BinAxis("z", lo2, hi2), BinAxis("z", 0, 4, 3), BinAxis("z", 0, 4, 2), BinAxis("y", 0, 4, 3), BinAxis("z", -1, 3, 3)}; int i = sx_choice("i", 6), j = sx_choice("j", 6); if (i + j == 6 && i != j && i != 1 && i != 5) return; /* names only */ int w = sx_choice("where", 3); AxisCollection a, b; for (int k = 0; k < 3; k++) { if (k == w) { a.AddAxis(A[i]); b.AddAxis(A[j]); } else { BinAxis o("o" + std::to_string(k), 0, 2, 2); a.AddAxis(o); b.AddAxis(o); } } sx_assert((a == b) == (i == j) && (a != b) == (i != j) && (b == a) == (i == j), "collections are equal exactly when their axes are"); sx_assert((A[i] == A[j]) == (i == j) && (A[i] != A[j]) == (i != j), "axes are equal exactly when their edges are"); AxisCollection c = a; c.AddAxis(BinAxis("last", 0, 1, 1)); sx_assert(c != a && !(c == a) && a == AxisCollection(a), "collections of different size differ");
}
