// C05: out-of-range requests are refused without touching memory
// SRC: BinAxis.cpp AxisCollection.cpp Histogram.cpp ContainerTools.cpp Combinations.cpp Event.cpp ObsSet.cpp BinnedED.cpp
// BOUNDS: shapes {3},{2,3},{3,2},{2,3,2},{1},{1,3}; every 64-bit bin number past the end and every 64-bit axis number past the last; vectors of length 0..5; events with 0..3 observables
// OUTSIDE: individual per-axis index values larger than their axis inside an index vector of the right length (a documented precondition of FlattenIndices); histograms with no axes
#include "hx.h"
#include <BinnedED.h>
#include <Event.h>
#include <Exceptions.h>
#include <ObsSet.h>
#include <cstdint>
typedef std::vector<double> Vd;
static size_t lenBut(const char *nm, size_t right) { size_t l = sx_choice(nm, 6); sx_assume(l != right); return l; }

SX_HARNESS(h_bin_number) {
  std::vector<int> n = h_shape();
  Histogram h = h_hist(n); const Vd c = h.GetBinContents();
  BinnedED ed("ed", h);
  size_t N = h.GetNBins(), D = n.size();
  size_t b = sx_u64("bin", N, ~0ull);
  Vd out(D, -7);
  double w = sx_double("w", -10, 10);
  switch (sx_choice("what", 19)) {
  case 0: SX_THROWS(NotFoundError, h.GetBinContent(b), "reading a bin past the end is refused"); break;
  case 1: SX_THROWS(NotFoundError, h.SetBinContent(b, w), "setting a bin past the end is refused"); break;
  case 2: SX_THROWS(NotFoundError, h.AddBinContent(b, w), "adding to a bin past the end is refused"); break;
  case 3: SX_THROWS_ANY(h.GetBinLowEdge(b, sx_choice("dim", D)), "low edge of a bin past the end is refused"); break;
  case 4: SX_THROWS_ANY(h.GetBinHighEdge(b, sx_choice("dim", D)), "high edge of a bin past the end is refused"); break;
  case 5: SX_THROWS_ANY(h.GetBinCentre(b, sx_choice("dim", D)), "centre of a bin past the end is refused"); break;
  case 6: SX_THROWS_ANY(h.GetAxes().GetBinWidth(b, sx_choice("dim", D)), "width of a bin past the end is refused"); break;
  case 7: SX_THROWS_ANY(h.GetBinLowEdges(b, out), "low edges of a bin past the end are refused"); break;
  case 8: SX_THROWS_ANY(h.GetBinHighEdges(b, out), "high edges of a bin past the end are refused"); break;
  case 9: SX_THROWS_ANY(h.GetBinCentres(b, out), "centres of a bin past the end are refused"); break;
  case 10: SX_THROWS_ANY(h.GetAxes().UnflattenIndex(b, sx_choice("dim", D)), "unflattening a bin past the end is refused"); break;
  case 11: SX_THROWS_ANY(h.UnpackIndices(b), "unpacking a bin past the end is refused"); break;
  case 12: SX_THROWS_ANY(h.GetAxes().UnpackIndices(b), "unpacking a bin past the end is refused"); break;
  case 13: SX_THROWS_ANY(ed.GetBinContent(b), "reading a bin past the end is refused"); break;
  case 14: SX_THROWS_ANY(ed.SetBinContent(b, w), "setting a bin past the end is refused"); break;
  case 15: SX_THROWS_ANY(ed.AddBinContent(b, w), "adding to a bin past the end is refused"); break;
  case 16: SX_THROWS_ANY(h.GetAxes().GetBinLowEdges(b, out), "low edges of a bin past the end are refused"); break;
  case 17: SX_THROWS_ANY(h.GetAxes().GetBinHighEdges(b, out), "high edges of a bin past the end are refused"); break;
  case 18: SX_THROWS_ANY(h.GetAxes().GetBinCentres(b, out), "centres of a bin past the end are refused"); break;
  }
  for (size_t i = 0; i < N; i++) sx_assert(h.GetBinContent(i) == c[i] && ed.GetBinContent(i) == c[i], "a refused request changes nothing");
  for (double x : out) sx_assert(x == -7, "a refused request changes no output");
  sx_reach("bin");
}
SX_HARNESS(h_axis_bin) {
  static const int N[] = {1, 3};
  int n = N[sx_choice("n", 2)]; BinAxis a = h_axis("z", n, sx_choice("kind", 3));
  size_t b = sx_u64("bin", n, ~0ull);
  switch (sx_choice("what", 4)) {
  case 0: SX_THROWS_ANY(a.GetBinLowEdge(b), "axis low edge past the end is refused"); break;
  case 1: SX_THROWS_ANY(a.GetBinHighEdge(b), "axis high edge past the end is refused"); break;
  case 2: SX_THROWS_ANY(a.GetBinCentre(b), "axis centre past the end is refused"); break;
  case 3: SX_THROWS_ANY(a.GetBinWidth(b), "axis width past the end is refused"); break;
  }
}
SX_HARNESS(h_axis_number) {
  std::vector<int> n = h_shape();
  Histogram h = h_hist(n); size_t D = n.size();
  size_t d = sx_u64("axis", D, ~0ull); size_t b = sx_choice("bin", h.GetNBins());
  switch (sx_choice("what", 9)) {
  case 0: SX_THROWS(NotFoundError, h.GetAxes().GetAxis(d), "an axis number past the last is refused"); break;
  case 1: SX_THROWS(NotFoundError, h.GetAxes().GetAxis("nope"), "an unknown axis name is refused"); break;
  case 2: SX_THROWS(NotFoundError, h.GetAxisIndex("nope"), "an unknown axis name is refused"); break;
  case 3: SX_THROWS(NotFoundError, h.GetBinLowEdge(b, d), "an axis number past the last is refused"); break;
  case 4: SX_THROWS(NotFoundError, h.GetBinHighEdge(b, d), "an axis number past the last is refused"); break;
  case 5: SX_THROWS(NotFoundError, h.GetBinCentre(b, d), "an axis number past the last is refused"); break;
  case 6: SX_THROWS(NotFoundError, h.GetAxes().GetBinWidth(b, d), "an axis number past the last is refused"); break;
  case 7: SX_THROWS_ANY(h.GetAxes().UnflattenIndex(b, d), "unflattening along a missing axis is refused"); break;
  case 8: SX_THROWS(NotFoundError, h.GetAxes().GetAxisIndex(""), "an empty axis name is refused"); break;
  }
}
SX_HARNESS(h_lengths) {
  std::vector<int> n = h_shape();
  Histogram h = h_hist(n); const Vd c = h.GetBinContents(); size_t D = n.size();
  BinnedED ed("ed", h);
  int what = sx_choice("what", 11);
  size_t l = what == 4 ? sx_u64("len", 0, 30) : lenBut("len", D);
  if (what == 4) sx_assume(l != h.GetNBins());
  Vd p; for (size_t i = 0; i < l; i++) p.push_back(i < 5 ? sx_double(("p" + std::to_string(i)).c_str(), -20, 20) : 0.5);
  std::vector<size_t> ix(l, 0);
  switch (what) {
  case 0: SX_THROWS(DimensionError, h.Fill(p), "a point of the wrong length is refused"); break;
  case 1: SX_THROWS(DimensionError, h.Fill(p, 2.5), "a point of the wrong length is refused"); break;
  case 2: SX_THROWS(DimensionError, h.FindBin(p), "a point of the wrong length is refused"); break;
  case 3: SX_THROWS(DimensionError, h.FlattenIndices(ix), "an index list of the wrong length is refused"); break;
  case 4: SX_THROWS(DimensionError, h.SetBinContents(p), "contents of the wrong length are refused"); break;
  case 5: SX_THROWS(DimensionError, h.GetBinLowEdges(0, p), "an output of the wrong length is refused"); break;
  case 6: SX_THROWS(DimensionError, h.GetBinHighEdges(0, p), "an output of the wrong length is refused"); break;
  case 7: SX_THROWS(DimensionError, h.GetBinCentres(0, p), "an output of the wrong length is refused"); break;
  case 8: { std::vector<Vd> locs; SX_THROWS_ANY(h.GetLatticePointValues(p, locs), "a lattice point of the wrong length is refused"); break; }
  case 9: if (D == 1) break; SX_THROWS_ANY((sx_choice("fill", 2) ? h.Fill(1.0) : (void)h.FindBin(1.0)), "a scalar for a many-axis histogram is refused"); break;
  case 10: SX_THROWS_ANY((sx_choice("prob", 2) ? (void)ed.Probability(p) : ed.Fill(p)), "a point of the wrong length is refused"); break;
  }
  for (size_t i = 0; i < c.size(); i++) sx_assert(h.GetBinContent(i) == c[i] && ed.GetBinContent(i) == c[i], "a refused request changes nothing");
  sx_assert(h.GetNBins() == c.size(), "a refused request keeps the size");
}
SX_HARNESS(h_named_fill) {
  std::vector<int> n = h_shape();
  Histogram h = h_hist(n); const Vd c = h.GetBinContents();
  std::map<std::string, double> m; int miss = sx_choice("missing", n.size());
  for (size_t d = 0; d < n.size(); d++) if ((int)d != miss) m[h_names[d]] = sx_double(("p" + std::to_string(d)).c_str(), -10, 10);
  m["other"] = 1;
  SX_THROWS_ANY(h.Fill(m, 3.0), "an incomplete named point is refused");
  for (size_t i = 0; i < c.size(); i++) sx_assert(h.GetBinContent(i) == c[i], "a refused fill changes nothing");
}
SX_HARNESS(h_slice_bin) {
  std::vector<int> n = {2, 3, 2};
  Histogram h = h_hist(n);
  int d = sx_choice("axis", 3); size_t b = sx_u64("bin", n[d], 100);
  std::map<std::string, size_t> fix; fix[h_names[d]] = b;
  if (sx_choice("two", 2)) fix[h_names[(d + 1) % 3]] = 0;
  SX_THROWS_ANY(h.GetSlice(fix), "a slice at a bin past the end of its axis is refused");
}
SX_HARNESS(h_event) {
  int n = sx_choice("nobs", 4); Vd v; std::vector<std::string> nm;
  for (int i = 0; i < n; i++) { v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -10, 10)); nm.push_back(h_names[i]); }
  Event e(v); bool named = sx_choice("named", 2); if (named) e.SetObservableNames(&nm);
  size_t i = sx_u64("i", n, ~0ull); double w = sx_double("w", -10, 10);
  switch (sx_choice("what", 7)) {
  case 0: SX_THROWS(NotFoundError, e.GetDatum(i), "an observable number past the end is refused"); break;
  case 1: SX_THROWS(NotFoundError, e.SetDatum(i, w), "setting an observable past the end is refused"); break;
  case 2: SX_THROWS_ANY(e.GetDatum("nope"), "an unknown observable is refused"); break;
  case 3: SX_THROWS_ANY(e.SetDatum("nope", w), "setting an unknown observable is refused"); break;
  case 4: SX_THROWS_ANY(e.ToObsSet(ObsSet("nope")), "an unknown observable is refused"); break;
  case 5: if (!named) SX_THROWS_ANY(e.GetObservableNames(), "names that were never set are refused"); break;
  case 6: if (!named) SX_THROWS_ANY(e.GetDataMap(), "names that were never set are refused"); break;
  }
  sx_assert(e.GetNObservables() == v.size(), "a refused request keeps the event");
  for (int k = 0; k < n; k++) sx_assert(e.GetDatum((size_t)k) == v[k], "a refused request changes nothing");
}
