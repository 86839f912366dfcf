// C04: marginalise and slice
// SRC: BinAxis.cpp AxisCollection.cpp Histogram.cpp ContainerTools.cpp Combinations.cpp BinnedED.cpp ObsSet.cpp Event.cpp
// BOUNDS: shapes {3},{2,3},{3,2},{2,3,2} and (thorough) {3,2,4},{2,2,2,3}; every subset and order of axes; every slice; arbitrary real contents in [-100,100]; names spelt almost alike
#include "hx.h"
#include <BinnedED.h>
#include <Exceptions.h>
#include <algorithm>
typedef std::vector<std::string> Vs;

static std::vector<int> shape() {
  static const std::vector<std::vector<int>> S = {{3}, {2, 3}, {3, 2}, {2, 3, 2}, {3, 2, 4}, {2, 2, 2, 3}};
  return S[sx_choice("shape", h_thorough() ? 6 : 5)];
}
static void checkMarginal(const Histogram &h, const std::vector<int> &n, const std::vector<int> &keep, const Histogram &m) {
  sx_assert(m.GetNDims() == keep.size(), "requested number of axes");
  std::vector<int> mn; Vs names = m.GetAxisNames();
  for (size_t k = 0; k < keep.size(); k++) {
    sx_assert(names.at(k) == h_names[keep[k]], "axes in the requested order");
    sx_assert(m.GetAxes().GetAxis(k) == h.GetAxes().GetAxis(keep[k]), "axis definition kept");
    mn.push_back(n[keep[k]]);
  }
  std::vector<double> e(m.GetNBins(), 0);
  for (size_t b = 0; b < h.GetNBins(); b++) { std::vector<size_t> ix = h_unflat(b, n), mi; for (int k : keep) mi.push_back(ix[k]); e.at(h_flat(mi, mn)) += h.GetBinContent(b); }
  for (size_t b = 0; b < e.size(); b++) sx_close(m.GetBinContent(b), e[b], "marginal bin is the sum over the other axes");
  sx_close(m.Integral(), h.Integral(), "marginalising keeps the integral");
}
static std::vector<int> pickKeep(int nd) {
  std::vector<int> left, keep; for (int i = 0; i < nd; i++) left.push_back(i);
  int m = 1 + sx_choice("nkeep", nd);
  for (int k = 0; k < m; k++) { int c = sx_choice("keep", left.size()); keep.push_back(left[c]); left.erase(left.begin() + c); }
  return keep;
}
SX_HARNESS(h_marginalise) {
  std::vector<int> n = shape(), keep = pickKeep(n.size());
  Histogram h = h_hist(n); Vs nm; for (int k : keep) nm.push_back(h_names[k]);
  std::vector<double> c = h.GetBinContents();
  checkMarginal(h, n, keep, h.Marginalise(nm));
  if (keep.size() == 1) checkMarginal(h, n, keep, h.Marginalise(nm[0]));
  for (size_t i = 0; i < c.size(); i++) sx_assert(h.GetBinContent(i) == c[i], "the source is unchanged");
  sx_reach("marginal");
}
static void checkSlice(const Histogram &h, const std::vector<int> &n, const std::map<std::string, size_t> &fix, const Histogram &s) {
  std::vector<int> sn, freeAx;
  for (size_t d = 0; d < n.size(); d++) if (!fix.count(h_names[d])) { freeAx.push_back(d); sn.push_back(n[d]); }
  sx_assert(s.GetNDims() == sn.size(), "slice has the free axes");
  for (size_t k = 0; k < freeAx.size(); k++) sx_assert(s.GetAxisNames().at(k) == h_names[freeAx[k]] && s.GetAxes().GetAxis(k) == h.GetAxes().GetAxis(freeAx[k]), "free axes in order");
  for (size_t b = 0; b < s.GetNBins(); b++) {
    std::vector<size_t> si = h_unflat(b, sn), ix(n.size());
    for (size_t k = 0; k < freeAx.size(); k++) ix[freeAx[k]] = si[k];
    for (size_t d = 0; d < n.size(); d++) if (fix.count(h_names[d])) ix[d] = fix.at(h_names[d]);
    sx_close(s.GetBinContent(b), h.GetBinContent(h_flat(ix, n)), "slice bin equals the original bin");
  }
}
static std::map<std::string, size_t> pickFix(const std::vector<int> &n) {
  std::map<std::string, size_t> fix;
  for (size_t d = 0; d < n.size(); d++) { int c = sx_choice("fix", n[d] + 1); if (c) fix[h_names[d]] = c - 1; }
  return fix;
}
SX_HARNESS(h_slice) {
  std::vector<int> n = shape();
  std::map<std::string, size_t> fix = pickFix(n);
  Histogram h = h_hist(n);
  if (fix.size() == n.size()) { SX_THROWS_ANY(h.GetSlice(fix), "slices fixing every axis are refused"); sx_reach("all fixed"); return; }
  checkSlice(h, n, fix, h.GetSlice(fix));
  sx_reach("slice");
}
SX_HARNESS(h_refused) {
  std::vector<int> n = {2, 3, 2};
  Histogram h = h_hist(n);
  switch (sx_choice("case", 4)) {
  case 0: SX_THROWS(NotFoundError, h.Marginalise("nope"), "unknown axis is refused"); break;
  case 1: SX_THROWS(NotFoundError, h.Marginalise(Vs{"z", "q"}), "unknown axis is refused"); break;
  case 2: { std::map<std::string, size_t> f; f["q"] = 0; SX_THROWS(NotFoundError, h.GetSlice(f), "slice at unknown axis is refused"); break; }
  case 3: { std::map<std::string, size_t> f; f["z"] = 0; f["nope"] = 1; SX_THROWS(NotFoundError, h.GetSlice(f), "slice at unknown axis is refused"); break; }
  }
}
SX_HARNESS(h_binned_ed) { // the distribution forms keep observables and names in step
  static const std::vector<std::vector<int>> S = {{2, 3}, {2, 3, 2}};
  std::vector<int> n = S[sx_choice("shape", 2)];
  Histogram h = h_hist(n);
  bool same = sx_choice("same", 2); BinnedED ed("ed", h); Vs obs; for (size_t i = 0; i < n.size(); i++) obs.push_back(std::string(same ? "" : "obs_") + h_names[i]);
  ed.SetObservables(obs);
  if (sx_choice("what", 2)) {
    std::vector<int> keep = pickKeep(n.size()); Vs nm; for (int k : keep) nm.push_back(obs[k]);
    (void)nm;
    Vs ax; for (int k : keep) ax.push_back(h_names[k]);
    BinnedED m = ed.Marginalise(ax);
    checkMarginal(h, n, keep, m.GetHistogram()); sx_assert(!same || m.GetObservables() == m.GetAxes().GetAxisNames(), "a projection's observables are its axes");
    sx_reach("ed marginal");
  } else {
    std::map<std::string, size_t> fix = pickFix(n);
    sx_assume(fix.size() < n.size());
    BinnedED s = ed.GetSlice(fix);
    checkSlice(h, n, fix, s.GetHistogram()); sx_assert(!same || s.GetObservables() == s.GetAxes().GetAxisNames(), "a slice's observables are its axes");
    sx_reach("ed slice");
  }
}
SX_HARNESS(h_alike) { // five axes whose names begin or are spelt alike
  static const Vs N{"e_1", "e", "E", "e_10", "ee"}; static const int nb[] = {2, 3, 2, 1, 2}; AxisCollection a; for (int i = 0; i < 5; i++) a.AddAxis(h_axis(N[i], nb[i], i % 3)); Histogram h(a); std::vector<double> c = h_contents(24); h.SetBinContents(c); std::vector<int> n(nb, nb + 5);
  int i = sx_choice("i", 5), j = sx_choice("j", 5); Histogram m = i == j ? h.Marginalise(N[i]) : h.Marginalise(Vs{N[i], N[j]}); std::map<std::string, size_t> fix; for (int k = 0; k < 5; k++) if (k != i && k != j) fix[N[k]] = nb[k] - 1; Histogram s = h.GetSlice(fix); int lo = i < j ? i : j, hi = i < j ? j : i; sx_assert(m.GetAxisNames() == (i == j ? Vs{N[i]} : Vs{N[i], N[j]}) && s.GetAxisNames() == (i == j ? Vs{N[i]} : Vs{N[lo], N[hi]}), "axes in the requested order");
  std::vector<double> wm(m.GetNBins(), 0), ws(s.GetNBins(), 0); for (size_t b = 0; b < 24; b++) { std::vector<size_t> ix = h_unflat(b, n); bool in = true; for (int k = 0; k < 5; k++) if (k != i && k != j && ix[k] != size_t(nb[k] - 1)) in = false; size_t p = i == j ? ix[i] : ix[i] * nb[j] + ix[j], q = i == j ? ix[i] : ix[lo] * nb[hi] + ix[hi]; wm.at(p) += c[b]; if (in) ws.at(q) += c[b]; } for (size_t b = 0; b < wm.size(); b++) { sx_close(m.GetBinContent(b), wm[b], "marginal bin is the sum over the other axes"); sx_close(s.GetBinContent(b), ws[b], "slice bin equals the original bin"); }
  SX_THROWS(NotFoundError, h.Marginalise(Vs{"e", "e_"}), "unknown axis is refused"); fix.clear(); fix["e_"] = 0; SX_THROWS(NotFoundError, h.GetSlice(fix), "slice at unknown axis is refused");
}
