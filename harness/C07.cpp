// C07: bulk projections and slices
// SRC: BinAxis.cpp AxisCollection.cpp Histogram.cpp HistTools.cpp ContainerTools.cpp Combinations.cpp BinnedED.cpp ObsSet.cpp Event.cpp
// BOUNDS: 1..4 axes (shapes {3},{2,3},{3,2},{2,3,2},{3,2,4},{2,2,2,3}); any subset of names or pairs of up to 3 axes; arbitrary contents and points; names spelt almost alike
#include "hx.h"
#include <algorithm>
#include <BinnedED.h>
#include <Exceptions.h>
#include <HistTools.h>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd; typedef std::pair<std::string, std::string> P;
static double sumOf(const Histogram &h, const std::vector<int> &n, const std::map<int, size_t> &fix) {
  double s = 0; for (size_t b = 0; b < h.GetNBins(); b++) { std::vector<size_t> ix = h_unflat(b, n); bool ok = true; for (auto &f : fix) if (ix[f.first] != f.second) ok = false; if (ok) s += h.GetBinContent(b); } return s;
}
SX_HARNESS(h_make_fill_names) {
  std::vector<int> n = {2, 3, 2}; AxisCollection ac = h_axes(n); Vs nm;
  for (int i = 0; i < 3; i++) if (sx_choice("use", 2)) nm.push_back(h_names[i]);
  std::map<std::string, Histogram> hs = sx_choice("set", 2) ? HistTools::MakeAllHists(ac, std::set<std::string>(nm.begin(), nm.end())) : HistTools::MakeAllHists(ac, nm);
  sx_assert(hs.size() == nm.size(), "one histogram per name");
  for (auto &s : nm) { sx_assert(hs.count(s) == 1 && hs[s].GetNDims() == 1 && hs[s].GetAxisNames().at(0) == s && hs[s].GetAxes().GetAxis(0) == ac.GetAxis(s), "with exactly that axis"); sx_assert(hs[s].Integral() == 0, "starts empty"); }
  std::map<std::string, double> p; for (int i = 0; i < 3; i++) p[h_names[i]] = sx_double(h_names[i], -6, 9); p["extra"] = 4;
  HistTools::FillAllHists(hs, p);
  for (auto &s : nm) { size_t b = ac.GetAxis(s).FindBin(p[s]); for (size_t k = 0; k < hs[s].GetNBins(); k++) sx_assert(hs[s].GetBinContent(k) == (k == b ? 1 : 0), "filled in the bin of its own coordinate"); }
}
SX_HARNESS(h_make_fill_pairs) {
  std::vector<int> n = {2, 3, 2}; AxisCollection ac = h_axes(n); std::set<P> ps;
  static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 0}, {2, 0}, {2, 1}};
  int m = sx_choice("mask", 8); for (int i = 0; i < 6; i++) if ((i < 3) == !(m & 4) && (m >> (i % 2) & 1 || i == 2 || i == 5)) ps.insert(P(h_names[pr[i][0]], h_names[pr[i][1]]));
  std::map<std::string, Histogram> hs = HistTools::MakeAllHists(ac, ps);
  sx_assert(hs.size() == ps.size(), "one histogram per pair");
  std::map<std::string, double> p; for (int i = 0; i < 3; i++) p[h_names[i]] = sx_double(h_names[i], -6, 9);
  HistTools::FillAllHists(hs, p); HistTools::FillAllHists(hs, p);
  for (auto &q : ps) {
    std::string key = q.first + "_" + q.second; sx_assert(hs.count(key) == 1, "named after its pair"); Histogram &h = hs[key];
    sx_assert(h.GetNDims() == 2 && h.GetAxisNames() == (Vs{q.first, q.second}) && h.GetAxes().GetAxis(0) == ac.GetAxis(q.first) && h.GetAxes().GetAxis(1) == ac.GetAxis(q.second), "with exactly those axes in order");
    size_t a = ac.GetAxis(q.first).FindBin(p[q.first]), b = ac.GetAxis(q.second).FindBin(p[q.second]), w = ac.GetAxis(q.second).GetNBins();
    for (size_t k = 0; k < h.GetNBins(); k++) sx_assert(h.GetBinContent(k) == (k == a * w + b ? 2 : 0), "filled in the bin of its own coordinates");
  }
}
SX_HARNESS(h_unknown) {
  AxisCollection ac = h_axes({2, 3});
  switch (sx_choice("k", 3)) {
  case 0: SX_THROWS(NotFoundError, HistTools::MakeAllHists(ac, Vs{"z", "nope"}), "an unknown axis is refused"); break;
  case 1: { std::set<P> ps; ps.insert(P("z", "nope")); SX_THROWS(NotFoundError, HistTools::MakeAllHists(ac, ps), "an unknown axis is refused"); break; }
  case 2: { std::map<std::string, Histogram> hs = HistTools::MakeAllHists(ac, Vs{"z", "y"}); std::map<std::string, double> p; p["z"] = 1; SX_THROWS_ANY(HistTools::FillAllHists(hs, p), "a point without a needed coordinate is refused"); break; }
  }
}
static std::vector<int> shape() { static const std::vector<std::vector<int>> S = {{3}, {2, 3}, {3, 2}, {2, 3, 2}, {3, 2, 4}, {2, 2, 2, 3}}; return S[sx_choice("shape", 6)]; }
template <class T> static const Histogram &hist(const T &t);
template <> const Histogram &hist(const Histogram &t) { return t; }
template <> const Histogram &hist(const BinnedED &t) { return t.GetHistogram(); }
template <class T> static void projections(const T &src, const std::vector<int> &n, const Histogram &h) {
  std::vector<T> v = HistTools::GetVisualisableProjections(src);
  size_t D = n.size();
  sx_assert(v.size() == D + (D > 2 ? D * (D - 1) / 2 : 0), "every axis once and above two axes every pair once");
  std::set<std::set<int>> seen;
  for (auto &t : v) {
    const Histogram &m = hist(t); std::vector<int> ax; for (auto &s : m.GetAxisNames()) for (size_t i = 0; i < D; i++) if (s == h_names[i]) ax.push_back(i);
    sx_assert(ax.size() == m.GetNDims(), "axes are those of the source"); sx_assert(seen.insert(std::set<int>(ax.begin(), ax.end())).second, "no axis or pair twice");
    for (size_t k = 0; k < ax.size(); k++) sx_assert(m.GetAxes().GetAxis(k) == h.GetAxes().GetAxis(ax[k]), "axis definition kept");
    for (size_t b = 0; b < m.GetNBins(); b++) { std::map<int, size_t> f; if (ax.size() == 1) f[ax[0]] = b; else { f[ax[0]] = b / n[ax[1]]; f[ax[1]] = b % n[ax[1]]; } sx_close(m.GetBinContent(b), sumOf(h, n, f), "each is the corresponding marginal"); }
  }
}
SX_HARNESS(h_projections) {
  std::vector<int> n = shape(); Histogram h = h_hist(n);
  if (sx_choice("ed", 2)) { BinnedED ed("ed", h); Vs o; for (size_t i = 0; i < n.size(); i++) o.push_back(h_names[i]); ed.SetObservables(o); projections(ed, n, h); } else projections(h, n, h);
}
SX_HARNESS(h_slices) {
  std::vector<int> n = shape(); Histogram h = h_hist(n); int a = sx_choice("axis", n.size());
  if (n.size() == 1) { return; }
  bool ed = sx_choice("ed", 2); std::vector<Histogram> v;
  if (ed) { BinnedED e("ed", h); for (auto &x : HistTools::Get1DSlices(e, h_names[a])) v.push_back(x.GetHistogram()); } else v = HistTools::Get1DSlices(h, h_names[a]);
  sx_assert(v.size() == h.GetNBins() / n[a], "one slice per combination of the other axes' bins");
  // which combination each slice is for is read off a marker histogram whose contents are the bin numbers
  Histogram mk(h.GetAxes()); for (size_t b = 0; b < mk.GetNBins(); b++) mk.SetBinContent(b, b);
  std::vector<Histogram> vm = HistTools::Get1DSlices(mk, h_names[a]); sx_assert(vm.size() == v.size(), "as many slices whatever the contents");
  std::set<std::vector<size_t>> seen; size_t found = 0;
  for (size_t k = 0; k < v.size(); k++) {
    size_t b0 = (size_t)vm[k].GetBinContent(0); sx_assert(b0 < h.GetNBins(), "slice holds source bins");
    std::vector<size_t> ix = h_unflat(b0, n); sx_assert(ix[a] == 0 && seen.insert(ix).second, "combination appears once");
    const Histogram &s = v[k]; sx_assert(s.GetNDims() == 1 && s.GetAxisNames().at(0) == h_names[a] && s.GetAxes().GetAxis(0) == h.GetAxes().GetAxis(a), "slice has the asked axis");
    for (int i = 0; i < n[a]; i++) { ix[a] = i; sx_close(s.GetBinContent(i), h.GetBinContent(h_flat(ix, n)), "slice content is that of its combination"); }
    found++;
  }
  sx_assert(found == v.size(), "all combinations covered");
}
SX_HARNESS(h_alike) { // six axes whose names begin or are spelt alike: every pair and every slice still its own
  static const Vs N{"e_1", "e", "E", "e_10", "ee", "1"}; std::vector<int> n{2, 1, 2, 1, 3, 2}; AxisCollection ac; for (int i = 0; i < 6; i++) ac.AddAxis(h_axis(N[i], n[i], i % 3)); Histogram h(ac); h.SetBinContents(h_contents(24)); std::vector<Histogram> v = HistTools::GetVisualisableProjections(h); sx_assert(v.size() == 21, "every axis once and above two axes every pair once"); std::set<std::set<std::string>> seen;
  for (auto &m : v) { Vs nm = m.GetAxisNames(); sx_assert(seen.insert(std::set<std::string>(nm.begin(), nm.end())).second, "no axis or pair twice"); std::vector<int> ax; for (auto &s : nm) for (int i = 0; i < 6; i++) if (s == N[i]) ax.push_back(i); sx_assert(ax.size() == m.GetNDims(), "axes are those of the source"); for (size_t b = 0; b < m.GetNBins(); b++) { std::map<int, size_t> f; if (ax.size() == 1) f[ax[0]] = b; else { f[ax[0]] = b / n[ax[1]]; f[ax[1]] = b % n[ax[1]]; } sx_close(m.GetBinContent(b), sumOf(h, n, f), "each is the corresponding marginal"); } }
  std::set<P> ps; for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) ps.insert(P(N[j], N[i])); ps.erase(P("e", "1")); std::map<std::string, Histogram> hs = HistTools::MakeAllHists(ac, ps); sx_assert(hs.size() == ps.size(), "one histogram per pair"); std::map<std::string, double> p; for (int i = 0; i < 6; i++) p[N[i]] = sx_grid(("p" + N[i]).c_str(), -1, 1, -2); HistTools::FillAllHists(hs, p); for (auto &q : ps) { Histogram &g = hs.at(q.first + "_" + q.second); size_t b = ac.GetAxis(q.first).FindBin(p[q.first]) * ac.GetAxis(q.second).GetNBins() + ac.GetAxis(q.second).FindBin(p[q.second]); sx_assert(g.GetAxisNames() == (Vs{q.first, q.second}) && g.GetBinContent(b) == 1 && g.Integral() == 1, "filled in the bin of its own coordinates"); }
}
SX_HARNESS(h_long) { // slices and projections along and across axes of twenty-odd bins
  std::vector<int> n{20, 3, 24}; int sh = sx_choice("shape", 3); std::rotate(n.begin(), n.begin() + sh, n.end()); AxisCollection ac; for (int i = 0; i < 3; i++) ac.AddAxis(h_axis(h_names[i], n[i], i % 2)); Histogram h(ac); size_t N = h.GetNBins(), at = N * sx_choice("at", 4) / 4 + 11; for (size_t b = 0; b < N; b++) h.SetBinContent(b, b + 1); h.SetBinContent(at, sx_double("c", 1, 100)); int a = sx_choice("axis", 3); std::vector<Histogram> v = HistTools::Get1DSlices(h, h_names[a]); sx_assert(v.size() == N / n[a], "one slice per combination of the other axes' bins"); Histogram mk(h.GetAxes()); for (size_t b = 0; b < N; b++) mk.SetBinContent(b, b); std::vector<Histogram> vm = HistTools::Get1DSlices(mk, h_names[a]); std::set<size_t> seen; for (size_t k = 0; k < v.size(); k++) { size_t b0 = (size_t)vm.at(k).GetBinContent(0); std::vector<size_t> ix = h_unflat(b0, n); sx_assert(ix[a] == 0 && seen.insert(b0).second, "combination appears once"); for (int i = 0; i < n[a]; i++) { ix[a] = i; sx_close(v[k].GetBinContent(i), h.GetBinContent(h_flat(ix, n)), "slice content is that of its combination"); } }
  for (auto &m : HistTools::GetVisualisableProjections(h)) { double t = 0, u = 0; for (size_t b = 0; b < m.GetNBins(); b++) t += m.GetBinContent(b); u = h.Integral(); sx_close(t, u, "each is the corresponding marginal"); if (m.GetNDims() != 1) continue; int d = 0; while (m.GetAxisNames()[0] != h_names[d]) d++; sx_assert(m.GetNBins() == (size_t)n[d], "axes are those of the source"); Vd s(n[d], 0); for (size_t b = 0; b < N; b++) s[h_unflat(b, n)[d]] += h.GetBinContent(b); for (int i = 0; i < n[d]; i++) sx_close(m.GetBinContent(i), s[i], "each is the corresponding marginal"); } }
