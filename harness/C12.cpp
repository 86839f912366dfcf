// C12: shrinking by buffer bins
// SRC: BinnedEDShrinker.cpp BinnedED.cpp EventDistribution.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp
// BOUNDS: 1D with up to 5 bins, 2D up to 4x3, 3D 2x3x2 (thorough); any contents in 1D, any positive contents in 2D and 3D; every buffer size that fits (any 32-bit size for refusals); overflow on and off; bin map set again after changes; histories of up to four uses of one shrinker (buffers set, changed, overflow switched, distributions shrunk); single runs of many items; names spelt almost alike
#include "hx.h"
#include <BinnedED.h>
#include <BinnedEDShrinker.h>
#include <Exceptions.h>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
typedef std::pair<unsigned, unsigned> Buf;
static BinnedED mk(const std::vector<int> &n) { BinnedED d("d", h_hist(n, n.size() == 1 ? -100 : 0.01, 100)); d.SetObservables(Vs(h_names, h_names + n.size())); return d; }
static void check(const BinnedED &d, const BinnedED &s, const std::vector<int> &n, const std::vector<Buf> &b, bool over) {
  std::vector<int> m(n); size_t tot = 1; for (size_t i = 0; i < n.size(); i++) { m[i] = n[i] - b[i].first - b[i].second; tot *= m[i]; }
  sx_assert(s.GetNDims() == n.size() && s.GetNBins() == tot, "each axis loses exactly its buffer bins");
  sx_assert(s.GetObservables() == d.GetObservables(), "observables kept");
  for (size_t i = 0; i < n.size(); i++) {
    const BinAxis &o = d.GetAxes().GetAxis(i), &a = s.GetAxes().GetAxis(i);
    sx_assert(a.GetName() == o.GetName() && a.GetLatexName() == o.GetLatexName() && a.GetNBins() == (size_t)m[i], "each axis loses exactly its buffer bins");
    for (int k = 0; k < m[i]; k++) sx_assert(a.GetBinLowEdge(k) == o.GetBinLowEdge(k + b[i].first) && a.GetBinHighEdge(k) == o.GetBinHighEdge(k + b[i].first), "kept bins keep their edges");
  }
  Vd c = d.GetBinContents(), w(tot, 0); double all = 0;
  for (size_t i = 0; i < c.size(); i++) {
    std::vector<size_t> ix = h_unflat(i, n); bool in = true;
    for (size_t k = 0; k < n.size(); k++) { long x = (long)ix[k] - b[k].first; if (x < 0) { in = false; x = 0; } if (x >= m[k]) { in = false; x = m[k] - 1; } ix[k] = x; }
    if (in || over) w[h_flat(ix, m)] += c[i]; all += c[i];
  }
  for (size_t i = 0; i < tot; i++) sx_close(s.GetBinContent(i), w[i], over ? "removed content moves to the nearest kept bin" : "kept bins are untouched and removed content disappears");
  if (over) sx_close(s.Integral(), all, "with overflow the integral is unchanged");
  Vd after = d.GetBinContents(); for (size_t i = 0; i < c.size(); i++) sx_assert(after[i] == c[i], "the original is unchanged");
}
static Buf pick(const std::string &nm, int n) { int lo = sx_choice((nm + "lo").c_str(), n), hi = sx_choice((nm + "hi").c_str(), n - lo); return Buf(lo, hi); }
static void run(const std::vector<int> &n) {
  BinnedED d = mk(n); BinnedEDShrinker s; bool over = sx_choice("overflow", 2); s.SetUsingOverflows(over); sx_assert(s.GetUsingOverflows() == over, "overflow flag as set");
  int mask = n.size() == 1 ? 1 : 1 + sx_choice("axes", (1 << n.size()) - 1); std::vector<Buf> b(n.size(), Buf(0, 0));
  for (size_t i = 0; i < n.size(); i++) if (mask >> i & 1) { b[i] = pick(h_names[i], n[i]); s.SetBuffer(h_names[i], b[i].first, b[i].second); sx_assert(s.GetBuffer(h_names[i]) == b[i], "buffer as set"); }
  s.SetBuffer("elsewhere", 2, 1); // an observable the distribution does not have
  s.SetBinMap(d); BinnedED r = s.ShrinkDist(d); check(d, r, n, b, over);
  BinnedEDShrinker s2(s); check(d, s2.ShrinkDist(d), n, b, over);
}
SX_HARNESS(h_1d) { run(std::vector<int>(1, 1 + sx_choice("n", 5))); }
SX_HARNESS(h_2d) { static const std::vector<int> S[] = {{4, 3}, {2, 3}, {3, 1}}; run(S[sx_choice("shape", h_thorough() ? 3 : 2)]); }
SX_HARNESS(h_3d) { if (h_thorough()) run({2, 3, 2}); else { BinnedED d = mk({2, 3, 2}); BinnedEDShrinker s; bool o = sx_choice("overflow", 2); s.SetUsingOverflows(o); s.SetBuffer("y", 1, 1); s.SetBuffer("x", 0, 1); s.SetBinMap(d); check(d, s.ShrinkDist(d), {2, 3, 2}, {Buf(0, 0), Buf(1, 1), Buf(0, 1)}, o); } }
SX_HARNESS(h_again) { // another bin map replaces the first
  BinnedEDShrinker s; int first = sx_choice("first", 3); s.SetBuffer("z", first, 1); BinnedED a = mk({4}); s.SetBinMap(a);
  std::vector<int> n = sx_choice("dims", 2) ? std::vector<int>{3, 2} : std::vector<int>{5}; BinnedED d("d", h_axes(n)); d.SetObservables(Vs(h_names, h_names + n.size()));
  Vd c; for (size_t i = 0; i < d.GetNBins(); i++) c.push_back(sx_double(("k" + std::to_string(i)).c_str(), 0.01, 100)); d.SetBinContents(c);
  bool over = sx_choice("overflow", 2); s.SetUsingOverflows(over); s.SetBuffer("z", 1, sx_choice("hi", 2)); std::vector<Buf> b(n.size(), Buf(0, 0)); b[0] = s.GetBuffer("z");
  s.SetBinMap(d); check(d, s.ShrinkDist(d), n, b, over);
}
SX_HARNESS(h_none) { // no buffers at all: an exact copy
  std::vector<int> n = h_shape(2); BinnedED d = mk(n); BinnedEDShrinker s; s.SetUsingOverflows(sx_choice("overflow", 2)); s.SetBinMap(d); BinnedED r = s.ShrinkDist(d);
  check(d, r, n, std::vector<Buf>(n.size(), Buf(0, 0)), true); sx_assert(s.GetBuffers().empty(), "no buffers"); SX_THROWS(NotFoundError, s.GetBuffer("z"), "a missing buffer is refused");
}
SX_HARNESS(h_refused) {
  int n = 1 + sx_choice("n", 4); uint64_t lo = sx_u64("lo", 0, 0xffffffffull), hi = sx_u64("hi", 0, 0xffffffffull); sx_assume(lo + hi >= (uint64_t)n);
  BinAxis a = h_axis("z", n, 2); BinnedEDShrinker s; SX_THROWS_ANY(s.ShrinkAxis(a, lo, hi), "a buffer that leaves no bins is refused");
}
SX_HARNESS(h_axis_only) {
  int n = 1 + sx_choice("n", 5); Buf b = pick("z", n); BinAxis u = h_axis("z", n, 2), a("z", u.GetBinLowEdges(), u.GetBinHighEdges(), sx_choice("latex", 2) ? "$\\zeta$" : ""); BinnedEDShrinker s; BinAxis r = s.ShrinkAxis(a, b.first, b.second);
  sx_assert(r.GetNBins() == n - b.first - b.second && r.GetName() == "z" && r.GetLatexName() == a.GetLatexName(), "each axis loses exactly its buffer bins");
  for (size_t k = 0; k < r.GetNBins(); k++) sx_assert(r.GetBinLowEdge(k) == a.GetBinLowEdge(k + b.first) && r.GetBinHighEdge(k) == a.GetBinHighEdge(k + b.first), "kept bins keep their edges");
}
SX_HARNESS(h_history) { // any sequence of settings: the latest ones decide
  std::vector<int> n{4, 3}; BinnedED d = mk(n); BinnedEDShrinker s; bool over = s.GetUsingOverflows(); std::vector<Buf> b(2, Buf(0, 0)); bool any = false;
  for (int k = 0; k < (h_thorough() ? 4 : 3); k++) {
    switch (sx_choice(("op" + std::to_string(k)).c_str(), 7)) {
    case 0: over = !over; s.SetUsingOverflows(over); break;
    case 1: b[0] = Buf(1, k % 2); s.SetBuffer("z", b[0].first, b[0].second); any = true; break;
    case 2: b[1] = Buf(k % 2, 1); s.SetBuffer("y", b[1].first, b[1].second); any = true; break;
    case 3: b[0] = Buf(0, 2); s.SetBuffer("z", 0, 2); any = true; break;
    case 4: b[1] = Buf(0, 0); s.SetBuffer("y", 0, 0); any = true; break;
    case 5: { BinnedEDShrinker t(s); s.SetBuffer("z", 3, 0); s = t; break; } // saved, spoiled and restored
    default: if (any) { s.SetBuffer("y", 2, 1); SX_THROWS_ANY(s.SetBinMap(d), "a buffer that leaves no bins is refused"); s.SetBuffer("y", b[1].first, b[1].second); } break;
    }
    s.SetBinMap(d); check(d, s.ShrinkDist(d), n, b, over); sx_assert(s.GetUsingOverflows() == over, "overflow flag as set"); for (auto &q : s.GetBuffers()) sx_assert(q.second == b[q.first == "z" ? 0 : 1], "buffer as set");
  }
}
SX_HARNESS(h_alike) { // buffers on axes whose names begin or are spelt alike
  static const Vs N{"e_1", "e", "E", "e_10"}; std::vector<int> n{3, 4, 1, 2}; AxisCollection a; for (int i = 0; i < 4; i++) a.AddAxis(h_axis(N[i], n[i], (i + 1) % 3)); BinnedED d("d", a); Vd c; for (size_t i = 0; i < d.GetNBins(); i++) c.push_back(sx_double(("k" + std::to_string(i)).c_str(), 0.01, 100)); d.SetBinContents(c); d.SetObservables(N); BinnedEDShrinker s; bool over = sx_choice("overflow", 2); s.SetUsingOverflows(over); std::vector<Buf> b(4, Buf(0, 0)); int m = 1 + sx_choice("mask", 7); if (m & 1) b[0] = Buf(1, 1); if (m & 2) b[1] = Buf(2, 1); if (m & 4) b[3] = Buf(0, 1); s.SetBuffer("e_", 1, 0); s.SetBuffer("e_2", 0, 1); for (int i = 4; i-- > 0;) if (b[i] != Buf(0, 0)) s.SetBuffer(N[i], b[i].first, b[i].second); s.SetBinMap(d); check(d, s.ShrinkDist(d), n, b, over);
}
SX_HARNESS(h_many) { // thirty bins
  AxisCollection a; a.AddAxis(BinAxis("z", 0, 30, 30)); BinnedED d("d", a); Vd c; for (size_t i = 0; i < 30; i++) c.push_back(sx_double(("k" + std::to_string(i)).c_str(), 0.01, 100)); d.SetBinContents(c); d.SetObservables(Vs{"z"}); BinnedEDShrinker s; bool over = sx_choice("overflow", 2); s.SetUsingOverflows(over); Buf b = sx_choice("big", 2) ? Buf(10, 11) : Buf(0, 12); s.SetBuffer("z", b.first, b.second); s.SetBinMap(d); check(d, s.ShrinkDist(d), {30}, {b}, over);
}
SX_HARNESS(h_observables) { // distributions over observables named otherwise than their axes
  BinnedED d = mk({4, 3}); d.SetObservables(Vs{"energy", "radius"}); BinnedEDShrinker s; s.SetUsingOverflows(sx_choice("overflow", 2)); s.SetBuffer("z", 1, 1); s.SetBinMap(d); BinnedED r = s.ShrinkDist(d); sx_assert(r.GetObservables() == (Vs{"energy", "radius"}) && r.GetAxes().GetAxisNames() == d.GetAxes().GetAxisNames(), "a shrunk distribution keeps its name and observables");
}
