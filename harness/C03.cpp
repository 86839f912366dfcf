// C03: histogram fill and arithmetic
// SRC: BinAxis.cpp AxisCollection.cpp Histogram.cpp BinnedED.cpp EventDistribution.cpp ObsSet.cpp Event.cpp ContainerTools.cpp Combinations.cpp
// BOUNDS: shapes {3},{2,3},{3,2},{2,3,2},{1},{1,3} (thorough: more); arbitrary real contents in [-100,100], weights in [-50,50], any point; up to 2 fills; every sequence of 3 (thorough 4) of eleven changing operations on a histogram or a distribution, all queries checked after each; names spelt almost alike
// ASSUME: normalising and dividing are only asked of histograms whose integral / divisor bins are not zero
#include "hx.h"
#include <BinnedED.h>
#include <Event.h>
#include <Exceptions.h>
typedef std::vector<double> Vd;

static void sameExcept(const Histogram &h, const Vd &before, size_t bin, double add, const char *l) {
  for (size_t i = 0; i < before.size(); i++) sx_close(h.GetBinContent(i), i == bin ? before[i] + add : before[i], l);
}
SX_HARNESS(h_fill) {
  std::vector<int> n = h_shape(h_thorough() ? 4 : 3);
  Histogram h = h_hist(n);
  Vd c = h.GetBinContents(), p;
  for (size_t d = 0; d < n.size(); d++) p.push_back(sx_double(("p" + std::to_string(d)).c_str(), -20, 20));
  std::vector<size_t> ix; for (size_t d = 0; d < n.size(); d++) ix.push_back(h.GetAxes().GetAxis(d).FindBin(p[d]));
  size_t bin = h_flat(ix, n);
  int form = sx_choice("form", n.size() == 1 ? 6 : 4);
  double w = 1;
  if (form & 1) w = sx_double("w", -50, 50);
  if (form < 2) { if (form & 1) h.Fill(p, w); else h.Fill(p); }
  else if (form < 4) { std::map<std::string, double> m; for (size_t d = 0; d < n.size(); d++) m[h_names[d]] = p[d]; if (sx_choice("unrelated", 2)) m["unrelated"] = 1e5; if (form & 1) h.Fill(m, w); else h.Fill(m); }
  else { if (form & 1) h.Fill(p[0], w); else h.Fill(p[0]); }
  sameExcept(h, c, bin, w, "fill adds the weight to the point's bin only");
  double s = 0; for (double x : c) s += x;
  sx_close(h.Integral(), s + w, "fill raises the integral by the weight");
  sx_reach("filled");
}
SX_HARNESS(h_integral_scale_empty) {
  std::vector<int> n = h_shape(h_thorough() ? 4 : 3);
  Histogram h = h_hist(n);
  Vd c = h.GetBinContents(); double s = 0; for (double x : c) s += x;
  sx_assert(h.GetNBins() == c.size() && h.GetNDims() == n.size(), "sizes");
  sx_close(h.Integral(), s, "integral is the sum of the bins");
  double k = sx_double("k", -10, 10);
  Histogram g = h; g.Scale(k);
  for (size_t i = 0; i < c.size(); i++) sx_close(g.GetBinContent(i), c[i] * k, "scaling multiplies every bin");
  for (size_t i = 0; i < c.size(); i++) sx_assert(h.GetBinContent(i) == c[i], "a copy is independent");
  h.Empty();
  for (size_t i = 0; i < c.size(); i++) sx_assert(h.GetBinContent(i) == 0, "emptying zeroes every bin");
  sx_assert(h.Integral() == 0 && h.GetNBins() == c.size(), "empty integral");
}
SX_HARNESS(h_normalise) {
  static const std::vector<std::vector<int>> S = {{1}, {3}, {2, 2}, {2, 1, 2}};
  std::vector<int> n = S[sx_choice("shape", 4)];
  Histogram h = h_hist(n, 0.5, 100);
  Vd c = h.GetBinContents(); double s = 0; for (double x : c) s += x;
  h.Normalise();
  double t = 0;
  for (size_t i = 0; i < c.size(); i++) { sx_close(h.GetBinContent(i) * s, c[i], "normalising keeps the bin ratios"); t += h.GetBinContent(i); }
  sx_close(t, 1.0, "normalised bins sum to one"); sx_close(h.Integral(), 1.0, "normalised integral is one");
}
SX_HARNESS(h_padding) {
  std::vector<int> n = {2, 2};
  Histogram h(h_axes(n)); Vd c;
  for (int i = 0; i < 4; i++) { c.push_back(sx_choice("zero", 2) ? 0.0 : sx_double(("c" + std::to_string(i)).c_str(), -5, 5)); h.SetBinContent(i, c[i]); }
  bool dflt = sx_choice("default", 2); double pad = dflt ? std::numeric_limits<double>::min() : sx_double("pad", 0, 1);
  if (dflt) h.AddPadding(); else h.AddPadding(pad);
  for (int i = 0; i < 4; i++) { double e = c[i] == 0 ? pad : c[i]; sx_assert(h.GetBinContent(i) == e, "padding replaces only zero bins"); }
}
SX_HARNESS(h_range_integral) {
  int k = sx_choice("axis", 3), n = 1 + sx_choice("nbins", 4);
  AxisCollection ac; ac.AddAxis(h_axis("z", n, k));
  Histogram h(ac); h.SetBinContents(h_contents(n));
  double a = sx_double("a", -20, 20), b = sx_double("b", -20, 20);
  double got = h.Integral(a, b), e = 0;
  const BinAxis &ax = h.GetAxes().GetAxis(0);
  if (b > a) { size_t i = ax.FindBin(a), j = ax.FindBin(b); for (size_t q = i; q <= j; q++) e += h.GetBinContent(q); }
  sx_close(got, e, "range integral sums the bins from lower to upper limit");
  sx_reach("range");
}
SX_HARNESS(h_binary) {
  std::vector<int> n = h_shape(2);
  Histogram a = h_hist(n), b(h_axes(n)); Vd c = a.GetBinContents(), d;
  int op = sx_choice("op", 4);
  for (size_t i = 0; i < c.size(); i++) { d.push_back(sx_double(("d" + std::to_string(i)).c_str(), op == 3 ? 0.5 : -100, 100)); b.SetBinContent(i, d[i]); }
  double w = 1;
  if (op == 0) a.Add(b); else if (op == 1) { w = sx_double("w", -5, 5); a.Add(b, w); } else if (op == 2) a.Multiply(b); else a.Divide(b);
  for (size_t i = 0; i < c.size(); i++) {
    if (op < 2) sx_close(a.GetBinContent(i), c[i] + w * d[i], "addition works bin by bin");
    else if (op == 2) sx_close(a.GetBinContent(i), c[i] * d[i], "multiplication works bin by bin");
    else sx_close(a.GetBinContent(i) * d[i], c[i], "division works bin by bin");
    sx_assert(b.GetBinContent(i) == d[i], "the operand is unchanged");
  }
}
SX_HARNESS(h_binary_refused) {
  Histogram a = h_hist({2, 2}); Vd c = a.GetBinContents();
  int k = sx_choice("other", 4), op = sx_choice("op", 3);
  AxisCollection o;
  if (k == 0) { o.AddAxis(h_axis("z", 2, 0)); o.AddAxis(h_axis("y", 3, 1)); }
  else if (k == 1) { o.AddAxis(h_axis("z", 2, 0)); }
  else if (k == 2) { o.AddAxis(h_axis("z", 2, 0)); double e = sx_double("edge", -0.9, -0.1); sx_assume(e != -0.5); o.AddAxis(BinAxis("y", Vd{-1, e}, Vd{e, 0})); }
  else { o.AddAxis(h_axis("y", 2, 1)); o.AddAxis(h_axis("z", 2, 0)); }
  Histogram b(o);
  SX_THROWS_ANY((op == 0 ? a.Add(b) : op == 1 ? a.Multiply(b) : a.Divide(b)), "different binnings are refused");
  for (size_t i = 0; i < 4; i++) sx_assert(a.GetBinContent(i) == c[i], "a refused operation leaves the contents");
}
SX_HARNESS(h_moments) {
  static const std::vector<std::vector<int>> S = {{3}, {2, 3}, {2, 3, 2}, {1, 2, 1, 3}, {2, 1, 2, 2}};
  std::vector<int> n = S[sx_choice("shape", 5)];
  Histogram h = h_hist(n, 0, 1);
  Vd m = h.Means(), v = h.Variances();
  sx_assert(m.size() == n.size() && v.size() == n.size(), "one moment per axis");
  for (size_t d = 0; d < n.size(); d++) {
    double e = 0, e2 = 0;
    for (size_t b = 0; b < h.GetNBins(); b++) { double x = h.GetAxes().GetAxis(d).GetBinCentre(h_unflat(b, n)[d]); e += x * h.GetBinContent(b); e2 += x * x * h.GetBinContent(b); }
    sx_close(m[d], e, "mean is the content-weighted bin centre"); sx_close(v[d], e2 - e * e, "variance is the content-weighted square minus mean squared");
  }
}
template <class H> static void checkAll(const H &h, const Vd &m, const std::vector<int> &n) { // every query agrees with the contents held now
  Vd g = h.GetBinContents(); sx_assert(g.size() == m.size() && h.GetNBins() == m.size() && h.GetNDims() == n.size(), "the number of bins stays");
  double s = 0; for (size_t i = 0; i < m.size(); i++) { sx_close(g[i], m[i], "contents follow every operation"); sx_assert(h.GetBinContent(i) == g[i], "contents follow every operation"); s += m[i]; }
  sx_close(h.Integral(), s, "the integral follows every operation");
  Vd mean = h.Means(); for (size_t d = 0; d < n.size(); d++) { double e = 0; for (size_t b = 0; b < m.size(); b++) e += h.GetAxes().GetAxis(d).GetBinCentre(h_unflat(b, n)[d]) * m[b]; sx_close(mean[d], e, "the means follow every operation"); }
}
template <class H> static void history(H h, H o, const std::vector<int> &n) {
  size_t N = n.size() == 1 ? 3 : 4; Vd m, q; for (size_t i = 0; i < N; i++) { m.push_back(sx_grid(("c" + std::to_string(i)).c_str(), 0.5, 100, -2)); q.push_back(0.5 * (1 << i)); o.SetBinContent(i, q[i]); } h.SetBinContents(m);
  static const double at[] = {0.5, 0.25, -0.75}; // bin 0 (bin 0 on axis z, bin 0 on axis y)
  for (int k = 0; k < (h_thorough() ? 4 : 3); k++) {
    std::string K = std::to_string(k); double w = 2 + k; size_t b = k % N;
    switch (sx_choice(("op" + K).c_str(), 11)) {
    case 0: { Vd p(n.size(), at[0]); if (n.size() == 2) p[1] = at[2]; h.Fill(p, w); m[0] += w; break; }
    case 1: h.SetBinContent(b, w); m[b] = w; break;
    case 2: h.AddBinContent(N - 1, -w); m[N - 1] -= w; break;
    case 3: h.Scale(w); for (double &x : m) x *= w; break;
    case 4: h.Empty(); m.assign(N, 0); break;
    case 5: h.AddPadding(0.25); for (double &x : m) if (x == 0) x = 0.25; break;
    case 6: h.Add(o, w); for (size_t i = 0; i < N; i++) m[i] += w * q[i]; break;
    case 7: h.Multiply(o); for (size_t i = 0; i < N; i++) m[i] *= q[i]; break;
    case 8: { for (size_t i = 0; i < N; i++) m[i] = w + i; h.SetBinContents(m); break; }
    case 9: h.Divide(o); for (size_t i = 0; i < N; i++) m[i] /= q[i]; break;
    default: { H c(h); h.Scale(0); h = c; break; } // saved, spoiled and restored
    }
    checkAll(h, m, n);
  }
  for (size_t i = 0; i < N; i++) sx_assert(o.GetBinContent(i) == q[i], "the other operand stays as it was");
}
SX_HARNESS(h_history) { // any sequence of operations, queried in between
  static const std::vector<std::vector<int>> S = {{3}, {2, 2}}; std::vector<int> n = S[sx_choice("shape", 2)];
  if (sx_choice("distribution", 2)) { BinnedED h("h", h_axes(n)), o("o", h_axes(n)); h.SetObservables(std::vector<std::string>(h_names, h_names + n.size())); o.SetObservables(h.GetObservables()); history(h, o, n); } else { Histogram h(h_axes(n)), o(h_axes(n)); history(h, o, n); }
  sx_reach("history");
}
SX_HARNESS(h_distribution) { // a binned distribution answers exactly as its histogram does
  static const std::vector<std::vector<int>> S = {{3}, {2, 3}, {2, 3, 2}}; std::vector<int> n = S[sx_choice("shape", 3)]; Histogram g = h_hist(n); size_t D = n.size(); std::vector<std::string> obs(h_names, h_names + D); bool axes = sx_choice("axes", 2); BinnedED d = axes ? BinnedED("d", g.GetAxes()) : BinnedED("d", g); if (axes) { if (sx_choice("set", 2)) d.SetHistogram(g); else d.SetBinContents(g.GetBinContents()); } d.SetObservables(obs);
  Vd p; for (size_t i = 0; i < D; i++) p.push_back(sx_double(("p" + std::to_string(i)).c_str(), -3, 8)); sx_assert(d.GetName() == "d" && d.GetNBins() == g.GetNBins() && d.GetNDims() == D && d.GetObservables() == obs && d.GetBinContents() == g.GetBinContents() && d.GetHistogram().GetBinContents() == g.GetBinContents() && d.GetAxes() == g.GetAxes(), "a distribution reads back what it was made from");
  size_t b = g.FindBin(p); Event e(p); e.SetObservableNames(&obs); sx_assert(d.FindBin(p) == b && d.FindBin(e) == b && d.UnpackIndices(b) == g.UnpackIndices(b) && d.FlattenIndices(g.UnpackIndices(b)) == b && d.GetBinContent(b) == g.GetBinContent(b), "a distribution finds the same bins");
  sx_close(d.Integral(), g.Integral(), "a distribution has the same integral"); Vd m = d.Means(), v = d.Variances(), gm = g.Means(), gv = g.Variances(); for (size_t i = 0; i < D; i++) { sx_close(m[i], gm[i], "a distribution has the same means"); sx_close(v[i], gv[i], "a distribution has the same variances"); }
  double w = sx_double("w", -50, 50); int how = sx_choice("fill", 4); if (D == 1 && how == 3) d.Fill(p[0], w); else if (how == 0) d.Fill(p, w); else if (how == 1) d.Fill(e, w); else { d.Fill(p); w = 1; } for (size_t i = 0; i < d.GetNBins(); i++) sx_close(d.GetBinContent(i), g.GetBinContent(i) + (i == b ? w : 0), "filling a distribution adds the weight to one bin");
}
SX_HARNESS(h_alike) { // filling by names that begin or are spelt alike, in five dimensions
  static const std::vector<std::string> N{"e_1", "e", "E", "e_10", "ee"}; static const int nb[] = {2, 3, 2, 1, 2}; AxisCollection a; for (int i = 0; i < 5; i++) a.AddAxis(h_axis(N[i], nb[i], i % 3)); Histogram h(a); Vd c = h_contents(24); h.SetBinContents(c); std::map<std::string, double> p; Vd q; int k = sx_choice("k", 5); for (int i = 0; i < 5; i++) q.push_back(p[N[i]] = i == k ? sx_double("p", -20, 20) : -1 + i * 0.75); p["e_"] = 1e5; p["e_2"] = -1e5; double w = sx_double("w", -50, 50), s = w; size_t bin = 0; for (int i = 0; i < 5; i++) bin = bin * nb[i] + a.GetAxis(i).FindBin(q[i]); Histogram g = h; h.Fill(p, w); g.Fill(q, w); sameExcept(h, c, bin, w, "fill adds the weight to the point's bin only"); sameExcept(g, c, bin, w, "fill adds the weight to the point's bin only"); for (double x : c) s += x; sx_close(h.Integral(), s, "fill raises the integral by the weight"); p.erase("e_10"); SX_THROWS_ANY(h.Fill(p), "a point without a needed coordinate is refused");
}
SX_HARNESS(h_tiny) { // contents and weights far below one count in full
  static const double T[] = {1. / (1 << 20), 1. / (1ll << 40), 1. / (1ll << 60) / (1ll << 40)}; double t = T[sx_choice("size", 3)]; Histogram h(h_axes({3})), g(h_axes({3})), q(h_axes({3})); Vd c; for (int i = 0; i < 3; i++) { c.push_back(sx_grid(("c" + std::to_string(i)).c_str(), 0.5, 100, -2)); h.SetBinContent(i, c[i] * t); g.SetBinContent(i, c[i]); } int k = sx_choice("bin", 3); double w = sx_grid("w", 0.5, 100, -2), z = h.GetAxes().GetAxis(0).GetBinCentre(k);
  q.Fill(z, w * t); sx_close(q.GetBinContent(k) / t, w, "fill adds the weight to the point's bin only"); h.Fill(z, w * t); sx_close(h.GetBinContent(k) / t, c[k] + w, "fill adds the weight to the point's bin only"); c[k] += w; sx_close(h.Integral() / t, c[0] + c[1] + c[2], "integral is the sum of the bins"); Histogram r = h; r.Normalise(); for (int i = 0; i < 3; i++) sx_close(r.GetBinContent(i) * (c[0] + c[1] + c[2]), c[i], "normalising keeps the bin ratios");
  Histogram d = g; d.Divide(h); for (int i = 0; i < 3; i++) sx_close(d.GetBinContent(i) * t * c[i], g.GetBinContent(i), "division works bin by bin"); Histogram m = g; m.Multiply(h); for (int i = 0; i < 3; i++) sx_close(m.GetBinContent(i) / t, c[i] * g.GetBinContent(i), "multiplication works bin by bin"); Histogram a = h; a.Add(g, t); for (int i = 0; i < 3; i++) sx_close(a.GetBinContent(i) / t, c[i] + g.GetBinContent(i), "addition works bin by bin"); h.Scale(t); for (int i = 0; i < 3; i++) sx_close(h.GetBinContent(i) / t / t, c[i], "scaling multiplies every bin"); a.AddPadding(1); sx_close(a.GetBinContent(0) / t, c[0] + g.GetBinContent(0), "padding replaces only zero bins");
}
SX_HARNESS(h_signed) { // normalising and dividing with contents of either sign
  int n = 2 + sx_choice("n", 2); Histogram h(h_axes({n})); Vd c; double s = 0; for (int i = 0; i < n; i++) { c.push_back(sx_grid(("c" + std::to_string(i)).c_str(), -100, 100, -2)); s += c[i]; } sx_assume(s >= 0.5 || s <= -0.5); h.SetBinContents(c); Histogram o = h, d(h_axes({n})); h.Normalise(); for (int i = 0; i < n; i++) sx_close(h.GetBinContent(i) * s, c[i], "normalising keeps the bin ratios"); for (int i = 0; i < n; i++) d.SetBinContent(i, sx_choice(("neg" + std::to_string(i)).c_str(), 2) ? -0.25 : 4); o.Divide(d); for (int i = 0; i < n; i++) sx_close(o.GetBinContent(i) * d.GetBinContent(i), c[i], "division works bin by bin");
}
SX_HARNESS(h_distribution_binary) { // arithmetic of distributions, and what is refused
  BinnedED a("a", h_hist({2, 2})); a.SetObservables(std::vector<std::string>{"z", "y"}); Vd c = a.GetBinContents(), d; int op = sx_choice("op", 3), k = sx_choice("other", 4); AxisCollection o; if (k == 0) o = a.GetAxes(); else if (k == 1) { o.AddAxis(h_axis("z", 2, 0)); o.AddAxis(h_axis("y", 3, 1)); } else if (k == 2) o.AddAxis(h_axis("z", 2, 0)); else { o.AddAxis(BinAxis("z", 0, 2.5, 2)); o.AddAxis(a.GetAxes().GetAxis(1)); } BinnedED b("b", o); b.SetObservables(a.GetObservables()); for (size_t i = 0; i < b.GetNBins(); i++) { d.push_back(sx_double(("d" + std::to_string(i)).c_str(), 0.5, 100)); b.SetBinContent(i, d[i]); } double w = sx_choice("weighted", 2) ? sx_double("w", -5, 5) : 1;
  auto go = [&]() { if (op == 0) a.Add(b, w); else if (op == 1) a.Multiply(b); else a.Divide(b); }; if (k) { SX_THROWS_ANY(go(), "different binnings are refused"); sx_assert(a.GetBinContents() == c, "a refused operation leaves the contents"); return; } go(); for (size_t i = 0; i < 4; i++) if (op == 0) sx_close(a.GetBinContent(i), c[i] + w * d[i], "addition works bin by bin"); else if (op == 1) sx_close(a.GetBinContent(i), c[i] * d[i], "multiplication works bin by bin"); else sx_close(a.GetBinContent(i) * d[i], c[i], "division works bin by bin"); sx_assert(b.GetBinContents() == d && a.GetName() == "a", "the operand is unchanged");
}
SX_HARNESS(h_itself) { // a histogram combined with itself
  Histogram h = h_hist({2, 2}, 1, 100); std::vector<double> c = h.GetBinContents(); double w = sx_double("w", -5, 5); int op = sx_choice("op", 4); if (op == 0) h.Add(h, w); else if (op == 1) h.Multiply(h); else if (op == 2) h.Divide(h); else { Histogram &r = h; h = r; } for (int i = 0; i < 4; i++) sx_close(h.GetBinContent(i), op == 0 ? c[i] * (1 + w) : op == 1 ? c[i] * c[i] : op == 2 ? 1 : c[i], "arithmetic works bin by bin on a histogram and itself"); }
