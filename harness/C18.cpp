// C18: shape and renormalisation systematics
// SRC: Shape.cpp Renorm.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp
// BOUNDS: 1 to 3 dimensions up to 12 bins, equal and unequal bins, shape functions linear in the centres of any choice and order of up to three axes (some of four and five) with any two parameters; two parameter settings one after the other; any renormalisation factor; names spelt almost alike
#include "hx.h"
#include <BinnedED.h>
#include <Exceptions.h>
#include <Renorm.h>
#include <Shape.h>
#include <algorithm>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static const std::vector<std::vector<int>> SHP{{3}, {2, 3}, {3, 2}, {2, 3, 2}};
static const std::vector<std::vector<int>> TGT{{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {0, 1, 2}, {2, 0, 1}, {2, 1, 0}};
static double fn(const ParameterDict &d, const Vd &x) { double r = d.at("a"); static const double k[] = {1, 0.25, 3}; for (size_t i = 0; i < x.size(); i++) r += d.at("b") * k[i] * x[i]; return r; }
static void setup(Systematic &s, const AxisCollection &a, const std::vector<int> &t) { s.SetAxes(a); Vs n; for (int i : t) n.push_back(h_names[i]); s.SetTransformationObs(n); s.SetDistributionObs(Vs(h_names, h_names + a.GetNDimensions())); }
static void check(const Systematic &s, const AxisCollection &a, const std::vector<int> &shape, const std::vector<int> &t, double A, double B) {
  size_t N = a.GetNBins(); ParameterDict d; d["a"] = A; d["b"] = B; const SparseMatrix &R = s.GetResponse(); sx_assert(R.GetNRows() == N && R.GetNCols() == N, "the response covers every bin");
  for (size_t r = 0; r < N; r++) for (size_t c = 0; c < N; c++) { if (r != c) { sx_assert(R.GetComponent(r, c) == 0, "no content moves between bins"); continue; } std::vector<size_t> ix = h_unflat(r, shape); Vd x; for (int i : t) x.push_back(a.GetAxis(i).GetBinCentre(ix[i])); sx_close(R.GetComponent(r, r), fn(d, x), "each bin is multiplied by the function at its own centre"); }
}
static double A(const char *n) { return sx_grid(n, 60, 100, -6); } static double B(const char *n) { return sx_grid(n, -3, 3, -6); }
SX_HARNESS(h_shape) {
  const auto &sh = SHP[sx_choice("shape", 4)]; const auto &t = TGT[sx_choice("target", 11)]; for (int i : t) sx_assume(i < (int)sh.size()); AxisCollection ax = h_axes(sh); Shape s("s"); s.SetShapeFunction(fn, Vs{"b", "a"}); setup(s, ax, t); sx_assert(s.GetParameter("a") == 0 && s.GetParameterCount() == 2, "parameters start at zero");
  double a = A("a"), b = B("b"); ParameterDict d; d["a"] = a; d["b"] = b; d["zz"] = 3; s.SetParameters(d); s.Construct(); check(s, ax, sh, t, a, b);
  if (sx_choice("again", 2)) { b = B("b2"); s.SetParameter("b", b); s.Construct(); check(s, ax, sh, t, a, b); }
  BinnedED e("e", ax); Vd c; for (size_t i = 0; i < ax.GetNBins(); i++) c.push_back(sx_double(("c" + std::to_string(i)).c_str(), 1, 10)); e.SetBinContents(c); double n; BinnedED o = s(e, &n); double tot = 0; for (size_t i = 0; i < c.size(); i++) { sx_close(o.GetBinContent(i), c[i] * s.GetResponse().GetComponent(i, i), "each content is multiplied by its bin's factor"); tot += o.GetBinContent(i); } sx_close(n, tot, "the content after the systematic is reported");
}
SX_HARNESS(h_negative) { // the sign decides
  AxisCollection ax; ax.AddAxis(h_axis("z", 3, 2)); Shape s("s"); s.SetShapeFunction(fn, Vs{"a", "b"}); setup(s, ax, {0}); double a = sx_grid("a", -10, 10, -6), b = sx_grid("b", -4, 4, -6); ParameterDict d; d["a"] = a; d["b"] = b; s.SetParameters(d); bool neg = false; for (int i = 0; i < 3; i++) if (fn(d, Vd{ax.GetAxis(0).GetBinCentre(i)}) < 0) neg = true;
  if (neg) SX_THROWS(ValueError, s.Construct(), "negative shape values are refused"); else { s.Construct(); check(s, ax, {3}, {0}, a, b); }
}
SX_HARNESS(h_barely_negative) { // however small
  AxisCollection ax; ax.AddAxis(h_axis("z", 3, 2)); Shape s("s"); s.SetShapeFunction(fn, Vs{"a", "b"}); setup(s, ax, {0}); static const int E[] = {-10, -24, -40}; double a = sx_grid("a", -16, 16, 0) * std::ldexp(1, E[sx_choice("size", 3)]); s.SetParameter("a", a); if (a < 0) SX_THROWS(ValueError, s.Construct(), "negative shape values are refused"); else { s.Construct(); for (int i = 0; i < 3; i++) sx_assert(s.GetResponse().GetComponent(i, i) == a, "each bin is multiplied by the function at its own centre"); }
}
SX_HARNESS(h_history) { // any parameters after any others, zero factors included
  AxisCollection ax; ax.AddAxis(h_axis("z", 3, 2)); Shape s("s"); s.SetShapeFunction(fn, Vs{"a", "b"}); setup(s, ax, {0}); double a = 0, b = 0; for (int k = 0; k < 3; k++) { std::string t = std::to_string(k); a = sx_grid(("a" + t).c_str(), 0, 10, -3); b = sx_grid(("b" + t).c_str(), 0, k == 1 ? 0 : 4, -3); ParameterDict d; d["a"] = a; d["b"] = b; s.SetParameters(d); bool neg = false; for (int i = 0; i < 3; i++) if (fn(d, Vd{ax.GetAxis(0).GetBinCentre(i)}) < 0) neg = true; sx_assume(!neg); s.Construct(); check(s, ax, {3}, {0}, a, b); }
  Renorm r("r"); r.SetAxes(ax); for (int k = 0; k < 3; k++) { double f = sx_grid(("f" + std::to_string(k)).c_str(), -4, 4, -6); r.SetScaleFactor(f); r.Construct(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_assert(r.GetResponse().GetComponent(i, j) == (i == j ? f : 0), "a renormalisation multiplies every bin by its factor"); }
}
SX_HARNESS(h_retarget) { Shape s("s"); s.SetShapeFunction(fn, Vs{"a", "b"}); AxisCollection p = h_axes({2, 3}), q = h_axes({3, 3}); setup(s, p, {0}); double a = A("a"), b = B("b"); s.SetParameter("a", a); s.SetParameter("b", b); s.Construct(); if (sx_choice("what", 2)) { s.SetAxes(q); s.Construct(); check(s, q, {3, 3}, {0}, a, b); } else { s.SetTransformationObs(Vs{"y", "z"}); s.Construct(); check(s, p, {2, 3}, {1, 0}, a, b); } }
SX_HARNESS(h_renorm) {
  const auto &sh = SHP[sx_choice("shape", 4)]; AxisCollection ax = h_axes(sh); Renorm s("r"); sx_assert(s.GetScaleFactor() == 1, "the factor starts at one"); s.SetAxes(ax); double f = sx_grid("f", -4, 4, -6); if (sx_choice("again", 2)) { s.SetScaleFactor(sx_grid("f0", 1, 4, -6)); s.Construct(); } s.SetScaleFactor(f); sx_assert(s.GetScaleFactor() == f, "the factor reads back"); s.Construct();
  for (size_t r = 0; r < ax.GetNBins(); r++) for (size_t c = 0; c < ax.GetNBins(); c++) sx_assert(s.GetResponse().GetComponent(r, c) == (r == c ? f : 0), "a renormalisation multiplies every bin by its factor");
  BinnedED e("e", ax); Vd c; for (size_t i = 0; i < ax.GetNBins(); i++) c.push_back(sx_double(("c" + std::to_string(i)).c_str(), 1, 10)); e.SetBinContents(c); double n; BinnedED o = s(e, &n); for (size_t i = 0; i < c.size(); i++) sx_close(o.GetBinContent(i), c[i] * f, "a renormalisation multiplies every bin by its factor");
}
SX_HARNESS(h_refused) {
  Shape s("s"); AxisCollection ax = h_axes({2}); Renorm r("r");
  switch (sx_choice("case", 5)) {
  case 0: setup(s, ax, {0}); SX_THROWS(LogicError, s.Construct(), "a missing function is refused"); break;
  case 1: s.SetShapeFunction(fn, Vs{"a", "b"}); SX_THROWS(LogicError, s.Construct(), "missing axes are refused"); SX_THROWS(LogicError, r.Construct(), "missing axes are refused"); break;
  case 2: s.SetShapeFunction(fn, Vs{"a", "b"}); SX_THROWS(ParameterError, s.SetParameter("c", 1), "unknown parameters are refused"); SX_THROWS(ParameterError, s.GetParameter("c"), "unknown parameters are refused"); SX_THROWS(ParameterError, s.RenameParameter("c", "d"), "unknown parameters are refused"); SX_THROWS(ParameterError, s.RenameParameter("a", "b"), "a name in use is refused"); sx_assert(s.GetParameterCount() == 2, "refused requests change nothing"); break;
  case 3: { s.SetShapeFunction(fn, Vs{"a", "b"}); ParameterDict d; d["a"] = 4; SX_THROWS(ParameterError, s.SetParameters(d), "missing parameters are refused"); sx_assert(s.GetParameter("a") == 0, "refused requests change nothing"); break; }
  default: SX_THROWS(ParameterError, r.SetParameter("c", 1), "unknown parameters are refused"); SX_THROWS(ParameterError, r.GetParameter("c"), "unknown parameters are refused"); sx_assert(r.GetParameterCount() == 0, "a renormalisation has no parameter"); ParameterDict d; d["c"] = 1; r.SetParameters(d); sx_assert(r.GetParameterCount() == 0, "foreign parameters are not taken over");
  }
}
struct Open : Renorm { Open() : Renorm("r") {} using Systematic::BinsCompatible; using Systematic::VectorContains; };
SX_HARNESS(h_compatible) { // what systematics of any kind ask: do two bins differ only along the axes transformed
  const auto &sh = SHP[sx_choice("shape", 4)]; const auto &t = TGT[sx_choice("target", 11)]; for (int i : t) sx_assume(i < (int)sh.size()); AxisCollection ax = h_axes(sh); Open s; setup(s, ax, t); size_t n = ax.GetNBins();
  for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) { std::vector<size_t> i = h_unflat(r, sh), j = h_unflat(c, sh); bool want = true; for (size_t k = 0; k < i.size(); k++) if (i[k] != j[k] && std::find(t.begin(), t.end(), (int)k) == t.end()) want = false; sx_assert(s.BinsCompatible(r, c) == want, "bins are compatible if they differ only along the transformed axes"); }
}
SX_HARNESS(h_alike) { // four axes whose names begin or are spelt alike
  Vs n{"e_1", "e", "E", "e_10"}; std::vector<int> nb{2, 3, 1, 2}; AxisCollection ax; for (int i = 0; i < 4; i++) ax.AddAxis(h_axis(n[i], nb[i], (i + 1) % 3)); int i = sx_choice("i", 4), j = sx_choice("j", 4); std::vector<int> t{i}; if (i != j) t.push_back(j); Shape s("s"); s.SetShapeFunction(fn, Vs{"b", "a"}); s.SetAxes(ax); Vs tn; for (int q : t) tn.push_back(n[q]); s.SetTransformationObs(tn); s.SetDistributionObs(n); double a = A("a"), b = B("b"); s.SetParameter("a", a); s.SetParameter("b", b); s.Construct(); check(s, ax, nb, t, a, b);
}
SX_HARNESS(h_one_bin) { // the function sees one bin only: any factor after any other
  static const std::vector<std::vector<int>> T{{1}, {1, 3}, {3, 1}}; int c = sx_choice("shape", 3); const auto &sh = T[c]; std::vector<int> t{c == 2 ? 1 : 0}; AxisCollection ax = h_axes(sh); Shape s("s"); s.SetShapeFunction(fn, Vs{"a", "b"}); setup(s, ax, t); for (int k = 0; k < 4; k++) { double a = sx_choice(("one" + std::to_string(k)).c_str(), 2) ? 1 : A(("a" + std::to_string(k)).c_str()), b = a == 1 ? 0 : B(("b" + std::to_string(k)).c_str()); ParameterDict d; d["a"] = a; d["b"] = b; s.SetParameters(d); s.Construct(); check(s, ax, sh, t, a, b); }
}
static double fn5(const ParameterDict &d, const Vd &x) { double r = d.at("a"); static const double k[] = {1, 0.25, 3, 2, 0.5}; sx_assert(x.size() <= 5, "the function is given one value per axis"); for (size_t i = 0; i < x.size(); i++) r += d.at("b") * k[i] * x[i]; return r; }
SX_HARNESS(h_more_axes) { // functions of four and five observables
  static const std::vector<std::vector<int>> T{{0, 1, 2, 3}, {3, 1, 0, 2}, {4, 3, 2, 1}, {0, 1, 2, 3, 4}, {2, 4, 1, 3, 0}}; const auto &t = T[sx_choice("target", 5)]; static const Vs n{"z", "y", "x", "w", "v"}; std::vector<int> sh{2, 1, 3, 2, 2}; AxisCollection ax; for (int i = 0; i < 5; i++) ax.AddAxis(h_axis(n[i], sh[i], i % 3)); Shape s("s"); s.SetShapeFunction(fn5, Vs{"a", "b"}); s.SetAxes(ax); Vs tn; for (int i : t) tn.push_back(n[i]); s.SetTransformationObs(tn); s.SetDistributionObs(n); double a = sx_grid("a", 400, 800, -6), b = B("b"); ParameterDict d; d["a"] = a; d["b"] = b; s.SetParameters(d); s.Construct();
  for (size_t r = 0; r < ax.GetNBins(); r++) { std::vector<size_t> ix = h_unflat(r, sh); Vd x; for (int i : t) x.push_back(ax.GetAxis(i).GetBinCentre(ix[i])); sx_close(s.GetResponse().GetComponent(r, r), fn5(d, x), "each bin is multiplied by the function at its own centre"); }
}
