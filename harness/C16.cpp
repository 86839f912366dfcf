// C16: shift, scale and scale-function systematics
// SRC: Shift.cpp Scale.cpp ScaleFunction.cpp Systematic.cpp SparseMatrix.cpp DenseMatrix.cpp BinnedED.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp
// BOUNDS: axes of 1 to 6 bins (thorough 9), equal or unequal, one wide bin over eight narrow ones, any bin edges on a grid of 1/8 for two bins; shifts within +-9 and scale factors in [1/8,6] on a grid of 1/64, linear and quadratic monotone scale functions; 1 to 3 dimensions, every target axis; two parameter values one after the other, changes of axes and target in between; single runs of many items; names spelt almost alike
#include "hx.h"
#include <BinnedED.h>
#include <Exceptions.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shift.h>
#include <memory>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static std::string S(int i) { return std::to_string(i); }
static double g(const std::string &n, double lo, double hi) { return sx_grid(n.c_str(), lo, hi, -6); }
// the response's entries, column by column, against the overlap of the moved source bin with each destination
template <class F> static void check(const SparseMatrix &R, const AxisCollection &ax, size_t dim, F mv) {
  size_t N = ax.GetNBins(); const BinAxis &A = ax.GetAxis(dim); std::vector<int> shape; for (size_t d = 0; d < ax.GetNDimensions(); d++) shape.push_back(ax.GetAxis(d).GetNBins());
  sx_assert(R.GetNRows() == N && R.GetNCols() == N, "the response covers every bin");
  for (size_t c = 0; c < N; c++) {
    std::vector<size_t> ci = h_unflat(c, shape); double lo = mv(A.GetBinLowEdge(ci[dim])), hi = mv(A.GetBinHighEdge(ci[dim])), w = hi - lo;
    for (size_t r = 0; r < N; r++) {
      std::vector<size_t> ri = h_unflat(r, shape); double e = R.GetComponent(r, c); bool other = false; for (size_t d = 0; d < ri.size(); d++) if (d != dim && ri[d] != ci[d]) other = true;
      if (other) { sx_assert(e == 0, "only the targeted axis is affected"); continue; }
      double l = A.GetBinLowEdge(ri[dim]), h = A.GetBinHighEdge(ri[dim]); if (lo > l) l = lo; if (hi < h) h = hi; sx_close(e * w, h > l ? h - l : 0, "each entry is the fraction of the moved bin that overlaps the destination");
    } // hence entries within [0,1], columns inside the axis summing to one and no column above one
  }
}
struct Sys { std::unique_ptr<Systematic> s; int kind; Vd p;
  Sys(int k) : kind(k) { if (k == 0) s.reset(new Shift("s")); else if (k == 1) s.reset(new Scale("s")); else { ScaleFunction *f = new ScaleFunction("s"); if (k == 2) f->SetScaleFunction([](const ParameterDict &d, const double &x) { return d.at("off") + d.at("fac") * x; }, Vs{"fac", "off"}); else f->SetScaleFunction([](const ParameterDict &d, const double &x) { return x + d.at("q") * (x + 8) * (x + 8); }, Vs{"q"}); s.reset(f); } }
  void set(const char *t) { std::string n(t); ParameterDict d; if (kind == 0) { p = {g(n, -9, 9)}; d["shift"] = p[0]; } else if (kind == 1) { p = {g(n, 0.125, 6)}; d["scaleFactor"] = p[0]; } else if (kind == 2) { p = {g(n + "o", -4, 4), g(n, 0.25, 3)}; d["off"] = p[0]; d["fac"] = p[1]; } else { p = {g(n, 0, 0.5)}; d["q"] = p[0]; } d["other"] = 77; s->SetParameters(d); }
  double mv(double x) const { return kind == 0 ? x + p[0] : kind == 1 ? x * p[0] : kind == 2 ? p[0] + p[1] * x : x + p[0] * (x + 8) * (x + 8); } };
static void run(Sys &S, const AxisCollection &a, size_t dim) { S.s->Construct(); check(S.s->GetResponse(), a, dim, [&](double x) { return S.mv(x); }); }
static void target(Systematic &s, const AxisCollection &a, size_t dim) { s.SetAxes(a); s.SetTransformationObs(Vs{h_names[dim]}); s.SetDistributionObs(Vs(h_names, h_names + a.GetNDimensions())); }
SX_HARNESS(h_1d) { Sys S(sx_choice("kind", 4)); AxisCollection a; a.AddAxis(h_axis("z", 1 + sx_choice("bins", h_thorough() ? 4 : 3), sx_choice("edges", 3))); target(*S.s, a, 0); S.set("p"); run(S, a, 0); }
SX_HARNESS(h_edges) { // any bin edges
  Sys S(sx_choice("kind", 3)); double e0 = sx_grid("e0", -4, 4, -3), e1 = e0 + sx_grid("w0", 0.25, 6, -3), e2 = e1 + sx_grid("w1", 0.25, 6, -3); AxisCollection a; a.AddAxis(BinAxis("z", Vd{e0, e1}, Vd{e1, e2})); target(*S.s, a, 0); S.set("p"); run(S, a, 0);
}
SX_HARNESS(h_long) { // many bins: a moved bin may cover any number of others
  Sys S(sx_choice("kind", 3)); bool t = h_thorough(); int n = t ? 5 + sx_choice("bins", 5) : 6; AxisCollection a; a.AddAxis(h_axis("z", n, t ? sx_choice("edges", 2) : 1)); target(*S.s, a, 0); S.set("p"); run(S, a, 0);
}
SX_HARNESS(h_dims) { static const std::vector<std::vector<int>> sh{{2, 3}, {3, 2}, {2, 2, 3}, {1, 3, 2}}; auto &s = sh[sx_choice("shape", 4)]; size_t dim = sx_choice("dim", s.size()); Sys S(sx_choice("kind", 3)); AxisCollection a = h_axes(s); target(*S.s, a, dim); S.set("p"); run(S, a, dim); }
SX_HARNESS(h_again) { // another parameter value, after the first was constructed
  Sys S(sx_choice("kind", 4)); AxisCollection a; a.AddAxis(h_axis("z", 2, 2)); target(*S.s, a, 0); S.set("p"); S.s->Construct(); S.set("q"); run(S, a, 0);
}
SX_HARNESS(h_by_name) { // parameters set one at a time, by setter, or renamed
  int kind = sx_choice("kind", 3); Sys S(kind); AxisCollection a; a.AddAxis(h_axis("z", 2, 2)); target(*S.s, a, 0); S.set("p"); bool ren = sx_choice("rename", 2); Vs n = kind == 0 ? Vs{"shift"} : kind == 1 ? Vs{"scaleFactor"} : Vs{"off", "fac"};
  if (ren && kind < 2) { S.s->RenameParameter(n[0], "mine"); sx_assert(S.s->GetParameter("mine") == S.p[0], "renaming keeps the value"); n[0] = "mine"; }
  size_t i = n.size() > 1 ? sx_choice("which", 2) : 0; S.p[i] = kind == 0 ? g("q", -9, 9) : g("q", 0.25, 3); if (sx_choice("setter", 2) && kind < 2) { if (kind == 0) static_cast<Shift &>(*S.s).SetShift(S.p[0]); else static_cast<Scale &>(*S.s).SetScaleFactor(S.p[0]); } else S.s->SetParameter(n[i], S.p[i]);
  for (size_t k = 0; k < n.size(); k++) sx_assert(S.s->GetParameter(n[k]) == S.p[k], "parameters read back by name"); sx_assert(S.s->GetParameterCount() == n.size(), "parameter count"); run(S, a, 0);
}
SX_HARNESS(h_retarget) { // other axes or another target after constructing once
  Sys S(sx_choice("kind", 3)); AxisCollection a = h_axes({2, 3}), b = h_axes({3, 2}); target(*S.s, a, 0); S.set("p"); S.s->Construct(); switch (sx_choice("what", 3)) { case 0: S.s->SetAxes(b); run(S, b, 0); break; case 1: S.s->SetTransformationObs(Vs{"y"}); run(S, a, 1); break; default: S.s->SetDistributionObs(Vs{"y", "z"}); run(S, a, 1); }
}
SX_HARNESS(h_neutral) { // neutral parameters leave every distribution alone
  int kind = sx_choice("kind", 4); Sys S(kind); std::vector<int> sh = sx_choice("two", 2) ? std::vector<int>{2, 3} : std::vector<int>{3}; AxisCollection a = h_axes(sh); size_t dim = sx_choice("dim", sh.size()); target(*S.s, a, dim); ParameterDict d; d["shift"] = 0; d["scaleFactor"] = 1; d["off"] = 0; d["fac"] = 1; d["q"] = 0; S.s->SetParameters(d); S.s->Construct();
  for (size_t i = 0; i < a.GetNBins(); i++) for (size_t j = 0; j < a.GetNBins(); j++) sx_assert(S.s->GetResponse().GetComponent(i, j) == (i == j), "neutral parameters give the identity");
  BinnedED e("e", Histogram(a)); Vd c; for (size_t i = 0; i < a.GetNBins(); i++) c.push_back(sx_double(("c" + std::to_string(i)).c_str(), 0, 100)); e.SetBinContents(c); double n = -1; sx_assert((*S.s)(e, &n).GetBinContents() == c, "neutral parameters leave the contents alone");
}
SX_HARNESS(h_apply) { // acting on a distribution
  Sys S(sx_choice("kind", 2)); AxisCollection a; a.AddAxis(h_axis("z", 3, 2)); target(*S.s, a, 0); S.set("p"); S.s->Construct(); BinnedED e("e", a); Vd c; for (int i = 0; i < 3; i++) { c.push_back(sx_double(("c" + std::to_string(i)).c_str(), 1, 100)); e.SetBinContent(i, c[i]); } e.SetObservables(Vs{"z"});
  double n = -1; BinnedED o = (*S.s)(e, &n); double tot = 0; for (int r = 0; r < 3; r++) { double t = 0; for (int k = 0; k < 3; k++) t += S.s->GetResponse().GetComponent(r, k) * c[k]; sx_close(o.GetBinContent(r), t, "the response acts on the contents"); tot += t; }
  sx_close(n, tot, "the content after the systematic is reported when asked for"); sx_assert(e.GetBinContents() == c && o.GetName() == "e" && o.GetObservables() == e.GetObservables(), "the distribution given is left alone"); 
}
SX_HARNESS(h_normalised) {
  int kind = sx_choice("kind", 2); Sys S(kind); AxisCollection a; a.AddAxis(h_axis("z", 3, 2)); target(*S.s, a, 0); static const double P[2][2] = {{0.5, -0.25}, {1.25, 0.5}}; S.s->SetParameter(kind ? "scaleFactor" : "shift", P[kind][sx_choice("value", 2)]); S.s->Construct(); BinnedED e("e", a); Vd c; for (int i = 0; i < 3; i++) { c.push_back(sx_double(("c" + std::to_string(i)).c_str(), 1, 100)); e.SetBinContent(i, c[i]); } e.SetObservables(Vs{"z"});
  double tot; BinnedED o = (*S.s)(e, &tot), q = (*S.s)(e); sx_close(q.Integral(), 1, "without asking the result is normalised"); for (int r = 0; r < 3; r++) sx_close(q.GetBinContent(r) * tot, o.GetBinContent(r), "without asking the result is normalised");
}
SX_HARNESS(h_refused) {
  AxisCollection a = h_axes({2, 2}); int kind = sx_choice("kind", 3); Sys S(kind); target(*S.s, a, 0);
  switch (sx_choice("case", 5)) {
  case 0: S.s->SetTransformationObs(Vs{"z", "y"}); SX_THROWS(RepresentationError, S.s->Construct(), "more than one target is refused"); break;
  case 1: { Sys T(kind); T.s->SetTransformationObs(Vs{"z"}); T.s->SetDistributionObs(Vs{"z"}); SX_THROWS(LogicError, T.s->Construct(), "constructing without axes is refused"); break; }
  case 2: if (kind == 1) { double f = sx_double("f", -5, 0); S.s->SetParameter("scaleFactor", f); SX_THROWS(ValueError, S.s->Construct(), "non-positive scale factors are refused"); } else if (kind == 2) { ScaleFunction f("f"); target(f, a, 0); SX_THROWS(LogicError, f.Construct(), "a missing scale function is refused"); } break;
  case 3: SX_THROWS(ParameterError, S.s->SetParameter("nope", 1), "unknown parameters are refused"); SX_THROWS(ParameterError, S.s->GetParameter("nope"), "unknown parameters are refused"); SX_THROWS(ParameterError, S.s->RenameParameter("nope", "z"), "unknown parameters are refused"); break;
  default: { ParameterDict d; d["z"] = 1; SX_THROWS(ParameterError, S.s->SetParameters(d), "missing parameters are refused"); S.s->SetTransformationObs(Vs{"q"}); SX_THROWS_ANY(S.s->Construct(), "an unknown target is refused"); }
  }
}
static AxisCollection alike(Vs &n) { n = Vs{"e_1", "e", "E", "e_10"}; static const int nb[] = {2, 3, 1, 2}; AxisCollection a; for (int i = 0; i < 4; i++) a.AddAxis(h_axis(n[i], nb[i], (i + 1) % 3)); return a; }
SX_HARNESS(h_alike) { // four axes whose names begin or are spelt alike
  Vs n; AxisCollection a = alike(n); size_t dim = sx_choice("dim", 4); Sys S(sx_choice("kind", 3)); S.s->SetAxes(a); S.s->SetTransformationObs(Vs{n[dim]}); S.s->SetDistributionObs(n); S.set("p"); run(S, a, dim); S.s->SetTransformationObs(Vs{"e_"}); SX_THROWS_ANY(S.s->Construct(), "an unknown target is refused");
}
SX_HARNESS(h_many) { // sixteen bins, parameters within a few ranges
  static const double P[2][4][2] = {{{2, 3}, {-12, -11}, {0.25, 0.75}, {14, 17}}, {{1.5, 1.53125}, {0.5, 0.53125}, {6.5, 6.625}, {0.0625, 0.078125}}}; int k = sx_choice("kind", 2); Sys S(k); AxisCollection a; a.AddAxis(BinAxis("z", 0, 16, 16)); target(*S.s, a, 0); const double *r = P[k][sx_choice("range", 4)]; S.p = {g("p", r[0], r[1])}; S.s->SetParameter(k ? "scaleFactor" : "shift", S.p[0]); run(S, a, 0);
}
SX_HARNESS(h_tiny) { // overlaps as small as a millionth of a bin are kept
  int kind = sx_choice("kind", 3); Sys S(kind); AxisCollection a; a.AddAxis(h_axis("z", 3, sx_choice("edges", 3))); target(*S.s, a, 0); double t = sx_grid("t", 1, 64, 0) * std::ldexp(1, -26); if (sx_choice("sign", 2)) t = -t; ParameterDict d; if (kind == 0) { S.p = {t}; d["shift"] = t; } else if (kind == 1) { S.p = {1 + t}; d["scaleFactor"] = 1 + t; } else { S.p = {t, 1}; d["off"] = t; d["fac"] = 1; } S.s->SetParameters(d); S.s->Construct(); const BinAxis &A = a.GetAxis(0); double B = std::ldexp(1, 26);
  for (int c = 0; c < 3; c++) { double lo = S.mv(A.GetBinLowEdge(c)), hi = S.mv(A.GetBinHighEdge(c)), w = hi - lo; for (int r = 0; r < 3; r++) { double l = A.GetBinLowEdge(r), h = A.GetBinHighEdge(r); if (lo > l) l = lo; if (hi < h) h = hi; double e = S.s->GetResponse().GetComponent(r, c) * w, o = h > l ? h - l : 0; sx_close_(e * B, o * B, 1e-4, 1e-9, "each entry is the fraction of the moved bin that overlaps the destination"); } }
}
SX_HARNESS(h_uneven) { // one wide bin over many narrow ones, and many onto one
  static const double P[3][2][2] = {{{1, 7}, {-7, -1}}, {{1.5, 1.75}, {0.5, 0.75}}, {{0.5, 0.75}, {1.25, 1.5}}}; int k = sx_choice("kind", 3); Sys S(k); bool up = sx_choice("last", 2); Vd lo, hi; for (int i = 0; i < 8; i++) { lo.push_back(up ? 4 + i * 0.5 : 8 + i * 0.5); hi.push_back(lo.back() + 0.5); } if (up) { lo.push_back(8); hi.push_back(14); } else { lo.insert(lo.begin(), 2); hi.insert(hi.begin(), 8); } AxisCollection a; a.AddAxis(BinAxis("z", lo, hi)); target(*S.s, a, 0); const double *r = P[k][sx_choice("range", 2)]; double p = g("p", r[0], r[1]); ParameterDict d; if (k == 0) { S.p = {p}; d["shift"] = p; } else if (k == 1) { S.p = {p}; d["scaleFactor"] = p; } else { S.p = {0.5, p}; d["off"] = 0.5; d["fac"] = p; } S.s->SetParameters(d); run(S, a, 0);
}
