// C22: the binned likelihood
// SRC: BinnedNLLH.cpp TestStatistic.cpp BinnedEDManager.cpp BinnedEDShrinker.cpp SystematicManager.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp EventDistribution.cpp DistFiller.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp OXSXDataSet.cpp DataSet.cpp CutCollection.cpp CutLog.cpp BoxCut.cpp LineCut.cpp Cut.cpp BoolCut.cpp ConstraintManager.cpp ShapeConstraint.cpp ShapeInterpConstraint.cpp ComponentManager.cpp ParameterManager.cpp ContainerTools.cpp EventSystematicManager.cpp EventSystematic.cpp
// BOUNDS: up to 2 distributions (thorough 3) of 3 bins (5 with buffers, 2x2 and 3x3 in two dimensions), any positive contents, data and normalisations, every mixture of fitting modes, every way of handing over distributions, groups, rates and modes; one parameter-dependent diagonal systematic; 1+1 buffer bins with and without overflow, five sets of buffers on two axes; up to 2 events with a cut; two evaluations with other parameters in between; every sequence of 3 (thorough 4) changes of parameters, data, constraints, cuts, buffers and a systematic, evaluated after each or only at the end; finite Monte-Carlo treatment for any data and six settings of expectation and generated events (powers of two); single runs of many items
// OUTSIDE: rounding beyond 1e-9; non-diagonal systematics (C15 to C19)
// ASSUME: log is a function (equal arguments, equal results)
#include "hx.h"
#include <BinnedED.h>
#include <BinnedNLLH.h>
#include <BoxCut.h>
#include <Event.h>
#include <Exceptions.h>
#include <LineCut.h>
#include <memory>
#include <OXSXDataSet.h>
#include <SparseMatrix.h>
#include <Systematic.h>
typedef std::string S; typedef std::vector<S> Vs; typedef std::vector<double> Vd;
static const char *const dn[] = {"b", "c", "a"};
static S N(int i) { return std::to_string(i); }
static BinnedED ed(int k, int n = 3) { AxisCollection a; a.AddAxis(h_axis("z", n, 0)); BinnedED d(dn[k], a); for (int i = 0; i < n; i++) d.SetBinContent(i, sx_grid(("c" + N(k) + "_" + N(i)).c_str(), 0.25, 4, -6)); d.SetObservables(Vs{"z"}); return d; }
static BinnedED dat(const S &p, int n = 3) { AxisCollection a; a.AddAxis(h_axis("z", n, 0)); BinnedED d("data", a); for (int i = 0; i < n; i++) d.SetBinContent(i, sx_grid((p + N(i)).c_str(), 0.5, 50, -6)); d.SetObservables(Vs{"z"}); return d; }
static NormFittingStatus mode(int k) { static const NormFittingStatus M[] = {FALSE, DIRECT, INDIRECT}; return M[sx_choice(("mode" + N(k)).c_str(), 3)]; }
struct Par : Systematic { // every bin's factor is its base times one plus the parameter
  S n, p; Vd f; double k = 0; Par(const S &s, const S &q, const Vd &v) : n(s), p(q), f(v) { Construct(); }
  void Construct() { SparseMatrix m(f.size(), f.size()); for (size_t i = 0; i < f.size(); i++) m.SetComponent(i, i, f[i] * (1 + k)); SetResponse(m); }
  void SetParameter(const S &, double v) { k = v; } double GetParameter(const S &) const { return k; } void SetParameters(const ParameterDict &d) { k = d.at(p); } ParameterDict GetParameters() const { ParameterDict d; d[p] = k; return d; } size_t GetParameterCount() const { return 1; }
  std::set<S> GetParameterNames() const { return std::set<S>{p}; } void RenameParameter(const S &, const S &) {} S GetName() const { return n; } void SetName(const S &s) { n = s; }
};
struct Setup { std::vector<BinnedED> p; std::vector<NormFittingStatus> m; Vd w; ParameterDict d;
  Setup(int n, int bins = 3) { for (int i = 0; i < n; i++) { p.push_back(ed(i, bins)); m.push_back(mode(i)); w.push_back(sx_grid(("n" + N(i)).c_str(), 0.5, 20, -6)); if (m[i] != FALSE) d[dn[i]] = w[i]; } }
  Vd expect(const Vd &f, size_t lo = 0, size_t hi = 0, bool over = false) const { size_t nb = p[0].GetNBins(), k = nb - lo - hi; Vd e(k, 0); for (size_t i = 0; i < p.size(); i++) { Vd c(k, 0); double in = 0; for (size_t b = 0; b < nb; b++) { long x = (long)b - lo; if (x < 0 || x >= (long)k) { if (!over) continue; x = x < 0 ? 0 : k - 1; } c[x] += p[i].GetBinContent(b) * f[b]; } for (double v : c) in += v; for (size_t b = 0; b < k; b++) e[b] += m[i] == FALSE ? c[b] : m[i] == DIRECT && (lo || hi) ? d.at(dn[i]) * c[b] / in : d.at(dn[i]) * c[b]; } return e; }
};
static double nllh(const Vd &e, const Vd &n) { double t = 0; for (size_t i = 0; i < e.size(); i++) t += e[i] - n[i] * std::log(e[i]); return t; }
static const Vd one3{1, 1, 1};
static double sq2(double v, double m, double s) { return (v - m) * (v - m) / (2 * s * s); }
SX_HARNESS(h_plain) { // expected minus observed log expected, in any mode, again and again
  Setup s(1 + sx_choice("ndists", h_thorough() ? 3 : 2)); BinnedNLLH l; if (sx_choice("each", 2)) for (size_t i = 0; i < s.p.size(); i++) l.AddPdf(s.p[i], s.m[i]); else l.AddPdfs(s.p, &s.m); BinnedED D = dat("d"); l.SetDataDist(D); l.RegisterFitComponents();
  l.SetParameters(s.d); double want = nllh(s.expect(one3), D.GetBinContents()); sx_close_tol(l.Evaluate(), want, 1e-9, "expected minus observed times log expected"); sx_close_tol(l.Evaluate(), want, 1e-9, "evaluating again gives the same");
  sx_assert(l.GetParameters() == s.d && l.GetParameterCount() == s.d.size() && l.GetParameterNames().size() == s.d.size(), "the parameters read back"); ParameterDict back = s.d; for (auto &q : s.d) q.second = q.second * 2 + 1; l.SetParameters(s.d); sx_close_tol(l.Evaluate(), nllh(s.expect(one3), D.GetBinContents()), 1e-9, "other parameters, other value"); l.SetParameters(back); sx_close_tol(l.Evaluate(), want, 1e-9, "coming back gives the same");
}
SX_HARNESS(h_vector) { Setup s(2); BinnedNLLH l; l.AddPdfs(s.p, &s.m); BinnedED D = dat("d"); l.SetDataDist(D); l.RegisterFitComponents(); l.SetNormalisations(s.w); sx_close_tol(l.Evaluate(), nllh(s.expect(one3), D.GetBinContents()), 1e-9, "normalisations given as a vector act the same"); for (int i = 0; i < 2; i++) if (s.m[i] != FALSE) sx_close(l.GetNormalisations().at(i), s.w[i], "normalisations read back"); }
SX_HARNESS(h_constraints) {
  std::vector<BinnedED> p{ed(0), ed(1)}; BinnedNLLH l; l.AddPdfs(p); BinnedED D = dat("d"); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; d["b"] = sx_grid("n0", 0.5, 20, -6); d["c"] = sx_grid("n1", 0.5, 20, -6); l.SetParameters(d); double x = d["b"], y = d["c"], want = 0; Vd e; for (int i = 0; i < 3; i++) e.push_back(x * p[0].GetBinContent(i) + y * p[1].GetBinContent(i)); double base = nllh(e, D.GetBinContents());
  switch (sx_choice("kind", 6)) {
  case 0: l.SetConstraint("b", 3, 2); want = (x - 3) * (x - 3) / 8; break;
  case 1: l.SetConstraint("b", 5, 0.5, 2); want = x >= 5 ? (x - 5) * (x - 5) / 8 : (x - 5) * (x - 5) * 2; break;
  case 2: { l.SetConstraint("b", 3, 2, "c", 4, 0.5, 0.6); double u = (x - 3) / 2, v = (y - 4) * 2; want = (u * u - 1.2 * u * v + v * v) / (2 * 0.64); break; }
  case 3: l.SetConstraint("b", "c", 1, 2); want = (x / y - 1) * (x / y - 1) / 8; break;
  case 4: { AxisCollection a; a.AddAxis(BinAxis("c", -10, 70, 2)); Histogram h(a); h.SetBinContents(Vd{2, 6}); l.SetConstraint("g", h); want = 2 + (y - 10) * 0.1; sx_assume(y > 10 && y < 50); break; }
  default: l.SetConstraint(d, [](const ParameterDict &q) { return q.at("b") + q.at("c"); }, 7, 3); want = (x + y - 7) * (x + y - 7) / 18;
  }
  sx_close_tol(l.Evaluate(), base + want, 1e-9, "the constraint's penalty is added once");
}
SX_HARNESS(h_systematic) { // a systematic with a fit parameter, on one group or on all
  Setup s(1 + sx_choice("ndists", 2)); Vd f{1.5, 0.75, 1.25}; Par p("sys", "k", f); BinnedNLLH l; bool grp = sx_choice("group", 2); if (grp) l.AddSystematic(&p, "g"); else l.AddSystematic(&p); for (size_t i = 0; i < s.p.size(); i++) if (grp) l.AddPdf(s.p[i], i ? Vs{} : Vs{"g"}, s.m[i]); else l.AddPdf(s.p[i], s.m[i]);
  BinnedED D = dat("d"); l.SetDataDist(D); l.RegisterFitComponents(); double k = s.d["k"] = sx_grid("k", -0.5, 1, -6); auto ex = [&](double q) { Vd e(3, 0); for (size_t i = 0; i < s.p.size(); i++) for (int b = 0; b < 3; b++) e[b] += (s.m[i] == FALSE ? 1 : s.d[dn[i]]) * s.p[i].GetBinContent(b) * (grp && i ? 1 : f[b] * (1 + q)); return nllh(e, D.GetBinContents()); };
  l.SetParameters(s.d); double want = ex(k); sx_close_tol(l.Evaluate(), want, 1e-9, "expectations come from the distorted distributions"); sx_assert(l.GetParameters() == s.d, "the parameters read back"); s.d["k"] = 0.25; l.SetParameters(s.d); sx_close_tol(l.Evaluate(), ex(0.25), 1e-9, "a changed systematic is applied afresh"); s.d["k"] = k; l.SetParameters(s.d); sx_close_tol(l.Evaluate(), want, 1e-9, "coming back gives the same");
}
SX_HARNESS(h_buffers) {
  Setup s(1 + (h_thorough() ? sx_choice("ndists", 2) : 0), 4); bool over = sx_choice("overflow", 2); BinnedNLLH l; for (size_t i = 0; i < s.p.size(); i++) l.AddPdf(s.p[i], s.m[i]); l.SetBuffer("z", 1, 1); l.SetBufferAsOverflow(over); sx_assert(l.GetBufferAsOverflow() == over && l.GetBuffer("z") == std::make_pair(1u, 1u), "buffers read back");
  BinnedED D = dat("d", 4); l.SetDataDist(D); l.RegisterFitComponents(); l.SetParameters(s.d); auto kept = [&](const BinnedED &q) { return over ? Vd{q.GetBinContent(0) + q.GetBinContent(1), q.GetBinContent(2) + q.GetBinContent(3)} : Vd{q.GetBinContent(1), q.GetBinContent(2)}; };
  Vd one4(4, 1); double want = nllh(s.expect(one4, 1, 1, over), kept(D)); sx_close_tol(l.Evaluate(), want, 1e-9, "buffer bins are removed from data and distributions alike"); sx_close_tol(l.Evaluate(), want, 1e-9, "evaluating again gives the same"); BinnedED E = dat("e", 4); l.SetDataDist(E); sx_close_tol(l.Evaluate(), nllh(s.expect(one4, 1, 1, over), kept(E)), 1e-9, "new data are shrunk as well");
}
SX_HARNESS(h_buffers_systematic) { Setup s(1, 4); Vd f{1.5, 0.75, 1.25, 2}; Par p("sys", "k", f); BinnedNLLH l; l.AddSystematic(&p); l.AddPdf(s.p[0], s.m[0]); l.SetBuffer("z", 1, 0); l.SetBufferAsOverflow(false); BinnedED D = dat("d", 4); l.SetDataDist(D); l.RegisterFitComponents(); s.d["k"] = 0.5; l.SetParameters(s.d); Vd g; for (double v : f) g.push_back(v * 1.5); Vd n{D.GetBinContent(1), D.GetBinContent(2), D.GetBinContent(3)}; for (int i = 0; i < 2; i++) sx_close_tol(l.Evaluate(), nllh(s.expect(g, 1, 0), n), 1e-9, "distributions are distorted before they are shrunk"); }
SX_HARNESS(h_events) { // the data come from events that pass the cuts
  Setup s(1); BinnedNLLH l; l.AddPdf(s.p[0], s.m[0]); OXSXDataSet ds; ds.SetObservableNames(Vs{"z", "y"}); Vd n(3, 0); for (int i = 0; i < 2; i++) { double x = sx_grid(("z" + N(i)).c_str(), -1, 4, -4), y = sx_grid(("y" + N(i)).c_str(), -2, 2, -4); ds.AddEntry(Event(Vd{x, y})); if (y > -1 && y < 1) n[x < 1 ? 0 : x < 2 ? 1 : 2] += 1; }
  l.AddCut(BoxCut("box", "y", -1, 1)); l.SetDataSet(&ds); sx_assert(l.GetDataSet() == &ds, "the data set reads back"); l.RegisterFitComponents(); l.SetParameters(s.d); sx_close_tol(l.Evaluate(), nllh(s.expect(one3), n), 1e-9, "observed counts are the events passing the cuts"); sx_assert(l.GetDataDist().GetBinContents() == n, "the binned data read back");
  OXSXDataSet other; other.SetObservableNames(Vs{"z", "y"}); other.AddEntry(Event(Vd{1.5, 0})); l.SetDataSet(&other); sx_close_tol(l.Evaluate(), nllh(s.expect(one3), Vd{0, 1, 0}), 1e-9, "a new data set replaces the old");
}
SX_HARNESS(h_projected) { // distributions carry an extra axis the data do not have
  AxisCollection a = h_axes({2, 2}); BinnedED p("b", a); Vd c; for (int i = 0; i < 4; i++) c.push_back(sx_grid(("c" + N(i)).c_str(), 0.25, 4, -6)); p.SetBinContents(c); p.SetObservables(Vs{"z", "y"}); BinnedNLLH l; NormFittingStatus m = mode(0); l.AddPdf(p, m); bool y = sx_choice("axis", 2); AxisCollection b; b.AddAxis(a.GetAxis(y ? 1 : 0)); BinnedED D("d", b); Vd n{sx_grid("d0", 0.5, 50, -6), sx_grid("d1", 0.5, 50, -6)}; D.SetBinContents(n); D.SetObservables(Vs{y ? "y" : "z"}); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; double w = 1; if (m != FALSE) d["b"] = w = sx_grid("n", 0.5, 20, -6); l.SetParameters(d);
  Vd e = y ? Vd{w * (c[0] + c[2]), w * (c[1] + c[3])} : Vd{w * (c[0] + c[1]), w * (c[2] + c[3])}; for (int i = 0; i < 2; i++) sx_close_tol(l.Evaluate(), nllh(e, n), 1e-9, "distributions are projected onto the data's observables");
}
// finite Monte-Carlo treatment: beta solves b^2 + (mu s2 - 1) b - n s2 = 0, s2 = sum_j norm_j / (rate_j mu^2)
static double bb(double mu, double n, double s2) { double b = mu * s2 - 1, r = std::sqrt(b * b + 4 * n * s2), beta = b < 0 ? -0.5 * (b - r) : n * s2 / (0.5 * (b + r)), e = beta * mu; return e - n * std::log(e) + (beta - 1) * (beta - 1) / (2 * s2); }
SX_HARNESS(h_finite_mc) {
  static const double C[][5] = {{1, 2, 4, 8, 64}, {1, 2, 4, 24, 2}, {4, 1, 48, 4, 1024}, {0.5, 0.25, 6, 1, 1}, {0.25, 1, 1, 12, 4}, {2, 2, 24, 8, 16}}; const double *c = C[sx_choice("set", 6)]; BinnedNLLH l; l.SetBarlowBeeston(true); AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); BinnedED p("b", a), q("c", a); p.SetBinContents(Vd{c[0], c[1]}); q.SetBinContents(Vd{c[2], c[3]}); p.SetObservables(Vs{"z"}); q.SetObservables(Vs{"z"}); int g = c[4]; bool two = sx_choice("two", 2); if (two && sx_choice("list", 2)) l.AddPdfs(std::vector<BinnedED>{p, q}, std::vector<int>{g, 4 * g}); else { l.AddPdf(p, g); if (two) l.AddPdf(q, 4 * g); }
  BinnedED D("d", a); Vd n{sx_grid("d0", 0.5, 50, -6), sx_grid("d1", 0.5, 50, -6)}; D.SetBinContents(n); D.SetObservables(Vs{"z"}); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; d["b"] = 2; if (two) d["c"] = 0.5; l.SetParameters(d); double want = 0; double W = 2, X = 0.5; for (int i = 0; i < 2; i++) { double mu = 2 * c[i] + (two ? 0.5 * q.GetBinContent(i) : 0), s2 = (W / g + (two ? X / (4. * g) : 0)) / (mu * mu); want += bb(mu, n[i], s2); } sx_close_tol(l.Evaluate(), want, 1e-9, "each bin uses the positive root with its penalty");
}
SX_HARNESS(h_finite_mc_empty) { // without data: the root is 0, or 1 - mu s2 where that is positive
  bool big = sx_choice("big", 2); int g = 1 + 3 * sx_choice("rate", 2); double mu = (big ? sx_grid("mu", 1.25, 8, -6) : sx_grid("mu", 0.25, 0.75, -6)) / g; BinnedNLLH l; l.SetBarlowBeeston(true); AxisCollection a; a.AddAxis(h_axis("z", 1, 0)); BinnedED p("b", a), D("d", a); p.SetBinContent(0, mu); D.SetBinContent(0, 0); p.SetObservables(Vs{"z"}); D.SetObservables(Vs{"z"}); l.AddPdf(p, g, DIRECT); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; d["b"] = 1; l.SetParameters(d); double s2 = 1 / (g * mu * mu), r = l.Evaluate(); // mu s2 = 1 / (g mu)
  if (big) { double beta = 1 - mu * s2; sx_close_tol(r, beta * mu + (beta - 1) * (beta - 1) / (2 * s2), 1e-9, "an empty bin keeps the larger root"); } else sx_close_tol(r, 1 / (2 * s2), 1e-9, "an empty bin's root is never negative");
}
SX_HARNESS(h_ways) { // every way of handing over distributions, groups, rates and fitting modes means the same
  int way = sx_choice("way", 12); bool bbm = sx_choice("bb", 2), modes = sx_choice("modes", 2), shared = sx_choice("shared", 2); Setup s(0); for (int i = 0; i < 2; i++) { s.p.push_back(ed(i, 2)); s.m.push_back(modes ? (i ? DIRECT : FALSE) : DIRECT); } NormFittingStatus m0 = s.m[0], m1 = s.m[1];
  if (!modes) { BinnedNLLH def; def.AddPdf(s.p[0]); def.RegisterFitComponents(); s.m[0] = s.m[1] = def.GetParameterCount() ? DIRECT : FALSE; } std::vector<NormFittingStatus> *M = modes ? &s.m : nullptr; std::vector<NormFittingStatus> mine{m0, m1}; if (modes) M = &mine;
  Vd f{1.5, 0.75}; Par p("sys", "k", f); BinnedNLLH l; if (bbm) l.SetBarlowBeeston(true); std::vector<int> g{4, 16}; std::vector<Vs> gr{Vs{"g"}, shared ? Vs{"h"} : Vs{}}; bool grp = way % 4 >= 2, rate = way % 2; sx_assume(!bbm || rate); if (!grp) sx_assume(!shared);
  if (grp) l.AddSystematic(&p, "g"); if (grp && shared) l.AddSystematic(&p, "h");
  if (way < 4) { if (grp && rate) l.AddPdfs(s.p, gr, g, M); else if (grp) l.AddPdfs(s.p, gr, M); else if (rate) l.AddPdfs(s.p, g, M); else l.AddPdfs(s.p, M); }
  else for (int i = 0; i < 2; i++) { NormFittingStatus m = mine[i]; if (modes || way < 8) { if (!modes) sx_assume(false); if (grp && rate) l.AddPdf(s.p[i], gr[i], g[i], m); else if (grp) l.AddPdf(s.p[i], gr[i], m); else if (rate) l.AddPdf(s.p[i], g[i], m); else l.AddPdf(s.p[i], m); } else { if (grp && rate) l.AddPdf(s.p[i], gr[i], g[i]); else if (grp) l.AddPdf(s.p[i], gr[i]); else if (rate) l.AddPdf(s.p[i], g[i]); else l.AddPdf(s.p[i]); } }
  if (modes && way >= 8) sx_assume(false); BinnedED D = dat("d", 2); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; double w[2] = {1, 1}; for (int i = 0; i < 2; i++) if (s.m[i] != FALSE) { w[i] = 1 << (1 + i); d[dn[i]] = w[i]; } if (grp) d["k"] = 0.5;
  std::set<S> names; for (auto &q : d) names.insert(q.first); sx_assert(l.GetParameterNames() == names && l.GetParameterCount() == names.size(), "the parameters are the normalisations and each systematic's, once"); l.SetParameters(d); sx_assert(l.GetParameters() == d, "the parameters read back");
  Vd e(2, 0), s2(2, 0); for (int i = 0; i < 2; i++) for (int b = 0; b < 2; b++) { e[b] += w[i] * s.p[i].GetBinContent(b) * (grp && (!i || shared) ? f[b] * 1.5 : 1); s2[b] += w[i] / g[i]; }
  if (!bbm) sx_close_tol(l.Evaluate(), nllh(e, D.GetBinContents()), 1e-9, "the value does not depend on how the distributions were handed over");
}
SX_HARNESS(h_ways_rates) { // the generated events reach the value whichever way they are handed over
  int way = sx_choice("way", 4); Par ps("sys", "k", Vd{2, 0.5}); BinnedNLLH l; l.SetBarlowBeeston(true); AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); BinnedED p("b", a), q("c", a), D("d", a); p.SetBinContents(Vd{2, 8}); q.SetBinContents(Vd{1, 24}); p.SetObservables(Vs{"z"}); q.SetObservables(Vs{"z"}); l.AddSystematic(&ps, "g"); std::vector<BinnedED> v{p, q}; std::vector<Vs> gr{Vs{"g"}, Vs{}}; std::vector<int> g{4, 16}; std::vector<NormFittingStatus> m{DIRECT, FALSE};
  if (way == 0) l.AddPdfs(v, gr, g, &m); else if (way == 1) for (int i = 0; i < 2; i++) l.AddPdf(v[i], gr[i], g[i], m[i]); else if (way == 2) l.AddPdfs(v, g, &m); else for (int i = 0; i < 2; i++) l.AddPdf(v[i], g[i], m[i]);
  Vd n{sx_grid("d0", 0.5, 50, -6), sx_grid("d1", 0.5, 50, -6)}; D.SetBinContents(n); D.SetObservables(Vs{"z"}); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; d["b"] = 2; d["k"] = 0; l.SetParameters(d); double want = 0; for (int i = 0; i < 2; i++) { double mu = 2 * v[0].GetBinContent(i) * (way < 2 ? i ? 0.5 : 2 : 1) + v[1].GetBinContent(i); want += bb(mu, n[i], (2. / 4 + 25. / 16) / (mu * mu)); } sx_close_tol(l.Evaluate(), want, 1e-9, "each distribution's own generated events enter");
}
SX_HARNESS(h_managers) { // managers made elsewhere do what those filled through the likelihood do
  Setup s(2); Vd f{1.5, 0.75, 1.25}; Par p("sys", "k", f); BinnedNLLH l; BinnedEDManager em; em.AddPdfs(s.p, &s.m); SystematicManager sm; sm.Add(&p, "g"); sm.AddDist(s.p[0], Vs{"g"}); sm.AddDist(s.p[1], Vs{}); ConstraintManager cm; cm.SetConstraint("k", 1, 2); CutCollection cc; cc.AddCut(LineCut("c", "z", 2, "upper")); bool before = sx_choice("before", 2);
  if (before) { BinnedED o = ed(2); l.AddPdf(o, DIRECT); l.SetConstraint("k", 5, 1); l.AddCut(LineCut("no", "z", -5, "upper")); l.RegisterFitComponents(); } // replaced by what follows
  l.SetPdfManager(em); l.SetSystematicManager(sm); l.SetConstraintManager(cm); sx_assert(l.GetSystematicManager().GetNSystematics() == 1, "the systematics are those handed over");
  bool own = sx_choice("events", 2); Vd n; OXSXDataSet ds; BinnedED D = dat("d"); if (own) { n = D.GetBinContents(); l.SetDataDist(D); } else { ds.SetObservableNames(Vs{"z"}); for (double z : {0.5, 1.5, 1.25, 2.5}) ds.AddEntry(Event(Vd{z})); l.SetCuts(cc); l.SetDataSet(&ds); n = Vd{1, 2, 0}; }
  sx_assert(l.GetCuts().GetCutNames() == (own ? (before ? Vs{"no"} : Vs{}) : Vs{"c"}), "the cuts are those handed over");
  l.RegisterFitComponents(); double k = s.d["k"] = sx_grid("k", -0.5, 1, -6); std::set<S> nm; for (auto &q : s.d) nm.insert(q.first); sx_assert(l.GetParameterNames() == nm && l.GetParameterCount() == nm.size(), "the parameters are those of the managers handed over"); l.SetParameters(s.d); sx_assert(l.GetParameters() == s.d, "the parameters read back");
  Vd e(3, 0); for (int b = 0; b < 3; b++) for (int i = 0; i < 2; i++) e[b] += (s.m[i] == FALSE ? 1 : s.d[dn[i]]) * s.p[i].GetBinContent(b) * (i ? 1 : f[b] * (1 + k)); for (int again = 0; again < 2; again++) sx_close_tol(l.Evaluate(), nllh(e, n) + sq2(k, 1, 2), 1e-9, "managers handed over take the place of the likelihood's own");
}
SX_HARNESS(h_bookkeeping) { BinnedNLLH l; sx_assert(l.GetSignalCutEfficiency() == 1 && !l.GetDebugMode(), "nothing is cut to begin with"); double x = sx_double("eff", 0, 1); l.SetSignalCutEfficiency(x); sx_assert(l.GetSignalCutEfficiency() == x, "the signal efficiency reads back"); CutLog g(Vs{"a", "b"}); g.LogCut(1); g.LogPass(); g.CalculateMeta(); l.SetSignalCutLog(g); CutLog r = l.GetSignalCutLog(); sx_assert(r.GetCutNames() == g.GetCutNames() && r.GetCutCounts() == g.GetCutCounts(), "the signal cut log reads back"); unsigned lo = sx_choice("lo", 4), hi = sx_choice("hi", 4); l.SetBuffer("z", lo, hi); sx_assert(l.GetBuffer("z") == std::make_pair(lo, hi), "the buffer reads back"); bool f = sx_choice("f", 2); l.SetBufferAsOverflow(f); sx_assert(l.GetBufferAsOverflow() == f, "the overflow flag reads back"); l.SetDebugMode(f); sx_assert(l.GetDebugMode() == f, "the debug flag reads back"); ComponentManager c; Par p("s", "k", one3); c.AddComponent(&p); l.SetComponentManager(c); sx_assert(l.GetParameterNames() == std::set<S>{"k"}, "components handed over are fitted"); }
SX_HARNESS(h_refused) {
  BinnedED p = ed(0), D = dat("d"); BinnedNLLH l; ParameterDict d; d["b"] = 1;
  switch (sx_choice("case", 6)) {
  case 0: l.AddPdf(p); l.RegisterFitComponents(); l.SetParameters(d); SX_THROWS(LogicError, l.Evaluate(), "missing data are refused"); break;
  case 1: { int z = sx_choice("bin", 3); p.SetBinContent(z, 0); if (sx_choice("nodata", 2)) D.SetBinContent(z, 0); l.AddPdf(p, DIRECT); l.SetDataDist(D); l.RegisterFitComponents(); l.SetParameters(d); SX_THROWS(std::runtime_error, l.Evaluate(), "an empty expectation is refused"); break; }
  case 2: { std::vector<NormFittingStatus> m{DIRECT, FALSE}; SX_THROWS(DimensionError, l.AddPdfs(std::vector<BinnedED>{p}, &m), "a wrong number of modes is refused"); SX_THROWS(DimensionError, l.AddPdfs(std::vector<BinnedED>{p}, std::vector<Vs>{Vs{}}, &m), "a wrong number of modes is refused"); SX_THROWS(DimensionError, l.AddPdfs(std::vector<BinnedED>{p}, std::vector<Vs>{Vs{}}, std::vector<int>{1}, &m), "a wrong number of modes is refused"); SX_THROWS(DimensionError, l.AddPdfs(std::vector<BinnedED>{p}, std::vector<int>{1}, &m), "a wrong number of modes is refused"); SX_THROWS(DimensionError, l.AddPdfs(std::vector<BinnedED>{p}, std::vector<Vs>{}), "a wrong number of groups is refused"); SX_THROWS(DimensionError, l.AddPdfs(std::vector<BinnedED>{p}, std::vector<Vs>{Vs{}, Vs{}}, std::vector<int>{1}), "a wrong number of groups is refused"); break; }
  case 3: l.SetBarlowBeeston(true); SX_THROWS(OXSXException, l.AddPdf(p), "finite Monte-Carlo needs generated rates"); SX_THROWS(OXSXException, l.AddPdf(p, Vs{}), "finite Monte-Carlo needs generated rates"); SX_THROWS(OXSXException, l.AddPdfs(std::vector<BinnedED>{p}), "finite Monte-Carlo needs generated rates"); SX_THROWS(OXSXException, l.AddPdfs(std::vector<BinnedED>{p}, std::vector<Vs>{Vs{}}), "finite Monte-Carlo needs generated rates"); break;
  case 4: l.AddPdf(p); l.SetDataDist(D); l.RegisterFitComponents(); SX_THROWS(ParameterError, l.SetParameters(ParameterDict{{"zz", 1.}}), "missing parameters are refused"); break;
  default: { std::vector<Systematic *> v; Par s("s", "k", one3); v.push_back(&s); SX_THROWS(DimensionError, l.AddSystematics(v, Vs{}), "a wrong number of groups is refused"); l.AddSystematics(v, Vs{"g"}); l.AddPdf(p, Vs{"g"}); l.RegisterFitComponents(); sx_assert(l.GetParameterNames() == (std::set<S>{"b", "k"}), "the parameters are the normalisations and the systematics'"); }
  }
}
SX_HARNESS(h_history) { // any sequence of changes; what was evaluated before leaves no trace
  Setup s(1); s.p.push_back(ed(1)); s.m.push_back(DIRECT); s.w.push_back(2); s.d[dn[1]] = 2; Vd f{1.5, 0.75, 1.25}; Par p("sys", "k", f); BinnedNLLH l; l.AddSystematic(&p, "g"); l.AddPdf(s.p[0], Vs{"g"}, s.m[0]); l.AddPdf(s.p[1], Vs{}, s.m[1]);
  BinnedED D = dat("d"); Vd n = D.GetBinContents(); l.SetDataDist(D); l.RegisterFitComponents(); s.d["k"] = 0.25; l.SetParameters(s.d); double m0 = 0, w0 = 0; bool con = false, cut = false; size_t lo = 0; OXSXDataSet ds; ds.SetObservableNames(Vs{"z"}); ds.AddEntry(Event(Vd{0.5})); ds.AddEntry(Event(Vd{1.5})); ds.AddEntry(Event(Vd{2.5})); ds.AddEntry(Event(Vd{2.25}));
  bool every = sx_choice("every", 2); int K = h_thorough() ? 4 : 3;
  for (int k = 0; k < K; k++) {
    switch (sx_choice(("op" + N(k)).c_str(), 8)) {
    case 0: s.d[dn[1]] = 3 + k; l.SetParameters(s.d); break;
    case 1: s.d["k"] = 0.5 + k; l.SetParameters(s.d); break;
    case 2: { BinnedED E = D; n = Vd{1. + k, 2, 3}; E.SetBinContents(n); l.SetDataDist(E); if (lo) n.erase(n.begin()); break; }
    case 3: con = true; m0 = 1 + k; w0 = 2; l.SetConstraint(dn[1], m0, w0); break;
    case 4: n = cut ? Vd{1, 1, 0} : Vd{1, 1, 2}; l.SetDataSet(&ds); if (lo) n.erase(n.begin()); break;
    case 5: if (!cut) { l.AddCut(LineCut("c", "z", 2, "upper")); cut = true; } l.SetDataSet(&ds); n = Vd{1, 1, 0}; if (lo) n.erase(n.begin()); break; // a cut, then data
    case 6: { l.SetBuffer("z", 1, 0); l.SetBufferAsOverflow(false); lo = 1; l.SetDataDist(D); n = D.GetBinContents(); n.erase(n.begin()); break; }
    default: { SX_THROWS(ParameterError, l.SetParameters(ParameterDict{{"zz", 1.}}), "missing parameters are refused"); break; }
    }
    if (!every && k + 1 < K) continue;
    Vd e(3, 0); if (lo && s.m[0] == DIRECT) continue; // its renormalisation is the subject of h_buffers_systematic
    double kept = lo ? s.p[1].GetBinContent(1) + s.p[1].GetBinContent(2) : 1;
    for (int b = 0; b < 3; b++) e[b] = (s.m[0] == FALSE ? 1 : s.d[dn[0]]) * s.p[0].GetBinContent(b) * f[b] * (1 + s.d["k"]) + s.d[dn[1]] * s.p[1].GetBinContent(b) / kept;
    if (lo) e.erase(e.begin());
    double want = nllh(e, n) + (con ? sq2(s.d[dn[1]], m0, w0) : 0); sx_close_tol(l.Evaluate(), want, 1e-9, "the value is that of the present data, parameters and constraints");
  }
}
SX_HARNESS(h_many) { // twelve distributions under five systematics, names alike
  AxisCollection a; a.AddAxis(h_axis("z", 4, 1)); std::vector<BinnedED> p; std::vector<NormFittingStatus> m; std::vector<Vs> gr; ParameterDict d; BinnedNLLH l; std::vector<std::unique_ptr<Par>> s; static const char *const G[] = {"", "g", "G", "g_1", "g_10"}; for (int i = 0; i < 5; i++) { Vd f; for (int b = 0; b < 4; b++) f.push_back(0.5 + 0.25 * ((i * 3 + b * 5) % 7)); s.emplace_back(new Par("s_" + N(i), "k_" + N(i), f)); }
  for (int i = 0; i < 5; i++) { int j = (i * 3 + 2) % 5; l.AddSystematic(s[j].get(), G[j]); d["k_" + N(j)] = j == 3 ? sx_grid("k", -0.5, 0.5, -4) : 0.125 * j - 0.25; } Vd w;
  for (int i = 0; i < 12; i++) { BinnedED q(i == 2 ? "n" : i == 9 ? "N_1" : "n_" + N(i), a); for (int b = 0; b < 4; b++) q.SetBinContent(b, 1 + (i * 7 + b * 3) % 11); q.SetObservables(Vs{"z"}); p.push_back(q); m.push_back(i % 3 == 0 ? FALSE : i % 3 == 1 ? DIRECT : INDIRECT); Vs g; for (int j = 0; j < i % 3; j++) g.push_back(G[1 + (i + j) % 4]); gr.push_back(g); w.push_back(i % 3 ? sx_grid(("n" + N(i)).c_str(), 0.5, 4, -4) : 1); if (i % 3) d[q.GetName()] = w[i]; }
  bool one = sx_choice("one", 2); if (one) for (int i = 0; i < 12; i++) l.AddPdf(p[i], gr[i], m[i]); else l.AddPdfs(p, gr, &m); BinnedED D("data", a); Vd n; for (int b = 0; b < 4; b++) n.push_back(sx_grid(("d" + N(b)).c_str(), 0.5, 50, -4)); D.SetBinContents(n); D.SetObservables(Vs{"z"}); l.SetDataDist(D); l.SetConstraint("n_10", 2, 0.5); l.SetConstraint("k_3", 0, 0.25); l.RegisterFitComponents(); sx_assert(l.GetParameterCount() == d.size(), "the parameters are the normalisations and each systematic's, once"); l.SetParameters(d); sx_assert(l.GetParameters() == d, "the parameters read back");
  auto want = [&] { Vd e(4, 0); for (int i = 0; i < 12; i++) for (int b = 0; b < 4; b++) { double x = p[i].GetBinContent(b); for (int j = 0; j < 5; j++) { bool in = j == 0; for (auto &g : gr[i]) in |= g == G[j]; if (in) x *= s[j]->f[b] * (1 + d["k_" + N(j)]); } e[b] += (m[i] == FALSE ? 1 : d[p[i].GetName()]) * x; } return nllh(e, n) + sq2(d["n_10"], 2, 0.5) + sq2(d["k_3"], 0, 0.25); };
  for (int again = 0; again < 2; again++) { sx_close_tol(l.Evaluate(), want(), 1e-9, "the value is the extended likelihood plus constraints"); d["n_1"] = 3; d["k_2"] = 0.125; l.SetParameters(d); }
}
SX_HARNESS(h_buffers_2d) { // buffers on either axis, on both, or none on one of them
  static const unsigned B[][4] = {{0, 0, 1, 0}, {1, 1, 0, 0}, {0, 1, 0, 1}, {1, 0, 1, 1}, {2, 0, 0, 0}}; const unsigned *u = B[sx_choice("buffers", 5)]; bool over = sx_choice("overflow", 2); NormFittingStatus m = mode(0); AxisCollection a = h_axes({3, 3}); auto mk = [&](const S &n, const S &pre, double lo, double hi) { BinnedED d(n, a); Vd c; for (int i = 0; i < 9; i++) c.push_back(pre == "q" ? 1 + i % 4 : sx_grid((pre + N(i)).c_str(), lo, hi, -4)); d.SetBinContents(c); d.SetObservables(Vs{"z", "y"}); return d; };
  BinnedED p = mk("b", "c", 0.25, 4), q = mk("c", "q", 0, 0), D = mk("data", "d", 0.5, 50); BinnedNLLH l; l.AddPdf(p, m); l.AddPdf(q, FALSE); l.SetBuffer("z", u[0], u[1]); l.SetBuffer("y", u[2], u[3]); l.SetBufferAsOverflow(over); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; double w = 1; if (m != FALSE) d["b"] = w = sx_grid("n", 0.5, 20, -4); l.SetParameters(d);
  auto shrink = [&](const BinnedED &x) { Vd r; int nz = 3 - u[0] - u[1], ny = 3 - u[2] - u[3]; r.assign(nz * ny, 0); for (int i = 0; i < 9; i++) { int z = i / 3 - (int)u[0], y = i % 3 - (int)u[2]; bool out = z < 0 || z >= nz || y < 0 || y >= ny; if (out && !over) continue; z = z < 0 ? 0 : z >= nz ? nz - 1 : z; y = y < 0 ? 0 : y >= ny ? ny - 1 : y; r[z * ny + y] += x.GetBinContent(i); } return r; };
  Vd e = shrink(p), f = shrink(q), n = shrink(D); double in = 0; for (double x : e) in += x; for (size_t i = 0; i < e.size(); i++) e[i] = w * (m == DIRECT ? e[i] / in : e[i]) + f[i]; double want = nllh(e, n); for (int again = 0; again < 2; again++) sx_close_tol(l.Evaluate(), want, 1e-9, "buffer bins are removed from data and distributions alike");
}
SX_HARNESS(h_penalties) { // each way of constraining through the likelihood, widths equal or not, set again
  BinnedED p = ed(0, 1), q = ed(1, 1); BinnedNLLH l; l.AddPdf(p); l.AddPdf(q); BinnedED D = dat("d", 1); l.SetDataDist(D); l.RegisterFitComponents(); ParameterDict d; double x = d["b"] = sx_grid("n0", 0.5, 20, -4), y = d["c"] = sx_grid("n1", 0.5, 20, -4); l.SetParameters(d); double e = x * p.GetBinContent(0) + y * q.GetBinContent(0), base = nllh(Vd{e}, D.GetBinContents()), want = 0; bool again = sx_choice("again", 2);
  switch (sx_choice("kind", 7)) {
  case 6: l.SetConstraint("b", 3, 4, 4); want = sq2(x, 3, 4); if (again) { l.SetConstraint("b", 3, 0.5, 2); want = x >= 3 ? sq2(x, 3, 2) : sq2(x, 3, 0.5); } break;
  case 0: l.SetConstraint("b", 3, 2, 2); want = sq2(x, 3, 2); if (again) { l.SetConstraint("b", 4, 0.5, 0.5); want = sq2(x, 4, 0.5); } break;
  case 1: l.SetConstraint("b", 3, 2); l.SetConstraint("c", 3, 2); want = sq2(x, 3, 2) + sq2(y, 3, 2); if (again) { l.SetConstraint("c", 3, 4); want += sq2(y, 3, 4) - sq2(y, 3, 2); } break;
  case 2: l.SetConstraint("b", 3, 2, "c", 3, 2, 0); want = sq2(x, 3, 2) + sq2(y, 3, 2); if (again) { l.SetConstraint("b", 1, 2, "c", 1, 2, 0); want = sq2(x, 1, 2) + sq2(y, 1, 2); } break;
  case 3: l.SetConstraint("b", 0, 2); want = sq2(x, 0, 2); if (again) { l.SetConstraint("b", 1, 1); want = sq2(x, 1, 1); } break;
  case 4: l.SetConstraint("b", "c", 1, 1); want = sq2(x / y, 1, 1); if (again) { l.SetConstraint("c", "b", 1, 1); want += sq2(y / x, 1, 1); } break;
  default: l.SetConstraint(d, [](const ParameterDict &q) { return q.at("b") - q.at("c"); }, 0, 1); want = sq2(x - y, 0, 1); if (again) { l.SetConstraint("b", 3, 2); want += sq2(x, 3, 2); } break;
  }
  sx_close_tol(l.Evaluate(), base + want, 1e-9, "every constraint's penalty is added once");
}
SX_HARNESS(h_two_groups) { // a systematic in two groups, another in one of them
  Setup s(2); Vd f{1.5, 0.75, 1.25}, g{0.5, 2, 1}; Par p("sys", "k", f), q("other", "m", g); BinnedNLLH l; int at = sx_choice("where", 2); S a = at ? "g" : "h", b = at ? "h" : "g"; l.AddSystematic(&p, "g"); l.AddSystematic(&p, "h"); l.AddSystematic(&q, b); l.AddPdf(s.p[0], Vs{a}, s.m[0]); l.AddPdf(s.p[1], Vs{b}, s.m[1]);
  BinnedED D = dat("d"); l.SetDataDist(D); l.RegisterFitComponents(); for (int i = 0; i < 2; i++) { S n = "_" + N(i); double k = s.d["k"] = sx_grid(("k" + n).c_str(), -0.5, 1, -6), m = s.d["m"] = sx_grid(("m" + n).c_str(), -0.5, 1, -6); l.SetParameters(s.d); sx_assert(l.GetParameters() == s.d && l.GetParameterCount() == s.d.size(), "the parameters read back"); Vd e(3, 0); for (size_t j = 0; j < 2; j++) for (int c = 0; c < 3; c++) e[c] += (s.m[j] == FALSE ? 1 : s.d[dn[j]]) * s.p[j].GetBinContent(c) * f[c] * (1 + k) * (j ? g[c] * (1 + m) : 1); sx_close_tol(l.Evaluate(), nllh(e, D.GetBinContents()), 1e-9, "every group's systematics are applied to its distributions"); }
}
