// C34: fit results and the running autocorrelation
// SRC: FitResult.cpp AutoCorrelationCalc.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp DenseMatrix.cpp ContainerTools.cpp
// BOUNDS: two results, every sequence of 3 (thorough 4) of setting, copying, assigning (also to itself) and destroying, any values; autocorrelations over up to 4 (thorough 5) values and queues of 1 to 3 entries, any values, with clearing in between; single runs of many items
// OUTSIDE: the text printed for values; asking for a statistic space that was never set; autocorrelations of values without spread
#include "hx.h"
#include <AutoCorrelationCalc.h>
#include <DenseMatrix.h>
#include <FitResult.h>
#include <memory>
typedef std::vector<double> Vd; typedef std::string S;
static S N(const char *p, int i) { return p + std::to_string(i); }
static int cnt = 0;
static double V() { return sx_double(N("v", cnt++).c_str(), -100, 100); }
struct M { ParameterDict best; double ext = 0; bool valid = true, hasSpace = false; size_t prec = 5; Vd space; std::vector<Vd> sample; std::map<S, Vd> p1, p2; int cov = 0; double c00 = 0, c01 = 0; };
static Histogram hist(int n, Vd &c) { AxisCollection a; a.AddAxis(BinAxis("q", 0, n, n)); Histogram h(a); c.clear(); for (int i = 0; i < n; i++) c.push_back(V()); h.SetBinContents(c); return h; }
static void set(FitResult &f, M &m, int k) {
  m.best.clear(); m.best["a"] = V(); if (k) m.best[N("b", k)] = V(); f.SetBestFit(m.best); m.ext = V(); f.SetExtremeVal(m.ext); m.valid = k == 1; f.SetValid(m.valid); m.prec = 3 + k; f.SetPrintPrecision(m.prec);
  f.SetStatSpace(hist(1 + k, m.space)); m.hasSpace = true; m.sample.assign(k + 1, Vd{V(), V()}); f.SetStatSample(m.sample); HistMap h1, h2; m.p1.clear(); m.p2.clear(); h1["a"] = hist(2, m.p1["a"]); h2[N("ab", k)] = hist(1, m.p2[N("ab", k)]); f.Set1DProjections(h1); f.Set2DProjections(h2);
  DenseMatrix c(2, 2); m.cov = 2; m.c00 = V(); m.c01 = V(); c.SetComponent(0, 0, m.c00); c.SetComponent(0, 1, m.c01); f.SetCovarianceMatrix(c);
}
static void same(const HistMap &h, const std::map<S, Vd> &m, const char *l) { bool ok = h.size() == m.size(); if (ok) for (auto &x : m) { auto it = h.find(x.first); if (it == h.end() || it->second.GetBinContents() != x.second) ok = false; } sx_assert(ok, l); }
static void check(const FitResult &f, const M &m) {
  sx_assert(f.GetBestFit() == m.best, "the best fit is the one set"); sx_assert(f.GetExtremeVal() == m.ext, "the extreme value is the one set"); sx_assert(f.GetValid() == m.valid, "the validity is the one set"); sx_assert(f.GetPrintPrecision() == m.prec, "the precision is the one set"); if (m.hasSpace) sx_assert(f.GetStatSpace().GetBinContents() == m.space, "the statistic space is the one set"); sx_assert(f.GetStatSample() == m.sample, "the sample is the one set"); same(f.Get1DProjections(), m.p1, "the projections are those set"); same(f.Get2DProjections(), m.p2, "the projections are those set");
  DenseMatrix c = f.GetCovarianceMatrix(); if (!m.cov) SX_THROWS_ANY(c.GetComponent(0, 0), "no covariance was set"); if (m.cov) sx_assert(c.GetComponent(0, 0) == m.c00 && c.GetComponent(0, 1) == m.c01, "the covariance is the one set"); }
SX_HARNESS(h_history) {
  cnt = 0; std::unique_ptr<FitResult> r[2]; M m[2]; r[0].reset(new FitResult); r[1].reset(new FitResult); if (sx_choice("start", 2)) set(*r[0], m[0], 0); check(*r[0], m[0]); int n = h_thorough() ? 4 : 3;
  for (int s = 0; s < n; s++) switch (sx_choice(N("op", s).c_str(), 6)) {
    case 0: set(*r[0], m[0], 1); break;
    case 1: set(*r[1], m[1], 2); break;
    case 2: *r[1] = *r[0]; m[1] = m[0]; break;
    case 3: { FitResult *c = new FitResult(*r[1]); r[0].reset(c); m[0] = m[1]; break; }
    case 4: { FitResult &x = *r[0]; x = *r[0]; break; }
    case 5: r[0].reset(new FitResult); m[0] = M(); break; }
  check(*r[0], m[0]); check(*r[1], m[1]); r[0].reset(); check(*r[1], m[1]); }
SX_HARNESS(h_returned) { // what was handed in or out is a copy
  cnt = 0; FitResult f; M m; { Vd c; Histogram h = hist(2, c); f.SetStatSpace(h); m.hasSpace = true; m.space = c; h.Empty(); HistMap hm; hm["a"] = hist(2, m.p1["a"]); f.Set1DProjections(hm); hm["a"].Empty(); HistMap out = f.Get1DProjections(); out["a"].Empty(); out.clear(); ParameterDict p; p["a"] = V(); m.best = p; f.SetBestFit(p); p["a"] = 1e6; Histogram o = f.GetStatSpace(); o.Empty(); } check(f, m); Histogram again(f.GetStatSpace()); f.SetStatSpace(f.GetStatSpace()); check(f, m); std::vector<FitResult> v; v.push_back(f); v.push_back(FitResult()); v.push_back(f); for (int i = 0; i < 3; i++) check(v[i], i == 1 ? M() : m); v.erase(v.begin()); check(v[1], m); check(v[0], M()); }
SX_HARNESS(h_text) { FitResult f; ParameterDict p; p["alpha"] = 1.5; p["beta_2"] = -0.0625; f.SetBestFit(p); S t = f.AsString(); sx_assert(t.find("alpha") < t.find("1.5") && t.find("1.5") < t.find("beta_2") && t.find("beta_2") < t.find("-0.0625") && t.find("-0.0625") != S::npos, "every parameter is printed with its value"); f.SetPrintPrecision(1); t = f.AsString(); sx_assert(t.find("-0.06\n") != S::npos, "the precision set is the one printed"); }
struct A { size_t n; std::vector<double> q; Vd d, w; A(size_t N) : n(N), d(N, 0.), w(N, 0.) {} void fill(double v) { q.push_back(v); if (q.size() > n) q.erase(q.begin()); double mean = 0; for (double x : q) mean += x; mean /= q.size(); for (size_t i = 0; i < q.size(); i++) { d[i] += (v - mean) * (q[q.size() - 1 - i] - mean); w[i] += (v - mean) * (v - mean); } } };
SX_HARNESS(h_autocorrelation) {
  size_t n = 1 + sx_choice("queue", 3); int k = 2 + sx_choice("fills", h_thorough() ? 4 : 3); AutoCorrelationCalc c(n); A a(n); int clear = sx_choice("clear", 3); if (clear) { c.Fill(V()); c.Fill(V()); if (clear == 2) c.Fill(V()); c.Clear(); }
  Vd all; for (int i = 0; i < k; i++) { double v = sx_grid(N("x", i).c_str(), -8, 8, -4); c.Fill(v); a.fill(v); all.push_back(v); }
  double mean = 0, sq = 0; for (double x : a.q) { mean += x; sq += x * x; } mean /= a.q.size(); sx_close(c.Mean(), mean, "the mean is that of the values held"); sx_close_tol(c.Var(), sq / a.q.size() - mean * mean, 1e-7, "the variance is that of the values held"); if (n == 1) return;
  for (size_t i = 0; i < a.q.size(); i++) sx_assume(a.w[i] > 0.0625); Vd g = c.Get(); sx_assert(g.size() == n, "one entry per lag"); sx_close_tol(g[0], 1, 1e-6, "the autocorrelation at zero lag is one"); for (size_t i = 1; i < a.q.size(); i++) sx_close_tol(g[i] * a.w[i], a.d[i], 1e-6, "the autocorrelation is that of the values filled"); }
SX_HARNESS(h_many) { // fourteen parameters alike in name
  FitResult f; ParameterDict p; HistMap h1, h2; std::map<S, Vd> m1, m2; cnt = 0; for (int i = 0; i < 14; i++) { S n = i == 3 ? "p" : i == 8 ? "P_1" : N("p_", i); p[n] = V(); h1[n] = hist(2, m1[n]); h2[n + "_p"] = hist(1, m2[n + "_p"]); } f.SetBestFit(p); f.Set1DProjections(h1); f.Set2DProjections(h2); DenseMatrix c(14, 14); std::vector<Vd> w(14, Vd(14)); for (int i = 0; i < 14; i++) for (int j = 0; j < 14; j++) { w[i][j] = (i * 31 + j * 7) % 40 - 20; c.SetComponent(i, j, w[i][j]); } f.SetCovarianceMatrix(c); std::vector<Vd> s; for (int i = 0; i < 30; i++) s.push_back(Vd{V(), 1. * i}); f.SetStatSample(s);
  FitResult g(f), k; k = g; f.SetBestFit(ParameterDict()); g.Set1DProjections(HistMap()); sx_assert(k.GetBestFit() == p && g.GetBestFit() == p, "the best fit is the one set"); same(k.Get1DProjections(), m1, "the projections are those set"); same(k.Get2DProjections(), m2, "the projections are those set"); sx_assert(k.GetStatSample() == s, "the sample is the one set"); for (int i = 0; i < 14; i++) for (int j = 0; j < 14; j++) sx_assert(k.GetCovarianceMatrix().GetComponent(i, j) == w[i][j], "the covariance is the one set");
}
SX_HARNESS(h_long_autocorrelation) { // queues of ten over forty values
  size_t n = 10; AutoCorrelationCalc c(n); A a(n); double x = sx_grid("x", -8, 8, -2); if (sx_choice("clear", 2)) { for (int i = 0; i < 13; i++) c.Fill(i * i); c.Clear(); } for (int i = 0; i < 40; i++) { double v = i == 17 ? x : ((i * 7) % 13 - 6) * 0.5; c.Fill(v); a.fill(v); } double mean = 0; for (double y : a.q) mean += y; sx_close(c.Mean() * 10, mean, "the mean is that of the values held"); Vd g = c.Get(); sx_assert(g.size() == n, "one entry per lag"); for (size_t i = 0; i < n; i++) sx_close_tol(g[i] * a.w[i], a.d[i], 1e-6, "the autocorrelation is that of the values filled"); }
