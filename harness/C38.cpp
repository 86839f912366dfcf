// C38: the Minuit wrapper
// SRC: Minuit.cpp MinuitFCN.cpp FitResult.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp DenseMatrix.cpp TestStatistic.cpp ConstraintManager.cpp ComponentManager.cpp ParameterManager.cpp ContainerTools.cpp SystematicManager.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp EventDistribution.cpp ObsSet.cpp Event.cpp CutCollection.cpp CutLog.cpp ShapeConstraint.cpp ShapeInterpConstraint.cpp Combinations.cpp
// BOUNDS: statistics of 1 to 4 parameters (thorough: 5) with names of any order, with and without limits, every set of fixed and released parameters, and of 11; up to 3 evaluations at any points with any values, any of them returned as the minimum with any covariance and validity; all three methods, both directions; one minimiser used for two fits
// OUTSIDE: the search itself, which is ROOT's; a null statistic
// ASSUME: ROOT's Minuit2 is replaced by a stand-in that evaluates the function at arbitrary points inside the limits and returns an arbitrary one of them
#include "hx.h"
#include <Exceptions.h>
#include <Minuit.h>
#include <TestStatistic.h>
typedef std::string S; typedef std::vector<double> Vd; using namespace ROOT::Minuit2;
static S N(const S &p, int i) { return p + std::to_string(i); }
static const char *const pn[] = {"b", "a", "c-d", "B", "a_"}; // sorted: B a a_ b c-d
struct Stat : TestStatistic { // an arbitrary value for every evaluation
  S tag; std::set<S> names; ParameterDict now; std::vector<ParameterDict> at; Vd val; int reg = 0, early = 0;
  Stat(const S &t, const std::set<S> &n) : tag(t), names(n) {}
  double Evaluate() { if (!reg) early++; at.push_back(now); val.push_back(sx_grid(N(tag + "v", val.size()).c_str(), -64, 64, -4)); return val.back(); }
  void SetParameters(const ParameterDict &p) { now = p; } ParameterDict GetParameters() const { return now; } size_t GetParameterCount() const { return names.size(); } std::set<S> GetParameterNames() const { return names; } void RegisterFitComponents() { reg++; }
};
struct Run { MnUserParameters given; MnApplication::Kind kind; unsigned level, calls; double tol, up; std::vector<Vd> points; Vd values, cov; size_t best; bool valid; };
static std::vector<Run> runs; static int evals = 2;
ROOT::Minuit2::FunctionMinimum mn_minimise(MnApplication &a, unsigned calls, double tol) {
  Run r; S t = N("r", runs.size()); r.given = a.state; r.kind = a.kind; r.level = a.strategy.level; r.calls = calls; r.tol = tol; r.up = a.fcn.Up(); size_t n = a.state.p.size();
  for (int k = 0; k < evals; k++) { Vd x; for (size_t i = 0; i < n; i++) { const MnUserParameters::P &q = a.state.p[i]; x.push_back(q.fixed ? q.value : sx_grid((N(t + "p", k) + N("_", i)).c_str(), -8, 8, -4)); } r.points.push_back(x); r.values.push_back(a.fcn(x)); }
  r.best = sx_choice((t + "best").c_str(), evals); r.valid = sx_choice((t + "valid").c_str(), 2); for (size_t i = 0; i < n; i++) a.state.p[i].value = r.points[r.best][i];
  size_t m = a.state.VariableParameters(); for (size_t i = 0; i < m * (m + 1) / 2; i++) r.cov.push_back(sx_double(N(t + "c", i).c_str(), -100, 100));
  FunctionMinimum f; f.valid = r.valid; f.fval = r.values[r.best]; f.cov = MnUserCovariance(r.cov, m); f.up = r.up; runs.push_back(r); return f; }
struct Cfg { std::set<S> names, fixed; ParameterDict init, err, lo, hi; bool flip = false; S method = "Migrad"; unsigned calls = 0; double tol = 0.1, up = 0.5; int level = 2; };
static void fill(Cfg &c, const S &t, bool limits) { int i = 0; for (const S &n : c.names) { c.init[n] = sx_grid(N(t + "i", i).c_str(), -4, 4, -4); c.err[n] = sx_grid(N(t + "e", i).c_str(), 0.0625, 4, -4); if (limits) { c.lo[n] = sx_grid(N(t + "l", i).c_str(), -16, -8, -4); c.hi[n] = sx_grid(N(t + "h", i).c_str(), 8, 16, -4); } i++; } }
static void give(Minuit &m, const Cfg &c) { m.SetInitialValues(c.init); m.SetInitialErrors(c.err); m.SetMinima(c.lo); m.SetMaxima(c.hi); m.SetMaximising(c.flip); for (const S &n : c.fixed) m.Fix(n); }
static void check(const FitResult &f, const Stat &s, const Cfg &c, const Run &r, const Minuit &m) {
  sx_assert(s.reg >= 1 && !s.early, "the statistic's components are registered before it is evaluated"); sx_assert(r.given.p.size() == c.names.size(), "one parameter each");
  size_t i = 0, free = 0; for (const S &n : c.names) { const MnUserParameters::P &q = r.given.p[i]; sx_assert(q.value == c.init.at(n), "each parameter starts at its own initial value"); sx_assert(q.error == c.err.at(n), "each parameter has its own initial error"); sx_assert(q.fixed == (c.fixed.count(n) > 0), "exactly the fixed parameters are fixed"); free += !q.fixed;
    sx_assert(q.lower == (c.lo.size() > 0) && q.upper == (c.hi.size() > 0), "limits where given"); if (c.lo.size()) sx_assert(q.lo == c.lo.at(n) && q.hi == c.hi.at(n), "each parameter has its own limits"); i++; }
  sx_assert(s.val.size() == r.points.size(), "one evaluation per call"); for (size_t k = 0; k < r.points.size(); k++) { ParameterDict w; size_t j = 0; for (const S &n : c.names) w[n] = r.points[k][j++]; sx_assert(s.at[k] == w, "the statistic is given each parameter under its own name"); sx_assert(r.values[k] == (c.flip ? -s.val[k] : s.val[k]), "the minimiser sees the statistic, negated when maximising"); }
  ParameterDict w; i = 0; for (const S &n : c.names) w[n] = r.points[r.best][i++]; sx_assert(f.GetBestFit() == w, "the best fit is the minimum found, by name"); sx_assert(f.GetExtremeVal() == s.val[r.best], "the extreme value is the statistic's value there"); sx_assert(f.GetValid() == r.valid, "the validity is the minimiser's");
  DenseMatrix d = f.GetCovarianceMatrix(); if (free) { for (size_t a = 0; a < free; a++) for (size_t b = 0; b <= a; b++) { sx_assert(d.GetComponent(a, b) == r.cov[a * (a + 1) / 2 + b], "the covariance is the minimiser's"); sx_assert(d.GetComponent(b, a) == r.cov[a * (a + 1) / 2 + b], "the covariance is symmetric"); } SX_THROWS_ANY(d.GetComponent(free, 0), "no row for a fixed parameter"); }
  sx_assert(r.kind == (c.method == "Migrad" ? MnApplication::kMigrad : c.method == "Minimize" ? MnApplication::kMinimize : MnApplication::kSimplex), "the method is the one asked for"); sx_assert((int)r.level == c.level && r.calls == c.calls && r.tol == c.tol, "strategy, calls and tolerance are those asked for"); sx_assert(r.up == c.up, "the contour edge is the one asked for"); sx_assert(m.GetUpperContourEdge() == c.up, "the contour edge reads back after the fit");
  FitResult g = m.GetFitResult(); sx_assert(g.GetBestFit() == w && g.GetExtremeVal() == s.val[r.best] && g.GetValid() == r.valid, "the result is kept"); }
SX_HARNESS(h_fit) {
  runs.clear(); evals = 1 + sx_choice("evals", 3); Cfg c; int n = 1 + sx_choice("params", 3); for (int i = 0; i < n; i++) c.names.insert(pn[i]); fill(c, "", sx_choice("limits", 2)); c.flip = sx_choice("max", 2);
  Minuit m; give(m, c); Stat s("", c.names); const FitResult &f = m.Optimise(&s); sx_assert(runs.size() == 1, "the minimiser is run once"); check(f, s, c, runs[0], m); }
SX_HARNESS(h_fixed) { // every set of fixed parameters, some released again
  runs.clear(); evals = 1; Cfg c; int n = h_thorough() ? 5 : 4; for (int i = 0; i < n; i++) c.names.insert(pn[i]); fill(c, "", true); c.flip = sx_choice("max", 2); Minuit m; int mask = 0;
  for (int i = 0; i < n; i++) { int k = sx_choice(N("fix", i).c_str(), 3); if (k) m.Fix(pn[i]); if (k == 2) m.Release(pn[i]); if (k == 1) { c.fixed.insert(pn[i]); mask++; } } if (mask == n) return;
  m.SetInitialValues(c.init); m.SetInitialErrors(c.err); m.SetMinima(c.lo); m.SetMaxima(c.hi); m.SetMaximising(c.flip); Stat s("", c.names); const FitResult &f = m.Optimise(&s); sx_assert(runs.size() == 1, "the minimiser is run once"); check(f, s, c, runs[0], m); }
SX_HARNESS(h_many) { // eleven parameters: p_10 sorts before p_2
  runs.clear(); evals = 2; Cfg c; for (int i = 0; i < 11; i++) c.names.insert(N("p_", i)); fill(c, "", sx_choice("limits", 2)); c.flip = sx_choice("max", 2); int k = sx_choice("fixed", 3); if (k) { c.fixed.insert("p_2"); if (k == 2) c.fixed.insert("p_10"); }
  Minuit m; give(m, c); Stat s("", c.names); const FitResult &f = m.Optimise(&s); check(f, s, c, runs.at(0), m); }
SX_HARNESS(h_settings) {
  runs.clear(); evals = 2; Cfg c; c.names = {"b", "a"}; fill(c, "", true); Minuit m; sx_assert(m.GetMethod() == "Migrad" && m.GetMaxCalls() == 0 && m.GetTolerance() == 0.1 && m.GetStrategy() == 2 && !m.GetMaximising() && m.GetUpperContourEdge() == 0.5, "the defaults are those documented");
  static const char *const M[] = {"Migrad", "Minimize", "Simplex"}; c.method = M[sx_choice("method", 3)]; c.calls = sx_u64("calls", 0, 1u << 31); c.tol = sx_double("tol", 1e-6, 10); c.level = sx_choice("level", 3); c.up = sx_double("up", 0.01, 100); c.flip = sx_choice("max", 2);
  m.SetMethod(c.method); m.SetMaxCalls(c.calls); m.SetTolerance(c.tol); m.SetStrategy(c.level); m.SetUpperContourEdge(c.up); give(m, c);
  sx_assert(m.GetMethod() == c.method && m.GetMaxCalls() == c.calls && m.GetTolerance() == c.tol && m.GetStrategy() == c.level && m.GetMaximising() == c.flip && m.GetUpperContourEdge() == c.up, "settings read back"); sx_assert(m.GetMinima() == c.lo && m.GetMaxima() == c.hi, "limits read back");
  Stat s("", c.names); const FitResult &f = m.Optimise(&s); check(f, s, c, runs.at(0), m); }
SX_HARNESS(h_again) { // the same minimiser for two fits
  runs.clear(); evals = h_thorough() ? 2 : 1; Minuit m; Cfg a, b; a.names = {"b", "a"}; static const std::set<S> other[] = {{"b", "a"}, {"b", "c-d"}, {"b"}, {"b", "a", "B"}}; b.names = other[sx_choice("then", 4)]; fill(a, "x", sx_choice("limits1", 2)); fill(b, "y", sx_choice("limits2", 2)); a.flip = sx_choice("max1", 2); b.flip = sx_choice("max2", 2); b.up = a.up = sx_choice("up", 2) ? 2 : 0.5; m.SetUpperContourEdge(a.up);
  if (sx_choice("fixed", 2)) a.fixed.insert("a"); Stat s("s", a.names), t("t", b.names); give(m, a); FitResult first = m.Optimise(&s); check(first, s, a, runs.at(0), m); m.Release("a"); give(m, b); const FitResult &second = m.Optimise(&t); check(second, t, b, runs.at(1), m); sx_assert((int)s.val.size() == evals, "the first statistic is left alone"); ParameterDict w; size_t i = 0; for (const S &n : a.names) w[n] = runs[0].points[runs[0].best][i++]; sx_assert(first.GetBestFit() == w && first.GetExtremeVal() == s.val[runs[0].best], "the first result stays"); }
SX_HARNESS(h_refused) {
  runs.clear(); evals = 1; Cfg c; c.names = {"b", "a"}; fill(c, "", true); Minuit m; give(m, c); Stat s("", c.names), t("", {"b", "c"}), u("", {"b"}), v("", {"a", "b", "c"}); ParameterDict d;
  switch (sx_choice("case", 12)) {
    case 0: d = c.lo; d.erase("a"); m.SetMinima(d); SX_THROWS(LogicError, m.Optimise(&s), "a missing minimum is refused"); break;
    case 1: d = c.hi; d["c"] = 5; m.SetMaxima(d); SX_THROWS(LogicError, m.Optimise(&s), "an extra maximum is refused"); break;
    case 2: d = c.err; d.erase("b"); m.SetInitialErrors(d); SX_THROWS(LogicError, m.Optimise(&s), "a missing error is refused"); break;
    case 3: d = c.init; d["c"] = 1; m.SetInitialValues(d); SX_THROWS(LogicError, m.Optimise(&s), "an extra initial value is refused"); break;
    case 4: { d = c.lo; double x = sx_grid("x", -20, 20, -4); d["b"] = x; m.SetMinima(d); if (x >= c.hi["b"]) SX_THROWS(LogicError, m.Optimise(&s), "an empty range is refused"); else SX_NOTHROW(m.Optimise(&s), "a range is accepted"); break; }
    case 5: m.SetMethod(sx_choice("name", 2) ? "migrad" : ""); SX_THROWS(ValueError, m.Optimise(&s), "an unknown method is refused"); break;
    case 6: m.Fix("c"); SX_THROWS(LogicError, m.Optimise(&s), "fixing an unknown parameter is refused"); break;
    case 7: SX_THROWS(LogicError, m.Optimise(&t), "a statistic of other parameters is refused"); break;
    case 8: SX_THROWS(LogicError, m.Optimise(&u), "a statistic of fewer parameters is refused"); break;
    case 9: SX_THROWS(LogicError, m.Optimise(&v), "a statistic of more parameters is refused"); break;
    case 10: m.Fix("c"); m.Release("c"); SX_NOTHROW(m.Optimise(&s), "a released unknown parameter does no harm"); break;
    case 11: { d = c.hi; d["a"] = c.lo["a"]; m.SetMaxima(d); SX_THROWS(LogicError, m.Optimise(&s), "a range of no width is refused"); m.SetMaxima(c.hi); SX_NOTHROW(m.Optimise(&s), "a refused fit can be repeated"); break; }
  } if (t.val.size() + u.val.size() + v.val.size()) sx_assert(false, "a refused statistic is not evaluated"); }
SX_HARNESS(h_function) { // the function by itself and its copies
  runs.clear(); std::set<S> n = {"b", "a", "B"}; Stat s("", n); MinuitFCN f(&s, n); double up = sx_double("up", 0.01, 100); f.SetUp(up); bool flip = sx_choice("flip", 2); f.SetSignFlip(flip); sx_assert(f.GetSignFlip() == flip && f.GetUp() == up && f.Up() == up, "settings read back"); Vd x = {sx_double("x", -8, 8), sx_double("y", -8, 8), sx_double("z", -8, 8)};
  int how = sx_choice("copy", 3); MinuitFCN g(f), e; if (how == 2) e = f; if (how) f.SetUp(up + 1), f.SetSignFlip(!flip); const MinuitFCN &h = how == 0 ? f : how == 1 ? g : e; double r = h(x); ParameterDict w; w["B"] = x[0]; w["a"] = x[1]; w["b"] = x[2]; sx_assert(s.at.at(0) == w && r == (flip ? -s.val[0] : s.val[0]) && h.Up() == up, "a copy behaves as the original did"); f = f; sx_assert(f.GetUp() == (how ? up + 1 : up), "self-assignment keeps it"); MinuitFCN none; SX_THROWS(NULLPointerAccessError, none(x), "no statistic is refused"); }
