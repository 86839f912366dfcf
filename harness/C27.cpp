// C27: grid search
// SRC: GridSearch.cpp FitResult.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp DenseMatrix.cpp TestStatistic.cpp ConstraintManager.cpp ComponentManager.cpp ParameterManager.cpp ContainerTools.cpp SystematicManager.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp EventDistribution.cpp ObsSet.cpp Event.cpp CutCollection.cpp CutLog.cpp ShapeConstraint.cpp ShapeInterpConstraint.cpp
// BOUNDS: any statistic (an arbitrary value at each grid point) over every grid of up to 3 parameters and 8 points (thorough: 4 parameters, 16 points) with any dyadic minimum and step and spans that need not be a multiple of the step; maximising and minimising; searching twice with changed settings
// OUTSIDE: accumulated rounding of steps that are not dyadic (the last point may be missed then); steps of zero or against the direction of the span
#include "hx.h"
#include <Exceptions.h>
#include <GridSearch.h>
#include <TestStatistic.h>
typedef std::string S; typedef std::vector<double> Vd;
static S N(int i) { return std::to_string(i); }
static const char *const pn[] = {"p", "q", "r", "s"};
struct Table : TestStatistic { // an arbitrary value at every grid point
  std::vector<Vd> at; std::vector<S> names; Vd val; std::vector<int> seen; ParameterDict now; int reg = 0;
  double Evaluate() { for (size_t i = 0; i < val.size(); i++) { bool m = true; for (size_t k = 0; k < names.size(); k++) m = m && now[names[k]] == at[i][k]; if (m) { seen[i]++; return val[i]; } } sx_assert(false, "only grid points are evaluated"); return 0; }
  void SetParameters(const ParameterDict &p) { sx_assert(p.size() == names.size(), "all parameters are set"); now = p; } ParameterDict GetParameters() const { return now; } size_t GetParameterCount() const { return names.size(); } std::set<S> GetParameterNames() const { return std::set<S>(names.begin(), names.end()); } void RegisterFitComponents() { reg++; }
};
static void search(GridSearch &g, const std::vector<int> &n, const S &pre, bool max) {
  Table t; ParameterDict lo, hi, st; std::vector<Vd> ax; int tot = 1; bool odd = sx_choice((pre + "odd").c_str(), 2);
  for (size_t k = 0; k < n.size(); k++) { double a = sx_grid((pre + "min" + N(k)).c_str(), -8, 8, -4), w = sx_grid((pre + "step" + N(k)).c_str(), 0.25, 2, -4); Vd v{a}; for (int i = 1; i < n[k]; i++) v.push_back(v.back() + w); ax.push_back(v); S nm = pn[n.size() - 1 - k]; t.names.push_back(nm); lo[nm] = a; st[nm] = w; hi[nm] = v.back() + (odd ? w * 0.5 : 0); tot *= n[k]; }
  for (int i = 0; i < tot; i++) { Vd c; int r = i; for (size_t k = 0; k < n.size(); k++) { c.push_back(ax[k][r % n[k]]); r /= n[k]; } t.at.push_back(c); t.val.push_back(sx_grid((pre + "v" + N(i)).c_str(), -4, 4, -4)); } t.seen.assign(tot, 0);
  for (auto &q : lo) t.now[q.first] = 99; g.SetMinima(lo); g.SetMaxima(hi); g.SetStepSizes(st); g.SetMaximising(max); sx_assert(g.GetMinima() == lo && g.GetMaxima() == hi && g.GetStepSizes() == st && g.GetMaximising() == max, "settings read back"); FitResult r = g.Optimise(&t); sx_assert(t.reg == 1, "fit components are registered");
  for (int i = 0; i < tot; i++) sx_assert(t.seen[i] == 1, "every grid point is evaluated once"); double best = r.GetExtremeVal(); ParameterDict b = r.GetBestFit(); sx_assert(b.size() == n.size(), "all parameters are reported"); for (int i = 0; i < tot; i++) sx_assert(max ? t.val[i] <= best : best <= t.val[i], "no grid point is better"); sx_close(t.val[0] * 0 + (t.SetParameters(b), t.Evaluate()), best, "the best fit has the reported value"); sx_assert(g.GetFitResult().GetBestFit() == b && g.GetFitResult().GetExtremeVal() == best, "the result can be asked for again");
}
static std::vector<int> grid() { static const std::vector<std::vector<int>> G = {{1}, {2}, {3}, {2, 2}, {1, 2}, {2, 1}, {1, 1}, {3, 1}, {1, 1, 2}, {1, 2, 1}, {2, 1, 1}, {1, 3}, {4}, {2, 3}, {3, 2}, {2, 2, 1}, {1, 2, 2}, {1, 1, 1, 2}, {2, 1, 1, 2}}; return G[sx_choice("grid", h_thorough() ? 19 : 12)]; }
SX_HARNESS(h_search) { GridSearch g; auto n = grid(); search(g, n, "", sx_choice("maximise", 2)); }
SX_HARNESS(h_cube) { // eight corners, values decided at most at two places
  Table t; ParameterDict lo, hi, st; t.names = {"p", "q", "r"}; for (auto &n : t.names) { lo[n] = -1; hi[n] = 1; st[n] = 2; t.now[n] = 0; } int u = sx_choice("at", 8), w = sx_choice("other", 8); double base = sx_grid("base", -4, 4, -4), d = sx_grid("d", 0.0625, 4, -4), e = sx_grid("e", 0.0625, 4, -4); bool max = sx_choice("maximise", 2); sx_assume(d > e); for (int i = 0; i < 8; i++) { t.at.push_back({i & 1 ? 1. : -1, i & 2 ? 1. : -1, i & 4 ? 1. : -1}); t.val.push_back(base + (i == u ? (max ? d : -d) : i == w ? (max ? e : -e) : 0)); } t.seen.assign(8, 0); GridSearch g; g.SetMinima(lo); g.SetMaxima(hi); g.SetStepSizes(st); g.SetMaximising(max); const FitResult &r = g.Optimise(&t); for (int i = 0; i < 8; i++) sx_assert(t.seen[i] == 1, "every grid point is evaluated once"); sx_close(r.GetExtremeVal(), base + (max ? d : -d), "the best corner's value is reported"); ParameterDict b = r.GetBestFit(); for (int k = 0; k < 3; k++) sx_assert(b[t.names[k]] == t.at[u][k], "the best corner is reported");
}
SX_HARNESS(h_again) { GridSearch g; bool m = sx_choice("maximise", 2); search(g, {2}, "a", m); search(g, {1, 2}, "b", !m); }
SX_HARNESS(h_refused) { // dictionaries that do not agree
  Table t; t.names = {"p", "q"}; ParameterDict d; d["p"] = 0; d["q"] = sx_grid("v", -4, 4, -4); GridSearch g; ParameterDict a = d, b = d, c = d; int k = sx_choice("which", 3), how = sx_choice("how", 3); ParameterDict &x = k == 0 ? a : k == 1 ? b : c; if (how == 0) x.erase("q"); else if (how == 1) x["r"] = 1; else { x.erase("q"); x["r"] = 1; } g.SetMinima(a); g.SetMaxima(b); g.SetStepSizes(c); SX_THROWS(LogicError, g.Optimise(&t), "inconsistent dictionaries are refused");
}
SX_HARNESS(h_tiny) { // differences and values far below one, and far above
  static const double Q[] = {1. / (1ll << 30), 1. / (1ll << 60), 1ll << 30}; double q = Q[sx_choice("size", 3)]; bool max = sx_choice("maximise", 2); Table t; t.names = {"p"}; for (int i = 0; i < 3; i++) { t.at.push_back(Vd{i * 1.}); t.val.push_back(sx_grid(("v" + N(i)).c_str(), -4, 4, -4) * q); } t.seen.assign(3, 0); t.now["p"] = 9; ParameterDict lo, hi, st; lo["p"] = 0; hi["p"] = 2; st["p"] = 1; GridSearch g; g.SetMinima(lo); g.SetMaxima(hi); g.SetStepSizes(st); g.SetMaximising(max); FitResult r = g.Optimise(&t); double b = r.GetExtremeVal(); int at = 0; for (int i = 1; i < 3; i++) if (max ? t.val[i] > t.val[at] : t.val[i] < t.val[at]) at = i; sx_assert(b == t.val[at], "the best value is reported as it is"); double x = r.GetBestFit().at("p"); t.SetParameters(r.GetBestFit()); sx_assert(t.Evaluate() == b && x >= 0 && x <= 2, "the best fit has the reported value");
}
