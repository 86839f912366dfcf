// C23: sums of statistics
// SRC: StatisticSum.cpp TestStatistic.cpp ConstraintManager.cpp ComponentManager.cpp ParameterManager.cpp ContainerTools.cpp BinnedNLLH.cpp BinnedEDManager.cpp BinnedEDShrinker.cpp SystematicManager.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp EventDistribution.cpp DistFiller.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp CutCollection.cpp CutLog.cpp ShapeConstraint.cpp ShapeInterpConstraint.cpp EventSystematicManager.cpp EventSystematic.cpp
// BOUNDS: up to 3 parts over any subsets of 3 parameters with any coefficients and parameter values, formed in every way (constructor, adding, the operators, from a list, nested sums), own and parts' constraints, two settings in a row; two binned likelihoods of 2 bins sharing a normalisation; single runs of many items
// OUTSIDE: rounding beyond 1e-9; parts destroyed before the sum (documented lifetime rule)
#include "hx.h"
#include <BinnedED.h>
#include <BinnedNLLH.h>
#include <Exceptions.h>
#include <memory>
#include <StatisticSum.h>
typedef std::string S; typedef std::vector<S> Vs; typedef std::vector<double> Vd;
static S N(int i) { return std::to_string(i); }
static const char *const pn[] = {"p", "q", "r"};
struct Lin : TestStatistic { // a + sum of coefficient times parameter, plus own constraints
  ParameterDict d, c; double a; int registered = 0;
  Lin(int k, int mask) { a = sx_grid(("a" + N(k)).c_str(), -10, 10, -4); for (int i = 0; i < 3; i++) if (mask >> i & 1) { d[pn[i]] = k + i; c[pn[i]] = sx_grid(("c" + N(k) + N(i)).c_str(), -10, 10, -4); } }
  double Evaluate() { double s = a; for (auto &q : d) s += c[q.first] * q.second; return s + GetConstraintManager().Evaluate(d); }
  void SetParameters(const ParameterDict &p) { for (auto &q : d) { if (!p.count(q.first)) throw ParameterError("missing"); q.second = p.at(q.first); } }
  ParameterDict GetParameters() const { return d; } size_t GetParameterCount() const { return d.size(); } std::set<S> GetParameterNames() const { std::set<S> s; for (auto &q : d) s.insert(q.first); return s; }
  void RegisterFitComponents() { registered++; }
  double at(const ParameterDict &p) const { double s = a; for (auto &q : c) s += q.second * p.at(q.first); return s; }
};
static ParameterDict params(const S &pre) { ParameterDict p; for (int i = 0; i < 3; i++) p[pn[i]] = sx_grid((pre + N(i)).c_str(), -8, 8, -4); return p; }
static int mask(int k) { return h_thorough() ? sx_choice(("mask" + N(k)).c_str(), 8) : (int[]){1, 3, 6, 7}[sx_choice(("mask" + N(k)).c_str(), 4)]; }
static void check(StatisticSum &s, std::vector<Lin *> v, double extra) {
  std::set<S> names; for (auto *l : v) for (auto &q : l->d) names.insert(q.first); ParameterDict p = params("v"), w; for (auto &n : names) w[n] = p[n];
  sx_assert(s.GetParameterNames() == names && s.GetParameterCount() == names.size(), "the parameters are the union of the parts'"); double first = 0; { ParameterDict g = s.GetParameters(); sx_assert(g.size() == names.size(), "the parameters are the union of the parts'"); for (auto &n : names) { bool own = false; for (auto *l : v) own = own || (l->d.count(n) && l->d[n] == g[n]); sx_assert(own, "each value is a part's own"); } }
  for (auto *l : v) first += l->Evaluate(); sx_close_tol(s.Evaluate(), first + extra * s.GetParameters().size(), 1e-9, "the value is the sum of the parts' values");
  for (int k = 0; k < 2; k++) { s.SetParameters(w); double want = 0; for (auto *l : v) want += l->at(w); sx_close_tol(s.Evaluate(), want + extra * w.size(), 1e-9, "shared parameters reach every part"); sx_assert(s.GetParameters() == w, "the parameters read back"); for (auto *l : v) for (auto &q : l->d) sx_assert(q.second == w.at(q.first), "each part holds the new value"); for (auto &q : w) q.second = q.second * 0.5 - 1; }
  s.RegisterFitComponents(); for (auto *l : v) { int n = 0; for (auto *m : v) n += m == l; sx_assert(l->registered == n, "every part registers its components"); }
}
SX_HARNESS(h_two) { Lin a(0, mask(0)), b(1, mask(1)); int how = sx_choice("how", 4); std::vector<TestStatistic *> v{&a, &b}; StatisticSum s = how == 0 ? StatisticSum(a, b) : how == 1 ? a + b : how == 2 ? Sum(v) : StatisticSum(); if (how == 3) { s.AddStat(a); s.AddStat(b); } check(s, {&a, &b}, 0); }
SX_HARNESS(h_three) { // nested or flat
  Lin a(0, mask(0)), b(1, 5), c(2, h_thorough() ? mask(2) : 6); int how = sx_choice("how", 5); StatisticSum ab = a + b; std::vector<TestStatistic *> v{&a, &b, &c}; StatisticSum s = how == 0 ? ab + c : how == 1 ? StatisticSum(ab, c) : how == 2 ? c + ab : how == 3 ? Sum(v) : StatisticSum(c, ab); check(s, {&a, &b, &c}, 0); if (how == 0) { Lin only(5, 1); StatisticSum again = ab + only; sx_close_tol(ab.Evaluate(), a.Evaluate() + b.Evaluate(), 1e-9, "the summed sum is unchanged"); } }
SX_HARNESS(h_repeated) { // the same part given several times, in any way
  Lin a(0, 3), b(1, 6); Lin *L[] = {&a, &b}; StatisticSum s = sx_choice("start", 2) ? StatisticSum(a, b) : StatisticSum(); std::vector<Lin *> v; if (s.GetParameterCount()) v = {&a, &b}; int n = 1 + sx_choice("more", 3); for (int i = 0; i < n; i++) { v.push_back(L[sx_choice(("part" + N(i)).c_str(), 2)]); s.AddStat(*v.back()); } check(s, v, 0);
}
SX_HARNESS(h_same_twice) { Lin a(0, 3); StatisticSum s(a, a); check(s, {&a, &a}, 0); }
SX_HARNESS(h_one) { Lin a(0, mask(0)); std::vector<TestStatistic *> v{&a}; StatisticSum s = Sum(v); check(s, {&a}, 0); StatisticSum e; sx_assert(e.Evaluate() == 0 && e.GetParameterCount() == 0, "an empty sum is zero"); }
SX_HARNESS(h_constraints) { // the sum's own constraint, on top of the parts'
  Lin a(0, 3), b(1, 6); a.SetConstraint("p", 2, 0.5); bool both = sx_choice("both", 2), ratio = sx_choice("ratio", 2); if (both) b.SetConstraint("q", 1, 2); bool nest = sx_choice("nest", 2); Lin c(2, 1); StatisticSum s(a, b); s.SetConstraint("q", 3, 0.25); if (ratio) s.SetConstraint("p", "r", 1, 2); StatisticSum t = nest ? s + c : s; ParameterDict p = params("v"); p["r"] = sx_grid("vr", 1, 8, -4); t.SetParameters(p); auto sq = [](double v, double m, double w) { return (v - m) * (v - m) / (2 * w * w); };
  double want = a.at(p) + b.at(p) + (nest ? c.at(p) : 0) + sq(p["p"], 2, 0.5) + (both ? sq(p["q"], 1, 2) : 0) + sq(p["q"], 3, 0.25); double got = t.Evaluate(), r = p["p"] / p["r"]; if (ratio) want += sq(r, 1, 2); sx_close_tol(got, want, 1e-9, "every constraint is added once");
}
SX_HARNESS(h_refused) { Lin a(0, 3), b(1, 6); StatisticSum s(a, b); ParameterDict p; p["p"] = 1; p["q"] = 2; SX_THROWS(ParameterError, s.SetParameters(p), "missing parameters are refused"); p["r"] = sx_grid("r", -8, 8, -4); p["zz"] = 7; s.SetParameters(p); p.erase("zz"); sx_assert(s.GetParameters() == p, "foreign parameters are not taken over"); }
SX_HARNESS(h_likelihoods) { // two data sets sharing a normalisation
  AxisCollection ax; ax.AddAxis(h_axis("z", 2, 0)); auto ed = [&](const S &n, const S &pre, double lo) { BinnedED d(n, ax); for (int i = 0; i < 2; i++) d.SetBinContent(i, sx_grid((pre + N(i)).c_str(), lo, 8, -4)); d.SetObservables(Vs{"z"}); return d; };
  BinnedED b1 = ed("b", "b", 0.5), c1 = ed("c", "c", 0.5), b2 = ed("b", "e", 0.5), D = ed("data", "d", 0.5), E = ed("data", "f", 0.5); BinnedNLLH l, m; l.AddPdf(b1); l.AddPdf(c1); l.SetDataDist(D); m.AddPdf(b2); m.SetDataDist(E); m.SetConstraint("b", 4, 0.5); StatisticSum s(l, m); s.RegisterFitComponents(); ParameterDict p; p["b"] = sx_grid("nb", 0.5, 16, -4); p["c"] = sx_grid("nc", 0.5, 16, -4); double want = (p["b"] - 4) * (p["b"] - 4) * 2; for (int i = 0; i < 2; i++) { double u = p["b"] * b1.GetBinContent(i) + p["c"] * c1.GetBinContent(i), v = p["b"] * b2.GetBinContent(i); want += u - D.GetBinContent(i) * std::log(u) + v - E.GetBinContent(i) * std::log(v); }
  s.SetParameters(p); sx_close_tol(s.Evaluate(), want, 1e-9, "joint likelihoods add up"); sx_assert(s.GetParameters() == p && m.GetParameters() == (ParameterDict{{"b", p["b"]}}), "the shared normalisation reaches both"); }
SX_HARNESS(h_many) { // twelve parts over twelve parameters, each with a constraint of its own
  struct P : TestStatistic { ParameterDict d; Vd c; P(int k) { d["p_" + N(k)] = 1; d["p_" + N((k * 5 + 1) % 12)] = 2; d["p"] = 3; for (int i = 0; i < 3; i++) c.push_back(sx_grid(("c" + N(k) + "_" + N(i)).c_str(), -10, 10, -4)); SetConstraint("p_" + N(k), k, 2); } double at(const ParameterDict &p) const { double s = 0; int i = 0; for (auto &q : d) s += c[i++] * p.at(q.first); return s; }
    double Evaluate() { return at(d) + GetConstraintManager().Evaluate(d); } void SetParameters(const ParameterDict &p) { for (auto &q : d) q.second = p.at(q.first); } ParameterDict GetParameters() const { return d; } size_t GetParameterCount() const { return d.size(); } std::set<S> GetParameterNames() const { std::set<S> s; for (auto &q : d) s.insert(q.first); return s; } void RegisterFitComponents() {} };
  std::vector<std::unique_ptr<P>> v; std::vector<TestStatistic *> l; for (int i = 0; i < 12; i++) { v.emplace_back(new P(i)); l.push_back(v.back().get()); } StatisticSum s = Sum(l); s.SetConstraint("p", 1, 0.5); ParameterDict p; p["p"] = sx_grid("p", -8, 8, -4); for (int i = 0; i < 12; i++) p["p_" + N(i)] = sx_grid(("p_" + N(i)).c_str(), -8, 8, -4); s.SetParameters(p); sx_assert(s.GetParameters() == p && s.GetParameterCount() == 13, "the parameters read back"); double want = (p["p"] - 1) * (p["p"] - 1) * 2; for (int i = 0; i < 12; i++) { double x = p["p_" + N(i)]; want += v[i]->at(p) + (x - i) * (x - i) / 8; } sx_close_tol(s.Evaluate(), want, 1e-9, "the value is the sum of the parts' values");
}
SX_HARNESS(h_parameterless) { // parts without parameters still count, and so does the sum's own constraint
  Lin a(0, 0), b(1, sx_choice("any", 2)), c(2, 0); StatisticSum s(a, b); s.AddStat(c); ParameterDict key; key["free"] = 1; double k = sx_grid("k", -8, 8, -4); static double now; now = k; s.SetConstraint(key, [](const ParameterDict &) { return now; }, 2, 0.5); ParameterDict p; if (!b.d.empty()) p["p"] = sx_grid("p", -8, 8, -4); s.SetParameters(p); sx_assert(s.GetParameters() == p && s.GetParameterNames().size() == p.size(), "the parameters are the union of the parts'"); sx_close_tol(s.Evaluate(), a.a + b.at(p) + c.a + (k - 2) * (k - 2) * 2, 1e-9, "every constraint is added once"); s.SetConstraint("nosuch", 1, 1); SX_THROWS_ANY(s.Evaluate(), "a constraint on a missing parameter is refused");
}
SX_HARNESS(h_one_constrained) { // one part only, and the sum's own constraint
  Lin a(0, 3); bool own = sx_choice("own", 2); if (own) a.SetConstraint("p", 2, 0.5); int how = sx_choice("how", 3); std::vector<TestStatistic *> v{&a}; StatisticSum one, s; one.AddStat(a); if (how == 0) s = Sum(v); else s.AddStat(a); StatisticSum e, n(one, e); StatisticSum &t = how == 2 ? n : s; t.SetConstraint("q", 1, 0.25); ParameterDict p = params("v"); p.erase("r"); t.SetParameters(p); double want = a.at(p) + (p["q"] - 1) * (p["q"] - 1) * 8 + (own ? (p["p"] - 2) * (p["p"] - 2) * 2 : 0); sx_close_tol(t.Evaluate(), want, 1e-9, "every constraint is added once");
}
