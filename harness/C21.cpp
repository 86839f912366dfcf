// C21: the constraint manager's total
// SRC: ConstraintManager.cpp ShapeConstraint.cpp ShapeInterpConstraint.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ContainerTools.cpp Combinations.cpp
// BOUNDS: every sequence of two settings of eight kinds over four parameters and their pairs, of three settings among those that can interfere (thorough: all), then one evaluation; of two (thorough three) with evaluations in between; any parameter values; widths and means fixed, distinct per setting; single runs of many items
// ASSUME: each kind's own penalty is the subject of C20; shape constraints are identified by the dictionary they are set with
#include "hx.h"
#include <ConstraintManager.h>
#include <Exceptions.h>
typedef std::vector<double> Vd; typedef std::string S;
static const S N[] = {"a", "b", "c", "d"};
static double f1(const ParameterDict &d) { return d.at("a") + 2 * d.at("b"); }
static double f2(const ParameterDict &d) { return d.at("c") - d.at("b"); }
static double sq(double v, double m, double s) { return (v - m) * (v - m) / (2 * s * s); }
static Histogram grid(const S &n, double o) { AxisCollection a; a.AddAxis(BinAxis(n, -10, 30, 2)); Histogram h(a); h.SetBinContents(Vd{1 + o, 3 + o}); return h; } // linear between 0 and 20
static ParameterDict key(const S &a, const S &b) { ParameterDict d; d[a] = 1; d[b] = 1; return d; }
struct Ref { // the oracle: which constraint holds what
  struct E { int kind; double m, s, t, u, r; }; std::map<S, E> ind; std::map<std::pair<S, S>, E> pair, ratio, frac; std::map<S, E> interp, shape;
  bool used(const S &n) const { if (ind.count(n)) return true; for (auto &p : pair) if (p.first.first == n || p.first.second == n) return true; return false; }
  double eval(const ParameterDict &d) const {
    double t = 0; for (auto &p : ind) { double v = d.at(p.first); t += sq(v, p.second.m, p.second.kind == 1 && v < p.second.m ? p.second.t : p.second.s); }
    for (auto &p : pair) { double v = d.at(p.first.first), w = d.at(p.first.second); const E &e = p.second; double x = (v - e.m) / e.s, y = (w - e.t) / e.u; t += (x * x - 2 * e.r * x * y + y * y) / (2 * (1 - e.r * e.r)); }
    for (auto &p : ratio) t += sq(d.at(p.first.first) / d.at(p.first.second), p.second.m, p.second.s);
    for (auto &p : frac) { double v = d.at(p.first.first), w = d.at(p.first.second); t += sq((v - w) / (v + w), p.second.m, p.second.s); }
    for (auto &p : interp) t += 1 + p.second.m + d.at(p.first == "g1" ? "a" : "d") * 0.1;
    for (auto &p : shape) t += sq(p.first == "ab" ? f1(d) : f2(d), p.second.m, p.second.s); return t;
  }
};
static void set(ConstraintManager &m, Ref &r, int step, int kind, int i, int j) {
  double mean = 2 + step, s = 0.5 * (step + 1), t = 2 + 0.25 * step; Ref::E e{kind, mean, s, t, 0.25 + step, 0.5 - 0.125 * step}; const S &a = N[i], &b = N[j];
  switch (kind) {
  case 0: case 1: { bool clash = false; for (auto &p : r.pair) if (p.first.first == a || p.first.second == a) clash = true; if (clash) { SX_THROWS(LogicError, (kind ? m.SetConstraint(a, mean, s, t) : m.SetConstraint(a, mean, s)), "a parameter in a pair takes no single constraint"); return; } if (kind) m.SetConstraint(a, mean, s, t); else m.SetConstraint(a, mean, s); r.ind[a] = e; return; }
  case 2: { auto k = std::make_pair(a, b); if (!r.pair.count(k) && (r.used(a) || r.used(b))) { SX_THROWS(LogicError, m.SetConstraint(a, mean, s, b, t, e.u, e.r), "a constrained parameter joins no other pair"); return; } m.SetConstraint(a, mean, s, b, t, e.u, e.r); r.pair[k] = e; return; }
  case 3: m.SetConstraint(a, b, mean, s); r.ratio[{a, b}] = e; return;
  case 4: m.SetFracConstraint(a, b, mean, s); r.frac[{a, b}] = e; return;
  case 5: { S l = i ? "g2" : "g1"; m.SetConstraint(l, grid(i ? "d" : "a", mean)); r.interp[l] = e; return; }
  case 6: if (i) { m.SetConstraint(key("b", "c"), f2, mean, s); r.shape["bc"] = e; } else { m.SetConstraint(key("a", "b"), f1, mean, s); r.shape["ab"] = e; } return;
  default: SX_THROWS_ANY(m.SetConstraint(a, mean, s, b, t, e.u, 1), "impossible correlations are refused"); return;
  }
}
static ParameterDict values() { ParameterDict d; for (auto &n : N) d[n] = sx_grid(n.c_str(), 1, 15, -6); d["unused"] = 3; return d; }
// kind and parameters of one setting: all meaningful combinations
static void pick(int c, int &k, int &i, int &j) { static const int T[][3] = {{0, 0, 1}, {0, 1, 0}, {1, 0, 1}, {1, 1, 0}, {2, 0, 1}, {2, 1, 0}, {2, 1, 2}, {2, 2, 3}, {3, 0, 1}, {3, 1, 0}, {4, 0, 1}, {4, 1, 0}, {5, 0, 0}, {5, 1, 0}, {6, 0, 0}, {6, 1, 0}, {7, 0, 1}}; k = T[c][0]; i = T[c][1]; j = T[c][2]; }
static const std::vector<int> CLASH{0, 2, 3, 4, 5, 6, 7, 8, 16}; // those that interact
static void run(int n, bool few = false) { ConstraintManager m; Ref r; for (int s = 0; s < n; s++) { int k, i, j; S l = "s" + std::to_string(s); pick(few ? CLASH[sx_choice(l.c_str(), 9)] : sx_choice(l.c_str(), 17), k, i, j); set(m, r, s, k, i, j); } ParameterDict d = values(); sx_close(m.Evaluate(d), r.eval(d), "the total holds every constraint exactly once"); ConstraintManager c = m; sx_close(c.Evaluate(d), r.eval(d), "a copy gives the same total"); }
static void watched(int n) { // evaluated after every setting, at two places
  ConstraintManager m; Ref r; ParameterDict d = values(), e; double v = 16; for (auto &q : N) e[q] = v -= 2.5; sx_assert(m.Evaluate(d) == 0, "without constraints the total is zero");
  for (int s = 0; s < n; s++) { int k, i, j; pick(sx_choice(("s" + std::to_string(s)).c_str(), 17), k, i, j); set(m, r, s, k, i, j); sx_close(m.Evaluate(e), r.eval(e), "the total follows every setting"); sx_close(m.Evaluate(d), r.eval(d), "the total follows every setting"); ConstraintManager c; c.SetConstraint("a", 1, 1); c = m; e["a"] += 0.5; sx_close(c.Evaluate(e), r.eval(e), "an assigned manager gives the same total"); sx_close(m.Evaluate(e), r.eval(e), "the total follows the parameters"); }
}
SX_HARNESS(h_watched) { watched(h_thorough() ? 3 : 2); }
SX_HARNESS(h_empty) { ConstraintManager m; sx_assert(m.Evaluate(values()) == 0, "without constraints the total is zero"); sx_assert(m.Evaluate(ParameterDict()) == 0, "without constraints no parameter is needed"); }
SX_HARNESS(h_two) { run(2); }
SX_HARNESS(h_three) { run(3, !h_thorough()); }
SX_HARNESS(h_all) { // one of each, in either order
  ConstraintManager m; Ref r; static const int O[] = {1, 7, 8, 9, 10, 12, 13, 14, 15, 0, 11}; bool back = sx_choice("back", 2); for (int s = 0; s < 11; s++) { int k, i, j; pick(O[back ? 10 - s : s], k, i, j); set(m, r, s % 3, k, i, j); } ParameterDict d = values(); sx_close(m.Evaluate(d), r.eval(d), "the total holds every constraint exactly once"); m.SetDebugMode(false); sx_close(m.Evaluate(d), r.eval(d), "evaluating again gives the same total");
}
SX_HARNESS(h_missing) { ConstraintManager m; Ref r; int k, i, j, c = sx_choice("s", 16); pick(c, k, i, j); set(m, r, 0, k, i, j); ParameterDict d = values(); SX_NOTHROW(m.Evaluate(d), "present parameters are enough"); std::set<S> need; if (k <= 1) need = {N[i]}; else if (k <= 4) need = {N[i], N[j]}; else if (k == 5) need = {i ? "d" : "a"}; else need = i ? std::set<S>{"b", "c"} : std::set<S>{"a", "b"}; for (auto &n : N) { ParameterDict e = d; e.erase(n); if (need.count(n)) SX_THROWS_ANY(m.Evaluate(e), "a missing parameter is refused"); else SX_NOTHROW(m.Evaluate(e), "only constrained parameters are needed"); } }
SX_HARNESS(h_update) { // the last setting wins, with any numbers
  ConstraintManager m; double m1 = sx_grid("m1", -9, 9, -6), m2 = sx_grid("m2", -9, 9, -6), v = sx_grid("v", -9, 9, -6); m.SetConstraint("a", m1, 2); if (sx_choice("asym", 2)) { m.SetConstraint("a", m2, 3, 4); ParameterDict d; d["a"] = v; sx_close(m.Evaluate(d), sq(v, m2, v >= m2 ? 3 : 4), "setting again replaces"); } else { m.SetConstraint("a", m2, 3); ParameterDict d; d["a"] = v; sx_close(m.Evaluate(d), sq(v, m2, 3), "setting again replaces"); }
}
SX_HARNESS(h_many) { // twelve of every kind, over names that are alike
  ConstraintManager m; ParameterDict d; std::vector<S> n; for (int i = 0; i < 12; i++) n.push_back(i == 5 ? "p" : i == 7 ? "P_1" : "p_" + std::to_string(i)); for (auto &x : n) d[x] = sx_grid(("v" + x).c_str(), 1, 15, -4); std::vector<S> u; for (int i = 0; i < 12; i++) { u.push_back("u_" + std::to_string(i)); d[u[i]] = sx_grid(u[i].c_str(), 1, 15, -4); } double want = 0;
  for (int i = 0; i < 12; i++) { double w = 0.5 * (1 << i % 3); if (i % 2) m.SetConstraint(n[i], i, w); else { m.SetConstraint(n[i], i + 8, w, 2); } double v = d[n[i]]; want += i % 2 ? sq(v, i, w) : sq(v, i + 8, v < i + 8 ? 2 : w); }
  for (int i = 0; i < 12; i += 2) { m.SetConstraint(u[i], i, 0.5, u[i + 1], 3 + i, 2, 0.5); double x = (d[u[i]] - i) / 0.5, y = (d[u[i + 1]] - 3 - i) / 2; want += (x * x - x * y + y * y) / 1.5; }
  for (int i = 0; i < 12; i++) { const S &a = n[i], &b = u[(i * 5 + 3) % 12]; if (i % 2) { m.SetConstraint(a, b, i, 2); want += sq(d[a] / d[b], i, 2); } else { m.SetFracConstraint(b, a, 0.125 * i, 0.5); want += sq((d[b] - d[a]) / (d[a] + d[b]), 0.125 * i, 0.5); } }
  sx_close(m.Evaluate(d), want, "the total holds every constraint exactly once"); int k = 1 + 2 * sx_choice("again", 6); want += sq(d[n[k]], 3, 4) - sq(d[n[k]], k, 0.5 * (1 << k % 3)); m.SetConstraint(n[k], 3, 4); sx_close(m.Evaluate(d), want, "setting again replaces"); ConstraintManager c = m; sx_close(c.Evaluate(d), want, "a copy gives the same total");
}
SX_HARNESS(h_many_pairs) { // six pairs: each can be set again, its parameters join nothing else
  ConstraintManager m; ParameterDict d; std::vector<S> u; for (int i = 0; i < 14; i++) { u.push_back("u_" + std::to_string(i)); d[u[i]] = sx_grid(u[i].c_str(), 1, 15, -4); } auto pen = [&](int i, double a, double s, double b, double t, double r) { double x = (d[u[i]] - a) / s, y = (d[u[i + 1]] - b) / t; return (x * x - 2 * r * x * y + y * y) / (2 * (1 - r * r)); };
  std::vector<double> w; for (int i = 0; i < 12; i += 2) { m.SetConstraint(u[i], i, 0.5, u[i + 1], 3 + i, 2, 0.5); w.push_back(pen(i, i, 0.5, 3 + i, 2, 0.5)); } m.SetConstraint(u[12], 1, 2); w.push_back(sq(d[u[12]], 1, 2)); int k = sx_choice("pair", 6), j = sx_choice("other", 14);
  switch (sx_choice("what", 3)) {
    case 0: m.SetConstraint(u[2 * k], 1, 4, u[2 * k + 1], 2, 0.25, -0.5); w[k] = pen(2 * k, 1, 4, 2, 0.25, -0.5); break;
    case 1: if (j < 12) SX_THROWS(LogicError, m.SetConstraint(u[j], 1, 1), "a parameter in a pair takes no single constraint"); else { m.SetConstraint(u[j], 3, 1, 2); w[6] = (j == 12 ? 0 : w[6]) + sq(d[u[j]], 3, d[u[j]] < 3 ? 2 : 1); } break;
    case 2: if (j / 2 != k || j % 2 == 0) SX_THROWS(LogicError, m.SetConstraint(u[2 * k], 1, 1, j / 2 == k ? u[13] : u[j], 1, 1, 0.25), "a constrained parameter joins no other pair"); break; }
  double want = 0; for (double x : w) want += x; sx_close(m.Evaluate(d), want, "the total holds every constraint exactly once"); }
