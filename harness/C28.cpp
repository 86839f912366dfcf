// C28: leapfrog, reflections, gradients, soft boundaries, Hamiltonian draws
// SRC: LeapFrog.cpp Rand.cpp ContainerTools.cpp
// BOUNDS: any potential (an arbitrary gradient at each visited point), positions, momenta; 1 to 3 parameters, up to 5 (thorough 8) steps, step sizes and masses powers of two; reflecting walls with no or constant forces from any position at several speeds or any speed from several positions, up to 4 bounces per step including exact corner hits, up to 9 in one dimension, lengths and times scaled by 2^-34 to 2^20; quadratics with any coefficients; ROOT's generator replaced by one returning any value (within 8 sigma)
// OUTSIDE: rounding beyond 1e-9; soft boundaries where exp overflows; start points outside the walls; walls that coincide
// ASSUME: exp, log are functions (equal arguments, equal results)
#include "hx.h"
#include <Gradient.h>
#include <HamiltonianSampler.h>
#include <LeapFrog.h>
#include <SigmoidBoundary.h>
#include <TRandom3.h>
typedef std::string S; typedef std::vector<double> Vd;
static S N(int i) { return std::to_string(i); }
static const char *const pn[] = {"a", "b", "c"};
static int dims() { return 1 + sx_choice("dims", 3); }
static ParameterDict vars(const char *p, int n, double lo, double hi) { ParameterDict d; for (int i = 0; i < n; i++) d[pn[i]] = sx_double((p + N(i)).c_str(), lo, hi); return d; }
static ParameterDict masses(int n) { static const double m[] = {1, 2, 0.5, 4}; int k = sx_choice("mass", 2); ParameterDict d; for (int i = 0; i < n; i++) d[pn[i]] = m[i + k]; return d; }
struct Force { // an arbitrary gradient for every call, remembering where it was asked
  int n; std::vector<ParameterDict> at, g; Force(int k) : n(k) {}
  virtual ParameterDict operator()(const ParameterDict &q) { at.push_back(q); ParameterDict r; for (int i = 0; i < n; i++) r[pn[i]] = sx_double(("g" + N(g.size()) + N(i)).c_str(), -4, 4); g.push_back(r); return r; }
};
struct Retrace { const Force &f; size_t k; Retrace(const Force &o) : f(o), k(o.g.size()) {} ParameterDict operator()(const ParameterDict &q) { k--; for (int i = 0; i < f.n; i++) sx_close_tol(q.at(pn[i]), f.at[k].at(pn[i]), 1e-9, "the way back passes the same points"); return f.g[k]; } };
SX_HARNESS(h_one_step) { int n = dims(); ParameterDict q = vars("q", n, -4, 4), p = vars("p", n, -4, 4), m = masses(n), q0 = q, p0 = p; double e = sx_choice("eps", 2) ? 0.25 : 1; Force f(n); bool many = sx_choice("form", 2); if (many) LeapFrog::Hamiltonian(q, p, m, e, f, 1); else LeapFrog::Hamiltonian(q, p, m, e, f); sx_assert(f.at.size() == 2 && q.size() == (size_t)n && p.size() == (size_t)n, "two gradients per step"); for (int i = 0; i < n; i++) { const char *k = pn[i]; double h = p0[k] - e / 2 * f.g[0][k], x = q0[k] + e * h / m[k]; sx_assert(f.at[0][k] == q0[k], "the first gradient is taken at the start"); sx_close(f.at[1][k], x, "the second gradient is taken at the end"); sx_close(q[k], x, "position follows the half-stepped momentum"); sx_close(p[k], h - e / 2 * f.g[1][k], "momentum takes the second half step"); } }
SX_HARNESS(h_many_steps) { // several steps are as many single ones
  int n = dims(), s = 1 + sx_choice("steps", h_thorough() ? 8 : 5); ParameterDict q = vars("q", n, -4, 4), p = vars("p", n, -4, 4), m = masses(n); double e = 0.5; Force f(n); ParameterDict q1 = q, p1 = p; LeapFrog::Hamiltonian(q, p, m, e, f, s); sx_assert((int)f.g.size() == s + 1, "one gradient per point");
  struct Again { const Force &f; int call = 0; ParameterDict operator()(const ParameterDict &q) { size_t k = (call++ + 1) / 2; for (int i = 0; i < f.n; i++) sx_close(q.at(pn[i]), f.at[k].at(pn[i]), "the same points are visited"); return f.g[k]; } } a{f}; for (int i = 0; i < s; i++) LeapFrog::Hamiltonian(q1, p1, m, e, a); for (int i = 0; i < n; i++) { sx_close(q[pn[i]], q1[pn[i]], "several steps are as many single ones"); sx_close(p[pn[i]], p1[pn[i]], "several steps are as many single ones"); } }
SX_HARNESS(h_reversible) { int n = dims(), s = 1 + sx_choice("steps", h_thorough() ? 8 : 5); ParameterDict q = vars("q", n, -4, 4), p = vars("p", n, -4, 4), m = masses(n), q0 = q, p0 = p; double e = 0.25; Force f(n); LeapFrog::Hamiltonian(q, p, m, e, f, s); for (auto &x : p) x.second = -x.second; Retrace r(f); LeapFrog::Hamiltonian(q, p, m, e, r, s); for (int i = 0; i < n; i++) { sx_close(q[pn[i]], q0[pn[i]], "flipping the momenta leads back"); sx_close(p[pn[i]], -p0[pn[i]], "flipping the momenta leads back"); } }
struct Zero { int n; ParameterDict operator()(const ParameterDict &) { ParameterDict r; for (int i = 0; i < n; i++) r[pn[i]] = 0; return r; } };
static double fold(double x, double lo, double hi) { double w = hi - lo; for (int i = 0; i < 40; i++) { if (x > hi) x = 2 * hi - x; else if (x < lo) x = 2 * lo - x; else return x; } (void)w; sx_assert(false, "few bounces"); return x; }
SX_HARNESS(h_free_box) { // without forces the path is a straight line folded at the walls
  int n = dims(), s = 1 + sx_choice("steps", 2); double e = 1; ParameterDict q, p, m, lo, hi; for (int i = 0; i < n; i++) { q[pn[i]] = sx_grid(("q" + N(i)).c_str(), 0, 1, -3); static const double V[] = {-2, 0, 1, 0.5, -4, 4, -0.5, 2}; p[pn[i]] = V[sx_choice(("p" + N(i)).c_str(), n == 1 ? 8 : i ? 4 : 3)]; m[pn[i]] = i == 1 ? 2 : 1; lo[pn[i]] = 0; hi[pn[i]] = 1; } ParameterDict q0 = q, p0 = p; Zero z{n}; LeapFrog::Hamiltonian(q, p, m, e, z, s, lo, hi);
  for (int i = 0; i < n; i++) { const char *k = pn[i]; sx_assert(q[k] > -1e-9 && q[k] < 1 + 1e-9, "the trajectory never leaves the walls"); sx_close(p[k] * p[k], p0[k] * p0[k], "reflection preserves kinetic energy"); sx_close(q[k], fold(q0[k] + s * e * p0[k] / m[k], 0, 1), "the path folds at the walls"); } }
SX_HARNESS(h_speed) { // any speed, from some positions
  static const double Q[] = {0, 0.25, 0.5, 1}; double q0 = Q[sx_choice("q", 4)], v = sx_grid("v", 0.5, 2.5, -6); if (sx_choice("sign", 2)) v = -v; ParameterDict q{{"a", q0}}, p{{"a", v}}, m{{"a", 1}}, lo{{"a", 0}}, hi{{"a", 1}}; Zero z{1}; LeapFrog::Hamiltonian(q, p, m, 1, z, 1, lo, hi); sx_assert(q["a"] > -1e-9 && q["a"] < 1 + 1e-9, "the trajectory never leaves the walls"); sx_close(q["a"], fold(q0 + v, 0, 1), "the path folds at the walls"); sx_close(p["a"] * p["a"], v * v, "reflection preserves kinetic energy"); }
SX_HARNESS(h_corner) { // both walls reached at the same moment, wherever the particle starts
  static const double V[] = {0.5, 1, 2, 4, 8}; double q0 = sx_grid("q", 0, 1, -6), v = V[sx_choice("v", 5)], e = 1; bool flip = sx_choice("corner", 2); double sgn = flip ? -1 : 1; ParameterDict q{{"a", q0}, {"b", flip ? 1 - q0 : q0}}, p{{"a", v}, {"b", sgn * v}}, m{{"a", 1}, {"b", 1}}, lo{{"a", 0}, {"b", 0}}, hi{{"a", 1}, {"b", 1}}; Zero z{2}; LeapFrog::Hamiltonian(q, p, m, e, z, 1, lo, hi); for (auto &x : q) sx_assert(x.second > -1e-9 && x.second < 1 + 1e-9, "the trajectory never leaves the walls"); sx_close(q["a"], fold(q0 + v, 0, 1), "the path folds at the walls"); sx_close(q["b"], flip ? 1 - q["a"] : q["a"], "both directions fold alike"); sx_close(p["a"] * p["a"], v * v, "reflection preserves kinetic energy"); }
SX_HARNESS(h_on_wall) { // starting on a wall, or ending a step on it
  bool up = sx_choice("wall", 2); static const double V[] = {-1, -0.25, 0.5, 1}; double v = V[sx_choice("v", 4)], g = sx_choice("g", 5) * 0.25 - 0.5; ParameterDict q{{"a", up ? 1. : 0.}}, p{{"a", v}}, m{{"a", 1}}, lo{{"a", 0}}, hi{{"a", 1}}; struct C { double g; ParameterDict operator()(const ParameterDict &) { return ParameterDict{{"a", g}}; } } c{g}; double x = q["a"]; LeapFrog::Hamiltonian(q, p, m, 0.5, c, 2, lo, hi); sx_assert(q["a"] > -1e-9 && q["a"] < 1 + 1e-9, "the trajectory never leaves the walls"); (void)x; }
SX_HARNESS(h_forced_box) { // with a constant force: kicks and folds alternate
  static const double V[] = {-3, -1, 0, 1, 3}; double q0 = sx_grid("q", 0, 2, -6), p0 = V[sx_choice("p", 5)], g = sx_choice("g", 3) * 4. - 4, e = 0.5; int s = 1 + sx_choice("steps", h_thorough() ? 3 : 1); ParameterDict q{{"a", q0}}, p{{"a", p0}}, m{{"a", 2}}, lo{{"a", 0}}, hi{{"a", 2}}; struct C { double g; ParameterDict operator()(const ParameterDict &) { return ParameterDict{{"a", g}}; } } c{g}; LeapFrog::Hamiltonian(q, p, m, e, c, s, lo, hi); double x = q0, y = p0; for (int i = 0; i < s; i++) { y -= e / 2 * g; double z = x + e * y / 2; if (z > 2) { z = 4 - z; y = -y; } else if (z < 0) { z = -z; y = -y; } x = z; y -= e / 2 * g; } sx_assume(x > 0.01 && x < 1.99); sx_close(q["a"], x, "kicks and reflections alternate"); if (s == 1) sx_close(p["a"], y, "the momentum turns at a wall"); }
SX_HARNESS(h_first_of_many) { // the first wall of up to four, on any scale of length and time
  static const int E[] = {0, -30, 20}; double L = std::ldexp(1, E[sx_choice("length", 3)]), T = std::ldexp(1, E[sx_choice("time", 3)]); int n = 2 + sx_choice("n", 3); static const double V[] = {1, -2, 0.5, 2}; ParameterDict q, p, m, lo, hi; S best; double bt = 1; for (int i = 0; i < n; i++) { S k = "p" + N(i); double u = sx_grid(("q" + N(i)).c_str(), 0.125, 0.875, -3), v = V[i]; q[k] = u * L; p[k] = v * L / T * (1 + i % 2); m[k] = 1 + i % 2; lo[k] = 0; hi[k] = L; double t = v > 0 ? (1 - u) / v : u / -v; if (t < bt) { bt = t; best = k; } } S d; double t; LeapFrog::FirstIntersectionTime(q, p, m, lo, hi, T, d, t); if (best == "") sx_assert(d == "", "no wall within the step"); else { sx_assert(d != "", "the first wall is found"); sx_close(t / T, bt, "the first wall is found"); double v = p.at(d) / m.at(d), x = v > 0 ? L : 0; sx_close((q.at(d) + v * t - x) / L, 0, "the first wall is found"); }
}
SX_HARNESS(h_intersections) { double w = sx_grid("w", -4, 4, -3), x = sx_grid("z", -4, 4, -3), v = sx_grid("v", 0.25, 4, -3); if (sx_choice("sign", 2)) v = -v; sx_close(LeapFrog::IntersectionTime(w, x, v) * v, w - x, "the wall is reached at that time");
  ParameterDict q{{"a", sx_grid("qa", 0.125, 0.875, -3)}, {"b", sx_grid("qb", 0.125, 0.875, -3)}}, p{{"a", 1}, {"b", sx_choice("dir", 2) ? -2 : 2}}, m{{"a", 1}, {"b", 1}}, lo{{"a", 0}, {"b", 0}}, hi{{"a", 1}, {"b", 1}}; double e = sx_grid("eps", 0.125, 1, -3); S d; double t; LeapFrog::FirstIntersectionTime(q, p, m, lo, hi, e, d, t); double ta = 1 - q["a"], tb = p["b"] > 0 ? (1 - q["b"]) / 2 : q["b"] / 2; if (e <= ta && e <= tb) sx_assert(d == "", "no wall within the step"); else { sx_assert(d == "a" || d == "b", "the first wall is found"); sx_close(t, ta < tb ? ta : tb, "the first wall is found"); sx_assert(d == (ta < tb ? "a" : "b") || ta == tb, "the first wall is found"); } }
struct Quad { // any quadratic
  int n; double c0; std::map<S, double> b, a; double ab = 0; ParameterDict d; Quad(int k) : n(k) { c0 = sx_grid("c0", -2, 2, -3); for (int i = 0; i < n; i++) { b[pn[i]] = sx_grid(("b" + N(i)).c_str(), -2, 2, -3); a[pn[i]] = sx_grid(("a" + N(i)).c_str(), -2, 2, -3); } if (n > 1) ab = sx_grid("ab", -2, 2, -3); }
  double Evaluate() { double s = c0; for (auto &q : d) s += b[q.first] * q.second + a[q.first] * q.second * q.second; if (n > 1) s += ab * d["a"] * d["b"]; return s; } void SetParameters(const ParameterDict &p) { d = p; } std::set<S> GetParameterNames() const { std::set<S> s; for (int i = 0; i < n; i++) s.insert(pn[i]); return s; }
};
SX_HARNESS(h_gradient) { int n = dims(); Quad s(n); double e = sx_choice("eps", 2) ? 0.125 : 1; Gradient<Quad> g(s, e); ParameterDict x; for (int i = 0; i < n; i++) x[pn[i]] = sx_grid(("z" + N(i)).c_str(), -4, 4, -3); ParameterDict x0 = x, r = g(x); sx_assert(r.size() == (size_t)n && x == x0, "one derivative per parameter"); for (int i = 0; i < n; i++) { const char *k = pn[i]; sx_close(r[k], s.b[k] + 2 * s.a[k] * x[k] + (n > 1 && i < 2 ? s.ab * x[pn[1 - i]] : 0), "the gradient of a quadratic is exact"); } }
SX_HARNESS(h_soft) { int n = dims(); Quad s(n); ParameterDict lo, hi, x; int which = sx_choice("limits", 4); for (int i = 0; i < n; i++) { x[pn[i]] = sx_grid(("z" + N(i)).c_str(), -2, 2, -3); if (which & 1) lo[pn[i]] = sx_grid(("lo" + N(i)).c_str(), -2, 0, -3); if (which & 2 && (i == 0 || which == 3)) hi[pn[i]] = sx_grid(("hi" + N(i)).c_str(), 0.5, 2, -3); } double mu = sx_choice("mu", 2) ? 2 : 0.5; SigmoidBoundary<Quad> b(s, lo, hi, mu); b.SetParameters(x); double want = s.Evaluate(); for (auto &l : lo) want += std::log(1 + std::exp(-mu * (x[l.first] - l.second))); for (auto &l : hi) want += std::log(1 + std::exp(mu * (x[l.first] - l.second))); sx_assert(s.d == x, "the statistic is at the given parameters"); for (int i = 0; i < 2; i++) sx_close(b.Evaluate(), want, "the penalty of every limit is added once"); sx_assert(b.GetParameterNames() == s.GetParameterNames(), "the parameters are the statistic's"); }
struct Slope { std::map<S, double> b; ParameterDict d; double Evaluate() { double s = 0; for (auto &q : d) s += b[q.first] * q.second; return s; } void SetParameters(const ParameterDict &p) { d = p; } std::set<S> GetParameterNames() const { std::set<S> s; for (auto &q : b) s.insert(q.first); return s; } };
SX_HARNESS(h_draw) { // one Hamiltonian proposal in a linear potential
  int n = dims(), s = 1 + sx_choice("steps", 2); Slope st; ParameterDict x, m = masses(n); for (int i = 0; i < n; i++) { st.b[pn[i]] = sx_grid(("b" + N(i)).c_str(), -2, 2, -3); x[pn[i]] = sx_grid(("z" + N(i)).c_str(), -2, 2, -3); } double e = 0.5; HamiltonianSampler<Slope> h(st, e, s); for (auto &q : h.GetMasses()) sx_assert(q.second == 1 && st.b.count(q.first), "masses start at one"); if (sx_choice("masses", 2)) { h.SetMasses(m); sx_assert(h.GetMasses() == m, "masses read back"); } else for (auto &q : m) q.second = 1; ParameterDict k; for (int i = 0; i < n; i++) k[pn[i]] = sx_grid(("k" + N(i)).c_str(), -2, 2, -3); double ke = 0; for (auto &q : k) ke += q.second * q.second / (2 * m[q.first]); sx_close(h.KineticEnergy(k), ke, "kinetic energy is half the momentum squared over the mass");
  ParameterDict y = h.Draw(x); double T = s * e, gain = 0, kin = 0; for (auto &q : x) { double b = st.b[q.first], mm = m[q.first]; double p0 = ((y[q.first] - q.second) * mm + b * T * T / 2) / T, p1 = p0 - T * b; gain += (p0 * p0 - p1 * p1) / (2 * mm); kin += p0 * p0 / mm; } double z2 = 0; sx_assert(sx_gauss().size() == x.size(), "one momentum per parameter"); for (double z : sx_gauss()) z2 += z * z; sx_close_tol(kin, z2, 1e-6, "momenta are drawn around zero with the masses' widths"); sx_close_tol(h.CorrectAccParam(), gain, 1e-6, "the correction is the kinetic energy lost"); double u0 = 0, u1 = 0; for (auto &q : x) { u0 += st.b[q.first] * q.second; u1 += st.b[q.first] * y[q.first]; } sx_close_tol(h.CorrectAccParam(), u1 - u0, 1e-6, "total energy is conserved in a linear potential"); if (n == 1) { ParameterDict y2 = h.Draw(y); double u2 = 0; for (auto &q : x) u2 += st.b[q.first] * y2[q.first]; sx_close_tol(h.CorrectAccParam(), u2 - u1, 1e-6, "every draw has its own correction"); } }
SX_HARNESS(h_draw_walls) { static const double Q[] = {0, 0.125, 0.5, 0.875, 1}; sx_gaussmost() = h_thorough() ? 4 : 2.5; Slope st; st.b["a"] = 0; HamiltonianSampler<Slope> h(st, 0.5, 1 + sx_choice("steps", 2)); ParameterDict lo{{"a", 0}}, hi{{"a", 1}}; h.SetMinima(lo); h.SetMaxima(hi); sx_assert(h.GetMinima() == lo && h.GetMaxima() == hi, "limits read back"); double x = Q[sx_choice("z", 5)]; ParameterDict y = h.Draw(ParameterDict{{"a", x}}); sx_assert(y["a"] > -1e-9 && y["a"] < 1 + 1e-9, "proposals stay inside the limits"); sx_close(h.CorrectAccParam(), 0, "free motion keeps its kinetic energy"); }
SX_HARNESS(h_scale) { // the same motions on scales from millions to millionths, few and many bounces
  static const int E[] = {0, -20, -34, 20}; double L = std::ldexp(1, E[sx_choice("length", 4)]), T = std::ldexp(1, E[sx_choice("time", 4)]); static const double V[] = {0.5, -1, 3, -6, 9.5}; double u = sx_grid("q", 0.0625, 0.9375, -6), v = V[sx_choice("v", 5)]; ParameterDict q{{"a", u * L}}, p{{"a", v * L / T}}, m{{"a", 1}}, lo{{"a", 0}}, hi{{"a", L}}; Zero z{1}; LeapFrog::Hamiltonian(q, p, m, T, z, 1, lo, hi); sx_close(q["a"] / L, fold(u + v, 0, 1), "the path folds at the walls"); sx_close(p["a"] * T / L * (p["a"] * T / L), v * v, "reflection preserves kinetic energy");
}
struct Flat { double Evaluate() { return 0; } void SetParameters(const ParameterDict &) {} std::set<S> GetParameterNames() const { return std::set<S>{"a"}; } };
SX_HARNESS(h_soft_scale) { // the penalty at any distance, gentle or steep
  static const int E[] = {0, -8, -20, 4}; int k = sx_choice("mu", 4); double mu = std::ldexp(1, E[k]), t = sx_grid("t", -8, 8, -3), x = t / mu; Flat f; ParameterDict lo, hi; bool up = sx_choice("up", 2); (up ? hi : lo)["a"] = 0; SigmoidBoundary<Flat> b(f, lo, hi, mu); b.SetParameters(ParameterDict{{"a", up ? x : -x}}); sx_close(b.Evaluate(), std::log(1 + std::exp(t)), "the penalty of every limit is added once");
}
SX_HARNESS(h_gradient_scale) { // derivatives on any scale
  static const int E[] = {0, -20, 20}; double L = std::ldexp(1, E[sx_choice("scale", 3)]), F = std::ldexp(1, E[sx_choice("size", 3)]); struct One { double b, c, x, L, F; double Evaluate() { double u = x / L; return F * (b * u + c * u * u); } void SetParameters(const ParameterDict &p) { x = p.at("a"); } std::set<S> GetParameterNames() const { return std::set<S>{"a"}; } } s{sx_grid("b", -2, 2, -3), sx_grid("c", -2, 2, -3), 0, L, F}; Gradient<One> g(s, L / 4); double u = sx_grid("z", -4, 4, -3); ParameterDict x{{"a", u * L}}; sx_close(g(x)["a"] * L / F, s.b + 2 * s.c * u, "the gradient of a quadratic is exact");
}
