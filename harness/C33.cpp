// C33: analytic functions, kernels and their parameters
// SRC: Gaussian.cpp GaussianFitter.cpp Heaviside.cpp JumpPDF.cpp SquareRootScale.cpp VaryingCDF.cpp Rand.cpp ContainerTools.cpp
// BOUNDS: 1 and 2 dimensions (thorough 3), any point and mean in [-50,50], any width in [0.25,16]; step functions with any positions and every choice of sides; kernels over any polynomial; two varying parameters
// OUTSIDE: the value of exp and erf themselves (taken as increasing functions with their known bounds); the random generator's distribution (every draw is arbitrary); widths set to zero or less after construction
// ASSUME: GSL's normal distribution is 0.5 (1 + erf(x / (sigma sqrt 2)))
#include "hx.h"
#include <Exceptions.h>
#include <Gaussian.h>
#include <Heaviside.h>
#include <JumpPDF.h>
#include <memory>
#include <SquareRootScale.h>
#include <VaryingCDF.h>
typedef std::vector<double> Vd; typedef std::string S; typedef std::set<S> Ss;
static S N(const char *p, int i) { return p + std::to_string(i); }
static double X(const S &n) { return sx_grid(n.c_str(), -50, 50, -6); }
static double W(const S &n) { return sx_grid(n.c_str(), 0.25, 16, -2); }
static void pars(int d, Vd &m, Vd &s) { for (int i = 0; i < d; i++) { m.push_back(X(N("m", i))); s.push_back(W(N("s", i))); } }
static double pdf(const Vd &x, const Vd &m, const Vd &s) { double e = 0, n = 1; for (size_t i = 0; i < x.size(); i++) { double z = (x[i] - m[i]) / s[i]; e += z * z; n *= 2.50662827463100050242 * s[i]; } return exp(-e / 2) / n; }
SX_HARNESS(h_gauss) { // the density, for every construction
  int d = 1 + sx_choice("dims", h_thorough() ? 3 : 2); Vd m, s, x; pars(d, m, s); for (int i = 0; i < d; i++) x.push_back(X(N("x", i))); Gaussian g(m, s); sx_close(g(x), pdf(x, m, s), "the density follows its formula"); sx_assert(g.GetNDims() == (size_t)d && g.Integral() == 1, "dimension and normalisation");
  if (d == 1) { sx_close(Gaussian(m[0], s[0])(x), pdf(x, m, s), "the density follows its formula"); sx_close(Gaussian(1)(x), pdf(x, Vd(1, 0.), Vd(1, 1.)), "the standard density"); sx_close(Gaussian()(x), pdf(x, Vd(1, 0.), Vd(1, 1.)), "the standard density"); }
  x.push_back(0); SX_THROWS(DimensionError, g(x), "a point of the wrong dimension is refused"); x.resize(d - 1); SX_THROWS(DimensionError, g(x), "a point of the wrong dimension is refused"); SX_THROWS(NotFoundError, g.GetMean(d), "a dimension that is not there is refused"); SX_THROWS(NotFoundError, g.GetStDev(d), "a dimension that is not there is refused"); }
SX_HARNESS(h_gauss_refused) { double a = sx_grid("a", -2, 2, -4), b = sx_grid("b", -2, 2, -4); bool ok = a > 0 && b > 0; Vd m{1, 2}, s{a, b}; if (ok) SX_NOTHROW(Gaussian(m, s), "positive widths are accepted"); else SX_THROWS(ValueError, Gaussian(m, s), "widths that are not positive are refused"); if (a > 0) SX_NOTHROW(Gaussian(0, a), "positive widths are accepted"); else SX_THROWS(ValueError, Gaussian(0, a), "widths that are not positive are refused"); SX_THROWS(DimensionError, Gaussian(m, Vd{1}), "means and widths of different number are refused"); }
SX_HARNESS(h_set_refused) { Gaussian g(2); uint64_t d = sx_u64("d"); if (d < 2) { g.SetMean(d, 3); g.SetStDev(d, 4); sx_assert(g.GetMean(d) == 3 && g.GetStDev(d) == 4, "the dimension's own values are set"); sx_assert(g.GetMean(1 - d) == 0 && g.GetStDev(1 - d) == 1, "the other dimension keeps its values"); } else { SX_THROWS_ANY(g.SetMean(d, 3), "a dimension that is not there is refused"); SX_THROWS_ANY(g.SetStDev(d, 3), "a dimension that is not there is refused"); SX_THROWS(NotFoundError, g.GetMean(d), "a dimension that is not there is refused"); sx_assert(g.GetMeans() == (Vd{0, 0}) && g.GetStdDevs() == (Vd{1, 1}), "a refused setting changes nothing"); } SX_THROWS_ANY(g.SetMeans(Vd(3, 0.)), "a vector of the wrong length is refused"); SX_THROWS_ANY(g.SetStDevs(Vd(1, 1.)), "a vector of the wrong length is refused"); sx_assert(g.GetMeans().size() == 2 && g.GetStdDevs().size() == 2, "a refused setting changes nothing"); g.SetMeans(Vd{5, 6}); g.SetStDevs(Vd{7, 8}); sx_assert(g.GetMean(0) == 5 && g.GetMean(1) == 6 && g.GetStDev(0) == 7 && g.GetStDev(1) == 8, "vectors are set in order"); }
static double Phi(double x, double s) { return 0.5 * (1 + erf(x / s * 0.70710678118654752440)); }
SX_HARNESS(h_cdf) { // one dimension: distribution function, cut-off, additivity
  static const double SG[] = {1, 4, 0.25}; double m = X("m"), s = SG[sx_choice("s", h_thorough() ? 3 : 2)], a = X("a"), b = X("b"), c = X("c"); sx_assume(a < b && b < c); Gaussian g(m, s); double k = 6; if (sx_choice("cutoff", 2)) { k = sx_grid("k", 0.5, 8, -1); g.SetCdfCutOff(k); } sx_assert(g.GetCdfCutOff() == k, "the cut-off is read back");
  double F = g.Cdf(0, a); if (a - m > k * s) sx_assert(F == 1, "far above the mean the distribution function is one"); else if (a - m < -k * s) sx_assert(F == 0, "far below the mean the distribution function is zero"); else sx_close(F, Phi(a - m, s), "the distribution function follows its formula");
  double ab = g.Integral(Vd{a}, Vd{b}), bc = g.Integral(Vd{b}, Vd{c}), ac = g.Integral(Vd{a}, Vd{c}); sx_close(ac, ab + bc, "integrals over adjacent intervals add up"); sx_assert(ab >= -1e-9 && ac <= 1 + 1e-9 && ab <= ac + 1e-9, "integrals lie between zero and one and grow with the interval"); sx_close(g.Integral(Vd{b}, Vd{a}), -ab, "exchanging the limits changes the sign"); SX_THROWS(NotFoundError, g.Cdf(1, a), "a dimension that is not there is refused"); }
SX_HARNESS(h_integral) { // several dimensions
  int d = 2 + (h_thorough() ? sx_choice("dims", 2) : 0); Vd m, s, lo, hi; pars(d, m, s); Gaussian g(m, s); double want = 1; for (int i = 0; i < d; i++) { lo.push_back(m[i] - s[i] * (1 + i)); hi.push_back(X(N("h", i))); want *= g.Cdf(i, hi[i]) - g.Cdf(i, lo[i]); } sx_close(g.Integral(lo, hi), want, "the integral is the product over the dimensions"); for (int i = 0; i < d; i++) sx_close(g.Cdf(i, hi[i]), Gaussian(m[i], s[i]).Cdf(0, hi[i]), "each dimension has its own distribution");
  lo.push_back(0); SX_THROWS(DimensionError, g.Integral(lo, hi), "limits of the wrong dimension are refused"); hi.push_back(0); SX_THROWS(DimensionError, g.Integral(lo, hi), "limits of the wrong dimension are refused"); lo.resize(d); SX_THROWS(DimensionError, g.Integral(lo, hi), "limits of the wrong dimension are refused"); }
SX_HARNESS(h_gauss_names) { // each name controls its own quantity
  int d = 1 + sx_choice("dims", h_thorough() ? 3 : 2); Vd m, s; Gaussian g(d); ParameterDict p; for (int i = 0; i < d; i++) { m.push_back(0); s.push_back(1); } Ss names; for (int i = 0; i < d; i++) { names.insert(N("means_", i)); names.insert(N("stddevs_", i)); } sx_assert(g.GetParameterNames() == names && g.GetParameterCount() == names.size(), "means_i and stddevs_i are the parameters");
  int how = sx_choice("how", 3), i = sx_choice("i", d); double v = sx_grid("v", 0.25, 16, -2); bool width = sx_choice("width", 2); S n = N(width ? "stddevs_" : "means_", i); if (how == 1) { g.RenameParameter(n, "q"); sx_assert(!g.GetParameterNames().count(n) && g.GetParameterNames().count("q") && g.GetParameterCount() == names.size(), "renaming moves the name"); SX_THROWS(NotFoundError, g.GetParameter(n), "the old name is gone"); n = "q"; }
  if (how == 2) { ParameterDict q; for (auto &k : names) q[k] = g.GetParameter(k); q[n] = v; g.SetParameters(q); } else g.SetParameter(n, v); (width ? s : m)[i] = v; for (int k = 0; k < d; k++) { sx_assert(g.GetMean(k) == m[k] && g.GetStDev(k) == s[k], "a value acts on the quantity its name denotes"); } sx_assert(g.GetParameter(n) == v && g.GetParameters()[n] == v && g.GetParameters().size() == names.size(), "the value is read back by name"); Vd x; for (int k = 0; k < d; k++) x.push_back(X(N("x", k))); sx_close(g(x), pdf(x, m, s), "the density uses the values set"); SX_THROWS(NotFoundError, g.GetParameter("none"), "unknown names are refused"); SX_THROWS(NotFoundError, g.RenameParameter("none", "z"), "unknown names are refused"); }
SX_HARNESS(h_gauss_shared) { Gaussian g(2); g.RenameParameter("stddevs_1", "s"); g.RenameParameter("stddevs_0", "s"); double v = W("v"); g.SetParameter("s", v); sx_assert(g.GetStDev(0) == v && g.GetStDev(1) == v && g.GetMean(0) == 0 && g.GetMean(1) == 0, "a shared name controls every quantity it denotes"); sx_assert(g.GetParameterNames().size() == 3 && g.GetParameterCount() == 3 && g.GetParameters().size() == 3, "a shared name counts once"); }
SX_HARNESS(h_gauss_copy) { Vd m, s; pars(2, m, s); double v = W("v"); std::unique_ptr<Gaussian> g(new Gaussian(m, s, "n")); g->RenameParameter("means_1", "a"); g->SetCdfCutOff(3); std::unique_ptr<Gaussian> c; int how = sx_choice("how", 3); if (how == 0) c.reset(new Gaussian(*g)); else if (how == 1) c.reset(static_cast<Gaussian *>(g->Clone())); else { c.reset(new Gaussian(2)); *c = *g; } Vd x{X("x"), X("y")}; sx_close((*c)(x), pdf(x, m, s), "a copy answers like the original"); sx_assert(c->GetParameterNames() == g->GetParameterNames() && c->GetCdfCutOff() == 3 && c->GetNDims() == 2, "a copy has the original's parameters");
  if (sx_choice("which", 2)) { c->SetParameter("a", v); c->SetStDev(0, v); c->RenameParameter("a", "b"); sx_assert(g->GetMean(1) == m[1] && g->GetStDev(0) == s[0] && g->GetParameterNames().count("a"), "changing a copy leaves the original alone"); sx_assert(c->GetMean(1) == v, "the copy's names act on the copy"); } else { g->SetParameter("a", v); g->SetStDev(0, v); g->RenameParameter("a", "b"); g.reset(); sx_assert(c->GetMean(1) == m[1] && c->GetStDev(0) == s[0] && c->GetParameterNames().count("a"), "changing the original leaves a copy alone"); c->SetParameter("a", v); sx_assert(c->GetMean(1) == v && c->GetParameter("a") == v, "the copy's names act on the copy"); } }
SX_HARNESS(h_gauss_sample) { Vd m, s; pars(2, m, s); Gaussian g(m, s); Vd v = g.Sample(); sx_assert(v.size() == 2, "a sample has every dimension"); for (int i = 0; i < 2; i++) sx_assert(v[i] >= m[i] - 8 * s[i] - 1e-6 && v[i] <= m[i] + 8 * s[i] + 1e-6, "each dimension is drawn with its own mean and width"); }
SX_HARNESS(h_sqrt) { double gr = sx_grid("g", -8, 8, -4), x = X("x"); SquareRootScale f("f"); sx_assert(f.GetGradient() == 1 && f.GetNDims() == 1, "the gradient is one by default"); if (sx_choice("how", 2)) f.SetGradient(gr); else f.SetParameter("grad", gr); double y = f(Vd{x}); sx_close_tol(y * y, gr * gr * fabs(x), 1e-8, "the gradient times the square root of the size"); sx_assert(y * gr > -1e-9, "the sign is the gradient's"); std::unique_ptr<Function> c(f.Clone()); f.SetGradient(3); sx_close((*c)(Vd{x}), y, "a copy is independent"); sx_assert(c->GetParameter("grad") == gr, "a copy is independent"); SX_THROWS_ANY(f(Vd()), "a point without values is refused"); }
struct Step : Heaviside { int n; Step(int N) : Heaviside(N), n(N) {} Function *Clone() const { return new Step(*this); } size_t GetNDims() const { return n; } void SetParameter(const S &, double) {} double GetParameter(const S &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } Ss GetParameterNames() const { return Ss(); } void RenameParameter(const S &, const S &) {} S GetName() const { return "step"; } void SetName(const S &) {} };
SX_HARNESS(h_step) { int d = 1 + sx_choice("dims", h_thorough() ? 3 : 2); Step h(d); Vd x; bool in = true; for (int i = 0; i < d; i++) { double p = X(N("p", i)); x.push_back(X(N("x", i))); int k = sx_choice(N("side", i).c_str(), 4); if (k == 1 || k == 3) h.AddConstraint(i, k == 3 ? p - 1 : p, Heaviside::MAXIMUM); if (k >= 2) h.AddConstraint(i, p, Heaviside::MINIMUM); if (k == 1 && x[i] > p) in = false; if (k >= 2 && x[i] < p) in = false; } sx_assert(h(x) == (in ? 1 : 0), "one inside every limit, zero outside any"); std::unique_ptr<Function> c(h.Clone()); sx_assert((*c)(x) == (in ? 1 : 0), "a copy answers like the original"); x.push_back(0); SX_THROWS(DimensionError, h(x), "a point of the wrong dimension is refused"); x.resize(d - 1); SX_THROWS(DimensionError, h(x), "a point of the wrong dimension is refused"); SX_THROWS(NotFoundError, h.AddConstraint(d, 0, Heaviside::MAXIMUM), "a dimension that is not there is refused"); SX_THROWS(ValueError, h.AddConstraint(0, 0, Heaviside::IGNORE), "an ambiguous side is refused"); }
static int live = 0;
struct Ker : PDF { size_t n; double a = 1; S nm = "a"; Ker(size_t N) : n(N) { live++; } Ker(const Ker &o) : PDF(o), n(o.n), a(o.a), nm(o.nm) { live++; } ~Ker() { live--; } Function *Clone() const { return new Ker(*this); } double operator()(const Vd &v) const { double r = a; for (size_t i = 0; i < v.size(); i++) r = r * (i + 2) + v[i] * v[i]; return r; } size_t GetNDims() const { return n; } Vd Sample() const { Vd v; for (size_t i = 0; i < n; i++) v.push_back(a + i); return v; } double Integral(const Vd &lo, const Vd &hi) const { return 3 * (*this)(hi) - (*this)(lo); }
  void need(const S &k) const { if (k != nm) throw ParameterError("no " + k); } void SetParameter(const S &k, double v) { need(k); a = v; } double GetParameter(const S &k) const { need(k); return a; } void SetParameters(const ParameterDict &p) { if (!p.count(nm)) throw ParameterError("missing"); a = p.at(nm); } ParameterDict GetParameters() const { ParameterDict d; d[nm] = a; return d; } size_t GetParameterCount() const { return 1; } Ss GetParameterNames() const { return {nm}; } void RenameParameter(const S &o, const S &n) { need(o); nm = n; } S GetName() const { return "ker"; } void SetName(const S &) {} };
SX_HARNESS(h_jump) { // a kernel depends on the offset only
  { int d = 1 + sx_choice("dims", 3); Ker k(d); k.a = X("a"); Vd x, y, z, q, o, o2; double t = X("t"); for (int i = 0; i < d; i++) { x.push_back(X(N("x", i))); y.push_back(X(N("y", i))); z.push_back(X(N("z", i))); o.push_back(x[i] - y[i]); o2.push_back(z[i] - y[i]); } JumpPDF j("j", &k); double a = k.a; k.a = 99; k.nm = "other"; Ker r(d); r.a = a; sx_close(j.ConditionalProbability(x, y), r(o), "the probability is the kernel's at the offset"); sx_close(j.Integral(x, z, y), 3 * r(o2) - r(o), "the integral is the kernel's between the offsets"); Vd sx = x, sy = y; for (int i = 0; i < d; i++) { sx[i] += t; sy[i] += t; } sx_close(j.ConditionalProbability(sx, sy), r(o), "moving both points together changes nothing"); Vd s = j.Sample(y); sx_assert(s.size() == (size_t)d, "a sample has every dimension"); for (int i = 0; i < d; i++) sx_close(s[i], y[i] + a + i, "a sample is the kernel's sample added to the point");
    std::unique_ptr<JumpPDF> c; int how = sx_choice("copy", 3); if (how == 0) c.reset(new JumpPDF(j)); else if (how == 1) c.reset(static_cast<JumpPDF *>(j.Clone())); else { c.reset(new JumpPDF("c", &k)); *c = j; } double v = X("v"); j.SetParameter("a", v); sx_assert(j.GetParameter("a") == v && j.GetParameters()["a"] == v && c->GetParameter("a") == a, "a copy is independent"); r.a = v; sx_close(j.ConditionalProbability(x, y), r(o), "the parameter set is the one used"); c->RenameParameter("a", "b"); sx_assert(j.GetParameterNames() == (Ss{"a"}) && c->GetParameterNames() == (Ss{"b"}), "a copy is independent"); SX_THROWS(ParameterError, j.SetParameters(c->GetParameters()), "missing names are refused"); sx_assert(c->GetName() == "j", "a copy keeps the name"); }
  sx_assert(live == 0, "every kernel made is destroyed"); JumpPDF e("e"); SX_THROWS_ANY(e.ConditionalProbability(Vd{1}, Vd{2}), "a missing kernel is refused"); SX_THROWS_ANY(e.Integral(Vd{1}, Vd{2}, Vd{3}), "a missing kernel is refused"); SX_THROWS_ANY(e.Sample(Vd{1}), "a missing kernel is refused"); SX_THROWS_ANY(e.GetParameters(), "a missing kernel is refused"); JumpPDF e2(e); e2 = e; sx_assert(e2.GetName() == "e", "a copy keeps the name"); }
struct Lin : Function { double s; S nm; Lin(const S &N, double v) : s(v), nm(N) { live++; } Lin(const Lin &o) : Function(o), s(o.s), nm(o.nm) { live++; } ~Lin() { live--; } Function *Clone() const { return new Lin(*this); } double operator()(const Vd &v) const { return s * v.at(0) + 100; } size_t GetNDims() const { return 1; } void need(const S &k) const { if (k != nm) throw ParameterError("no " + k); } void SetParameter(const S &k, double v) { need(k); s = v; } double GetParameter(const S &k) const { need(k); return s; } void SetParameters(const ParameterDict &p) { if (!p.count(nm)) throw ParameterError("missing"); s = p.at(nm); } ParameterDict GetParameters() const { ParameterDict d; d[nm] = s; return d; } size_t GetParameterCount() const { return 1; } Ss GetParameterNames() const { return {nm}; } void RenameParameter(const S &o, const S &n) { need(o); nm = n; } S GetName() const { return "lin"; } void SetName(const S &) {} };
SX_HARNESS(h_varying) { // a kernel whose parameters are functions of the point
  { double ma = sx_grid("ma", -1, 1, -4), sa = sx_grid("sa", 0, 1, -4), x = X("x"), lo = X("lo"), hi = X("hi"), y = X("y"); Gaussian g(0, 1); std::unique_ptr<VaryingCDF> v(new VaryingCDF("v")); v->SetKernel(&g); { Lin fm("p", ma), fs("q", sa); v->SetDependance("means_0", &fm); v->SetDependance("stddevs_0", &fs); } double m = ma * y + 100, s = sa * y + 100; sx_close(v->ConditionalProbability(Vd{x}, Vd{y}), pdf(Vd{x - y}, Vd{m}, Vd{s}), "the kernel's parameters are the functions at the point"); sx_close(v->Integral(Vd{lo}, Vd{hi}, Vd{y}), Gaussian(m, s).Integral(Vd{lo - y}, Vd{hi - y}), "the kernel's parameters are the functions at the point"); sx_assert(v->GetParameterNames() == (Ss{"p", "q"}) && v->GetParameterCount() == 2 && v->GetParameters().size() == 2, "the functions' parameters are the parameters"); sx_assert(v->GetParameter("p") == ma && v->GetParameter("q") == sa && v->GetParameters()["q"] == sa, "each function's parameter is read by name");
    std::unique_ptr<VaryingCDF> c; int how = sx_choice("copy", 3); if (how == 0) c.reset(new VaryingCDF(*v)); else if (how == 1) c.reset(static_cast<VaryingCDF *>(v->Clone())); else { c.reset(new VaryingCDF("c")); if (sx_choice("filled", 2)) { c->SetKernel(&g); Lin l("z", 1); c->SetDependance("z", &l); } *c = *v; } double nv = sx_grid("nv", -1, 1, -4); if (sx_choice("how", 2)) v->SetParameter("p", nv); else { ParameterDict d; d["p"] = nv; d["q"] = sa; v->SetParameters(d); } sx_assert(v->GetParameter("p") == nv && v->GetParameter("q") == sa && c->GetParameter("p") == ma, "setting one leaves the other and the copies alone"); v->RenameParameter("p", "r"); sx_assert(v->GetParameterNames() == (Ss{"r", "q"}) && c->GetParameterNames() == (Ss{"p", "q"}), "renaming moves one name only"); sx_close(v->ConditionalProbability(Vd{x}, Vd{y}), pdf(Vd{x - y}, Vd{nv * y + 100}, Vd{s}), "the parameter set is the one used"); v.reset(); sx_close(c->ConditionalProbability(Vd{x}, Vd{y}), pdf(Vd{x - y}, Vd{m}, Vd{s}), "a copy outlives the original"); SX_THROWS_ANY(c->GetParameter("none"), "unknown names are refused"); c->SetKernel(&g); Lin l("p", 2); c->SetDependance("means_0", &l); sx_assert(c->GetParameter("p") == 2, "a dependence can be replaced"); }
  sx_assert(live == 0, "every function made is destroyed"); VaryingCDF e("e"); SX_THROWS_ANY(e.ConditionalProbability(Vd{1}, Vd{1}), "a missing kernel is refused"); SX_THROWS_ANY(e.Integral(Vd{1}, Vd{1}, Vd{1}), "a missing kernel is refused"); SX_THROWS_ANY(e.Sample(Vd{1}), "a missing kernel is refused"); VaryingCDF f(e); f = e; }
SX_HARNESS(h_step_again) { // limits set again: the last ones decide
  Step h(2); double x = X("x"), p = 0; int side = 0; for (int k = 0; k < 3; k++) { p = X(N("p", k)); side = sx_choice(N("side", k).c_str(), 2); h.AddConstraint(1, p, side ? Heaviside::MINIMUM : Heaviside::MAXIMUM); } sx_assert(h(Vd{1e9, x}) == ((side ? x < p : x > p) ? 0 : 1), "one inside every limit, zero outside any");
}
SX_HARNESS(h_varying_many) { // six functions with a parameter each, two of them sharing one
  static const char *const of[] = {"means_0", "means_1", "means_2", "stddevs_0", "stddevs_1", "stddevs_2"}; static const char *const pn[] = {"p_2", "p", "P", "p_10", "p_1", "a"}; bool shared = sx_choice("shared", 2); Gaussian g(Vd{0, 0, 0}, Vd{1, 1, 1}); VaryingCDF v("v"); v.SetKernel(&g); Vd m, x, y; ParameterDict want; for (int i = 0; i < 3; i++) { x.push_back(X(N("x", i))); y.push_back(X(N("y", i))); }
  for (int i = 0; i < 6; i++) { S n = shared && i == 4 ? "p_10" : pn[i]; if (!want.count(n)) want[n] = sx_grid(N("m", i).c_str(), 0, 1, -4); Lin l(n, want[n]); v.SetDependance(of[i], &l); m.push_back(want[n]); } Ss keys; for (auto &q : want) keys.insert(q.first);
  sx_assert(v.GetParameters() == want && v.GetParameterNames() == keys && v.GetParameterCount() == want.size(), "the functions' parameters are the parameters"); if (sx_choice("set", 2)) { for (auto &q : want) q.second = sx_grid(("n" + q.first).c_str(), 0, 1, -4); if (sx_choice("each", 2)) for (auto &q : want) v.SetParameter(q.first, q.second); else v.SetParameters(want); for (int i = 0; i < 6; i++) m[i] = want[shared && i == 4 ? "p_10" : pn[i]]; sx_assert(v.GetParameters() == want, "each function's parameter is read by name"); }
  Vd d, mu, sg; for (int i = 0; i < 3; i++) { d.push_back(x[i] - y[i]); mu.push_back(m[i] * y[0] + 100); sg.push_back(m[3 + i] * y[0] + 100); } sx_close(v.ConditionalProbability(x, y), pdf(d, mu, sg), "the kernel's parameters are the functions at the point"); VaryingCDF c(v); sx_assert(c.GetParameters() == want, "a copy holds the same parameters"); }
