// C17: convolution
// SRC: Convolution.cpp JumpPDF.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp
// BOUNDS: 1 to 3 dimensions up to 12 bins, equal and unequal, every choice and order of convolved axes; kernels whose integral is any product of cubic cumulative functions per convolved axis (two symbolic coefficients), relative to the source centre or conditional on it; reconstruction with new parameters, axes, targets and kernels; copies; single runs of many items; names spelt almost alike; kernels alike in name and parameters; integrals down to 1e-9 of the rest; 540-bin shapes
// OUTSIDE: the Gaussian kernel's own integral (decided in C33)
#include "hx.h"
#include <BinnedED.h>
#include <ConditionalPDF.h>
#include <Convolution.h>
#include <Exceptions.h>
#include <JumpPDF.h>
#include <PDF.h>
#include <memory>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static const double K[] = {1, 0.25, 3};
static double F(int d, double a, double b, double x) { return K[d] * a * x + b * (x + d) * (x + d) * (x + d); } // increasing for a > 0, b >= 0
static double I(double a, double b, const Vd &lo, const Vd &hi) { double r = 1; for (size_t d = 0; d < lo.size(); d++) r = r * (F(d, a, b, hi[d]) - F(d, a, b, lo[d])); return r; }
struct Par { double a = 1, b = 0; std::string n = "a"; // parameters a (renamable) and b
  void set(const std::string &k, double v) { if (k == n) a = v; else if (k == "b") b = v; else throw ParameterError("no " + k); } double get(const std::string &k) const { if (k == n) return a; if (k == "b") return b; throw ParameterError("no " + k); }
  void setAll(const ParameterDict &p) { if (!p.count(n) || !p.count("b")) throw ParameterError("missing"); a = p.at(n); b = p.at("b"); } ParameterDict all() const { ParameterDict d; d[n] = a; d["b"] = b; return d; } };
#define PAR(C) Par p; void SetParameter(const std::string &k, double v) { p.set(k, v); } double GetParameter(const std::string &k) const { return p.get(k); } void SetParameters(const ParameterDict &d) { p.setAll(d); } ParameterDict GetParameters() const { return p.all(); } size_t GetParameterCount() const { return 2; } \
  std::set<std::string> GetParameterNames() const { return {p.n, "b"}; } void RenameParameter(const std::string &o, const std::string &n) { if (o != p.n) throw ParameterError("r"); p.n = n; } std::string GetName() const { return "k"; } void SetName(const std::string &) {}
static int live = 0;
struct Ker : PDF { size_t n; PAR(Ker) Ker(size_t N) : n(N) { live++; } Ker(const Ker &o) : PDF(o), n(o.n), p(o.p) { live++; } ~Ker() { live--; } Function *Clone() const { return new Ker(*this); } double operator()(const Vd &v) const { return F(0, p.a, p.b, v.at(0)); } size_t GetNDims() const { return n; } Vd Sample() const { Vd v; for (size_t i = 0; i < n; i++) v.push_back(p.a + i); return v; } double Integral(const Vd &lo, const Vd &hi) const { return I(p.a, p.b, lo, hi); } };
struct Cond : ConditionalPDF { double w = 1; PAR(Cond) ConditionalPDF *Clone() const { return new Cond(*this); } double ConditionalProbability(const Vd &, const Vd &) { return 0; } Vd Sample(const Vd &x) const { return x; } double Integral(const Vd &lo, const Vd &hi, const Vd &x) const { double r = I(p.a, p.b, lo, hi); for (size_t d = 0; d < x.size(); d++) r = r + (x[d] + 10) * K[d]; return w * r; } };
static const std::vector<std::vector<int>> SHP{{3}, {2, 3}, {3, 2}, {2, 3, 2}};
static const std::vector<std::vector<int>> TGT{{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}};
static void target(Systematic &s, const AxisCollection &a, const std::vector<int> &t) { s.SetAxes(a); Vs n; for (int i : t) n.push_back(h_names[i]); s.SetTransformationObs(n); s.SetDistributionObs(Vs(h_names, h_names + a.GetNDimensions())); }
static void check(const Systematic &s, const AxisCollection &ax, const std::vector<int> &t, double a, double b, bool cond) {
  size_t N = ax.GetNBins(); std::vector<int> sh; for (size_t d = 0; d < ax.GetNDimensions(); d++) sh.push_back(ax.GetAxis(d).GetNBins()); const SparseMatrix &R = s.GetResponse(); sx_assert(R.GetNRows() == N && R.GetNCols() == N, "the response covers every bin");
  for (size_t c = 0; c < N; c++) for (size_t r = 0; r < N; r++) {
    std::vector<size_t> ci = h_unflat(c, sh), ri = h_unflat(r, sh); bool same = true; for (size_t d = 0; d < ci.size(); d++) { bool in = false; for (int i : t) in |= i == (int)d; if (!in && ci[d] != ri[d]) same = false; }
    if (!same) { sx_assert(R.GetComponent(r, c) == 0, "bins that differ on other axes do not mix"); continue; }
    Vd lo, hi, x; for (int i : t) { x.push_back(ax.GetAxis(i).GetBinCentre(ci[i])); lo.push_back(ax.GetAxis(i).GetBinLowEdge(ri[i]) - (cond ? 0 : x.back())); hi.push_back(ax.GetAxis(i).GetBinHighEdge(ri[i]) - (cond ? 0 : x.back())); }
    double want = I(a, b, lo, hi); if (cond) for (size_t d = 0; d < x.size(); d++) want = want + (x[d] + 10) * K[d]; sx_close(R.GetComponent(r, c), want, "each entry is the kernel's integral over the destination from the source");
  }
}
static double A(const char *n) { return sx_grid(n, 1, 4, -8); } static double B(const char *n) { return sx_grid(n, 0, 2, -8); }
SX_HARNESS(h_response) {
  const auto &sh = SHP[sx_choice("shape", 4)]; const auto &t = TGT[sx_choice("target", 15)]; for (int i : t) sx_assume(i < (int)sh.size()); AxisCollection ax = h_axes(sh); Convolution c("c"); bool cond = sx_choice("conditional", 2); if (cond) { Cond k; c.SetConditionalPDF(&k); } else { Ker k(t.size()); c.SetFunction(&k); }
  target(c, ax, t); double a = A("a"), b = B("b"); ParameterDict d; d["a"] = a; d["b"] = b; d["zz"] = 9; c.SetParameters(d); c.Construct(); check(c, ax, t, a, b, cond);
}
SX_HARNESS(h_again) { // new parameters, axes, targets, kernels
  AxisCollection p = h_axes({2, 3}), q = h_axes({3, 2}); Convolution c("c"); Ker k(1); c.SetFunction(&k); target(c, p, {1}); double a = A("a"), b = B("b"); c.SetParameter("a", a); c.SetParameter("b", b); c.Construct();
  switch (sx_choice("what", 6)) {
  case 0: b = B("b2"); c.SetParameter("b", b); c.Construct(); check(c, p, {1}, a, b, false); break;
  case 1: c.SetAxes(q); c.Construct(); check(c, q, {1}, a, b, false); break;
  case 2: c.SetTransformationObs(Vs{"z"}); c.Construct(); check(c, p, {0}, a, b, false); break;
  case 3: { Cond z; z.p.a = A("a2"); z.p.b = 0; c.SetConditionalPDF(&z); c.Construct(); check(c, p, {1}, z.p.a, 0, true); break; }
  case 4: c.RenameParameter("a", "mine"); sx_assert(c.GetParameter("mine") == a && c.GetParameter("b") == b && c.GetParameterCount() == 2 && c.GetParameterNames() == std::set<std::string>({"mine", "b"}), "parameters are the kernel's"); a = A("a2"); c.SetParameter("mine", a); c.Construct(); check(c, p, {1}, a, b, false); break;
  default: c.Construct(); check(c, p, {1}, a, b, false);
  }
  sx_assert(k.p.a == 1 && k.p.b == 0, "the kernel given is left alone");
}
SX_HARNESS(h_copies) { // copies own their kernel
  int l0 = live; {
    AxisCollection p = h_axes({2, 2}); std::unique_ptr<Convolution> o(new Convolution("c")); { Ker k(1); o->SetFunction(&k); } target(*o, p, {0}); double a = A("a"), b = B("b"), a2 = A("a2"); o->SetParameter("a", a); o->SetParameter("b", b); if (sx_choice("built", 2)) o->Construct();
    std::unique_ptr<Convolution> c; if (sx_choice("assign", 2)) { c.reset(new Convolution("other")); if (sx_choice("had", 2)) { Ker z(1); c->SetFunction(&z); } *c = *o; *c = *c; } else c.reset(new Convolution(*o));
    if (sx_choice("kill", 2)) o.reset(); else { o->SetParameter("a", a2); o->SetTransformationObs(Vs{"y"}); o->Construct(); check(*o, p, {1}, a2, b, false); } c->Construct(); check(*c, p, {0}, a, b, false); sx_assert(c->GetName() == "c", "a copy keeps its name"); c->SetParameter("b", 0); c->Construct(); check(*c, p, {0}, a, 0, false); if (o) sx_assert(o->GetParameter("b") == b, "a copy is independent");
  } sx_assert(live == l0, "every kernel copy is released");
}
SX_HARNESS(h_jump) { // the kernel relative to a point
  size_t n = 1 + sx_choice("dims", 2); Ker k(n); k.p.a = A("a"); k.p.b = B("b"); JumpPDF j("j", &k); Vd x, y, hi; for (size_t i = 0; i < n; i++) { x.push_back(sx_grid(("z" + std::to_string(i)).c_str(), -4, 4, -6)); y.push_back(sx_grid(("y" + std::to_string(i)).c_str(), -4, 4, -6)); hi.push_back(sx_grid(("h" + std::to_string(i)).c_str(), 5, 8, -6)); }
  std::unique_ptr<ConditionalPDF> q; JumpPDF other("o"); switch (sx_choice("how", 4)) { case 0: q.reset(new JumpPDF(j)); break; case 1: q.reset(j.Clone()); break; case 2: { JumpPDF *t = new JumpPDF("t", &k); *t = j; q.reset(t); break; } default: { JumpPDF *t = new JumpPDF("t"); *t = j; *t = *t; q.reset(t); } } j.SetParameter("a", 1); k.p.b = 0; sx_assert(q->GetName() == "j", "a copy keeps its name"); double a = q->GetParameter("a"), b = q->GetParameter("b");
  sx_close(q->ConditionalProbability(x, y), F(0, a, b, x[0] - y[0]), "a jump kernel depends on the offset"); Vd l, h; for (size_t i = 0; i < n; i++) { l.push_back(x[i] - y[i]); h.push_back(hi[i] - y[i]); } sx_close(q->Integral(x, hi, y), I(a, b, l, h), "a jump kernel's integral is over the offsets"); Vd s = q->Sample(y); for (size_t i = 0; i < n; i++) sx_close(s[i], a + i + y[i], "a sample is an offset from the point");
}
SX_HARNESS(h_refused) {
  AxisCollection p = h_axes({2, 2}); Convolution c("c"); SX_THROWS(LogicError, c.Construct(), "constructing without axes or kernel is refused"); target(c, p, {0}); SX_THROWS(LogicError, c.Construct(), "constructing without a kernel is refused"); Ker k(1); c.SetFunction(&k); SX_THROWS(ParameterError, c.SetParameter("q", 1), "unknown parameters are refused"); SX_THROWS(ParameterError, c.GetParameter("q"), "unknown parameters are refused"); ParameterDict d; d["a"] = 1; SX_THROWS(ParameterError, c.SetParameters(d), "missing parameters are refused"); Convolution e("e"); e.SetFunction(&k); SX_THROWS(LogicError, e.Construct(), "constructing without axes is refused"); c.SetTransformationObs(Vs{"w"}); SX_THROWS_ANY(c.Construct(), "an unknown target is refused");
  JumpPDF j("j"); SX_THROWS_ANY(j.Integral(Vd{0}, Vd{1}, Vd{0}), "a jump kernel without function is refused"); SX_THROWS_ANY(j.ConditionalProbability(Vd{0}, Vd{1}), "a jump kernel without function is refused"); SX_THROWS_ANY(j.Sample(Vd{0}), "a jump kernel without function is refused"); SX_THROWS_ANY(j.GetParameters(), "a jump kernel without function is refused");
}
SX_HARNESS(h_alike) { // four axes whose names begin or are spelt alike
  Vs n{"e_1", "e", "E", "e_10"}; static const int nb[] = {2, 3, 1, 2}; AxisCollection ax; for (int i = 0; i < 4; i++) ax.AddAxis(h_axis(n[i], nb[i], (i + 1) % 3)); int i = sx_choice("i", 4), j = sx_choice("j", 4); std::vector<int> t{i}; if (i != j) t.push_back(j); Convolution c("c"); Ker k(t.size()); c.SetFunction(&k); c.SetAxes(ax); Vs tn; for (int q : t) tn.push_back(n[q]); c.SetTransformationObs(tn); c.SetDistributionObs(n); double a = A("a"), b = B("b"); c.SetParameter("a", a); c.SetParameter("b", b); c.Construct(); check(c, ax, t, a, b, false);
}
SX_HARNESS(h_tiny) { // integrals however small, or none at all
  AxisCollection ax = h_axes({3, 2}); Convolution c("c"); Ker k(1); c.SetFunction(&k); target(c, ax, {0}); double a = sx_grid("a", 0, 0.0001, -44); c.SetParameter("a", a); c.SetParameter("b", 0); c.Construct();
  for (size_t q = 0; q < 6; q++) for (size_t r = 0; r < 6; r++) sx_close_(c.GetResponse().GetComponent(r, q), q % 2 == r % 2 ? a * (ax.GetBinHighEdge(r, 0) - ax.GetBinLowEdge(r, 0)) : 0, 1e-16, 1e-9, "each entry is the kernel's integral over the destination from the source");
}
SX_HARNESS(h_blocks) { // hundreds of bins on the other axis or on the convolved one
  int big = sx_choice("big", 2); AxisCollection ax; ax.AddAxis(BinAxis("z", 0, 4, big ? 2 : 270)); ax.AddAxis(BinAxis("y", 0, 4, big ? 270 : 2)); int t = sx_choice("target", 2); size_t nb[] = {ax.GetAxis(0).GetNBins(), ax.GetAxis(1).GetNBins()}, N = 540; Convolution c("c"); Ker k(1); k.p.a = 1; k.p.b = 0.25; c.SetFunction(&k); target(c, ax, {t}); c.Construct();
  Vd v; for (size_t i = 0; i < N; i++) v.push_back(i % 7 + i * 0.0625 + (i * i) % 13); Vd got = c.GetResponse()(v);
  for (size_t r = 0; r < N; r++) { size_t ri[] = {r / nb[1], r % nb[1]}; double want = 0; for (size_t q = 0; q < nb[t]; q++) { size_t ci[] = {ri[0], ri[1]}; ci[t] = q; size_t cc = ci[0] * nb[1] + ci[1]; double x = ax.GetAxis(t).GetBinCentre(q); want += v[cc] * I(1, 0.25, Vd{ax.GetAxis(t).GetBinLowEdge(ri[t]) - x}, Vd{ax.GetAxis(t).GetBinHighEdge(ri[t]) - x}); } sx_close_tol(got[r], want, 1e-7, "every bin receives the kernel's integral from each bin of its own row"); }
}
SX_HARNESS(h_many) { // sixteen bins
  AxisCollection ax; ax.AddAxis(BinAxis("z", -3, 5, 16)); Convolution c("c"); Ker k(1); c.SetFunction(&k); target(c, ax, {0}); double a = A("a"), b = B("b"); c.SetParameter("a", a); c.SetParameter("b", b); c.Construct(); check(c, ax, {0}, a, b, false);
}
SX_HARNESS(h_alike_kernel) { // kernels of the same name and parameters that differ otherwise
  AxisCollection ax = h_axes({2, 2}); Convolution c("c"); Cond k, z; k.p.a = z.p.a = A("a"); k.p.b = z.p.b = 0.5; z.w = sx_grid("w", 2, 4, -6); target(c, ax, {0}); int how = sx_choice("how", 4);
  if (how < 2) { c.SetConditionalPDF(&k); if (how) c.Construct(); c.SetConditionalPDF(&z); } else { c.SetConditionalPDF(&k); if (how == 3) c.Construct(); Convolution o("c"); target(o, ax, {0}); o.SetConditionalPDF(&z); c = o; }
  c.Construct(); const SparseMatrix &R = c.GetResponse(); std::vector<int> sh{2, 2};
  for (size_t col = 0; col < 4; col++) for (size_t r = 0; r < 4; r++) { std::vector<size_t> ci = h_unflat(col, sh), ri = h_unflat(r, sh); if (ci[1] != ri[1]) { sx_assert(R.GetComponent(r, col) == 0, "bins that differ on other axes do not mix"); continue; } Vd lo{ax.GetAxis(0).GetBinLowEdge(ri[0])}, hi{ax.GetAxis(0).GetBinHighEdge(ri[0])}, x{ax.GetAxis(0).GetBinCentre(ci[0])}; sx_close(R.GetComponent(r, col), z.Integral(lo, hi, x), "the latest kernel is the one used"); }
}
SX_HARNESS(h_alike_jump) { // the same for position independent kernels
  AxisCollection ax = h_axes({3}); Convolution c("c"); struct P : Ker { double w; P(double v) : Ker(1), w(v) {} Function *Clone() const { return new P(*this); } double Integral(const Vd &l, const Vd &h) const { return w * I(p.a, p.b, l, h); } }; P k(1), z(sx_grid("w", 2, 4, -6)); c.SetFunction(&k); target(c, ax, {0}); if (sx_choice("built", 2)) c.Construct(); c.SetFunction(&z); c.Construct();
  for (int col = 0; col < 3; col++) for (int r = 0; r < 3; r++) { double x = ax.GetAxis(0).GetBinCentre(col); sx_close(c.GetResponse().GetComponent(r, col), z.w * I(1, 0, Vd{ax.GetAxis(0).GetBinLowEdge(r) - x}, Vd{ax.GetAxis(0).GetBinHighEdge(r) - x}), "the latest kernel is the one used"); }
}
