// C13: event probabilities
// SRC: BinnedED.cpp CompositeED.cpp AnalyticED.cpp SpectralFitDist.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp ParameterManager.cpp
// BOUNDS: binned distributions in 1D and 2D with any positive contents, events with one to four observables at any place; analytic distributions over any linear density; composites of 2 to 4 parts, nested, with contents of either sign and equal names; copies, clones and assignments used after their original changed or died; names spelt almost alike
#include "hx.h"
#include <AnalyticED.h>
#include <BinnedED.h>
#include <CompositeED.h>
#include <Event.h>
#include <Exceptions.h>
#include <PDF.h>
#include <SpectralFitDist.h>
#include <memory>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static Vs nm{"z", "y", "x"};
static Vd vals() { return Vd{sx_double("vx", -20, 20), sx_double("vy", -20, 20), sx_double("vz", -20, 20)}; }
static Event ev(const Vd &v) { Event e(v); e.SetObservableNames(&nm); return e; }
struct Lin : PDF { // density a + b*v0 + c*v1 with named parameters
  double a, b, c; size_t n; Lin(double A, double B, double C, size_t N) : a(A), b(B), c(C), n(N) {}
  Function *Clone() const { return new Lin(*this); }
  double operator()(const Vd &v) const { if (v.size() != n) throw DimensionError("Lin", n, v.size()); return a + b * v[0] + (n > 1 ? c * v[1] : 0); }
  size_t GetNDims() const { return n; } double Integral(const Vd &, const Vd &) const { return 1; } Vd Sample() const { return Vd(n, 0); }
  void SetParameter(const std::string &k, double x) { if (k != "a") throw ParameterError("p"); a = x; } double GetParameter(const std::string &k) const { if (k != "a") throw ParameterError("p"); return a; }
  void SetParameters(const ParameterDict &p) { if (!p.count("a")) throw ParameterError("p"); a = p.at("a"); } ParameterDict GetParameters() const { ParameterDict d; d["a"] = a; return d; }
  size_t GetParameterCount() const { return 1; } std::set<std::string> GetParameterNames() const { return {"a"}; } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return "lin"; } void SetName(const std::string &) {}
};
// x: edges 0,1,2 (2 bins); y: -1,-0.5,0,0.5 (3 bins)
static size_t binx(double v) { return v < 1 ? 0 : 1; }
static size_t biny(double v) { return v < -0.5 ? 0 : v < 0 ? 1 : 2; }
static BinnedED b1(const std::string &pre) { AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); BinnedED d("b1", a); for (int i = 0; i < 2; i++) d.SetBinContent(i, sx_double((pre + std::to_string(i)).c_str(), 0.1, 100)); return d; }
static BinnedED b2() { AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); a.AddAxis(h_axis("y", 3, 1)); BinnedED d("b2", a); for (int i = 0; i < 6; i++) d.SetBinContent(i, sx_double(("c" + std::to_string(i)).c_str(), 0.1, 100)); return d; }
SX_HARNESS(h_binned2d) {
  static const int P[6][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}}; int p = sx_choice("placement", 6);
  BinnedED d = b2(); d.SetObservables(Vs{nm[P[p][0]], nm[P[p][1]]}); Vd v = vals(); Event e = ev(v);
  size_t bin = binx(v[P[p][0]]) * 3 + biny(v[P[p][1]]); Vd c = d.GetBinContents(); double tot = 0; for (double x : c) tot += x;
  sx_assert(d.FindBin(e) == bin, "the event's bin holds the distribution's own observables"); sx_close(d.Probability(e) * tot, c[bin], "probability is the content of the event's bin over the total");
  BinnedED n(d); n.Normalise(); sx_close(n.Integral(), 1, "normalised bins sum to one"); sx_close(n.GetBinContent(bin) * tot, c[bin], "normalising keeps the ratios"); sx_close(n.Probability(e), n.GetBinContent(bin), "after normalising the probability is the bin's content");
  sx_assert(d.GetBinContent(bin) == c[bin], "a copy is independent of the original");
}
SX_HARNESS(h_placements) { // events of one to four observables in any order, the distribution's own among them
  static const std::vector<Vs> E{{"z", "y"}, {"y", "z"}, {"y", "q", "z"}, {"z", "w", "q", "y"}, {"q", "w", "y", "z"}, {"z"}, {"y"}}; int k = sx_choice("event", 7); Vs n = E[k]; Vd v; for (size_t i = 0; i < n.size(); i++) v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -20, 20)); Event e(v); e.SetObservableNames(&n); auto at = [&](const char *o) { for (size_t i = 0; i < n.size(); i++) if (n[i] == o) return v[i]; return 0.; };
  BinnedED d = b2(), s = b1("d"); bool rev = sx_choice("reversed", 2); d.SetObservables(rev ? Vs{"y", "z"} : Vs{"z", "y"}); Vd c = d.GetBinContents(); double tot = 0; for (double x : c) tot += x;
  if (k < 5) { size_t bin = rev ? binx(at("y")) * 3 + biny(at("z")) : binx(at("z")) * 3 + biny(at("y")); sx_assert(d.FindBin(e) == bin, "the event's bin holds the distribution's own observables"); sx_close(d.Probability(e) * tot, c[bin], "probability is the content of the event's bin over the total"); double w = sx_double("w", -10, 10); BinnedED f(d); f.Fill(e, w); for (size_t i = 0; i < 6; i++) sx_close(f.GetBinContent(i), c[i] + (i == bin ? w : 0), "filling an event adds its weight to its own bin only"); }
  else { s.SetObservables(n); sx_close(s.Probability(e) * (s.GetBinContent(0) + s.GetBinContent(1)), s.GetBinContent(binx(v[0])), "probability is the content of the event's bin over the total"); SX_THROWS(NotFoundError, d.Probability(e), "a missing observable is refused"); }
}
SX_HARNESS(h_parts) { // two to four parts, alike in name or observable, with contents of any sign
  int n = 2 + sx_choice("parts", 3), same = sx_choice("same", 3), neg = sx_choice("negative", n + 1); Vd v = vals(); Event e = ev(v); std::vector<BinnedED> p; double integral = 1; Vd top, tot; std::vector<EventDistribution *> l; std::string name;
  for (int i = 0; i < n; i++) { AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); p.push_back(BinnedED(same ? "p" : "p" + std::to_string(i), a)); std::string t = std::to_string(i); double c0 = i == neg ? sx_double(("c" + t).c_str(), -100, -10) : sx_double(("c" + t).c_str(), 10, 100), c1 = sx_double(("d" + t).c_str(), -9, 9); p[i].SetBinContent(0, c0); p[i].SetBinContent(1, c1); int o = same == 2 ? 0 : i % 3; p[i].SetObservables(Vs{nm[o]}); integral *= c0 + c1; top.push_back(binx(v[o]) ? c1 : c0); tot.push_back(c0 + c1); name += (i ? "*" : "") + p[i].GetName(); }
  for (auto &q : p) l.push_back(&q); CompositeED c(l); double want = 1, den = 1; for (int i = 0; i < n; i++) { want *= top[i]; den *= tot[i]; } sx_close(c.Probability(e) * den, want, "a product's probability is the product of its parts'"); sx_close(c.Integral(), integral, "a product's integral is the product of its parts'"); sx_assert((int)c.GetNDims() == n && c.GetName() == name, "a product's dimensions and names add up");
  if (n < 4) { c.Normalise(); sx_close(c.Integral(), 1, "a normalised product has integral one"); sx_close(c.Probability(e) * den, want, "a product's probability is the product of its parts'"); for (int i = 0; i < n; i++) sx_close(p[i].Integral(), tot[i], "the parts given stay as they are"); }
}
SX_HARNESS(h_empty_part) { // a part without content makes the product's integral zero
  BinnedED p = b1("c"), q = b1("d"); p.SetObservables(Vs{"z"}); q.SetObservables(Vs{"y"}); double x = sx_grid("x", -50, 50, -10); bool first = sx_choice("first", 2); BinnedED &r = first ? p : q; r.SetBinContent(0, x); r.SetBinContent(1, -x); CompositeED c(&p, &q); sx_assert(c.Integral() == 0, "a product's integral is the product of its parts'");
}
SX_HARNESS(h_fill) {
  static const int P[6][2] = {{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}}; int p = sx_choice("placement", 6);
  BinnedED d = b2(); d.SetObservables(Vs{nm[P[p][0]], nm[P[p][1]]}); Vd v = vals(); double w = sx_double("w", -10, 10); Vd c = d.GetBinContents(); d.Fill(ev(v), w);
  size_t bin = binx(v[P[p][0]]) * 3 + biny(v[P[p][1]]); for (size_t i = 0; i < 6; i++) sx_close(d.GetBinContent(i), c[i] + (i == bin ? w : 0), "filling an event adds its weight to its own bin only");
}
SX_HARNESS(h_copies) { // clones and copies of every kind answer alike and are independent
  Vd v = vals(); Event e = ev(v); int kind = sx_choice("kind", 4), how = sx_choice("how", 3); bool kill = sx_choice("kill", 2);
  double x = sx_double("z", 1, 50);
  if (kind == 0) {
    std::unique_ptr<BinnedED> o(new BinnedED(b1("c"))); o->SetObservables(Vs{"y"}); double p = o->Probability(e); std::unique_ptr<BinnedED> c;
    if (how == 0) c.reset(static_cast<BinnedED *>(o->Clone())); else if (how == 1) c.reset(new BinnedED(*o)); else { c.reset(new BinnedED); *c = *o; }
    if (kill) o.reset(); else { o->SetBinContent(0, x); o->SetObservables(Vs{"x"}); o->Scale(3); }
    sx_assert(c->Probability(e) == p && c->GetName() == "b1" && c->GetNDims() == 1, "a copy answers as the original did");
  } else if (kind == 1) {
    std::unique_ptr<Lin> f(new Lin(sx_double("a", 1, 5), sx_double("b", -5, 5), sx_double("c", -5, 5), 2)); std::unique_ptr<AnalyticED> o(new AnalyticED("an", f.get())); o->SetObservables(Vs{"x", "z"});
    double want = f->a + f->b * v[2] + f->c * v[0]; f.reset(); sx_close(o->Probability(e), want, "an analytic probability is its density at the event"); std::unique_ptr<AnalyticED> c;
    if (how == 0) c.reset(static_cast<AnalyticED *>(o->Clone())); else if (how == 1) c.reset(new AnalyticED(*o)); else { Lin g(9, 9, 9, 1); c.reset(new AnalyticED("old", &g)); *c = *o; }
    if (kill) o.reset(); else { o->SetParameter("a", x); o->SetObservables(Vs{"y", "x"}); o->Normalise(); }
    sx_close(c->Probability(e), want, "a copy answers as the original did"); sx_assert(c->GetName() == "an" && c->GetNDims() == 2 && c->Integral() == 1, "a copy answers as the original did");
    ParameterDict d; d["a"] = x; c->SetParameters(d); sx_assert(c->GetParameter("a") == x && c->GetParameters() == d && c->GetParameterCount() == 1, "parameters reach the function"); 
  } else {
    BinnedED p1 = b1("c"), p2 = b1("d"); p1.SetObservables(Vs{"x"}); p2.SetObservables(Vs{"z"}); p2.SetName("b2"); double want = p1.Probability(e) * p2.Probability(e), in = p1.Integral() * p2.Integral();
    std::unique_ptr<CompositeED> o(new CompositeED(p1 * p2)); p1.SetBinContent(0, 7); p2.SetObservables(Vs{"y"});
    sx_close(o->Probability(e), want, "a product's probability is the product of its parts'"); sx_close(o->Integral(), in, "a product's integral is the product of its parts'"); sx_assert(o->GetName() == "b1*b2" && o->GetNDims() == 2, "a product's name and dimensions");
    if (kind == 3) o->SetName("mine");
    std::unique_ptr<CompositeED> c; if (how == 0) c.reset(static_cast<CompositeED *>(o->Clone())); else if (how == 1) c.reset(new CompositeED(*o)); else { c.reset(new CompositeED(&p1, &p1)); *c = *o; }
    if (kill) o.reset(); else { o->Normalise(); o->SetName("n"); sx_close(o->Integral(), 1, "a normalised product integrates to one"); }
    sx_close(c->Probability(e), want, "a copy answers as the original did"); sx_close(c->Integral(), in, "a copy answers as the original did"); sx_assert(c->GetName() == (kind == 3 ? "mine" : "b1*b2") && c->GetNDims() == 2, "a copy answers as the original did");
  }
}
SX_HARNESS(h_nested) { // (p1*p2)*p3 and the list form
  Vd v = vals(); Event e = ev(v); BinnedED p1 = b1("c"), p2 = b1("d"); p1.SetObservables(Vs{"z"}); p2.SetObservables(Vs{"y"}); Lin f(sx_double("a", 1, 5), sx_double("b", -5, 5), 0, 1); AnalyticED p3("an", &f); p3.SetObservables(Vs{"x"});
  double w1 = p1.Probability(e), w2 = p2.Probability(e), w3 = f.a + f.b * v[2]; std::unique_ptr<EventDistribution> c;
  switch (sx_choice("form", 3)) { case 0: { CompositeED q = p1 * p2; c.reset(new CompositeED(q * p3)); break; } case 1: { CompositeED q = p2 * p3; c.reset(new CompositeED(&p1, &q)); break; } default: { std::vector<EventDistribution *> l{&p1, &p2, &p3}; c.reset(new CompositeED(l)); } }
  sx_close(c->Probability(e), w1 * w2 * w3, "a product's probability is the product of its parts'"); sx_assert(c->GetNDims() == 3, "a product's dimensions add up"); sx_close(c->Integral(), p1.Integral() * p2.Integral(), "a product's integral is the product of its parts'");
}
SX_HARNESS(h_spectral) {
  AxisCollection a; a.AddAxis(h_axis("z", 3, 2)); SpectralFitDist d("s", a); d.SetObservables(Vs{"y"}); Vd v = vals(); Event e = ev(v); Vd c; ParameterDict p;
  for (int i = 0; i < 3; i++) { c.push_back(sx_double(("c" + std::to_string(i)).c_str(), 0.1, 100)); p["s_bin_" + std::to_string(i)] = c[i]; }
  if (sx_choice("how", 2)) d.SetParameters(p); else for (auto &q : p) d.SetParameter(q.first, q.second);
  size_t bin = v[1] < -1.5 ? 0 : v[1] < 0 ? 1 : 2; sx_close(d.Probability(e) * (c[0] + c[1] + c[2]), c[bin], "probability follows the bin parameters");
  sx_assert(d.GetParameters() == p && d.GetParameterCount() == 3, "parameters read back by name"); for (int i = 0; i < 3; i++) sx_assert(d.GetBinContent(i) == c[i] && d.GetParameter("s_bin_" + std::to_string(i)) == c[i], "each parameter is its own bin");
  std::unique_ptr<EventDistribution> q(static_cast<BinnedED &>(d).Clone()); double pr = d.Probability(e); d.SetBinContent(0, 1); sx_assert(q->Probability(e) == pr, "a clone answers as the original did");
}
SX_HARNESS(h_refused) {
  Vd v = vals(); Event e = ev(v); BinnedED d = b1("c");
  switch (sx_choice("case", 4)) {
  case 0: d.SetObservables(Vs{"q"}); SX_THROWS(NotFoundError, d.Probability(e), "a missing observable is refused"); break;
  case 1: d.SetObservables(Vs{"z", "y"}); SX_THROWS_ANY(d.Probability(e), "observables that do not fit the axes are refused"); SX_THROWS(RepresentationError, d.Fill(e), "observables that do not fit the axes are refused"); SX_THROWS(RepresentationError, d.FindBin(e), "observables that do not fit the axes are refused"); break;
  case 2: { Lin f(1, 1, 1, 2); AnalyticED a("a", &f); a.SetObservables(Vs{"z"}); SX_THROWS(DimensionError, a.Probability(e), "observables that do not fit the function are refused"); break; }
  default: { AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); SpectralFitDist s("s", a); SX_THROWS(ParameterError, s.SetParameter("s_bin_2", 1), "an unknown bin parameter is refused"); SX_THROWS(ParameterError, s.GetParameter("z"), "an unknown bin parameter is refused"); ParameterDict p; p["s_bin_0"] = 1; SX_THROWS(ParameterError, s.SetParameters(p), "missing bin parameters are refused"); }
  }
}
SX_HARNESS(h_alike) { // six parts on observables whose names begin or are spelt alike, in an order of their own
  Vs n{"e_1", "e", "E", "e_10", "ee", "e_", "1"}; Vd v; for (int i = 0; i < 7; i++) v.push_back(i == 3 ? sx_double("v", -5, 5) : (i * 3 % 5 - 2) * 0.75); Event e(v); e.SetObservableNames(&n); std::vector<BinnedED> p; std::vector<EventDistribution *> l; double want = 1, den = 1; std::string nm; for (int i = 0; i < 6; i++) { int o = (i * 4 + 3) % 7; AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); p.push_back(BinnedED(n[i], a)); double c0 = sx_double(("c" + std::to_string(i)).c_str(), 0.5, 2), c1 = sx_double(("d" + std::to_string(i)).c_str(), 0.5, 2); p[i].SetBinContent(0, c0); p[i].SetBinContent(1, c1); p[i].SetObservables(Vs{n[o]}); want *= binx(v[o]) ? c1 : c0; den *= c0 + c1; nm += (i ? "*" : "") + n[i]; } for (auto &x : p) l.push_back(&x); CompositeED c(l); sx_close(c.Probability(e) * den, want, "a product's probability is the product of its parts'"); sx_assert(c.GetName() == nm && c.GetNDims() == 6, "a product's dimensions and names add up");
  AxisCollection ax; for (int i = 0; i < 4; i++) ax.AddAxis(BinAxis("a" + std::to_string(3 - i), -1, 1, 2)); BinnedED q("q", ax); for (int i = 0; i < 16; i++) q.SetBinContent(i, sx_double(("q" + std::to_string(i)).c_str(), 1, 2)); static const int O[][4] = {{3, 1, 4, 0}, {1, 0, 3, 5}, {6, 5, 2, 3}}; const int *o = O[sx_choice("placement", 3)]; q.SetObservables(Vs{n[o[0]], n[o[1]], n[o[2]], n[o[3]]}); size_t b = 0; double t = 0; for (int i = 0; i < 4; i++) b = b * 2 + (v[o[i]] >= 0); for (int i = 0; i < 16; i++) t += q.GetBinContent(i); sx_assert(q.FindBin(e) == b, "the event's bin holds the distribution's own observables"); sx_close(q.Probability(e) * t, q.GetBinContent(b), "probability is the content of the event's bin over the total");
}
SX_HARNESS(h_assign_alike) { // assigned from one of the same name
  Vd v = vals(); Event e = ev(v); if (sx_choice("kind", 2)) { Lin f(sx_double("a", 1, 5), sx_double("b", -5, 5), 0, 1), g(9, 9, 9, 1); AnalyticED o("n", &f), c("n", &g); o.SetObservables(Vs{"x"}); c.SetObservables(Vs{sx_choice("other", 2) ? "z" : "x"}); double p = o.Probability(e); c = o; sx_assert(c.Probability(e) == p && c.GetObservables() == o.GetObservables(), "a copy answers as the original did"); }
  else { BinnedED o = b1("c"), c = b1("d"); o.SetObservables(Vs{"x"}); c.SetObservables(Vs{"z"}); double p = o.Probability(e); c = o; sx_assert(c.Probability(e) == p && c.GetBinContents() == o.GetBinContents(), "a copy answers as the original did"); }
}
SX_HARNESS(h_wide_parts) { // three or four parts of one or two observables each
  Vd v = vals(); Event e = ev(v); int n = 3 + sx_choice("parts", 2), wide = 0, dims = 0; std::vector<BinnedED> p; std::vector<EventDistribution *> l; double want = 1, in = 1; for (int i = 0; i < n; i++) { bool w = i > 0 && sx_choice(("wide" + std::to_string(i)).c_str(), 2); wide += w; if (wide > 2) return; dims += 1 + w; AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); if (w) a.AddAxis(h_axis("y", 3, 1)); BinnedED d("p" + std::to_string(i), a); d.SetObservables(w ? Vs{nm[(i + 1) % 3], nm[i % 3]} : Vs{nm[i % 3]});
    size_t at = w ? binx(v[(i + 1) % 3]) * 3 + biny(v[i % 3]) : binx(v[i % 3]); double t = 0, c = 0; for (size_t b = 0; b < d.GetNBins(); b++) { double x = b == 1 ? sx_double(("c" + std::to_string(i)).c_str(), 1, 2) : 1 + 0.5 * b; d.SetBinContent(b, x); t += x; if (b == at) c = x; } want *= c / t; in *= t; p.push_back(d); }
  for (auto &x : p) l.push_back(&x); CompositeED c(l), k(c); sx_assert((int)c.GetNDims() == dims && (int)k.GetNDims() == dims, "a product's dimensions add up"); sx_close(c.Probability(e), want, "a product's probability is the product of its parts'"); sx_close(k.Integral(), in, "a product's integral is the product of its parts'"); }
