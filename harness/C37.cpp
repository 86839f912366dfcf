// C37: conversions between distributions, histograms and ROOT histograms
// SRC: DistTools.cpp BinnedED.cpp EventDistribution.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp Event.cpp ObsSet.cpp ContainerTools.cpp
// BOUNDS: histograms of 1 to 3 axes with up to 12 bins, even, uneven and arbitrary (symbolic) contiguous edges, arbitrary contents; any integral of the analytic function over each bin
// OUTSIDE: axes with gaps; ROOT under- and overflow bins (not converted); exact contents of width-corrected histograms beyond a relative 1e-9
// ASSUME: ROOT's TH1D/TH2D/TH3D are replaced by in-memory stand-ins with ROOT's bin numbering and a fill that finds the bin by its edges
#include "hx.h"
#include <BinnedED.h>
#include <DistTools.h>
#include <Exceptions.h>
#include <PDF.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TH3D.h>
typedef std::vector<double> Vd; typedef std::vector<int> Vi; typedef std::string S;
static S N(int i) { return std::to_string(i); }
static BinAxis axis(int k, int n) { S nm = h_names[k], tex = S("$") + h_names[k] + "$"; int kind = sx_choice("kind", 3); if (kind == 0) return BinAxis(nm, -1, -1 + 0.5 * n, n, tex); Vd e; static const double u[] = {-2, -1.5, 0, 3, 4, 7}; for (int i = 0; i <= n; i++) e.push_back(kind == 1 ? u[i] : sx_double((nm + "e" + N(i)).c_str(), 10 * i, 10 * i + 9)); return BinAxis(nm, Vd(e.begin(), e.end() - 1), Vd(e.begin() + 1, e.end()), tex); }
static Vi shape(int dims) { static const std::vector<Vi> a{{1}, {2}, {4}}, b{{2, 3}, {3, 2}, {1, 4}, {2, 2}}, c{{2, 3, 2}, {1, 2, 3}, {2, 2, 2}}; const std::vector<Vi> &s = dims == 1 ? a : dims == 2 ? b : c; return s[sx_choice("shape", s.size())]; }
static Histogram make(const Vi &n) { AxisCollection a; for (size_t i = 0; i < n.size(); i++) a.AddAxis(axis(i, n[i])); Histogram h(a); for (size_t i = 0; i < h.GetNBins(); i++) h.SetBinContent(i, sx_double(("c" + N(i)).c_str(), -100, 100)); return h; }
static void axes(const TAxis *t, const BinAxis &a) { sx_assert(t->GetNbins() == (int)a.GetNBins(), "every bin is there"); if (t->GetNbins() != (int)a.GetNBins()) return; for (int i = 1; i <= t->GetNbins(); i++) sx_assert(t->GetBinLowEdge(i) == a.GetBinLowEdge(i - 1) && t->GetBinUpEdge(i) == a.GetBinHighEdge(i - 1), "bin edges are kept"); sx_assert(t->GetTitle() == a.GetLatexName(), "axes carry their LaTeX names"); }
static void back(const Histogram &r, const Histogram &h) { sx_assert(r.GetNDims() == h.GetNDims() && r.GetNBins() == h.GetNBins(), "every bin is there"); if (r.GetNDims() != h.GetNDims() || r.GetNBins() != h.GetNBins()) return; for (size_t k = 0; k < h.GetNDims(); k++) { const BinAxis &a = r.GetAxes().GetAxis(k), &b = h.GetAxes().GetAxis(k); sx_assert(a.GetName() == b.GetLatexName(), "axes are named after ROOT's titles"); sx_assert(a.GetBinLowEdges() == b.GetBinLowEdges() && a.GetBinHighEdges() == b.GetBinHighEdges(), "bin edges are kept"); } for (size_t i = 0; i < h.GetNBins(); i++) sx_assert(r.GetBinContent(i) == h.GetBinContent(i), "bin contents are kept"); }
static BinnedED ed(const Histogram &h) { BinnedED e("e", h); std::vector<S> o; for (size_t i = 0; i < h.GetNDims(); i++) o.push_back(h_names[i]); e.SetObservables(o); return e; }
SX_HARNESS(h_1d) { Histogram h = make(shape(1)); bool wide = sx_choice("widths", 2), dist = sx_choice("dist", 2); TH1D t = dist ? DistTools::ToTH1D(ed(h), wide) : DistTools::ToTH1D(h, wide); const BinAxis &a = h.GetAxes().GetAxis(0); axes(t.GetXaxis(), a); sx_assert(t.GetBinContent(0) == 0 && t.GetBinContent(a.GetNBins() + 1) == 0, "nothing outside the axes"); for (size_t i = 0; i < h.GetNBins(); i++) if (wide) sx_close(t.GetBinContent(i + 1) * (a.GetBinHighEdge(i) - a.GetBinLowEdge(i)), h.GetBinContent(i), "contents are divided by the bin width"); else sx_assert(t.GetBinContent(i + 1) == h.GetBinContent(i), "bin contents are kept"); if (!wide) back(DistTools::ToHist(t), h); if (!wide && !dist) { TH1D d = DistTools::ToTH1D(h); for (size_t i = 0; i < h.GetNBins(); i++) sx_assert(d.GetBinContent(i + 1) == h.GetBinContent(i), "no width correction unless asked for"); } }
SX_HARNESS(h_2d) { Vi n = shape(2); Histogram h = make(n); bool dist = sx_choice("dist", 2); TH2D t = dist ? DistTools::ToTH2D(ed(h)) : DistTools::ToTH2D(h); axes(t.GetXaxis(), h.GetAxes().GetAxis(0)); axes(t.GetYaxis(), h.GetAxes().GetAxis(1)); for (int i = 0; i <= n[0] + 1; i++) for (int j = 0; j <= n[1] + 1; j++) { bool in = i >= 1 && j >= 1 && i <= n[0] && j <= n[1]; sx_assert(t.GetBinContent(i, j) == (in ? h.GetBinContent((i - 1) * n[1] + j - 1) : 0), "each content is in its own bin"); } back(DistTools::ToHist(t), h); }
SX_HARNESS(h_3d) { Vi n = shape(3); Histogram h = make(n); bool dist = sx_choice("dist", 2); TH3D t = dist ? DistTools::ToTH3D(ed(h)) : DistTools::ToTH3D(h); axes(t.GetXaxis(), h.GetAxes().GetAxis(0)); axes(t.GetYaxis(), h.GetAxes().GetAxis(1)); axes(t.GetZaxis(), h.GetAxes().GetAxis(2)); for (int i = 0; i <= n[0] + 1; i++) for (int j = 0; j <= n[1] + 1; j++) for (int k = 0; k <= n[2] + 1; k++) { bool in = i >= 1 && j >= 1 && k >= 1 && i <= n[0] && j <= n[1] && k <= n[2]; sx_assert(t.GetBinContent(i, j, k) == (in ? h.GetBinContent(((i - 1) * n[1] + j - 1) * n[2] + k - 1) : 0), "each content is in its own bin"); } back(DistTools::ToHist(t), h); }
struct Any : PDF { int n; mutable std::vector<Vd> lo, hi; mutable Vd val; Any(int d) : n(d) {} double operator()(const Vd &) const { return 0; } double Integral(const Vd &l, const Vd &h) const { lo.push_back(l); hi.push_back(h); val.push_back(sx_double(("i" + N(val.size())).c_str(), 0, 10)); return val.back(); } size_t GetNDims() const { return n; } PDF *Clone() const { return new Any(*this); } Vd Sample() const { return Vd(n, 0); }
  void SetParameter(const S &, double) {} double GetParameter(const S &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<S> GetParameterNames() const { return std::set<S>(); } void RenameParameter(const S &, const S &) {} S GetName() const { return "any"; } void SetName(const S &) {} };
SX_HARNESS(h_analytic) { int d = 1 + sx_choice("dims", 3); AxisCollection a = make(shape(d)).GetAxes(); Any f(d); Histogram h = DistTools::ToHist(f, a); sx_assert(h.GetAxes() == a, "the histogram has the axes asked for"); for (size_t b = 0; b < h.GetNBins(); b++) { int hit = 0; for (size_t q = 0; q < f.val.size(); q++) { bool same = true; for (int k = 0; k < d; k++) same = same && f.lo[q][k] == a.GetBinLowEdge(b, k) && f.hi[q][k] == a.GetBinHighEdge(b, k); if (same) { hit++; sx_assert(h.GetBinContent(b) == f.val[q], "each bin holds the integral over it"); } } sx_assert(hit == 1, "each bin holds the integral over it"); } }
SX_HARNESS(h_refused) { int d = 1 + sx_choice("dims", 3), f = 1 + sx_choice("other", 3); Histogram h = make(shape(d)); BinnedED e = ed(h); if (d != f) { Any p(f); SX_THROWS(DimensionError, DistTools::ToHist(p, h.GetAxes()), "wrong dimensions are refused"); } if (d != 1) { SX_THROWS(DimensionError, DistTools::ToTH1D(h), "wrong dimensions are refused"); SX_THROWS(DimensionError, DistTools::ToTH1D(e), "wrong dimensions are refused"); } if (d != 2) { SX_THROWS(DimensionError, DistTools::ToTH2D(h), "wrong dimensions are refused"); SX_THROWS(DimensionError, DistTools::ToTH2D(e), "wrong dimensions are refused"); } if (d != 3) { SX_THROWS(DimensionError, DistTools::ToTH3D(h), "wrong dimensions are refused"); SX_THROWS(DimensionError, DistTools::ToTH3D(e), "wrong dimensions are refused"); } }
