// C06: lattice interpolation
// SRC: BinAxis.cpp AxisCollection.cpp Histogram.cpp ContainerTools.cpp Combinations.cpp ShapeInterpConstraint.cpp ConstraintManager.cpp
// BOUNDS: 1 axis with 2..4 bins (equal, offset, and uneven), 2 axes {2,3},{3,2},{3,3}, 3 axes {2,2,2},{2,3,2}, 4 axes {2,2,2,2}; 5 and 6 axes of 2 bins at one inner point of dyadic place (thorough also {3,2,3},{2,2,3,2}); arbitrary real contents and points
// OUTSIDE: more than 6 axes
#include "hx.h"
#include <ConstraintManager.h>
#include <Exceptions.h>
#include <ParameterDict.h>
#include <ShapeInterpConstraint.h>
typedef std::vector<double> Vd;
static std::vector<int> shape() {
  static const std::vector<std::vector<int>> S = {{2}, {3}, {4}, {2, 3}, {3, 2}, {3, 3}, {2, 2, 2}, {2, 3, 2}, {2, 2, 2, 2}, {2, 2, 3, 2}, {3, 2, 3}};
  return S[sx_choice("shape", h_thorough() ? 11 : 9)];
}
static AxisCollection axes(const std::vector<int> &n) {
  AxisCollection a; int k = n.size() == 1 ? sx_choice("kind", 3) : 2;
  for (size_t d = 0; d < n.size(); d++) a.AddAxis(h_axis(h_names[d], n[d], (k + d) % 3));
  return a;
}
SX_HARNESS(h_lattice) {
  std::vector<int> n = shape();
  Histogram h(axes(n)); h.SetBinContents(h_contents(h.GetNBins(), 0, 50));
  ShapeInterpConstraint con(h);
  Vd p; ParameterDict pd; bool inside = true; std::vector<size_t> lo(n.size());
  for (size_t d = 0; d < n.size(); d++) {
    p.push_back(sx_double(("p" + std::to_string(d)).c_str(), -12, 12)); pd[h_names[d]] = p[d];
    const BinAxis &a = h.GetAxes().GetAxis(d);
    if (p[d] < a.GetBinCentre(0) || p[d] > a.GetBinCentre(n[d] - 1)) inside = false;
    else while (lo[d] + 2 < (size_t)n[d] && p[d] >= a.GetBinCentre(lo[d] + 1)) lo[d]++;
  }
  pd["unrelated"] = 3;
  std::vector<Vd> locs;
  if (!inside) {
    SX_THROWS_ANY(h.GetLatticePointValues(p, locs), "a point outside the bin centres has no lattice and is refused");
    SX_THROWS_ANY(con.Evaluate(pd), "interpolating outside the bin centres is refused");
    sx_reach("outside"); return;
  }
  Vd v = h.GetLatticePointValues(p, locs);
  size_t N = 1u << n.size();
  sx_assert(v.size() == N && locs.size() == N, "two lattice points per axis");
  double mx = -1e9, mn = 1e9, blend = 0;
  for (size_t k = 0; k < N; k++) {
    std::vector<size_t> ix; double w = 1;
    sx_assert(locs[k].size() == n.size(), "lattice point has one coordinate per axis");
    for (size_t d = 0; d < n.size(); d++) {
      bool up = (k >> d) & 1; ix.push_back(lo[d] + up);
      const BinAxis &a = h.GetAxes().GetAxis(d); double c0 = a.GetBinCentre(lo[d]), c1 = a.GetBinCentre(lo[d] + 1);
      sx_assert(locs[k][d] == a.GetBinCentre(lo[d] + up), "lattice coordinate is the bracketing bin centre");
      sx_assert(up ? locs[k][d] >= p[d] : locs[k][d] <= p[d], "lattice brackets the point");
      double t = (p[d] - c0) / (c1 - c0); w *= up ? t : 1 - t;
    }
    double c = h.GetBinContent(h_flat(ix, n));
    sx_assert(v[k] == c, "lattice value is the content of that bin");
    blend += w * c;
  }
  sx_close(con.Evaluate(pd), blend, "interpolation is the multilinear blend of the lattice");
  sx_reach("inside");
}
SX_HARNESS(h_at_centres) {
  std::vector<int> n = shape();
  Histogram h(axes(n)); h.SetBinContents(h_contents(h.GetNBins(), 0, 50));
  ShapeInterpConstraint con(h); ConstraintManager cm2; cm2.SetConstraint("lab", h);
  size_t b = sx_choice("bin", h.GetNBins()); Vd c(n.size()); h.GetBinCentres(b, c);
  ParameterDict pd; for (size_t d = 0; d < n.size(); d++) pd[h_names[d]] = c[d];
  sx_close(con.Evaluate(pd), h.GetBinContent(b), "at a bin centre the stored value is returned");
  sx_close(cm2.Evaluate(pd), h.GetBinContent(b), "the manager's shape constraint is the interpolated value");
}
SX_HARNESS(h_range) { // between centres: never outside the bracketing contents (one axis: exact bounds)
  int nb = 2 + sx_choice("n", 3); Histogram h(axes({nb})); h.SetBinContents(h_contents(nb, 0, 50));
  ShapeInterpConstraint con(h); int k = sx_choice("gap", nb - 1);
  double a = h.GetBinCentre(k, 0), b = h.GetBinCentre(k + 1, 0), x = sx_double("z", -12, 12); sx_assume(x >= a); sx_assume(x <= b);
  ParameterDict pd; pd["z"] = x; double r = con.Evaluate(pd), u = h.GetBinContent(k), v = h.GetBinContent(k + 1);
  double lo = u < v ? u : v, hi = u < v ? v : u;
  sx_assert(r >= lo - 1e-9 && r <= hi + 1e-9, "the interpolated value lies between the bracketing contents");
}
SX_HARNESS(h_missing) {
  Histogram h(axes({2, 3})); ShapeInterpConstraint con(h); ParameterDict pd; pd["z"] = 0; if (sx_choice("k", 2)) { pd.clear(); pd["y"] = 0; }
  SX_THROWS(NotFoundError, con.Evaluate(pd), "a missing parameter is refused");
}
SX_HARNESS(h_more_axes) { // five and six axes of two bins: any contents, points at quarter distances
  size_t D = 5 + sx_choice("more", 2); AxisCollection a; for (size_t d = 0; d < D; d++) a.AddAxis(BinAxis("p_" + std::to_string(d), 0, 8, 2)); Histogram h(a); h.SetBinContents(h_contents(h.GetNBins(), 0, 50)); ShapeInterpConstraint con(h); ParameterDict pd; Vd p; int k = sx_choice("point", 4); for (size_t d = 0; d < D; d++) { p.push_back(2 + (d * 3 + k * 2 + 1) % 5); pd["p_" + std::to_string(d)] = p[d]; }
  double want = 0; std::vector<Vd> locs; Vd v = h.GetLatticePointValues(p, locs); sx_assert(v.size() == 1u << D && locs.size() == v.size(), "two lattice points per axis"); for (size_t b = 0; b < h.GetNBins(); b++) { double w = 1; for (size_t d = 0; d < D; d++) { double t = (p[d] - 2) / 4; w *= b >> (D - 1 - d) & 1 ? t : 1 - t; } want += w * h.GetBinContent(b); } sx_close(con.Evaluate(pd), want, "interpolation is the multilinear blend of the lattice");
}
SX_HARNESS(h_named) { // the names only say which parameter belongs to which axis
  static const char *const N[][3] = {{"long_name", "b", "cc"}, {"b", "a", "c"}, {"p_2", "p_10", "p_1"}, {"aa", "a", "AA"}}; int f = sx_choice("names", 4), which = sx_choice("which", 2), D = 2 + sx_choice("more", 2); std::vector<int> n = D == 2 ? std::vector<int>{2, 3} : std::vector<int>{3, 2, 2}; AxisCollection a; for (int d = 0; d < D; d++) a.AddAxis(BinAxis(N[f][d], 0, 4 * n[d], n[d])); Histogram h(a); h.SetBinContents(h_contents(h.GetNBins(), 0, 50)); ShapeInterpConstraint con(h); ConstraintManager m; m.SetConstraint("any", h); Vd p; ParameterDict pd; pd["b_"] = 77; std::vector<size_t> lo; for (int d = 0; d < D; d++) { p.push_back(d == which ? sx_double("p", 2, 6) : 3 + (d + f) % 3); pd[N[f][d]] = p[d]; } double want = 0; for (int k = 0; k < 1 << D; k++) { double w = 1; std::vector<size_t> ix; for (int d = 0; d < D; d++) { bool up = k >> d & 1; double t = (p[d] - 2) / 4; w *= up ? t : 1 - t; ix.push_back(up); } want += w * h.GetBinContent(h_flat(ix, n)); } sx_close(con.Evaluate(pd), want, "interpolation is the multilinear blend of the lattice"); sx_close(m.Evaluate(pd), want, "the manager's shape constraint is the interpolated value"); int miss = sx_choice("miss", D); pd.erase(N[f][miss]); SX_THROWS(NotFoundError, con.Evaluate(pd), "a missing parameter is refused");
}
