// C11: filling a distribution from a data set
// SRC: DistFiller.cpp BinnedED.cpp EventDistribution.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp CutCollection.cpp CutLog.cpp BoxCut.cpp LineCut.cpp BoolCut.cpp EventShift.cpp EventScale.cpp EventSystematic.cpp EventSystematicManager.cpp Event.cpp ObsSet.cpp ContainerTools.cpp OXSXDataSet.cpp
// BOUNDS: data sets of up to 3 events with 2 observables, any values that are multiples of 1/256 (so that sums are exact) in [-20,20]; 1D and 2D distributions; up to 2 cuts with any limits; shifts of any size; any requested number of events; single runs of many items
#include "hx.h"
#include <BinnedED.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <DistFiller.h>
#include <Event.h>
#include <EventScale.h>
#include <EventShift.h>
#include <Exceptions.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static void run(int maxEv, int dims) {
  int nev = sx_choice("nevents", maxEv + 1), nc = sx_choice("ncuts", 3), ns = sx_choice("nsys", dims == 1 ? 3 : 2); bool log = sx_choice("log", 2);
  OXSXDataSet ds; ds.SetObservableNames(Vs{"a", "z", "y"}); std::vector<Vd> ev;
  for (int i = 0; i < nev; i++) { Vd v{7, sx_grid(("z" + std::to_string(i)).c_str(), -20, 20, -8), sx_grid(("y" + std::to_string(i)).c_str(), -20, 20, -8)}; ev.push_back(v); ds.AddEntry(Event(v)); }
  AxisCollection ax; ax.AddAxis(h_axis("y", 2, 2)); if (dims == 2) ax.AddAxis(h_axis("z", 2, 1));
  BinnedED pdf("p", ax); pdf.SetObservables(dims == 2 ? Vs{"y", "z"} : Vs{"y"}); Vd base; for (size_t i = 0; i < pdf.GetNBins(); i++) base.push_back(3 + i); pdf.SetBinContents(base);
  CutCollection cuts; Vs cn; double lo = 0, hi = 0, l2 = 0;
  if (nc > 0) { lo = sx_grid("lo", -20, 20, -8); hi = sx_grid("hi", -20, 20, -8); cuts.AddCut(BoxCut("box", "z", lo, hi)); cn.push_back("box"); }
  if (nc > 1) { l2 = sx_grid("l2", -20, 20, -8); cuts.AddCut(LineCut("line", "y", l2, "lower")); cn.push_back("line"); }
  EventShift sh("sh"); EventScale sc("sc"); EventSystematicManager sm; double s = 0, f = 1;
  if (ns > 0) { s = sx_grid("s", -20, 20, -8); sh.SetShift(s); sh.SetOutObservables(Vs(1, "y")); sm.Add(&sh); }
  if (ns > 1) { f = 2; sc.SetScale(f); sc.SetOutObservables(Vs(1, "y")); sm.Add(&sc); }
  int req = sx_choice("requested", nev + 2) - 1; // -1: all, 0..nev
  int used = req < 0 ? nev : req;
  Vd want = base; int pass = 0; std::vector<int> rej(nc, 0);
  CutLog cl(cn);
  if (log) DistFiller::FillDist(pdf, ds, cuts, cl, sm, req); else DistFiller::FillDist(pdf, ds, cuts, sm, req);
  for (int i = 0; i < used; i++) {
    double x = ev[i][1], y = (ev[i][2] + s) * f;
    if (nc > 0 && !(x > lo && x < hi)) { rej[0]++; continue; }
    if (nc > 1 && !(y > l2)) { rej[1]++; continue; }
    pass++; std::vector<size_t> ix{(size_t)(y < -1.5 ? 0 : 1)}; if (dims == 2) ix.push_back(x < -0.5 ? 0 : 1);
    want[dims == 2 ? ix[0] * 2 + ix[1] : ix[0]] += 1;
  }
  Vd got = pdf.GetBinContents(); sx_assert(got.size() == want.size(), "binning unchanged"); double tot = 0;
  for (size_t i = 0; i < want.size(); i++) { sx_assert(got[i] == want[i], "each bin gains exactly the passing events that fall in it"); tot += base[i]; }
  sx_close(pdf.Integral(), tot + pass, "the integral grows by the number of passing events");
  if (log) { cl.CalculateMeta(); std::vector<int> c = cl.GetCutCounts(); for (int i = 0; i < nc; i++) sx_assert(c[i] == rej[i], "the log attributes every rejected event"); }
  for (int i = 0; i < nev; i++) sx_assert(ds.GetEntry(i).GetDatum(2) == ev[i][2], "the data set is unchanged");
}
SX_HARNESS(h_fill1d) { run(h_thorough() ? 3 : 2, 1); }
SX_HARNESS(h_fill2d) { run(h_thorough() ? 3 : 2, 2); }
SX_HARNESS(h_edge) { // more events than there are, no matching observable
  OXSXDataSet ds; ds.SetObservableNames(Vs{"z"}); int n = sx_choice("n", 3); for (int i = 0; i < n; i++) ds.AddEntry(Event(Vd(1, sx_double(("z" + std::to_string(i)).c_str(), -5, 5))));
  AxisCollection ax; ax.AddAxis(h_axis("z", 2, 0)); BinnedED p("p", ax); 
  if (sx_choice("what", 2)) { p.SetObservables(Vs{"z"}); SX_THROWS(NotFoundError, DistFiller::FillDist(p, ds, CutCollection(), EventSystematicManager(), n + 1 + sx_choice("extra", 2)), "asking for more events than there are is refused"); }
  else { p.SetObservables(Vs{"q"}); if (n) { SX_THROWS(NotFoundError, DistFiller::FillDist(p, ds), "a missing observable is refused"); sx_assert(p.Integral() == 0, "a refused event is not counted"); } else { DistFiller::FillDist(p, ds); sx_assert(p.Integral() == 0, "nothing to fill"); } }
}
SX_HARNESS(h_many) { // thirty events, four axes and cuts alike in name, filled twice over different ranges
  Vs nm{"e_1", "e", "E", "e_10", "ee"}; OXSXDataSet ds; ds.SetObservableNames(nm); double x = sx_grid("x", -4, 4, -3), s = sx_grid("s", -2, 2, -1); std::vector<Vd> ev; for (int i = 0; i < 30; i++) { Vd v; for (int j = 0; j < 5; j++) v.push_back(i == 17 && j == 1 ? x : ((i * 7 + j * 5) % 31 - 15) * 0.25); ev.push_back(v); ds.AddEntry(Event(v)); }
  AxisCollection ax; static const int A[] = {3, 1, 4, 2}; for (int i : A) ax.AddAxis(BinAxis(nm[i], -1, 1, 2)); BinnedED p("p", ax); Vs o; for (int i : A) o.push_back(nm[i]); p.SetObservables(o); CutCollection cuts; Vs cn; for (int i = 0; i < 5; i++) { cn.push_back(i == 2 ? "c" : "c_" + std::to_string(i)); cuts.AddCut(BoxCut(cn[i], nm[(i * 2) % 5], -3.9 + 0.25 * i, 3.9)); } CutLog cl(cn); EventShift sh("sh"); sh.SetShift(s); sh.SetOutObservables(Vs{"e"}); EventSystematicManager sm; sm.Add(&sh); std::vector<int> rej(5, 0); Vd want(16, 0); for (int rep = 0; rep < 2; rep++) { int used = rep ? 12 : 30; DistFiller::FillDist(p, ds, cuts, cl, sm, rep ? 12 : -1);
    for (int k = 0; k < used; k++) { Vd v = ev[k]; v[1] = v[1] + s; int f = -1; for (int i = 0; i < 5 && f < 0; i++) { double y = v[(i * 2) % 5]; double y0 = ev[k][(i * 2) % 5]; bool ok = y > -3.9 + 0.25 * i && y < 3.9; (void)y0; if (!ok) f = i; } if (f >= 0) { rej[f]++; continue; } size_t b = 0; for (int i : A) b = b * 2 + (v[i] >= 0); want[b] += 1; } }
  sx_assert(p.GetBinContents() == want, "each bin gains exactly the passing events that fall in it"); cl.CalculateMeta(); sx_assert(cl.GetCutCounts() == rej && cl.GetCutNames() == cn, "the log attributes every rejected event");
}
