// C32: files and lazily loaded data
// SRC: IO.cpp OXSXDataSet.cpp LazyOXSXDataSet.cpp ROOTNtuple.cpp ROOTTree.cpp DistTools.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp Event.cpp ObsSet.cpp BinnedED.cpp EventDistribution.cpp ContainerTools.cpp
// FLAGS: -include floatasdouble.h
// BOUNDS: data sets of 0 to 3 entries with 0 to 3 observables, and of 10001 to 10005 (thorough 30001) numbers written in several pieces with arbitrary values at the piece borders; histograms of 1 to 3 axes with up to 12 bins, even, uneven and arbitrary edges; every value; names empty, short, with spaces and of 200 characters; two lazily loaded sets (and copies) used in turn, 3 accesses (thorough 4)
// OUTSIDE: names containing ':'; data sets without observables but with entries; files of a million entries and more (read in chunks); ROOT files hold single precision, so values they cannot hold exactly
// ASSUME: HDF5 and ROOT are replaced by in-memory stand-ins that check types, selections and sizes as HDF5 does; the symbolic run stores ROOT's single precision numbers as doubles, for values single precision holds exactly (the native replay uses float)
#include "hx.h"
#include <DataSet.h>
#include <Event.h>
#include <Exceptions.h>
#include <H5Cpp.h>
#include <IO.h>
#include <LazyOXSXDataSet.h>
#include <OXSXDataSet.h>
#include <ROOTNtuple.h>
#include <ROOTTree.h>
#include <TFile.h>
#include <TH1D.h>
#include <TNtuple.h>
#include <TTree.h>
#include <memory>
typedef std::vector<double> Vd; typedef std::vector<int> Vi; typedef std::string S; typedef std::vector<S> Vs;
static S N(int i) { return std::to_string(i); }
static Vs names(int n) { static const Vs c[] = {{"z", "y", "x"}, {"r", "energy (MeV)", "E"}, {S(200, 'q'), "b", "cos_theta"}, {"b", "", "a"}}; const Vs &s = c[sx_choice("names", 4)]; return Vs(s.begin(), s.begin() + n); }
struct Own : DataSet { std::vector<Vd> e; Vs nm; unsigned obs; Event GetEntry(size_t i) const { Event v(e.at(i)); v.SetObservableNames(&nm); return v; } unsigned GetNEntries() const { return e.size(); } unsigned GetNObservables() const { return obs; } Vs GetObservableNames() const { return nm; } };
static Own make(const Vs &nm, int n, const S &tag = "", int gran = -2000) { Own o; o.nm = nm; o.obs = nm.size(); for (int i = 0; i < n; i++) { Vd v; for (size_t k = 0; k < nm.size(); k++) v.push_back(sx_double(("d" + tag + N(i) + N(k)).c_str(), -1000, 1000, gran)); o.e.push_back(v); } return o; }
static void same(const DataSet &d, const Own &o) { sx_assert(d.GetNEntries() == o.e.size(), "every entry is there"); sx_assert(d.GetObservableNames() == o.nm, "the names are kept"); if (d.GetNEntries() != o.e.size()) return; for (size_t i = 0; i < o.e.size(); i++) { Event v = d.GetEntry(i); sx_assert(v.GetData().size() == o.obs && v.GetObservableNames() == o.nm, "events keep their observables"); if (v.GetData().size() != o.obs) return; for (size_t k = 0; k < o.obs; k++) { sx_assert(v.GetData()[k] == o.e[i][k], "values come back exactly, in order"); if (v.GetObservableNames() == o.nm) sx_assert(v.GetDatum(o.nm[k]) == o.e[i][k], "values are found by name"); } } if (o.e.size()) sx_assert(d.GetNObservables() == o.obs, "the observables are counted"); }
static OXSXDataSet oxsx(const Own &o) { OXSXDataSet d; d.SetObservableNames(o.nm); for (auto &e : o.e) d.AddEntry(Event(e)); return d; }
static const char *const files[] = {"a.h5", "./some.dir/a.b.h5"};
SX_HARNESS(h_sets) { int obs = 1 + sx_choice("obs", 3), n = sx_choice("entries", 4); Own o = make(names(obs), n); S f = files[sx_choice("file", 2)]; if (sx_choice("overwrite", 2)) IO::SaveDataSet(make(Vs{"old"}, 2, "o"), f); OXSXDataSet d = oxsx(o); bool own = sx_choice("own", 2); const DataSet &w = own ? (const DataSet &)o : d; if (sx_choice("direct", 2)) IO::SaveDataSetH5(w, f); else IO::SaveDataSet(w, f); std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet(f)), again(IO::LoadDataSet(f)); same(*l, o); same(w, o); Own p = o; p.e.push_back(Vd(obs, 7)); l->AddEntry(Event(p.e.back())); same(*l, p); same(*again, o); }
SX_HARNESS(h_empty) { OXSXDataSet d; if (sx_choice("names", 2)) d.SetObservableNames(Vs{"a", "b"}); IO::SaveDataSet(d, "e.h5"); std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet("e.h5")); sx_assert(l->GetNEntries() == 0 && l->GetObservableNames() == d.GetObservableNames(), "a data set without entries comes back"); }
// the values around the places where the data might be cut are arbitrary, the others count up
SX_HARNESS(h_pieces) { static const int sz[][2] = {{1, 10001}, {3, 3335}, {2, 5001}, {1, 30001}, {3, 13334}}; int c = sx_choice("size", h_thorough() ? 5 : 3), obs = sz[c][0], n = sz[c][1]; Own o; o.nm = Vs(h_names, h_names + obs); o.obs = obs; int pieces = n * obs / 10000 + 1; for (int i = 0; i < n; i++) { Vd v; for (int k = 0; k < obs; k++) v.push_back(i * obs + k); o.e.push_back(v); } for (int b = 0; b <= pieces; b++) for (int q = -1; q < 1; q++) { int i = b * (n / pieces) + q; if (b == pieces) i = n - 1 + q; if (i >= 0 && i < n) for (int k = 0; k < obs; k++) o.e[i][k] = sx_double(("d" + N(i) + N(k)).c_str(), -1000, 1000); } IO::SaveDataSet(o, "big.h5"); std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet("big.h5")); sx_assert(l->GetNEntries() == o.e.size() && l->GetObservableNames() == o.nm, "every entry is there"); if (l->GetNEntries() != o.e.size()) return; bool ok = true; for (int i = 0; i < n && ok; i++) { Vd v = l->GetEntry(i).GetData(); ok = v.size() == (size_t)obs; for (int k = 0; k < obs && ok; k++) ok = v[k] == o.e[i][k]; } sx_assert(ok, "values come back exactly, in order"); }
static BinAxis axis(int k, int n, const S &nm, const S &tex) { int kind = sx_choice("kind", 3); if (kind == 0) return BinAxis(nm, -1, -1 + 0.5 * n, n, tex); Vd e; static const double u[] = {-2, -1.5, 0, 3, 4, 7}; for (int i = 0; i <= n; i++) e.push_back(kind == 1 ? u[i] : sx_double(("e" + N(k) + N(i)).c_str(), 10 * i, 10 * i + 9)); return BinAxis(nm, Vd(e.begin(), e.end() - 1), Vd(e.begin() + 1, e.end()), tex); }
static Vi shape(int dims) { static const std::vector<Vi> a{{1}, {2}, {4}}, b{{2, 3}, {3, 2}, {1, 4}}, c{{2, 3, 2}}; const std::vector<Vi> &s = dims == 1 ? a : dims == 2 ? b : c; return s[sx_choice("shape", s.size())]; }
static Histogram hist(int dims) { static const Vs nm[] = {{"z", "y", "x"}, {"b", "", S(100, 'r')}}; Vi n = shape(dims); int c = sx_choice("names", 2); bool tex = sx_choice("latex", 2); AxisCollection a; for (int k = 0; k < dims; k++) a.AddAxis(axis(k, n[k], nm[c][k], tex ? "$\\mathrm{" + nm[c][k] + "}$" : "")); Histogram h(a); for (size_t i = 0; i < h.GetNBins(); i++) h.SetBinContent(i, sx_double(("c" + N(i)).c_str(), -100, 100)); return h; }
SX_HARNESS(h_hists) { Histogram h = hist(1 + sx_choice("dims", 3)); S f = files[sx_choice("file", 2)]; if (sx_choice("direct", 2)) IO::SaveHistogramH5(h, f); else IO::SaveHistogram(h, f); Histogram l = IO::LoadHistogram(f); sx_assert(l.GetNDims() == h.GetNDims() && l.GetNBins() == h.GetNBins(), "the shape is kept"); if (l.GetNDims() != h.GetNDims() || l.GetNBins() != h.GetNBins()) return; for (size_t k = 0; k < h.GetNDims(); k++) { const BinAxis &a = l.GetAxes().GetAxis(k), &b = h.GetAxes().GetAxis(k); sx_assert(a.GetName() == b.GetName() && a.GetLatexName() == b.GetLatexName(), "axis names are kept"); sx_assert(a.GetBinLowEdges() == b.GetBinLowEdges() && a.GetBinHighEdges() == b.GetBinHighEdges(), "bin edges are kept"); } for (size_t i = 0; i < h.GetNBins(); i++) sx_assert(l.GetBinContent(i) == h.GetBinContent(i), "contents come back exactly, in order"); }
SX_HARNESS(h_root_sets) { int obs = 1 + sx_choice("obs", 3), n = sx_choice("entries", 4); Own o = make(Vs(h_names, h_names + obs), n, "", -8); OXSXDataSet d = oxsx(o); bool dflt = sx_choice("default", 2); if (dflt) IO::SaveDataSet(d, "t.root"); else IO::SaveDataSet(d, "t.root", "mine"); ROOTNtuple r("t.root", dflt ? "oxsx_saved" : "mine"); same(r, o); sx_assert((int)r.GetNObservables() == obs, "the observables are counted"); SX_THROWS(NotFoundError, r.GetEntry(n), "entries past the end are refused"); r.LoadBaskets(); r.DropBaskets(); same(r, o); SX_THROWS(IOError, ROOTNtuple("u.root", "mine"), "missing files are refused"); SX_THROWS(IOError, ROOTNtuple("t.root", "other"), "missing trees are refused"); }
SX_HARNESS(h_root_trees) { int obs = 1 + sx_choice("obs", 3), n = sx_choice("entries", 4); Own o = make(Vs(h_names, h_names + obs), n); TFile f("t.root", "RECREATE"); TTree *t = new TTree("tree", ""); Vd at(obs); for (int k = 0; k < obs; k++) t->Branch(h_names[k], &at[k], (S(h_names[k]) + "/D").c_str()); for (auto &e : o.e) { at = e; t->Fill(); } f.Put("tree", t); ROOTTree r("t.root", "tree"); same(r, o); SX_THROWS(NotFoundError, r.GetEntry(n), "entries past the end are refused"); SX_THROWS(IOError, ROOTTree("u.root", "tree"), "missing files are refused"); SX_THROWS(IOError, ROOTTree("t.root", "other"), "missing trees are refused"); SX_THROWS(IOError, ROOTNtuple("t.root", "tree"), "trees that are no ntuples are refused"); IO::SaveDataSet(r, "copy.h5"); std::unique_ptr<OXSXDataSet> l(IO::LoadDataSet("copy.h5")); same(*l, o); }
SX_HARNESS(h_root_hists) { int d = 1 + sx_choice("dims", 2); Histogram h = hist(d); IO::SaveHistogram(h, "h.root", "mine"); sx_assert(sx_savedhists().count("h.root"), "the histogram is written"); TH1 *t = sx_savedhists()["h.root"]; if (!t) return; sx_assert(t->GetName() == S("mine") && t->GetDimension() == d, "the histogram has the name asked for"); const TAxis *a[] = {t->GetXaxis(), t->GetYaxis()}; for (int k = 0; k < d; k++) { const BinAxis &b = h.GetAxes().GetAxis(k); sx_assert(a[k]->GetNbins() == (int)b.GetNBins(), "the shape is kept"); if (a[k]->GetNbins() != (int)b.GetNBins()) return; for (size_t i = 0; i < b.GetNBins(); i++) sx_assert(a[k]->GetBinLowEdge(i + 1) == b.GetBinLowEdge(i) && a[k]->GetBinUpEdge(i + 1) == b.GetBinHighEdge(i), "bin edges are kept"); } int ny = d > 1 ? a[1]->GetNbins() : 1; for (size_t i = 0; i < h.GetNBins(); i++) sx_assert(t->GetBinContent(d > 1 ? t->GetBin(i / ny + 1, i % ny + 1) : i + 1) == h.GetBinContent(i), "contents are kept"); }
SX_HARNESS(h_refused) { static const char *const bad[] = {"a.txt", "noextension", "a.h5.old", "a.root.gz", "a.H5", "a."}; S f = bad[sx_choice("file", 6)]; Own o = make(Vs{"a", "b"}, 1); SX_THROWS(IOError, IO::SaveDataSet(o, f), "unknown extensions are refused"); Histogram h(h_axes(Vi{2})); SX_THROWS(IOError, IO::SaveHistogram(h, f), "unknown extensions are refused"); SX_THROWS(IOError, IO::LoadDataSet("missing.h5"), "missing files are refused"); SX_THROWS(IOError, IO::LoadHistogram("missing.h5"), "missing files are refused"); Own p = o; p.nm.push_back("c"); SX_THROWS(IOError, IO::SaveDataSet(p, "a.h5"), "one name per observable is needed"); p.nm.resize(1); SX_THROWS(IOError, IO::SaveDataSet(p, "a.h5"), "one name per observable is needed"); SX_THROWS(IOError, IO::SaveHistogram(Histogram(h_axes(Vi{2, 2, 2})), "a.root"), "three dimensions do not go into ROOT files"); }
SX_HARNESS(h_lazy) { Own o[2] = {make(Vs{"z", "y"}, 2, "0"), make(Vs{"b"}, 1, "1")}; IO::SaveDataSet(o[0], "0.h5"); IO::SaveDataSet(o[1], "1.h5"); std::vector<std::unique_ptr<LazyOXSXDataSet>> l; std::vector<int> is{0, 1}; l.emplace_back(new LazyOXSXDataSet("0.h5")); l.emplace_back(new LazyOXSXDataSet("1.h5")); if (sx_choice("copied", 2)) { if (sx_choice("loaded", 2)) l[0]->GetNEntries(); l.emplace_back(new LazyOXSXDataSet(*l[0])); is.push_back(0); if (sx_choice("gone", 2)) { l.erase(l.begin()); is.erase(is.begin()); } }
  // events handed out stay readable while their data set lives, whichever file is loaded
  std::vector<Event> ev; std::vector<std::pair<int, int>> from; for (int s = 0, most = h_thorough() ? 4 : 3; s < most; s++) { int k = sx_choice("which", l.size()); const Own &w = o[is[k]]; switch (sx_choice("what", s < 1 ? 3 : 1)) { case 0: ev.push_back(l[k]->GetEntry(w.e.size() - 1)); from.push_back({is[k], (int)w.e.size() - 1}); break; case 1: sx_assert(l[k]->GetNEntries() == w.e.size() && l[k]->GetNObservables() == w.obs, "every entry is there"); break; case 2: { int m = sx_choice("to", 2); *l[k] = LazyOXSXDataSet(N(m) + ".h5"); is[k] = m; for (size_t q = 0; q < ev.size();) { ev.clear(); from.clear(); } break; } } same(*l[k], o[is[k]]); for (size_t q = 0; q < ev.size(); q++) { const Own &x = o[from[q].first]; sx_assert(ev[q].GetObservableNames() == x.nm, "events keep their observables"); if (ev[q].GetObservableNames() == x.nm) sx_assert(ev[q].GetDatum(x.nm[0]) == x.e[from[q].second][0], "events keep their values"); } if (sx_choice("close", 2)) l[k]->Close(); } }
SX_HARNESS(h_lazy_first) { // whatever is asked first loads the file
  Own o = make(Vs{"z", "y"}, 2); IO::SaveDataSet(o, "0.h5"); LazyOXSXDataSet l("0.h5"), m("0.h5"); int how = sx_choice("how", 3); if (how == 1) l.GetNEntries(), l.Close(); if (how == 2) l.GetNEntries(), m.GetNEntries(); switch (sx_choice("first", 4)) { case 0: sx_assert(l.GetNObservables() == 2, "the observables are counted"); break; case 1: sx_assert(l.GetNEntries() == 2, "every entry is there"); break; case 2: sx_assert(l.GetObservableNames() == o.nm, "the names are kept"); break; default: { Event e = l.GetEntry(1); sx_assert(e.GetObservableNames() == o.nm && e.GetDatum("y") == o.e[1][1], "values come back exactly, in order"); } } same(l, o); same(m, o);
}
