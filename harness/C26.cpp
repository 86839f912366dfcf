// C26: generated data sets
// SRC: DataSetGenerator.cpp OXSXDataSet.cpp Event.cpp ObsSet.cpp CutCollection.cpp BoolCut.cpp LineCut.cpp BoxCut.cpp Rand.cpp ContainerTools.cpp
// BOUNDS: every random number the generator can return and every Poisson count up to 3; one or two sources of up to 3 events with arbitrary second observables; every rate that rounds to between 0 and one more than the source holds; two draws in a row, then the leftovers, a reset and one more draw; every mixture of drawing with and without replacement, in order or at random
// OUTSIDE: negative rates; generators used on after a refused request; mixing sequential and random draws of one source; cuts applied to AllValidEvents or AllRemainingEvents; the distribution of Poisson counts
// ASSUME: ROOT's TRandom3 is replaced by a stand-in returning any multiple of 2^-32 in (0,1) and any Poisson count up to the bound
// BUDGET: 100
#include "hx.h"
#include <BoolCut.h>
#include <DataSetGenerator.h>
#include <Event.h>
#include <Exceptions.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <Rand.h>
#include <memory>
typedef std::vector<double> Vd; typedef std::vector<std::string> Vs; typedef std::vector<int> Vi;
static std::string N(int i) { return std::to_string(i); }
enum { REPLACE, ORDER, RANDOM };
struct Src { OXSXDataSet d; int n, mode; std::vector<Vd> ev; std::set<int> used; Src(int k, int size, int m) : n(size), mode(m) { d.SetObservableNames(Vs{"id", "x"}); for (int i = 0; i < n; i++) { ev.push_back(Vd{100. * k + i, sx_double(("x" + N(k) + N(i)).c_str(), -10, 10)}); d.AddEntry(Event(ev[i])); } }
  int left() const { return mode == REPLACE ? 1000 : n - (int)used.size(); }
  // entries [b,e) of the outcome are a valid draw from this source
  void check(const OXSXDataSet &o, size_t b, size_t e, int k) { for (size_t i = b; i < e; i++) { Vd v = o.GetEntry(i).GetData(); sx_assert(v.size() == 2, "events keep their observables"); int id = (int)v[0] - 100 * k; bool genuine = v[0] >= 100 * k && v[0] < 100 * k + n && v[0] == ev[id][0] && v[1] == ev[id][1]; sx_assert(genuine, "every event is one of its source's"); if (!genuine) return; if (mode != REPLACE) { sx_assert(!used.count(id), "no event is used twice"); if (mode == ORDER) sx_assert(id == (int)used.size(), "sequential draws take the events in order"); used.insert(id); } } }
};
typedef std::vector<std::unique_ptr<Src>> Srcs;
static Srcs sources(int k, int most, int modes = 3) { Srcs s; for (int i = 0; i < k; i++) { int n = (i ? 0 : 1) + sx_choice("size", most + (i ? 1 : 0)); int m = sx_choice("mode", modes); if (m == REPLACE && n == 0) m = ORDER; s.emplace_back(new Src(i, n, m)); } return s; }
static void setup(DataSetGenerator &g, Srcs &s, const Vd &r) { std::vector<bool> b; if (s.size() > 1 && sx_choice("add", 2)) for (size_t i = 0; i < s.size(); i++) g.AddDataSet(&s[i]->d, r[i], s[i]->mode == ORDER); else { std::vector<DataSet *> p; std::vector<bool> f; for (auto &x : s) { p.push_back(&x->d); f.push_back(x->mode == ORDER); } g.SetDataSets(p); g.SetExpectedRates(r); g.SetSequentialFlags(f); } for (auto &x : s) b.push_back(x->mode == REPLACE); g.SetBootstrap(b); sx_assert(g.GetBootstrap() == b && g.GetSequentialFlags().size() == s.size(), "the flags read back"); }
// a rate rounding to a chosen count
static Vd rates(const Srcs &s, Vi &want, int call) { Vd r; want.clear(); for (size_t i = 0; i < s.size(); i++) { int c = sx_choice(("count" + N(call)).c_str(), s[i]->n + 2); want.push_back(c); r.push_back(c + sx_double(("frac" + N(call) + N(i)).c_str(), c ? -0.49 : 0, 0.49)); } return r; }
static bool draw(DataSetGenerator &g, Srcs &s, const Vi &want, bool poisson) { // true if it came through
  size_t before = sx_counts().size(); Vi taken(1, 77); std::unique_ptr<OXSXDataSet> o; bool refused = false; try { o.reset(new OXSXDataSet(poisson ? g.PoissonFluctuatedDataSet(&taken) : g.ExpectedRatesDataSet(&taken))); } catch (const NotFoundError &) { refused = true; }
  Vi c = want; if (poisson) c.assign(sx_counts().begin() + before, sx_counts().end()); bool enough = true; for (size_t i = 0; i < c.size() && enough; i++) if (c[i] > s[i]->left()) enough = false; sx_assert(refused == !enough, "requests beyond what is left are refused, others are not"); if (refused || !enough) return false;
  sx_assert(c.size() == s.size() && taken == c, "the counts taken are the counts requested"); sx_assert(o->GetObservableNames() == (Vs{"id", "x"}), "the observables are the sources'"); size_t tot = 0; for (int x : c) tot += x; sx_assert(o->GetNEntries() == tot, "the set holds the requested number of events"); if (o->GetNEntries() != tot || c.size() != s.size()) return false; size_t b = 0; for (size_t i = 0; i < s.size(); i++) { s[i]->check(*o, b, b + c[i], i); b += c[i]; } return true; }
static void leftovers(DataSetGenerator &g, Srcs &s) { for (size_t i = 0; i < s.size(); i++) { int n = -5; std::unique_ptr<OXSXDataSet> o(g.AllRemainingEvents(i, &n)); size_t want = s[i]->mode == REPLACE ? s[i]->n : s[i]->left(); sx_assert(o->GetNEntries() == want && n == (int)want, "the leftover set holds what was not used"); std::set<int> seen; for (size_t j = 0; j < o->GetNEntries(); j++) { Vd v = o->GetEntry(j).GetData(); int id = (int)v[0] - 100 * (int)i; sx_assert(id >= 0 && id < s[i]->n && v == s[i]->ev[id], "leftovers are genuine events"); sx_assert(!s[i]->used.count(id) && !seen.count(id), "leftovers are the unused events, once each"); seen.insert(id); } sx_assert(o->GetObservableNames() == (Vs{"id", "x"}), "the observables are the sources'"); } }
static void story(int k, int most, bool poisson) { Srcs s = sources(k, most); Vi want; DataSetGenerator g; setup(g, s, rates(s, want, 0)); if (!draw(g, s, want, poisson)) return; g.SetExpectedRates(rates(s, want, 1)); if (!draw(g, s, want, poisson)) return; leftovers(g, s); if (k > 1 || (!h_thorough() && (int)s[0]->n > 2)) return; g.Reset(); for (auto &x : s) x->used.clear(); leftovers(g, s); if (poisson) return; for (size_t i = 0; i < s.size(); i++) want[i] = s[i]->n; Vd r(want.begin(), want.end()); g.SetExpectedRates(r); sx_assert(draw(g, s, want, false), "after a reset everything can be drawn again"); leftovers(g, s); }
SX_HARNESS(h_one) { story(1, 3, false); }
SX_HARNESS(h_two) { Srcs s = sources(2, 2); Vi want; DataSetGenerator g; setup(g, s, rates(s, want, 0)); if (draw(g, s, want, false)) leftovers(g, s); }
SX_HARNESS(h_poisson) { sx_maxcount() = 3; story(1, h_thorough() ? 3 : 2, true); }
SX_HARNESS(h_poisson_two) { sx_maxcount() = 2; Srcs s = sources(2, 2); Vi want; DataSetGenerator g; setup(g, s, Vd(2, 1.5)); if (draw(g, s, want, true)) leftovers(g, s); }
SX_HARNESS(h_uniform) { // equal slices of the random number lead to different events: every unused event is equally likely
  int n = 2 + sx_choice("size", h_thorough() ? 3 : 2), mode = sx_choice("mode", 2) ? RANDOM : REPLACE, pre = mode == RANDOM ? sx_choice("before", n - 1) : 0; bool poi = sx_choice("poisson", 2); sx_maxcount() = 1; Src s(0, n, mode); int id[2]; double u[2]; Vd first; for (int k = 0; k < 2; k++) { DataSetGenerator g; g.AddDataSet(&s.d, pre, false); g.SetBootstrap(std::vector<bool>(1, mode == REPLACE)); size_t b = sx_draws().size(); g.ExpectedRatesDataSet(); for (int i = 0; i < pre; i++) { if (k) sx_assume(sx_draws()[b + i] == first[i]); else first.push_back(sx_draws()[b + i]); } b = sx_draws().size(); g.SetExpectedRates(Vd(1, 1)); OXSXDataSet o = poi ? g.PoissonFluctuatedDataSet() : g.ExpectedRatesDataSet(); if (poi) sx_assume(sx_counts().back() == 1); sx_assert(sx_draws().size() == b + 1, "one random number per event"); u[k] = sx_draws().back(); id[k] = (int)o.GetEntry(0).GetData()[0]; }
  int m = n - pre, c = sx_choice("cell", m), d = sx_choice("other", m); sx_assume(c != d); sx_assume(u[0] * m >= c && u[0] * m < c + 1 && u[1] * m >= d && u[1] * m < d + 1); sx_assert(id[0] != id[1], "every unused event is equally likely"); }
SX_HARNESS(h_cuts) { // drawn events that fail the cuts are dropped, and count as used
  int n = 1 + sx_choice("size", h_thorough() ? 3 : 2), mode = sx_choice("mode", 3); Srcs s; s.emplace_back(new Src(0, n, mode)); DataSetGenerator g; g.AddDataSet(&s[0]->d, n, mode == ORDER); g.SetBootstrap(std::vector<bool>(1, mode == REPLACE)); double lo = sx_double("lo", -10, 10); LineCut cut("c", "x", lo, "lower"); if (sx_choice("all", 2)) { CutCollection cc; cc.AddCut(cut); g.SetCuts(cc); } else g.AddCut(cut); bool poi = mode != REPLACE && sx_choice("poisson", 2); sx_maxcount() = n; Vi taken; OXSXDataSet o = poi ? g.PoissonFluctuatedDataSet(&taken) : g.ExpectedRatesDataSet(&taken); int want = 0; for (auto &e : s[0]->ev) want += e[1] > lo; if (!poi) { sx_assert(taken == Vi(1, n), "the counts taken are the counts requested"); if (mode != REPLACE) sx_assert((int)o.GetNEntries() == want, "the events passing the cuts are kept"); } std::set<int> seen; for (size_t i = 0; i < o.GetNEntries(); i++) { Vd v = o.GetEntry(i).GetData(); int id = (int)v[0]; sx_assert(id >= 0 && id < n && v == s[0]->ev[id] && v[1] > lo, "every event passes the cuts"); if (mode != REPLACE) { sx_assert(!seen.count(id), "no event is used twice"); seen.insert(id); } } int k; std::unique_ptr<OXSXDataSet> r(g.AllRemainingEvents(0, &k)); if (mode != REPLACE) sx_assert(k == n - taken[0], "events that fail the cuts count as used"); }
SX_HARNESS(h_all) { Srcs s = sources(2, 3, 1); for (auto &x : s) x->mode = RANDOM; DataSetGenerator g; Vi want; setup(g, s, Vd(2, 0)); if (sx_choice("before", 2)) { g.SetExpectedRates(Vd{1, 0}); g.ExpectedRatesDataSet(); } Vi t(2, 5); OXSXDataSet o = g.AllValidEvents(&t); sx_assert(o.GetNEntries() == (size_t)(s[0]->n + s[1]->n) && t == (Vi{s[0]->n, s[1]->n}), "all events of all sources"); size_t b = 0; for (auto &x : s) for (auto &e : x->ev) sx_assert(o.GetEntry(b++).GetData() == e, "all events of all sources, in order"); }
SX_HARNESS(h_refused) { Src a(0, 1, ORDER), e(1, 0, REPLACE); DataSetGenerator g; int w = sx_choice("what", 6); std::vector<DataSet *> one{&a.d}, none; if (w == 0) { g.SetDataSets(one); g.SetExpectedRates(Vd{1, 1}); } if (w == 1) { g.SetDataSets(one); } if (w == 2) { g.SetDataSets(none); } if (w < 3) { SX_THROWS(LogicError, g.ExpectedRatesDataSet(), "one rate per source is needed"); SX_THROWS(LogicError, g.PoissonFluctuatedDataSet(), "one rate per source is needed"); return; } if (w == 3) { g.AddDataSet(&a.d, 1, true); SX_THROWS(NotFoundError, g.ExpectedRatesDataSet(), "flags are needed"); SX_THROWS(NotFoundError, g.PoissonFluctuatedDataSet(), "flags are needed"); } if (w == 4) { g.SetDataSets(one); g.SetExpectedRates(Vd{1}); g.SetBootstrap(std::vector<bool>(1, false)); SX_THROWS(NotFoundError, g.ExpectedRatesDataSet(), "flags are needed"); SX_THROWS(NotFoundError, g.PoissonFluctuatedDataSet(), "flags are needed"); } if (w == 5) { g.AddDataSet(&e.d, 1, false); g.SetBootstrap(std::vector<bool>(1, true)); SX_THROWS(NotFoundError, g.ExpectedRatesDataSet(), "nothing can be drawn from an empty source"); g.ClearDataSets(); SX_THROWS(LogicError, g.ExpectedRatesDataSet(), "no sources left"); g.AddDataSet(&a.d, 1, true); g.SetBootstrap(std::vector<bool>(1, false)); sx_assert(g.ExpectedRatesDataSet().GetNEntries() == 1, "sources can be added again"); } }
SX_HARNESS(h_exchanged) { // other sources in place of those drawn from
  int k = 1 + sx_choice("first", 2); Srcs a, b; for (int i = 0; i < k; i++) a.emplace_back(new Src(i, 2 + i, i ? ORDER : sx_choice("mode", 2) ? RANDOM : ORDER)); int m = 1 + sx_choice("then", 2); for (int i = 0; i < m; i++) b.emplace_back(new Src(i + 5, 1 + sx_choice(("size" + N(i)).c_str(), 3), i ? ORDER : a[0]->mode)); DataSetGenerator g; auto put = [&](Srcs &s) { std::vector<DataSet *> p; std::vector<bool> f; for (auto &x : s) { p.push_back(&x->d); f.push_back(x->mode == ORDER); } g.SetDataSets(p); g.SetSequentialFlags(f); g.SetBootstrap(std::vector<bool>(s.size(), false)); };
  put(a); g.SetExpectedRates(Vd(k, 1 + sx_choice("drawn", 2))); g.ExpectedRatesDataSet(); put(b); Vd r; Vi want; for (auto &x : b) { want.push_back(x->n); r.push_back(x->n); } g.SetExpectedRates(r); Vi taken; OXSXDataSet o = g.ExpectedRatesDataSet(&taken); size_t at = 0; sx_assert(taken == want, "the counts taken are the counts requested"); for (int i = 0; i < m; i++) { sx_assert(o.GetNEntries() >= at + want[i], "the set holds the requested number of events"); if (o.GetNEntries() < at + want[i]) return; b[i]->check(o, at, at + want[i], i + 5); at += want[i]; } sx_assert(o.GetNEntries() == at, "the set holds the requested number of events"); for (int i = 0; i < m; i++) { int n = -5; std::unique_ptr<OXSXDataSet> l(g.AllRemainingEvents(i, &n)); sx_assert(n == 0 && l->GetNEntries() == 0, "the leftover set holds what was not used"); } }
