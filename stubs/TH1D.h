// Stand-in for ROOT's histograms: bins 0 and n+1 of each axis are the under- and overflow.
#ifndef SX_TH1D
#define SX_TH1D
#include <map>
#include <string>
#include <vector>
#include <TROOTFile.h>
class TAxis {
public:
  std::vector<double> e; std::string title;
  TAxis() {} TAxis(int n, const double *x) : e(x, x + n + 1) {} TAxis(int n, double lo, double hi) { for (int i = 0; i <= n; i++) e.push_back(i == n ? hi : lo + i * (hi - lo) / n); }
  int GetNbins() const { return (int)e.size() - 1; } double GetBinLowEdge(int i) const { return i < 1 || i > GetNbins() ? e[0] : e[i - 1]; } double GetBinUpEdge(int i) const { return i < 1 || i > GetNbins() ? e.back() : e[i]; } double GetBinWidth(int i) const { return GetBinUpEdge(i) - GetBinLowEdge(i); } double GetBinCenter(int i) const { return (GetBinLowEdge(i) + GetBinUpEdge(i)) / 2; } double GetXmin() const { return e[0]; } double GetXmax() const { return e.back(); }
  int FindBin(double x) const { if (x < e[0]) return 0; for (int i = 1; i <= GetNbins(); i++) if (x < e[i]) return i; return GetNbins() + 1; }
  void SetTitle(const char *t) { title = t; } const char *GetTitle() const { return title.c_str(); } void SetName(const char *) {}
};
class TH1;
inline std::map<std::string, TH1 *> &sx_savedhists() { static std::map<std::string, TH1 *> m; return m; }
class TH1 : public TObject {
public:
  std::string name, title; TAxis x, y, z; int dim; std::vector<double> c;
  TH1(const char *n, const char *t, int d) : name(n), title(t), dim(d) {}
  void alloc() { c.assign((x.GetNbins() + 2) * (dim > 1 ? y.GetNbins() + 2 : 1) * (dim > 2 ? z.GetNbins() + 2 : 1), 0); }
  TAxis *GetXaxis() { return &x; } const TAxis *GetXaxis() const { return &x; } TAxis *GetYaxis() { return &y; } const TAxis *GetYaxis() const { return &y; } TAxis *GetZaxis() { return &z; } const TAxis *GetZaxis() const { return &z; }
  int GetNbinsX() const { return x.GetNbins(); } int GetNbinsY() const { return dim > 1 ? y.GetNbins() : 1; } int GetNbinsZ() const { return dim > 2 ? z.GetNbins() : 1; } int GetDimension() const { return dim; }
  int GetBin(int i, int j = 0, int k = 0) const { int n = x.GetNbins() + 2; return dim == 1 ? i : i + n * (j + (dim > 2 ? (y.GetNbins() + 2) * k : 0)); }
  double GetBinContent(int b) const { return c.at(b); } double GetBinContent(int i, int j) const { return c.at(GetBin(i, j)); } double GetBinContent(int i, int j, int k) const { return c.at(GetBin(i, j, k)); }
  void SetBinContent(int b, double v) { c.at(b) = v; } void SetBinContent(int i, int j, double v) { c.at(GetBin(i, j)) = v; } void SetBinContent(int i, int j, int k, double v) { c.at(GetBin(i, j, k)) = v; }
  double Integral() const { double t = 0; for (int i = 1; i <= GetNbinsX(); i++) for (int j = dim > 1; j <= (dim > 1 ? GetNbinsY() : 0); j++) for (int k = dim > 2; k <= (dim > 2 ? GetNbinsZ() : 0); k++) t += c[GetBin(i, j, k)]; return t; }
  void SetDirectory(void *) {} void SetName(const char *n) { name = n; } void SetTitle(const char *t) { title = t; } const char *GetName() const { return name.c_str(); } const char *GetTitle() const { return title.c_str(); }
  void SaveAs(const char *p) const { sx_savedhists()[p] = new TH1(*this); }
};
class TH1D : public TH1 { public: TH1D(const char *n, const char *t, int b, const double *e) : TH1(n, t, 1) { x = TAxis(b, e); alloc(); } TH1D(const char *n, const char *t, int b, double lo, double hi) : TH1(n, t, 1) { x = TAxis(b, lo, hi); alloc(); } int Fill(double v, double w = 1) { int b = x.FindBin(v); c[b] += w; return b; } };
#endif
