#ifndef SX_TH2D
#define SX_TH2D
#include <TH1D.h>
class TH2D : public TH1 { public: TH2D(const char *n, const char *t, int a, const double *e, int b, const double *f) : TH1(n, t, 2) { x = TAxis(a, e); y = TAxis(b, f); alloc(); } TH2D(const char *n, const char *t, int a, double l, double h, int b, double l2, double h2) : TH1(n, t, 2) { x = TAxis(a, l, h); y = TAxis(b, l2, h2); alloc(); } int Fill(double v, double u, double w = 1) { int b = GetBin(x.FindBin(v), y.FindBin(u)); c[b] += w; return b; } };
#endif
