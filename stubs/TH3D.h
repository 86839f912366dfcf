#ifndef SX_TH3D
#define SX_TH3D
#include <TH1D.h>
class TH3D : public TH1 { public: TH3D(const char *n, const char *t, int a, const double *e, int b, const double *f, int d, const double *g) : TH1(n, t, 3) { x = TAxis(a, e); y = TAxis(b, f); z = TAxis(d, g); alloc(); } int Fill(double v, double u, double s, double w = 1) { int b = GetBin(x.FindBin(v), y.FindBin(u), z.FindBin(s)); c[b] += w; return b; } };
#endif
