// Stand-in for GSL's normal distribution: its definition through the error function.
#ifndef SX_GSL_CDF
#define SX_GSL_CDF
#include <cmath>
inline double gsl_cdf_gaussian_P(double x, double sigma) { return 0.5 * (1 + std::erf(x / sigma * 0.70710678118654752440)); }
#endif
