// C08: safeguarded SR1 update.  y = v + B s is a bijective change of variables (v: residual of the model).
#include "hcommon.h"
#include "solvers/sr1.hpp"
#ifndef H_SC
#define H_SC double
#endif
#ifndef H_CASE
#define H_CASE 0
#endif
typedef H_SC SC; enum { N = H_N };
#ifdef H_DYN
typedef Eigen::Matrix<SC, -1, -1> Mat; typedef Eigen::Matrix<SC, -1, 1> Vec;
#else
typedef Eigen::Matrix<SC, N, N> Mat; typedef Eigen::Matrix<SC, N, 1> Vec;
#endif
void harness() { sym_strict(1);
  Mat B(N, N); Vec s(N), y(N), v(N); double TOL = (sizeof(SC) == 4 && sym_is_native()) ? 1e-2 : 1e-9;
  if (sym_is_native() && sizeof(SC) == 8) TOL = 1e-4;   // rounding of v = y - B s is amplified by 1/(v's)
  fillsym(B, "B", -3, 3); fill(s, "s", -2, 2); fill(v, "v", -2, 2);
#if H_CASE == 1
  v.setZero();
#elif H_CASE == 2
  s.setZero();
#elif H_CASE == 3
  { SC c = v(0); v.setZero(); v(0) = -c * s(1); v(1) = c * s(0); }
#elif H_CASE == 4
  v = s * v(0);    // residual parallel to the step
#elif H_CASE == 5
  v.setZero(); s.setZero();
#endif
  for (int i = 0; i < N; i++) { SC a = v(i); for (int j = 0; j < N; j++) a += B(i, j) * s(j); y(i) = a; }
  const Mat B0 = B; const Vec s0 = s, y0 = y;
  SR1_update(B, s, y);
  nearM(s, s0, 0, "step argument untouched"); nearM(y, y0, 0, "gradient argument untouched");
  nearM(B, B.transpose(), TOL, "symmetric"); finiteM(B, "finite");
#if H_CASE == 1 || H_CASE == 2 || H_CASE == 3 || H_CASE == 5
  nearM(B, B0, TOL, "no usable curvature leaves the matrix unchanged"); sym_reach("end"); return;
#endif
  double sc = 0, ss = 0, vv = 0; for (int i = 0; i < N; i++) { double r = (double)v(i); sc += r * s(i); ss += (double)s(i) * s(i); vv += r * r; }
  double lim = (double)SC(1e-6) * std::sqrt(ss) * std::sqrt(vv), a = sc < 0 ? -sc : sc;
  if (sym_is_native() && a < 1.1 * lim && a > 0.9 * lim) return;   // decision may flip through rounding
  if (a >= lim && a > 0) { for (int i = 0; i < N; i++) { double q = 0; for (int j = 0; j < N; j++) { q += (double)B(i, j) * s(j); near_(((double)B(i, j) - B0(i, j)) * sc, (double)v(i) * v(j), TOL, "rank one change"); } near_(q, y(i), TOL, "secant"); } sym_reach("applied"); }
  else { nearM(B, B0, TOL, "safeguard leaves the matrix unchanged"); sym_reach("skipped"); }
}
