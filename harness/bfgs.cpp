// C07: damped BFGS update
#include "hcommon.h"
#include "solvers/bfgs.hpp"
#ifndef H_N
#define H_N 2
#endif
#ifndef H_SC
#define H_SC double
#endif
typedef H_SC SC; enum { N = H_N };
#ifdef H_DYN
typedef Eigen::Matrix<SC, -1, -1> Mat; typedef Eigen::Matrix<SC, -1, 1> Vec;
#else
typedef Eigen::Matrix<SC, N, N> Mat; typedef Eigen::Matrix<SC, N, 1> Vec;
#endif
static double det(const Mat& B) { if (N == 2) return B(0, 0) * B(1, 1) - B(0, 1) * B(1, 0);
  return B(0, 0) * (B(1, 1) * B(2, 2) - B(1, 2) * B(2, 1)) - B(0, 1) * (B(1, 0) * B(2, 2) - B(1, 2) * B(2, 0)) + B(0, 2) * (B(1, 0) * B(2, 1) - B(1, 1) * B(2, 0)); }
void harness() { sym_strict(1);
  Mat B(N, N); Vec s(N), y(N), v(N);
  fill(v, "v", -2, 2);
#ifdef H_PARAM
  // every SPD B is L D L' with L unit lower triangular; s = L^{-T} w and y = L z are bijective changes of variables
  double L[N][N], D[N], w[N], z[N];
  for (int i = 0; i < N; i++) { D[i] = var("d" + std::to_string(i), 0.1, 3); w[i] = var("w" + std::to_string(i), -2, 2); z[i] = var("z" + std::to_string(i), -2, 2);
    for (int j = 0; j < N; j++) L[i][j] = j < i ? var("l" + std::to_string(i) + std::to_string(j), -1.5, 1.5) : (i == j ? 1. : 0.); }
  for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) { double a = 0; for (int k = 0; k <= j; k++) a += L[i][k] * D[k] * L[j][k]; B(i, j) = B(j, i) = a; }
  for (int i = N - 1; i >= 0; i--) { double a = w[i]; for (int k = i + 1; k < N; k++) a -= L[k][i] * s(k); s(i) = a; }
  for (int i = 0; i < N; i++) { double a = 0; for (int k = 0; k <= i; k++) a += L[i][k] * z[k]; y(i) = a; }
  double ww = 0; for (int i = 0; i < N; i++) ww += w[i] * w[i]; sym_assume_lt(0.01, ww);
#else
  fillsym(B, "B", -3, 3); fill(s, "s", -2, 2); fill(y, "y", -2, 2);
  sym_assume_lt(0.01, B(0, 0)); sym_assume_lt(0.01, B(0, 0) * B(1, 1) - B(0, 1) * B(0, 1));
#endif
  const double TOL = (sizeof(SC) == 4 && sym_is_native()) ? 1e-2 : 1e-9;   // rounding of the native float replay
#ifdef H_ZERO
  s.setZero();
#endif
  const Mat B0 = B; const Vec s0 = s, y0 = y;
  BFGS_update(B, s, y);
  nearM(s, s0, 0, "step argument untouched"); nearM(y, y0, 0, "gradient argument untouched");
  nearM(B, B.transpose(), TOL, "symmetric");
  finiteM(B, "finite");
  // reference quantities
  double sBs = 0, sy = 0; double Bs[N]; for (int i = 0; i < N; i++) { Bs[i] = 0; for (int j = 0; j < N; j++) Bs[i] += (double)B0(i, j) * s(j); }
  for (int i = 0; i < N; i++) { sBs += (double)s(i) * Bs[i]; sy += (double)s(i) * y(i); }
#ifdef H_ZERO
  nearM(B, B0, 0, "zero step leaves the matrix unchanged"); sym_reach("zero"); return;
#endif
  bool damped = sy < 0.2 * sBs; double r[N], sr;
  if (damped) { double th = 0.8 * sBs / (sBs - sy); for (int i = 0; i < N; i++) r[i] = th * y(i) + (1 - th) * Bs[i]; sr = th * sy + (1 - th) * sBs; }
  else { for (int i = 0; i < N; i++) r[i] = y(i); sr = sy; }
  double eps = std::numeric_limits<SC>::epsilon();
  if (sr < eps) { nearM(B, B0, 0, "negligible curvature leaves the matrix unchanged"); sym_reach("skip"); return; }
  sym_check_lt(0, sBs, "old curvature positive"); sym_check_lt(0, sr, "new curvature positive");
  double curv = 0; for (int i = 0; i < N; i++) { double q = 0; for (int j = 0; j < N; j++) q += (double)B(i, j) * s(j); near_(q, r[i], TOL, damped ? "damped secant" : "secant"); curv += s(i) * q; }
  if (damped) near_(curv, (1 - 0.8) * sBs, TOL, "damped curvature is one fifth of the old");
  // positive definiteness through exact identities
#ifndef H_PARAM
  near_(det(B) * sBs, det(B0) * sr, TOL, "determinant identity");
#endif
  double vBv = 0, vr = 0, q = 0; for (int i = 0; i < N; i++) { vr += v(i) * r[i]; for (int j = 0; j < N; j++) vBv += v(i) * (double)B(i, j) * v(j); }
  if (N == 2) { double c = v(0) * s(1) - v(1) * s(0); q = det(B0) * c * c; }
  else { double c[3] = {v(1) * s(2) - v(2) * s(1), v(2) * s(0) - v(0) * s(2), v(0) * s(1) - v(1) * s(0)};
    double A[3][3] = {{B0(1,1)*B0(2,2)-B0(1,2)*B0(2,1), B0(0,2)*B0(2,1)-B0(0,1)*B0(2,2), B0(0,1)*B0(1,2)-B0(0,2)*B0(1,1)},
                      {B0(1,2)*B0(2,0)-B0(1,0)*B0(2,2), B0(0,0)*B0(2,2)-B0(0,2)*B0(2,0), B0(0,2)*B0(1,0)-B0(0,0)*B0(1,2)},
                      {B0(1,0)*B0(2,1)-B0(1,1)*B0(2,0), B0(0,1)*B0(2,0)-B0(0,0)*B0(2,1), B0(0,0)*B0(1,1)-B0(0,1)*B0(1,0)}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q += c[i] * A[i][j] * c[j]; }
  near_(vBv, q / sBs + vr * vr / sr, TOL, "quadratic form is a sum of nonnegative terms");
  sym_reach(damped ? "damped" : "plain");
}
