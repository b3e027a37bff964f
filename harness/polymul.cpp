// C20: coefficient arithmetic.  H_N: number of coefficients, H_Z: kinds of the coefficients (bit mask of coefficients that are exactly zero)
#include "hcommon.h"
#include "polynomials/polynomial_math.hpp"
#ifndef H_SC
#define H_SC double
#endif
#ifndef H_ZA
#define H_ZA 0
#endif
#ifndef H_ZB
#define H_ZB 0
#endif
typedef H_SC S; enum { N = H_N }; typedef Eigen::Matrix<S, N, 1> V;
#ifdef H_SIGN
static S co(const char* n, int i, int b) { bool neg = (H_SIGN) >> (i + b) & 1; return (S)var(n + std::to_string(i), neg ? -2 : 0.001, neg ? -0.001 : 2); }
#else
static S co(const char* n, int i, int) { return (S)var(n + std::to_string(i), -2, 2); }
#endif
void harness() { sym_strict(1);
  V& p = *new V; V& q = *new V; for (int i = 0; i < N; i++) { p(i) = H_ZA >> i & 1 ? S(0) : co("p", i, 0); q(i) = H_ZB >> i & 1 ? S(0) : co("q", i, N); }
  const double t = sizeof(S) == 4 ? 1e-4 : 1e-9;
  V p0 = p, q0 = q; V r = polympc::polymath::poly_mul(p, q); // orders above the common size are truncated, coefficients below machine precision may be dropped
  for (int k = 0; k < N; k++) { S e = 0; for (int i = 0; i <= k; i++) e += p0(i) * q0(k - i); near_(r(k), e, t, "product"); }
  V d = polympc::polymath::poly_diff(p); for (int k = 0; k < N; k++) near_(d(k), k + 1 < N ? S(k + 1) * p0(k + 1) : S(0), t, "derivative");
  nearM(p, p0, 0, "argument"); nearM(q, q0, 0, "argument");
  { Eigen::Matrix<S, N, N> m; m.setZero(); m.col(0) = p; if (N > 1) m.col(N - 1) = q; V e = polympc::polymath::poly_mul(m.col(0), q); nearM(e, r, t, "column arguments"); V f = polympc::polymath::poly_diff(m.col(0)); nearM(f, d, t, "column arguments"); }
  sym_reach("end");
}
