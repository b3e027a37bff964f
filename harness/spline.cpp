// C21: cubic spline lookup and evaluation; Lagrange basis on arbitrary nodes.  H_MODE 0: value, 1: first, 2: nested derivatives, 3: Lagrange basis, 4: fixed far-away argument
#include "hcommon.h"
#include "polynomials/splines.hpp"
#ifndef H_SC
#define H_SC double
#endif
typedef H_SC S;
#if H_MODE == 3
enum { N = H_N };
#ifndef H_GAP
#define H_GAP 0.25
#endif
void harness() { sym_strict(1);
  Eigen::Matrix<S, N, 1> x; Eigen::Matrix<S, N, N> L; x(0) = var("x0", -1, -0.5); for (int i = 1; i < N; i++) x(i) = x(i - 1) + (S)var("gap" + std::to_string(i), H_GAP, 1);
  polympc::LagrangeSpline::compute_lagrange_basis(x, L); Eigen::Matrix<S, N, 1> x0 = x;
  for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) { S r = 0; for (int j = N - 1; j >= 0; j--) r = r * x0(k) + L(i, j); near_(r, i == k, 1e-7, "basis polynomial at a node"); }
#ifdef H_OUT
  Eigen::Matrix<S, H_OUT, N> v; for (int i = 0; i < H_OUT; i++) for (int j = 0; j < N; j++) v(i, j) = var("v" + std::to_string(i) + std::to_string(j), -1, 1);
  for (int k = 0; k < N; k++) { auto r = polympc::LagrangeSpline::eval(x0(k), v, L); for (int i = 0; i < H_OUT; i++) near_(r(i), v(i, k), 1e-7, "interpolated value at a node"); }
#endif
  sym_reach("end");
}
#else
enum { K = H_K };
typedef Eigen::AutoDiffScalar<Eigen::Matrix<S, 2, 1>> A1; typedef Eigen::AutoDiffScalar<Eigen::Matrix<A1, 2, 1>> A2;
void harness() { sym_strict(1);
  typedef polympc::EquidistantCubicSpline<S> Sp; typename Sp::coeffs_matrix_type& c = *new typename Sp::coeffs_matrix_type(4, K); for (int j = 0; j < K; j++) for (int i = 0; i < 4; i++) c(i, j) = var("c" + std::to_string(i) + std::to_string(j), -1, 1);
#if H_MODE == 4
  S len = S(0.5), x = S(H_X);
#else
  S len = var("len", 0.5, 2), x = var("x", -H_R, H_R);
#ifdef H_KNOT
  x = len * S(H_KNOT);
#endif
#endif
  Sp& s = *new Sp(c, len);
#ifdef H_SET
  s = Sp(); s.coefficients() = c; s.segment_length() = len;
#endif
  sym_check_bool(s.coefficients().cols() == K, "number of segments"); near_(s.segment_length(), len, 0, "segment length");
  const S tol = sizeof(S) == 4 ? 1e-3 : 1e-9;
  int k = 0; while (k + 1 < K && x >= len * S(k + 1)) k++;    // last segment starting at or before the argument, the first one left of zero
#if H_MODE != 4
  { S f = x / len; S d = f - S(k); bool knot = d < S(1e-7) && d > S(-1e-7), nxt = d - S(1) < S(1e-7) && d - S(1) > S(-1e-7); 
#ifndef H_KNOT
    if ((knot || nxt) && f > S(0.5)) return;
#endif
  }
#endif
  auto val = [&](S t) { return c(0, k) + t * (c(1, k) + t * (c(2, k) + t * c(3, k))); }; auto d1 = [&](S t) { return c(1, k) + t * (S(2) * c(2, k) + t * S(3) * c(3, k)); }; auto d2 = [&](S t) { return S(2) * c(2, k) + S(6) * t * c(3, k); }; (void)d1; (void)d2;
  near_(s.eval(x) / (S(1) + x * x), val(x) / (S(1) + x * x), tol, "value");
#if H_MODE == 1
  A1 a(x); for (int i = 0; i < 2; i++) a.derivatives()(i) = var("d" + std::to_string(i), -1, 1); A1 r = s.eval(a); near_(r.value(), val(x), tol * 10, "active value"); for (int i = 0; i < 2; i++) near_(r.derivatives()(i), d1(x) * a.derivatives()(i), tol * 10, "active derivative");
#elif H_MODE == 2
  A2& a = *new A2(); a.value().value() = x; for (int i = 0; i < 2; i++) { S d = var("d" + std::to_string(i), -1, 1); a.value().derivatives()(i) = d; a.derivatives()(i).value() = d; for (int j = 0; j < 2; j++) a.derivatives()(i).derivatives()(j) = var("h" + std::to_string(std::max(i, j)) + std::to_string(std::min(i, j)), -1, 1); }
  A2 r = s.eval(a); near_(r.value().value(), val(x), tol * 10, "active value"); for (int i = 0; i < 2; i++) { S di = a.value().derivatives()(i); near_(r.value().derivatives()(i), d1(x) * di, tol * 10, "inner derivative"); near_(r.derivatives()(i).value(), d1(x) * di, tol * 10, "outer derivative"); for (int j = 0; j < 2; j++) near_(r.derivatives()(i).derivatives()(j), d2(x) * di * a.value().derivatives()(j) + d1(x) * a.derivatives()(i).derivatives()(j), tol * 10, "second derivative"); }
#endif
  sym_reach(k == 0 ? "first" : k == K - 1 ? "last" : "middle"); sym_reach("end");
}
#endif
