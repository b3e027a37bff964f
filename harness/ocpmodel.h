// An optimal control problem whose functions are arbitrary: every component is F(x,u,p) + t G(x,u,p) + sum_j d_j H_j(x,u,p)
#pragma once
#include "ufwrap.h"
#include "utils/helpers.hpp"
#include "polynomials/ebyshev.hpp"
#include "control/continuous_ocp.hpp"
#include "polynomials/splines.hpp"
#ifndef H_NX
#define H_NX 2
#endif
#ifndef H_NU
#define H_NU 1
#endif
#ifndef H_NP
#define H_NP 1
#endif
#ifndef H_ND
#define H_ND 1
#endif
#ifndef H_NG
#define H_NG 1
#endif
#ifndef H_P
#define H_P 2
#endif
#ifndef H_S
#define H_S 2
#endif
#ifndef H_FMT
#define H_FMT DENSE
#endif
#ifndef H_LAGRANGE
#define H_LAGRANGE 1
#endif
#ifndef H_MAYER
#define H_MAYER 1
#endif
enum { FID_F = 0, FID_G = 20, FID_L = 40, FID_M = 50 };
template <class T, class TT, class X, class U, class P, class D> T genfun(int id, const X& x, const U& u, const P& p, const D& d, const TT& t) {
  T r = UF3<T>(id, x, u, p); T b = UF3<T>(id + 1, x, u, p); r += t * b;
  for (int j = 0; j < d.size(); j++) { T c = UF3<T>(id + 2 + j, x, u, p); r += d(j) * c; }
  return r; }
using Appr = polympc::Spline<polympc::Chebyshev<H_P, polympc::GAUSS_LOBATTO, double>, H_S>;
#define OCPNAME ModelOCP
#define OCPFMT H_FMT
#include "ocpclass.h"
#undef OCPNAME
#undef OCPFMT
enum { NX = H_NX, NU = H_NU, NP = H_NP, ND = H_ND, NG = H_NG, PO = H_P, SEG = H_S, NN = PO * SEG + 1, NV = (NX + NU) * NN + NP, NE = NX * NN, NI = NG * NN };
typedef Eigen::Matrix<double, NV, 1> VVar; typedef Eigen::Matrix<double, ND, 1> VD;
struct Point { VVar v; VD d; Point(const std::string& n) { fill(v, n, -2, 2); fill(d, n + "d", -2, 2); }
  Eigen::Matrix<double, NX, 1> x(int k) const { return v.template segment<NX>(k * NX); }
  Eigen::Matrix<double, NU, 1> u(int k) const { return v.template segment<NU>(NX * NN + k * NU); }
  Eigen::Matrix<double, NP, 1> p() const { return v.template tail<NP>(); } };
// ---- independent oracle, written from the definition of the transcription -----
struct Oracle { double t0, tf; double node[PO + 1], D[PO + 1][PO + 1], w[PO + 1];
  Oracle() { const double pi = std::acos(-1.0); double c[PO + 1];   // barycentric differentiation matrix on x_k = cos(k pi/P); Clenshaw-Curtis weights
    for (int k = 0; k <= PO; k++) { node[k] = std::cos(k * pi / PO); c[k] = 1; }
    for (int i = 0; i <= PO; i++) { double b = 1; for (int j = 0; j <= PO; j++) if (j != i) b *= (node[i] - node[j]); c[i] = 1 / b; }
    for (int i = 0; i <= PO; i++) { D[i][i] = 0; for (int j = 0; j <= PO; j++) if (j != i) { D[i][j] = c[j] / c[i] / (node[i] - node[j]); D[i][i] -= D[i][j]; } }
    for (int k = 0; k <= PO; k++) { // integrate the k-th Lagrange basis polynomial via its Chebyshev expansion: int T_j = 2/(1-j^2) for even j
      double s = 0; for (int j = 0; j <= PO; j += 2) { double g = (j == 0 || j == PO) ? 0.5 : 1; s += g * std::cos(j * k * pi / PO) * 2. / (1. - j * j); }
      w[k] = ((k == 0 || k == PO) ? 1. : 2.) / PO * s; } }
  double scale() const { return (tf - t0) / (2 * SEG); }
  // node index counts backwards in time: block b of the variables is time segment SEG-1-b
  double time(int k) const { int b = k / PO, i = k % PO; if (b == SEG) { b = SEG - 1; i = PO; } int s = SEG - 1 - b; double h = (tf - t0) / SEG; return t0 + s * h + 0.5 * h * (1 + node[i]); }
  template <class F> double dyn(const Point& q, int k, int i, F&&) const { return genfun<double>(FID_F + 4 * i, q.x(k), q.u(k), q.p(), q.d, time(k)); }
  double eq(const Point& q, int k, int i) const { int b = k / PO; if (b == SEG) b = SEG - 1; double s = 0; for (int j = 0; j <= PO; j++) s += D[k - b * PO][j] * q.v((b * PO + j) * NX + i);
    return s - scale() * genfun<double>(FID_F + 4 * i, q.x(k), q.u(k), q.p(), q.d, time(k)); }
  double ineq(const Point& q, int k, int i) const { return genfun<double>(FID_G + 4 * i, q.x(k), q.u(k), q.p(), q.d, time(k)); }
  double cost(const Point& q) const { double c = 0;
    if (H_LAGRANGE) for (int b = 0; b < SEG; b++) for (int j = 0; j <= PO; j++) { int k = b * PO + j; c += scale() * w[j] * genfun<double>(FID_L, q.x(k), q.u(k), q.p(), q.d, time(k)); }
    if (H_MAYER) c += genfun<double>(FID_M, q.x(0), q.u(0), q.p(), q.d, tf);
    return c; } };
