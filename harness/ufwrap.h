// Arbitrary smooth user functions: sym_uf with derivative propagation through (nested) AutoDiffScalar.
#pragma once
#include "hcommon.h"
#include "autodiff/AutoDiffScalar.h"
#include <type_traits>
struct UfCall { int id; int mi[12]; };
inline double uf_eval(const UfCall& c, const double* a, int n) { return sym_uf(c.id, c.mi, n, a); }
inline float uf_eval(const UfCall& c, const float* a, int n) { double t[12]; for (int i = 0; i < n; i++) t[i] = a[i]; return (float)sym_uf(c.id, c.mi, n, t); }
template <class D> Eigen::AutoDiffScalar<D> uf_eval(const UfCall& c, const Eigen::AutoDiffScalar<D>* a, int n) {
  typedef Eigen::AutoDiffScalar<D> T; typedef typename T::Scalar V;
  V v[12]; for (int i = 0; i < n; i++) v[i] = a[i].value();
  T r; r.value() = uf_eval(c, v, n);
  if (n == 0) { r.derivatives().setZero(); return r; }
  for (int i = 0; i < n; i++) { UfCall d = c; d.mi[i]++; V p = uf_eval(d, v, n);
    if (i == 0) r.derivatives() = a[0].derivatives(); 
    for (int k = 0; k < (int)r.derivatives().size(); k++) { V t = p * a[i].derivatives()(k); if (i == 0) r.derivatives()(k) = t; else r.derivatives()(k) = r.derivatives()(k) + t; } }
  return r; }
template <class T> T UF(int id, const T* a, int n) { UfCall c; c.id = id; for (int i = 0; i < 12; i++) c.mi[i] = 0; return uf_eval(c, a, n); }
// function of two or three stacked vectors
template <class T, class X, class U, class P> T UF3(int id, const X& x, const U& u, const P& p) {
  T a[12]; int n = 0; for (int i = 0; i < x.size(); i++) a[n++] = x(i); for (int i = 0; i < u.size(); i++) a[n++] = u(i); for (int i = 0; i < p.size(); i++) a[n++] = p(i);
  return UF<T>(id, a, n); }
