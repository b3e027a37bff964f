// C11: rbf_kernel against the plain formula and its exact first and second derivatives; arguments seeded with unit directions
#include "hcommon.h"
#include "autodiff/rbf_kernel.hpp"
enum { N = H_N };
typedef rbf_kernel<N, double> K;
void harness() { sym_strict(1);
  K k; Eigen::Matrix<double, N, 1> x, y; for (int i = 0; i < N; i++) { x(i) = var("x" + std::to_string(i), -1, 1); y(i) = var("y" + std::to_string(i), -1, 1); }
  Eigen::Matrix<double, N, 1> x0 = x; double e = 0; for (int i = 0; i < N; i++) e += (x(i) - y(i)) * (x(i) - y(i)); double p = std::exp(-e);
  near_(k.template eval<double>(x, y), p, 1e-9, "plain value");
  Eigen::Matrix<typename K::adscalar_t, N, 1> xa; for (int i = 0; i < N; i++) xa(i) = typename K::adscalar_t(x(i), N, i);
  typename K::adscalar_t r = k.template eval<typename K::adscalar_t>(xa, y);
  near_(r.value(), p, 1e-9, "value"); for (int i = 0; i < N; i++) near_(r.derivatives()(i), sym_diff(p, x0(i)), 1e-9, "gradient");
  Eigen::Matrix<typename K::outer_adscalar_t, N, 1> xb; for (int i = 0; i < N; i++) { xb(i).value() = typename K::adscalar_t(x(i), N, i); for (int j = 0; j < N; j++) { xb(i).derivatives()(j).value() = i == j; xb(i).derivatives()(j).derivatives().setZero(); } }
  typename K::outer_adscalar_t* q = new typename K::outer_adscalar_t(k.template eval<typename K::outer_adscalar_t>(xb, y));
  near_(q->value().value(), p, 1e-9, "value 2");
  for (int i = 0; i < N; i++) { near_(q->value().derivatives()(i), sym_diff(p, x0(i)), 1e-9, "inner gradient"); near_(q->derivatives()(i).value(), sym_diff(p, x0(i)), 1e-9, "outer gradient");
    for (int j = 0; j < N; j++) near_(q->derivatives()(i).derivatives()(j), sym_diff2(p, x0(i), x0(j)), 1e-9, "hessian"); }
  sym_reach("end");
}
