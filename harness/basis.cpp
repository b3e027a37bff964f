// C19 / C20 / C21: collocation bases, polynomial arithmetic, projection, Lagrange interpolation
//  H_MODE 0 nodes, differentiation, quadrature   1 projection   2 Lagrange interpolation on the nodes   3 basis functions
#include "hcommon.h"
#include <vector>
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#include "polynomials/splines.hpp"
#ifndef H_SC
#define H_SC double
#endif
typedef H_SC S; enum { P = H_P };
#ifdef H_LEG
typedef polympc::Legendre<P, polympc::GAUSS_LOBATTO, S> B; enum { QDEG = 2 * P - 1 };
#else
typedef polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, S> B; enum { QDEG = P % 2 ? P : P + 1 };
#endif
#ifdef H_SPLINE
typedef polympc::Spline<B, H_SPLINE> F;
#else
typedef B F;
#endif
static const double TOL = sizeof(S) == 4 ? 2e-3 : 1e-8;
static std::vector<S> C; // coefficients of a general polynomial
static void coeffs(int deg) { C.clear(); for (int i = 0; i <= deg; i++) C.push_back((S)var("c" + std::to_string(i), -1, 1)); }
static S ev(S x) { S r = 0; for (int i = (int)C.size() - 1; i >= 0; i--) r = r * x + C[i]; return r; }
static S dev(S x) { S r = 0; for (int i = (int)C.size() - 1; i >= 1; i--) r = r * x + S(i) * C[i]; return r; }
struct Fn { template <class T> T operator()(const T& x) const { return ev(x); } };
static S ipow(S x, int k) { S r = 1; while (k--) r *= x; return r; }
void harness() { sym_strict(1);
  typename B::nodes_t x = F::compute_nodes();
#if H_MODE == 0
  const double nt = sizeof(S) == 4 ? 1e-5 : 1e-9;
#ifdef H_LEG
  near_(x(0), -1, 0, "first node"); near_(x(P), 1, 0, "last node"); for (int i = 0; i < P; i++) sym_check_bool(x(i) < x(i + 1), "nodes ascending");
#else
  near_(x(0), 1, 0, "first node"); near_(x(P), -1, 0, "last node"); for (int i = 0; i < P; i++) sym_check_bool(x(i) > x(i + 1), "nodes descending");
#endif
  for (int i = 0; i <= P; i++) { sym_check_bool(x(i) >= -1 && x(i) <= 1, "node range"); near_(x(i), -x(P - i), nt, "nodes symmetric"); }
  { // extrema of the basis polynomial of the order, by its own differential equation
    coeffs(P); typename B::diff_mat_t D = F::compute_diff_matrix(); Eigen::Matrix<S, P + 1, 1> v, d; for (int i = 0; i <= P; i++) { v(i) = ev(x(i)); d(i) = dev(x(i)); } Eigen::Matrix<S, P + 1, 1> r = D * v; nearM(r, d, TOL * P * P, "derivative of a polynomial"); }
  { coeffs(QDEG); typename B::q_weights_t w = F::compute_int_weights(); S s = 0, e = 0; for (int i = 0; i <= P; i++) s += w(i) * ev(x(i)); for (int k = 0; k <= QDEG; k += 2) e += C[k] * S(2.0 / (k + 1)); near_(s, e, TOL, "integral of a polynomial"); for (int i = 0; i <= P; i++) sym_check_bool(w(i) > 0, "weights positive"); }
#ifndef H_LEG
  { coeffs(2 * P - 1); typename B::q_weights_t w = F::compute_quad_weights(); S s = 0, e = 0; for (int i = 0; i <= P; i++) s += w(i) * ev(x(i)); double m = M_PI; for (int k = 0; k < 2 * P; k += 2) { if (k) m *= double(k - 1) / k; e += C[k] * S(m); } near_(s, e, TOL, "weighted integral of a polynomial"); }
#else
  { coeffs(QDEG); typename B::q_weights_t w = F::compute_quad_weights(); S s = 0, e = 0; for (int i = 0; i <= P; i++) s += w(i) * ev(x(i)); for (int k = 0; k <= QDEG; k += 2) e += C[k] * S(2.0 / (k + 1)); near_(s, e, TOL, "weighted integral of a polynomial"); }
#endif
#ifndef H_SPLINE
  { B b; nearM(b.CPoints(), x, 0, "member nodes"); nearM(b.D(), B::compute_diff_matrix(), 0, "member differentiation matrix"); nearM(b.QWeights(), B::compute_quad_weights(), 0, "member weights"); nearM(b.NFactors(), B::compute_norm_factors(), 0, "member factors");
#ifndef H_LEG
    nearM(b.CCQWeights(), B::compute_int_weights(), 0, "member integration weights");
#endif
    coeffs(P); S t0 = var("t0", -1, 1), len = var("len", 0.25, 2), tf = t0 + len, I = b.template integrate<Fn>(t0, tf), e = 0; for (int k = 0; k <= P; k++) e += C[k] * (ipow(tf, k + 1) - ipow(t0, k + 1)) / S(k + 1); near_(I, e, TOL * 100 * (P > 4 ? ipow(3, P - 4) : 1), "integral over an interval");
    S J = b.template integrate<Fn>(), f = 0; for (int k = 0; k <= P; k += 2) f += C[k] * S(2.0 / (k + 1)); near_(J, f, TOL, "integral over the default interval"); }
#endif
#elif H_MODE == 1
  coeffs(P); S a = 0, b = 0; Projection<B>* p;
#ifdef H_INTERVAL
  a = S(-0.5); b = S(1.25); p = new Projection<B>(Fn(), a, b);
#else
  a = -1; b = 1; p = new Projection<B>(Fn());
#endif
  S t = var("t", -0.999, 0.999); S arg = (b - a) / 2 * t + (a + b) / 2; near_(p->eval(arg), ev(arg), TOL * 10, "projection reproduces the polynomial");
  p->project(Fn(), S(-2), S(0.5)); S a2 = S(1.25) * t - S(0.75); near_(p->eval(a2), ev(a2), TOL * 1000, "projection on another interval");
#elif H_MODE == 2
  Eigen::Matrix<S, P + 1, P + 1> L; polympc::LagrangeSpline::compute_lagrange_basis(x, L);
  Eigen::Matrix<S, 2, P + 1> v; for (int i = 0; i <= P; i++) for (int r = 0; r < 2; r++) v(r, i) = var("v" + std::to_string(r) + std::to_string(i), -1, 1);
  for (int i = 0; i <= P; i++) nearM(polympc::LagrangeSpline::eval(x(i), v, L), v.col(i), TOL * 10 * P, "samples reproduced at the nodes");
  coeffs(P); Eigen::Matrix<S, 1, P + 1> q; for (int i = 0; i <= P; i++) q(i) = ev(x(i)); S t = var("t", -1, 1); near_(polympc::LagrangeSpline::eval(t, q, L)(0), ev(t), TOL * 10 * P, "polynomial reproduced between the nodes");
  { Eigen::Matrix<S, -1, -1> vd = v; nearM(polympc::LagrangeSpline::eval(t, vd, L), polympc::LagrangeSpline::eval(t, v, L), 0, "run-time sizes"); }
#ifdef H_OUT
  S o = var("o", 1.1, 1.5); near_(polympc::LagrangeSpline::eval(o, q, L)(0), ev(o), 1e-5, "polynomial reproduced outside"); S u = var("u", -1.5, -1.1); near_(polympc::LagrangeSpline::eval(u, q, L)(0), ev(u), 1e-5, "polynomial reproduced outside");
#endif
#elif H_MODE == 3
  S t = var("t", -0.999, 0.999); B& b = *new B();
#ifdef H_LEG
  typename B::basis_t Ln = B::compute_basis();
  near_(b.eval(t, 0), 1, TOL, "degree 0"); near_(b.eval(t, 1), t, TOL, "degree 1"); for (int n = 1; n < P; n++) near_(S(n + 1) * b.eval(t, n + 1), S(2 * n + 1) * t * b.eval(t, n) - S(n) * b.eval(t, n - 1), TOL * 100, "recurrence");
  for (int n = 0; n <= P; n++) { near_(b.eval(S(1), n), 1, TOL, "value at one"); for (int m = n + 1; m <= P; m++) near_(Ln(m, n), 0, 0, "degree of the basis polynomial"); }
#else
  near_(b.eval(t, 0), 1, TOL, "degree 0"); near_(b.eval(t, 1), t, TOL, "degree 1"); for (int n = 1; n < P; n++) near_(b.eval(t, n + 1), S(2) * t * b.eval(t, n) - b.eval(t, n - 1), TOL, "recurrence"); near_(B::eval(t), b.eval(t, P), TOL, "highest degree");
  near_(B::weight(t) * B::weight(t) * (1 - t * t), 1, TOL, "weight function"); S w = B::weight(t); sym_check_le(0, w, 0, "weight function");
#endif
  typename B::q_weights_t w2 = B::compute_quad_weights(), nf = B::compute_norm_factors(); for (int n = 0; n <= P; n++) for (int m = 0; m <= P; m++) { S s = 0; for (int i = 0; i <= P; i++) s += w2(i) * b.eval(x(i), n) * b.eval(x(i), m); near_(s * nf(n), n == m, TOL * 10, "orthogonality"); }
#endif
  sym_reach("end");
}
