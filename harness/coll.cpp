// C24: stand-alone collocation functors.  H_MODE 0: ODE (dense, sparse), 1: cost, 2: generic function
#include "ufwrap.h"
#include "polynomials/ebyshev.hpp"
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include "control/constraints_collocation.hpp"
#define TOL 1e-8
enum { NX = H_NX, NU = H_NU, NP = H_NP, PO = H_P, SEG = H_S, NN = PO * SEG + 1, NV = (NX + NU) * NN + NP, NY = H_NY };
static Eigen::Matrix<double, 0, 1> none;
// any function of the states and controls, affine in the parameters; gain: state of the function object
template <class T, class X, class U, class P> T genf(int id, double gain, const X& x, const U& u, const P& p) { T r = UF3<T>(id, x, u, none); r = gain * r; for (int j = 0; j < p.size(); j++) { T h = UF3<T>(id + 1 + j, x, u, none); r += p(j) * h; } return r; }
struct Types { using Scalar = double; using State = Eigen::Matrix<double, NX, 1>; using Control = Eigen::Matrix<double, NU, 1>; using Parameters = Eigen::Matrix<double, NP, 1>; double gain = 1; };
struct Dyn : Types { template <class X, class U, class P, class F> void operator()(const X& x, const U& u, const P& p, F&& f) const { typedef typename X::Scalar T; for (int i = 0; i < NX; i++) f(i) = genf<T>(4 * i, gain, x, u, p); } };
struct Lag : Types { template <class X, class U, class P, class F> void operator()(const X& x, const U& u, const P& p, F& f) const { typedef typename X::Scalar T; f = genf<T>(40, gain, x, u, p); } };
struct May : Types { template <class X, class F> void operator()(const X& x, F& f) const { typedef typename X::Scalar T; T r = UF3<T>(50, x, none, none); f = gain * r; } };
struct Con { template <class X, class U, class P, class F> void operator()(const X& x, const U& u, const P& p, F&& f) const { typedef typename X::Scalar T; for (int i = 0; i < NY; i++) f(i) = genf<T>(60 + 4 * i, 1, x, u, p); } };
typedef polympc::Chebyshev<PO, polympc::GAUSS_LOBATTO, double> Poly; typedef Eigen::Matrix<double, NV, 1> Var;
static double t0, tf, node[PO + 1], D[PO + 1][PO + 1], w[PO + 1];
static void oracle() { const double pi = std::acos(-1.0); double c[PO + 1]; for (int k = 0; k <= PO; k++) node[k] = std::cos(k * pi / PO);
  for (int i = 0; i <= PO; i++) { double b = 1; for (int j = 0; j <= PO; j++) if (j != i) b *= node[i] - node[j]; c[i] = 1 / b; }
  for (int i = 0; i <= PO; i++) { D[i][i] = 0; for (int j = 0; j <= PO; j++) if (j != i) { D[i][j] = c[j] / c[i] / (node[i] - node[j]); D[i][i] -= D[i][j]; } }
  for (int k = 0; k <= PO; k++) { double s = 0; for (int j = 0; j <= PO; j += 2) s += (j == 0 || j == PO ? 0.5 : 1) * std::cos(j * k * pi / PO) * 2. / (1. - j * j); w[k] = (k == 0 || k == PO ? 1. : 2.) / PO * s; } }
static Eigen::Matrix<double, NX, 1> xs(const Var& v, int k) { return v.template segment<NX>(k * NX); } static Eigen::Matrix<double, NU, 1> us(const Var& v, int k) { return v.template segment<NU>(NX * NN + k * NU); } static Eigen::Matrix<double, NP, 1> ps(const Var& v) { return v.template tail<NP>(); }
void harness() { sym_strict(1); oracle();
  const double gd = var("gd", 0.5, 1.5), gl = var("gl", 0.5, 1.5), gm = var("gm", 0.5, 1.5); double G = 1, GL = 1, GM = 1;
#ifdef H_GIVEN
  Dyn fd; fd.gain = gd; Lag fl; fl.gain = gl; May fm; fm.gain = gm; G = gd; GL = gl; GM = gm;
#define ARGD (fd)
#define ARGC (fl, fm)
#else
#define ARGD
#define ARGC
#endif
#if H_MODE == 0
  typedef polympc::ode_collocation<Dyn, Poly, SEG> O; typedef polympc::sparse_ode_collocation<Dyn, Poly, SEG> SO; O& o = *new O ARGD; SO& so = *new SO ARGD; typename SO::jacobian_t J(NX * NN, NV); 
#elif H_MODE == 1
  typedef polympc::cost_collocation<Lag, May, Poly, SEG> O; O& o = *new O ARGC;
#else
  typedef polympc::constraint_collocation<NX, NU, NP, Poly, SEG> O; O& o = *new O; Con con;
#endif
  for (int rep = 0; rep < 2; rep++) { std::string R(1, char('a' + rep)); Var v; fill(v, R, -2, 2); const Var v0 = v; t0 = var("t0" + R, -2, 2); tf = t0 + var("T" + R, 0.2, 3); const double sc = (tf - t0) / (2 * SEG); (void)sc;
#if H_MODE == 0
    typename O::constr_t c, c2, c3, c4, ref; typename O::jacobian_t A; o(v, c, t0, tf); so(v, c3, t0, tf); o.linearized(v, A, c2, t0, tf); so.linearized(v, J, c4, t0, tf);
    for (int k = 0; k < NN; k++) { int b = k / PO; if (b == SEG) b = SEG - 1; for (int i = 0; i < NX; i++) { double s = 0; for (int j = 0; j <= PO; j++) s += D[k - b * PO][j] * v((b * PO + j) * NX + i); ref(k * NX + i) = s - sc * genf<double>(4 * i, G, xs(v, k), us(v, k), ps(v)); } }
    nearM(c, ref, TOL, "collocation residual"); nearM(c2, ref, TOL, "residual of the linearisation"); nearM(c3, ref, TOL, "sparse collocation residual"); nearM(c4, ref, TOL, "sparse residual of the linearisation");
    sym_check_bool(J.rows() == NX * NN && J.cols() == NV, "sparse Jacobian size");
    for (int i = 0; i < NX * NN; i++) for (int j = 0; j < NV - NP; j++) { near_(A(i, j), sym_diff(ref(i), v(j)), TOL, "Jacobian"); near_(J.coeff(i, j), sym_diff(ref(i), v(j)), TOL, "sparse Jacobian"); }
    for (int i = 0; i < NX * NN; i++) for (int j = NV - NP; j < NV; j++) { near_(A(i, j), 0, 0, "parameter columns"); near_(J.coeff(i, j), 0, 0, "parameter columns"); }
#elif H_MODE == 1
    double q, q2, q3, ref = GM * UF3<double>(50, xs(v, 0), none, none); Var g, g2; typename O::hessian_t H; o(v, q, t0, tf); o.value_gradient(v, q2, g, t0, tf); o.value_gradient_hessian(v, q3, g2, H, t0, tf);
    for (int b = 0; b < SEG; b++) for (int j = 0; j <= PO; j++) { int k = b * PO + j; ref += sc * w[j] * genf<double>(40, GL, xs(v, k), us(v, k), ps(v)); }
    near_(q, ref, TOL, "cost"); near_(q2, ref, TOL, "cost of the gradient call"); near_(q3, ref, TOL, "cost of the Hessian call");
    for (int i = 0; i < NV - NP; i++) { near_(g(i), sym_diff(ref, v(i)), TOL, "gradient"); near_(g2(i), sym_diff(ref, v(i)), TOL, "gradient of the Hessian call"); for (int j = 0; j < NV - NP; j++) near_(H(i, j), sym_diff2(ref, v(i), v(j)), TOL, "Hessian"); }
    for (int i = NV - NP; i < NV; i++) { near_(g(i), 0, 0, "parameter rows"); near_(g2(i), 0, 0, "parameter rows"); for (int j = 0; j < NV; j++) { near_(H(i, j), 0, 0, "parameter rows"); near_(H(j, i), 0, 0, "parameter columns"); } }
#else
    typename O::template value_t<NY> y; o.template generic_function<Con, NY>(con, v, y); auto z = o.template generic_function<Con, NY>(con, v);
    for (int k = 0; k < NN; k++) for (int i = 0; i < NY; i++) { double r = genf<double>(60 + 4 * i, 1, xs(v, k), us(v, k), ps(v)); near_(y(k * NY + i), r, TOL, "function value"); near_(z(k * NY + i), r, TOL, "returned function value"); }
#endif
    nearM(v, v0, 0, "argument untouched"); }
  sym_reach("end");
}
