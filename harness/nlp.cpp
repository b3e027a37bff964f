// C12: derivative services of ProblemBase for arbitrary user functions
#include "ufwrap.h"
#include "solvers/nlproblem.hpp"
enum { NX = H_NX, NE = H_NE, NI = H_NI, NP = H_NP, NC = NE + NI };
#define TOL 1e-8
POLYMPC_FORWARD_NLP_DECLARATION(ModelNLP, H_NX, H_NE, H_NI, H_NP, double)
class ModelNLP : public ProblemBase<ModelNLP> { public:
#ifndef H_NOCOST
  template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& c) const noexcept { c = fun<T>(0, x, p); }
#endif
#if H_NE > 0
  template <typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
  { for (int i = 0; i < H_NE; i++) c(i) = fun<T>(10 + 4 * i, x, p); }
#endif
#if H_NI > 0
  template <typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> c) const noexcept
  { for (int i = 0; i < H_NI; i++) c(i) = fun<T>(40 + 4 * i, x, p); }
#endif
  template <class T, class X, class P> static T fun(int id, const X& x, const P& p) { Eigen::Matrix<double, 0, 1> e; T r = UF3<T>(id, x, e, e); for (int j = 0; j < p.size(); j++) { T h = UF3<T>(id + 1 + j, x, e, e); r += p(j) * h; } return r; }
};
typedef ModelNLP::nlp_variable_t V;
void harness() { sym_strict(1);
  ModelNLP& o = *new ModelNLP; const char* nm[2] = {"a", "b"};
  for (int rep = 0; rep < 2; rep++) { std::string n = nm[rep];
    V x(NX); fill(x, n + "x", -2, 2); ModelNLP::static_parameter_t p(NP); fill(p, n + "p", -2, 2); ModelNLP::nlp_dual_t lam(NC + NX); fill(lam, n + "l", -2, 2); const V x0 = x;
#ifdef H_NOCOST
    double cost = 0;
#else
    double cost = ModelNLP::fun<double>(0, x, p);
#endif
    double c[NC + 1], C = 0; for (int i = 0; i < NE; i++) c[i] = ModelNLP::fun<double>(10 + 4 * i, x, p); for (int i = 0; i < NI; i++) c[NE + i] = ModelNLP::fun<double>(40 + 4 * i, x, p);
    for (int i = 0; i < NC; i++) C += lam(i) * c[i]; double L = cost + C; for (int i = 0; i < NX; i++) L += lam(NC + i) * x(i);
    double v = 0; V g(NX), g2(NX); ModelNLP::nlp_hessian_t H(NX, NX); ModelNLP::nlp_constraints_t cc(NC), cl(NC); ModelNLP::nlp_jacobian_t J(NC, NX);
    ModelNLP::nlp_eq_constraints_t e(NE); ModelNLP::nlp_ineq_constraints_t q(NI); ModelNLP::nlp_eq_jacobian_t Je(NE, NX); ModelNLP::nlp_ineq_jacobian_t Ji(NI, NX);
    auto grad = [&](const V& gg, double f, const std::string& l) { for (int j = 0; j < NX; j++) near_(gg(j), sym_diff(f, x(j)), TOL, l); };
    auto jac = [&](const std::string& l) { for (int i = 0; i < NC; i++) { near_(cl(i), c[i], TOL, "constraint values of " + l); for (int j = 0; j < NX; j++) near_(J(i, j), sym_diff(c[i], x(j)), TOL, "jacobian of " + l); } };
#ifndef H_NOCOST
    o.cost(x, p, v); near_(v, cost, TOL, "cost");
#endif
    o.cost_gradient(x, p, v, g); near_(v, cost, TOL, "cost of gradient call"); grad(g, cost, "cost gradient");
    o.cost_gradient_hessian(x, p, v, g2, H); near_(v, cost, TOL, "cost of hessian call"); grad(g2, cost, "gradient of hessian call");
    for (int i = 0; i < NX; i++) for (int j = 0; j < NX; j++) near_(H(i, j), sym_diff2(cost, x(i), x(j)), TOL, "cost hessian");
#if H_NE > 0
    o.equalities(x, p, e); for (int i = 0; i < NE; i++) near_(e(i), c[i], TOL, "equality value");
    o.equalities_linearised(x, p, e, Je); for (int i = 0; i < NE; i++) { near_(e(i), c[i], TOL, "linearised equality value"); for (int j = 0; j < NX; j++) near_(Je(i, j), sym_diff(c[i], x(j)), TOL, "equality jacobian"); }
#endif
#if H_NI > 0
    o.inequalities(x, p, q); for (int i = 0; i < NI; i++) near_(q(i), c[NE + i], TOL, "inequality value");
    o.inequalities_linearised(x, p, q, Ji); for (int i = 0; i < NI; i++) { near_(q(i), c[NE + i], TOL, "linearised inequality value"); for (int j = 0; j < NX; j++) near_(Ji(i, j), sym_diff(c[NE + i], x(j)), TOL, "inequality jacobian"); }
#endif
    o.constraints(x, p, cc); for (int i = 0; i < NC; i++) near_(cc(i), c[i], TOL, "stacked constraint value");
    o.constraints_linearised(x, p, cl, J); jac("constraints_linearised");
#ifndef H_NOCOST
    o.lagrangian(x, p, lam, v); near_(v, L, TOL, "lagrangian");
#endif
    o.lagrangian_gradient(x, p, lam, v, g); grad(g, L, "lagrangian gradient (short call)");
    J.setZero(); cl.setZero(); o.lagrangian_gradient(x, p, lam, v, g, g2, cl, J); grad(g, L, "lagrangian gradient"); grad(g2, cost, "cost gradient of lagrangian call"); jac("lagrangian gradient call");
    J.setZero(); cl.setZero(); o.lagrangian_gradient_hessian(x, p, lam, v, g, H, g2, cl, J); grad(g, L, "lagrangian gradient of hessian call"); grad(g2, cost, "cost gradient of lagrangian hessian call"); jac("lagrangian hessian call");
    for (int i = 0; i < NX; i++) for (int j = 0; j < NX; j++) near_(H(i, j), sym_diff2(L, x(i), x(j)), TOL, "lagrangian hessian");
    double sc = var(n + "scale", -2, 0.9); o.lagrangian_gradient_hessian(x, p, lam, v, g, H, g2, cl, J, sc);
    for (int i = 0; i < NX; i++) for (int j = 0; j < NX; j++) near_(H(i, j), sc * sym_diff2(cost, x(i), x(j)) + sym_diff2(C, x(i), x(j)), TOL, "scaled lagrangian hessian");
    nearM(x, x0, 0, "argument untouched");
  }
  sym_reach("end");
}
