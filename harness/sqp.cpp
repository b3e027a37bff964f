// SQPBase with an arbitrary problem (uninterpreted smooth functions) and a QP solver stub that records every QP it is
// given and answers arbitrarily.   H_MODE 5: C05 (status, limits)   6: C06 (local QP, step, line search)
#include "ufwrap.h"
#include <vector>
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
enum { NX = H_NX, NE = H_NE, NI = H_NI, NP = H_NP, NC = NE + NI };
#define TOL 1e-6
#ifndef H_ITER
#define H_ITER 2
#endif
#ifndef H_LS
#define H_LS 3
#endif
#ifndef H_REP
#define H_REP 1
#endif
#ifndef H_BK
#define H_BK 0
#endif
POLYMPC_FORWARD_NLP_DECLARATION(ModelNLP, H_NX, H_NE, H_NI, H_NP, double)
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
static std::vector<Vec>* costpts;
static void seen(const Vec& x, double) { if (costpts) costpts->push_back(x); }
template <class X, class T> static void seen(const X&, const T&) {}
class ModelNLP : public ProblemBase<ModelNLP> { public:
  template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& c) const noexcept { c = fun<T>(0, x, p); note(x); }
  void note(const Eigen::Ref<const variable_t<double>>& x) const { if (costpts) costpts->push_back(x); }
  template <class X> void note(const X&) const {}
#if H_NE > 0
  template <typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
  { for (int i = 0; i < H_NE; i++) c(i) = fun<T>(10 + 4 * i, x, p); }
#endif
#if H_NI > 0
  template <typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> c) const noexcept
  { for (int i = 0; i < H_NI; i++) c(i) = fun<T>(40 + 4 * i, x, p); }
#endif
  template <class T, class X, class P> static T fun(int id, const X& x, const P& p) { Eigen::Matrix<double, 0, 1> e; T r = UF3<T>(id, x, e, e); for (int j = 0; j < p.size(); j++) { T h = UF3<T>(id + 1 + j, x, e, e); r += p(j) * h; } return r; }
};
#include "sqpstub.h"
template <typename Problem, typename QPS> class SQP : public SQPBase<SQP<Problem, QPS>, Problem, QPS, H_PRE> { public:
  typedef SQPBase<SQP<Problem, QPS>, Problem, QPS, H_PRE> Base;
#ifdef H_FREEHESS
  // the Hessian model after an update is arbitrary: the arguments are what matters
  struct Up { Vec s, y; Mat H; }; std::vector<Up> ups;
  EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<typename Base::nlp_hessian_t> H, const Eigen::Ref<const typename Base::nlp_variable_t>& s, const Eigen::Ref<const typename Base::nlp_variable_t>& y) noexcept
  { Up u; u.s = s; u.y = y; for (int i = 0; i < NX; i++) for (int j = 0; j <= i; j++) H(i, j) = H(j, i) = var(pre + "H" + std::to_string(ups.size()) + "_" + std::to_string(i) + "_" + std::to_string(j), -2, 2); u.H = H; ups.push_back(u); }
#endif
};
typedef SQP<ModelNLP, QPStub> Solver; static Solver* S;
static void st(Rec& r) { r.x = S->primal_solution(); r.lam = S->dual_solution(); }
// exact derivative of problem function id with respect to variables i and j (-1: none)
static double D(int id, const Vec& x, const Vec& p, int i = -1, int j = -1) { double r = 0; for (int k = 0; k <= p.size(); k++) { UfCall c; c.id = id + k; for (int q = 0; q < 12; q++) c.mi[q] = 0; if (i >= 0) c.mi[i]++; if (j >= 0) c.mi[j]++; double v = uf_eval(c, x.data(), NX); r += k ? p(k - 1) * v : v; } return r; }
static double mx(double a, double b) { return a < b ? b : a; }
static double ab(double a) { return a < 0 ? -a : a; }
void harness() {
  S = new Solver; Solver& s = *S; std::vector<Rec> store; recs = &store; state = st; std::vector<Vec> pts; const double inf = std::numeric_limits<double>::infinity();
  s.settings().max_iter = H_ITER; s.settings().line_search_max_iter = H_LS; s.settings().tau = 0.5;
  double ep = -1, ed = -1;
#if H_MODE == 5
  ep = var("epsprim", 1e-6, 2); ed = var("epsdual", 1e-6, 4);
#endif
  s.settings().eps_prim = ep; s.settings().eps_dual = ed; double eta = var("eta", 0.03125, 0.96875); s.settings().eta = eta;
  for (int rep = 0; rep < H_REP; rep++) { pre = std::string(1, char('a' + rep)); store.clear(); pts.clear(); costpts = &pts; if (rep) s.m_qp_solver.reused = true;
    Vec x0(NX), l0(NC + NX), p(NP), lbx(NX), ubx(NX), lbg(NI), ubg(NI); fill(p, pre + "par", -1, 1);
    for (int i = 0; i < NX; i++) { lbx(i) = -inf; ubx(i) = inf; } for (int i = 0; i < NI; i++) { lbg(i) = -inf; ubg(i) = inf; }
#if H_BK == 0
    fill(lbx, pre + "lbx", -3, 0); fill(ubx, pre + "ubx", 0, 3); fill(lbg, pre + "lbg", -3, 0); fill(ubg, pre + "ubg", 0, 3);
#elif H_BK == 1
    fill(lbx, pre + "lbx", -3, 0); fill(ubg, pre + "ubg", -1, 3);
#elif H_BK == 2
    ubx(0) = var(pre + "ubx", -1, 3); if (NI) lbg(0) = ubg(0) = var(pre + "eqg", -2, 2);
#endif
#if H_BK <= 2
    s.lower_bound_x() = lbx; s.upper_bound_x() = ubx;
#if H_NI > 0
    s.lower_bound_g() = lbg; s.upper_bound_g() = ubg;
#endif
#endif
    s.parameters() = p;
#ifdef H_CONT
    if (rep) { x0 = s.primal_solution(); l0 = s.dual_solution(); s.solve(); } else
#endif
    { fill(x0, pre + "x", -2, 2); fill(l0, pre + "l", -2, 2); ModelNLP::nlp_variable_t gx = x0; ModelNLP::nlp_dual_t gl = l0; s.solve(gx, gl); }
    costpts = nullptr; const int it = (int)store.size();
    auto F = [&](const Vec& x) { return ModelNLP::fun<double>(0, x, p); };
    auto C = [&](int i, const Vec& x) { return i < NE ? ModelNLP::fun<double>(10 + 4 * i, x, p) : ModelNLP::fun<double>(40 + 4 * (i - NE), x, p); };
    auto viol = [&](const Vec& x) { double v = 0; for (int i = 0; i < NE; i++) v += ab(C(i, x));
      for (int i = 0; i < NI; i++) { double g = C(NE + i, x); v += mx(lbg(i) - g, 0); } for (int i = 0; i < NI; i++) { double g = C(NE + i, x); v += mx(g - ubg(i), 0); }
      for (int i = 0; i < NX; i++) v += mx(lbx(i) - x(i), 0); for (int i = 0; i < NX; i++) v += mx(x(i) - ubx(i), 0); return v; };
    const auto status = s.info().status.value;
    sym_check_bool(it >= 1 && it <= H_ITER, "iteration limit"); sym_check_bool(s.info().iter == it, "reported iteration count");
    sym_check_bool(status == sqp_status_t::SOLVED || (status == sqp_status_t::MAX_ITER_EXCEEDED && it == H_ITER), "status"); sym_check_bool(s.info().qp_solver_iter == 7 * it, "accumulated QP iterations");
    Vec xe = s.primal_solution(), le = s.dual_solution(), gprev(NX); double alast = 1; 
    for (int k = 0; k < it; k++) { const Rec& r = store[k]; const bool last = k + 1 == it; const Vec xn = last ? xe : store[k + 1].x, ln = last ? le : store[k + 1].lam;
      // step length
      double a = 1; int j = 0; const double d = xn(0) - r.x(0); while (j < H_LS + 1 && !(ab(d - a * r.p(0)) < 1e-9)) { a *= 0.5; j++; }
      sym_check_bool(j <= H_LS, "step is a backtracking multiple of the QP step in (0,1]"); if (j > H_LS) return; alast = a;
      for (int i = 0; i < NX; i++) near_(xn(i), r.x(i) + a * r.p(i), TOL, "primal step");
      for (int i = 0; i < NC + NX; i++) near_(ln(i), r.lam(i) + a * (r.q(i) - r.lam(i)), TOL, "dual step");
#if H_MODE == 6
      if (k == 0) { nearM(r.x, x0, TOL, "starting primal"); nearM(r.lam, l0, TOL, "starting dual"); }
      // local QP
      double f = F(r.x); Vec g(NX); auto id = [](int i) { return i < NE ? 10 + 4 * i : 40 + 4 * (i - NE); };
      for (int i = 0; i < NX; i++) { double gi = D(0, r.x, p, i); near_(r.h(i), gi, TOL, "QP gradient"); for (int q = 0; q < NC; q++) gi += r.lam(q) * D(id(q), r.x, p, i); g(i) = gi + r.lam(NC + i); near_(r.lx(i), lbx(i) - r.x(i), TOL, "QP lower variable bound"); near_(r.ux(i), ubx(i) - r.x(i), TOL, "QP upper variable bound"); }
      for (int i = 0; i < NC; i++) { double c = C(i, r.x); for (int q = 0; q < NX; q++) near_(r.A(i, q), D(id(i), r.x, p, q), TOL, "QP constraint matrix");
        near_(r.al(i), i < NE ? -c : lbg(i - NE) - c, TOL, "QP lower constraint bound"); near_(r.au(i), i < NE ? -c : ubg(i - NE) - c, TOL, "QP upper constraint bound"); }
      Mat He(NX, NX);
      if (k == 0) for (int i = 0; i < NX; i++) for (int q = 0; q < NX; q++) { double e = D(0, r.x, p, i, q); for (int m = 0; m < NC; m++) e += r.lam(m) * D(id(m), r.x, p, i, q); He(i, q) = e; }
      else { Vec sx = r.x - store[k - 1].x, y = g - gprev;
#ifdef H_FREEHESS
        sym_check_bool((int)s.ups.size() == (H_ITER - 1) * (rep + 1), "one Hessian update per later iteration"); const auto& u = s.ups[rep * (H_ITER - 1) + k - 1]; nearM(u.s, sx, TOL, "step given to the Hessian update"); nearM(u.y, y, TOL, "gradient change given to the Hessian update"); He = u.H;
#else
        ModelNLP::nlp_hessian_t B = store[k - 1].H; ModelNLP::nlp_variable_t bs = sx, by = y; BFGS_update(B, bs, by); He = B;
#endif
      }
      gprev = g; nearM(r.H, He, TOL, "QP Hessian");
#ifdef H_MERIT
      if (j < H_LS - 1) { ModelNLP::nlp_dual_t qq = r.q; double mu = qq.template lpNorm<Eigen::Infinity>(); double v0 = viol(r.x), dp = 0; for (int i = 0; i < NX; i++) dp += r.h(i) * r.p(i);
        sym_check_le(F(xn) + mu * viol(xn), f + mu * v0 + a * eta * (dp - mu * v0), TOL, "sufficient decrease of the merit function"); sym_reach("accepted"); } else sym_reach("limit");
#endif
#endif
#if H_MODE == 5
      if (last && j < H_LS - 1) near_(s.cost(), F(xe), TOL, "reported cost");
      int tr = 0; for (auto& x : pts) { double t = 1; for (int q = 0; q <= H_LS; q++, t *= 0.5) if (ab(x(0) - r.x(0) - t * r.p(0)) < 1e-9) { tr++; break; } } 
      sym_check_bool(tr <= H_LS, "line search trials");
#endif
    }
#if H_MODE == 5
    double v = 0; for (int i = 0; i < NE; i++) v = mx(v, ab(C(i, xe)));
    for (int i = 0; i < NI; i++) { double g = C(NE + i, xe); v = mx(v, mx(lbg(i) - g, g - ubg(i))); } for (int i = 0; i < NX; i++) v = mx(v, mx(lbx(i) - xe(i), xe(i) - ubx(i)));
    near_(s.constr_violation(), v, TOL, "reported violation");
    double np = 0, nd = 0; const Rec& r = store[it - 1]; for (int i = 0; i < NX; i++) np = mx(np, ab(r.p(i))); for (int i = 0; i < NC + NX; i++) nd = mx(nd, ab(r.q(i) - r.lam(i)));
    near_(s.primal_norm(), alast * np, TOL, "reported primal step"); near_(s.dual_norm(), alast * nd, TOL, "reported dual step");
    if (status == sqp_status_t::SOLVED) {
      for (int i = 0; i < NE; i++) sym_check_le(ab(C(i, xe)), ep, TOL, "equality of the solved point");
      for (int i = 0; i < NI; i++) { double g = C(NE + i, xe); if (lbg(i) > -1e9) sym_check_le(lbg(i) - g, ep, TOL, "lower inequality of the solved point"); if (ubg(i) < 1e9) sym_check_le(g - ubg(i), ep, TOL, "upper inequality of the solved point"); }
      for (int i = 0; i < NX; i++) { if (lbx(i) > -1e9) sym_check_le(lbx(i) - xe(i), ep, TOL, "lower bound of the solved point"); if (ubx(i) < 1e9) sym_check_le(xe(i) - ubx(i), ep, TOL, "upper bound of the solved point"); }
      sym_check_le(alast * np, ep, TOL, "primal step of the solved point"); sym_check_le(alast * nd, ed, TOL, "dual step of the solved point"); sym_reach("solved"); }
    else { if (np * alast < ep - TOL && nd * alast < ed - TOL) sym_check_le(ep, v, TOL, "iteration limit although solved"); sym_reach("limit"); }
#endif
  }
  sym_reach("end");
}
