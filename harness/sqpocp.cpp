// C06: SQPBase over a dense or sparse ContinuousOCP with a QP solver stub that answers arbitrarily: every QP is the exact
// linearisation (answered by a second, fresh dense problem object), regularisation and preconditioner hooks are applied and undone
#include "ocpmodel.h"
#define OCPNAME FreshOCP
#define OCPFMT DENSE
#include "ocpclass.h"
#include <vector>
#include "solvers/sqp_base.hpp"
#include "sqpstub.h"
#define TOL 1e-6
#ifndef H_ITER
#define H_ITER 2
#endif
#ifndef H_REP
#define H_REP 1
#endif
enum { NC = NE + NI };
template <typename Problem, typename QPS> class SQP : public SQPBase<SQP<Problem, QPS>, Problem, QPS, H_PRE> { public:
  typedef SQPBase<SQP<Problem, QPS>, Problem, QPS, H_PRE> Base;
  struct Up { Vec s, y; Mat H; }; std::vector<Up> ups; std::vector<double> regs;
  EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<typename Base::nlp_hessian_t>, const Eigen::Ref<const typename Base::nlp_variable_t>& s, const Eigen::Ref<const typename Base::nlp_variable_t>& y) noexcept
  { Up u; u.s = s; u.y = y; const std::string n = pre + "H" + std::to_string(ups.size()) + "_"; for (int i = 0; i < NV; i += 2) { this->m_H.coeffRef(i, i) = var(n + std::to_string(i), -2, 2); } u.H = Mat(this->m_H); ups.push_back(u); }
#ifdef H_REG
  template <class M> void reg(M& H) { double r = var(pre + "reg" + std::to_string(regs.size()), 0.25, 2); regs.push_back(r); for (int i = 0; i < NV; i++) H.coeffRef(i, i) += r; }
  EIGEN_STRONG_INLINE void hessian_regularisation_dense_impl(Eigen::Ref<typename Base::nlp_hessian_t> H) noexcept { reg(H); }
  EIGEN_STRONG_INLINE void hessian_regularisation_sparse_impl(typename Base::nlp_hessian_t& H) noexcept { reg(H); }
#endif
};
typedef SQP<ModelOCP, QPStub> Solver; static Solver* S; static void st(Rec& r) { r.x = S->primal_solution(); r.lam = S->dual_solution(); }
void harness() {
  S = new Solver; Solver& s = *S; std::vector<Rec> store; recs = &store; state = st; const double inf = std::numeric_limits<double>::infinity();
  s.settings().max_iter = H_ITER; s.settings().line_search_max_iter = 1; s.settings().eps_prim = -1; s.settings().eps_dual = -1;
#ifdef H_EPSP
  s.settings().eps_prim = var("epsprim", 0.0625, 3);
#endif
#ifdef H_EPSD
  s.settings().eps_dual = var("epsdual", 0.0625, 5);
#endif

  double t0 = var("t0", -2, 2), tf = t0 + var("T", 0.2, 3); s.get_problem().set_time_limits(t0, tf);
  for (int rep = 0; rep < H_REP; rep++) { pre = std::string(1, char('a' + rep)); store.clear(); if (rep) s.m_qp_solver.reused = true; s.ups.clear(); s.regs.clear();
    Vec lbx(NV), ubx(NV), lbg(NI), ubg(NI); Point q(pre); ModelOCP::nlp_dual_t l0(NC + NV); fill(l0, pre + "l", -2, 2); fill(lbx, pre + "lb", -3, 0); fill(ubx, pre + "ub", 0, 3); if (NI) { fill(lbg, pre + "lg", -3, 0); fill(ubg, pre + "ug", 0, 3); }
    for (int i = 0; i < NV; i += 3) lbx(i) = -inf; for (int i = 1; i < NV; i += 3) ubx(i) = inf;
    s.lower_bound_x() = lbx; s.upper_bound_x() = ubx; 
#if H_NG > 0
    s.lower_bound_g() = lbg; s.upper_bound_g() = ubg;
#endif
    s.parameters() = q.d; ModelOCP::nlp_variable_t x0 = q.v; s.solve(x0, l0); const int it = (int)store.size(); sym_check_bool(it == H_ITER && s.info().iter == it, "iterations"); if (it != H_ITER) return;
    Vec gprev; Mat Hprev;
    for (int k = 0; k < it; k++) { const Rec& r = store[k]; const bool last = k + 1 == it; Vec xn = last ? Vec(s.primal_solution()) : store[k + 1].x, ln = last ? Vec(s.dual_solution()) : store[k + 1].lam;
      if (k == 0) { nearM(r.x, q.v, 0, "starting primal"); nearM(r.lam, l0, 0, "starting dual"); }
      nearM(xn, r.x + r.p, TOL, "primal step"); nearM(ln, r.q, TOL, "dual step");
      FreshOCP& o = *new FreshOCP; o.set_time_limits(t0, tf); FreshOCP::nlp_variable_t v = r.x, g(NV), lg(NV); FreshOCP::nlp_dual_t lam = r.lam; FreshOCP::nlp_constraints_t c(NC); FreshOCP::nlp_jacobian_t J((int)NC, (int)NV); FreshOCP::nlp_hessian_t H((int)NV, (int)NV); double f = 0;
      if (k == 0) o.lagrangian_gradient_hessian(v, q.d, lam, f, lg, H, g, c, J); else o.lagrangian_gradient(v, q.d, lam, f, lg, g, c, J);
      nearM(r.h, g, TOL, "QP gradient"); nearM(r.A, J, TOL, "QP constraint matrix");
      for (int i = 0; i < NC; i++) { near_(r.al(i), i < NE ? -c(i) : lbg(i - NE) - c(i), TOL, "QP lower constraint bound"); near_(r.au(i), i < NE ? -c(i) : ubg(i - NE) - c(i), TOL, "QP upper constraint bound"); }
      for (int i = 0; i < NV; i++) { near_(r.lx(i), lbx(i) - r.x(i), TOL, "QP lower variable bound"); near_(r.ux(i), ubx(i) - r.x(i), TOL, "QP upper variable bound"); }
      if (k == 0) { Mat He = H;
#ifdef H_REG
        sym_check_bool(s.regs.size() == 1, "regularisation of the exact Hessian"); if (s.regs.size() != 1) return; for (int i = 0; i < NV; i++) He(i, i) += s.regs[0];
#endif
        nearM(r.H, He, TOL, "QP Hessian"); }
      else { sym_check_bool((int)s.ups.size() == it - 1, "one Hessian update per later iteration"); if ((int)s.ups.size() != it - 1) return; const auto& u = s.ups[k - 1]; nearM(u.s, r.x - store[k - 1].x, TOL, "step given to the Hessian update"); nearM(u.y, Vec(lg) - gprev, TOL, "gradient change given to the Hessian update"); nearM(r.H, u.H, TOL, "QP Hessian");
        for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) if (i != j || i % 2) near_(u.H(i, j), Hprev(i, j), TOL, "Hessian model kept between updates"); }
      gprev = lg; Hprev = r.H; } }
  sym_reach("end");
}
