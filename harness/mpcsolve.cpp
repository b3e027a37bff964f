// C22: the MPC wrapper through whole solves: what was set reaches the QP solver, each solve starts where the last one ended
#include "ocpmodel.h"
#define OCPNAME FreshOCP
#define OCPFMT DENSE
#include "ocpclass.h"
#include <vector>
#include "solvers/sqp_base.hpp"
#include "control/mpc_wrapper.hpp"
#include "sqpstub.h"
#define TOL 1e-6
enum { NC = NE + NI, XS = NX * NN, US = NU * NN };
template <typename Problem, typename QPS> class SQP : public SQPBase<SQP<Problem, QPS>, Problem, QPS> { public: typedef SQPBase<SQP<Problem, QPS>, Problem, QPS> Base;
  EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<typename Base::nlp_hessian_t>, const Eigen::Ref<const typename Base::nlp_variable_t>&, const Eigen::Ref<const typename Base::nlp_variable_t>&) noexcept {} };
typedef MPC<ModelOCP, SQP, QPStub> M; static M* mp; static void st(Rec& r) { r.x = mp->solver().m_x; r.lam = mp->solver().m_lam; }
static int gen; static Vec fresh(int n, double lo = -2, double hi = 2) { Vec v(n); fill(v, "s" + std::to_string(gen++) + "_", lo, hi); return v; }
void harness() { sym_strict(1);
  mp = new M; M& m = *mp; std::vector<Rec> store; recs = &store; state = st; pre = "a";
  m.settings().max_iter = 1; m.settings().line_search_max_iter = 1; m.settings().eps_prim = -1; m.settings().eps_dual = -1;
  double t0 = var("t0", -2, 2), tf = t0 + var("T", 0.2, 3); m.set_time_limits(t0, tf);
  Vec lx(NV), ux(NV), lg(NI), ug(NI), x(NV), lam(NC + NV), d(ND);
  { Vec a = fresh(NX, -3, 0), b = fresh(NX, 0, 3); M::state_t xa = a, xb = b; m.state_bounds(xa, xb); for (int k = 0; k < NN - 1; k++) { lx.segment(k * NX, NX) = a; ux.segment(k * NX, NX) = b; } }
  { Vec a = fresh(NU, -3, 0), b = fresh(NU, 0, 3); M::control_t xa = a, xb = b; m.control_bounds(xa, xb); for (int k = 0; k < NN; k++) { lx.segment(XS + k * NU, NU) = a; ux.segment(XS + k * NU, NU) = b; } }
#if H_NP > 0
  { Vec a = fresh(NP, -3, 0), b = fresh(NP, 0, 3); M::parameter_t xa = a, xb = b; m.parameters_bounds(xa, xb); lx.tail(NP) = a; ux.tail(NP) = b; }
#endif
#if H_NG > 0
  { Vec a = fresh(NG, -3, 0), b = fresh(NG, 0, 3); M::constraint_t xa = a, xb = b; m.constraints_bounds(xa, xb); for (int k = 0; k < NN; k++) { lg.segment(k * NG, NG) = a; ug.segment(k * NG, NG) = b; } }
#endif
#if H_ND > 0
  { d = fresh(ND); M::static_param a = d; m.set_static_parameters(a); }
#endif
  { Vec a = fresh(XS); M::traj_state_t q = a; m.x_guess(q); x.head(XS) = a; } { Vec a = fresh(US); M::traj_control_t q = a; m.u_guess(q); x.segment(XS, US) = a; }
#if H_NP > 0
  { Vec a = fresh(NP); M::parameter_t q = a; m.p_guess(q); x.tail(NP) = a; }
#endif
  { lam = fresh(NC + NV); M::dual_var_t q = lam; m.lam_guess(q); }
  for (int k = 0; k < 3; k++) { const std::string L = " in solve " + std::to_string(k); // k = 1: new measurement and horizon; k = 2: new state guess, final bounds and static parameters, multipliers reset
    { Vec a = fresh(NX); M::state_t q = a; m.initial_conditions(q); lx.segment(XS - NX, NX) = a; ux.segment(XS - NX, NX) = a; }
    if (k == 1) { t0 = tf - 0.125; tf = t0 + var("T2", 0.2, 3); m.set_time_limits(t0, tf); }
    if (k == 2) { Vec a = fresh(XS); M::traj_state_t q = a; m.x_guess(q); x.head(XS) = a; Vec b = fresh(NX, -3, 0), c = fresh(NX, 0, 3); M::state_t xb = b, xc = c; m.final_state_bounds(xb, xc); lx.head(NX) = b; ux.head(NX) = c;
#if H_ND > 0
      d = fresh(ND); M::static_param s = d; m.set_static_parameters(s);
#endif
      lam = Vec::Zero(NC + NV); M::dual_var_t z = lam; m.lam_guess(z); }
    m.solve(); sym_check_bool((int)store.size() == k + 1, ("one QP" + L).c_str()); if ((int)store.size() != k + 1) return; const Rec& r = store[k];
    nearM(r.x, x, 0, "starting primal" + L); nearM(r.lam, lam, 0, "starting dual" + L);
    FreshOCP& o = *new FreshOCP; o.set_time_limits(t0, tf); FreshOCP::nlp_variable_t v = x, g(NV), gl(NV); FreshOCP::nlp_dual_t y = lam; FreshOCP::nlp_constraints_t c(NC); FreshOCP::nlp_jacobian_t J((int)NC, (int)NV); double f = 0; FreshOCP::static_parameter_t sp = d;
    o.lagrangian_gradient(v, sp, y, f, gl, g, c, J);
    nearM(r.h, g, TOL, "QP gradient" + L); nearM(r.A, J, TOL, "QP constraint matrix" + L);
    for (int i = 0; i < NC; i++) { near_(r.al(i), i < NE ? -c(i) : lg(i - NE) - c(i), TOL, "constraint lower bound" + L); near_(r.au(i), i < NE ? -c(i) : ug(i - NE) - c(i), TOL, "constraint upper bound" + L); }
    for (int i = 0; i < NV; i++) { near_(r.lx(i), lx(i) - x(i), TOL, "variable lower bound" + L); near_(r.ux(i), ux(i) - x(i), TOL, "variable upper bound" + L); }
    x += r.p; lam = r.q; const M& cm = m;
    nearM(Vec(cm.solution_x()), x.head(XS), TOL, "state trajectory" + L); nearM(Vec(cm.solution_u()), x.segment(XS, US), TOL, "control trajectory" + L); nearM(Vec(cm.solution_dual()), lam, TOL, "dual solution" + L);
#if H_NP > 0
    nearM(Vec(cm.solution_p()), x.tail(NP), TOL, "parameters" + L);
#endif
    auto xr = cm.solution_x_reshaped(); auto ur = cm.solution_u_reshaped(); M::state_t xi = cm.solution_x_at(0); M::control_t ui = cm.solution_u_at(0);
    for (int n = 0; n < NN; n++) { for (int i = 0; i < NX; i++) near_(xr(i, n), x((NN - 1 - n) * NX + i), TOL, "reshaped states" + L); for (int i = 0; i < NU; i++) near_(ur(i, n), x(XS + (NN - 1 - n) * NU + i), TOL, "reshaped controls" + L); }
    for (int i = 0; i < NX; i++) near_(xi(i), x((NN - 1) * NX + i), TOL, "first state" + L); for (int i = 0; i < NU; i++) near_(ui(i), x(XS + (NN - 1) * NU + i), TOL, "control to apply" + L);
    sym_check_bool(m.info().iter == 1, ("iterations" + L).c_str()); x = m.solver().m_x; lam = m.solver().m_lam; }
  sym_reach("end");
}
