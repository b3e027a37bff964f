// C22: MPC wrapper.  H_MODE 1: setters and getters; 2: interpolation at an arbitrary time; 3: solve() starts from the guesses; 4: interpolation at node times
#include "ocpmodel.h"
#include "solvers/sqp_base.hpp"
#include "control/mpc_wrapper.hpp"
enum { NC = NE + NI };
#if defined(H_SYMT0) || defined(H_SYMLEN)
#define ITOL 5e-5
#else
#define ITOL 1e-6
#endif
typedef Eigen::VectorXd Vec;
struct QPStub {
  typedef qp_solver_settings_t<double> settings_t; typedef qp_solver_info_t<double> info_t;
  settings_t m_settings; info_t m_info; Vec m_x, m_y;
  settings_t& settings() { return m_settings; } info_t& info() { return m_info; } const info_t& info() const { return m_info; }
  const Vec& primal_solution() const { return m_x; } const Vec& dual_solution() const { return m_y; }
  template <class MH, class MA, class V1, class V2> status_t solve(const MH& H, const V1& h, const MA& A, const V2& al, const V2& au, const V1& lx, const V1& ux) {
    lxs = lx; uxs = ux; m_x = Vec::Zero(H.rows()); m_y = Vec::Zero(A.rows() + H.rows()); m_info.iter = 1; m_info.status = SOLVED; return SOLVED; }
  Vec lxs, uxs;
};
template <typename Problem, typename QPS> class SQP : public SQPBase<SQP<Problem, QPS>, Problem, QPS> {};
typedef MPC<ModelOCP, SQP, QPStub> M;
struct Mirror { Vec lx, ux, lg, ug, x, lam, d; };
static M* mp;
static void same(const Vec& a, const Vec& b, const std::string& l) { sym_check_bool(a.size() == b.size(), (l + " size").c_str()); for (int i = 0; i < a.size() && i < b.size(); i++) near_(a(i), b(i), 0, l); }
static void compare(const Mirror& r, const std::string& l) { auto& s = mp->solver();
  same(s.lower_bound_x(), r.lx, l + ": lower bounds"); same(s.upper_bound_x(), r.ux, l + ": upper bounds"); same(s.m_x, r.x, l + ": primal guess"); same(s.m_lam, r.lam, l + ": dual guess"); same(s.parameters(), r.d, l + ": static parameters");
  same(s.m_lbg, r.lg, l + ": constraint lower bounds"); same(s.m_ubg, r.ug, l + ": constraint upper bounds"); }
static int gen; static Vec fresh(int n) { Vec v(n); fill(v, "s" + std::to_string(gen++) + "_", -2, 2); return v; }
void harness() { sym_strict(1);
  mp = new M; M& m = *mp; auto& s = m.solver(); const int XS = NX * NN, US = NU * NN;
#if H_MODE != 1
  const double t0 =
#ifdef H_SYMT0
    var("t0", -3, 3);
#else
    H_T0;
#endif
  const double tf = t0 +
#ifdef H_SYMLEN
    var("len", 0.5, 4);
#else
    H_LEN;
#endif
#ifndef H_DEFAULT
  m.set_time_limits(t0, tf);
#endif
  near_(m.ocp().t_start, t0, 0, "horizon start"); near_(m.ocp().t_stop, tf, 0, "horizon end");
#endif
#if H_MODE == 1
  Mirror r; r.lx = fresh(NV); r.ux = fresh(NV); r.x = fresh(NV); r.lam = fresh(NC + NV); r.d = fresh(ND); r.lg = fresh(NI); r.ug = fresh(NI);
  s.lower_bound_x() = r.lx; s.upper_bound_x() = r.ux; s.m_x = r.x; s.m_lam = r.lam; s.parameters() = r.d; s.m_lbg = r.lg; s.m_ubg = r.ug;
  typedef M::state_t X; typedef M::control_t U; typedef M::traj_state_t TX; typedef M::traj_control_t TU;
  auto nodes = [&](Vec& v, int from, int to, const Vec& a, int off, int n) { for (int k = from; k < to; k++) for (int i = 0; i < n; i++) v(off + k * n + i) = a(i); };
  for (int round = 0; round < 2; round++) for (int q = 0; q < 20; q++) { int op = round ? 19 - q : q; std::string l = "setter " + std::to_string(op); Vec a, b;
    if (op == 0) { a = fresh(NX); X x = a; m.initial_conditions(x); nodes(r.lx, NN - 1, NN, a, 0, NX); nodes(r.ux, NN - 1, NN, a, 0, NX); }
    if (op == 1) { a = fresh(NX); b = fresh(NX); X x = a, y = b; m.initial_conditions(x, y); nodes(r.lx, NN - 1, NN, a, 0, NX); nodes(r.ux, NN - 1, NN, b, 0, NX); }
    if (op == 2) { a = fresh(NX); X x = a; m.x_lower_bound(x); nodes(r.lx, 0, NN - 1, a, 0, NX); }
    if (op == 3) { a = fresh(NX); X x = a; m.x_upper_bound(x); nodes(r.ux, 0, NN - 1, a, 0, NX); }
    if (op == 4) { a = fresh(NX); b = fresh(NX); X x = a, y = b; m.state_bounds(x, y); nodes(r.lx, 0, NN - 1, a, 0, NX); nodes(r.ux, 0, NN - 1, b, 0, NX); }
    if (op == 5) { a = fresh(XS); b = fresh(XS); TX x = a, y = b; m.state_trajectory_bounds(x, y); r.lx.head(XS) = a; r.ux.head(XS) = b; }
    if (op == 6) { a = fresh(NX); X x = a; m.x_final_lower_bound(x); nodes(r.lx, 0, 1, a, 0, NX); }
    if (op == 7) { a = fresh(NX); X x = a; m.x_final_upper_bound(x); nodes(r.ux, 0, 1, a, 0, NX); }
    if (op == 8) { a = fresh(NX); b = fresh(NX); X x = a, y = b; m.final_state_bounds(x, y); nodes(r.lx, 0, 1, a, 0, NX); nodes(r.ux, 0, 1, b, 0, NX); }
    if (op == 9) { a = fresh(NU); U x = a; m.u_lower_bound(x); nodes(r.lx, 0, NN, a, XS, NU); }
    if (op == 10) { a = fresh(NU); U x = a; m.u_upper_bound(x); nodes(r.ux, 0, NN, a, XS, NU); }
    if (op == 11) { a = fresh(US); b = fresh(US); TU x = a, y = b; m.control_trajecotry_bounds(x, y); r.lx.segment(XS, US) = a; r.ux.segment(XS, US) = b; }
    if (op == 12) { a = fresh(NU); b = fresh(NU); U x = a, y = b; m.control_bounds(x, y); nodes(r.lx, 0, NN, a, XS, NU); nodes(r.ux, 0, NN, b, XS, NU); }
#if H_NG > 0
    if (op == 13) { a = fresh(NI); b = fresh(NI); M::constraints_t x = a, y = b; m.constraints_trajectory_bounds(x, y); r.lg = a; r.ug = b; }
    if (op == 14) { a = fresh(NG); b = fresh(NG); M::constraint_t x = a, y = b; m.constraints_bounds(x, y); nodes(r.lg, 0, NN, a, 0, NG); nodes(r.ug, 0, NN, b, 0, NG); }
#endif
    if (op == 15) { a = fresh(NP); b = fresh(NP); M::parameter_t x = a, y = b; m.parameters_bounds(x, y); r.lx.tail(NP) = a; r.ux.tail(NP) = b; }
    if (op == 16) { a = fresh(ND); M::static_param x = a; m.set_static_parameters(x); r.d = a; }
    if (op == 17) { a = fresh(XS); TX x = a; m.x_guess(x); r.x.head(XS) = a; }
    if (op == 18) { a = fresh(US); TU x = a; m.u_guess(x); r.x.segment(XS, US) = a; }
    if (op == 19) { a = fresh(NP); M::parameter_t x = a; m.p_guess(x); r.x.tail(NP) = a; Vec c = fresh(NC + NV); M::dual_var_t y = c; m.lam_guess(y); r.lam = c; }
    compare(r, l);
    if (q % 7 == 3) m.set_time_limits(-1, 1 + q);
    if (q % 7 == 4) compare(r, "set_time_limits"); }
  const M& cm = m;   // getters
  same(cm.solution_x(), r.x.head(XS), "state trajectory"); same(cm.solution_u(), r.x.segment(XS, US), "control trajectory"); same(cm.solution_p(), r.x.tail(NP), "parameters"); same(cm.solution_dual(), r.lam, "dual solution");
  auto xr = cm.solution_x_reshaped(); auto ur = cm.solution_u_reshaped();
  for (int k = 0; k < NN; k++) { X xk = cm.solution_x_at(k); U uk = cm.solution_u_at(k); // k-th node in time: stored at NN-1-k
    near_(m.time_grid(k), m.ocp().time_nodes(NN - 1 - k), 0, "time grid"); if (k) sym_check_lt(m.time_grid(k - 1), m.time_grid(k), "time grid ascends");
    for (int i = 0; i < NX; i++) { near_(xr(i, k), r.x((NN - 1 - k) * NX + i), 0, "reshaped state"); near_(xk(i), r.x((NN - 1 - k) * NX + i), 0, "state at node"); }
    for (int i = 0; i < NU; i++) { near_(ur(i, k), r.x(XS + (NN - 1 - k) * NU + i), 0, "reshaped control"); near_(uk(i), r.x(XS + (NN - 1 - k) * NU + i), 0, "control at node"); } }
  compare(r, "getters");
  sym_check_bool(&m.settings() == &s.m_settings && &cm.settings() == &s.m_settings && &m.info() == &s.m_info && &cm.info() == &s.m_info && &m.qp_settings() == &s.m_qp_solver.m_settings && &m.ocp() == &s.problem && &cm.ocp() == &s.problem && &cm.solver() == &s, "accessors");
  s.m_cost = var("cost", -1, 1); s.m_primal_norm = var("pn", 0, 1); s.m_dual_norm = var("dn", 0, 1); s.m_max_violation = var("mv", 0, 1);
  near_(m.cost(), s.m_cost, 0, "cost"); near_(m.primal_norm(), s.m_primal_norm, 0, "primal norm"); near_(m.dual_norm(), s.m_dual_norm, 0, "dual norm");
#elif H_MODE == 2 || H_MODE == 4
  Vec x = fresh(XS), u = fresh(US); M::traj_state_t tx = x; M::traj_control_t tu = u; m.x_guess(tx); m.u_guess(tu);
  Oracle o; o.t0 = t0; o.tf = tf; const double h = (tf - t0) / SEG;
#if H_MODE == 2
  const double hh = (tf - t0) / SEG, v = var("t", -4, 8), t = H_SEG * hh + v; const int seg = H_SEG;
  sym_assume_le(H_SEG ? t0 + 1e-7 : t0, v); sym_assume_le(v, H_SEG + 1 < SEG ? t0 + hh - 1e-7 : t0 + hh);   // strictly inside the segment, except at the ends of the horizon
  auto st = m.solution_x_at(t); auto ct = m.solution_u_at(t);
  // Lagrange form over the nodes of the segment, local coordinate in [-1, 1]
  double z = 2 * (t - t0 - seg * h) / h - 1; const int b = SEG - 1 - seg; double L[PO + 1];
  for (int j = 0; j <= PO; j++) { L[j] = 1; for (int k = 0; k <= PO; k++) if (k != j) L[j] = L[j] * (z - o.node[k]) / (o.node[j] - o.node[k]); }
  for (int i = 0; i < NX; i++) { double r = 0; for (int j = 0; j <= PO; j++) r += L[j] * x((b * PO + j) * NX + i); near_(st(i), r, ITOL, "interpolated state"); }
  for (int i = 0; i < NU; i++) { double r = 0; for (int j = 0; j <= PO; j++) r += L[j] * u((b * PO + j) * NU + i); near_(ct(i), r, ITOL, "interpolated control"); }

#else
  for (int k = 0; k < NN; k++) { const double t = m.time_grid(k); near_(t, o.time(NN - 1 - k), 1e-9, "node time");
    auto st = m.solution_x_at(t); auto ct = m.solution_u_at(t);
    for (int i = 0; i < NX; i++) near_(st(i), x((NN - 1 - k) * NX + i), 1e-6, "state at node time"); for (int i = 0; i < NU; i++) near_(ct(i), u((NN - 1 - k) * NU + i), 1e-6, "control at node time"); }
#endif
#endif
  sym_reach("end");
}
