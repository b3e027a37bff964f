// C27: the adapters of external solvers hand over exactly the problem and settings, and hand back exactly the results (recording stand-ins in standin/)
#include "hcommon.h"
#include <functional>
#define TOL 1e-9
#if defined(H_OSQP)
#include <Eigen/Sparse>
#include "solvers/osqp_interface.hpp"
enum { N = H_N, M = H_M };
typedef polympc::OSQP<N, M, double> QP; typedef QPBase<QP, N, M, double, SPARSE> QB; typedef Eigen::SparseMatrix<double> Sp; typedef Eigen::VectorXd Vx;
static const int HI[] = {H_HPAT}, AI[] = {H_APAT, -1}; // nonzero positions (row * N + column)
template <class T> static bool in(const T& s, int k) { for (int v : s) if (v == k) return true; return false; }
static void put(Sp& S, int r, const Eigen::MatrixXd& D, bool hess, bool comp) { S.resize(r, N); for (int j = 0; j < N; j++) for (int i = 0; i < r; i++) if (hess ? in(HI, i * N + j) : in(AI, i * N + j)) S.insert(i, j) = D(i, j); if (comp) S.makeCompressed(); }
void harness() { QP& qp = *new QP; auto& s = qp.settings(); OsqpEigen::Script& sc = OsqpEigen::script();
  for (int k = 0; k < H_SOLVES; k++) { std::string K = std::to_string(k) + "_"; Eigen::MatrixXd H = Eigen::MatrixXd::Zero(N, N), A = Eigen::MatrixXd::Zero(M, N); Sp Hs, As;
    for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) if (in(HI, i * N + j)) H(i, j) = H(j, i) = var(K + "H" + std::to_string(i) + std::to_string(j), 0.5, 2);
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) if (in(AI, i * N + j)) A(i, j) = var(K + "A" + std::to_string(i) + std::to_string(j), -2, 2);
    put(Hs, N, H, true, H_COMP); put(As, M, A, false, H_COMP);
    QB::qp_var_t h(N), xl(N), xu(N); QB::qp_dual_a_t al(M), au(M); fill(h, K + "h", -2, 2); fill(xl, K + "xl", -2, 0); fill(xu, K + "xu", 0, 2); fill(al, K + "al", -2, 0); fill(au, K + "au", 0, 2);
    QB::qp_var_t x0(N); QB::qp_dual_t y0(N + M); fill(x0, K + "x0", -1, 1); fill(y0, K + "y0", -1, 1);
    s.rho = var(K + "rho", 0.01, 1); s.alpha = var(K + "alpha", 0.1, 1.9); s.sigma = var(K + "sigma", 1e-6, 1e-3); s.eps_abs = var(K + "eps_abs", 1e-6, 1); s.eps_rel = var(K + "eps_rel", 1e-6, 1); s.adaptive_rho_tolerance = var(K + "art", 1.5, 10); s.delta = var(K + "delta", 1e-6, 1e-2);
    s.time_limit = var(K + "tl", 0, 10); s.adaptive_rho_fraction = var(K + "arf", 0.1, 1); s.eps_prim_inf = var(K + "epi", 1e-6, 1e-2); s.eps_dual_inf = var(K + "edi", 1e-1, 1);
    s.max_iter = 100 + k; s.check_termination = 7 + k; s.adaptive_rho_interval = 13 + k; s.scaling = 3 + k; s.polish_refine_iter = 5 + k; s.verbose = k % 2; s.adaptive_rho = (k + 1) % 2; s.polish = k % 2; s.scaled_termination = (k + 1) % 2; s.osqp_linear_solver = k % 2;
    s.warm_start = k > 0; s.reuse_pattern = k > 0 && H_REUSE;
    sc.x.resize(N); sc.y.resize(N + M); fill(sc.x, K + "rx", -3, 3); fill(sc.y, K + "ry", -3, 3); sc.info.iter = 40 + k; sc.info.rho_updates = 9 + k; sc.info.pri_res = var(K + "pri", 0, 1); sc.info.dua_res = var(K + "dua", 2, 3); sc.info.rho_estimate = var(K + "re", 0.01, 1);
    const int st[] = {H_STATUS}; const status_t want[] = {H_WANT}; sc.info.status_val = st[k % (int)(sizeof st / sizeof *st)]; status_t w = want[k % (int)(sizeof want / sizeof *want)], r; const QB::qp_var_t h0 = h;
#ifdef H_GUESS
    r = qp.solve(Hs, h, As, al, au, xl, xu, x0, y0);
#else
    r = qp.solve(Hs, h, As, al, au, xl, xu);
#endif
    OsqpEigen::Seen& z = OsqpEigen::seen(); std::string L = k ? " (later solve)" : " (first solve)"; sym_check_bool(z.solves == k + 1, ("solved once" + L).c_str()); if (z.solves != k + 1) continue;
    Eigen::MatrixXd Af(N + M, N); Af.topRows(M) = A; Af.bottomRows(N) = Eigen::MatrixXd::Identity(N, N); Vx l(N + M), u(N + M); l << al, xl; u << au, xu;
    nearM(z.P, H, TOL, "Hessian handed over" + L); nearM(z.A, Af, TOL, "constraints handed over" + L); nearM(z.q, Vx(h0), TOL, "gradient handed over" + L); nearM(z.l, l, TOL, "lower bounds handed over" + L); nearM(z.u, u, TOL, "upper bounds handed over" + L);
#ifdef H_GUESS
    sym_check_bool(z.warm, ("guess handed over" + L).c_str()); if (z.warm) { nearM(z.x0, Vx(x0), TOL, "primal guess" + L); nearM(z.y0, Vx(y0), TOL, "dual guess" + L); }
#else
    sym_check_bool(!z.warm, ("no guess invented" + L).c_str());
#endif
    auto& t = z.settings; near_(t.rho, s.rho, TOL, "rho"); near_(t.alpha, s.alpha, TOL, "alpha"); near_(t.sigma, s.sigma, TOL, "sigma"); near_(t.eps_abs, s.eps_abs, TOL, "eps_abs"); near_(t.eps_rel, s.eps_rel, TOL, "eps_rel"); near_(t.adaptive_rho_tolerance, s.adaptive_rho_tolerance, TOL, "adaptive_rho_tolerance");
    near_(t.delta, s.delta, TOL, "delta"); near_(t.time_limit, s.time_limit, TOL, "time_limit"); near_(t.adaptive_rho_fraction, s.adaptive_rho_fraction, TOL, "adaptive_rho_fraction"); near_(t.eps_prim_inf, s.eps_prim_inf, TOL, "eps_prim_inf"); near_(t.eps_dual_inf, s.eps_dual_inf, TOL, "eps_dual_inf");
    sym_check_bool(t.verbose == s.verbose && t.warm_start == s.warm_start && t.adaptive_rho == s.adaptive_rho && t.polish == s.polish && t.scaled_termination == s.scaled_termination, "switches handed over");
    sym_check_bool(t.max_iter == s.max_iter && t.check_termination == s.check_termination && t.adaptive_rho_interval == s.adaptive_rho_interval && t.scaling == s.scaling && t.polish_refine_iter == s.polish_refine_iter && t.linsys == s.osqp_linear_solver, "counts handed over");
    nearM(Vx(qp.primal_solution()), sc.x, 0, "primal result" + L); nearM(Vx(qp.dual_solution()), sc.y, 0, "dual result" + L); sym_check_bool(r == w && qp.info().status == w, ("status" + L).c_str()); sym_check_bool(qp.info().iter == 40 + k && qp.info().rho_updates == 9 + k, ("counters" + L).c_str());
    near_(qp.info().res_prim, sc.info.pri_res, TOL, "primal residual reported"); near_(qp.info().res_dual, sc.info.dua_res, TOL, "dual residual reported"); near_(qp.info().rho_estimate, sc.info.rho_estimate, TOL, "rho estimate reported"); }
  sym_reach("end"); }
#elif defined(H_QPMAD)
#define POLYMPC_FOUND_QPMAD
#include <Eigen/Sparse>
#include "solvers/qpmad_interface.hpp"
enum { N = H_N, M = H_M };
typedef polympc::QPMAD<N, M, double> QP; typedef QPBase<QP, N, M, double, DENSE> QB; typedef Eigen::VectorXd Vx;
void harness() { QP& qp = *new QP; auto& s = qp.settings(); auto& sc = qpmad::script();
  for (int k = 0; k < 3; k++) { std::string K = std::to_string(k) + "_"; QB::qp_hessian_t H(N, N); QB::qp_constraint_t A(M, N); fillsym(H, K + "H", 0.5, 2); fill(A, K + "A", -2, 2); const QB::qp_hessian_t H0 = H;
    QB::qp_var_t h(N), xl(N), xu(N); QB::qp_dual_a_t al(M), au(M); fill(h, K + "h", -2, 2); fill(xl, K + "xl", -2, 0); fill(xu, K + "xu", 0, 2); fill(al, K + "al", -2, 0); fill(au, K + "au", 0, 2);
    s.max_iter = 50 + k; s.eps_abs = var(K + "eps", 1e-9, 1); s.hessian_type = 1; sc.x.resize(N); fill(sc.x, K + "rx", -3, 3); const int st[] = {0, 2, 77}; const status_t want[] = {SOLVED, MAX_ITER_EXCEEDED, UNSOLVED}; sc.status = st[k];
    status_t r = qp.solve(H, h, A, al, au, xl, xu); auto& z = qpmad::seen(); std::string L = " in solve " + std::to_string(k); sym_check_bool(z.solves == k + 1, ("solved once" + L).c_str());
    for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) near_(z.H(i, j), H0(i, j), TOL, "Hessian handed over" + L); nearM(z.A, Eigen::MatrixXd(A), TOL, "constraints handed over" + L); nearM(z.h, Vx(h), TOL, "gradient handed over" + L); nearM(z.lb, Vx(xl), TOL, "lower box" + L); nearM(z.ub, Vx(xu), TOL, "upper box" + L); nearM(z.alb, Vx(al), TOL, "lower constraint bound" + L); nearM(z.aub, Vx(au), TOL, "upper constraint bound" + L);
    nearM(H, H0, 0, "caller's Hessian untouched" + L); sym_check_bool(z.par.max_iter_ == s.max_iter && (int)z.par.hessian_type_ == s.hessian_type, "settings handed over"); near_(z.par.tolerance_, s.eps_abs, 0, "tolerance handed over");
    nearM(Vx(qp.primal_solution()), sc.x, 0, "primal result" + L); sym_check_bool(r == want[k], ("status returned" + L).c_str()); if (H_QPMAD_INFO || want[k] != UNSOLVED) sym_check_bool(qp.info().status == want[k], ("status recorded" + L).c_str()); }
  sym_reach("end"); }
#else
#if defined(H_OCP)
#include "ocpmodel.h"
typedef ModelOCP Prob; enum { PX = NV, PE = NE, PI = NI, PC = PE + PI }; typedef ModelOCP::static_parameter_t Par; enum { PD = H_ND };
#else
#include "ufwrap.h"
#include "solvers/nlproblem.hpp"
enum { PX = H_NX, PE = H_NE, PI = H_NI, PD = H_NP, PC = PE + PI };
POLYMPC_FORWARD_NLP_DECLARATION(ModelNLP, H_NX, H_NE, H_NI, H_NP, double)
class ModelNLP : public ProblemBase<ModelNLP> { public:
  template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& c) const noexcept { c = fun<T>(0, x, p); }
#if H_NE > 0
  template <typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept { for (int i = 0; i < H_NE; i++) c(i) = fun<T>(10 + 4 * i, x, p); }
#endif
#if H_NI > 0
  template <typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> c) const noexcept { for (int i = 0; i < H_NI; i++) c(i) = fun<T>(40 + 4 * i, x, p); }
#endif
  template <class T, class X, class P> static T fun(int id, const X& x, const P& p) { Eigen::Matrix<double, 0, 1> e; T r = UF3<T>(id, x, e, e); for (int j = 0; j < p.size(); j++) { T h = UF3<T>(id + 1 + j, x, e, e); r += p(j) * h; } return r; } };
typedef ModelNLP Prob; typedef ModelNLP::static_parameter_t Par;
#endif
#include "solvers/ipopt_interface.hpp"
#include <vector>
typedef Prob::nlp_variable_t V; typedef Prob::nlp_dual_t Du; typedef Eigen::VectorXd Vx;
static const double NOWHERE = 12345.678;
// reference: the problem's own services on a fresh object (their exactness is C12-C17)
struct Ref { double f = 0; V g{(int)PX}; Eigen::VectorXd c; Eigen::MatrixXd J, H; Ref(const V& x, const Par& p, const Vx& lam, double sc, const std::function<void(Prob&)>& conf) { Prob& o = *new Prob; conf(o); V cg(PX); Du l(PC + PX); l.setZero(); for (int i = 0; i < PC; i++) l(i) = lam(i); Prob::nlp_hessian_t h((int)PX, (int)PX); Prob::nlp_constraints_t cc((int)PC); Prob::nlp_jacobian_t j((int)PC, (int)PX);
    o.lagrangian_gradient_hessian(x, p, l, f, g, h, cg, cc, j, sc); g = cg; c = cc; J = Eigen::MatrixXd(j); H = Eigen::MatrixXd(h); o.cost(x, p, f); } };
void harness() { IpoptInterface<Prob>& s = *new IpoptInterface<Prob>; std::function<void(Prob&)> conf = [](Prob&) {};
#if defined(H_OCP)
  { double t0 = var("t0", -1, 1), T = var("T", 0.3, 2); conf = [=](Prob& o) { o.set_time_limits(t0, t0 + T); }; conf(s.get_problem()); }
#endif
  V xl(PX), xu(PX), x0(PX); fill(xl, "xl", -3, -1); fill(xu, "xu", 1, 3); fill(x0, "x0", -1, 1); Prob::nlp_ineq_constraints_t gl(PI), gu(PI); fill(gl, "gl", -3, -1); fill(gu, "gu", 1, 3); Du d0(PC + PX); fill(d0, "d", -2, 2); Par p(PD); fill(p, "p", -2, 2);
  s.lower_bound_x() = xl; s.upper_bound_x() = xu; s.lower_bound_g() = gl; s.upper_bound_g() = gu; s.parameters() = p; std::vector<double> rx, rl, rzl, rzu; double robj = 0, rcv = 0, rdi = 0; int round = 0;
  Ipopt::script().solve = [&](Ipopt::TNLP& t, Ipopt::SolveStatistics& st) { using namespace Ipopt; std::string K = "r" + std::to_string(round) + "_"; Index n = -1, m = -1, nj = -1, nh = -1; TNLP::IndexStyleEnum style = TNLP::FORTRAN_STYLE; bool ok = t.get_nlp_info(n, m, nj, nh, style); sym_check_bool(ok && n == PX && m == PC, "sizes"); int off = style == TNLP::FORTRAN_STYLE;
    std::vector<double> a(n), b(n), c(m), e(m); t.get_bounds_info(n, a.data(), b.data(), m, c.data(), e.data()); for (int i = 0; i < n; i++) { near_(a[i], xl(i), 0, "lower variable bound"); near_(b[i], xu(i), 0, "upper variable bound"); } for (int i = 0; i < m; i++) { near_(c[i], i < PE ? 0 : gl(i - PE), 0, "lower constraint bound"); near_(e[i], i < PE ? 0 : gu(i - PE), 0, "upper constraint bound"); }
    { std::vector<double> x(n), zl(n), zu(n), la(m); t.get_starting_point(n, true, x.data(), true, zl.data(), zu.data(), m, true, la.data()); for (int i = 0; i < n; i++) { near_(x[i], x0(i), 0, "starting point"); near_(zu[i] - zl[i], d0(PC + i), TOL, "starting bound multipliers"); sym_check_le(0, zl[i], 0, "bound multiplier sign"); sym_check_le(0, zu[i], 0, "bound multiplier sign"); } for (int i = 0; i < m; i++) near_(la[i], d0(i), 0, "starting constraint multipliers"); }
    for (int k = 0; k < 2; k++) { std::string Q = K + std::to_string(k); V xv(PX); fill(xv, Q + "x", -2, 2); Vx lam(PC); fill(lam, Q + "l", -2, 2); double sc = var(Q + "s", 0.1, 2); double* xh = new double[n]; for (int i = 0; i < n; i++) xh[i] = xv(i); double* lh = new double[m]; for (int i = 0; i < m; i++) lh[i] = lam(i);
      Ref r(xv, p, lam, sc, conf); double f = NOWHERE; std::vector<double> g(n, NOWHERE), cv(m, NOWHERE), jv(nj, NOWHERE), hv(nh, NOWHERE); std::vector<Index> ji(nj, -9), jc(nj, -9), hi(nh, -9), hc(nh, -9);
      t.eval_f(n, xh, true, f); near_(f, r.f, TOL, "objective"); t.eval_grad_f(n, xh, false, g.data()); for (int i = 0; i < n; i++) near_(g[i], r.g(i), TOL, "objective gradient"); t.eval_g(n, xh, false, m, cv.data()); for (int i = 0; i < m; i++) near_(cv[i], r.c(i), TOL, "constraints");
      t.eval_jac_g(n, nullptr, false, m, nj, ji.data(), jc.data(), nullptr); t.eval_jac_g(n, xh, false, m, nj, nullptr, nullptr, jv.data()); t.eval_h(n, nullptr, false, 1, m, nullptr, false, nh, hi.data(), hc.data(), nullptr); t.eval_h(n, xh, false, sc, m, lh, true, nh, nullptr, nullptr, hv.data());
      auto scatter = [&](const std::vector<Index>& i, const std::vector<Index>& j, const std::vector<double>& v, int rows, bool sym, const Eigen::MatrixXd& want, const std::string& l) { Eigen::MatrixXd d = Eigen::MatrixXd::Zero(rows, n); std::vector<char> set(rows * n, 0); for (size_t q = 0; q < v.size(); q++) { int I = i[q] - off, J = j[q] - off; bool in = I >= 0 && I < rows && J >= 0 && J < n; sym_check_bool(in, (l + " index").c_str()); if (!in) continue; sym_check_bool(!set[I * n + J], (l + " entry given once").c_str()); set[I * n + J] = 1; if (sym) { sym_check_bool(I >= J, (l + " lower triangle").c_str()); set[J * n + I] = 1; } d(I, J) += v[q]; if (sym && I != J) d(J, I) += v[q]; }
        for (int I = 0; I < rows; I++) for (int J = 0; J < n; J++) near_(d(I, J), want(I, J), TOL, l); };
      scatter(ji, jc, jv, PC, false, r.J, "Jacobian"); scatter(hi, hc, hv, PX, true, r.H, "Hessian of the Lagrangian"); for (int i = 0; i < n; i++) near_(xh[i], xv(i), 0, "argument untouched"); delete[] xh; delete[] lh; }
    double* x = new double[n]; double* zl = new double[n]; double* zu = new double[n]; double* g = new double[m]; double* la = new double[m]; rx.resize(n); rl.resize(m); rzl.resize(n); rzu.resize(n);
    for (int i = 0; i < n; i++) { x[i] = rx[i] = var(K + "rx" + std::to_string(i), -2, 2); zl[i] = rzl[i] = var(K + "rzl" + std::to_string(i), 0, 2); zu[i] = rzu[i] = var(K + "rzu" + std::to_string(i), 0, 2); } for (int i = 0; i < m; i++) { g[i] = var(K + "rg" + std::to_string(i), -2, 2); la[i] = rl[i] = var(K + "rl" + std::to_string(i), -2, 2); }
    robj = var(K + "obj", -2, 2); st.iter = 17 + round; st.obj = robj; st.constr_viol = rcv = var(K + "cv", 0, 1); st.dual_inf = rdi = var(K + "di", 2, 3); t.finalize_solution(round ? MAXITER_EXCEEDED : SUCCESS, n, x, zl, zu, m, g, la, robj, nullptr, nullptr); delete[] x; delete[] zl; delete[] zu; delete[] g; delete[] la; return round ? Maximum_Iterations_Exceeded : Solve_Succeeded; };
  for (round = 0; round < 2; round++) {
    if (round == 0) s.solve(x0, d0); else { for (int i = 0; i < PX; i++) x0(i) = rx[i]; for (int i = 0; i < PC; i++) d0(i) = rl[i]; for (int i = 0; i < PX; i++) d0(PC + i) = rzu[i] - rzl[i]; s.solve(); }
    for (int i = 0; i < PX; i++) near_(s.primal_solution()(i), rx[i], 0, "primal result"); for (int i = 0; i < PC; i++) near_(s.dual_solution()(i), rl[i], 0, "constraint multipliers returned"); for (int i = 0; i < PX; i++) near_(s.dual_solution()(PC + i), rzu[i] - rzl[i], TOL, "bound multipliers returned");
    near_(s.cost(), robj, 0, "cost reported"); near_(s.constr_violation(), rcv, 0, "violation reported"); near_(s.dual_norm(), rdi, 0, "dual residual reported"); sym_check_bool(s.info().iter == 17 + round && s.info().status == (round ? Ipopt::Maximum_Iterations_Exceeded : Ipopt::Solve_Succeeded), "status and iterations reported"); }
  sym_reach("end"); }
#endif
