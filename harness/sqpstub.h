// QP solver stub for SQPBase: records every QP it is given (unscaled) and answers arbitrarily
#pragma once
#include "hcommon.h"
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
// a preconditioner with fixed power-of-two factors: x = D xs, y = E ys / c, box multipliers D^-1 ys / c
struct Scaler { static double d(int i) { return i % 3 == 0 ? 2 : i % 3 == 1 ? 0.25 : 1; } static double e(int i) { return i % 2 ? 0.5 : 4; } static double c() { return 0.5; }
  template <class M, class F> static void each(Eigen::MatrixBase<M>& m, F f) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) m(i, j) *= f(i, j); }
  template <class F> static void each(Eigen::SparseMatrix<double>& m, F f) { for (int j = 0; j < m.outerSize(); j++) for (Eigen::SparseMatrix<double>::InnerIterator it(m, j); it; ++it) it.valueRef() *= f((int)it.row(), (int)it.col()); }
  template <class MH, class V, class MA, class W> static void map(MH& H, V& h, MA& A, W& al, W& au, V& l, V& u, bool fwd) { auto f = [&](double v) { return fwd ? v : 1 / v; }; const int n = h.size(), m = al.size();
    each(H, [&](int i, int j) { return f(c() * d(i) * d(j)); }); each(A, [&](int i, int j) { return f(e(i) * d(j)); });
    for (int i = 0; i < n; i++) { h(i) *= f(c() * d(i)); l(i) *= f(1 / d(i)); u(i) *= f(1 / d(i)); } for (int i = 0; i < m; i++) { al(i) *= f(e(i)); au(i) *= f(e(i)); } }
  template <class MH, class V, class MA, class W> void compute(MH& H, V& h, MA& A, W& al, W& au, V& l, V& u) { map(H, h, A, al, au, l, u, true); }
  template <class MH, class V, class MA, class W> void unscale(MH& H, V& h, MA& A, W& al, W& au, V& l, V& u) { map(H, h, A, al, au, l, u, false); }
  template <class P, class D> void unscale(P& x, D& y) { const int n = x.size(), m = y.size() - n; for (int i = 0; i < n; i++) x(i) *= d(i); for (int i = 0; i < m; i++) y(i) *= e(i) / c(); for (int i = 0; i < n; i++) y(m + i) /= d(i) * c(); } };
struct Rec { Mat H, A; Vec h, al, au, lx, ux, x, lam, p, q; };
static std::vector<Rec>* recs; static std::string pre; static void (*state)(Rec& r);
struct QPStub {
  typedef qp_solver_settings_t<double> settings_t; typedef qp_solver_info_t<double> info_t;
  settings_t m_settings; info_t m_info; Vec m_x, m_y;
  settings_t& settings() { return m_settings; } info_t& info() { return m_info; } const info_t& info() const { return m_info; }
  const Vec& primal_solution() const { return m_x; } const Vec& dual_solution() const { return m_y; }
  template <class MH, class MA> status_t solve(const MH& H, const Vec& h, const MA& A, const Vec& al, const Vec& au, const Vec& lx, const Vec& ux) {
    Rec r; r.H = Mat(H); r.h = h; r.A = Mat(A); r.al = al; r.au = au; r.lx = lx; r.ux = ux; std::string k = pre + std::to_string(recs->size());
    m_x.resize(H.rows()); m_y.resize(A.rows() + H.rows()); 
    for (int i = 0; i < m_x.size(); i++) m_x(i) = var("p" + k + "_" + std::to_string(i), i ? -2 : 0.0625, 2);
    fill(m_y, "q" + k + "_", -2, 2);
    r.p = m_x; r.q = m_y;
#ifdef H_SCALE
    { const int n = m_x.size(), m = A.rows(); Scaler::map(r.H, r.h, r.A, r.al, r.au, r.lx, r.ux, false); for (int i = 0; i < n; i++) { m_x(i) /= Scaler::d(i); m_y(m + i) *= Scaler::d(i) * Scaler::c(); } for (int i = 0; i < m; i++) m_y(i) *= Scaler::c() / Scaler::e(i);
      for (int i = 0; i < n; i++) near_(r.p(i), m_x(i) * Scaler::d(i), 0, "scaled answer"); r.p = m_x; r.q = m_y; Scaler().unscale(r.p, r.q); }
#endif
 m_info.iter = 7; m_info.status = SOLVED; state(r);
    sym_check_bool(m_settings.reuse_pattern == (reused || !recs->empty()), "sparsity pattern reuse flag");
    recs->push_back(r); return SOLVED; }
  bool reused = false;
};
#ifdef H_SCALE
#define H_PRE Scaler
#endif
#ifndef H_PRE
#define H_PRE polympc::IdentityPreconditioner
#endif
