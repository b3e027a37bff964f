// QP splitting solvers: the linear solver is a stub that records every system it is given and answers with arbitrary
// vectors, so that all claims hold for any linear solver accuracy.
//  H_MODE 1: iteration recursion (C02)   2: optimality certificate (C01)   3: status, counts, penalties, start (C03)
#include "hcommon.h"
#include <vector>
#include <algorithm>
#include "solvers/admm.hpp"
#include "solvers/box_admm.hpp"
enum { N = H_N, M = H_M };
#ifndef H_SC
#define H_SC double
#endif
#ifndef H_FMT
#define H_FMT DENSE
#endif
#ifndef H_UPLO
#define H_UPLO Eigen::Lower
#endif
#ifndef H_HM
#define H_HM 0xFFFFFFFF
#endif
#ifndef H_AM
#define H_AM 0xFFFFFFFF
#endif
#ifndef H_TOL
#define H_TOL 1e-6
#endif
#ifndef H_REP
#define H_REP 1
#endif
#ifndef H_ITERS
#define H_ITERS 2
#endif
#ifndef H_KIND
#define H_KIND 0
#endif
#ifndef H_VR
#define H_VR 2
#endif
typedef H_SC S; typedef Eigen::Matrix<S, Eigen::Dynamic, 1> Vec; typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Mat;
struct Rec { Mat K; Vec rhs, sol, x, y, z, q, rho; S base; };
static Rec (*hook)(const Mat& K, const Vec& rhs);
static std::vector<Rec>* recs;
template <typename MT, int UpLo, typename... Args> struct Stub {
  Mat K; Stub() {}
  template <class T> Stub& compute(const T& m) { K = Mat(m); return *this; }
  template <class T> void analyzePattern(const T&) {}
  template <class T> void factorize(const T& m) { K = Mat(m); }
  Eigen::ComputationInfo info() const { return Eigen::Success; }
  Vec solve(const Vec& rhs) const { Rec r = hook(K, rhs); recs->push_back(r); return r.sol; }
};
#ifdef H_BOX
typedef boxADMM<N, M, S, H_FMT, Stub, H_UPLO> QP;
enum { R = M, KS = N + M };
#else
typedef ADMM<N, M, S, H_FMT, Stub, H_UPLO> QP;
enum { R = N + M, KS = 2 * N + M };
#endif
static QP* P; static std::string pre;
static Rec take(const Mat& K, const Vec& rhs) {
  Rec r; r.K = K; r.rhs = rhs; r.sol.resize(KS); fill(r.sol, pre + "sol" + std::to_string(recs->size()) + "_", -H_VR, H_VR);
  r.x = P->primal_solution(); r.y = P->dual_solution(); r.z = P->m_z; r.base = P->rho; r.rho.resize(N + M);
#ifdef H_BOX
  r.q = P->m_q; r.rho << P->m_rho_vec, P->m_rho_vec_box;
#else
  r.rho = P->m_rho_vec;
#endif
  return r; }
static S clampS(S v, S lo, S hi) { S t = v < lo ? lo : v; return hi < t ? hi : t; }
static S absS(S v) { return v < S(0) ? -v : v; }
static S maxS(S a, S b) { return a < b ? b : a; }
static void bound(int kind, const std::string& n, S& l, S& u) {
  const S inf = std::numeric_limits<S>::infinity();
  switch (kind) {
    case 0: l = var(n + "lo", -2, 0); u = var(n + "up", 0.25, 2); break;          // plain inequality
    case 1: l = u = var(n + "eq", -1, 1); break;                                  // equality
    case 2: l = -inf; u = inf; break;                                             // absent
    case 3: l = -inf; u = var(n + "up", -2, 2); break;                            // upper only
    case 4: l = var(n + "lo", -2, 2); u = inf; break;                             // lower only
    case 5: l = -3e10; u = 2e10; break;                                           // absent, finite representation
    case 6: { S a = var(n + "lo", -2, 2), w = var(n + "wd", 0, 1); l = a; u = a + w; break; }  // any width
    case 7: { S a = var(n + "lo", -3e10, 3e10), w = var(n + "wd", 0, 6e10); l = a; u = a + w; break; } // anything
  } }
void harness() { sym_strict(1);
  QP& qp = *new QP; P = &qp; hook = take; std::vector<Rec> store; recs = &store;
  qp.settings().max_iter = H_ITERS; qp.settings().check_termination = 0; qp.settings().adaptive_rho = false;
#ifdef H_CHECK
  qp.settings().check_termination = H_CHECK;
#endif
#ifdef H_ADAPT
  qp.settings().adaptive_rho = true; qp.settings().adaptive_rho_interval = H_ADAPT;
#endif
  for (int rep = 0; rep < H_REP; rep++) { pre = std::string(1, char('a' + rep)); store.clear();
    Mat H(N, N), A(M, N); Vec h(N), al(M), au(M), xl(N), xu(N), x0(N), y0(N + M);
#ifdef H_CONC
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) H(i, j) = i == j ? S(2 + i + rep) : S(0.5);
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) A(i, j) = S(((i + 2 * j + rep) % 3) - 1) + S(0.5);
    S rho = S(H_CONC), sigma = S(0.0078125), alpha = S(H_ALPHA);
#else
    fillsym(H, pre + "H", -H_VR, H_VR); fill(A, pre + "A", -H_VR, H_VR);
    S rho = var(pre + "rho", 0.0625, 8), sigma = var(pre + "sigma", 0.0009765625, 0.25), alpha = var(pre + "alpha", 0.25, 1.875);
#ifdef H_ALPHA
    alpha = S(H_ALPHA);
#endif
#ifdef H_RHO
    rho = S(H_RHO); sigma = S(0.0078125);
#endif
#endif
    fill(h, pre + "h", -H_VR, H_VR);
    unsigned hm = (unsigned)H_HM, am = (unsigned)H_AM;
#ifdef H_HM2   // another sparsity pattern in later solves (and no pattern reuse)
    if (rep % 2) { hm = (unsigned)H_HM2; am = (unsigned)H_AM2; }
#endif
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (!((hm >> (i * N + j)) & 1)) H(i, j) = 0;
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) if (!((am >> (i * N + j)) & 1)) A(i, j) = 0;
    int kinds[] = {H_KINDS};
#ifdef H_ROT   // every bound changes its kind from solve to solve
    std::rotate(kinds, kinds + rep % (N + M), kinds + N + M);
#endif
    for (int i = 0; i < M; i++) bound(kinds[i], pre + "a" + std::to_string(i), al(i), au(i));
    for (int i = 0; i < N; i++) bound(kinds[M + i], pre + "b" + std::to_string(i), xl(i), xu(i));
    qp.settings().rho = rho; qp.settings().sigma = sigma; qp.settings().alpha = alpha;
    S ea = qp.settings().eps_abs, er = qp.settings().eps_rel;
#if H_MODE >= 2
    ea = var(pre + "epsabs", 1e-6, 4); qp.settings().eps_abs = ea; qp.settings().eps_rel = er = S(0.0009765625);
#endif
    QP::qp_hessian_t Hq(N, N); QP::qp_constraint_t Aq(M, N);
#ifdef H_SPARSE
    Hq.reserve(Eigen::VectorXi::Constant(N, N)); for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) if ((hm >> (i * N + j)) & 1) Hq.insert(i, j) = H(i, j);
    if (M) Aq.reserve(Eigen::VectorXi::Constant(N, M)); for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) if ((am >> (i * N + j)) & 1) Aq.insert(i, j) = A(i, j);
#ifdef H_COMPRESSED
    Hq.makeCompressed(); Aq.makeCompressed();
#else
    if (Aq.isCompressed()) Aq.uncompress();
#endif
#ifndef H_HM2
    if (rep) qp.settings().reuse_pattern = true;
#endif
#else
    Hq = H; Aq = A;
#endif
    QP::qp_var_t hq = h, xlq = xl, xuq = xu; QP::qp_dual_a_t alq = al, auq = au;
    status_t st; x0.setZero(); y0.setZero();
#ifdef H_GUESS
#ifdef H_GALT  // a guess in every other solve only
    if (rep % 2) st = qp.solve(Hq, hq, Aq, alq, auq, xlq, xuq); else
#endif
    { fill(x0, pre + "x0", -H_VR, H_VR); fill(y0, pre + "y0", -H_VR, H_VR);
      QP::qp_var_t gx = x0; QP::qp_dual_t gy = y0; st = qp.solve(Hq, hq, Aq, alq, auq, xlq, xuq, gx, gy); }
#else
    st = qp.solve(Hq, hq, Aq, alq, auq, xlq, xuq);
#endif
    const int it = (int)store.size();
    Vec lo(N + M), up(N + M); lo << al, xl; up << au, xu;
    { Rec e = take(Mat::Zero(1, 1), Vec::Zero(1)); store.push_back(e); }
#if H_MODE == 1 || H_MODE == 3
    for (int k = 0; k < it; k++) { const Rec& r = store[k];
#if H_MODE == 3
      // penalties by class, base penalty within limits
      for (int i = 0; i < N + M; i++) { S want;
        if (lo(i) < S(-1e10) && up(i) > S(1e10)) want = S(1e-6); else if (up(i) - lo(i) < S(1e-4)) want = S(1e3) * r.base; else want = r.base;
        near_(r.rho(i), want, H_TOL * 1e-3, "penalty class"); sym_check_lt(0, r.rho(i), "penalty positive"); }
      sym_check_le(1e-6, r.base, 1e-9, "penalty lower limit"); sym_check_le(r.base, 1e6, 1, "penalty upper limit");
      if (k == 0) { near_(r.base, rho, H_TOL, "initial penalty"); for (int i = 0; i < N; i++) near_(r.x(i), x0(i), H_TOL, "starting primal"); for (int i = 0; i < N + M; i++) near_(r.y(i), y0(i), H_TOL, "starting dual"); }
#ifdef H_ADAPT
      if (k > 0 && k % H_ADAPT != 0) near_(r.base, store[k - 1].base, 0, "penalty changed between adaptations");
#else
      near_(r.base, rho, H_TOL, "penalty without adaptation");
#endif
#else
      // KKT matrix
      Mat K = Mat::Zero(KS, KS); K.topLeftCorner(N, N) = H;
      for (int i = 0; i < N; i++) K(i, i) += sigma;
      for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) K(N + i, j) = K(j, N + i) = A(i, j);
      for (int i = 0; i < M; i++) K(N + i, N + i) = -1 / r.rho(i);
#ifdef H_BOX
      for (int i = 0; i < N; i++) K(i, i) += r.rho(M + i);
#else
      for (int i = 0; i < N; i++) { K(N + M + i, i) = K(i, N + M + i) = 1; K(N + M + i, N + M + i) = -1 / r.rho(M + i); }
#endif
      sym_check_bool(r.K.rows() == KS && r.K.cols() == KS, "KKT size");
      for (int i = 0; i < KS; i++) for (int j = 0; j < KS; j++) if (j <= i || H_UPLO != Eigen::Lower) near_(r.K(i, j), K(i, j), H_TOL, "KKT matrix");
      // start
      if (k == 0) { for (int i = 0; i < M; i++) { S ax = 0; for (int j = 0; j < N; j++) ax += A(i, j) * x0(j); near_(r.z(i), ax, H_TOL, "starting slack"); }
#ifdef H_BOX
        for (int i = 0; i < N; i++) near_(r.q(i), x0(i), H_TOL, "starting box slack");
#else
        for (int i = 0; i < N; i++) near_(r.z(M + i), x0(i), H_TOL, "starting box slack");
#endif
        for (int i = 0; i < N; i++) near_(r.x(i), x0(i), H_TOL, "starting primal"); for (int i = 0; i < N + M; i++) near_(r.y(i), y0(i), H_TOL, "starting dual"); }
      // right-hand side
      for (int i = 0; i < N; i++) { S w = sigma * r.x(i) - h(i);
#ifdef H_BOX
        w += r.rho(M + i) * r.q(i) - r.y(M + i);
#endif
        near_(r.rhs(i), w, H_TOL, "right-hand side (primal)"); }
      for (int i = 0; i < R; i++) near_(r.rhs(N + i), r.z(i) - r.y(i) / r.rho(i), H_TOL, "right-hand side (dual)");
      // next iterate
      const Rec& e = store[k + 1];
      for (int i = 0; i < N; i++) near_(e.x(i), alpha * r.sol(i) + (1 - alpha) * r.x(i), H_TOL, "primal update");
      for (int i = 0; i < R; i++) { S zt = r.z(i) + (r.sol(N + i) - r.y(i)) / r.rho(i), v = alpha * zt + (1 - alpha) * r.z(i);
        S zn = clampS(v + r.y(i) / r.rho(i), lo(i), up(i)); near_(e.z(i), zn, H_TOL, "slack update"); near_(e.y(i), r.y(i) + r.rho(i) * (v - zn), H_TOL, "dual update"); }
#ifdef H_BOX
      for (int i = 0; i < N; i++) { S v = alpha * r.sol(i) + (1 - alpha) * r.x(i), qn = clampS(v + r.y(M + i) / r.rho(M + i), xl(i), xu(i));
        near_(e.q(i), qn, H_TOL, "box slack update"); near_(e.y(M + i), r.y(M + i) + r.rho(M + i) * (v - qn), H_TOL, "box dual update"); }
#endif
#endif
    }
#endif
    // the solution the user reads
    Vec x = qp.primal_solution(), y = qp.dual_solution(), Ax(M), z(N + M);
    for (int i = 0; i < M; i++) { Ax(i) = 0; for (int j = 0; j < N; j++) Ax(i) += A(i, j) * x(j); }
#ifdef H_BOX
    z << qp.m_z, qp.m_q;
#else
    z = qp.m_z;
#endif
    S nAx = 0, nx = 0, nz = 0, nHx = 0, nAy = 0, nh = 0, nyb = 0, rd = 0, rpa = 0, rpb = 0;
#if H_MODE >= 2
    for (int i = 0; i < M; i++) { nAx = maxS(nAx, absS(Ax(i))); rpa = maxS(rpa, absS(Ax(i) - z(i))); }
    for (int i = 0; i < R; i++) nz = maxS(nz, absS(z(i)));
    for (int i = 0; i < N; i++) { nx = maxS(nx, absS(x(i))); rpb = maxS(rpb, absS(x(i) - z(M + i))); S Hx = 0, Ay = 0; for (int j = 0; j < N; j++) Hx += H(i, j) * x(j); for (int j = 0; j < M; j++) Ay += A(j, i) * y(j);
      nHx = maxS(nHx, absS(Hx)); nAy = maxS(nAy, absS(Ay)); nh = maxS(nh, absS(h(i))); nyb = maxS(nyb, absS(y(M + i))); rd = maxS(rd, absS(Hx + h(i) + Ay + y(M + i))); }
#endif
#if H_MODE == 2
    if (st == SOLVED) {
      sym_check_bool(qp.info().status == SOLVED, "status in info");
      S tp = ea + er * maxS(nAx, maxS(nz, nx)), td = ea + er * maxS(maxS(nHx, nAy), maxS(nh, nyb));
      Vec g(N + M); g << Ax, x;
      if ((int)z.size() == N + M) for (int i = 0; i < N + M; i++) { sym_hint_impl_le(H_TOL, y(i), up(i) - z(i), 0, H_TOL / 2); sym_hint_impl_le(y(i), -H_TOL, z(i) - lo(i), 0, H_TOL / 2); sym_hint_impl_le(0, 1, g(i) - z(i), tp, 0); sym_hint_impl_le(0, 1, z(i) - g(i), tp, 0); }
      for (int i = 0; i < N + M; i++) {
        if (lo(i) > S(-1e9)) sym_check_le(lo(i) - g(i), tp, H_TOL, "lower bound of the answer"); if (up(i) < S(1e9)) sym_check_le(g(i) - up(i), tp, H_TOL, "upper bound of the answer");
#ifndef H_NOSIGN
        if (up(i) < S(1e9)) sym_check_impl_le(H_TOL, y(i), up(i) - g(i), tp, H_TOL, "positive multiplier off the upper bound"); else sym_check_le(y(i), 0, H_TOL, "positive multiplier without upper bound");
        if (lo(i) > S(-1e9)) sym_check_impl_le(y(i), -H_TOL, g(i) - lo(i), tp, H_TOL, "negative multiplier off the lower bound"); else sym_check_le(0, y(i), H_TOL, "negative multiplier without lower bound");
#endif
      }
      sym_check_le(rd, td, H_TOL, "stationarity of the answer");
      sym_reach("solved");
    } else sym_reach("unsolved");
#endif
#if H_MODE == 3
    sym_check_bool(it <= H_ITERS, "iteration count above limit"); sym_check_bool(qp.info().iter == it, "reported iteration count"); sym_check_bool(qp.info().status == st, "reported status");
    sym_check_bool(st == SOLVED || (st == MAX_ITER_EXCEEDED && it == H_ITERS), "status"); 
#ifdef H_CHECK
    if (it % H_CHECK == 0) {
#ifdef H_BOX
      near_(qp.info().res_prim, rpa + rpb, H_TOL, "reported primal residual");
#else
      near_(qp.info().res_prim, maxS(rpa, rpb), H_TOL, "reported primal residual");
#endif
      near_(qp.info().res_dual, rd, H_TOL, "reported dual residual");
      S tp = ea + er * maxS(nAx, maxS(nz, nx)), td = ea + er * maxS(maxS(nHx, nAy), maxS(nh, nyb));
      if (st != SOLVED) { S p = qp.info().res_prim, d = qp.info().res_dual; if (p < tp) sym_check_le(td, d, H_TOL, "iteration limit although solved"); sym_reach("limit"); } else sym_reach("solved"); }
    else sym_check_bool(st != SOLVED, "solved without a check");
#endif
#endif
    if (st == SOLVED) break;
  }
  sym_reach("end");
}
