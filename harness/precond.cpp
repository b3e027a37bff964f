// C04: preconditioners: scaling, its inverse, and the mapping of primal/dual pairs
//  H_MODE 0: identity   1: arbitrary positive scaling factors   2: factors computed from the data
#include "hcommon.h"
#include "solvers/qp_base.hpp"
#include "solvers/qp_preconditioners.hpp"
enum { N = H_N, M = H_M };
#ifndef H_SC
#define H_SC double
#endif
#ifdef H_SPARSE
#define H_FMT SPARSE
#else
#define H_FMT DENSE
#endif
#ifndef H_HM
#define H_HM 0xFFFFFFFF
#endif
#ifndef H_AM
#define H_AM 0xFFFFFFFF
#endif
#ifndef H_REP
#define H_REP 1
#endif
#ifndef H_LO
#define H_LO -2
#endif
#ifndef H_HI
#define H_HI 2
#endif
typedef H_SC S; typedef Eigen::Matrix<S, N, 1> Vn; typedef Eigen::Matrix<S, M, 1> Vm; typedef Eigen::Matrix<S, N + M, 1> Vy; typedef Eigen::Matrix<S, N, N> MH; typedef Eigen::Matrix<S, M, N> MA;
static S bnd(int kind, const std::string& n, bool up) { const S inf = std::numeric_limits<S>::infinity(); if ((kind == 1) || (kind == 2 && up) || (kind == 3 && !up)) return up ? inf : -inf; return (S)var(n + (up ? "u" : "l"), up ? 0 : -2, up ? 2 : 0); }
static double tol() { return sizeof(S) == 4 && sym_is_native() ? 5e-3 : 1e-8; }
static void same(S a, S b, const char* l) { if (std::isinf(b)) sym_check_bool(a == b, l); else near_(a, b, tol(), l); }
template <class T, class U> static void sameM(const T& a, const U& b, const char* l) { sym_check_bool(a.rows() == b.rows() && a.cols() == b.cols(), l); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) same(a(i, j), b(i, j), l); }
#if H_MODE == 0
typedef polympc::IdentityPreconditioner P;
#else
typedef polympc::RuizEquilibration<S, N, M, H_FMT> P;
#endif
struct Data { MH H; MA A; Vn h, l, u; Vm Al, Au; };
#ifdef H_SPARSE
typedef Eigen::SparseMatrix<S> TH; typedef Eigen::SparseMatrix<S> TA;
static TH putH(const MH& H) { TH s(N, N); int k = 0; for (int j = 0; j < N; j++) for (int i = 0; i < N; i++, k++) if ((unsigned)(H_HM) >> k & 1) s.insert(i, j) = H(i, j); return s; }
static TA putA(const MA& A) { TA s(M, N); int k = 0; for (int j = 0; j < N; j++) for (int i = 0; i < M; i++, k++) if ((unsigned)(H_AM) >> k & 1) s.insert(i, j) = A(i, j); return s; }
static MH getH(const TH& s) { return MH(s); } static MA getA(const TA& s) { return MA(s); }
#else
typedef MH TH; typedef MA TA; static MH putH(const MH& H) { return H; } static MA putA(const MA& A) { return A; }
static MH getH(const MH& H) { return H; } static MA getA(const MA& A) { return A; }
#endif
static Data mk(const std::string& p) {
  static const int kinds[] = {H_KINDS}; Data d; int k = 0;
  for (int j = 0; j < N; j++) for (int i = 0; i < N; i++, k++) { bool on = (unsigned)(H_HM) >> k & 1; d.H(i, j) = !on ? S(0) : i < j && ((unsigned)(H_HM) >> (i * N + j) & 1) ? d.H(j, i) : (S)var(p + "H" + std::to_string(i) + std::to_string(j), i == 0 && j == 0 ?
#ifdef H_BIG
    1 : H_LO, i == 0 && j == 0 ? 2 : H_HI
#else
    H_LO : H_LO, H_HI
#endif
  ); }
  for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) d.H(j, i) = d.H(i, j);
  k = 0; for (int j = 0; j < N; j++) for (int i = 0; i < M; i++, k++) d.A(i, j) = (unsigned)(H_AM) >> k & 1 ? (S)var(p + "A" + std::to_string(i) + std::to_string(j), H_LO, H_HI) : S(0);
  for (int i = 0; i < N; i++) { 
#ifdef H_ZEROGRAD
    d.h(i) = 0;
#else
    d.h(i) = var(p + "h" + std::to_string(i), H_LO, H_HI);
#endif
    d.l(i) = bnd(kinds[M + i], p + "b" + std::to_string(i), false); d.u(i) = bnd(kinds[M + i], p + "b" + std::to_string(i), true); }
  for (int i = 0; i < M; i++) { d.Al(i) = bnd(kinds[i], p + "c" + std::to_string(i), false); d.Au(i) = bnd(kinds[i], p + "c" + std::to_string(i), true); }
  return d; }
void harness() { sym_strict(1);
  P& p = *new P();
  for (int rep = 0; rep < H_REP; rep++) {
    Data o = mk("r" + std::to_string(rep)), s = o; TH H = putH(s.H); TA A = putA(s.A);
#if H_MODE == 0
    p.compute(H, s.h, A, s.Al, s.Au, s.l, s.u); p.scale(H, s.h, A, s.Al, s.Au, s.l, s.u);
    Vn D = Vn::Ones(); Vm E = Vm::Ones(); S c = 1;
#else
#if H_MODE == 1
    for (int i = 0; i < N; i++) p.D(i) = var("D" + std::to_string(rep) + std::to_string(i), 0.25, 4); for (int i = 0; i < M; i++) p.E(i) = var("E" + std::to_string(rep) + std::to_string(i), 0.25, 4); p.c() = var("c" + std::to_string(rep), 0.25, 4);
    p.scale(H, s.h, A, s.Al, s.Au, s.l, s.u);
#else
    p.compute(H, s.h, A, s.Al, s.Au, s.l, s.u);
#endif
    Vn D = p.D; Vm E = p.E; S c = p.c();
#endif
    const P& q = p;
    { MH Hs = getH(H); MA As = getA(A);
      for (int i = 0; i < N; i++) { sym_check_le(0, D(i), 0, "variable factor positive"); sym_check_finite(D(i), "variable factor"); sym_check_finite(1 / D(i), "variable factor not zero"); } for (int i = 0; i < M; i++) { sym_check_le(0, E(i), 0, "row factor positive"); sym_check_finite(E(i), "row factor"); sym_check_finite(1 / E(i), "row factor not zero"); } sym_check_le(0, c, 0, "cost factor positive"); sym_check_finite(c, "cost factor"); sym_check_finite(1 / c, "cost factor not zero");
      for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) same(Hs(i, j), c * D(i) * o.H(i, j) * D(j), "scaled Hessian"); for (int j = 0; j < M; j++) same(As(j, i), E(j) * o.A(j, i) * D(i), "scaled constraints"); same(s.h(i), c * D(i) * o.h(i), "scaled gradient"); same(s.l(i), o.l(i) / D(i), "scaled lower bound"); same(s.u(i), o.u(i) / D(i), "scaled upper bound"); }
      for (int i = 0; i < M; i++) { same(s.Al(i), E(i) * o.Al(i), "scaled constraint bound"); same(s.Au(i), E(i) * o.Au(i), "scaled constraint bound"); }
      // primal/dual pair of the scaled problem
      Vn x, xo; Vy y, yo; for (int i = 0; i < N; i++) xo(i) = x(i) = var("x" + std::to_string(rep) + std::to_string(i), -2, 2); for (int i = 0; i < N + M; i++) yo(i) = y(i) = var("y" + std::to_string(rep) + std::to_string(i), -2, 2);
      q.unscale(x, y);
      for (int i = 0; i < N; i++) { S a = s.h(i) + y(0) * 0, b = o.h(i); a = s.h(i); for (int j = 0; j < N; j++) { a += Hs(i, j) * xo(j); b += o.H(i, j) * x(j); } for (int j = 0; j < M; j++) { a += As(j, i) * yo(j); b += o.A(j, i) * y(j); } a += yo(M + i); b += y(M + i); same(b * c * D(i), a, "stationarity of the mapped pair"); same(x(i), D(i) * xo(i), "mapped primal"); same(y(M + i) * c * D(i), yo(M + i), "mapped bound multiplier"); }
      for (int j = 0; j < M; j++) { S a = 0, b = 0; for (int i = 0; i < N; i++) { a += As(j, i) * xo(i); b += o.A(j, i) * x(i); } same(b * E(j), a, "constraint value of the mapped point"); same(y(j) * c, yo(j) * E(j), "mapped multiplier"); }
      q.scale(x, y); sameM(x, xo, "primal round trip"); sameM(y, yo, "dual round trip");
    }
    { TH G = H; q.unscale_hessian(G); MH Hu = getH(G); sameM(Hu, o.H, "unscaled Hessian alone"); }
    q.unscale(H, s.h, A, s.Al, s.Au, s.l, s.u);
    MH Hu = getH(H); MA Au = getA(A);
    sameM(Hu, o.H, "unscaled Hessian"); sameM(Au, o.A, "unscaled constraint matrix"); sameM(s.h, o.h, "unscaled gradient"); sameM(s.l, o.l, "unscaled lower bounds"); sameM(s.u, o.u, "unscaled upper bounds"); sameM(s.Al, o.Al, "unscaled constraint bounds"); sameM(s.Au, o.Au, "unscaled constraint bounds");
#if H_MODE == 2 // reuse the factors for the same data
    { Data t = o; TH H2 = putH(t.H); TA A2 = putA(t.A); q.scale(H2, t.h, A2, t.Al, t.Au, t.l, t.u); MH Hs = getH(H2); MA As = getA(A2); for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) same(Hs(i, j), c * D(i) * o.H(i, j) * D(j), "rescaled Hessian"); for (int j = 0; j < M; j++) same(As(j, i), E(j) * o.A(j, i) * D(i), "rescaled constraints"); same(t.h(i), c * D(i) * o.h(i), "rescaled gradient"); } }
#endif
  }
  sym_reach("end");
}
