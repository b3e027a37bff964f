// C25: Lyapunov helper, pseudo-inverse, gain and Riccati equation of lqr()
#include "hcommon.h"
#include <iostream>
#include "control/lqr.hpp"
#define TOL 1e-6
typedef Eigen::MatrixXd Mx;
#ifndef H_SYM
#define H_SYM 15
#endif
static double pick(int bit, const std::string& n, double lo, double hi) { static int k = 0; k++; return (H_SYM >> bit) & 1 ? var(n, lo, hi) : lo + (hi - lo) * (0.15 + 0.3 * (k % 3)); } // symbolic or fixed
static Mx full(const std::string& n, int r, int c, double lo, double hi) { Mx m(r, c); fill(m, n, lo, hi); return m; }
void harness() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  sym_strict(H_MODE != 1);
#if H_MODE == 0 // A X + X A' = Q; A triangular (real eigenvalues) with 2x2 blocks of complex pairs where H_BLOCK says so
  const int n = H_N; Mx A = Mx::Zero(n, n), Q = full("Q", n, n, -2, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i + 2 * j) % H_QM) Q(i, j) = 0.5 + 0.3 * i - 0.7 * j;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) A(i, j) = i == j ? pick(0, "d" + std::to_string(i), -3, -0.5) : pick(1, "u" + std::to_string(i) + std::to_string(j), -1, 1);
  const int blocks[] = {H_BLOCK, -1};
  for (int b : blocks) if (b >= 0) { A(b + 1, b + 1) = A(b, b); A(b, b + 1) = pick(2, "w" + std::to_string(b), 0.5, 2); A(b + 1, b) = -pick(3, "v" + std::to_string(b), 0.5, 2); }
#ifdef H_FULL // fixed matrices with non-trivial Schur vectors, real and complex eigenvalues
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = i == j ? -2.0 - 0.3 * i : (i > j ? H_FULL : 1) * (0.4 + 0.1 * i - 0.25 * j);
#endif
  Mx A0 = A, Q0 = Q, X = lyapunov(A, Q); nearM(A, A0, 0, "matrix kept"); nearM(Q, Q0, 0, "right-hand side kept");
  nearM(A * X + X * A.transpose(), Q, TOL, "Lyapunov equation");
#elif H_MODE == 1 // pseudo-inverse of a diagonal matrix
  const int n = H_N; Mx D = Mx::Zero(n, n); for (int i = 0; i < n; i++) D(i, i) = var("s" + std::to_string(i), -3, 3);
  const int zero[] = {H_ZERO, -1}; for (int z : zero) if (z >= 0) D(z, z) = 0;
  for (int i = 0; i < n; i++) { bool z = false; for (int k : zero) z |= k == i; if (!z) { if (i % 2) sym_assume_le(0.1, D(i, i)); else sym_assume_le(D(i, i), -0.1); } }
  Mx P = pinv(D); nearM(D * P * D, D, TOL, "D P D = D"); nearM(P * D * P, P, TOL, "P D P = P"); nearM((D * P).transpose(), D * P, TOL, "D P symmetric"); nearM((P * D).transpose(), P * D, TOL, "P D symmetric");
#else // lqr() on decoupled states
  const int n = H_N; Mx F = Mx::Zero(n, n), G = F, Q = F, R = F, M = F, S = F, K = F; 
  for (int i = 0; i < n; i++) { std::string k = std::to_string(i); F(i, i) = var("f" + k, -2, 2); G(i, i) = var("g" + k, 0.5, 2); Q(i, i) = var("q" + k, 0.5, 2); R(i, i) = var("r" + k, 0.5, 2); if (H_CROSS) M(i, i) = var("m" + k, -0.3, 0.3); }
  lqr(F, G, Q, R, M, S, K, H_CHECK);
  Mx Ri = Mx::Zero(n, n); for (int i = 0; i < n; i++) Ri(i, i) = 1 / R(i, i);
  nearM(K, Ri * (G.transpose() * S + M.transpose()), TOL, "gain formula"); nearM(S, S.transpose(), TOL, "solution symmetric");
  for (int i = 0; i < n; i++) sym_check_lt(F(i, i) - G(i, i) * K(i, i), 0, "closed loop stable");
  nearM(S * F + F.transpose() * S + Q - (S * G + M) * Ri * (G.transpose() * S + M.transpose()), Mx::Zero(n, n), TOL, "Riccati equation");
#endif
  sym_reach("end"); }
