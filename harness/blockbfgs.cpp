// C09: structured (sparse) and dense Hessian update of an optimal control problem
#include "ocpmodel.h"
#define TOL 1e-8
#include <vector>
#ifndef H_CASE
#define H_CASE 0      // 0: sBs bounded away from zero, 1: zero step, 2: step in the kernel of the Hessian
#endif
#ifndef H_UPD
#define H_UPD 1
#endif
#ifndef H_STRIDE
#define H_STRIDE 3
#endif
typedef Eigen::Matrix<double, -1, -1> DM;
void harness() { sym_strict(1);
  ModelOCP& o = *new ModelOCP; o.set_time_limits(0.5, 1.5); VVar v; v.setConstant(0.25); VD d; d.setConstant(0.5); ModelOCP::nlp_dual_t lam(NE + NI + NV); lam.setConstant(0.125);
  ModelOCP::nlp_hessian_t H(NV, NV); ModelOCP::nlp_jacobian_t J(NE + NI, NV); ModelOCP::nlp_constraints_t c(NE + NI); VVar lg, cg; double l;
  o.lagrangian_gradient_hessian(v, d, lam, l, lg, H, cg, c, J);
  auto stage = [](int i) { return i < NX * NN ? i / NX : i < (NX + NU) * NN ? (i - NX * NN) / NU : -1; };
  auto inpat = [&](int i, int j) { return stage(i) < 0 || stage(j) < 0 || stage(i) == stage(j); };
  // arbitrary symmetric Hessian on the stage pattern
  for (int i = 0; i < NV; i++) for (int j = 0; j <= i; j++) if (H_SP == 0 || inpat(i, j)) { double h = var("H" + std::to_string(i) + "_" + std::to_string(j), i == j ? 0 : -2, 2); H.coeffRef(i, j) = h; if (i != j) H.coeffRef(j, i) = h; }
#if H_SP
  auto layout = [&] { std::vector<int> r; for (int k = 0; k < H.outerSize(); k++) { r.push_back(H.outerIndexPtr()[k]); for (ModelOCP::nlp_hessian_t::InnerIterator it(H, k); it; ++it) { r.push_back(it.row()); r.push_back((int)(&it.value() - H.valuePtr())); } } return r; };
  int cnt = 0; for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) cnt += inpat(i, j); sym_check_bool(H.nonZeros() == cnt, "stored pattern"); const std::vector<int> lay = layout();
#endif
  VVar s, y; s.setZero(); fill(y, "y", -2, 2);
#ifdef H_PAIR
  int k = 0, pick = -1; for (int i = 0; i < NV && pick < 0; i++) for (int j = i; j < NV && pick < 0; j += H_STRIDE, k++) if (var("pick", 0, 1000) < k + 1) { pick = k; s(i) = var("s0", -2, 2); s(j) = var("s1", -2, 2); }
  if (pick < 0) return;
#else
  fill(s, "s", -2, 2);
#endif
#if H_CASE == 1
  s.setZero();
#elif H_CASE == 2   // H = [[a b][b c]] on the touched variables with H s = 0
  { double q = var("q", -2, 2); s.setZero(); int i = 0, j = 1; s(i) = q; for (int r = 0; r < NV; r++) if (inpat(r, i)) { H.coeffRef(r, i) = 0; H.coeffRef(i, r) = 0; } (void)j; }
#endif
  for (int u = 0; u < H_UPD; u++) {
    const DM B = DM(H); const VVar s0 = s, y0 = y;
    double v[NV], sBs = 0, sy = 0; for (int i = 0; i < NV; i++) { v[i] = 0; for (int j = 0; j < NV; j++) v[i] += B(i, j) * s(j); sBs += s(i) * v[i]; sy += s(i) * y(i); }
#if H_CASE == 0
    sym_assume_lt(0.01, sBs);
#endif
    o.hessian_update_impl(H, s, y);
    nearM(s, s0, 0, "step argument untouched"); nearM(y, y0, 0, "gradient argument untouched");
    const DM N = DM(H); for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) { sym_check_finite(N(i, j), "finite"); if (i < j) near_(N(i, j), N(j, i), TOL, "symmetric"); }
#if H_SP
    sym_check_bool(layout() == lay, "stored pattern unchanged");
#endif
#if H_CASE == 1
    nearM(N, B, 0, "zero step leaves the matrix unchanged"); sym_reach("zero"); continue;
#elif H_CASE == 2
    sym_reach("kernel"); continue;
#endif
    bool damped = sy < 0.2 * sBs; if (damped) sym_reach("damped"); else sym_reach("plain");
#if H_SP
    double r[NV], sr = 0, th = damped ? 0.8 * sBs / (sBs - sy) : 1;
    for (int i = 0; i < NV; i++) r[i] = damped ? th * y(i) + (1 - th) * v[i] : y(i); for (int i = 0; i < NV; i++) sr += s(i) * r[i];
    for (int i = 0; i < NV; i++) for (int j = 0; j <= i; j++) if (inpat(i, j)) near_(N(i, j), B(i, j) - v[i] * v[j] / sBs + r[i] * r[j] / sr, TOL, "stage entry is the damped BFGS value"); else near_(N(i, j), 0, 0, "entry outside the pattern");
#else
    ModelOCP::nlp_hessian_t R = B; ModelOCP::nlp_variable_t rs = s, ry = y; BFGS_update(R, rs, ry); nearM(N, R, TOL, "dense update is the damped BFGS update");
#endif
  }
}
