// C13-C18: direct transcription.  H_WHAT: 1 equalities, 2 equality Jacobian, 3 inequalities (+Jacobian), 4 stacked constraints, 5 cost+gradient, 6 cost Hessian, 7 Lagrangian, 8 Lagrangian Hessian
#include "ocpmodel.h"
#define TOL 1e-8
typedef ModelOCP::nlp_variable_t VarT;
template <class J> double at(const J& j, int r, int c) { return j.coeff(r, c); }
static void init(ModelOCP& o, Oracle& r) {
#ifdef H_TIME
  r.t0 = var("t0", -2, 2); r.tf = r.t0 + var("T", 0.2, 3); o.set_time_limits(r.t0, r.tf);
#else
  r.t0 = 0.3; r.tf = 1.7; o.set_time_limits(r.t0, r.tf);
#endif
}
void harness() { sym_strict(1);
  ModelOCP& o = *new ModelOCP; Oracle r;
#ifdef H_RESET
  o.set_time_limits(-1.0, 5.0);
#endif
  init(o, r);
  Point A("a");
#ifdef H_TWO
  // B: everything new; C: B's variables again, other static parameters, other horizon; D: C again (Lagrangians: with other multipliers)
  Point B("b"), C("c"); C.v = B.v; Point D(C); const Point* pts[] = {&A, &B, &C, &D};
#else
  const Point* pts[1] = {&A};
#endif
  ModelOCP::nlp_eq_jacobian_t Je(NE, NV); ModelOCP::nlp_ineq_jacobian_t Ji(NI, NV); ModelOCP::nlp_jacobian_t Jc(NE + NI, NV); ModelOCP::nlp_hessian_t H(NV, NV);
  int pn = 0; for (const Point* qp : pts) { const Point& q = *qp; pn++; 
#ifdef H_TIME
    if (pn == 3) { r.t0 = var("t0c", -2, 2); r.tf = r.t0 + var("Tc", 0.2, 3); o.set_time_limits(r.t0, r.tf); }
#endif
    VarT v = q.v; VarT v0 = v;
    ModelOCP::nlp_eq_constraints_t e(NE), e2(NE); ModelOCP::nlp_ineq_constraints_t g(NI), g2(NI); ModelOCP::nlp_constraints_t c(NE + NI), c2(NE + NI);
#if H_WHAT == 1
    o.equalities(v, q.d, e); for (int k = 0; k < NN; k++) for (int i = 0; i < NX; i++) near_(e(k * NX + i), r.eq(q, k, i), TOL, "collocation residual");
    for (int k = 0; k < NN; k++) near_(o.time_nodes(k), r.time(k), 1e-12, "time node");
#elif H_WHAT == 2
    o.equalities(v, q.d, e); o.equalities_linearised(v, q.d, e2, Je); nearM(e2, e, TOL, "linearised constraint value");
    for (int i = 0; i < NE; i++) for (int j = 0; j < NV; j++) near_(at(Je, i, j), sym_diff(e(i), v(j)), TOL, "equality jacobian");
#elif H_WHAT == 3
    o.inequalities(v, q.d, g); o.inequalities_linearised(v, q.d, g2, Ji); nearM(g2, g, TOL, "linearised inequality value");
    for (int k = 0; k < NN; k++) for (int i = 0; i < NG; i++) near_(g(k * NG + i), r.ineq(q, k, i), TOL, "inequality value");
    for (int i = 0; i < NI; i++) for (int j = 0; j < NV; j++) near_(at(Ji, i, j), sym_diff(g(i), v(j)), TOL, "inequality jacobian");
#elif H_WHAT == 4
    o.constraints(v, q.d, c); o.constraints_linearised(v, q.d, c2, Jc);
    for (int k = 0; k < NN; k++) for (int i = 0; i < NX; i++) near_(c(k * NX + i), r.eq(q, k, i), TOL, "stacked equality");
    for (int k = 0; k < NN; k++) for (int i = 0; i < NG; i++) near_(c(NE + k * NG + i), r.ineq(q, k, i), TOL, "stacked inequality");
    nearM(c2, c, TOL, "stacked linearised value");
    for (int i = 0; i < NE + NI; i++) for (int j = 0; j < NV; j++) near_(at(Jc, i, j), sym_diff(c(i), v(j)), TOL, "stacked jacobian");
#elif H_WHAT == 5
    double cs, c3; VarT gr(NV); double ref = r.cost(q);
    o.cost_gradient(v, q.d, c3, gr); o.cost(v, q.d, cs); near_(cs, ref, TOL, "cost"); near_(c3, ref, TOL, "cost of gradient call");
    for (int j = 0; j < NV; j++) near_(gr(j), sym_diff(ref, v(j)), TOL, "cost gradient");
#elif H_WHAT == 6
    double c3; VarT gr(NV); double ref = r.cost(q);
    o.cost_gradient_hessian(v, q.d, c3, gr, H); near_(c3, ref, TOL, "cost of hessian call");
    for (int j = 0; j < NV; j++) near_(gr(j), sym_diff(ref, v(j)), TOL, "cost gradient of hessian call");
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) near_(at(H, i, j), sym_diff2(ref, v(i), v(j)), TOL, "cost hessian");
#elif H_WHAT == 7 || H_WHAT == 8
    ModelOCP::nlp_dual_t lam(NE + NI + NV); fill(lam, "l" + std::string(1, char('a' + pn - 1)), -2, 2); const double cost = r.cost(q); double L = cost, C = 0;
    for (int k = 0; k < NN; k++) for (int i = 0; i < NX; i++) C += lam(k * NX + i) * r.eq(q, k, i);
    for (int k = 0; k < NN; k++) for (int i = 0; i < NG; i++) C += lam(NE + k * NG + i) * r.ineq(q, k, i);
    L += C; for (int j = 0; j < NV; j++) L += lam(NE + NI + j) * v(j);
    double l1; VarT lg(NV), cg(NV);
#if H_WHAT == 7
    o.lagrangian(v, q.d, lam, l1); near_(l1, L, TOL, "lagrangian");
    o.lagrangian(v, q.d, lam, l1, c); near_(l1, L, TOL, "lagrangian (with constraints)"); 
    for (int k = 0; k < NN; k++) for (int i = 0; i < NX; i++) near_(c(k * NX + i), r.eq(q, k, i), TOL, "lagrangian equality rows");
    for (int k = 0; k < NN; k++) for (int i = 0; i < NG; i++) near_(c(NE + k * NG + i), r.ineq(q, k, i), TOL, "lagrangian inequality rows");
    o.lagrangian_gradient(v, q.d, lam, l1, lg); 
    for (int j = 0; j < NV; j++) near_(lg(j), sym_diff(L, v(j)), TOL, "lagrangian gradient (short call)");
    o.lagrangian_gradient(v, q.d, lam, l1, lg, cg, c2, Jc);
    for (int j = 0; j < NV; j++) near_(lg(j), sym_diff(L, v(j)), TOL, "lagrangian gradient");
#else
    o.constraints(v, q.d, c);
#ifdef H_SHORT
    o.lagrangian_gradient_hessian(v, q.d, lam, l1, lg, H);
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) near_(at(H, i, j), sym_diff2(L, v(i), v(j)), TOL, "lagrangian hessian (short call)");
    for (int j = 0; j < NV; j++) near_(lg(j), sym_diff(L, v(j)), TOL, "lagrangian gradient of hessian (short call)");
#endif
#ifdef H_SCALE
    double sc = var("scale", -2, 0.9); o.lagrangian_gradient_hessian(v, q.d, lam, l1, lg, H, cg, c2, Jc, sc); 
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) near_(at(H, i, j), sc * sym_diff2(cost, v(i), v(j)) + sym_diff2(C, v(i), v(j)), TOL, "scaled lagrangian hessian");
#else
    o.lagrangian_gradient_hessian(v, q.d, lam, l1, lg, H, cg, c2, Jc);
    for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) near_(at(H, i, j), sym_diff2(L, v(i), v(j)), TOL, "lagrangian hessian");
    for (int j = 0; j < NV; j++) near_(lg(j), sym_diff(L, v(j)), TOL, "lagrangian gradient of hessian call");
#endif
#endif
    for (int j = 0; j < NV; j++) near_(cg(j), sym_diff(cost, v(j)), TOL, "cost gradient of lagrangian call");
    nearM(c2, c, TOL, "constraint values of lagrangian call");
    for (int i = 0; i < NE + NI; i++) for (int j = 0; j < NV; j++) near_(at(Jc, i, j), sym_diff(c(i), v(j)), TOL, "constraint jacobian of lagrangian call");
#endif
    nearM(v, v0, 0, "argument untouched");
  }
  sym_reach("end");
}
