// C18: dense and sparse transcription of the same problem agree along a history of evaluations, and a later evaluation equals that of a fresh object
#define H_FMT DENSE
#include "ocpmodel.h"
#define OCPNAME SparseOCP
#define OCPFMT SPARSE
#include "ocpclass.h"
#define TOL 1e-8
typedef ModelOCP::nlp_variable_t VarT; typedef ModelOCP::nlp_dual_t DualT;
// all outputs of one evaluation, in a fixed order
// the short Hessian overload exists for dense problems only; the sparse object answers with the full one
template <class V, class D, class L, class G, class H> void shortH(ModelOCP& o, const V& v, const D& d, const L& l, double& s, G& g, H& h) { o.lagrangian_gradient_hessian(v, d, l, s, g, h); }
template <class V, class D, class L, class G, class H> void shortH(SparseOCP& o, const V& v, const D& d, const L& l, double& s, G& g, H& h) { VarT cg(NV); SparseOCP::nlp_constraints_t c(NE + NI); SparseOCP::nlp_jacobian_t J((int)(NE + NI), (int)NV); o.lagrangian_gradient_hessian(v, d, l, s, g, h, cg, c, J); }
struct Out { std::vector<double> v; template <class M> void vec(const M& m) { for (int i = 0; i < m.size(); i++) v.push_back(m(i)); }
  template <class M> void mat(const M& m) { v.push_back((double)m.rows()); v.push_back((double)m.cols()); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(m.coeff(i, j)); } };
template <class O> struct Obj { O& o = *new O; typename O::nlp_eq_jacobian_t Je{(int)NE, (int)NV}; typename O::nlp_ineq_jacobian_t Ji{(int)NI, (int)NV}; typename O::nlp_jacobian_t Jc[4] = {typename O::nlp_jacobian_t((int)(NE + NI), (int)NV), typename O::nlp_jacobian_t((int)(NE + NI), (int)NV), typename O::nlp_jacobian_t((int)(NE + NI), (int)NV), typename O::nlp_jacobian_t((int)(NE + NI), (int)NV)}; typename O::nlp_hessian_t H{(int)NV, (int)NV}, HL{(int)NV, (int)NV}, HS{(int)NV, (int)NV};
  Out eval(int op, const Point& q, const DualT& l) { Out r; VarT v = q.v, g(NV), cg(NV); typename O::nlp_eq_constraints_t e(NE); typename O::nlp_ineq_constraints_t i(NI); typename O::nlp_constraints_t c(NE + NI); double s = 0; DualT lam = l;
    if (op == 0) { o.equalities_linearised(v, q.d, e, Je); r.vec(e); r.mat(Je); }
#if H_NG > 0
    if (op == 1) { o.inequalities_linearised(v, q.d, i, Ji); r.vec(i); r.mat(Ji); }
#endif
    if (op == 2) { o.constraints_linearised(v, q.d, c, Jc[0]); r.vec(c); r.mat(Jc[0]); }
    if (op == 3) { o.cost_gradient(v, q.d, s, g); r.v.push_back(s); r.vec(g); }
    if (op == 4) { o.cost_gradient_hessian(v, q.d, s, g, H); r.v.push_back(s); r.vec(g); r.mat(H); }
    if (op == 5) { o.lagrangian_gradient(v, q.d, lam, s, g, cg, c, Jc[1]); r.vec(g); r.vec(cg); r.vec(c); r.mat(Jc[1]); }
    if (op == 6) { o.lagrangian_gradient_hessian(v, q.d, lam, s, g, HL, cg, c, Jc[2]); r.vec(g); r.vec(cg); r.vec(c); r.mat(Jc[2]); r.mat(HL); }
    if (op == 7) { o.equalities(v, q.d, e); o.inequalities(v, q.d, i); o.constraints(v, q.d, c); o.cost(v, q.d, s); r.vec(e); r.vec(i); r.vec(c); r.v.push_back(s); o.lagrangian(v, q.d, lam, s); r.v.push_back(s); o.lagrangian(v, q.d, lam, s, c); r.v.push_back(s); r.vec(c); }
    if (op == 8) { shortH(o, v, q.d, lam, s, g, HS); r.vec(g); r.mat(HS); }
    if (op == 9) { o.lagrangian_gradient(v, q.d, lam, s, g); r.vec(g); }
    return r; } };
static void same(const Out& a, const Out& b, const std::string& l) { sym_check_bool(a.v.size() == b.v.size(), (l + " sizes").c_str()); for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++) near_(a.v[i], b.v[i], TOL, l); }
template <class O> static void nodes(const O& o, double t0, double tf, const char* l) { Oracle r; r.t0 = t0; r.tf = tf; near_(o.t_start, t0, 0, "horizon start"); near_(o.t_stop, tf, 0, "horizon end"); for (int k = 0; k < NN; k++) near_(o.time_nodes(k), r.time(k), 1e-12, l); }
void harness() { sym_strict(1);
  const int ops[] = {H_OPS}; const int n = sizeof ops / sizeof *ops; Obj<ModelOCP> D; Obj<SparseOCP> S; double t0 = var("t0_", -2, 2), tf = t0 + var("T_", 0.2, 3); D.o.set_time_limits(t0, tf); S.o.set_time_limits(t0, tf); nodes(D.o, t0, tf, "dense time node"); nodes(S.o, t0, tf, "sparse time node");
  for (int k = 0; k < n; k++) { std::string K = std::to_string(k), L = "evaluation " + std::to_string(ops[k]);
    if (ops[k] < 0) { t0 = var("t0_" + K, -2, 2); tf = t0 + var("T_" + K, 0.2, 3); D.o.set_time_limits(t0, tf); S.o.set_time_limits(t0, tf); nodes(D.o, t0, tf, "dense time node after a horizon change"); nodes(S.o, t0, tf, "sparse time node after a horizon change"); continue; }
    Point q("a" + K); DualT lam(NE + NI + NV); fill(lam, "l" + K, -2, 2); Out a = D.eval(ops[k], q, lam), b = S.eval(ops[k], q, lam); same(a, b, L + ": dense and sparse differ");
    if (k == n - 1) { Obj<ModelOCP> FD; Obj<SparseOCP> FS; FD.o.set_time_limits(t0, tf); FS.o.set_time_limits(t0, tf); same(a, FD.eval(ops[k], q, lam), L + ": dense result depends on the history"); same(b, FS.eval(ops[k], q, lam), L + ": sparse result depends on the history"); } }
  sym_reach("end");
}
