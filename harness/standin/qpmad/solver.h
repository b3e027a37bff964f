// Recording stand-in for the qpmad API (the library is not installed here)
#pragma once
#include <Eigen/Dense>
namespace qpmad {
typedef Eigen::Index MatrixIndex; typedef Eigen::VectorXd QPVector; typedef Eigen::MatrixXd QPMatrix;
class SolverParameters { public: enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2, HESSIAN_INVERTED_CHOLESKY_FACTOR = 3 }; HessianType hessian_type_ = HESSIAN_LOWER_TRIANGULAR; double tolerance_ = 1e-12; int max_iter_ = -1; bool return_inverted_cholesky_factor_ = false; };
struct Script { QPVector x; int status = 0; }; inline Script& script() { static Script* s = new Script; return *s; }
struct Seen { int solves = 0; QPMatrix H, A; QPVector x0, h, lb, ub, alb, aub; SolverParameters par; }; inline Seen& seen() { static Seen* s = new Seen; return *s; }
template <typename S, int n, int has_bounds, int m> class SolverTemplate { public: enum ReturnStatus { OK = 0, MAXIMAL_NUMBER_OF_ITERATIONS = 2 };
  template <class X, class H, class h, class L, class U, class A, class AL, class AU> ReturnStatus solve(X& primal, H& hess, const h& g, const L& lb, const U& ub, const A& a, const AL& al, const AU& au, const SolverParameters& p = SolverParameters()) {
    Seen& z = seen(); z.solves++; z.x0 = primal; z.H = hess; z.h = g; z.lb = lb; z.ub = ub; z.A = a; z.alb = al; z.aub = au; z.par = p; hess.setConstant(-7777); primal = script().x; return (ReturnStatus)script().status; }
  MatrixIndex getNumberOfInequalityIterations() const { return 0; } };
typedef SolverTemplate<double, Eigen::Dynamic, 1, Eigen::Dynamic> Solver;
}
