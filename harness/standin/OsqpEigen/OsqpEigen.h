// Recording stand-in for the OsqpEigen 0.6/0.7 API (the library is not installed here): keeps what it is given, returns what the harness scripts.
// Follows the library: the Hessian and the constraint matrix are copied (upper triangle of the Hessian only), gradient and bounds given through
// data() are kept by address until initSolver(), data that is already set is refused, updates need an initialised solver.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <string>
typedef double c_float; typedef long long c_int;
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_INFTY ((c_float)1e30)
struct OSQPInfo { c_int iter = 0; char status[32] = {0}; c_int status_val = OSQP_UNSOLVED, status_polish = 0; c_float obj_val = 0, pri_res = 0, dua_res = 0, setup_time = 0, solve_time = 0, update_time = 0, polish_time = 0, run_time = 0; c_int rho_updates = 0; c_float rho_estimate = 0; };
struct OSQPSolution { c_float *x = nullptr, *y = nullptr; };
struct OSQPWorkspace { OSQPInfo* info; OSQPSolution* solution; };
enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };
namespace OsqpEigen {
typedef Eigen::Matrix<c_float, Eigen::Dynamic, 1> Vec; typedef Eigen::Matrix<c_float, Eigen::Dynamic, Eigen::Dynamic> Mat;
enum class Status : int { DualInfeasibleInaccurate = 4, PrimalInfeasibleInaccurate = 3, SolvedInaccurate = 2, Solved = 1, MaxIterReached = -2, PrimalInfeasible = -3, DualInfeasible = -4, Sigint = -5, Unsolved = -10 };
enum class ErrorExitFlag : int { NoError = 0, DataValidationError = 1, SettingsValidationError, LinsysSolverLoadError, LinsysSolverInitError, NonCvxError, MemAllocError, WorkspaceNotInitError };
struct SettingsRec { double rho = .1, alpha = 1.6, sigma = 1e-6, eps_abs = 1e-3, eps_rel = 1e-3, adaptive_rho_tolerance = 5, delta = 1e-6, time_limit = 0, adaptive_rho_fraction = .4, eps_prim_inf = 1e-4, eps_dual_inf = 1e-4;
  int verbose = 1, warm_start = 1, adaptive_rho = 1, max_iter = 4000, check_termination = 25, adaptive_rho_interval = 0, polish = 0, scaling = 10, polish_refine_iter = 3, linsys = 0, scaled_termination = 0; };
class Settings { public: SettingsRec r;
  void resetDefaultSettings() { r = SettingsRec(); } void setRho(double v) { r.rho = v; } void setSigma(double v) { r.sigma = v; } void setScaling(int v) { r.scaling = v; } void setAdaptiveRho(bool v) { r.adaptive_rho = v; }
  void setAdaptiveRhoInterval(int v) { r.adaptive_rho_interval = v; } void setAdaptiveRhoTolerance(double v) { r.adaptive_rho_tolerance = v; } void setAdaptiveRhoFraction(double v) { r.adaptive_rho_fraction = v; }
  void setMaxIteration(int v) { r.max_iter = v; } void setAbsoluteTolerance(double v) { r.eps_abs = v; } void setRelativeTolerance(double v) { r.eps_rel = v; }
  void setPrimalInfeasibilityTolerance(double v) { r.eps_prim_inf = v; } void setPrimalInfeasibilityTollerance(double v) { r.eps_prim_inf = v; } void setDualInfeasibilityTolerance(double v) { r.eps_dual_inf = v; } void setDualInfeasibilityTollerance(double v) { r.eps_dual_inf = v; }
  void setAlpha(double v) { r.alpha = v; } void setLinearSystemSolver(int v) { r.linsys = v; } void setDelta(double v) { r.delta = v; } void setPolish(bool v) { r.polish = v; } void setPolishRefineIter(int v) { r.polish_refine_iter = v; }
  void setVerbosity(bool v) { r.verbose = v; } void setScaledTerimination(bool v) { r.scaled_termination = v; } void setCheckTermination(int v) { r.check_termination = v; } void setWarmStart(bool v) { r.warm_start = v; } void setTimeLimit(double v) { r.time_limit = v; } };
class Data { public: int n = 0, m = 0; bool setP = false, setA = false, setQ = false, setL = false, setU = false; Mat P, A; const c_float *q = nullptr, *l = nullptr, *u = nullptr;
  Data() {} Data(int n_, int m_) : n(n_), m(m_) {} void setNumberOfVariables(int k) { n = k; } void setNumberOfConstraints(int k) { m = k; }
  template <class D> static Mat upper(const Eigen::SparseCompressedBase<D>& H) { Mat d = Mat(H.derived()); for (int j = 0; j < d.cols(); j++) for (int i = j + 1; i < d.rows(); i++) d(i, j) = d(j, i); return d; }
  template <class D> bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& H) { if (setP || H.rows() != n || H.cols() != n) return false; P = upper(H); return setP = true; }
  template <class D> bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& B) { if (setA || B.rows() != m || B.cols() != n) return false; A = Mat(B.derived()); return setA = true; }
  bool setGradient(Eigen::Ref<Vec> g) { if (g.size() != n) return false; q = g.data(); return setQ = true; }
  bool setLowerBound(Eigen::Ref<Vec> g) { if (g.size() != m) return false; l = g.data(); return setL = true; }
  bool setUpperBound(Eigen::Ref<Vec> g) { if (g.size() != m) return false; u = g.data(); return setU = true; }
  bool setBounds(Eigen::Ref<Vec> a, Eigen::Ref<Vec> b) { return setLowerBound(a) && setUpperBound(b); }
  void clearHessianMatrix() { setP = false; P.resize(0, 0); } void clearLinearConstraintsMatrix() { setA = false; A.resize(0, 0); } bool isSet() const { return setP && setA && setQ && setL && setU; } };
// what the library would be solving with, and what it returns
struct Script { Vec x, y; OSQPInfo info; };
inline Script& script() { static Script* s = new Script; return *s; }
struct Seen { int solves = 0; Mat P, A; Vec q, l, u, x0, y0; bool warm = false; SettingsRec settings; };
inline Seen& seen() { static Seen* s = new Seen; return *s; }
class Solver { Settings s_; Data d_; bool init_ = false; Mat P, A; Vec q, l, u, x, y, x0, y0; bool warm_ = false; OSQPInfo info_; OSQPSolution sol_; OSQPWorkspace ws_{&info_, &sol_};
  public: Solver() {} Solver(const Solver&) = delete;
  const Settings* settings() const { return &s_; } Settings* settings() { return &s_; } const Data* data() const { return &d_; } Data* data() { return &d_; }
  const OSQPWorkspace* workspace() const { return init_ ? &ws_ : nullptr; } OSQPWorkspace* workspace() { return init_ ? &ws_ : nullptr; } bool isInitialized() const { return init_; }
  bool initSolver() { if (init_ || !d_.isSet()) return false; P = d_.P; A = d_.A; q = Eigen::Map<const Vec>(d_.q, d_.n); l = Eigen::Map<const Vec>(d_.l, d_.m); u = Eigen::Map<const Vec>(d_.u, d_.m); return init_ = true; }
  void clearSolver() { init_ = false; } bool clearSolverVariables() { warm_ = false; return init_; }
  template <class D> bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& H) { if (!init_) return false; P = Data::upper(H); return true; }
  template <class D> bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& B) { if (!init_) return false; A = Mat(B.derived()); return true; }
  bool updateGradient(const Eigen::Ref<const Vec>& g) { if (!init_) return false; q = g; return true; }
  bool updateLowerBound(const Eigen::Ref<const Vec>& g) { if (!init_) return false; l = g; return true; } bool updateUpperBound(const Eigen::Ref<const Vec>& g) { if (!init_) return false; u = g; return true; }
  bool updateBounds(const Eigen::Ref<const Vec>& a, const Eigen::Ref<const Vec>& b) { return updateLowerBound(a) && updateUpperBound(b); }
  template <int n, int m> bool setWarmStart(const Eigen::Matrix<c_float, n, 1>& a, const Eigen::Matrix<c_float, m, 1>& b) { if (!init_) return false; x0 = a; y0 = b; return warm_ = true; }
  template <class A_, class B_> bool setWarmStart(const A_& a, const B_& b) { if (!init_) return false; x0 = a; y0 = b; return warm_ = true; }
  template <class A_> bool setPrimalVariable(const A_& a) { if (!init_) return false; x0 = a; return warm_ = true; } template <class B_> bool setDualVariable(const B_& b) { if (!init_) return false; y0 = b; return warm_ = true; }
  ErrorExitFlag solveProblem() { if (!init_) return ErrorExitFlag::WorkspaceNotInitError; Seen& z = seen(); z.solves++; z.P = P; z.A = A; z.q = q; z.l = l; z.u = u; z.warm = warm_; if (warm_) { z.x0 = x0; z.y0 = y0; } z.settings = s_.r; warm_ = false; x = script().x; y = script().y; info_ = script().info; sol_.x = x.data(); sol_.y = y.data(); return ErrorExitFlag::NoError; }
  bool solve() { return solveProblem() == ErrorExitFlag::NoError; } Status getStatus() const { return (Status)info_.status_val; } c_float getObjValue() const { return info_.obj_val; }
  const Vec& getSolution() { return x; } const Vec& getDualSolution() { return y; } };
}
