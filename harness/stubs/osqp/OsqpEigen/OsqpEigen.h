// Stand-in for OsqpEigen: the published interface of its Settings, Data and Solver classes. The matrices and vectors of a problem are taken over by
// initSolver(), gradient and bounds are held by reference until then (as in the library), update*() changes them afterwards; what solveProblem()
// "computes" is chosen by the harness. Setting a matrix or initialising again simply replaces the earlier one (no claim is made about that).
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <functional>
#include <memory>
typedef double c_float; typedef int c_int;
enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
struct OSQPInfo { c_int iter = 0; char status[32]; c_int status_val = OSQP_UNSOLVED; c_int status_polish = 0; c_float obj_val = 0, pri_res = 0, dua_res = 0, setup_time = 0, solve_time = 0, update_time = 0, polish_time = 0, run_time = 0; c_int rho_updates = 0; c_float rho_estimate = 0; };
struct OSQPWorkspace { OSQPInfo *info; };
namespace OsqpEigen {
using Vec = Eigen::Matrix<c_float, Eigen::Dynamic, 1>; using Mat = Eigen::SparseMatrix<c_float>;
struct Values { double rho = -1, alpha = -1, sigma = -1, eps_abs = -1, eps_rel = -1, ar_tol = -1, ar_frac = -1, delta = -1, time_limit = -1, eps_pinf = -1, eps_dinf = -1; int verbose = -1, warm = -1, adaptive = -1, max_iter = -1, check = -1, ar_int = -1, polish = -1, scaling = -1, refine = -1, linsys = -1, scaled = -1; };
class Settings { public: Values v;
    void setRho(double x) { v.rho = x; } void setAlpha(double x) { v.alpha = x; } void setSigma(double x) { v.sigma = x; } void setVerbosity(bool x) { v.verbose = x; } void setWarmStart(bool x) { v.warm = x; }
    void setAdaptiveRho(bool x) { v.adaptive = x; } void setMaxIteration(int x) { v.max_iter = x; } void setCheckTermination(int x) { v.check = x; } void setAbsoluteTolerance(double x) { v.eps_abs = x; }
    void setRelativeTolerance(double x) { v.eps_rel = x; } void setAdaptiveRhoInterval(int x) { v.ar_int = x; } void setAdaptiveRhoTolerance(double x) { v.ar_tol = x; } void setDelta(double x) { v.delta = x; }
    void setPolish(bool x) { v.polish = x; } void setScaling(int x) { v.scaling = x; } void setTimeLimit(double x) { v.time_limit = x; } void setPolishRefineIter(int x) { v.refine = x; } void setLinearSystemSolver(int x) { v.linsys = x; }
    void setScaledTerimination(bool x) { v.scaled = x; } void setAdaptiveRhoFraction(double x) { v.ar_frac = x; } void setPrimalInfeasibilityTolerance(double x) { v.eps_pinf = x; } void setDualInfeasibilityTolerance(double x) { v.eps_dinf = x; } };
class Data { public: int n = -1, m = -1; Mat H, A; const c_float *q = nullptr, *l = nullptr, *u = nullptr; int nq = -1, nl = -1, nu = -1;
    void setNumberOfVariables(int k) { n = k; } void setNumberOfConstraints(int k) { m = k; }
    template <typename D> bool setHessianMatrix(const Eigen::SparseCompressedBase<D> &x) { H = x; return true; } template <typename D> bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D> &x) { A = x; return true; }
    bool setGradient(Eigen::Ref<Vec> x) { q = x.data(); nq = x.size(); return true; } bool setLowerBound(Eigen::Ref<Vec> x) { l = x.data(); nl = x.size(); return true; } bool setUpperBound(Eigen::Ref<Vec> x) { u = x.data(); nu = x.size(); return true; }
    void clearHessianMatrix() { H = Mat(); } void clearLinearConstraintsMatrix() { A = Mat(); } };
struct Work { bool ready = false; int n = -1, m = -1; Mat H, A; Vec q, l, u, x0, y0; bool warm = false; Values settings; };
class Solver { public: Settings s; Data d; Work w; OSQPInfo info; OSQPWorkspace ws; Vec x, y; int solves = 0;
    static std::function<void(Solver &)> &compute() { static std::function<void(Solver &)> f; return f; }
    Solver() { ws.info = &info; } Solver(const Solver &) = delete;
    Settings *settings() { return &s; } Data *data() { return &d; }
    bool initSolver() { if (d.n < 0 || d.m < 0 || d.nq != d.n || d.nl != d.m || d.nu != d.m || d.H.rows() != d.n || d.H.cols() != d.n || d.A.rows() != d.m || d.A.cols() != d.n) return false;
        w = Work(); w.n = d.n; w.m = d.m; w.H = d.H; w.A = d.A; w.q = Eigen::Map<const Vec>(d.q, d.n); w.l = Eigen::Map<const Vec>(d.l, d.m); w.u = Eigen::Map<const Vec>(d.u, d.m); w.settings = s.v; w.ready = true; return true; }
    bool isInitialized() const { return w.ready; } void clearSolver() { w = Work(); } void clearSolverVariables() { w.warm = false; }
    template <typename D> bool updateHessianMatrix(const Eigen::SparseCompressedBase<D> &h) { if (!w.ready || h.rows() != w.n || h.cols() != w.n) return false; w.H = h; return true; }
    template <typename D> bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D> &a) { if (!w.ready || a.rows() != w.m || a.cols() != w.n) return false; w.A = a; return true; }
    bool updateGradient(const Eigen::Ref<const Vec> &g) { if (!w.ready || g.size() != w.n) return false; w.q = g; return true; }
    bool updateBounds(const Eigen::Ref<const Vec> &l, const Eigen::Ref<const Vec> &u) { if (!w.ready || l.size() != w.m || u.size() != w.m) return false; w.l = l; w.u = u; return true; }
    bool updateLowerBound(const Eigen::Ref<const Vec> &l) { if (!w.ready || l.size() != w.m) return false; w.l = l; return true; } bool updateUpperBound(const Eigen::Ref<const Vec> &u) { if (!w.ready || u.size() != w.m) return false; w.u = u; return true; }
    bool setWarmStart(const Eigen::Ref<const Vec> &a, const Eigen::Ref<const Vec> &b) { if (!w.ready || a.size() != w.n || b.size() != w.m) return false; w.x0 = a; w.y0 = b; w.warm = true; return true; }
    bool solve() { return solveProblem(); } enum class ErrorExitFlag { NoError = 0 };
    bool solveProblem() { ++solves; compute()(*this); w.warm = false; return w.ready; }
    const Vec &getSolution() { return x; } const Vec &getDualSolution() { return y; } const OSQPWorkspace *workspace() const { return &ws; } };
}
