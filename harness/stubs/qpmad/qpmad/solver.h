// Stand-in for qpmad: the published interface of SolverTemplate. What solve() "computes" is chosen by the harness.
#pragma once
#include <Eigen/Dense>
#include <functional>
namespace qpmad {
typedef Eigen::MatrixXd QPMatrix; typedef Eigen::VectorXd QPVector; typedef int MatrixIndex;
class SolverParameters { public: enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2, HESSIAN_INVERTED_CHOLESKY_FACTOR = 3 }; HessianType hessian_type_ = HESSIAN_LOWER_TRIANGULAR; double tolerance_ = 1e-12; int max_iter_ = -1; bool return_inverted_cholesky_factor_ = false; };
struct Seen { QPMatrix H, A; QPVector h, lb, ub, Alb, Aub, x0; SolverParameters p; int n, m; QPVector x; int status; int solves = 0; static Seen &get() { static Seen s; return s; } static std::function<void(Seen &)> &compute() { static std::function<void(Seen &)> f; return f; } };
template <typename S, int N, int HB, int MG> class SolverTemplate { public:
    enum ReturnStatus { OK = 0, MAXIMAL_NUMBER_OF_ITERATIONS = 6 };
    template <class X, class H, class h, class L, class U, class A, class AL, class AU>
    ReturnStatus solve(X &primal, H &hes, const h &g, const L &lb, const U &ub, const A &a, const AL &al, const AU &au, const SolverParameters &p) {
        Seen &s = Seen::get(); s.H = hes; s.h = g; s.lb = lb; s.ub = ub; s.A = a; s.Alb = al; s.Aub = au; s.p = p; s.x0 = primal; s.n = N; s.m = MG; ++s.solves; Seen::compute()(s); hes.setConstant(-7e77); primal = s.x; return ReturnStatus(s.status); } };
typedef SolverTemplate<double, Eigen::Dynamic, 1, Eigen::Dynamic> Solver;
}
