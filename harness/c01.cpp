// C01: every SOLVED answer satisfies the approximate optimality conditions.
#include "qp_common.hpp"
using namespace qpx;
struct Cfg { double eps, rel, alpha, rho, sigma; bool adapt; int ct; bool guess; };
template <int N, int M> void run_dim(int lvl) {
    std::vector<Cfg> cf = {{1e-3, 1e-3, 1.0, .1, 1e-6, false, 25, false}, {1e-5, 1e-5, 1.6, 1., 1e-6, false, 1, false}, {1e-4, 1e-4, 1.0, .1, 1e-6, true, 10, true}};
    if (vh::thorough()) { cf.push_back({1e-6, 1e-6, 1.8, 10., 1e-3, true, 5, true}); cf.push_back({1e-2, 1e-2, .7, .01, .1, false, 1, true}); cf.push_back({1e-5, 1e-5, 1.0, 1e-2, 1e-6, true, 25, false}); }
    if (sizeof(S) == 4) for (auto &c : cf) { c.adapt = false; { c.eps = std::max(c.eps, 1e-3); c.rel = std::max(c.rel, 1e-3); } }
    auto body = [&](auto mk) {
        QP q; if (!vh::begin_lazy([&] { q = mk(); return q.id; })) return;
        Opt ref = solve_ref(q);
        std::string st;
        for (auto &c : cf) for (int v = 0; v < (FMT == SPARSE ? 2 : 1); ++v) {
            typename Run<N, M>::Solver s;
            s.settings().eps_abs = c.eps; s.settings().eps_rel = c.rel; s.settings().alpha = c.alpha; s.settings().rho = c.rho; s.settings().sigma = c.sigma;
            s.settings().adaptive_rho = c.adapt; s.settings().check_termination = c.ct; s.settings().adaptive_rho_interval = 10; s.settings().max_iter = 600;
            Vec x0 = Vec::LinSpaced(N, -1, 2), y0 = Vec::LinSpaced(N + M, 3, -2);
            status_t r = Run<N, M>::solve(s, q, v == 0 ? P_TRUE : P_FULL, v == 1, c.guess ? &x0 : nullptr, c.guess ? &y0 : nullptr);
            st += r == SOLVED ? 'S' : r == MAX_ITER_EXCEEDED ? 'M' : 'o';
            vh::check(r == s.info().status, "status", "returned status differs from info().status");
            Vec x = Run<N, M>::x(s), y = Run<N, M>::y(s);
            vh::state(vh::Hash().i(r).m(x).m(y).h);
            if (r == SOLVED) check_solved(q, x, y, s.info(), c.eps, c.rel, &ref);
        }
        vh::note(st + (ref.feasible ? (ref.bounded ? " x*=" + vh::vec(ref.x) : " unbounded") : " infeasible"));
    };
    each(N, M, lvl, body);
    // unusual magnitudes, with absolute and relative tolerances of very different size
    cf = {{1e-7, 1e-3, 1.0, .1, 1e-6, false, 5, false}, {1e-2, 1e-9, 1.6, 1., 1e-6, false, 1, false}, {1e-4, 1e-4, 1.0, .1, 1e-6, true, 10, true}};
    if (sizeof(S) == 4) cf = {{1e-4, 1e-2, 1.0, .1, 1e-6, false, 5, false}, {1e-2, 1e-4, 1.6, 1., 1e-6, false, 1, false}};
    each_odd(N, M, false, body);
}
void vh_run() {
    int lvl = vh::thorough() ? 1 : 0;
    run_dim<1, 0>(1); run_dim<1, 1>(1); run_dim<2, 0>(lvl); run_dim<2, 1>(lvl); run_dim<2, 2>(lvl);
#ifndef SMALL
    run_dim<3, 2>(lvl);
#endif
}
