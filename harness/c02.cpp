// C02: strictly convex feasible QPs reach SOLVED and the unique minimiser for every setting.
#include "qp_common.hpp"
using namespace qpx;
struct Cfg { double alpha, rho, sigma; bool adapt; int ct; int ival; };
inline bool settles(const QP &q, double eps, const Cfg &c, int budget, bool sum_norm) {
    for (double d : {0., 1e-9, -1e-9, 1e-7, -1e-7, 1e-5}) { QP p = q; p.h *= 1 + d; if (p.h.size() > 1) p.h(0) += d; if (!textbook_converges(p, eps, c.alpha, c.rho, c.sigma, c.ct, c.adapt ? c.ival : 1 << 30, 5, budget, sum_norm)) return false; }
    return true;
}
// distance to the minimiser that the termination tolerance allows for badly scaled data
inline double slack(const QP &q, const Vec &x, const Vec &y, double eps) { const double lmin = Eigen::SelfAdjointEigenSolver<Mat>(q.H).eigenvalues()(0); const double sc = 1 + ninf(x) + (q.A.rows() ? ninf(q.A * x) : 0), ds = 1 + ninf(q.H * x) + ninf(q.h) + ninf(y) * (1 + (q.A.size() ? q.A.cwiseAbs().maxCoeff() : 0)); return 10 * (eps * ds / lmin + std::sqrt(eps * sc * n1(y) / lmin)); }
template <int N, int M> void run_dim(int lvl) {
    std::vector<Cfg> cf;
    for (double a : {1., .5, 1.6}) for (double r : {.1, 1., 10.}) for (int k = 0; k < 2; ++k)
        cf.push_back({a, r, (a == .5) != (k == 1) ? 1e-6 : 1e-3, k == 1, k == 0 ? 1 : 10, r == 1. ? 10 : 100});
    cf.push_back({1.9, .1, 1e-6, false, 7, 25}); cf.push_back({1.0, 1e-3, 1e-6, true, 25, 100}); cf.push_back({1.2, 20, 1e-6, true, 25, 250});
    if (vh::thorough()) for (double a : {.2, 1.3, 1.8}) for (double r : {.03, 3., 100.}) for (double sg : {1e-6, 1e-2, 1.}) for (int k = 0; k < 2; ++k) cf.push_back({a, r, sg, k == 1, 5, 125});
    const bool flt = sizeof(S) == 4;
    bool odd = false;
    auto body = [&](auto mk) {
        QP q; if (!vh::begin_lazy([&] { q = mk(); return q.id; })) return;
        if (!strictly_convex(q.H)) { vh::note("not strictly convex"); return; }
        Opt ref = solve_ref(q);
        if (!ref.feasible) { vh::note("infeasible"); return; }
        
        int cyc = 0;
        for (std::size_t k = 0; k < cf.size(); ++k) for (int v = 0; v < (FMT == SPARSE ? 2 : 1); ++v) {
            if (FMT == SPARSE && !vh::thorough() && v != int(k / 2) % 2) continue;
            auto &c = cf[k]; const double eps = flt ? 2e-4 : c.adapt || odd ? 1e-6 : 1e-8, tol = flt ? 3e-2 : c.adapt ? 2e-3 : 2e-4;
            if (flt && (c.adapt || c.rho > 5)) continue;
            typename Run<N, M>::Solver s;
            s.settings().eps_abs = eps; s.settings().eps_rel = eps; s.settings().alpha = c.alpha; s.settings().rho = c.rho; s.settings().sigma = c.sigma;
            s.settings().adaptive_rho = c.adapt; s.settings().check_termination = c.ct; s.settings().adaptive_rho_interval = c.ival; s.settings().max_iter = c.adapt || odd ? 20000 : 100000;
            int pat = (k + v) % 2 ? P_FULL : P_TRUE; bool comp = v == 1;
            status_t r = Run<N, M>::solve(s, q, pat, comp);
            Vec x = Run<N, M>::x(s);
            vh::state(vh::Hash().i(k).i(s.info().iter).m(x).h);
            std::string d = vh::fmt("alpha=%g rho=%g sigma=%g adaptive=%d check=%d pattern=%d compressed=%d", c.alpha, c.rho, c.sigma, c.adapt, c.ct, pat, comp);
            // adapting the step may cycle, also in exact arithmetic: excused only where the textbook iteration
            // does not settle in a twentieth of the budget either (for the QP and for tiny perturbations of it: cycling is chaotic)
#ifdef BOX
            const bool sum_norm = true;
#else
            const bool sum_norm = false;
#endif
            if ((c.adapt || odd) && r == MAX_ITER_EXCEEDED && !settles(q, eps, c, s.settings().max_iter / 20, sum_norm)) { cyc++; continue; }
            if (!vh::check(r == SOLVED, "solved", vh::fmt("status %d after %d iterations, residuals %g %g (%s)", r, s.info().iter, (double)s.info().res_prim, (double)s.info().res_dual, d.c_str()))) continue;
            vh::check(ninf(x - ref.x) <= tol * (1 + ninf(ref.x)) + (odd ? slack(q, x, Run<N, M>::y(s), eps) : 0), "minimiser", vh::fmt("x=%s, minimiser %s (%s)", vh::vec(x).c_str(), vh::vec(ref.x).c_str(), d.c_str()));
        }
        vh::note("x*=" + vh::vec(ref.x) + (cyc ? " adaptation cycles" : ""));
    };
    each(N, M, lvl, body);
    if (flt) return;
    odd = true; { auto all = cf; cf.clear(); for (std::size_t k = 0; k < all.size(); k += 4) if (!all[k].adapt && all[k].rho < 5) cf.push_back(all[k]); cf.push_back({1.6, 1., 1e-6, true, 10, 100}); }
    each_odd(N, M, true, body);
}
void vh_run() {
    int lvl = vh::thorough() ? 1 : 0;
    run_dim<1, 0>(1); run_dim<1, 1>(1); run_dim<2, 0>(lvl); run_dim<2, 1>(lvl); run_dim<2, 2>(lvl);
#ifndef SMALL
    run_dim<3, 2>(lvl);
#endif
}
