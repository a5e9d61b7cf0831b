// C04: status and iteration counts over every QP, budget, check interval and two-solve history.
#include "qp_common.hpp"
using namespace qpx;
struct Cfg { int mi, ct; bool ad; int ival; };
template <int N, int M> void run_dim(int lvl) {
    std::vector<Cfg> cf;
    for (int mi : {1, 2, 5, 24, 25, 26, 75}) for (int ct : {0, 1, 2, 7, 25}) { bool ad = (mi + ct) % 2; cf.push_back({mi, ct, ad, ct == 1 ? 1 : 5}); if (vh::thorough()) cf.push_back({mi, ct, !ad, 3}); }
    cf.push_back({600, 1, false, 25}); cf.push_back({600, 25, true, 25}); cf.push_back({600, 1, false, 25});
    bool odd = false;
    auto body = [&](auto mk) {
        QP q; if (!vh::begin_lazy([&] { q = mk(); return q.id; })) return;
        Opt ref = solve_ref(q);
        bool impossible = !ref.feasible || !ref.bounded;
        typename Run<N, M>::Solver s; int ns = 0, nm = 0;
        vh::check(s.info().status == UNINITIALIZED, "uninitialised", "status before the first solve");
        for (std::size_t k = 0; k < cf.size(); ++k) {
            auto &c = cf[(k * 11) % cf.size()];   // one object through all budgets, long and short ones alternating
            // loose and tight relative tolerances
            s.settings().eps_abs = impossible ? 1e-5 : 1e-3; s.settings().eps_rel = impossible && (odd || k % 2) ? 1e-9 : 1e-3;
            s.settings().max_iter = c.mi; s.settings().check_termination = c.ct; s.settings().adaptive_rho = c.ad; s.settings().adaptive_rho_interval = c.ival;
            status_t r = Run<N, M>::solve(s, q, k % 2, k % 3 == 0);
            std::string d = vh::fmt("max_iter=%d check=%d adaptive=%d: status %d iter %d", c.mi, c.ct, c.ad, r, s.info().iter);
            vh::state(vh::Hash().i(c.mi).i(c.ct).i(r).i(s.info().iter).m(Run<N, M>::x(s)).h);
            vh::check(r == s.info().status, "status", vh::fmt("%s, info().status %d", d.c_str(), s.info().status));
            vh::check(r == SOLVED || r == MAX_ITER_EXCEEDED, "status_kind", d);
            vh::check(s.info().iter >= 1 && s.info().iter <= c.mi, "iterations", d);
            if (r == SOLVED) {
                ns++;
                vh::check(c.ct != 0 && s.info().iter % c.ct == 0, "no_check_passed", d);
                vh::check(!impossible, "impossible_solved", vh::fmt("%s QP: %s", ref.feasible ? "unbounded" : "infeasible", d.c_str()));
            } else { nm++; vh::check(s.info().iter == c.mi, "budget", d); }
        }
        vh::note(vh::fmt("solved %d, budget exhausted %d%s", ns, nm, impossible ? " (infeasible or unbounded)" : ""));
    };
    each(N, M, lvl, body);
    { auto all = cf; cf.clear(); for (std::size_t k = 0; k < all.size(); k += 3) cf.push_back(all[k]); }
    odd = true; each_odd(N, M, false, body);
}
void vh_run() {
    int lvl = vh::thorough() ? 1 : 0;
    run_dim<1, 0>(1); run_dim<1, 1>(1); run_dim<2, 0>(lvl); run_dim<2, 1>(lvl); run_dim<2, 2>(lvl);
#ifndef SMALL
    run_dim<3, 2>(lvl);
#endif
}
