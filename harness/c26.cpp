// C26: the adapters of external QP solvers (OSQP through OsqpEigen, qpmad). Stand-ins with the published interfaces record the problem they are
// given and return an outcome chosen here; all histories of solves over patterns, storage, values, settings, options and outcomes are driven.
#define POLYMPC_FOUND_QPMAD
#include "common.hpp"
#include "solvers/qp_base.hpp"
#ifdef OSQPT
#include "solvers/osqp_interface.hpp"
#else
#include "solvers/qpmad_interface.hpp"
#endif
using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
static double num(int k, int s) { return ((k * 37 + s * 101) % 61) / 8.0 - 3.5; }
static V vecn(int n, int s) { V v(n); for (int i = 0; i < n; ++i) v(i) = num(i, s); return v; }
struct Values { M H, A; V h, al, au, xl, xu, x0, y0; };
template <int N, int MM> static Values values(int s, unsigned pa, unsigned ph) {
    Values v; v.H = M::Zero(N, N); v.A = M::Zero(MM, N); int b = 0;
    for (int i = 0; i < MM; ++i) for (int j = 0; j < N; ++j, ++b) if (pa >> b & 1) v.A(i, j) = num(b + 3, s) + 5; b = 0;
    for (int i = 0; i < N; ++i) { v.H(i, i) = 9 + num(i, s + 1); for (int j = 0; j < i; ++j, ++b) if (ph >> b & 1) v.H(i, j) = v.H(j, i) = num(b, s + 2) + 4.25; }
    v.h = vecn(N, s + 3); v.al = vecn(MM, s + 4); v.au = v.al + vecn(MM, s + 5).cwiseAbs(); v.xl = vecn(N, s + 6); v.xu = v.xl + vecn(N, s + 7).cwiseAbs(); v.x0 = vecn(N, s + 8); v.y0 = vecn(N + MM, s + 9);
    const double inf = std::numeric_limits<double>::infinity(); if (s % 2) { if (MM) v.au(MM - 1) = inf; v.xl(0) = -inf; } return v; }
template <class S> static void configure(S &s, int k) {
    s.rho = 0.5 + k; s.sigma = 1e-5 * (k + 1); s.alpha = 1.1 + 0.1 * k; s.eps_abs = 1e-4 / (k + 1); s.eps_rel = 1e-3 / (k + 2); s.max_iter = 100 + k; s.verbose = k % 2; s.check_termination = 7 + k; s.adaptive_rho = k % 2; s.adaptive_rho_tolerance = 3 + k; s.adaptive_rho_interval = 11 + k;
    s.delta = 2e-6 * (k + 1); s.polish = k % 2 == 0; s.scaling = 5 + k; s.time_limit = k * 0.5; s.polish_refine_iter = 2 + k; s.osqp_linear_solver = k % 2; s.scaled_termination = k % 2; s.adaptive_rho_fraction = 0.3 + 0.1 * k; s.eps_dual_inf = 3e-4 + k; s.eps_prim_inf = 5e-4 + k; s.hessian_type = k % 3; }
#ifdef OSQPT
using SpM = Eigen::SparseMatrix<double>;
static SpM sparse(const M &d, const M &pat, bool compressed) { SpM s(d.rows(), d.cols()); s.reserve(Eigen::VectorXi::Constant(d.cols(), (int)d.rows() + 1)); for (int j = 0; j < d.cols(); ++j) for (int i = 0; i < d.rows(); ++i) if (pat(i, j) != 0) s.insert(i, j) = d(i, j); if (compressed) s.makeCompressed(); return s; }
template <int N, int MM> static void run() {
    const int stat[] = {OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_MAX_ITER_REACHED, OSQP_UNSOLVED, OSQP_NON_CVX, OSQP_TIME_LIMIT_REACHED}; const status_t want[] = {SOLVED, SOLVED, INFEASIBLE, INFEASIBLE, MAX_ITER_EXCEEDED, UNSOLVED, UNSOLVED, UNSOLVED};
    const int PA = 1 << (N * MM), PH = 1 << (N * (N - 1) / 2), stepa = PA > 64 ? (vh::thorough() ? 5 : 23) : 1;
    // one solve: option bits: 1 warm, 2 with a starting point, 4 same pattern, 8 compressed A, 16 compressed H; value set; outcome
    for (int pa = 0; pa < PA; pa += stepa) for (int ph = 0; ph < PH; ph += (PH > 8 ? 5 : 1)) if (vh::begin_lazy([&] { return vh::fmt("osqp/%d,%d/patterns %d,%d", N, MM, pa, ph); })) {
        const int L = vh::thorough() && pa % 3 == 0 ? 3 : 2; const int K = 32; long seqs = 0; long tot = 1; for (int i = 0; i < L; ++i) tot *= K;
        for (long q = 0; q < tot; ++q) {
            if ((q % K) & 5) continue; // the first solve is a cold one, without the same-pattern option
            bool skip = false; if (L == 3 && (q * 7 + pa) % 5) skip = true; if (skip) continue; ++seqs;
            polympc::OSQP<N, MM> s; long c = q; int order = 0; unsigned cp = pa, ch = ph; // the pattern changes between solves unless it is said to be the same
            for (int i = 0; i < L; ++i, c /= K) {
                const int o = c % K, vs = (i * 3 + o + pa) % 5; if (i && !(o & 4)) { cp = (cp * 3 + q + i) % PA; ch = (ch + q) % PH; } Values v = values<N, MM>(vs, cp, ch), ones = values<N, MM>(0, cp, ch); const int out = (int)((q + i * 5 + pa) % 8);
                for (int a = 0; a < MM; ++a) for (int b = 0; b < N; ++b) ones.A(a, b) = cp >> (a * N + b) & 1; M hp = (ones.H.array() != 0).cast<double>();
                SpM A = sparse(v.A, ones.A, o & 8), H = sparse(v.H, hp, o & 16); configure(s.settings(), vs); s.settings().warm_start = o & 1; s.settings().reuse_pattern = o & 4;
                V x = vecn(N, 40 + vs + i), y = vecn(N + MM, 50 + vs + i); const int before = s.get_solver_data().solves; bool seen = false; const std::string id = vh::fmt("solve %d of history %ld (options %d)", i, q, o);
                OsqpEigen::Solver::compute() = [&](OsqpEigen::Solver &e) { seen = true; const OsqpEigen::Work &w = e.w; if (!vh::check(w.ready && w.n == N && w.m == N + MM, "problem-set-up", id)) return;
                    M Ae = M::Zero(N + MM, N); Ae.topRows(MM) = v.A; Ae.bottomRows(N).setIdentity(); M hu = v.H; vh::mnear(M(M(w.H).template triangularView<Eigen::Upper>()), M(hu.template triangularView<Eigen::Upper>()), 0, "hessian", id); vh::mnear(M(w.A), Ae, 0, "constraint-matrix", id);
                    vh::mnear(w.q, v.h, 0, "gradient", id); V l(N + MM), u(N + MM); l << v.al, v.xl; u << v.au, v.xu; vh::check(w.l == l, "lower-bounds", id + " got " + vh::vec(w.l) + " expected " + vh::vec(l)); vh::check(w.u == u, "upper-bounds", id + " got " + vh::vec(w.u));
                    vh::check(w.warm == bool(o & 2), "starting-point-given", id); if (w.warm) { vh::mnear(w.x0, v.x0, 0, "primal-start", id); vh::mnear(w.y0, v.y0, 0, "dual-start", id); }
                    const auto &t = s.settings(); const OsqpEigen::Values &z = e.s.v; vh::check(z.rho == t.rho && z.alpha == t.alpha && z.sigma == t.sigma && z.eps_abs == t.eps_abs && z.eps_rel == t.eps_rel && z.ar_tol == t.adaptive_rho_tolerance && z.ar_frac == t.adaptive_rho_fraction && z.delta == t.delta && z.time_limit == t.time_limit && z.eps_pinf == t.eps_prim_inf && z.eps_dinf == t.eps_dual_inf, "real-settings", id);
                    vh::check(z.verbose == t.verbose && z.warm == t.warm_start && z.adaptive == t.adaptive_rho && z.max_iter == t.max_iter && z.check == t.check_termination && z.ar_int == t.adaptive_rho_interval && z.polish == t.polish && z.scaling == t.scaling && z.refine == t.polish_refine_iter && z.linsys == t.osqp_linear_solver && z.scaled == t.scaled_termination, "integer-settings", id);
                    if (!(o & 1)) vh::check(w.settings.rho == t.rho && w.settings.max_iter == t.max_iter && w.settings.eps_abs == t.eps_abs, "settings-before-set-up", id);
                    e.x = x; e.y = y; e.info.iter = 13 + vs; e.info.pri_res = 0.25 + i; e.info.dua_res = 0.5 + 2 * i; e.info.rho_updates = 3 + i; e.info.rho_estimate = 0.125 + vs; e.info.status_val = stat[out]; };
                status_t st = (o & 2) ? s.solve(H, v.h, A, v.al, v.au, v.xl, v.xu, v.x0, v.y0) : s.solve(H, v.h, A, v.al, v.au, v.xl, v.xu); vh::op();
                vh::check(seen && s.get_solver_data().solves == before + 1, "one-solve", id); vh::check(st == want[out] && s.info().status == st, "status", id + vh::fmt(" outcome %d: returned %d, info %d", stat[out], st, s.info().status));
                vh::mnear(s.primal_solution(), x, 0, "primal", id); vh::mnear(s.dual_solution(), y, 0, "dual", id); vh::check(s.info().iter == 13 + vs, "iterations", id); vh::check(s.info().res_prim == 0.25 + i, "primal-residual", id + vh::fmt(" %g", s.info().res_prim)); vh::check(s.info().res_dual == 0.5 + 2 * i, "dual-residual", id + vh::fmt(" %g", s.info().res_dual));
                vh::check(s.info().rho_updates == 3 + i && s.info().rho_estimate == 0.125 + vs, "penalty-statistics", id); vh::state(vh::Hash().i(N).i(MM).i(pa).i(ph).i(o).i(vs).i(out).i(i).h); ++order;
            }
        }
        OsqpEigen::Solver::compute() = nullptr; vh::note(vh::fmt("%ld histories of %d solves", seqs, L));
    }
}
void vh_run() {
#ifdef SMALL
    run<2, 1>(); run<1, 1>(); run<2, 0>(); run<1, 3>(); return;
#endif
    run<1, 1>(); run<2, 1>(); run<2, 2>(); run<3, 2>(); run<1, 3>(); run<4, 1>(); run<2, 0>(); run<1, 0>(); }
#else
template <int N, int MM> static void run() {
    const int stat[] = {0, 6, 3, 5}; const status_t want[] = {SOLVED, MAX_ITER_EXCEEDED, UNSOLVED, UNSOLVED};
    // one solve: with or without a starting point x value set (5) x outcome (4)
    const int K = 2 * 5 * 4, L = 3; long tot = (long)K * K * K;
    for (int a = 0; a < K; ++a) if (vh::begin_lazy([&] { return vh::fmt("qpmad/%d,%d/first %d", N, MM, a); })) {
        for (long q = a; q < tot; q += K) { if (!vh::thorough() && (q / K) % 3) continue;
            polympc::QPMAD<N, MM> s; s.primal_solution().setZero(); long c = q;
            for (int i = 0; i < L; ++i, c /= K) { const int o = c % K, guess = o % 2, vs = o / 2 % 5, out = o / 10; Values v = values<N, MM>(vs, ~0u, ~0u); configure(s.settings(), (vs + i) % 4); V x = vecn(N, 60 + vs + i); const std::string id = vh::fmt("solve %d of history %ld", i, q); bool seen = false;
                qpmad::Seen::compute() = [&](qpmad::Seen &e) { seen = true; vh::mnear(M(e.H.template triangularView<Eigen::Lower>()), M(v.H.template triangularView<Eigen::Lower>()), 0, "hessian", id); vh::mnear(e.A, v.A, 0, "constraint-matrix", id); vh::mnear(e.h, v.h, 0, "gradient", id);
                    vh::check(e.lb == v.xl && e.ub == v.xu, "box", id); vh::check(e.Alb == v.al && e.Aub == v.au, "constraint-bounds", id); vh::check(e.n == N && e.m == MM, "sizes", id); if (guess) vh::mnear(e.x0, v.x0, 0, "primal-start", id);
                    vh::check(e.p.max_iter_ == s.settings().max_iter && e.p.tolerance_ == s.settings().eps_abs && (int)e.p.hessian_type_ == s.settings().hessian_type, "settings", id); e.x = x; e.status = stat[out]; };
                using Q = QPBase<polympc::QPMAD<N, MM>, N, MM, double, DENSE>; typename Q::qp_hessian_t H = v.H, H0 = H; typename Q::qp_constraint_t A = v.A;
                status_t st = guess ? s.solve(H, v.h, A, v.al, v.au, v.xl, v.xu, v.x0, v.y0) : s.solve(H, v.h, A, v.al, v.au, v.xl, v.xu); vh::op();
                vh::check(seen, "one-solve", id); vh::check(st == want[out] && s.info().status == st, "status", id + vh::fmt(" outcome %d: returned %d, info %d", stat[out], st, s.info().status)); vh::mnear(s.primal_solution(), x, 0, "primal", id); vh::check(H == H0, "data-kept", id); vh::state(vh::Hash().i(N).i(MM).i(o).i(i).h);
            } }
        qpmad::Seen::compute() = nullptr;
    }
}
void vh_run() { run<1, 1>(); run<2, 1>(); run<3, 2>(); run<2, 4>(); run<2, 0>(); }
#endif
