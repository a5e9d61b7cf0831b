#ifndef MUSTSOLVE
#define MUSTSOLVE 1
#define QPMAX 10000
#else
#define QPMAX 1500
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef TOL
#define TOL 1e-3
#endif
// C17: receding-horizon control of linear-quadratic problems. Every sequence of controller operations (measurement, time limits, bounds, parameters,
// guesses, truncated solves), each followed by a warm-started solve, against the certified optimum of the independently transcribed QP.
#include "mpc_common.hpp"
using namespace ocp;
#ifdef EXACT
enum { EX = 1 };
template <typename Problem, typename QP> class LqSolver : public SQPBase<LqSolver<Problem, QP>, Problem, QP> {
public:
    using B = SQPBase<LqSolver<Problem, QP>, Problem, QP>;
    void update_linearisation_dense_impl(const Eigen::Ref<const typename B::nlp_variable_t> &x, const Eigen::Ref<const typename B::parameter_t> &p, const Eigen::Ref<const typename B::nlp_variable_t> &, const Eigen::Ref<const typename B::nlp_dual_t> &lam,
        Eigen::Ref<typename B::nlp_variable_t> cg, Eigen::Ref<typename B::nlp_hessian_t> H, Eigen::Ref<typename B::nlp_jacobian_t> A, Eigen::Ref<typename B::nlp_constraints_t> b) noexcept { this->linearisation_dense_impl(x, p, lam, cg, H, A, b); }
    void update_linearisation_sparse_impl(const Eigen::Ref<const typename B::nlp_variable_t> &x, const Eigen::Ref<const typename B::parameter_t> &p, const Eigen::Ref<const typename B::nlp_variable_t> &, const Eigen::Ref<const typename B::nlp_dual_t> &lam,
        Eigen::Ref<typename B::nlp_variable_t> cg, typename B::nlp_hessian_t &H, typename B::nlp_jacobian_t &A, Eigen::Ref<typename B::nlp_constraints_t> b) noexcept { this->linearisation_sparse_impl(x, p, lam, cg, H, A, b); }
};
#else
enum { EX = 0 };
template <typename Problem, typename QP> using LqSolver = MpcSolver<Problem, QP>;
#endif
// optimum of min 1/2 x'Hx + g'x, lo <= Cx <= up: ADMM, then an active-set solve, accepted only with a verified KKT residual
struct Opt { bool ok = false; int it = 0; double mult = 0, viol = 0; V x, lo, up; M C; double res = 1e9; };
static Opt optimum(const M &H, const V &g, const M &C, const V &lo, const V &up) {
    const int n = g.size(), m = lo.size(); V rho(m); for (int i = 0; i < m; ++i) rho(i) = lo(i) == up(i) ? 1e3 : 1.0;
    Eigen::LDLT<M> f(H + 1e-9 * M::Identity(n, n) + C.transpose() * rho.asDiagonal() * C); V x = V::Zero(n), z = V::Zero(m), y = V::Zero(m); Opt r;
    for (int it = 1; it <= 30000; ++it) {
        x = f.solve(1e-9 * x - g + C.transpose() * (rho.asDiagonal() * z - y)); V cx = C * x, w = cx + y.cwiseQuotient(rho); for (int i = 0; i < m; ++i) z(i) = std::min(up(i), std::max(lo(i), w(i))); y += rho.asDiagonal() * (cx - z);
        if (it % 200 == 0 && (it <= 2000 || it % 1000 == 0)) { // active set from the multipliers
            std::vector<int> act; for (int i = 0; i < m; ++i) if (lo(i) == up(i) || std::abs(y(i)) > 1e-7) act.push_back(i);
            const int a = act.size(); M K = M::Zero(n + a, n + a); V b(n + a); K.topLeftCorner(n, n) = H; b.head(n) = -g; for (int k = 0; k < a; ++k) { K.block(n + k, 0, 1, n) = C.row(act[k]); K.block(0, n + k, n, 1) = C.row(act[k]).transpose(); b(n + k) = lo(act[k]) == up(act[k]) || y(act[k]) < 0 ? lo(act[k]) : up(act[k]); }
            V s = K.completeOrthogonalDecomposition().solve(b); V yy = V::Zero(m); for (int k = 0; k < a; ++k) yy(act[k]) = s(n + k);
            const V xx = s.head(n), c2 = C * xx; double res = (H * xx + g + C.transpose() * yy).cwiseAbs().maxCoeff();
            for (int i = 0; i < m; ++i) { res = std::max(res, std::max(lo(i) - c2(i), c2(i) - up(i))); if (lo(i) < up(i)) { if (yy(i) > 1e-9) res = std::max(res, std::abs(c2(i) - up(i))); if (yy(i) < -1e-9) res = std::max(res, std::abs(c2(i) - lo(i))); } }
            if (res < r.res) { r.res = res; r.x = xx; r.it = it; r.mult = yy.cwiseAbs().maxCoeff(); } if (r.res < 1e-8) { r.ok = true; return r; }
        } }
    r.viol = (C * x - z).cwiseAbs().maxCoeff(); return r;
}
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int F> struct Test {
    using O = Ocp<NX, NU, NP, ND, NG, P, S, F, 0>; using QP = mpc_qp<O>; using M_ = MPC<O, LqSolver, QP>;
    enum { NN = P * S + 1, VX = NX * NN, VU = NU * NN, N = VX + VU + NP, NE = VX, NI = NG * NN, DU = NE + NI + N };
    static constexpr double I = 1e20;
    struct Data { double x0[NX], xl = -I, xu = I, ul = -I, uu = I, gl = -I, gu = I, fl = -I, fu = I, pl = -1, pu = 1, t0 = 0, tf = 1, d = 0.5; bool final = false; };
    // operations
    enum { X0 = 0, X1, X2, T1, T2, T3, UB1, UB2, XB, GB, FB, PB, SD, GUESS, TRUNC, NOP, COLD, NOPS };
    static const char *name(int o) { static const char *n[] = {"x0", "x1", "x2", "[0,2]", "[1,2.5]", "[-1,0]", "ub0.4", "ub2", "xb", "gb", "fb", "pb", "sd", "guess", "trunc", "nop", "cold"}; return n[o]; }
    static void meas(Data &d, int k) { for (int i = 0; i < NX; ++i) d.x0[i] = k == 0 ? 0.5 - 0.3 * i : k == 1 ? -0.6 + 0.5 * i : 0.1 * (i + 1); }
    static void push(M_ &m, const Data &d) { typename M_::state_t a, b; typename M_::control_t c, e;
        m.set_time_limits(d.t0, d.tf); a.setConstant(d.xl); b.setConstant(d.xu); m.state_bounds(a, b); if (d.final) { a.setConstant(d.fl); b.setConstant(d.fu); m.final_state_bounds(a, b); }
        c.setConstant(d.ul); e.setConstant(d.uu); m.control_bounds(c, e); for (int i = 0; i < NX; ++i) a(i) = d.x0[i]; m.initial_conditions(a);
        if (NG) { typename M_::constraint_t g, h; g.setConstant(d.gl); h.setConstant(d.gu); m.constraints_bounds(g, h); }
        if (NP) { typename M_::parameter_t g, h; g.setConstant(d.pl); h.setConstant(d.pu); m.parameters_bounds(g, h); }
        typename M_::static_param s; s.setConstant(d.d); m.set_static_parameters(s); }
    static void modify(M_ &m, Data &d, int o) { typename M_::state_t a, b; typename M_::control_t c, e;
        switch (o) {
        case X0: case X1: case X2: meas(d, o - X0); for (int i = 0; i < NX; ++i) a(i) = d.x0[i]; if (o == X1) m.initial_conditions(a, a); else m.initial_conditions(a); break;
        case T1: d.t0 = 0; d.tf = 2; m.set_time_limits(0, 2); break; case T2: d.t0 = 1; d.tf = 2.5; m.set_time_limits(1, 2.5); break; case T3: d.t0 = -1; d.tf = 0; m.set_time_limits(-1, 0); break;
        case UB1: d.ul = -0.4; d.uu = 0.25; c.setConstant(d.ul); e.setConstant(d.uu); m.control_bounds(c, e); break; case UB2: d.ul = -2; d.uu = 3; c.setConstant(d.ul); e.setConstant(d.uu); m.u_lower_bound(c); m.u_upper_bound(e); break;
        case XB: d.xl = -0.55; d.xu = 0.45; d.final = false; a.setConstant(d.xl); b.setConstant(d.xu); m.state_bounds(a, b); break;
        case FB: d.final = true; d.fl = -0.1; d.fu = 0.2; a.setConstant(d.fl); b.setConstant(d.fu); m.x_final_lower_bound(a); m.x_final_upper_bound(b); break;
        case GB: if (NG) { d.gl = -0.75; d.gu = 1.25; typename M_::constraint_t g, h; g.setConstant(d.gl); h.setConstant(d.gu); m.constraints_bounds(g, h); } break;
        case PB: if (NP) { d.pl = 0.05; d.pu = 0.3; typename M_::parameter_t g, h; g.setConstant(d.pl); h.setConstant(d.pu); m.parameters_bounds(g, h); } break;
        case SD: if (ND) { d.d = 0.2; typename M_::static_param s; s.setConstant(d.d); m.set_static_parameters(s); } break;
        case GUESS: { typename M_::traj_state_t x; typename M_::traj_control_t u; x.setConstant(2.0); u.setConstant(-1.0); m.x_guess(x); m.u_guess(u); break; }
        case COLD: { typename M_::traj_state_t x; typename M_::traj_control_t u; typename M_::parameter_t p; typename M_::dual_var_t l; x.setZero(); u.setZero(); p.setZero(); l.setZero(); m.x_guess(x); m.u_guess(u); m.p_guess(p); m.lam_guess(l); break; }
        } }
    static void settings(M_ &m, int cf) { m.settings().max_iter = 30; m.settings().eps_prim = m.settings().eps_dual = 1e-4; m.qp_settings().max_iter = QPMAX; m.qp_settings().eps_abs = m.qp_settings().eps_rel = 1e-7; m.qp_settings().adaptive_rho = cf; m.qp_settings().rho = 0.1; if (cf) m.qp_settings().adaptive_rho_interval = 25; }
    static Opt reference(const Data &d, const O &o) { V lo, up; M C; Ref r;
        Reference<NX, NU, NP, ND, NG, P, S> R; r = R.eval(o, V::Zero(N), V::Constant(ND, d.d), d.t0, d.tf, V::Zero(DU), 1.0);
        C = M::Zero(NE + NI + N, N); C.topRows((int)NE) = r.Je; C.middleRows((int)NE, (int)NI) = r.Ji; C.bottomRows((int)N).setIdentity(); lo.resize(NE + NI + N); up.resize(NE + NI + N);
        lo.head((int)NE) = up.head((int)NE) = -r.ce; for (int i = 0; i < NI; ++i) { lo(NE + i) = d.gl - r.ci(i); up(NE + i) = d.gu - r.ci(i); }
        for (int k = 0; k < NN; ++k) { for (int i = 0; i < NX; ++i) { double l = d.xl, u = d.xu; if (k == NN - 1) l = u = d.x0[i]; else if (k == 0 && d.final) { l = d.fl; u = d.fu; } lo(NE + NI + k * NX + i) = l; up(NE + NI + k * NX + i) = u; }
            for (int i = 0; i < NU; ++i) { lo(NE + NI + VX + k * NU + i) = d.ul; up(NE + NI + VX + k * NU + i) = d.uu; } }
        for (int i = 0; i < NP; ++i) { lo(NE + NI + VX + VU + i) = d.pl; up(NE + NI + VX + VU + i) = d.pu; }
        Opt q = optimum(r.H, r.g, C, lo, up); q.C = C; q.lo = lo; q.up = up; return q; }
    static void all() {
        const int depth = vh::thorough() ? DEPTH + 1 : DEPTH; std::map<std::vector<double>, Opt> cache;
        auto ref = [&](M_ &m, const Data &d) -> const Opt & { std::vector<double> k{d.xl, d.xu, d.ul, d.uu, d.gl, d.gu, d.fl, d.fu, d.pl, d.pu, d.t0, d.tf, d.d, (double)d.final}; k.insert(k.end(), d.x0, d.x0 + NX); auto it = cache.find(k); if (it == cache.end()) it = cache.emplace(k, reference(d, m.ocp())).first; return it->second; };
        auto hard = [](const Opt &o) { return !o.ok || o.mult > 15; };  // large multipliers: ADMM may need more iterations than the budget
        for (int cf = 0; cf < 2; ++cf) for (int L = 0; L <= depth; ++L) { long tot = 1; for (int i = 0; i < L; ++i) tot *= NOPS;
            for (long c = 0; c < tot; ++c) {
                { bool skip = false; long q = c; for (int i = 0; i < L; ++i) { const int o = q % NOPS; q /= NOPS; skip |= (o == GB && !NG) || (o == PB && !NP) || (o == SD && !ND); } if (skip) continue; }
                if (!vh::begin_lazy([&] { std::string n = vh::fmt("lq%d%d%d%d%d-%dx%d/cfg%d/", NX, NU, NP, ND, NG, P, S, cf); long q = c; for (int i = 0; i < L; ++i) { n += std::string(name(q % NOPS)) + ","; q /= NOPS; } return n; })) continue;
                std::unique_ptr<M_> m(new M_); Data d; meas(d, 0); settings(*m, cf); push(*m, d); bool truncated = false, cold = true; long q = c;
                for (int i = 0; i < L; ++i) { const int o = q % NOPS; q /= NOPS; m->settings().max_iter = truncated ? 1 : 30; m->solve(); vh::op(); truncated = o == TRUNC; cold = o == COLD; modify(*m, d, o); }
                m->settings().max_iter = 30; m->solve(); vh::op();
                const Opt &o = ref(*m, d); const bool must = MUSTSOLVE && EX && !hard(o);
                V x = m->solver().primal_solution(); const bool solved = m->info().status.value == sqp_status_t::SOLVED; vh::state(vh::Hash().i(cf).i(solved).m(x).h);
                auto W = [&] { return vh::fmt("[reference: %d iterations, multipliers up to %.3g] status %d after %d iterations (%d QP): x=%s optimum %s", o.it, o.mult, (int)m->info().status.value, m->info().iter, m->info().qp_solver_iter, vh::vec(x).c_str(), vh::vec(o.x).c_str()); };
                vh::note(W());
                if (solved) { const V c = o.C * x; double v = 0; for (int i = 0; i < c.size(); ++i) v = std::max(v, std::max(o.lo(i) - c(i), c(i) - o.up(i))); vh::check(v <= 1.2e-4, "solved.feasible", vh::fmt("violation %g ", v) + W()); }
#ifdef WIDE
                if (c == PB + (long)NOPS * (UB1 + (long)NOPS * T1) && L == 3 && !cf) vh::check(solved, "quasi-newton.solved", vh::fmt("error %g ", (x - o.x).cwiseAbs().maxCoeff()) + W());
#endif
                if (o.ok) { const double e = (x - o.x).cwiseAbs().maxCoeff(); if (must) vh::check(solved, "solved", vh::fmt("error %g ", e) + W()); const bool qps = m->info().qp_solver_iter < QPMAX; if (must || solved && qps) vh::check(e <= TOL, "optimum", vh::fmt("error %g ", e) + W());
                    if (must || solved && qps) for (int i = 0; i < NX; ++i) vh::check(std::abs(x((NN - 1) * NX + i) - d.x0[i]) <= 1e-3, "initial-state", W()); }
                else if (o.viol > 1e-2) vh::check(!solved, "infeasible-not-solved", vh::fmt("res %g ", o.res) + W());
                if (cold) { std::unique_ptr<M_> f(new M_); settings(*f, cf); push(*f, d); f->solve(); const V y = f->solver().primal_solution(); if (!cf) vh::check((x - y).cwiseAbs().maxCoeff() <= 1e-9 * (1 + y.cwiseAbs().maxCoeff()) && m->info().iter == f->info().iter, "fresh-controller", W() + " fresh " + vh::vec(y)); }
            } }
    }
};
void vh_run() {
#define X(a, b, c, d, e, P, S, F) Test<a, b, c, d, e, P, S, F>::all();
    LIST
#undef X
}
