#ifndef DEPTH
#define DEPTH 3
#endif
// C15: every sequence of MPC setter calls up to the depth bound against a reference model indexed by (time node, component).
#include "mpc_common.hpp"
using namespace ocp;
static double val(int salt, int node, int comp) { return 0.25 * ((salt * 131 + node * 17 + comp * 5) % 97) - 9.0 + salt; }
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int F> struct Test {
    using O = Ocp<NX, NU, NP, ND, NG, P, S, F, 0>; using QP = mpc_qp<O>; using M_ = MPC<O, MpcSolver, QP>;
    enum { NN = P * S + 1, VX = NX * NN, VU = NU * NN, N = VX + VU + NP, DU = VX + NG * NN + N };
    // reference model: node 0 is the initial time
    struct Model { double lx[NN][NX], ux[NN][NX], gx[NN][NX], lu[NN][NU], uu[NN][NU], gu[NN][NU], lp[NP + 1], up[NP + 1], gp[NP + 1], lg[NN][NG + 1], ug[NN][NG + 1], sd[ND + 1]; std::vector<double> lam;
        Model() { const double I = std::numeric_limits<double>::infinity(); for (int k = 0; k < NN; ++k) { for (int i = 0; i < NX; ++i) { lx[k][i] = -I; ux[k][i] = I; gx[k][i] = 0; } for (int i = 0; i < NU; ++i) { lu[k][i] = -I; uu[k][i] = I; gu[k][i] = 0; } for (int i = 0; i < NG; ++i) { lg[k][i] = -I; ug[k][i] = I; } }
            for (int i = 0; i < NP; ++i) { lp[i] = -I; up[i] = I; gp[i] = 0; } for (int i = 0; i < ND; ++i) sd[i] = 0; lam.assign(DU, 0.0); } };
    static const char *name(int o) { static const char *n[] = {"init", "init2", "xlb", "xub", "xb", "xtraj", "xflb", "xfub", "xfb", "ulb", "uub", "utraj", "ub", "gtraj", "gb", "pb", "sd", "xguess", "uguess", "lguess", "pguess", "time", "poke"}; return n[o]; }
    enum { NOPS = 23 };
    static void apply(M_ &m, Model &r, int o, int s) {
        typename M_::state_t a, b; typename M_::control_t c, d; for (int i = 0; i < NX; ++i) { a(i) = val(s, 0, i); b(i) = val(s, 0, i) + 3; } for (int i = 0; i < NU; ++i) { c(i) = val(s, 1, i); d(i) = val(s, 1, i) + 2; }
        typename M_::traj_state_t tx, ty; typename M_::traj_control_t tu, tv; typename M_::constraints_t tg, th;
        // trajectories are given in the order the solver stores and returns them: last time node first
        for (int k = 0; k < NN; ++k) { for (int i = 0; i < NX; ++i) { tx((NN - 1 - k) * NX + i) = val(s, k + 3, i); ty((NN - 1 - k) * NX + i) = val(s, k + 3, i) + 1; } for (int i = 0; i < NU; ++i) { tu((NN - 1 - k) * NU + i) = val(s, k + 5, i); tv((NN - 1 - k) * NU + i) = val(s, k + 5, i) + 1; }
            for (int i = 0; i < NG; ++i) { tg((NN - 1 - k) * NG + i) = val(s, k + 7, i); th((NN - 1 - k) * NG + i) = val(s, k + 7, i) + 4; } }
        switch (o) {
        case 0: m.initial_conditions(a); for (int i = 0; i < NX; ++i) r.lx[0][i] = r.ux[0][i] = a(i); break;
        case 1: m.initial_conditions(a, b); for (int i = 0; i < NX; ++i) { r.lx[0][i] = a(i); r.ux[0][i] = b(i); } break;
        case 2: m.x_lower_bound(a); for (int k = 1; k < NN; ++k) for (int i = 0; i < NX; ++i) r.lx[k][i] = a(i); break;
        case 3: m.x_upper_bound(b); for (int k = 1; k < NN; ++k) for (int i = 0; i < NX; ++i) r.ux[k][i] = b(i); break;
        case 4: m.state_bounds(a, b); for (int k = 1; k < NN; ++k) for (int i = 0; i < NX; ++i) { r.lx[k][i] = a(i); r.ux[k][i] = b(i); } break;
        case 5: m.state_trajectory_bounds(tx, ty); for (int k = 0; k < NN; ++k) for (int i = 0; i < NX; ++i) { r.lx[k][i] = val(s, k + 3, i); r.ux[k][i] = val(s, k + 3, i) + 1; } break;
        case 6: m.x_final_lower_bound(a); for (int i = 0; i < NX; ++i) r.lx[NN - 1][i] = a(i); break;
        case 7: m.x_final_upper_bound(b); for (int i = 0; i < NX; ++i) r.ux[NN - 1][i] = b(i); break;
        case 8: m.final_state_bounds(a, b); for (int i = 0; i < NX; ++i) { r.lx[NN - 1][i] = a(i); r.ux[NN - 1][i] = b(i); } break;
        case 9: m.u_lower_bound(c); for (int k = 0; k < NN; ++k) for (int i = 0; i < NU; ++i) r.lu[k][i] = c(i); break;
        case 10: m.u_upper_bound(d); for (int k = 0; k < NN; ++k) for (int i = 0; i < NU; ++i) r.uu[k][i] = d(i); break;
        case 11: m.control_trajecotry_bounds(tu, tv); for (int k = 0; k < NN; ++k) for (int i = 0; i < NU; ++i) { r.lu[k][i] = val(s, k + 5, i); r.uu[k][i] = val(s, k + 5, i) + 1; } break;
        case 12: m.control_bounds(c, d); for (int k = 0; k < NN; ++k) for (int i = 0; i < NU; ++i) { r.lu[k][i] = c(i); r.uu[k][i] = d(i); } break;
        case 13: m.constraints_trajectory_bounds(tg, th); for (int k = 0; k < NN; ++k) for (int i = 0; i < NG; ++i) { r.lg[k][i] = val(s, k + 7, i); r.ug[k][i] = val(s, k + 7, i) + 4; } break;
        case 14: { typename M_::constraint_t e, f; for (int i = 0; i < NG; ++i) { e(i) = val(s, 2, i); f(i) = e(i) + 5; } m.constraints_bounds(e, f); for (int k = 0; k < NN; ++k) for (int i = 0; i < NG; ++i) { r.lg[k][i] = e(i); r.ug[k][i] = f(i); } break; }
        case 15: { typename M_::parameter_t e, f; for (int i = 0; i < NP; ++i) { e(i) = val(s, 4, i); f(i) = e(i) + 5; } m.parameters_bounds(e, f); for (int i = 0; i < NP; ++i) { r.lp[i] = e(i); r.up[i] = f(i); } break; }
        case 16: { typename M_::static_param e; for (int i = 0; i < ND; ++i) r.sd[i] = e(i) = val(s, 6, i); m.set_static_parameters(e); break; }
        case 17: m.x_guess(tx); for (int k = 0; k < NN; ++k) for (int i = 0; i < NX; ++i) r.gx[k][i] = val(s, k + 3, i); break;
        case 18: m.u_guess(tu); for (int k = 0; k < NN; ++k) for (int i = 0; i < NU; ++i) r.gu[k][i] = val(s, k + 5, i); break;
        case 19: { typename M_::dual_var_t l; for (int i = 0; i < DU; ++i) r.lam[i] = l(i) = val(s, 9, i); m.lam_guess(l); break; }
        case 20: { typename M_::parameter_t e; for (int i = 0; i < NP; ++i) r.gp[i] = e(i) = val(s, 8, i); m.p_guess(e); break; }
        case 21: m.set_time_limits(-1.0 - 0.5 * s, 2.0 + s); break;
        case 22: for (int i = 0; i < N; ++i) m.solver().primal_solution()(i) = val(s, 11, i); // an optimiser writing its iterate
            for (int k = 0; k < NN; ++k) { for (int i = 0; i < NX; ++i) r.gx[k][i] = val(s, 11, (NN - 1 - k) * NX + i); for (int i = 0; i < NU; ++i) r.gu[k][i] = val(s, 11, VX + (NN - 1 - k) * NU + i); } for (int i = 0; i < NP; ++i) r.gp[i] = val(s, 11, VX + VU + i); break;
        } }
    static void compare(M_ &m, const Model &r) {
        const V lb = m.solver().lower_bound_x(), ub = m.solver().upper_bound_x(), x = m.solver().primal_solution(); V gl, gu; if (NG) { gl = m.solver().lower_bound_g(); gu = m.solver().upper_bound_g(); }
        bool ok[8]; std::fill(ok, ok + 8, true);
        for (int k = 0; k < NN; ++k) { const int d = NN - 1 - k;
            for (int i = 0; i < NX; ++i) { ok[0] &= lb(d * NX + i) == r.lx[k][i]; ok[1] &= ub(d * NX + i) == r.ux[k][i]; ok[4] &= x(d * NX + i) == r.gx[k][i]; }
            for (int i = 0; i < NU; ++i) { ok[2] &= lb(VX + d * NU + i) == r.lu[k][i]; ok[3] &= ub(VX + d * NU + i) == r.uu[k][i]; ok[4] &= x(VX + d * NU + i) == r.gu[k][i]; }
            for (int i = 0; i < NG; ++i) ok[5] &= gl(d * NG + i) == r.lg[k][i] && gu(d * NG + i) == r.ug[k][i]; }
        for (int i = 0; i < NP; ++i) { ok[6] &= lb(VX + VU + i) == r.lp[i] && ub(VX + VU + i) == r.up[i]; ok[4] &= x(VX + VU + i) == r.gp[i]; }
        for (int i = 0; i < ND; ++i) ok[7] &= m.solver().parameters()(i) == r.sd[i];
        static const char *nm[] = {"state-lower-bounds", "state-upper-bounds", "control-lower-bounds", "control-upper-bounds", "guess", "path-constraint-bounds", "parameter-bounds", "static-parameters"};
        for (int i = 0; i < 8; ++i) vh::check(ok[i], nm[i], "lb=" + vh::vec(lb) + " ub=" + vh::vec(ub) + " x=" + vh::vec(x));
        // the accessors describe one and the same solution
        bool a = true; auto X = m.solution_x_reshaped(); auto U = m.solution_u_reshaped(); const V sx = m.solution_x(), su = m.solution_u(), sp = m.solution_p(), sl = m.solution_dual();
        vh::check(X.rows() == NX && X.cols() == NN && U.rows() == NU && U.cols() == NN && sx.size() == VX && su.size() == VU && sp.size() == NP && sl.size() == DU, "accessor.sizes");
        for (int k = 0; k < NN; ++k) { const V xk = m.solution_x_at(k), uk = m.solution_u_at(k); for (int i = 0; i < NX; ++i) a &= X(i, k) == r.gx[k][i] && xk(i) == r.gx[k][i] && sx((NN - 1 - k) * NX + i) == r.gx[k][i]; for (int i = 0; i < NU; ++i) a &= U(i, k) == r.gu[k][i] && uk(i) == r.gu[k][i] && su((NN - 1 - k) * NU + i) == r.gu[k][i]; }
        vh::check(a, "accessor.trajectories", "x=" + vh::vec(x)); a = true; for (int i = 0; i < NP; ++i) a &= sp(i) == r.gp[i]; vh::check(a, "accessor.parameters"); a = true; for (int i = 0; i < DU; ++i) a &= sl(i) == r.lam[i]; vh::check(a, "accessor.multipliers");
        vh::state(vh::Hash().m(lb).m(ub).m(x).h);
    }
    static void all() {
        const int depth = vh::thorough() ? 4 : DEPTH; std::vector<int> h;
        std::vector<int> use; for (int o = 0; o < NOPS; ++o) { if (!NP && (o == 15 || o == 20)) continue; if (!NG && (o == 13 || o == 14)) continue; if (!ND && o == 16) continue; if (!NP || !NG || !ND || true) use.push_back(o); }
        for (int L = 0; L <= depth; ++L) { long tot = 1; for (int i = 0; i < L; ++i) tot *= use.size();
            for (long c = 0; c < tot; ++c) {
                if (!vh::begin_lazy([&] { std::string n = vh::fmt("mpc%d%d%d%d%d-%dx%d/", NX, NU, NP, ND, NG, P, S); long q = c; for (int i = 0; i < L; ++i) { n += std::string(name(use[q % use.size()])) + ","; q /= use.size(); } return n; })) continue;
                std::unique_ptr<M_> m(new M_); m->solver().parameters().setZero(); Model r; long q = c; for (int i = 0; i < L; ++i) { apply(*m, r, use[q % use.size()], i + 1); q /= use.size(); vh::op(); } compare(*m, r); } }
    }
};
void vh_run() {
#define X(a, b, c, d, e, P, S, F) Test<a, b, c, d, e, P, S, F>::all();
    LIST
#undef X
}
