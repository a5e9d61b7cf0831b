// C16: interpolated MPC solutions for every order / segment count in the bound, every history of time-limit changes, every node and a grid of
// times in between, against barycentric interpolation in long double on the reference grid.
#include "mpc_common.hpp"
using namespace ocp;
static const double TI[][2] = {{0, 1}, {0, 4}, {1, 3}, {-2, 2}, {-5, -4.5}, {100, 101}, {0.25, 0.28125}, {3, 4}, {2, 6}};
template <int NX, int NU, int P, int S, int F> struct Test {
    using O = Ocp<NX, NU, 0, 0, 0, P, S, F, 0>; using QP = mpc_qp<O>; using M_ = MPC<O, MpcSolver, QP>;
    enum { NN = P * S + 1, VX = NX * NN, VU = NU * NN };
    // value of the piecewise polynomial through nodes (ascending time) at fraction z in [0, S]
    static long double interp(const Grid &g, const std::vector<double> &y, int seg, long double z) { // z in [-1,1] of the segment
        long double num = 0, den = 0; for (int j = 0; j <= P; ++j) { const long double xj = -g.x(j); if (z == xj) return y[seg * P + j]; long double w = (j % 2 ? -1.0L : 1.0L) * (j == 0 || j == P ? 0.5L : 1.0L) / (z - xj); num += w * y[seg * P + j]; den += w; } return num / den; }
    static void check_at(const M_ &m, double t0, double tf, const std::vector<std::vector<double>> &xs, const std::vector<std::vector<double>> &us, const Grid &g, int mode) {
        const double h = (tf - t0) / S; const double tu = std::max({std::abs(t0), std::abs(tf), h});
        auto one = [&](double t, int seg, long double z, const char *what) {
            vh::op(); const V x = m.solution_x_at(t), u = m.solution_u_at(t);
            // rounding of the time itself moves the value by (slope) * ulp(t)
            for (int i = 0; i < NX + NU; ++i) { const auto &y = i < NX ? xs[i] : us[i - NX]; double mag = 1; for (double v : y) mag = std::max(mag, std::abs(v)); const double ref = (double)interp(g, y, seg, z), got = i < NX ? x(i) : u(i - NX);
                vh::check(std::abs(got - ref) <= mag * (1e-11 * (P > 5 ? std::pow(10.0, P - 5) : 1.0) + 40 * P * P * 2.3e-16 * tu / h), i < NX ? (std::string("state.") + what).c_str() : (std::string("control.") + what).c_str(), vh::fmt("t=%.17g segment %d: component %d is %.12g, expected %.12g (horizon [%g,%g], mode %d)", t, seg, i, got, ref, t0, tf, mode)); } };
        for (int s = 0; s < S; ++s) { for (int j = 0; j <= P; ++j) { const long double z = -g.x(j); double t = (double)(t0 + h * (s + (1 + z) / 2)); t = std::min(std::max(t, t0), tf); one(t, s, z, "at-node"); }
            for (int q = 1; q < 8; ++q) { const long double z = -1 + 2.0L * q / 8; one((double)(t0 + h * (s + (1 + z) / 2)), s, z, "between-nodes"); }
            for (long double d : {0.3L, 0.05L, 0.01L, 1e-3L, 1e-5L, 1e-7L, 1e-9L}) for (int side : {-1, 1}) { const long double z = side * (1 - d); one((double)(t0 + h * (s + (1 + z) / 2)), s, z, "near-the-border"); }
            // continuity at the end of the segment, from both sides
            if (s + 1 < S) { const double tb = t0 + h * (s + 1), e = std::max(std::abs(tb), h) * 4e-15; for (double d : {-e, 0.0, e}) one(tb + d, s, 1.0L, "continuous"); } }
        // node times published by the controller
        for (int k = 0; k < NN; ++k) { const double ref = (double)(t0 + (long double)h * (std::min(k / P, S - 1) + (1 - g.x(k - std::min(k / P, S - 1) * P)) / 2)); vh::check(std::abs(m.time_grid(k) - ref) <= 1e-13 * tu * 4, "time-grid", vh::fmt("node %d at %.15g, expected %.15g", k, (double)m.time_grid(k), ref)); }
    }
    static void all() {
        Grid g(P); const int NT = sizeof(TI) / sizeof(TI[0]); const int depth = vh::thorough() ? 3 : 2;
        for (int L = 0; L <= depth; ++L) { int tot = 1; for (int i = 0; i < L; ++i) tot *= NT;
            for (int c = 0; c < tot; ++c) for (int mode = 0; mode < 4; ++mode) {
                if (!vh::begin_lazy([&] { std::string n = vh::fmt("mpc%d%d-%dx%d/", NX, NU, P, S); int q = c; for (int i = 0; i < L; ++i) { n += vh::fmt("[%g,%g]", TI[q % NT][0], TI[q % NT][1]); q /= NT; } return n + vh::fmt("/data%d", mode); })) continue;
                std::unique_ptr<M_> m(new M_); double t0 = 0, tf = 1; int q = c; for (int i = 0; i < L; ++i) { t0 = TI[q % NT][0]; tf = TI[q % NT][1]; m->set_time_limits(t0, tf); q /= NT; vh::op(); if (i == 0) (void)m->solution_x_at(0.5 * (t0 + tf)); }
                std::vector<std::vector<double>> xs(NX, std::vector<double>(NN)), us(NU, std::vector<double>(NN));
                for (int k = 0; k < NN; ++k) { const double z = (double)((std::min(k / P, S - 1) + (1 - g.x(k - std::min(k / P, S - 1) * P)) / 2) / S); // fraction of the horizon
                    for (int i = 0; i < NX + NU; ++i) { double v = 0; switch (mode) { case 0: v = std::pow(z, std::min(P, 3)) * (1 + i) - z + 0.5 * i; break;   // one polynomial over the whole horizon
                        case 1: v = (k * 7 + i * 3) % 11 - 5.0; break; case 2: v = k == (NN - 1) / 2 ? 1.0 + i : 0.0; break; case 3: v = k % 2 ? -(k + 1.0) : k + i; break; }
                        (i < NX ? xs[i] : us[i - NX])[k] = v; m->solver().primal_solution()(i < NX ? (NN - 1 - k) * NX + i : VX + (NN - 1 - k) * NU + i - NX) = v; } }
                vh::state(vh::Hash().i(mode).d(t0).d(tf).h); check_at(*m, t0, tf, xs, us, g, mode);
                for (int k = 0; k < NN; ++k) { const V x = m->solution_x_at(k), u = m->solution_u_at(k); bool ok = true; for (int i = 0; i < NX; ++i) ok &= x(i) == xs[i][k]; for (int i = 0; i < NU; ++i) ok &= u(i) == us[i][k]; vh::check(ok, "node-accessor"); }
            } }
    }
};
void vh_run() {
#define X(a, b, P, S, F) Test<a, b, P, S, F>::all();
    LIST
#undef X
}
