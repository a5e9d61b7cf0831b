// C11: the values of the transcribed problem (cost, dynamics residuals, path constraints, Lagrangian value) are those of
// the spline collocation definition on the current time interval. Unit = one dimension tuple, one matrix format.
#include "ocp_common.hpp"
using namespace ocp;
#ifndef FMTV
#define FMTV 0
#endif
template <typename O, int NX, int NU, int NP, int ND, int NG, int P, int S> struct Run {
    using R = Reference<NX, NU, NP, ND, NG, P, S>; enum { N = R::N, NE = R::NE, NI = R::NI, DUAL = NE + NI + N };
    R ref;
    void values(O &o, const V &var_, const V &dv_, double t0, double tf, const V &lam_) {
        vh::op(6);
        typename O::nlp_variable_t var = var_; typename O::static_parameter_t d = dv_; typename O::nlp_dual_t lam = lam_;
        Ref r = ref.eval(o, var_, dv_, t0, tf, lam_, 1.0, false);
        typename O::nlp_eq_constraints_t ce(NE); ce.setConstant(7.5); o.equalities(var, d, ce);
        vh::mnear(ce, r.ce, 1e-9, "equalities");
        typename O::nlp_constraints_t c(NE + NI); c.setConstant(-3.5); o.constraints(var, d, c); V cc(NE + NI); cc << r.ce, r.ci;
        vh::mnear(c, cc, 1e-9, "constraints");
        if (NI > 0) { typename O::nlp_ineq_constraints_t ci(NI); ci.setConstant(7.5); o.inequalities(var, d, ci); vh::mnear(ci, r.ci, 1e-9, "inequalities"); }
        double cost = 99, l1 = 99, l2 = 99; o.cost(var, d, cost); vh::near(cost, r.cost, 1e-9, "cost");
        o.lagrangian(var, d, lam, l1); vh::near(l1, r.lagr, 1e-9, "lagrangian");
        c.setConstant(2.5); o.lagrangian(var, d, lam, l2, c); vh::near(l2, r.lagr, 1e-9, "lagrangian_g"); vh::mnear(c, cc, 1e-9, "lagrangian_constraints");
        vh::state(vh::Hash().m(M(c)).d(cost).h);
    }
    void run(const char *tag) {
        const int K = sizeof(TL) / sizeof(TL[0]), NPT = npoints(N); V lam = multipliers(DUAL), dv(ND); for (int i = 0; i < ND; ++i) dv(i) = 0.75 - 0.5 * i;
        // sizes and time grid
        if (vh::begin(vh::fmt("%s/layout", tag))) { O o; vh::check((int)O::VAR_SIZE == (int)N && (int)O::NUM_EQ == (int)NE && (int)O::NUM_INEQ == (int)NI && (int)O::DUAL_SIZE == (int)DUAL && (int)O::NUM_NODES == (int)R::NN, "sizes"); vh::op(); }
        // time-interval histories of length 0..2 (thorough 3), then one evaluation of the grid and the functions
        int nh = 1 + K + K * K + (vh::thorough() ? K * K * K : 0);
        for (int h = 0; h < nh; ++h) if (vh::begin_lazy([&] { return vh::fmt("%s/time/%d", tag, h); })) {
            O o; o.fd = 2; o.fl = 2; o.fm = 2; o.fg = 2; double t0 = 0, tf = 1; int len = h == 0 ? 0 : h <= K ? 1 : h <= K + K * K ? 2 : 3, code = h == 0 ? 0 : h <= K ? h - 1 : h <= K + K * K ? h - 1 - K : h - 1 - K - K * K;
            V var = point(0, N); values(o, var, dv, t0, tf, lam);
            for (int i = 0; i < len; ++i) { int k = code % K; code /= K; t0 = TL[k][0]; tf = TL[k][1]; o.set_time_limits(t0, tf); vh::op();
                V tn(R::NN); for (int j = 0; j < R::NN; ++j) tn(j) = ref.time(j, t0, tf);
                vh::mnear(o.time_nodes, tn, 1e-12, "time_nodes"); values(o, var, dv, t0, tf, lam); }
        }
        // every dynamics function with every path constraint / running with terminal cost, at every point; second evaluation at the next point
        for (int k = 0; k < 36; ++k) for (int q = 0; q < NPT; ++q) if (vh::begin_lazy([&] { return vh::fmt("%s/f%d.p%d", tag, k, q); })) {
            O o; o.fd = k % 6; o.fl = k / 6; o.fm = (o.fd + o.fl) % 5; o.fg = (o.fd + 2 * o.fl) % 5; int t = (k + q) % K; o.set_time_limits(TL[t][0], TL[t][1]);
            values(o, point(q, N), dv, TL[t][0], TL[t][1], lam); V d2 = dv.array() * -1.5; values(o, point((q + 1) % NPT, N), d2, TL[t][0], TL[t][1], V(-lam));
        }
        for (int k = 0; k < nmult(NE, NI, N, R::NN); ++k) if (vh::begin_lazy([&] { return vh::fmt("%s/mult%d", tag, k); })) {
            O o; o.fd = 2 + k % 4; o.fl = 2 + k % 3; o.fm = 1 + k % 4; o.fg = 1 + (k + 1) % 4; values(o, point(0, N), dv, 0, 1, multk(k, NE, NI, N, R::NN)); values(o, point(1, N), dv, 0, 1, lam); }
        // meaning: along an exact polynomial trajectory of the linear/constant dynamics the residual vanishes, and the integral of a polynomial is exact
        for (int deg = 0; deg <= P; ++deg) for (int k = 0; k < K; ++k) if (vh::begin_lazy([&] { return vh::fmt("%s/poly%d.t%d", tag, deg, k); })) {
            O o; double t0 = TL[k][0], tf = TL[k][1]; o.set_time_limits(t0, tf); V var = V::Zero(N);
            // every state x_i(t) = (i+1) tau^deg, tau=(t-t0)/(tf-t0); D x - h f with f read back from the residual must be x'
            for (int j = 0; j < R::NN; ++j) { double tau = (ref.time(j, t0, tf) - t0) / (tf - t0); for (int i = 0; i < NX; ++i) var(j * NX + i) = (i + 1) * std::pow(tau, deg); }
            typename O::nlp_variable_t v = var; typename O::static_parameter_t d = dv; typename O::nlp_eq_constraints_t ce(NE); o.fd = 1; o.equalities(v, d, ce); vh::op();
            const double h = (tf - t0) / (2 * S);
            for (int j = 0; j < R::NN; ++j) { double t = ref.time(j, t0, tf), tau = (t - t0) / (tf - t0); Eigen::Matrix<double, NX, 1> f, x = var.segment<NX>(j * NX); Eigen::Matrix<double, NU, 1> u = Eigen::Matrix<double, NU, 1>::Zero(); Eigen::Matrix<double, NP, 1> p = Eigen::Matrix<double, NP, 1>::Zero();
                dyn<double>(1, x, u, p, d, t, f);
                for (int i = 0; i < NX; ++i) { double dx = deg == 0 ? 0 : (i + 1) * deg * std::pow(tau, deg - 1) / (tf - t0); vh::near(ce(j * NX + i), h * (dx - f(i)), 1e-8, "collocation"); } }
        }
    }
};
#define RUN1(NX, NU, NP, ND, NG, P, S, VAR) { using O = Ocp<NX, NU, NP, ND, NG, P, S, FMTV, VAR>; Run<O, NX, NU, NP, ND, NG, P, S> r; r.run(#NX "," #NU "," #NP "," #ND "," #NG "/P" #P "S" #S "/v" #VAR); }
void vh_run() {
#define X(...) RUN1(__VA_ARGS__)
    LIST
}
