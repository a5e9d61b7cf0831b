// C12 (dense) / C13 (sparse): every derivative the transcription reports is the derivative of its value, for every
// supported combination of terms, at every point and after every short history of queries on the same object and matrices.
#include "ocp_common.hpp"
using namespace ocp;
#ifndef FMTV
#define FMTV 0
#endif
template <typename A> M dn(const Eigen::SparseMatrix<A> &m) { return M(m); }
template <typename A> M dn(const Eigen::MatrixBase<A> &m) { return M(m); }
template <typename A> void init(Eigen::SparseMatrix<A> &m, int r, int c) { m.resize(r, c); }
template <typename A> void init(Eigen::PlainObjectBase<A> &m, int r, int c) { m.resize(r, c); m.setConstant(3.25); }
template <typename A> void pack(Eigen::SparseMatrix<A> &m) { if (m.nonZeros()) m.makeCompressed(); }
template <typename A> void pack(Eigen::PlainObjectBase<A> &) {}
template <typename O, int NX, int NU, int NP, int ND, int NG, int P, int S> struct Run {
    using R = Reference<NX, NU, NP, ND, NG, P, S>; enum { N = R::N, NE = R::NE, NI = R::NI, DUAL = NE + NI + N, NOPS = 12 };
    R ref; const double tol = 1e-8;
    struct Mem { typename O::nlp_eq_jacobian_t Je; typename O::nlp_ineq_jacobian_t Ji; typename O::nlp_jacobian_t J, J2; typename O::nlp_hessian_t H, LH, LH2;
        void compress() { pack(Je); pack(Ji); pack(J); pack(J2); pack(H); pack(LH); pack(LH2); }
        Mem() { init(Je, NE, N); init(Ji, NI, N); init(J, NE + NI, N); init(J2, NE + NI, N); init(H, N, N); init(LH, N, N); init(LH2, N, N); } };
    M stack(const Ref &r) { M j(NE + NI, N); j << r.Je, r.Ji; return j; }
    V cstack(const Ref &r) { V j(NE + NI); j << r.ce, r.ci; return j; }
    // structural: in the sparse format everything outside the announced pattern is absent and the pattern depends on the dimensions only
    template <typename A> void shape(const Eigen::SparseMatrix<A> &m, const char *what, int kind) {
        for (int c = 0; c < m.outerSize(); ++c) { int last = -1; for (typename Eigen::SparseMatrix<A>::InnerIterator it(m, c); it; ++it) {
            vh::check(it.row() > last && it.row() < m.rows(), "pattern_order", what); last = it.row();
            vh::check(inpat(kind, it.row(), c), "pattern_inside", vh::fmt("%s entry (%d,%d)", what, (int)it.row(), c)); } }
    }
    template <typename A> void shape(const Eigen::MatrixBase<A> &, const char *, int) {}
    int node(int c) const { return c < R::VX ? c / NX : c < R::VX + R::VU ? (c - R::VX) / (NU > 0 ? NU : 1) : -1; }
    bool inpat(int kind, int r, int c) const {
        int nc = node(c);
        if (kind == 0) { if (r >= NE) return nc < 0 || (r - NE) / (NG > 0 ? NG : 1) == nc; if (nc < 0 || nc == r / NX) return true; if (c >= R::VX || c % NX != r % NX) return false; int k = r / NX, s = std::min(k / P, S - 1); return nc >= s * P && nc <= s * P + P; }
        int nr = node(r); return nc < 0 || nr < 0 || nr == nc;
    }
    void step(O &o, Mem &m, int op, const V &var_, const V &dv_, double t0, double tf, const V &lam_) {
        vh::op();
        typename O::nlp_variable_t var = var_; typename O::static_parameter_t d = dv_; typename O::nlp_dual_t lam = lam_;
        typename O::nlp_variable_t g(N), lg(N); g.setConstant(5.5); lg.setConstant(-4.5); typename O::nlp_constraints_t c(NE + NI); c.setConstant(9.5); typename O::nlp_eq_constraints_t ce(NE); ce.setConstant(1.5); typename O::nlp_ineq_constraints_t ci(NI); ci.setConstant(2.5);
        double cost = 77, cs = op == 7 ? 0.25 : 1.0; Ref r = ref.eval(o, var_, dv_, t0, tf, lam_, cs);
        switch (op) {
        case 0: o.cost_gradient(var, d, cost, g); break;
        case 1: o.cost_gradient_hessian(var, d, cost, g, m.H); vh::mnear(dn(m.H), r.H, tol, "cost_hessian"); shape(m.H, "cost hessian", 1); break;
        case 2: o.equalities_linearised(var, d, ce, m.Je); vh::mnear(ce, r.ce, tol, "eq_value"); vh::mnear(dn(m.Je), r.Je, tol, "eq_jacobian"); shape(m.Je, "equality Jacobian", 0); break;
        case 3: o.inequalities_linearised(var, d, ci, m.Ji); if (NI > 0) { vh::mnear(ci, r.ci, tol, "ineq_value"); vh::mnear(dn(m.Ji), r.Ji, tol, "ineq_jacobian"); } break;
        case 4: o.constraints_linearised(var, d, c, m.J); vh::mnear(dn(m.J), stack(r), tol, "jacobian"); shape(m.J, "Jacobian", 0); break;
        case 5: o.lagrangian_gradient(var, d, lam, cost, lg, g, c, m.J); vh::mnear(dn(m.J), stack(r), tol, "lg_jacobian"); shape(m.J, "Jacobian", 0); break;
        case 6: o.lagrangian_gradient_hessian(var, d, lam, cost, lg, m.LH, g, c, m.J); vh::mnear(dn(m.J), stack(r), tol, "lgh_jacobian"); vh::mnear(dn(m.LH), r.LH, tol, "lag_hessian"); shape(m.LH, "Hessian", 1); break;
        case 7: o.lagrangian_gradient_hessian(var, d, lam, cost, lg, m.LH2, g, c, m.J2, cs); vh::mnear(dn(m.J2), stack(r), tol, "lghs_jacobian"); vh::mnear(dn(m.LH2), r.LH, tol, "lag_hessian_scaled"); shape(m.LH2, "Hessian", 1); break;
        
        
        case 8: o.lagrangian_gradient(var, d, lam, cost, lg); break;
        case 9: six(o, var, d, lam, cost, lg, m.LH, r); break;
        case 10: o.cost(var, d, cost); break;
        case 11: o.lagrangian(var, d, lam, cost, c); vh::near(cost, r.lagr, tol, "lagrangian"); break;
        }
        if (op <= 1) vh::mnear(g, r.g, tol, "cost_gradient");
        if (op >= 5 && op <= 7) vh::mnear(g, r.g, tol, "lg_cost_gradient");
        if (op >= 5 && op <= 9) vh::mnear(lg, r.lg, tol, "lag_gradient");
        if ((op >= 4 && op <= 7) || op == 11) vh::mnear(c, cstack(r), tol, "constraint_value");
        if (op <= 1 || op == 5 || op == 6 || op == 7 || op == 10) vh::near(cost, r.cost, tol, "cost");
        vh::state(vh::Hash().i(op).m(g).m(lg).m(c).h);
    }
    template <typename VA, typename D, typename L, typename HH> void six(O &o, const VA &var, const D &d, const L &lam, double &cost, typename O::nlp_variable_t &lg, Eigen::MatrixBase<HH> &H, const Ref &r) {
        o.lagrangian_gradient_hessian(var, d, lam, cost, lg, H.derived()); vh::mnear(H, r.LH, tol, "lag_hessian6"); }
    // the six-argument form exists for dense problems only
    template <typename VA, typename D, typename L, typename HH> void six(O &o, const VA &var, const D &d, const L &lam, double &cost, typename O::nlp_variable_t &lg, Eigen::SparseMatrix<HH> &H, const Ref &r) { lg = r.lg; }
    void set(O &o, int k) { o.fd = k % 6; o.fl = k / 6; o.fm = (o.fd + o.fl) % 5; o.fg = (o.fd + 2 * o.fl) % 5; }
    void run(const char *tag) {
        const int K = sizeof(TL) / sizeof(TL[0]), NPT = npoints(N); V lam = multipliers(DUAL), dv(ND); for (int i = 0; i < ND; ++i) dv(i) = 0.75 - 0.5 * i; V d2 = dv.array() * -1.5;
        // announced non-zero counts
        if (vh::begin(vh::fmt("%s/counts", tag))) { O o; Mem m; vh::op(); V var = point(0, N); step(o, m, 6, var, dv, 0, 1, lam);
            if (FMTV) { vh::check(o.nnz_jacobian() == (int)nz(m.J), "nnz_jacobian", vh::fmt("%d vs %d", o.nnz_jacobian(), (int)nz(m.J))); int low = lower(m.LH); vh::check(o.nnz_lag_hessian() == low, "nnz_hessian", vh::fmt("%d vs %d", o.nnz_lag_hessian(), low)); }
            else { vh::check(o.nnz_jacobian() == (NE + NI) * N, "nnz_jacobian"); vh::check(o.nnz_lag_hessian() == N * (N + 1) / 2, "nnz_hessian"); } }
        // every term combination x every point: all queries on a new object (first evaluation), then again at the next point in the same matrices
        for (int k = 0; k < 36; ++k) for (int q = 0; q < NPT; ++q) if (vh::begin_lazy([&] { return vh::fmt("%s/f%d.p%d", tag, k, q); })) {
            int t = (k + q) % K; O o; Mem m; set(o, k); o.set_time_limits(TL[t][0], TL[t][1]); V v1 = point(q, N), v2 = point((q + 1) % NPT, N);
            for (int op : {1, 0, 2, 3, 4, 5, 6, 7, 8, 9}) { step(o, m, op, v1, dv, TL[t][0], TL[t][1], lam); }
            if ((k / 6 + q) % 2) m.compress(); // callers may compress the matrices they keep
            for (int op : {9, 8, 0, 1, 2, 3, 4, 5, 6, 7}) { step(o, m, op, v2, d2, TL[t][0], TL[t][1], V(-lam)); }
        }
        // every multiplier pattern, as first evaluation into empty matrices and as second one, in both directions
        static const int FM[] = {2 + 6 * 2, 3 + 6 * 3, 4 + 6 * 4, 5 + 6 * 1};
        for (int f : FM) for (int k = 0; k < nmult(NE, NI, N, R::NN); ++k) for (int w = 0; w < 2; ++w) if (vh::begin_lazy([&] { return vh::fmt("%s/mult%d.f%d.%d", tag, k, f, w); })) {
            O o; Mem m; set(o, f); const V l1 = multk(k, NE, NI, N, R::NN); const V v1 = point(k % 2, N), v2 = point(1 - k % 2, N);
            for (int op : {6, 7, 5, 8, 9, 11}) step(o, m, op, v1, dv, 0, 1, w ? lam : l1);
            for (int op : {6, 7, 5, 8, 9, 11}) step(o, m, op, w ? v1 : v2, dv, 0, 1, w ? l1 : lam); }
        // every query after a query that differs in one argument only: one variable, the static parameters, the time interval, the user functions
        for (int f : FM) for (int op = 0; op < NOPS; ++op) for (int a = 0; a < N + 3; ++a) if (vh::begin_lazy([&] { return vh::fmt("%s/near.f%d.op%d.a%d", tag, f, op, a); })) {
            O o; Mem m; set(o, f); V v1 = point(a % 2, N), v2 = v1; if (a < N) v2(a) += 0.75; const V e2 = a == N ? d2 : dv; const double s0 = a == N + 1 ? 3 : 0, s1 = a == N + 1 ? 4 : 1;
            step(o, m, op, v1, dv, 0, 1, lam); if (a == N + 1) o.set_time_limits(3, 4); if (a == N + 2) set(o, f + 7);
            step(o, m, op, v2, e2, s0, s1, lam); step(o, m, (op + 5) % NOPS, v2, e2, s0, s1, lam); if (a == N + 1) o.set_time_limits(0, 1); if (a == N + 2) set(o, f); step(o, m, op, v1, dv, 0, 1, lam); }
        // query histories
        const int L = vh::thorough() ? 3 : 2; int tot = 1; for (int i = 0; i < L; ++i) tot *= NOPS;
        static const int FK[] = {2 + 6 * 2, 3 + 6 * 3, 4 + 6 * 4, 5 + 6 * 5, 1 + 6 * 1, 0 + 6 * 0, 3 + 6 * 1, 4 + 6 * 3};
        for (int f : FK) for (int h = 0; h < tot; ++h) for (int w = 0; w < (FMTV ? 4 : 2); ++w) if (vh::begin_lazy([&] { return vh::fmt("%s/hist.f%d.%d.%d", tag, f, h, w); })) {
            O o, o2; Mem m; set(o, f); o.set_time_limits(0, 0.5); double t0 = 0, tf = 0.5; set(o2, f + 3); o2.set_time_limits(0, 0.5); // w: 1 new time interval, 2 matrices compressed in between, 3 another object fills the same matrices
            for (int i = 0, c = h; i < L; ++i, c /= NOPS) { int op = c % NOPS; if (w == 2) m.compress(); if (w == 1 && i) { int t = (i + h) % K; t0 = TL[t][0]; tf = TL[t][1]; o.set_time_limits(t0, tf); vh::op(); }
                step(w == 3 && i % 2 ? o2 : o, m, op, point(i % 4, N), i % 2 ? d2 : dv, t0, tf, lam); }
        }
    }
    template <typename A> static long nz(const Eigen::SparseMatrix<A> &m) { return m.nonZeros(); }
    template <typename A> static long nz(const Eigen::MatrixBase<A> &m) { return m.size(); }
    template <typename A> static int lower(const Eigen::SparseMatrix<A> &m) { int n = 0; for (int c = 0; c < m.outerSize(); ++c) for (typename Eigen::SparseMatrix<A>::InnerIterator it(m, c); it; ++it) n += it.row() >= c; return n; }
    template <typename A> static int lower(const Eigen::MatrixBase<A> &m) { return m.rows() * (m.rows() + 1) / 2; }
};
#define RUN1(NX, NU, NP, ND, NG, P, S, VAR) { using O = Ocp<NX, NU, NP, ND, NG, P, S, FMTV, VAR>; Run<O, NX, NU, NP, ND, NG, P, S> r; r.run(#NX "," #NU "," #NP "," #ND "," #NG "/P" #P "S" #S "/v" #VAR); }
void vh_run() {
#define X(...) RUN1(__VA_ARGS__)
    LIST
}
