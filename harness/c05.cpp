// C05: Ruiz equilibration over badly scaled, zero and structurally empty data and all call histories up to a depth.
#include "qp_common.hpp"
#include "solvers/qp_preconditioners.hpp"
using namespace qpx;
struct Data { Mat H, A; Vec h, al, au, l, u; };
template <int F> struct Mx;
template <> struct Mx<DENSE> { using type = Eigen::MatrixXd; };
#ifdef IDENT
template <int N, int M> using Prec = polympc::IdentityPreconditioner;
#else
template <int N, int M> using Prec = polympc::RuizEquilibration<S, N, M, FMT>;
#endif
template <int N, int M> struct P {   // problem data in the storage the preconditioner works on
    using HM = typename std::conditional<FMT == SPARSE, SpM, Eigen::Matrix<S, N, N>>::type;
    using AM = typename std::conditional<FMT == SPARSE, SpM, Eigen::Matrix<S, M, N>>::type;
    HM H; AM A; Eigen::Matrix<S, N, 1> h, l, u; Eigen::Matrix<S, M, 1> al, au;
    template <int F = FMT> typename std::enable_if<F == SPARSE>::type set(const Data &d, int pat, bool c) { H = to_sparse(d.H, pat, c); A = to_sparse(d.A, pat, c); vec(d); }
    template <int F = FMT> typename std::enable_if<F == DENSE>::type set(const Data &d, int, bool) { H = d.H.cast<S>(); A = d.A.cast<S>(); vec(d); }
    void vec(const Data &d) { h = d.h.cast<S>(); l = d.l.cast<S>(); u = d.u.cast<S>(); al = d.al.cast<S>(); au = d.au.cast<S>(); }
    Data get() const { Data d; d.H = Mat(dm(H)); d.A = Mat(dm(A)); d.h = h.template cast<double>(); d.l = l.template cast<double>(); d.u = u.template cast<double>(); d.al = al.template cast<double>(); d.au = au.template cast<double>(); return d; }
    template <int F = FMT> static Mat dm(const typename std::enable_if<F == SPARSE, SpM>::type &m) { return Mat(m); }
    template <int F = FMT, typename X> static typename std::enable_if<F == DENSE, Mat>::type dm(const X &m) { return m.template cast<double>(); }
};
static bool eqm(const Mat &a, const Mat &b, double rel) {
    for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) {
        double x = a(i, j), y = b(i, j);
        if (std::isnan(x)) return false;
        if (std::isinf(x) || std::isinf(y)) { if (x != y) return false; continue; }
        if (std::abs(x - y) > rel * std::max(std::abs(x), std::abs(y))) return false;
    }
    return true;
}
static std::string df(const Data &a, const Data &b, double rel) {
    if (!eqm(a.H, b.H, rel)) return "H " + vh::vec(Eigen::Map<const Vec>(a.H.data(), a.H.size())) + " vs " + vh::vec(Eigen::Map<const Vec>(b.H.data(), b.H.size()));
    if (!eqm(a.A, b.A, rel)) return "A " + vh::vec(Eigen::Map<const Vec>(a.A.data(), a.A.size())) + " vs " + vh::vec(Eigen::Map<const Vec>(b.A.data(), b.A.size()));
    if (!eqm(a.h, b.h, rel)) return "h " + vh::vec(a.h) + " vs " + vh::vec(b.h);
    if (!eqm(a.al, b.al, rel)) return "Al " + vh::vec(a.al) + " vs " + vh::vec(b.al);
    if (!eqm(a.au, b.au, rel)) return "Au " + vh::vec(a.au) + " vs " + vh::vec(b.au);
    if (!eqm(a.l, b.l, rel)) return "l " + vh::vec(a.l) + " vs " + vh::vec(b.l);
    if (!eqm(a.u, b.u, rel)) return "u " + vh::vec(a.u) + " vs " + vh::vec(b.u);
    return "";
}
static Vec nz(int n, double a) { Vec v(n); for (int k = 0; k < n; ++k) v(k) = (k % 2 ? -1 : 1) * a * (1 + .6 * k); return v; }
template <int N, int M> void run_dim() {
    const double REL = sizeof(S) == 4 ? 2e-5 : 1e-10;
    std::vector<Mat> Hs; { Mat m = Mat::Identity(N, N); Hs.push_back(m); Hs.push_back(m * 0); m *= 1e-6; Hs.push_back(m); m = Mat::Identity(N, N) * 3; m.row(0).setConstant(1); m.col(0).setConstant(1); m(0, 0) = 1e4; Hs.push_back(m);
        m = Mat::Identity(N, N); m(N - 1, N - 1) = 0; Hs.push_back(m); m(0, 0) = 1e5; m(N - 1, N - 1) = 1e-7; Hs.push_back(m); m = Mat::Constant(N, N, -.5); m.diagonal().setConstant(2); Hs.push_back(m); }
    std::vector<Vec> hs; { Vec v = Vec::Zero(N); hs.push_back(v); v(0) = 1; v(N - 1) = -2; hs.push_back(v); v(0) = 1e5; v(N - 1) = 1e-3; hs.push_back(v); v.setConstant(1e-9); hs.push_back(v); }
    std::vector<Mat> As; { Mat m = Mat::Ones(M, N); As.push_back(m); if (M) { As.push_back(m * 0); m(0, 0) = 1e4; m(M - 1, N - 1) = -1e-3; As.push_back(m); m.setZero(); m(M - 1, N - 1) = 1e-5; As.push_back(m); m.setZero(); m(0, N - 1) = 2; m(M - 1, 0) = -3; As.push_back(m); } }
    std::vector<Data> ds;
    for (auto &H : Hs) for (auto &h : hs) for (auto &A : As) for (int b = 0; b < 2; ++b) {
        Data d; d.H = H; d.h = h; d.A = A; d.al = Vec::LinSpaced(M, -1, -.5); d.au = Vec::LinSpaced(M, 2, .5); d.l = Vec::LinSpaced(N, -3, -1); d.u = Vec::LinSpaced(N, 1, 2);
        if (b) { d.l(0) = -INF; d.u(N - 1) = INF; if (M) d.al(0) = -INF; if (M > 1) { d.al(1) = d.au(1); } }
        ds.push_back(d);
    }
    // operations after compute(d): s/u on the problem, pair scaling, a second problem through the same factors, recompute on another problem
    const char *seqs[] = {"u", "usu", "usussuu", "ssuuu", "xu", "uxsxu", "uq", "uqsqu", "hs", "ucu", "uccsuu", "uscxqu", "qcuqu"};
    for (std::size_t i = 0; i < ds.size(); ++i) for (auto sq : seqs) for (int st = 0; st < (FMT == SPARSE ? 4 : 1); ++st) {
        if (!vh::begin_lazy([&] { return vh::fmt("n%dm%d data%zu ops=%s storage%d", N, M, i, sq, st); })) continue;
        const Data &o = ds[i]; Prec<N, M> pr; P<N, M> p; p.set(o, st & 1, st >> 1);
        Data cur = o;   // what the data has to be once it is unscaled
        int depth = 0;  // number of scalings currently applied
        auto comp = [&]() {
            Data before = p.get();
            pr.compute(p.H, p.h, p.A, p.al, p.au, p.l, p.u); vh::op();
            cur = before; depth = 1;
            Data a = p.get();
            bool fin = vh::finite(Mat(a.H)) && vh::finite(Mat(a.A)) && vh::finite(a.h);
            vh::check(fin, "finite", "scaled data not finite");
#ifndef IDENT
            Vec D = pr.D.template cast<double>(), E = pr.E.template cast<double>(); double c = pr.c();
            vh::check(vh::finite(D) && D.minCoeff() > 0 && (M == 0 || (vh::finite(E) && E.minCoeff() > 0)) && std::isfinite(c) && c > 0, "factors", vh::fmt("D=%s E=%s c=%g", vh::vec(D).c_str(), vh::vec(E).c_str(), c));
#endif
            // any pair that satisfies the original optimality system has to satisfy the scaled one after scaling, and back
            Eigen::Matrix<S, N, 1> x = nz(N, -1.25).cast<S>(); Eigen::Matrix<S, N + M, 1> y = nz(N + M, .75).cast<S>();
            Vec x0 = x.template cast<double>(), y0 = y.template cast<double>();
            Vec r0 = before.H * x0 + before.h + before.A.transpose() * y0.head(M) + y0.tail(N);
            pr.scale(x, y); vh::op();
            Vec xs = x.template cast<double>(), ys = y.template cast<double>();
            // stationarity: row k of the scaled residual is a positive multiple of row k of the original one
            Vec t = a.H * xs + a.h + a.A.transpose() * ys.head(M) + ys.tail(N);
            Mat ab = a.H.cwiseAbs(), aa = a.A.cwiseAbs();
            Vec ms = ab * xs.cwiseAbs() + a.h.cwiseAbs() + aa.transpose() * ys.head(M).cwiseAbs() + ys.tail(N).cwiseAbs();
            Vec m0 = before.H.cwiseAbs() * x0.cwiseAbs() + before.h.cwiseAbs() + before.A.cwiseAbs().transpose() * y0.head(M).cwiseAbs() + y0.tail(N).cwiseAbs();
            for (int k = 0; k < N; ++k) {   // ratio of the row scales must be the ratio of the residuals
                double s = ys(M + k) / y0(M + k);
                vh::check(std::isfinite(s) && s > 0, "pair", vh::fmt("box multiplier %d scaled by %g", k, s));
                vh::check(std::abs(t(k) - s * r0(k)) <= 10 * REL * (ms(k) + s * m0(k)), "stationarity", vh::fmt("row %d: scaled residual %g, expected %g * %g", k, t(k), s, r0(k)));
                double sx = xs(k) / x0(k);
                vh::check(std::abs(s * sx / (ys(M + k) * xs(k) / (y0(M + k) * x0(k))) - 1) < 1e-6, "pair", "inconsistent pair");
                if (std::isfinite(before.l(k))) vh::check(std::abs(a.l(k) - sx * before.l(k)) <= REL * std::abs(a.l(k)), "bounds", vh::fmt("lower bound %d: %g, expected %g", k, a.l(k), sx * before.l(k)));
                if (std::isfinite(before.u(k))) vh::check(std::abs(a.u(k) - sx * before.u(k)) <= REL * std::abs(a.u(k)), "bounds", vh::fmt("upper bound %d: %g, expected %g", k, a.u(k), sx * before.u(k)));
            }
            Vec As = a.A * xs, A0 = before.A * x0, aA = aa * xs.cwiseAbs();
            double cs = N ? (ys(M) / y0(M)) * (xs(0) / x0(0)) : 1;   // cost factor c = D * (c / D)
            for (int k = 0; k < M; ++k) {
                double e = cs / (ys(k) / y0(k));   // E_k
                vh::check(std::isfinite(e) && e > 0, "pair", vh::fmt("multiplier %d scaled by %g", k, ys(k) / y0(k)));
                vh::check(std::abs(As(k) - e * A0(k)) <= 10 * REL * (aA(k) + std::abs(e * A0(k))), "constraint", vh::fmt("row %d of A x: %g, expected %g", k, As(k), e * A0(k)));
                if (std::isfinite(before.al(k))) vh::check(std::abs(a.al(k) - e * before.al(k)) <= 10 * REL * std::abs(a.al(k)), "bounds", vh::fmt("Al(%d)=%g, expected %g", k, a.al(k), e * before.al(k)));
                if (std::isfinite(before.au(k))) vh::check(std::abs(a.au(k) - e * before.au(k)) <= 10 * REL * std::abs(a.au(k)), "bounds", vh::fmt("Au(%d)=%g, expected %g", k, a.au(k), e * before.au(k)));
            }
            pr.unscale(x, y); vh::op();
            vh::check(eqm(x.template cast<double>(), x0, REL) && eqm(y.template cast<double>(), y0, REL), "pair_roundtrip", "unscale(scale(x, y)) differs");
            vh::state(vh::Hash().m(a.H).m(a.A).m(a.h).h);
        };
        comp();
        int nc = 0;
        for (const char *k = sq; *k; ++k) {
            if (*k == 's') { pr.scale(p.H, p.h, p.A, p.al, p.au, p.l, p.u); depth++; vh::op(); }
            if (*k == 'u') { pr.unscale(p.H, p.h, p.A, p.al, p.au, p.l, p.u); depth--; vh::op(); }
            if (*k == 'x') { Eigen::Matrix<S, N, 1> x = Eigen::Matrix<S, N, 1>::LinSpaced(N, -1, 3), x1 = x; Eigen::Matrix<S, N + M, 1> y = Eigen::Matrix<S, N + M, 1>::LinSpaced(N + M, 5, -7), y1 = y;
                pr.unscale(x, y); pr.scale(x, y); vh::op(2); vh::check(eqm(x.template cast<double>(), x1.template cast<double>(), REL) && eqm(y.template cast<double>(), y1.template cast<double>(), REL), "pair_roundtrip", "scale(unscale(x, y)) differs"); }
            if (*k == 'q') { P<N, M> z; const Data &dz = ds[(i * 7 + 13) % ds.size()]; z.set(dz, (st & 1), 1 - (st >> 1)); pr.scale(z.H, z.h, z.A, z.al, z.au, z.l, z.u); pr.unscale(z.H, z.h, z.A, z.al, z.au, z.l, z.u); vh::op(2);
                std::string e = df(z.get(), dz, 10 * REL); vh::check(e.empty(), "roundtrip_other", e); }
            if (*k == 'h') { P<N, M> z = p; pr.unscale_hessian(z.H); vh::op(); vh::check(eqm(z.get().H, cur.H, 10 * REL), "unscale_hessian", "Hessian not restored"); }
            if (*k == 'c') { P<N, M> z; z.set(ds[(i * 5 + 3 + nc) % ds.size()], (st & 1) ^ nc, st >> 1); nc++; p = z; comp(); }
            if (depth == 0) { std::string e = df(p.get(), cur, 20 * REL); vh::check(e.empty(), "roundtrip", vh::fmt("after %ld operations: ", long(k - sq + 1)) + e); }
        }
        vh::note(sq);
    }
}
#if PART == 2
template <int N, int M> void run_solve() {
    // solving the scaled problem and mapping back solves the original one
    each(N, M, 0, [&](auto mk) {
        QP q; if (!vh::begin_lazy([&] { q = mk(); return "solve " + q.id; })) return;
        Vec sc = Vec::Zero(2); sc << 10, .2; q.H = sc.asDiagonal() * q.H * sc.asDiagonal(); q.h = sc.cwiseProduct(q.h); q.A = 5 * q.A * sc.asDiagonal(); q.al *= 5; q.au *= 5;
        for (int k = 0; k < 2; ++k) { q.xl(k) /= sc(k); q.xu(k) /= sc(k); }
        if (!strictly_convex(q.H)) return;
        Opt r = solve_ref(q); if (!r.feasible) return;
        Data d{q.H, q.A, q.h, q.al, q.au, q.xl, q.xu}; Prec<N, M> pr; P<N, M> p; p.set(d, P_TRUE, true);
        pr.compute(p.H, p.h, p.A, p.al, p.au, p.l, p.u);
        typename Run<N, M>::Solver s; s.settings().eps_abs = s.settings().eps_rel = sizeof(S) == 4 ? 1e-4 : 1e-8; s.settings().max_iter = 50000; s.settings().check_termination = 5;
        vh::op(2);
        if (s.solve(p.H, p.h, p.A, p.al, p.au, p.l, p.u) != SOLVED) { vh::note("scaled problem not solved"); return; }
        typename Run<N, M>::hv x = s.primal_solution(); typename Run<N, M>::dv y = s.dual_solution();
        pr.unscale(x, y);
        Vec X = x.template cast<double>(), Y = y.template cast<double>();
        vh::state(vh::Hash().m(X).m(Y).h);
        vh::check(ninf(X - r.x) <= (sizeof(S) == 4 ? .1 : 2e-4) * (1 + ninf(r.x)), "mapped_solution", "x=" + vh::vec(X) + " minimiser " + vh::vec(r.x));
        double st = ninf(q.H * X + q.h + q.A.transpose() * Y.head(M) + Y.tail(N));
        vh::check(st <= (sizeof(S) == 4 ? .5 : 2e-4) * (1 + ninf(Y) + ninf(q.H * X)), "mapped_stationarity", vh::fmt("residual %g with the mapped multipliers", st));
        vh::note("x*=" + vh::vec(r.x));
    });
}
#endif
void vh_run() {
#if PART == 0
    run_dim<1, 1>(); run_dim<2, 1>(); run_dim<2, 2>();
#elif PART == 1
    run_dim<3, 2>(); run_dim<2, 0>(); run_dim<1, 0>(); run_dim<3, 1>();
#else
    run_solve<2, 1>(); run_solve<2, 2>();
#endif
}
