// Small QP alphabets, brute-force active-set oracle and adapters to the real solvers (C01-C05).
#pragma once
#include "common.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/SparseLU>
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"

namespace qpx {
using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd;
constexpr double INF = std::numeric_limits<double>::infinity();

struct QP { Mat H, A; Vec h, al, au, xl, xu; std::string id; };

// ---------------------------------------------------------------- alphabets
struct Bnd { double l, u; const char *n; };
inline const std::vector<Bnd> &row_bnds() { static std::vector<Bnd> b = {
    {-INF, INF, "F"}, {.5, .5, "E"}, {-1, 1, "B"}, {-INF, -.5, "U"}, {.25, INF, "L"}, {-1e20, 1e20, "f"}}; return b; }
inline const std::vector<Bnd> &box_bnds() { static std::vector<Bnd> b = {
    {-INF, INF, "F"}, {-1, 1, "B"}, {0, INF, "L"}, {.5, .5, "E"}, {-INF, -.5, "U"}, {-1e20, 1e20, "f"}}; return b; }
inline std::vector<Mat> hessians(int n, int lvl) {
    std::vector<Mat> r; Mat M = Mat::Identity(n, n);
    r.push_back(M);
    if (n == 1) { r.push_back(M * 4); r.push_back(M * 0); if (lvl) r.push_back(M * .1); return r; }
    if (n == 2) {
        M << 2, 1, 1, 2; r.push_back(M);
        M << 1, 0, 0, 0; r.push_back(M);
        M << 1, -.75, -.75, 1; r.push_back(M);
        M << 0, 0, 0, 0; r.push_back(M);
        if (lvl) { M << 4, 0, 0, .25; r.push_back(M); M << 1, 1, 1, 1; r.push_back(M); M << 100, 1, 1, .5; r.push_back(M); }
        return r;
    }
    M << 2, 1, 0, 1, 2, -1, 0, -1, 3; r.push_back(M);
    M << 1, 0, 0, 0, 0, 0, 0, 0, 2; r.push_back(M);
    if (lvl) { M << 4, -1, 1, -1, 1, 0, 1, 0, 2; r.push_back(M); }
    return r;
}
inline std::vector<Vec> hvecs(int n, int lvl) {
    std::vector<Vec> r; std::vector<double> v = {0, 1, -2};
    int tot = 1; for (int k = 0; k < n; ++k) tot *= 3;
    for (int c = 0; c < tot; ++c) { Vec x(n); int t = c; for (int k = 0; k < n; ++k) { x(k) = v[t % 3]; t /= 3; } if (n < 3 || lvl || c % 5 == 0) r.push_back(x); }
    return r;
}
inline std::vector<Mat> jacs(int n, int m, int lvl) {
    std::vector<Vec> rows; std::vector<Mat> r;
    if (m == 0) { r.push_back(Mat(0, n)); return r; }
    auto add = [&](std::initializer_list<double> l) { Vec v(n); int k = 0; for (double d : l) if (k < n) v(k++) = d; rows.push_back(v); };
    if (n == 1) { add({1}); add({-2}); add({0}); }
    else if (n == 2) { add({1, 1}); add({1, 0}); add({2, -1}); add({0, 0}); if (lvl) { add({0, 1}); add({-1, -1}); add({1, 3}); } }
    else { add({1, 1, 1}); add({1, -1, 0}); add({0, 2, 1}); if (lvl) { add({0, 0, 1}); } }
    if (m == 1) { for (auto &v : rows) r.push_back(v.transpose()); return r; }
    for (std::size_t i = 0; i < rows.size(); ++i) for (std::size_t j = 0; j < rows.size(); ++j) {
        if (!lvl && n == 2 && !(i * 4 + j == 1 || i * 4 + j == 0 || i * 4 + j == 6 || i * 4 + j == 12 || i * 4 + j == 2 || i * 4 + j == 7)) continue;
        Mat A(2, n); A.row(0) = rows[i].transpose(); A.row(1) = rows[j].transpose(); r.push_back(A); }
    return r;
}
inline void combos(const std::vector<Bnd> &b, int k, const std::vector<int> &sel, std::vector<std::vector<int>> &out) {
    out.clear(); out.push_back({});
    for (int i = 0; i < k; ++i) { std::vector<std::vector<int>> n; for (auto &c : out) for (int s : sel) { auto d = c; d.push_back(s); n.push_back(d); } out = n; }
    (void)b;
}
// every QP of the alphabet, in a fixed order; f(const QP&) is called lazily through mk
template <typename F> void each(int n, int m, int lvl, F &&f) {
    auto Hs = hessians(n, lvl); auto hs = hvecs(n, lvl); auto As = jacs(n, m, lvl);
    std::vector<std::vector<int>> rb, bb;
    std::vector<int> rsel = {0, 1, 2, 3, 4}, bsel = {0, 1, 2, 3, 4};
    if (lvl) { rsel.push_back(5); if (n < 3) bsel.push_back(5); }
    if (m == 2 && !lvl) { rsel = {0, 1, 2, 4}; bsel = {0, 1, 2}; }
    if (m == 2 && n == 2 && lvl) { bsel = {0, 1, 2, 3}; }
    if (n == 3) { bsel = lvl ? std::vector<int>{0, 1, 3} : std::vector<int>{0, 1}; rsel = {0, 1, 2, 4}; }
    combos(row_bnds(), m, rsel, rb); combos(box_bnds(), n, bsel, bb);
    for (std::size_t iH = 0; iH < Hs.size(); ++iH) for (std::size_t ih = 0; ih < hs.size(); ++ih) for (std::size_t iA = 0; iA < As.size(); ++iA)
        for (auto &r : rb) for (auto &b : bb) {
            auto mk = [&]() { QP q; q.H = Hs[iH]; q.h = hs[ih]; q.A = As[iA]; q.al.resize(m); q.au.resize(m); q.xl.resize(n); q.xu.resize(n);
                q.id = vh::fmt("n%dm%d H%zu h%zu A%zu ", n, m, iH, ih, iA);
                for (int i = 0; i < m; ++i) { q.al(i) = row_bnds()[r[i]].l; q.au(i) = row_bnds()[r[i]].u; q.id += row_bnds()[r[i]].n; }
                q.id += "/";
                for (int i = 0; i < n; ++i) { q.xl(i) = box_bnds()[b[i]].l; q.xu(i) = box_bnds()[b[i]].u; q.id += box_bnds()[b[i]].n; }
                return q; };
            f(mk);
        }
}
// unusual magnitudes: near-equality rows, half-infinite bounds written as 1e20, wide finite bounds, large and tiny coefficients
inline const std::vector<Bnd> &odd_bnds() { static std::vector<Bnd> b = {
    {-INF, INF, "F"}, {.5, .50005, "n"}, {-1e20, -.5, "u"}, {.25, 1e20, "l"}, {-1e9, 2, "w"}, {100, 200, "h"}, {-1e-3, 1e-3, "t"}, {-300, -300, "e"}, {-3, 1e9, "v"}}; return b; }
template <typename F> void each_odd(int n, int m, bool convex, F &&f) {
    if (n > 2) return;
    std::vector<Mat> Hs, As; std::vector<Vec> hs;
    if (n == 1) { for (double a : {1., 1000., .01}) Hs.push_back(Mat::Constant(1, 1, a)); for (double a : {0., 1000., -2e-3}) hs.push_back(Vec::Constant(1, a)); for (double a : {1., 100., -.25}) As.push_back(Mat::Constant(1, 1, a)); if (m == 0) As = {Mat(0, 1)}; if (m > 1) return; }
    else { Mat M(2, 2); M << 1, 0, 0, 1; Hs.push_back(M); M << 100, 1, 1, .5; Hs.push_back(M); if (!convex) { M << 1e3, 0, 0, 1e-2; Hs.push_back(M); M << 1, 1, 1, 1; Hs.push_back(M); }
        for (auto v : {std::make_pair(0., 0.), std::make_pair(1000., -3.), std::make_pair(1., -2e-3), std::make_pair(-40., 700.)}) hs.push_back((Vec(2) << v.first, v.second).finished());
        Mat A(1, 2); if (m == 0) As = {Mat(0, 2)}; else if (m == 1) { A << 1, 1; As.push_back(A); A << 100, -.01; As.push_back(A); A << -3, 50; As.push_back(A); } else { M << 1, 1, 100, -.01; As.push_back(M); } }
    std::vector<int> rsel = {0, 1, 2, 3, 4, 5, 6, 7, 8}, bsel = rsel; if (n == 2 && m == 1) bsel = {0, 1, 3, 4, 6}; if (m == 2) { rsel = {1, 2, 4, 6}; bsel = {0, 3, 8}; }
    std::vector<std::vector<int>> rb, bb; combos(odd_bnds(), m, rsel, rb); combos(odd_bnds(), n, bsel, bb);
    for (std::size_t iH = 0; iH < Hs.size(); ++iH) for (std::size_t ih = 0; ih < hs.size(); ++ih) for (std::size_t iA = 0; iA < As.size(); ++iA) for (auto &r : rb) for (auto &b : bb) {
        auto mk = [&]() { QP q; q.H = Hs[iH]; q.h = hs[ih]; q.A = As[iA]; q.al.resize(m); q.au.resize(m); q.xl.resize(n); q.xu.resize(n); q.id = vh::fmt("odd n%dm%d H%zu h%zu A%zu ", n, m, iH, ih, iA);
            for (int i = 0; i < m; ++i) { q.al(i) = odd_bnds()[r[i]].l; q.au(i) = odd_bnds()[r[i]].u; q.id += odd_bnds()[r[i]].n; } q.id += "/";
            for (int i = 0; i < n; ++i) { q.xl(i) = odd_bnds()[b[i]].l; q.xu(i) = odd_bnds()[b[i]].u; q.id += odd_bnds()[b[i]].n; } return q; };
        f(mk); }
}
inline bool strictly_convex(const Mat &H) { return Eigen::SelfAdjointEigenSolver<Mat>(H).eigenvalues()(0) > 1e-6; }

// ---------------------------------------------------------------- oracle: enumeration of all active sets
struct Opt { bool feasible = false, bounded = true; bool unique = false; Vec x; double f = INF; };
inline double fval(const QP &q, const Vec &x) { return .5 * x.dot(q.H * x) + q.h.dot(x); }
inline double viol(const QP &q, const Vec &x) {
    double v = 0; Vec a = q.A * x;
    for (int i = 0; i < a.size(); ++i) v = std::max(v, std::max(q.al(i) - a(i), a(i) - q.au(i)));
    for (int i = 0; i < x.size(); ++i) v = std::max(v, std::max(q.xl(i) - x(i), x(i) - q.xu(i)));
    return v;
}
inline void active_set_min(const QP &q, Vec &xb, double &fb) {
    const int n = q.h.size(), m = q.al.size(), t = n + m;
    Mat G(t, n); G.topRows(m) = q.A; G.bottomRows(n) = Mat::Identity(n, n);
    Vec l(t), u(t); l << q.al, q.xl; u << q.au, q.xu;
    std::vector<int> c(t, 0), o(t);   // 0 inactive, 1 lower, 2 upper
    auto fin = [](double v) { return std::abs(v) < 1e10; };
    fb = INF;
    while (true) {
        bool ok = true; int na = 0;
        for (int i = 0; i < t; ++i) {
            bool eq = (l(i) == u(i));
            if (eq && c[i] != 1) ok = false;
            if (c[i] == 1 && !fin(l(i))) ok = false;
            if (c[i] == 2 && !fin(u(i))) ok = false;
            if (c[i]) na++;
        }
        if (ok) {
            Mat K = Mat::Zero(n + na, n + na); Vec r(n + na); K.topLeftCorner(n, n) = q.H; r.head(n) = -q.h;
            int k = n;
            for (int i = 0; i < t; ++i) if (c[i]) { K.row(k).head(n) = G.row(i); K.col(k).head(n) = G.row(i).transpose(); r(k) = c[i] == 1 ? l(i) : u(i); ++k; }
            Vec s = K.completeOrthogonalDecomposition().solve(r);
            if ((K * s - r).cwiseAbs().maxCoeff() < 1e-8 * (1 + r.cwiseAbs().maxCoeff())) {
                Vec x = s.head(n);
                if (viol(q, x) < 1e-8 * (1 + x.cwiseAbs().maxCoeff() * (1 + (m ? q.A.cwiseAbs().maxCoeff() : 0)) * 0.1)) { double f = fval(q, x); if (f < fb) { fb = f; xb = x; } }
            }
        }
        int i = 0; while (i < t && ++c[i] == 3) c[i++] = 0;
        if (i == t) break;
    }
}
inline Opt solve_ref(const QP &q) {
    Opt o; const int n = q.h.size();
    QP f = q; f.H = Mat::Identity(n, n); f.h = Vec::Zero(n);
    Vec x; double fb; active_set_min(f, x, fb);
    o.feasible = fb < INF;
    if (!o.feasible) return o;
    o.unique = strictly_convex(q.H);
    if (!o.unique) {   // direction of recession along which the cost decreases
        QP d; d.H = Mat::Zero(n, n); d.h = q.h; int m = q.al.size();
        d.A.resize(m + n, n); d.A.topRows(m) = q.A; d.A.bottomRows(n) = q.H;
        d.al.resize(m + n); d.au.resize(m + n); d.xl.resize(n); d.xu.resize(n);
        auto fin = [](double v) { return std::abs(v) < 1e10; };
        for (int i = 0; i < m; ++i) { d.al(i) = fin(q.al(i)) ? 0 : -INF; d.au(i) = fin(q.au(i)) ? 0 : INF; }
        for (int i = 0; i < n; ++i) { d.al(m + i) = d.au(m + i) = 0; d.xl(i) = fin(q.xl(i)) ? 0 : -1; d.xu(i) = fin(q.xu(i)) ? 0 : 1; }
        active_set_min(d, x, fb);
        if (fb < -1e-9) { o.bounded = false; return o; }
    }
    active_set_min(q, o.x, o.f);
    return o;
}

// ---------------------------------------------------------------- linear solver back ends
template <typename M, int UpLo, typename...> struct DenseLU : Eigen::PartialPivLU<M> {   // full matrix back end
    using B = Eigen::PartialPivLU<M>;
    DenseLU() : B(M::RowsAtCompileTime == Eigen::Dynamic ? 1 : M::RowsAtCompileTime) {}
    template <typename X> DenseLU &compute(const X &m) { B::compute(m); return *this; }
    Eigen::ComputationInfo info() const { return Eigen::Success; }
};
template <typename M, int UpLo, typename...> struct SparseLUx : Eigen::SparseLU<M> {};

#if defined(BACKEND_LU)
#define UPLO (Eigen::Upper | Eigen::Lower)
template <typename M, int U, typename... A> using DLin = DenseLU<M, U, A...>;
template <typename M, int U, typename... A> using SLin = SparseLUx<M, U, A...>;
#else
#define UPLO Eigen::Lower
template <typename M, int U, typename... A> using DLin = Eigen::LDLT<M, U>;
template <typename M, int U, typename... A> using SLin = Eigen::SimplicialLDLT<M, U>;
#endif
#ifndef SCALAR
#define SCALAR double
#endif
#ifndef FMT
#define FMT DENSE
#endif
using S = SCALAR;
template <int F> struct Lin;
#ifdef BOX
#define QPS boxADMM
#else
#define QPS ADMM
#endif
#if defined(DEFAULT_BACKEND)
template <int N, int M, int F> struct Sel { using type = QPS<N, M, S, F, linear_solver_traits<F>::template default_solver>; };
#else
template <int N, int M, int F> struct Sel;
template <int N, int M> struct Sel<N, M, DENSE> { using type = QPS<N, M, S, DENSE, DLin, UPLO>; };
template <int N, int M> struct Sel<N, M, SPARSE> { using type = QPS<N, M, S, SPARSE, SLin, UPLO>; };
#endif

enum Pat { P_FULL = 0, P_TRUE = 1 };           // structural pattern of the sparse input
using SpM = Eigen::SparseMatrix<S>;
inline SpM to_sparse(const Mat &M, int pat, bool compressed, const Mat *mask = nullptr) {
    SpM s(M.rows(), M.cols());
    s.reserve(Eigen::VectorXi::Constant(M.cols(), (int)M.rows() + 1));
    for (int j = 0; j < M.cols(); ++j) for (int i = 0; i < M.rows(); ++i)
        if (pat == P_FULL || (mask ? (*mask)(i, j) != 0 : M(i, j) != 0)) s.insert(i, j) = S(M(i, j));
    if (compressed) s.makeCompressed(); else s.uncompress();
    return s;
}
template <int N, int M> struct Run {
    using Solver = typename Sel<N, M, FMT>::type;
    using hv = typename Solver::qp_var_t; using av = typename Solver::qp_dual_a_t; using dv = typename Solver::qp_dual_t;
    template <int F> static typename std::enable_if<F == DENSE, typename Solver::qp_hessian_t>::type H(const Mat &m, int, bool, const Mat * = nullptr) { return m.template cast<S>(); }
    template <int F> static typename std::enable_if<F == SPARSE, SpM>::type H(const Mat &m, int p, bool c, const Mat *k = nullptr) { return to_sparse(m, p, c, k); }
    template <int F> static typename std::enable_if<F == DENSE, typename Solver::qp_constraint_t>::type A(const Mat &m, int, bool, const Mat * = nullptr) { return m.template cast<S>(); }
    template <int F> static typename std::enable_if<F == SPARSE, SpM>::type A(const Mat &m, int p, bool c, const Mat *k = nullptr) { return to_sparse(m, p, c, k); }
    static status_t solve(Solver &s, const QP &q, int pat = P_TRUE, bool comp = true, const Vec *xg = nullptr, const Vec *yg = nullptr, const Mat *mH = nullptr, const Mat *mA = nullptr) {
        auto h = hv(q.h.template cast<S>()); auto xl = hv(q.xl.template cast<S>()); auto xu = hv(q.xu.template cast<S>());
        auto al = av(q.al.template cast<S>()); auto au = av(q.au.template cast<S>());
        auto Hm = H<FMT>(q.H, pat, comp, mH); auto Am = A<FMT>(q.A, pat, comp, mA);
        vh::op();
        if (xg) { hv x0(xg->template cast<S>()); dv y0(yg->template cast<S>()); return s.solve(Hm, h, Am, al, au, xl, xu, x0, y0); }
        return s.solve(Hm, h, Am, al, au, xl, xu);
    }
    static Vec x(const Solver &s) { return s.primal_solution().template cast<double>(); }
    static Vec y(const Solver &s) { return s.dual_solution().template cast<double>(); }
};
inline double ninf(const Vec &v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0; }
inline double n1(const Vec &v) { return v.size() ? v.cwiseAbs().sum() : 0; }

// Textbook operator-splitting iteration (Stellato et al.) with step-size adaptation, on the stacked constraint [A; I].
// Used only to tell whether adaptation itself cycles on a given QP (a property of the method, not of the code).
inline bool textbook_converges(const QP &q, double eps, double alpha, double rho0, double sigma, int ct, int ival, double atol, int max_iter, bool sum_norm) {
    const int n = q.h.size(), m = q.al.size(), t = n + m;
    Mat G(t, n); G << q.A, Mat::Identity(n, n);
    Vec l(t), u(t); l << q.al, q.xl; u << q.au, q.xu;
    Vec R(t); auto setr = [&](double r) { for (int i = 0; i < t; ++i) R(i) = (l(i) < -1e10 && u(i) > 1e10) ? 1e-6 : (u(i) - l(i) < 1e-4 ? 1e3 * r : r); };
    double rho = rho0; setr(rho);
    Mat K(n + t, n + t); Eigen::PartialPivLU<Mat> lu;
    auto fac = [&]() { K.setZero(); K.topLeftCorner(n, n) = q.H + sigma * Mat::Identity(n, n); K.topRightCorner(n, t) = G.transpose(); K.bottomLeftCorner(t, n) = G; K.bottomRightCorner(t, t).diagonal() = -R.cwiseInverse(); lu.compute(K); };
    fac();
    Vec x = Vec::Zero(n), y = Vec::Zero(t), z = Vec::Zero(t), b(n + t);
    for (int k = 1; k <= max_iter; ++k) {
        b << sigma * x - q.h, z - y.cwiseQuotient(R);
        Vec s = lu.solve(b); Vec xt = s.head(n), zt = z + (s.tail(t) - y).cwiseQuotient(R);
        x = alpha * xt + (1 - alpha) * x;
        Vec w = alpha * zt + (1 - alpha) * z; Vec zn = (w + y.cwiseQuotient(R)).cwiseMax(l).cwiseMin(u);
        y += R.cwiseProduct(w - zn); z = zn;
        bool chk = k % ct == 0, ad = k % ival == 0;
        if (!chk && !ad) continue;
        Vec e = G * x - z, Ax = q.A * x, ATy = q.A.transpose() * y.head(m), Hx = q.H * x;
        auto inf = [](const Vec &v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.; };
        double ra = inf(e.head(m)), rb = inf(e.tail(n)), rp = sum_norm ? ra + rb : std::max(ra, rb);
        double rd = inf(Hx + q.h + G.transpose() * y);
        double ps = std::max(std::max(inf(Ax), inf(sum_norm ? Vec(z.head(m)) : z)), inf(x)), ds = std::max(std::max(inf(Hx), inf(ATy)), std::max(inf(q.h), inf(y.tail(n))));
        if (chk && rp <= eps + eps * ps && rd <= eps + eps * ds) return true;
        if (!ad) continue;
        double nr = rho * std::sqrt(rp / (ps + 1e-9) / (rd / (ds + 1e-9) + 1e-9)); nr = std::max(1e-6, std::min(nr, 1e6));
        if (nr < rho / atol || nr > rho * atol) { rho = nr; setr(rho); fac(); }
    }
    return false;
}
// Approximate KKT conditions that a SOLVED answer has to satisfy (independent recomputation)
template <typename Info> void check_solved(const QP &q, const Vec &x, const Vec &y, const Info &info, double eps_abs, double eps_rel, const Opt *ref) {
    const int n = q.h.size(), m = q.al.size(); const bool flt = sizeof(S) == 4;
    const double rnd = flt ? 1e-4 : 1e-9;
    bool fin = vh::finite(x) && vh::finite(y);
    vh::check(fin, "finite", "SOLVED with a non-finite primal or dual");
    if (!fin) return;
    double rp = info.res_prim, rd = info.res_dual;
    Vec Ax = q.A * x; double sc = std::max(ninf(Ax), ninf(x));
    Vec ATy = q.A.transpose() * y.head(m); Vec Hx = q.H * x; Vec yb = y.tail(n);
    double dsc = std::max(std::max(ninf(Hx), ninf(ATy)), std::max(ninf(q.h), ninf(yb)));
    double v = viol(q, x);
    Vec r = Hx + q.h + ATy + yb;
    vh::check(rp <= (eps_abs + eps_rel * (sc + rp)) * (1 + rnd) + rnd, "primal_tolerance", vh::fmt("reported primal residual %g above tolerance (scale %g)", rp, sc));
    vh::check(v <= rp + rnd * (1 + sc), "primal_residual", vh::fmt("constraint violation %g, reported primal residual %g", v, rp));
    vh::check(v <= (eps_abs + eps_rel * (sc + rp)) + rnd * (1 + sc), "feasible", vh::fmt("SOLVED but constraint violation %g x=%s", v, vh::vec(x).c_str()));
    vh::check(std::abs(ninf(r) - rd) <= rnd * (1 + dsc), "dual_residual", vh::fmt("stationarity residual %g, reported %g (x=%s y=%s)", ninf(r), rd, vh::vec(x).c_str(), vh::vec(y).c_str()));
    vh::check(ninf(r) <= eps_abs + eps_rel * dsc + rnd * (1 + dsc), "stationary", vh::fmt("SOLVED but stationarity residual %g (tol %g) x=%s y=%s", ninf(r), eps_abs + eps_rel * dsc, vh::vec(x).c_str(), vh::vec(y).c_str()));
    Vec g(n + m), l(n + m), u(n + m); g << Ax, x; l << q.al, q.xl; u << q.au, q.xu;
    const double thr = (flt ? 2e-2 : 2e-6) * (1 + sc + dsc), slack = rp + rnd * (1 + sc);
    for (int i = 0; i < n + m; ++i) {
        if (y(i) > thr) vh::check(g(i) >= u(i) - slack, "complementarity", vh::fmt("multiplier %d is %g but constraint value %g is below its upper bound %g", i, y(i), g(i), u(i)));
        if (y(i) < -thr) vh::check(g(i) <= l(i) + slack, "complementarity", vh::fmt("multiplier %d is %g but constraint value %g is above its lower bound %g", i, y(i), g(i), l(i)));
    }
    if (ref && ref->feasible && ref->bounded) {
        double gap = ninf(r) * n1(x - ref->x) + n1(y) * slack + thr * n1(g - (Vec(n + m) << q.A * ref->x, ref->x).finished()) + rnd * (1 + std::abs(ref->f));
        vh::check(fval(q, x) <= ref->f + gap, "objective", vh::fmt("objective %.9g, optimum %.9g, admissible gap %g", fval(q, x), ref->f, gap));
    }
}
} // namespace qpx
