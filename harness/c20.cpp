// C20: equidistant cubic splines and Lagrange interpolation.
#include "common.hpp"
#include "polynomials/splines.hpp"
#include <algorithm>
#include <array>
using namespace polympc;
using Eigen::AutoDiffScalar;

template <typename S> static void cubic(const char *tn) {
    using Sp = EquidistantCubicSpline<S>;
    using M = typename Sp::coeffs_matrix_type;
    const double tol = sizeof(S) == 4 ? 1e-4 : 1e-11;
    using AD1 = AutoDiffScalar<Eigen::Matrix<S, 2, 1>>;
    using AD2 = AutoDiffScalar<Eigen::Matrix<AD1, 2, 1>>;
    for (int segs = 1; segs <= 5; ++segs) for (double len : {1.0, 0.5, 2.0, 0.25, 10.0, 0.1, 0.3}) for (int pat = 0; pat < 7; ++pat) {
        const bool exact = std::floor(len * 4) == len * 4; // knots are representable
        M c(4, segs);
        for (int k = 0; k < segs; ++k) for (int r = 0; r < 4; ++r) c(r, k) = S(pat < 4 ? (r == pat ? k + 1 : 0) : pat == 4 ? ((k * 7 + r * 3) % 5) - 2 : pat == 5 ? (r == 0 ? (k % 2 ? -1 : 1) : 0.5 * r - k) : (k + 1) * (r + 1) * (r % 2 ? -0.5 : 1.25));
        if (!vh::begin_lazy([&] { return vh::fmt("cubic/%s/segs%d/len%g/pat%d", tn, segs, len, pat); })) continue;
        Sp sp(c, S(len)); Sp sp2; sp2.coefficients() = c; sp2.segment_length() = S(len); vh::op(2);
        vh::check(sp2.segment_length() == S(len) && sp.segment_length() == S(len) && sp.coefficients() == c && sp2.coefficients() == c, "accessors");
        std::vector<double> args = {-1e9, -1e3, -len, -0.5 * len, -1e-3 * len, 0.0, segs * len + 1e-3 * len, segs * len + 0.7 * len, segs * len + len, segs * len + 2.5 * len, 1e3 * len, 1e7 * len, 1e11 * len, -1e11 * len};
        for (int k = 0; k < segs; ++k) for (double f : {0.01, 0.25, 0.5, 0.75, 0.99}) args.push_back((k + f) * len);
        if (exact) for (int k = 0; k <= segs; ++k) args.push_back(k * len);
        for (double x : args) {
            int idx = x / len < 0 ? 0 : x / len >= segs ? segs - 1 : (int)std::floor((S)x / (S)len);
            double a = c(0, idx), b = c(1, idx), d = c(2, idx), e = c(3, idx), X = (double)(S)x;
            double v = a + X * (b + X * (d + X * e)), dv = b + X * (2 * d + 3 * X * e), ddv = 2 * d + 6 * X * e;
            double sc = 1 + std::abs(a) + std::abs(X * b) + std::abs(X * X * d) + std::abs(X * X * X * e), dsc = 1 + std::abs(b) + std::abs(2 * X * d) + std::abs(3 * X * X * e);
            auto cmp = [&](double g, double ex, double s, const char *nm) { vh::check(std::abs(g - ex) <= tol * s, nm, vh::fmt("x=%.10g segment %d: got %.12g expected %.12g", x, idx, g, ex)); };
            cmp(sp.eval(S(x)), v, sc, "value"); cmp(sp2.eval(S(x)), v, sc, "value-accessor-built"); vh::op(2);
            AD1 ax(S(x), Eigen::Matrix<S, 2, 1>(S(1), S(-2))); AD1 r1 = sp.eval(ax); vh::op();
            cmp(r1.value(), v, sc, "ad-value"); cmp(r1.derivatives()(0), dv, dsc, "ad-derivative"); cmp(r1.derivatives()(1), -2 * dv, 2 * dsc, "ad-derivative");
            AD2 bx; bx.value() = AD1(S(x), Eigen::Matrix<S, 2, 1>(S(1), S(0))); bx.derivatives()(0) = AD1(S(1), Eigen::Matrix<S, 2, 1>::Zero()); bx.derivatives()(1) = AD1(S(0), Eigen::Matrix<S, 2, 1>::Zero());
            AD2 r2 = sp.eval(bx); vh::op();
            cmp(r2.value().value(), v, sc, "ad2-value"); cmp(r2.derivatives()(0).value(), dv, dsc, "ad2-gradient"); cmp(r2.derivatives()(0).derivatives()(0), ddv, dsc, "ad2-hessian");
            cmp(r2.derivatives()(1).value(), 0, 1, "ad2-gradient-inactive"); cmp(r2.derivatives()(0).derivatives()(1), 0, 1, "ad2-hessian-inactive");
            vh::state(vh::Hash().i(sizeof(S)).i(segs).d(len).i(pat).d(x).h);
        }
        // every ordered pair of segments through one object, then the same after its data is replaced
        auto ref = [&](const M &q, double l, double x) { int i = x / l < 0 ? 0 : x / l >= segs ? segs - 1 : (int)std::floor((S)x / (S)l); double X = (double)(S)x; return q(0, i) + X * (q(1, i) + X * (q(2, i) + X * q(3, i))); };
        auto scl = [&](const M &q, double x) { return 1 + q.template cast<double>().cwiseAbs().sum() * (1 + std::abs(x * x * x)); };
        for (int phase = 0; phase < 3; ++phase) {
            M q = phase == 1 ? M(-2 * c) : c; q(0, segs - 1) += S(phase); double l = phase == 2 ? 2 * len : len;
            sp2.coefficients() = q; sp2.segment_length() = S(l);
            for (int a = -1; a <= segs; ++a) for (int b = -1; b <= segs; ++b) {
                const double x1 = (a + 0.37) * l, x2 = (b + 0.61) * l;
                sp2.eval(S(x1)); double g = sp2.eval(S(x2)); vh::op(2);
                vh::check(std::abs(g - ref(q, l, x2)) <= tol * scl(q, x2), "value-after-other", vh::fmt("phase %d x=%.6g after %.6g: got %.12g expected %.12g", phase, x2, x1, g, ref(q, l, x2)));
            }
            Sp cp(sp2); for (int b = -1; b <= segs; ++b) { double x = (b + 0.5) * l; double g = cp.eval(S(x)); vh::op(); vh::check(std::abs(g - ref(q, l, x)) <= tol * scl(q, x), "copy-value"); }
        }
        vh::note(vh::fmt("%zu arguments, coefficients %s", args.size(), vh::vec(c).c_str()));
    }
}
// Lagrange basis and interpolation over every ordered selection of distinct nodes
static void lagrange_nodes(std::vector<double> nd, double sc = 1, double mag = 1) {   // nodes scaled by sc, data scaled by mag
    for (double &x : nd) x *= sc;
    const int n = nd.size();
    std::string id = "lagrange/nodes="; for (double x : nd) id += vh::fmt("%g,", x); if (mag != 1) id += vh::fmt("/data*%g", mag);
    if (!vh::begin(id)) return;
    Eigen::VectorXd nodes(n); for (int i = 0; i < n; ++i) nodes(i) = nd[i];
    Eigen::MatrixXd basis(n, n); LagrangeSpline::compute_lagrange_basis(nodes, basis); vh::op();
    vh::check(basis.rows() == n && basis.cols() == n, "basis-size");
    auto lag = [&](int i, double t) { double r = 1; for (int j = 0; j < n; ++j) if (j != i) r *= (t - nd[j]) / (nd[i] - nd[j]); return r; };
    double ts[] = {-1.5, -1, -0.3, 0, 0.1, 0.5, 1, 1.7, 3}; for (double &t : ts) t *= sc;
    for (int i = 0; i < n; ++i) for (double t : ts) { double v = 0; for (int k = n - 1; k >= 0; --k) v = v * t + basis(i, k); vh::near(v, lag(i, t), 1e-8, "basis-polynomial", vh::fmt("l_%d(%g)", i, t)); }
    // unit and polynomial data in 1-3 dimensions: reproduce node values and every polynomial of degree < n
    for (int dim = 1; dim <= 3; ++dim) for (int deg = 0; deg < n; ++deg) {
        Eigen::MatrixXd val(dim, n); auto f = [&](int r, double t) { t /= sc; return mag * ((r + 1) * std::pow(t, deg) - r * 0.5 + (deg > 0 ? r * t : 0)); };
        for (int r = 0; r < dim; ++r) for (int i = 0; i < n; ++i) val(r, i) = f(r, nd[i]);
        for (double t : ts) { Eigen::VectorXd g = LagrangeSpline::eval(t, val, basis); vh::op(); vh::check(g.rows() == dim, "dimension"); for (int r = 0; r < dim; ++r) vh::near(g(r) / mag, f(r, t) / mag, 1e-8, "polynomial-reproduction", vh::fmt("deg %d dim %d t=%g", deg, r, t)); }
        for (int i = 0; i < n; ++i) { Eigen::VectorXd g = LagrangeSpline::eval(nd[i], val, basis); vh::op(); vh::mnear((g / mag).eval(), (val.col(i) / mag).eval(), 1e-8, "node-value"); }
    }
    for (int one = 0; one < n; ++one) { Eigen::Matrix<double, 2, Eigen::Dynamic> val = Eigen::MatrixXd::Zero(2, n); val(0, one) = mag; val(1, one) = -3 * mag; for (double t : ts) { auto g = LagrangeSpline::eval(t, val, basis); vh::op(); vh::near(g(0) / mag, lag(one, t), 1e-8, "cardinal"); vh::near(g(1) / mag, -3 * lag(one, t), 1e-8, "cardinal"); } }
    vh::state(vh::Hash().i(n).m(nodes).m(basis).h); vh::note("basis row 0 " + vh::vec(basis.row(0)));
}
template <int N> static void lagrange_static() {
    if (!vh::begin(vh::fmt("lagrange-static/N%d", N))) return;
    Eigen::Matrix<double, N, 1> nodes; for (int i = 0; i < N; ++i) nodes(i) = std::cos(M_PI * i / (N - 1));
    Eigen::Matrix<double, N, N> basis; LagrangeSpline::compute_lagrange_basis(nodes, basis); vh::op();
    Eigen::Matrix<double, 2, N> val; for (int i = 0; i < N; ++i) { val(0, i) = std::pow(nodes(i), N - 1); val(1, i) = 2 - nodes(i); }
    for (double t = -1; t <= 1; t += 0.125) { Eigen::Vector2d g = LagrangeSpline::eval(t, val, basis); vh::op(); vh::near(g(0), std::pow(t, N - 1), 1e-9, "static-reproduction"); vh::near(g(1), 2 - t, 1e-9, "static-reproduction"); }
    Eigen::Matrix<float, N, 1> nf = nodes.template cast<float>(); Eigen::Matrix<float, N, N> bf; LagrangeSpline::compute_lagrange_basis(nf, bf); vh::op(); vh::mnear(bf, basis, 1e-3 , "float-basis");
    vh::state(vh::Hash().i(N).m(basis).h);
}
// every ordered pair of node sets: the second basis and interpolant do not depend on the first, whether or not they share the matrix
static void lagrange_pairs(const std::vector<double> &pool) {
    std::vector<std::vector<double>> sets; const int P = pool.size();
    for (int a = 0; a < P; ++a) for (int b = 0; b < P; ++b) if (b != a) { sets.push_back({pool[a], pool[b]}); for (int c = 0; c < P; ++c) if (c != a && c != b) { sets.push_back({pool[a], pool[b], pool[c]}); if (a < b && b < c) for (int d = c + 1; d < P; ++d) sets.push_back({pool[a], pool[b], pool[c], pool[d]}); } }
    auto vec = [](const std::vector<double> &v) { return Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(v.data(), v.size())); };
    auto test = [&](const std::vector<double> &nd, const Eigen::MatrixXd &basis, const char *w) { const int n = nd.size(); vh::check(basis.rows() == n && basis.cols() == n, "history-basis-size", w);
        for (int i = 0; i < n; ++i) for (double t : {-1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 0.7}) { double r = 1, v = 0; for (int j = 0; j < n; ++j) if (j != i) r *= (t - nd[j]) / (nd[i] - nd[j]); for (int k = n - 1; k >= 0; --k) v = v * t + basis(i, k); vh::near(v, r, 1e-8, "history-basis", w); } };
    for (size_t a = 0; a < sets.size(); ++a) if (vh::begin_lazy([&] { return "lagrange-pairs/first=" + vh::vec(vec(sets[a])); }))
        for (size_t b = 0; b < sets.size(); ++b) {
            Eigen::MatrixXd ba(sets[a].size(), sets[a].size()), bb(sets[b].size(), sets[b].size());
            LagrangeSpline::compute_lagrange_basis(vec(sets[a]), ba); LagrangeSpline::compute_lagrange_basis(vec(sets[b]), bb); vh::op(2);
            test(sets[b], bb, "second basis"); test(sets[a], ba, "first basis after the second");
            if (sets[a].size() == sets[b].size()) { LagrangeSpline::compute_lagrange_basis(vec(sets[b]), ba); LagrangeSpline::compute_lagrange_basis(vec(sets[a]), ba); vh::op(2); test(sets[a], ba, "basis into a used matrix"); }
            vh::state(vh::Hash().m(ba).m(bb).h);
        }
}
void vh_run() {
    cubic<double>("double"); cubic<float>("float");
    const std::vector<double> pool = {-1, -0.5, 0, 0.25, 1, 2};
    const int P = pool.size(), maxn = vh::thorough() ? 6 : 5;
    for (int n = 2; n <= maxn; ++n) {  // every ordered selection for n <= 4 (n <= 3 quick), every increasing, decreasing and rotated one above
        std::vector<int> sel(n);
        std::vector<bool> used(P, false);
        struct Rec { static void go(int d, int n, int P, std::vector<int> &s, std::vector<bool> &u, const std::vector<double> &pool) {
            if (d == n) { bool inc = true, dec = true; int desc = 0; for (int i = 1; i < n; ++i) { inc &= s[i] > s[i - 1]; dec &= s[i] < s[i - 1]; } for (int i = 0; i < n; ++i) desc += s[(i + 1) % n] < s[i]; bool rot = desc == 1;
                if (n <= (vh::thorough() ? 5 : 3) || inc || dec || rot) { std::vector<double> v; for (int i : s) v.push_back(pool[i]); lagrange_nodes(v); for (double sc : {1e3, 1e-3, 1e-5}) lagrange_nodes(v, sc); for (double mag : {1e-9, 1e-13, 1e9}) lagrange_nodes(v, 1, mag); lagrange_nodes(v, 1e3, 1e-9); } return; }
            for (int i = 0; i < P; ++i) if (!u[i]) { u[i] = true; s[d] = i; go(d + 1, n, P, s, u, pool); u[i] = false; } } };
        Rec::go(0, n, P, sel, used, pool);
    }
    lagrange_pairs(pool);
    lagrange_static<2>(); lagrange_static<3>(); lagrange_static<4>(); lagrange_static<6>(); lagrange_static<8>();
}
