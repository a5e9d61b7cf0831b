// C18: nodes, weights and differentiation matrices of the collocation bases, all orders in the bound.
#include "common.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/splines.hpp"
#ifndef LO
#define LO 1
#endif
#ifndef HI
#define HI 12
#endif
using namespace polympc;
static int g_deg; // degree of the monomial integrated through integrate<>
static double g_a, g_b, g_mag; // local monomial: g_mag * ((x-a)/(b-a))^deg
template <typename S> struct Local { S operator()(const S &x) const { S u = S(((double)x - g_a) / (g_b - g_a)), r = S(g_mag); for (int i = 0; i < g_deg; ++i) r *= u; return r; } };
template <typename S> struct Mono { S operator()(const S &x) const { S r = 1; for (int i = 0; i < g_deg; ++i) r *= x; return r; } };
static double cheb(int n, double x) { double a = 1, b = x; if (!n) return a; for (int i = 1; i < n; ++i) { double c = 2 * x * b - a; a = b; b = c; } return b; }
static double dcheb(int n, double x) { // T_n' by recurrence
    double a = 1, b = x, da = 0, db = 1; if (!n) return 0; for (int i = 1; i < n; ++i) { double c = 2 * x * b - a, dc = 2 * b + 2 * x * db - da; a = b; b = c; da = db; db = dc; } return db; }

template <typename B, int N> struct CommonChecks {
    using S = typename B::scalar_t;
    static void run(const std::string &nm, int exact_deg, double tol, bool descending) {
        const auto nodes = B::compute_nodes(); const auto D = B::compute_diff_matrix(); const auto w = B::compute_int_weights(); vh::op(3);
        vh::check(nodes.rows() == N + 1 && D.rows() == N + 1 && D.cols() == N + 1 && w.rows() == N + 1, "sizes");
        vh::near(std::min((double)nodes[0], (double)nodes[N]), -1, tol, "end-point"); vh::near(std::max((double)nodes[0], (double)nodes[N]), 1, tol, "end-point");
        vh::check(descending ? nodes[0] > nodes[N] : nodes[0] < nodes[N], "node-order");
        for (int i = 0; i <= N; ++i) {
            vh::near(nodes[i], -(double)nodes[N - i], tol, "node-symmetry", vh::fmt("node %d", i));
            if (i) vh::check(descending ? nodes[i] < nodes[i - 1] : nodes[i] > nodes[i - 1], "strictly-monotone");
            vh::check(w[i] > 0, "positive-weight", vh::fmt("w[%d]=%g", i, (double)w[i]));
            vh::near(w[i], w[N - i], tol, "weight-symmetry");
        }
        for (int k = 0; k <= N; ++k) for (int i = 0; i <= N; ++i) {
            double acc = 0; for (int j = 0; j <= N; ++j) acc += (double)D(i, j) * cheb(k, nodes[j]);
            vh::check(std::abs(acc - dcheb(k, nodes[i])) <= tol * 10 * (1 + N * N * N), "differentiation", vh::fmt("%s row %d of D on T_%d: got %.12g expected %.12g", nm.c_str(), i, k, acc, dcheb(k, nodes[i])));
        }
        for (int k = 0; k <= exact_deg; ++k) {
            double acc = 0; for (int j = 0; j <= N; ++j) acc += (double)w[j] * cheb(k, nodes[j]);
            double ex = (k % 2) ? 0.0 : 2.0 / (1.0 - (double)k * k);
            vh::near(acc, ex, tol * 10, "quadrature", vh::fmt("%s integral of T_%d", nm.c_str(), k));
        }
        // object interface gives the same operators, and integrates over any interval
        B b; vh::op();
        vh::mnear(b.CPoints(), nodes, tol, "object-nodes"); vh::mnear(b.D(), D, tol * 10, "object-D"); vh::mnear(b.QWeights(), B::compute_quad_weights(), tol, "object-qweights");
        vh::mnear(b.NFactors(), B::compute_norm_factors(), tol, "object-nfactors");
        const double iv[][2] = {{-1, 1}, {0, 1}, {-2, 3}, {1, 0}, {0.5, 0.5}, {2, 2.25}, {-3, -1}};
        for (auto &I : iv) for (g_deg = 0; g_deg <= std::min(exact_deg, 9); ++g_deg) {
            double got = b.template integrate<Mono<S>>(S(I[0]), S(I[1])); vh::op();
            double ex = (std::pow(I[1], g_deg + 1) - std::pow(I[0], g_deg + 1)) / (g_deg + 1), sc = std::pow(std::max(std::abs(I[0]), std::abs(I[1])), g_deg + 1);
            vh::check(std::abs(got - ex) <= tol * 10 * (1 + sc), "integrate", vh::fmt("%s x^%d on [%g,%g]: got %.12g expected %.12g", nm.c_str(), g_deg, I[0], I[1], got, ex));
        }
        // intervals of every position and size, integrands of every magnitude: relative to |b-a| * magnitude
        const double iw[][2] = {{-1, 1}, {0, 1}, {-5, 5}, {5, -5}, {3, 1}, {-1, -3}, {100, 101}, {-101, -100}, {0, 1e6}, {-1e6, -1e5}, {1e-6, 3e-6}, {-1e-6, 1e-6}, {-2e-6, -1e-6}, {0, 1e-9}, {-1e-9, 0}};
        for (auto &I : iw) for (double m : {1.0, 1e-9, -1e9}) for (g_deg = 0; g_deg <= exact_deg; ++g_deg) {
            if (sizeof(S) == 4 && std::abs(I[0]) == 101) continue; if (sizeof(S) == 4 && std::abs(I[0]) == 100) continue;
            g_a = I[0]; g_b = I[1]; g_mag = m;
            double got = b.template integrate<Local<S>>(S(I[0]), S(I[1])); vh::op(); double sc = (I[1] - I[0]) * m;
            vh::near(got / sc, 1.0 / (g_deg + 1), tol * 20, "integrate-local", vh::fmt("%s degree %d on [%g,%g] magnitude %g", nm.c_str(), g_deg, I[0], I[1], m));
        }
        { double got = b.template integrate<Mono<S>>(); (void)got; g_deg = 0; vh::near(b.template integrate<Mono<S>>(), 2, tol * 10, "integrate-default-interval"); }
        vh::mnear(b.CPoints(), nodes, tol, "object-nodes-after-use");
        // spline wrapper
        using Sp3 = Spline<B, 3>; using Sp1 = Spline<B, 1>;
        vh::mnear(Sp3::compute_nodes(), nodes, tol, "spline-nodes"); vh::mnear(Sp3::compute_diff_matrix(), D, tol * 10, "spline-D"); vh::mnear(Sp3::compute_int_weights(), w, tol, "spline-weights");
        vh::mnear(Sp1::compute_quad_weights(), B::compute_quad_weights(), tol, "spline-quad"); vh::mnear(Sp1::compute_norm_factors(), B::compute_norm_factors(), tol, "spline-norm"); vh::op(5);
        vh::check((int)Sp3::POLY_ORDER == N && (int)Sp3::NUM_SEGMENTS == 3 && (int)Sp3::NUM_NODES == 3 * N + 1 && (int)Sp1::NUM_NODES == N + 1, "spline-dimensions");
        vh::check((int)B::POLY_ORDER == N && (int)B::NUM_NODES == N + 1, "basis-dimensions");
        vh::state(vh::Hash().s(nm).m(nodes).m(D).m(w).h);
        vh::note("nodes " + vh::vec(nodes));
    }
};
template <typename S, int N> static void chebyshev(const char *tn) {
    std::string nm = vh::fmt("chebyshev/%s/N%d", tn, N);
    if (!vh::begin(nm)) return;
    using B = Chebyshev<N, GAUSS_LOBATTO, S>;
    double tol = sizeof(S) == 4 ? 2e-5 : 1e-12;
    CommonChecks<B, N>::run(nm, (N % 2) ? N : N + 1, tol, true);
    const auto nodes = B::compute_nodes(); const auto q = B::compute_quad_weights(); const auto f = B::compute_norm_factors(); vh::op(3);
    for (int i = 0; i <= N; ++i) vh::near(nodes[i], std::cos(M_PI * i / N), tol, "chebyshev-extrema");
    vh::mnear(B().CCQWeights(), B::compute_int_weights(), tol, "object-ccweights");
    // Gauss-Lobatto-Chebyshev rule: weighted integral of T_k, exact up to 2N-1
    for (int k = 0; k < 2 * N; ++k) { double acc = 0; for (int j = 0; j <= N; ++j) acc += (double)q[j] * cheb(k, nodes[j]); vh::near(acc, k ? 0 : M_PI, tol * 10, "weighted-quadrature", vh::fmt("T_%d", k)); }
    // classical norms 2/pi and 1/pi (the last one belongs to the discrete inner product, see C19)
    vh::near(f[0], 1 / M_PI, tol, "norm-factor"); for (int k = 1; k < N; ++k) vh::near(f[k], 2 / M_PI, tol, "norm-factor");
    B b; for (int n = 0; n <= N; ++n) for (double x = -1; x <= 1; x += 0.125) { vh::near(b.eval(S(x), n), cheb(n, x), tol * 20 * (1 + N), "T_n-value"); if (n == N) vh::near(B::eval(S(x)), cheb(N, x), tol * 20 * (1 + N), "T_N-value"); vh::op(); }
    for (double x = -0.875; x < 1; x += 0.125) vh::near(B::weight(S(x)), 1 / std::sqrt(1 - x * x), tol * 10, "weight-function");
}
template <typename S, int N> static void legendre(const char *tn) {
    std::string nm = vh::fmt("legendre/%s/N%d", tn, N);
    if (!vh::begin(nm)) return;
    using B = Legendre<N, GAUSS_LOBATTO, S>;
    double tol = sizeof(S) == 4 ? 1e-3 : 1e-12 * std::pow(4.0, N);  // nodes come from a polynomial root finder
    if (sizeof(S) == 8 && tol > 1e-7) tol = 1e-7;
    CommonChecks<B, N>::run(nm, 2 * N - 1, tol, false);
    const auto nodes = B::compute_nodes(); const auto w = B::compute_quad_weights(); vh::op(2);
    // interior nodes are the extrema of L_N
    for (int i = 1; i < N; ++i) { double x = nodes[i], a = 1, b = x, da = 0, db = 1; for (int n = 1; n < N; ++n) { double c = ((2 * n + 1) * x * b - n * a) / (n + 1), dc = da + (2 * n + 1) * b; a = b; b = c; da = db; db = dc; } vh::check(std::abs(db) <= tol * 10 * (1 + N * N * N), "legendre-extrema", vh::fmt("L'_%d(node %d)=%g", N, i, db)); }
    vh::mnear(B::compute_int_weights(), w, tol, "int=quad");
    vh::check(B::weight(S(0.3)) == S(1), "weight-function");
}
#ifdef LEG
template <int N, bool G = (N >= LO)> struct Go { static void go() { Go<N - 1>::go(); legendre<double, N>("double"); if (N <= 5) legendre<float, N>("float"); } };
#else
template <int N, bool G = (N >= LO)> struct Go { static void go() { Go<N - 1>::go(); chebyshev<double, N>("double"); if (N <= 8) chebyshev<float, N>("float"); } };
#endif
template <int N> struct Go<N, false> { static void go() {} };
void vh_run() { Go<HI>::go(); }
