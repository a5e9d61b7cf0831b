// C19: projections reproduce polynomials; coefficients are those of the exact expansion.
#include "common.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#ifndef LO
#define LO 1
#endif
#ifndef HI
#define HI 8
#endif
using namespace polympc;
static double T(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int i = 1; i < n; ++i) { double c = 2 * x * b - a; a = b; b = c; } return b; }
static double L(int n, double x) { double a = 1, b = x; if (!n) return 1; for (int i = 1; i < n; ++i) { double c = ((2 * i + 1) * x * b - i * a) / (i + 1); a = b; b = c; } return b; }

template <typename B, int N> static void run(const char *bn, double (*phi)(int, double), double tol) {
    using S = typename B::scalar_t;
    static const double IV[][2] = {{-1, 1}, {0, 1}, {-2, 3}, {0.5, 0.75}, {0.1, 0.7}, {-3.3, -1.1}, {10, 12}, {1, -1}, {0.3, 1.9}, {-5, 5}, {100, 101}, {0, 1e6}, {-1e-6, 2e-6}, {-7, -5}};
    // every polynomial = expansion with coefficients over the alphabet (all vectors for small N, all vectors of <=3 nonzeros otherwise)
    std::vector<std::vector<int>> polys;
    const std::vector<int> al = {0, 1, -2};
    long total = 1; for (int i = 0; i <= N; ++i) total *= 3;
    for (long c = 0; c < total; ++c) { std::vector<int> v(N + 1); long t = c; int nz = 0; for (int i = 0; i <= N; ++i) { v[i] = al[t % 3]; t /= 3; nz += v[i] != 0; } if (N <= 3 || nz <= 2) polys.push_back(v); }
    for (auto &I : IV) for (auto &c : polys) {
        if (!vh::begin_lazy([&] { std::string s; for (int x : c) s += vh::fmt("%d,", x); return vh::fmt("%s/N%d/[%g,%g]/c=%s", bn, N, I[0], I[1], s.c_str()); })) continue;
        const double a = I[0], b = I[1];
        auto f = [&](const S &t) -> S { double x = (2 * (double)t - a - b) / (b - a), r = 0; for (int n = 0; n <= N; ++n) if (c[n]) r += c[n] * phi(n, x); return S(r); };
        Projection<B> P(f, S(a), S(b)); vh::op();
        auto chk = [&](const char *which) {
            for (int n = 0; n <= N; ++n) vh::near((double)P.coeff[n], c[n], tol, "coefficient", vh::fmt("%s: coefficient %d", which, n));
            for (int k = 0; k <= 8; ++k) { double t = a + (b - a) * k / 8.0; if (k == 8) t = b; double got = P.eval(S(t)); vh::op(); vh::near(got, f(t), tol * 10, "value", vh::fmt("%s at t=%.17g", which, t)); }
        };
        chk("ctor");
        if (N <= 4) { // reuse of the same object: project another function on another interval, then back
            P.project([](const S &t) { return S(3) * t; }, S(-4), S(9)); vh::near((double)P.eval(S(2)), 6, tol * 10, "value-after-reproject");
            P.project(f, S(a), S(b)); vh::op(3); chk("reprojected"); }
        for (double mag : {1e-9, 1e9}) { // the same polynomial in other units
            Projection<B> Q([&](const S &t) -> S { return S(mag) * f(t); }, S(a), S(b)); vh::op();
            for (int n = 0; n <= N; ++n) vh::near((double)Q.coeff[n] / mag, c[n], tol, "coefficient-scaled", vh::fmt("magnitude %g coefficient %d", mag, n));
            for (int k = 0; k <= 8; k += 2) { double t = a + (b - a) * k / 8.0; if (k == 8) t = b; vh::near(Q.eval(S(t)) / mag, f(t), tol * 10, "value-scaled"); vh::op(); } }
        vh::state(vh::Hash().s(bn).i(N).d(a).d(b).m(P.coeff).h); vh::note("coeff " + vh::vec(P.coeff));
    }
    if (vh::begin(vh::fmt("%s/N%d/default-interval", bn, N))) { Projection<B> P([](const S &t) { return S(1) - 2 * t; }); vh::op(); vh::near(P.eval(S(0.25)), 0.5, tol * 10, "value"); vh::near(P.coeff[0], 1, tol, "coefficient"); vh::near(P.coeff[1], -2, tol, "coefficient"); }
    if (vh::begin(vh::fmt("%s/N%d/basis-values", bn, N))) { B b; for (int n = 0; n <= N; ++n) for (int k = -16; k <= 16; ++k) { double x = k / 16.0; vh::near((double)b.eval(S(x), n), phi(n, x), tol * 10, "basis-value", vh::fmt("phi_%d(%g)", n, x)); vh::op(); } vh::state(vh::Hash().s(bn).i(N).h); }
}
#ifdef LEG
template <int N, bool G = (N >= LO)> struct Go { static void go() { Go<N - 1>::go(); run<Legendre<N, GAUSS_LOBATTO, double>, N>("legendre", L, std::min(1e-7, 1e-11 * std::pow(4., N))); } };
#else
template <int N, bool G = (N >= LO)> struct Go { static void go() { Go<N - 1>::go(); run<Chebyshev<N, GAUSS_LOBATTO, double>, N>("chebyshev", T, 1e-10); if (N <= 4) run<Chebyshev<N, GAUSS_LOBATTO, float>, N>("chebyshev-float", T, 1e-3); } };
#endif
template <int N> struct Go<N, false> { static void go() {} };
void vh_run() { Go<HI>::go(); }
