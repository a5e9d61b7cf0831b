// C21: polynomial arithmetic against exact integer / rational reference models.
#include "common.hpp"
#include "polynomials/legendre.hpp"
#include <map>
#include <set>
#include <deque>
using namespace polympc;

template <int N> using IV = std::array<long, N>;
template <int N> static IV<N> ref_mul(const IV<N> &a, const IV<N> &b) { IV<N> r; r.fill(0); for (int i = 0; i < N; ++i) for (int j = 0; i + j < N; ++j) r[i + j] += a[i] * b[j]; return r; }
template <int N> static IV<N> ref_diff(const IV<N> &a) { IV<N> r; r.fill(0); for (int i = 0; i + 1 < N; ++i) r[i] = (i + 1) * a[i + 1]; return r; }
template <typename S, int N> static Eigen::Matrix<S, N, 1> toE(const IV<N> &a, double sc = 1) { Eigen::Matrix<S, N, 1> v; for (int i = 0; i < N; ++i) v[i] = S(a[i] * sc); return v; }
template <int N> static std::string str(const IV<N> &a) { std::string s; for (int i = 0; i < N; ++i) s += vh::fmt("%s%ld", i ? "," : "", a[i]); return s; }
template <typename S, int N> static bool same(const Eigen::Matrix<S, N, 1> &g, const IV<N> &e, double sc, const char *nm) {
    bool ok = true; for (int i = 0; i < N; ++i) if (!(std::abs((double)g[i] - e[i] * sc) <= 1e-6 * std::abs(e[i] * sc))) ok = false;
    return vh::check(ok, nm, ok ? "" : "got " + vh::vec(g) + " expected " + str<N>(e) + vh::fmt(" * %g", sc)); }
template <int N> static u_int64_t hs(const IV<N> &a, int salt) { vh::Hash h; h.i(N).i(salt); for (long x : a) h.i(x); return h.h; }

template <int N> static std::vector<IV<N>> all(const std::vector<long> &al) {
    std::vector<IV<N>> r; std::vector<int> c(N, 0);
    for (;;) { IV<N> v; for (int i = 0; i < N; ++i) v[i] = al[c[i]]; r.push_back(v);
        int k = N - 1; while (k >= 0 && ++c[k] == (int)al.size()) c[k--] = 0; if (k < 0) break; }
    return r;
}
template <typename S, int N> static void pairs(const std::vector<long> &al, double sc, const char *tn) {
    auto P = all<N>(al);
    for (auto &a : P) {
        if (!vh::begin_lazy([&] { return vh::fmt("mul/%s/n%d/scale%g/[%s]x*", tn, N, sc, str<N>(a).c_str()); })) continue;
        auto ea = toE<S, N>(a, sc);
        vh::op(); same<S, N>(poly_diff(ea), ref_diff<N>(a), sc, "derivative");
        for (auto &b : P) {
            auto eb = toE<S, N>(b);
            Eigen::Matrix<S, N, 1> g = poly_mul(ea, eb); vh::op();
            auto r = ref_mul<N>(a, b);
            same<S, N>(g, r, sc, "product");
            vh::state(hs<N>(r, (int)(sc * 8)));
        }
        vh::note("p1 times every vector of the alphabet");
    }
}
// coefficients of very different magnitude: every product and derivative coefficient to the accuracy of its own terms
template <typename S, int N> static void wide(double sa, double sb, const char *tn) {
    const long big = sizeof(S) == 4 ? 1L << 20 : 1L << 34; auto P = all<N>({0, 1, -3, big});
    for (auto &a : P) { if (!vh::begin_lazy([&] { return vh::fmt("wide/%s/n%d/scale%g,%g/[%s]x*", tn, N, sa, sb, str<N>(a).c_str()); })) continue;
        auto ea = toE<S, N>(a, sa); auto test = [&](const Eigen::Matrix<S, N, 1> &g, const long double *e, const long double *m, const char *nm, const std::string &ctx) { const double ep = std::numeric_limits<S>::epsilon();
            for (int i = 0; i < N; ++i) vh::check(std::fabs((double)(g[i] - e[i])) <= 2 * N * ep * (double)m[i], nm, vh::fmt("coefficient %d is %g, expected %Lg", i, (double)g[i], e[i]) + ctx); };
        { long double e[N] = {0}; for (int i = 0; i + 1 < N; ++i) e[i] = (i + 1) * (long double)ea[i + 1]; long double m[N]; for (int i = 0; i < N; ++i) m[i] = fabsl(e[i]); test(poly_diff(ea), e, m, "wide-derivative", ""); vh::op(); }
        for (auto &b : P) { auto eb = toE<S, N>(b, sb); long double e[N] = {0}, m[N] = {0}; for (int i = 0; i < N; ++i) for (int j = 0; i + j < N; ++j) { e[i + j] += (long double)ea[i] * eb[j]; m[i + j] += fabsl((long double)ea[i] * eb[j]); }
            Eigen::Matrix<S, N, 1> g = poly_mul(ea, eb); vh::op(); test(g, e, m, "wide-product", " with [" + str<N>(b) + "]"); vh::state(vh::Hash().i(N).m(g).h); } }
}
// breadth-first exploration of expression histories: mul by generator, self-mul, differentiate
template <int N> static void bfs(int depth, const std::vector<IV<N>> &gens) {
    struct Node { IV<N> v; int d; };
    std::set<IV<N>> seen; std::deque<Node> q;
    IV<N> zero; zero.fill(0); IV<N> one = zero; one[0] = 1;
    for (auto &s : {zero, one}) { q.push_back({s, 0}); seen.insert(s); }
    while (!q.empty()) {
        Node n = q.front(); q.pop_front();
        bool run = vh::begin_lazy([&] { return vh::fmt("bfs/n%d/depth%d/[%s]", N, n.d, str<N>(n.v).c_str()); });
        auto e = toE<double, N>(n.v);
        auto step = [&](IV<N> r, const Eigen::Matrix<double, N, 1> &g, const char *nm) {
            if (run) { same<double, N>(g, r, 1, nm); vh::state(hs<N>(r, -1)); }
            long mx = 0; for (long x : r) mx = std::max(mx, std::labs(x));
            if (n.d < depth && mx < 1000000 && seen.insert(r).second) q.push_back({r, n.d + 1});
        };
        for (auto &g : gens) { Eigen::Matrix<double, N, 1> p1, p2; if (run) { p1 = poly_mul(e, toE<double, N>(g)); p2 = poly_mul(toE<double, N>(g), e); vh::op(2); }
            else p1 = p2 = e; step(ref_mul<N>(n.v, g), p1, "product"); step(ref_mul<N>(g, n.v), p2, "product"); }
        { Eigen::Matrix<double, N, 1> p = e; if (run) { p = poly_mul(e, e); vh::op(); } step(ref_mul<N>(n.v, n.v), p, "product"); }
        { Eigen::Matrix<double, N, 1> p = e; if (run) { p = poly_diff(e); vh::op(); } step(ref_diff<N>(n.v), p, "derivative"); }
        // expression arguments (columns, sums) behave like plain vectors
        if (run) { Eigen::Matrix<double, N, 2> M; M.col(0) = e; M.col(1) = toE<double, N>(gens.back()); 
            same<double, N>(poly_mul(M.col(0), M.col(1)), ref_mul<N>(n.v, gens.back()), 1, "product-of-columns"); same<double, N>(poly_diff(M.col(0)), ref_diff<N>(n.v), 1, "derivative-of-column"); vh::op(2); }
    }
}
template <typename S, int N> static void basis(const char *tn) {
    if (!vh::begin(vh::fmt("legendre-basis/%s/n%d", tn, N))) return;
    using L = Legendre<N, GAUSS_LOBATTO, S>;
    auto B = L::compute_basis(); vh::op();
    std::vector<std::vector<long double>> R(N + 1, std::vector<long double>(N + 1, 0));
    R[0][0] = 1; R[1][1] = 1;
    for (int n = 1; n < N; ++n) for (int k = 0; k <= N; ++k) R[n + 1][k] = ((2 * n + 1) * (k ? R[n][k - 1] : 0) - n * R[n - 1][k]) / (n + 1);
    double tol = sizeof(S) == 4 ? 1e-4 : 1e-11;
    for (int n = 0; n <= N; ++n) for (int k = 0; k <= N; ++k) vh::near((double)B(k, n), (double)R[n][k], tol, "basis-coefficient", vh::fmt("L_%d coeff of x^%d", n, k));
    vh::state(vh::Hash().i(N).i(sizeof(S)).m(B).h); vh::note(vh::fmt("leading coeff %.6g", (double)B(N, N)));
    // the derivative of every basis polynomial by recurrence L'_{n+1} = (2n+1) L_n + L'_{n-1}
    for (int n = 1; n < N; ++n) { Eigen::Matrix<S, N + 1, 1> d1 = poly_diff(B.col(n + 1)), d0 = poly_diff(B.col(n - 1)), e = S(2 * n + 1) * B.col(n) + d0; vh::op(2);
        vh::mnear(d1, e, tol, "basis-derivative-recurrence"); }
}
template <int N> struct Bases { static void go() { Bases<N - 1>::go(); basis<double, N>("double"); if (N <= 8) basis<float, N>("float"); } };
template <> struct Bases<0> { static void go() {} };

void vh_run() {
    pairs<double, 1>({0, 1, -2, 3}, 1, "double");
    pairs<double, 2>({0, 1, -1, 2, -3, 5}, 1, "double");
    pairs<double, 3>({0, 1, -1, 2, -3}, 1, "double");
    pairs<float, 3>({0, 1, -1, 2, -3}, 1, "float");
    pairs<double, 3>({0, 1, -1, 3}, 1e-6, "double");
    pairs<double, 3>({0, 1, -1, 3}, 1e8, "double");
    pairs<double, 4>({0, 1, -1, 2}, 1, "double");
    pairs<float, 4>({0, 1, -2}, 1, "float");
    pairs<double, 5>({0, 1, -2}, 1, "double");
    if (vh::thorough()) { pairs<double, 4>({0, 1, -1, 2, -3, 4}, 1, "double"); pairs<double, 5>({0, 1, -1, 2}, 1, "double"); pairs<double, 6>({0, 1, -2}, 1, "double"); }
    for (double sc : {1.0, std::ldexp(1.0, 20), std::ldexp(1.0, -12)}) { wide<double, 2>(1, sc, "double"); wide<double, 3>(sc, 1, "double"); wide<double, 4>(sc, sc, "double"); wide<float, 3>(1, sc, "float"); }
    bfs<3>(vh::thorough() ? 8 : 6, {IV<3>{{0, 1, 0}}, IV<3>{{1, 1, 0}}, IV<3>{{-1, 0, 2}}, IV<3>{{0, 0, 0}}});
    bfs<4>(vh::thorough() ? 7 : 5, {IV<4>{{0, 1, 0, 0}}, IV<4>{{1, -1, 0, 0}}, IV<4>{{2, 0, 1, 0}}, IV<4>{{0, 0, 0, 1}}});
    bfs<6>(vh::thorough() ? 6 : 4, {IV<6>{{0, 1, 0, 0, 0, 0}}, IV<6>{{1, 2, 0, 0, 0, 0}}, IV<6>{{-1, 0, 3, 1, 0, 0}}, IV<6>{{0, 0, 0, 0, 0, 2}}});
    Bases<16>::go();
}
