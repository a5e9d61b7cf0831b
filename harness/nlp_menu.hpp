// Menu of nonlinear programmes shared by C08 and C25.
#pragma once
#include "common.hpp"
#include "jet.hpp"
#include "solvers/nlproblem.hpp"
#ifndef DIMS
#define DIMS D(1,0,0,0) D(2,1,1,1)
#endif
enum { NF = 10 };
template <int NX, int NE, int NI, int NP> class Menu;
// the traits must expose NX, NE, NI, NP as enumerators
#define TR(a, b, c, d) template <> struct nlp_traits<Menu<a, b, c, d>> { using Scalar = double; enum { NX = a, NE = b, NI = c, NP = d }; };
#define D TR
DIMS
#undef D

// one function of the menu: f(x, p) with literal offset s distinguishing rows
template <typename T, typename X, typename P> static void fun(int k, int s, const X &x, const P &p, T &out) {
    using std::sin; using std::cos; using std::exp; using std::log; using std::sqrt; using std::pow;
    const int n = x.size(); const double q = p.size() ? p(p.size() - 1) : 0.5;
    T a = x(s % n), b = x((s + 1) % n), l = x(n - 1);
    switch (k % NF) {
    case 0: out = 2.5 + s; break;                                  // constant: nothing depends on x
    case 1: { T r = 1.5 * a + (q + s); for (int i = 0; i < n; ++i) r += (i + 1.0) * x(i); out = r; break; }
    case 2: { T r = (a - 1.0) * (a - 1.0); for (int i = 0; i + 1 < n; ++i) r += x(i) * x(i + 1) * (1.0 + i); out = r; break; }
    case 3: { T t = b - a * a, w = 1.0 - a; T r = t * t; r *= 3.0; r += w * w; out = r; break; }
    case 4: out = sin(a) * exp(0.5 * l) + q; break;
    case 5: if (a <= 0.0) out = 0.0; else out = a * a * a; break;    // one-sided, twice differentiable
    case 6: if (l > 0.25) { T t = l - 0.25; out = t * t * t * b; } else out = T(0.0); break;
    case 7: out = (a + q) / (1.0 + l * l); break;
    case 8: out = log(1.0 + a * a) * cos(b) - sqrt(2.0 + l); break;
    case 9: out = x.dot(x) * (1.0 + 0.25 * s); break;
    }
}
template <int NX, int NE, int NI, int NP> class Menu : public ProblemBase<Menu<NX, NE, NI, NP>> {
public:
    using B = ProblemBase<Menu<NX, NE, NI, NP>>;
    template <typename T> using variable_t = typename B::template variable_t<T>;
    template <typename T> using eq_constraint_t = typename B::template eq_constraint_t<T>;
    template <typename T> using ineq_constraint_t = typename B::template ineq_constraint_t<T>;
    using static_parameter_t = typename B::static_parameter_t;
    int fc = 0, fe = 0, fi = 0;
    template <typename T> void cost_impl(const Eigen::Ref<const variable_t<T>> &x, const Eigen::Ref<const static_parameter_t> &p, T &cost) const noexcept { fun<T>(fc, 0, x, p, cost); }
    template <typename T> void equality_constraints_impl(const Eigen::Ref<const variable_t<T>> &x, const Eigen::Ref<const static_parameter_t> &p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept {
        for (int i = 0; i < NE; ++i) fun<T>(fe + i, i, x, p, c(i)); }
    template <typename T> void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>> &x, const Eigen::Ref<const static_parameter_t> &p, Eigen::Ref<ineq_constraint_t<T>> c) const noexcept {
        for (int i = 0; i < NI; ++i) fun<T>(fi + i, i + 1, x, p, c(i)); }
};
