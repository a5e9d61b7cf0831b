// C24: stand-alone collocation operators (ode, sparse ode, cost, constraints) against an independent long double / jet reference, for every
// dimension tuple, order, segment count, interval, functor and point of the menu, and every sequence of (re-)linearisations up to the depth bound.
#include "common.hpp"
#include "jet.hpp"
#ifdef POLYMPC_AD
#include "autodiff/AutoDiffScalar.h"
#endif
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include "control/constraints_collocation.hpp"
using V = Eigen::VectorXd; using M = Eigen::MatrixXd; using LV = Eigen::Matrix<long double, -1, 1>; using LM = Eigen::Matrix<long double, -1, -1>; using jets::Jet;
static int kind = 0;   // which function of the menu: the functors are default-constructed by the operators
template <typename T, typename W> T at(const W &v, int i) { if (v.size()) return T(v(i % v.size())); return T(0.0); }
template <typename T, typename X, typename U, typename P, typename O> void field(int k, double q, const X &x, const U &u, const P &p, O &out) {
    using std::sin; using std::cos; using std::exp; const int n = out.size();
    for (int i = 0; i < n; ++i) { T a = at<T>(x, i), b = at<T>(x, i + 1), w = at<T>(u, i), v = at<T>(u, i + 1); const double e = p.size() ? (double)p(i % p.size()) : 0.75;
        switch (k) {
        case 0: { T r = -0.5 * q * a; r += b; r += (1.0 + i) * w; r -= 0.25 * v; r += e; out(i) = r; } break;
        case 1: { T r = a * w; r += e * b; r += w * v; r -= a * b; r += q * a * a * a; out(i) = r; } break;
        case 2: { T s = sin(a); T c = cos(v); T g = exp(e * b); out(i) = s * c + q * g; } break;
        case 3: if (i == 0) out(i) = 1.5 * q; else out(i) = at<T>(x, i - 1); break;
        case 4: if (a > 0.25) { T r = a - 0.25; out(i) = r * r * r * q + w; } else out(i) = 0.0; break;
        } } }
template <typename T, typename X, typename U, typename P> void running(int k, double q, const X &x, const U &u, const P &p, T &out) {
    using std::sin; using std::exp; const double e = p.size() ? (double)p(0) : 0.75;
    switch (k) {
    case 0: { T r(0.5); for (int i = 0; i < x.size(); ++i) r += (1.0 + i) * x(i) * x(i); for (int i = 0; i < u.size(); ++i) r += (0.5 + i) * q * u(i) * u(i); out = r; } break;
    case 1: { T r(0.0); for (int i = 0; i < x.size(); ++i) { r += at<T>(x, i) * at<T>(x, i + 1); for (int j = 0; j < u.size(); ++j) r += (1.0 + i + 2 * j) * e * x(i) * u(j); } out = r * q; } break;
    case 2: { T s(0.25); for (int i = 0; i < x.size(); ++i) s += (0.3 + 0.1 * i) * x(i); for (int i = 0; i < u.size(); ++i) s += (0.2 - 0.1 * i) * u(i); T g = exp(s); T h = sin(s); out = g * h * e + q; } break;
    case 3: out = 2.0 * q; break;
    case 4: { T a = at<T>(x, 0); if (a > 0.25) { T r = a - 0.25; out = r * r * r + at<T>(u, 0); } else out = 0.0; } break;
    } }
template <int NX, int NU, int NP> struct Dyn { using Scalar = double; using State = Eigen::Matrix<double, NX, 1>; using Control = Eigen::Matrix<double, NU, 1>; using Parameters = Eigen::Matrix<double, NP, 1>; double q = 1.0;
    template <typename X, typename U, typename P, typename Y> void operator()(const Eigen::MatrixBase<X> &x, const Eigen::MatrixBase<U> &u, const Eigen::MatrixBase<P> &p, Eigen::MatrixBase<Y> &y) const { field<typename Y::Scalar>(kind, q, x.derived(), u.derived(), p.derived(), y.derived()); } };
template <int NX, int NU, int NP> struct Lag { using Scalar = double; using State = Eigen::Matrix<double, NX, 1>; using Control = Eigen::Matrix<double, NU, 1>; using Parameters = Eigen::Matrix<double, NP, 1>; double q = 1.0;
    template <typename X, typename U, typename P, typename T> void operator()(const Eigen::MatrixBase<X> &x, const Eigen::MatrixBase<U> &u, const Eigen::MatrixBase<P> &p, T &v) const { running<T>(kind, q, x.derived(), u.derived(), p.derived(), v); } };
template <int NX> struct May { double q = 1.0;
    template <typename X, typename T> void operator()(const Eigen::MatrixBase<X> &x, T &v) const { running<T>((kind + 1) % 5, q, x.derived(), Eigen::Matrix<typename X::Scalar, 0, 1>(), V(), v); } };
struct Grid { int P; LV x, w; LM D;
    template <typename N> Grid(int P_, const N &nodes) : P(P_), x(P_ + 1), w(P_ + 1), D(P_ + 1, P_ + 1) { const int n = P + 1;
        const long double pi = acosl(-1.0L); bool cheb = true; for (int j = 0; j < n; ++j) { x(j) = cosl(pi * j / P); cheb &= std::abs((double)x(j) - nodes(j)) < 1e-12; } if (!cheb) x = nodes.template cast<long double>();
        LV c(n); for (int j = 0; j < n; ++j) { c(j) = 1; for (int i = 0; i < n; ++i) if (i != j) c(j) /= (x(j) - x(i)); }
        for (int i = 0; i < n; ++i) { D(i, i) = 0; for (int j = 0; j < n; ++j) if (i != j) { D(i, j) = c(j) / c(i) / (x(i) - x(j)); D(i, i) -= D(i, j); } }
        LM A(n, n); LV b(n); for (int k = 0; k < n; ++k) { b(k) = k % 2 ? 0.0L : 2.0L / (1 - (long double)k * k); for (int j = 0; j < n; ++j) A(k, j) = cosl(k * acosl(std::min(1.0L, std::max(-1.0L, x(j))))); } w = A.fullPivLu().solve(b); } };
static V point(int k, int n) { V v(n); if (k == 0) for (int i = 0; i < n; ++i) v(i) = 0.5 * ((i * 7) % 5) - 0.9; else if (k == 1) for (int i = 0; i < n; ++i) v(i) = -0.25 * ((i * 3) % 7) + 0.8; else if (k == 2) v.setZero(); else if (k == 3) for (int i = 0; i < n; ++i) v(i) = i % 2 ? -0.6 : 0.9;
    else { v.setConstant(0.125); v((k - 4) / 2) = (k - 4) % 2 ? -0.8 : 1.2; } return v; }
static const double TL[][2] = {{-1, 1}, {0, 1}, {2, 5}, {-3, -2.5}, {4, 5}, {0, 3}};
static bool close(double a, double b, double s) { return std::abs(a - b) <= 1e-11 * (1 + s); }
template <typename A, typename B> static void same(const char *what, const A &a_, const B &b_) { const M a = a_, b = b_; bool ok = a.rows() == b.rows() && a.cols() == b.cols(); double s = b.size() ? b.cwiseAbs().maxCoeff() : 0; int bi = -1; for (int i = 0; ok && i < a.size(); ++i) if (!close(a.data()[i], b.data()[i], s)) { ok = false; bi = i; }
    vh::check(ok, what, vh::fmt("entry %d: %.12g, expected %.12g", bi, bi < 0 ? 0.0 : a.data()[bi], bi < 0 ? 0.0 : b.data()[bi])); }
template <int NX, int NU, int NP, typename Pol, int S> struct Test {
    enum { P = Pol::POLY_ORDER, NN = P * S + 1, VX = NX * NN, VU = NU * NN, N = VX + VU + NP, Z = NX + NU };
    using D = Dyn<NX, NU, NP>; using L = Lag<NX, NU, NP>; using Ode = polympc::ode_collocation<D, Pol, S>; using Sp = polympc::sparse_ode_collocation<D, Pol, S>;
    struct R { V c; M J; double cost; V g; M H; };
    template <int NY> static void node(int k, const V &v, double q, Eigen::Matrix<Jet, NY, 1> &f, int *idx) { Eigen::Matrix<Jet, NX, 1> x; Eigen::Matrix<Jet, NU, 1> u; Eigen::Matrix<double, NP, 1> p = v.tail((int)NP);
        for (int i = 0; i < NX; ++i) { idx[i] = k * NX + i; x(i) = Jet::var(v(idx[i]), i, Z); } for (int i = 0; i < NU; ++i) { idx[NX + i] = VX + k * NU + i; u(i) = Jet::var(v(idx[NX + i]), NX + i, Z); } field<Jet>(kind, q, x, u, p, f); }
    static R ref(const Grid &g, const V &v, double t0, double tf, double q) { R r; r.c = V::Zero(VX); r.J = M::Zero(VX, N); r.cost = 0; r.g = V::Zero(N); r.H = M::Zero(N, N); const double h = (tf - t0) / (2 * S);
        for (int k = 0; k < NN; ++k) { int idx[Z]; Eigen::Matrix<Jet, NX, 1> f; node<NX>(k, v, q, f, idx); const int s = std::min(k / P, S - 1), loc = k - s * P;
            for (int i = 0; i < NX; ++i) { const int row = k * NX + i; r.c(row) = -h * f(i).v; V gg = f(i).grad(Z); for (int j = 0; j < Z; ++j) r.J(row, idx[j]) -= h * gg(j); for (int j = 0; j <= P; ++j) { r.c(row) += (double)g.D(loc, j) * v((s * P + j) * NX + i); r.J(row, (s * P + j) * NX + i) += (double)g.D(loc, j); } }
            Eigen::Matrix<Jet, NX, 1> x; Eigen::Matrix<Jet, NU, 1> u; Eigen::Matrix<double, NP, 1> p = v.tail((int)NP); for (int i = 0; i < NX; ++i) x(i) = Jet::var(v(idx[i]), i, Z); for (int i = 0; i < NU; ++i) u(i) = Jet::var(v(idx[NX + i]), NX + i, Z);
            auto add = [&](const Jet &c, double w) { V gg = c.grad(Z); M hh = c.hess(Z); r.cost += w * c.v; for (int i = 0; i < Z; ++i) { r.g(idx[i]) += w * gg(i); for (int j = 0; j < Z; ++j) r.H(idx[i], idx[j]) += w * hh(i, j); } };
            double w = 0; for (int s2 = 0; s2 < S; ++s2) { int j = k - s2 * P; if (j >= 0 && j <= P) w += (double)g.w(j); } Jet c; running<Jet>(kind, q, x, u, p, c); add(c, h * w);
            if (k == 0) { Jet m; running<Jet>((kind + 1) % 5, q, x, Eigen::Matrix<Jet, 0, 1>(), V(), m); add(m, 1); } }
        return r; }
    static std::string id(const char *f) { return vh::fmt("%s/%d%d%d-%s%dx%d/", f, NX, NU, NP, CHEB ? "cheb" : "leg", P, S); }
    enum { CHEB = std::is_same<Pol, polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, double>>::value };
    // single calls: every function, interval, point; operators built both ways
    static void single(const Grid &g) {
        for (int ctor = 0; ctor < 2; ++ctor) for (kind = 0; kind < 5; ++kind) for (int ti = 0; ti < 4; ++ti) for (int pt = 0; pt < 4 + 2 * N; ++pt) {
            if (!vh::begin_lazy([&] { return id("single") + vh::fmt("%s/f%d/t%d/p%d", ctor ? "functor" : "default", kind, ti, pt); })) continue;
            const V v = point(pt, N); const double t0 = TL[ti][0], tf = TL[ti][1], q = ctor ? 2.5 : 1.0; const R r = ref(g, v, t0, tf, q); const typename Ode::var_t x = v; typename Ode::constr_t c, b; typename Ode::jacobian_t A; vh::op();
            D fun; fun.q = q; L lag; lag.q = q; May<NX> may; may.q = q;
            std::unique_ptr<Ode> ode(ctor ? new Ode(fun) : new Ode); c.setConstant(7); A.setConstant(7); b.setConstant(7); (*ode)(x, c, t0, tf); same("ode.value", c, r.c); ode->linearized(x, A, b, t0, tf); same("ode.linearized.value", b, r.c); same("ode.jacobian", A, r.J);
            std::unique_ptr<Sp> sp(ctor ? new Sp(fun) : new Sp); typename Sp::jacobian_t As(VX, N); c.setConstant(7); b.setConstant(7); (*sp)(x, c, t0, tf); same("sparse.value", c, r.c); sp->linearized(x, As, b, t0, tf); same("sparse.linearized.value", b, r.c); same("sparse.jacobian", M(As), r.J);
            vh::state(vh::Hash().i(kind).i(ti).m(r.c).h); cost(std::integral_constant<bool, CHEB>(), ctor, lag, may, v, t0, tf, r);
            if (!ctor && ti == 0) { gen<1>(v, q); gen<2>(v, q); gen<3>(v, q); }
        } }
    static void cost(std::false_type, int, const L &, const May<NX> &, const V &, double, double, const R &) {}
    static void cost(std::true_type, int ctor, const L &lag, const May<NX> &may, const V &v, double t0, double tf, const R &r) { using C = polympc::cost_collocation<L, May<NX>, Pol, S>; std::unique_ptr<C> cc(ctor ? new C(lag, may) : new C);
        const typename C::var_t x = v; typename C::var_t gr; typename C::hessian_t H; gr.setConstant(7); H.setConstant(7); double c = 7; auto sc = [&](const char *w) { vh::check(std::abs(c - r.cost) <= 1e-11 * (1 + std::abs(r.cost)), w, vh::fmt("%.12g, expected %.12g", c, r.cost)); c = 7; };
        for (int rep = 0; rep < 2; ++rep) { (*cc)(x, c, t0, tf); sc("cost.value"); cc->value_gradient(x, c, gr, t0, tf); sc("cost.gradient.value"); same("cost.gradient", gr, r.g); cc->value_gradient_hessian(x, c, gr, H, t0, tf); sc("cost.hessian.value"); same("cost.hessian.gradient", gr, r.g); same("cost.hessian", H, r.H); } }
    template <int NY> struct Gen { double q; template <typename X, typename U, typename Q, typename Y> void operator()(const Eigen::MatrixBase<X> &x, const Eigen::MatrixBase<U> &u, const Eigen::MatrixBase<Q> &p, Eigen::MatrixBase<Y> &y) const { field<double>(kind, q, x.derived(), u.derived(), p.derived(), y.derived()); } };
    template <int NY> static void gen(const V &v, double q) { using C = polympc::constraint_collocation<NX, NU, NP, Pol, S>; C cc; const typename C::var_t x = v; Gen<NY> f{q}; typename C::template value_t<NY> y; y.setConstant(7); V e(NY * NN);
        for (int k = 0; k < NN; ++k) { int idx[Z]; Eigen::Matrix<Jet, NY, 1> o; node<NY>(k, v, q, o, idx); for (int i = 0; i < NY; ++i) e(k * NY + i) = o(i).v; }
        cc.template generic_function<Gen<NY>, NY>(f, x, y); same("constraints.value", y, e); V y2 = cc.template generic_function<Gen<NY>, NY>(f, x); same("constraints.returned", y2, e); }
    // histories of linearisations with one operator and one matrix
    static void histories(const Grid &g) { const int NO = 11; const int depth = vh::thorough() ? 4 : 3; static const int OP[NO][3] = {{0, 0, 4}, {0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 2, 1}, {1, 2, 2}, {2, 1, 0}, {3, 0, 3}, {4, 3, 0}, {2, 2, 2}, {1, 1, 3}}; // function, point, interval
        for (int L_ = 2; L_ <= depth; ++L_) { int tot = 1; for (int i = 0; i < L_; ++i) tot *= NO;
            for (int c = 0; c < tot; ++c) for (int mode = 0; mode < 3; ++mode) {   // matrix: as returned, uncompressed by the user in between, squeezed through a copy
                if (!vh::begin_lazy([&] { std::string n = id("history") + vh::fmt("mode%d/", mode); int q = c; for (int i = 0; i < L_; ++i) { n += vh::fmt("%d,", q % NO); q /= NO; } return n; })) continue;
                Sp sp; Ode ode; typename Sp::jacobian_t As(VX, N); typename Ode::jacobian_t A; typename Ode::constr_t b, bs; int q = c; R r;
                for (int i = 0; i < L_; ++i) { const int *o = OP[q % NO]; q /= NO; kind = o[0]; const V v = point(o[1], N); const typename Ode::var_t x = v; r = ref(g, v, TL[o[2]][0], TL[o[2]][1], 1.0); vh::op();
                    if (i && mode == 1) As.uncompress(); if (i && mode == 2) { typename Sp::jacobian_t t = As; As = t; }
                    sp.linearized(x, As, bs, TL[o[2]][0], TL[o[2]][1]); ode.linearized(x, A, b, TL[o[2]][0], TL[o[2]][1]); }
                same("history.sparse.value", bs, r.c); same("history.sparse.jacobian", M(As), r.J); same("history.dense.value", b, r.c); same("history.dense.jacobian", A, r.J); vh::state(vh::Hash().m(A).h);
            } } }
    static void all() { Pol p; Grid g(P, p.CPoints()); single(g); histories(g); }
};
void vh_run() {
#define CH(P) polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, double>
#define LG(P) polympc::Legendre<P, polympc::GAUSS_LOBATTO, double>
#define X(a, b, c, pol, S) Test<a, b, c, pol, S>::all();
    LIST
#undef X
}
