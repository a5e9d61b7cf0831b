// A menu of optimal control problems (templates over all dimensions) and an independent reference transcription:
// Chebyshev-Gauss-Lobatto nodes, differentiation and quadrature from their definitions in long double,
// user functions evaluated with second-order jets.
#pragma once
#include "common.hpp"
#include "jet.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
namespace ocp {
template <typename T, typename V> T at(const V &v, int i) { if (v.size()) return T(v(i % v.size())); return T(0.0); }

// ---- the function menu; s is the row
enum { NFD = 6, NFL = 6, NFM = 5, NFG = 5 };
template <typename T, typename X, typename U, typename P, typename D, typename O> void dyn(int k, const X &x, const U &u, const P &p, const D &d, const T &t, O &out) {
    using std::sin; using std::cos; using std::exp;
    const int n = x.size(); const double q = d.size() ? d(d.size() - 1) : 0.5;
    for (int i = 0; i < n; ++i) {
        T a = at<T>(x, i), b = at<T>(x, i + 1), w = at<T>(u, i), v = at<T>(u, i + 1), e = at<T>(p, i), f = at<T>(p, i + 1);
        switch (k) {
        case 0: { T r = -0.5 * a; r += b; r += (1.0 + i) * w; r -= 0.25 * v; r += 2.0 * e; r += q * f; out(i) = r; } break;          // linear
        case 1: { T r = a * w; r += e * b; r += w * v * f; r -= a * b; r += q * e * e; out(i) = r; } break;                            // polynomial
        case 2: { T r = sin(a); T c = cos(v); T g = exp(0.3 * e); r += c * g; r += t * b; r += t * w * q; out(i) = r; } break;       // transcendental, time
        case 3: if (i == 0) out(i) = 1.5; else out(i) = at<T>(x, i - 1); break;                                                       // a constant row
        case 4: if (a > 0.25) { T r = a - 0.25; out(i) = r * r * r + w; } else out(i) = 0.0; break;                                  // one-sided
        case 5: { T r = a * a * a; r += v * v * e; r += t * t; r += w * e * f * 3.0; out(i) = r; } break;
        }
    }
}
template <typename T, typename X, typename U, typename P, typename D> void lag(int k, const X &x, const U &u, const P &p, const D &d, double t, T &out) {
    using std::sin; using std::cos; using std::exp;
    const int nx = x.size(), nu = u.size(), np = p.size(); const double q = d.size() ? d(0) : 0.5;
    switch (k) {
    case 0: { T r(0.5 * q); for (int i = 0; i < nx; ++i) r += (1.0 + i) * x(i) * x(i); for (int i = 0; i < nu; ++i) r += (0.5 + i) * u(i) * u(i); for (int i = 0; i < np; ++i) r += (2.0 + i) * p(i) * p(i); out = r; } break;
    case 1: { T r(0.0); for (int i = 0; i < nx; ++i) { r += at<T>(x, i) * at<T>(x, i + 1); for (int j = 0; j < nu; ++j) r += (1.0 + i + 2 * j) * x(i) * u(j); for (int j = 0; j < np; ++j) r += (2.0 + i - j) * x(i) * p(j) * t; }
        for (int i = 0; i < nu; ++i) for (int j = 0; j < np; ++j) r += (0.5 + i + j) * u(i) * p(j) * q; for (int i = 0; i < np; ++i) r += at<T>(p, i) * at<T>(p, i + 1); out = r; } break;
    case 2: { T s(0.25), c(0.0); for (int i = 0; i < nx; ++i) s += (0.3 + 0.1 * i) * x(i); for (int i = 0; i < nu; ++i) { s += (0.2 - 0.1 * i) * u(i); c += u(i); } for (int i = 0; i < np; ++i) { s += 0.4 * p(i); c -= (1.0 + i) * p(i); }
        T e = exp(s); T g = sin(c); out = e * g + t * e; } break;
    case 3: out = 2.0 + t; break;                                                                                                      // constant
    case 4: { T a = at<T>(x, 0); if (a > 0.25) { T r = a - 0.25; out = r * r * r + at<T>(u, 0); } else out = 0.0; } break;
    case 5: { T r = at<T>(u, 1) * at<T>(u, 0); r += at<T>(p, 0) * at<T>(p, 1) * at<T>(u, 2); r += t * at<T>(p, 1); out = r; } break;      // does not involve the state
    }
}
template <typename T, typename X, typename U, typename P, typename D> void may(int k, const X &x, const U &u, const P &p, const D &d, double t, T &out) {
    const double q = d.size() ? d(0) : 0.5;
    switch (k) {
    case 0: { T r(0.0); for (int i = 0; i < x.size(); ++i) { T a = at<T>(x, i) - 0.5 * i; r += (3.0 + i) * a * a; } out = r; } break;
    case 1: lag<T>(1, x, u, p, d, t + 0.5, out); break;
    case 2: lag<T>(2, x, u, p, d, t, out); break;
    case 3: out = q; break;
    case 4: { T r = at<T>(p, 0) * at<T>(p, 1) * at<T>(p, 1); r += at<T>(u, 1) * at<T>(u, 1) * 2.0; r += at<T>(u, 0) * at<T>(p, 1) * q; out = r; } break; // does not involve the state
    }
}
template <typename T, typename X, typename U, typename P, typename D, typename O> void ineq(int k, const X &x, const U &u, const P &p, const D &d, double t, O &&out) {
    using std::sin; using std::exp;
    const double q = d.size() ? d(0) : 0.5;
    for (int i = 0; i < out.size(); ++i) {
        T a = at<T>(x, i), b = at<T>(x, i + 1), w = at<T>(u, i), v = at<T>(u, i + 1), e = at<T>(p, i), f = at<T>(p, i + 1);
        switch (k) {
        case 0: { T r = 2.0 * a; r += w - 0.5 * v; r += (1.0 + i) * e; out(i) = r + q; } break;
        case 1: { T r = a * w; r += a * e; r += w * f; r += e * f; r += b * b * t; out(i) = r; } break;
        case 2: { T s = sin(b + v); T g = exp(0.5 * f); out(i) = s * g + t * a; } break;
        case 3: if (i == 0) out(i) = 0.75; else out(i) = v; break;
        case 4: if (w > 0.25) { T r = w - 0.25; out(i) = r * r * r * b + e; } else out(i) = 0.0; break;
        }
    }
}
// VAR: 0 everything, 1 no running cost, 2 no terminal cost, 3 neither
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT, int VAR> class Ocp;
template <typename Self, int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT>
class Core : public ContinuousOCP<Self, polympc::Spline<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, double>, S>, FMT> {
public:
    using Base = ContinuousOCP<Self, polympc::Spline<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, double>, S>, FMT>;
    template <typename T> using xt = Eigen::Ref<const Eigen::Matrix<T, NX, 1>>; template <typename T> using ut = Eigen::Ref<const Eigen::Matrix<T, NU, 1>>; template <typename T> using pt = Eigen::Ref<const Eigen::Matrix<T, NP, 1>>;
    using dt = Eigen::Ref<const Eigen::Matrix<double, ND, 1>>;
    int fd = 0, fl = 0, fm = 0, fg = 0;
    template <typename T> void dynamics_impl(const xt<T> x, const ut<T> u, const pt<T> p, const dt d, const T &t, Eigen::Ref<Eigen::Matrix<T, NX, 1>> xdot) const noexcept { dyn<T>(fd, x, u, p, d, t, xdot); }
    template <typename T> void inequality_constraints_impl(const xt<T> x, const ut<T> u, const pt<T> p, const dt d, const double &t, Eigen::Ref<Eigen::Matrix<T, NG, 1>> g) const noexcept { ineq<T>(fg, x, u, p, d, t, g); }
};
#define OCP_T template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT>
#define OCP_C(V) Core<Ocp<NX, NU, NP, ND, NG, P, S, FMT, V>, NX, NU, NP, ND, NG, P, S, FMT>
#define OCP_L template <typename T> void lagrange_term_impl(const typename C::template xt<T> x, const typename C::template ut<T> u, const typename C::template pt<T> p, const typename C::dt d, const double &t, T &l) const noexcept { lag<T>(this->fl, x, u, p, d, t, l); }
#define OCP_M template <typename T> void mayer_term_impl(const typename C::template xt<T> x, const typename C::template ut<T> u, const typename C::template pt<T> p, const typename C::dt d, const double &t, T &m) const noexcept { may<T>(this->fm, x, u, p, d, t, m); }
OCP_T class Ocp<NX, NU, NP, ND, NG, P, S, FMT, 0> : public OCP_C(0) { public: using C = OCP_C(0); enum { HASL = 1, HASM = 1 }; OCP_L OCP_M };
OCP_T class Ocp<NX, NU, NP, ND, NG, P, S, FMT, 1> : public OCP_C(1) { public: using C = OCP_C(1); enum { HASL = 0, HASM = 1 }; OCP_M };
OCP_T class Ocp<NX, NU, NP, ND, NG, P, S, FMT, 2> : public OCP_C(2) { public: using C = OCP_C(2); enum { HASL = 1, HASM = 0 }; OCP_L };
} // namespace ocp
template <int a, int b, int c, int d, int e, int P, int S, int F, int V> struct polympc_traits<ocp::Ocp<a, b, c, d, e, P, S, F, V>> { using Scalar = double; enum { NX = a, NU = b, NP = c, ND = d, NG = e }; };
namespace ocp {
using V = Eigen::VectorXd; using M = Eigen::MatrixXd; using LV = Eigen::Matrix<long double, -1, 1>; using LM = Eigen::Matrix<long double, -1, -1>;
// one segment on [-1,1], nodes descending: x_j = cos(pi j / P)
struct Grid { int P; LV x, w; LM D;
    explicit Grid(int P_) : P(P_), x(P_ + 1), w(P_ + 1), D(P_ + 1, P_ + 1) {
        const long double pi = acosl(-1.0L);
        for (int j = 0; j <= P; ++j) x(j) = cosl(pi * j / P);
        // barycentric weights and differentiation matrix
        LV c(P + 1); for (int j = 0; j <= P; ++j) { c(j) = 1; for (int i = 0; i <= P; ++i) if (i != j) c(j) /= (x(j) - x(i)); }
        for (int i = 0; i <= P; ++i) { D(i, i) = 0; for (int j = 0; j <= P; ++j) if (i != j) { D(i, j) = c(j) / c(i) / (x(i) - x(j)); D(i, i) -= D(i, j); } }
        // interpolatory quadrature: exact for T_0..T_P
        LM A(P + 1, P + 1); LV b(P + 1); for (int k = 0; k <= P; ++k) { b(k) = k % 2 ? 0.0L : 2.0L / (1 - (long double)k * k); for (int j = 0; j <= P; ++j) A(k, j) = cosl(k * pi * j / P); }
        w = A.fullPivLu().solve(b);
    } };
struct Ref { double cost, lagr; V g, ce, ci, lg; M H, Je, Ji, LH; };
// reference NLP functions at var (layout x nodes, u nodes, p; node 0 = final time) with multipliers lam
template <int NX, int NU, int NP, int ND, int NG, int P, int S> struct Reference {
    enum { NN = P * S + 1, VX = NX * NN, VU = NU * NN, N = VX + VU + NP, NE = VX, NI = NG * NN, Z = NX + NU + NP };
    Grid grid{P};
    double time(int k, double t0, double tf) const { int s = std::min(k / P, S - 1), j = k - s * P; long double h = ((long double)tf - t0) / S; long double mid = tf - h * (s + 0.5L); return (double)(mid + h / 2 * grid.x(j)); }
    template <typename O> Ref eval(const O &o, const V &var, const V &dv, double t0, double tf, const V &lam, double cscale, bool deriv = true) const {
        using J = jets::Jet; Ref r; const double h = (tf - t0) / (2 * S);
        Eigen::Matrix<double, ND, 1> d = dv; r.cost = 0; r.g = V::Zero(N); r.H = M::Zero(N, N); r.ce = V::Zero(NE); r.ci = V::Zero(NI); r.Je = M::Zero(NE, N); r.Ji = M::Zero(NI, N); r.LH = M::Zero(N, N);
        for (int k = 0; k < NN; ++k) {
            int idx[Z + 1]; for (int i = 0; i < NX; ++i) idx[i] = k * NX + i; for (int i = 0; i < NU; ++i) idx[NX + i] = VX + k * NU + i; for (int i = 0; i < NP; ++i) idx[NX + NU + i] = VX + VU + i;
            Eigen::Matrix<J, NX, 1> x; Eigen::Matrix<J, NU, 1> u; Eigen::Matrix<J, NP, 1> p; auto mk = [&](int i) { return deriv ? J::var(var(idx[i]), i, Z) : J(var(idx[i])); };
            for (int i = 0; i < NX; ++i) x(i) = mk(i); for (int i = 0; i < NU; ++i) u(i) = mk(NX + i); for (int i = 0; i < NP; ++i) p(i) = mk(NX + NU + i);
            const double t = time(k, t0, tf);
            auto addg = [&](const J &c, double w) { V g = c.grad(Z); M hh = c.hess(Z); r.cost += w * c.v; for (int i = 0; i < Z; ++i) { r.g(idx[i]) += w * g(i); for (int j = 0; j < Z; ++j) { r.H(idx[i], idx[j]) += w * hh(i, j); r.LH(idx[i], idx[j]) += cscale * w * hh(i, j); } } };
            // running cost: the node counts once per segment it belongs to
            if (O::HASL) { double w = 0; for (int s = 0; s < S; ++s) { int j = k - s * P; if (j >= 0 && j <= P) w += (double)grid.w(j); } J c; lag<J>(o.fl, x, u, p, d, t, c); addg(c, h * w); }
            if (O::HASM && k == 0) { J c; may<J>(o.fm, x, u, p, d, t, c); addg(c, 1.0); }
            auto addL = [&](const J &c, double w) { M hh = c.hess(Z); for (int i = 0; i < Z; ++i) for (int j = 0; j < Z; ++j) r.LH(idx[i], idx[j]) += w * hh(i, j); };
            // dynamics residual: the derivative of the segment polynomial; at a shared node the earlier segment in time
            Eigen::Matrix<J, NX, 1> f; dyn<J>(o.fd, x, u, p, d, J(t), f); int s = std::min(k / P, S - 1), loc = k - s * P;
            for (int i = 0; i < NX; ++i) { int row = k * NX + i; r.ce(row) = -h * f(i).v; V g = f(i).grad(Z); for (int j = 0; j < Z; ++j) r.Je(row, idx[j]) -= h * g(j);
                for (int j = 0; j <= P; ++j) { int c = (s * P + j) * NX + i; r.ce(row) += (double)grid.D(loc, j) * var(c); r.Je(row, c) += (double)grid.D(loc, j); }
                addL(f(i), -h * lam(row)); }
            if (NG > 0) { Eigen::Matrix<J, NG, 1> g; ineq<J>(o.fg, x, u, p, d, t, g); for (int i = 0; i < NG; ++i) { int row = k * NG + i; r.ci(row) = g(i).v; V gg = g(i).grad(Z); for (int j = 0; j < Z; ++j) r.Ji(row, idx[j]) += gg(j); addL(g(i), lam(NE + row)); } }
        }
        r.lg = r.g + r.Je.transpose() * lam.head((int)NE) + r.Ji.transpose() * lam.segment((int)NE, (int)NI) + lam.tail((int)N);
        r.lagr = r.cost + r.ce.dot(lam.head((int)NE)) + r.ci.dot(lam.segment((int)NE, (int)NI)) + var.dot(lam.tail((int)N));
        return r;
    }
};
// points: patterns first (index < 4), then a bump of every single variable
inline V point(int k, int n) { V v(n); if (k == 0) { for (int i = 0; i < n; ++i) v(i) = 0.5 * ((i * 7) % 5) - 0.9; } else if (k == 1) { for (int i = 0; i < n; ++i) v(i) = -0.25 * ((i * 3) % 7) + 0.8; } else if (k == 2) v.setZero(); else if (k == 3) { for (int i = 0; i < n; ++i) v(i) = 1.0 - 2.0 * i / n; }
    else { v.setConstant(0.125); v((k - 4) / 2) = (k - 4) % 2 ? -0.8 : 1.2; } return v; }
inline int npoints(int n) { return 4 + 2 * n; }
inline V multipliers(int n) { V v(n); for (int i = 0; i < n; ++i) v(i) = ((i % 2) ? -1.0 : 1.0) * (0.3 + 0.17 * (i % 6)); return v; }
// multiplier menu: every block alone, every single entry alone, every node (dynamics + path constraints) missing
inline int nmult(int ne, int ni, int n, int nn) { return 5 + ne + ni + n + nn; }
inline V multk(int k, int ne, int ni, int n, int nn) { const int D = ne + ni + n; V f = multipliers(D), v = V::Zero(D);
    switch (k) { case 0: return f; case 1: return v; case 2: v.head(ne) = f.head(ne); return v; case 3: v.segment(ne, ni) = f.segment(ne, ni); return v; case 4: v.tail(n) = f.tail(n); return v; }
    k -= 5; if (k < D) { v(k) = k % 2 ? -2.0 : 1.5; return v; }
    k -= D; const int a = ne / nn, b = ni / nn; f.segment(k * a, a).setZero(); f.segment(ne + k * b, b).setZero(); return f; }
static const double TL[][2] = {{0, 1}, {-1, 1}, {2, 5}, {0, 0.125}, {-3, -2.5}, {4, 5}, {3, 5}, {-1, 0}};
}
