// Convex NLPs with a solution known by construction: the linear cost term (a parameter) is chosen so that the KKT conditions hold at a
// prescribed point x* with a prescribed active set and prescribed multipliers; strong convexity makes x* the unique solution.
#pragma once
#include "common.hpp"
#include "jet.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"
#include "solvers/qp_preconditioners.hpp"
namespace nlp {
enum { NQ = 5, NG = 3 };
template <int NX, int NE, int NI> class Convex;
}
#ifndef DIMS
#define DIMS D(2,1,1)
#endif
#define D(a, b, c) template <> struct nlp_traits<nlp::Convex<a, b, c>> { using Scalar = double; enum { NX = a, NE = b, NI = c, NP = a + b }; };
DIMS
#undef D
namespace nlp {
template <int NX, int NE, int NI> class Convex : public ProblemBase<Convex<NX, NE, NI>> {
public:
    using B = ProblemBase<Convex<NX, NE, NI>>;
    template <typename T> using variable_t = typename B::template variable_t<T>;
    template <typename T> using eq_constraint_t = typename B::template eq_constraint_t<T>;
    template <typename T> using ineq_constraint_t = typename B::template ineq_constraint_t<T>;
    using static_parameter_t = typename B::static_parameter_t;
    int kq = 0, kg = 0;
    template <typename T> void cost_impl(const Eigen::Ref<const variable_t<T>> &x, const Eigen::Ref<const static_parameter_t> &p, T &cost) const noexcept {
        using std::exp; using std::sqrt;
        T r(0.0);
        switch (kq) {
        case 0: for (int i = 0; i < NX; ++i) { r += x(i) * x(i); if (i) r -= 0.5 * x(i) * x(i - 1); } break;
        case 1: for (int i = 0; i < NX; ++i) r += (0.5 + 2.0 * i) * x(i) * x(i); break;
        case 2: for (int i = 0; i < NX; ++i) { T e = exp(x(i)); r += e; r += 0.5 * x(i) * x(i); } break;
        case 3: for (int i = 0; i < NX; ++i) { T s = x(i) * x(i); r += 0.5 * s; r += 0.25 * s * s; } break;
        case 4: { T s = x.dot(x); T w = sqrt(s + 1.0); r += w; r += 0.5 * s; break; }
        // beyond the convex menu (kq < NQ): used by the step-by-step monitor only
        case 5: for (int i = 0; i < NX; ++i) { T a = 1.0 - x(i); r += a * a; if (i) { T b = x(i) - x(i - 1) * x(i - 1); r += 10.0 * b * b; } } break;
        case 6: for (int i = 0; i < NX; ++i) { r += (i % 2 ? -0.5 : 1.0) * x(i) * x(i); T e = exp(0.5 * x(i)); r += e; } break;
        }
        for (int i = 0; i < NX; ++i) r += p(i) * x(i);
        cost = r;
    }
    template <typename T> void equality_constraints_impl(const Eigen::Ref<const variable_t<T>> &x, const Eigen::Ref<const static_parameter_t> &p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept {
        for (int k = 0; k < NE; ++k) { T r = -1.0 * x(k); for (int i = 0; i < NX; ++i) r += (1.0 + 0.5 * ((i + k) % 3)) * x(i); c(k) = r - p(NX + k); } }
    template <typename T> void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>> &x, const Eigen::Ref<const static_parameter_t> &p, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept {
        using std::exp;
        for (int k = 0; k < NI; ++k) {
            switch (kg) {
            case 0: { T r = 0.5 * x(0); for (int i = 0; i < NX; ++i) r += ((i + k) % 2 ? -1.0 : 1.5) * x(i); g(k) = r; break; }
            case 1: { T r(0.0); for (int i = 0; i < NX; ++i) { T d = x(i) - 0.5 * k; r += 0.5 * d * d; } g(k) = r; break; }
            case 2: { T e = exp(0.5 * x(k % NX)); T r = e; r += (k ? -1.0 : 0.5) * x(NX - 1); g(k) = r; break; }
            }
        }
    }
};
// scenario = bounds, parameters and the known solution
template <int NX, int NE, int NI> struct Scen {
    int kq, kg; Eigen::Matrix<double, NX, 1> x, lbx, ubx; Eigen::Matrix<double, NI, 1> lbg, ubg; Eigen::Matrix<double, NX + NE, 1> p; Eigen::Matrix<double, NX + NE + NI, 1> lam;
    bool licq, wide = false; std::string name;
};
inline double INFTY() { return std::numeric_limits<double>::infinity(); }
template <int NX, int NE, int NI, typename P> struct Kkt { double stat, viol, comp; };

// patt: per inequality 0 inactive finite, 1 upper active, 2 one-sided inactive, 3 lower active (linear only), 4 two-sided tight (equality, linear only)
// box: per variable 0 free, 1 inactive finite, 2 upper active, 3 lower active, 4 fixed
template <int NX, int NE, int NI> Scen<NX, NE, NI> make(int kq, int kg, const std::array<int, NX> &xs, const std::vector<int> &gp, const std::array<int, NX> &bp, double mul) {
    using P = Convex<NX, NE, NI>; using J = jets::Jet; P pb; pb.kq = kq; pb.kg = kg;
    Scen<NX, NE, NI> s; s.kq = kq; s.kg = kg; s.p.setZero(); s.lam.setZero();
    for (int i = 0; i < NX; ++i) s.x(i) = 0.5 * xs[i];
    Eigen::Matrix<J, NX, 1> xj; for (int i = 0; i < NX; ++i) xj(i) = J::var(s.x(i), i, NX);
    Eigen::Matrix<J, NE, 1> e; Eigen::Matrix<J, NI, 1> g; J c;
    pb.template equality_constraints<J>(xj, s.p, e);
    for (int k = 0; k < NE; ++k) { s.p(NX + k) = e(k).v; s.lam(k) = (k % 2 ? -1 : 1) * mul; }
    pb.template inequality_constraints<J>(xj, s.p, g); pb.template cost<J>(xj, s.p, c);
    Eigen::VectorXd grad = c.grad(NX); Eigen::MatrixXd act(0, NX);
    auto push = [&](const Eigen::VectorXd &r) { act.conservativeResize(act.rows() + 1, NX); act.row(act.rows() - 1) = r.transpose(); };
    for (int k = 0; k < NE; ++k) { grad += s.lam(k) * e(k).grad(NX); push(e(k).grad(NX)); }
    for (int k = 0; k < NI; ++k) {
        double v = g(k).v; s.lbg(k) = -INFTY(); s.ubg(k) = INFTY();
        switch (gp[k]) {
        case 0: if (kg == 0) s.lbg(k) = v - 1; s.ubg(k) = v + 1; break;
        case 1: s.ubg(k) = v; s.lam(NE + k) = mul; break;
        case 2: s.ubg(k) = v + 0.5; break;
        case 3: s.lbg(k) = v; s.ubg(k) = v + 2; s.lam(NE + k) = -mul; break;
        case 4: s.lbg(k) = v; s.ubg(k) = v; s.lam(NE + k) = mul; break;
        }
        if (gp[k] % 2 || gp[k] == 4) push(g(k).grad(NX));
        grad += s.lam(NE + k) * g(k).grad(NX);
    }
    for (int i = 0; i < NX; ++i) {
        s.lbx(i) = -INFTY(); s.ubx(i) = INFTY(); int q = NE + NI + i;
        switch (bp[i]) {
        case 1: s.lbx(i) = s.x(i) - 1; s.ubx(i) = s.x(i) + 1; break;
        case 2: s.ubx(i) = s.x(i); s.lam(q) = mul; break;
        case 3: s.lbx(i) = s.x(i); s.ubx(i) = s.x(i) + 2; s.lam(q) = -mul; break;
        case 4: s.lbx(i) = s.ubx(i) = s.x(i); s.lam(q) = -mul; break;
        }
        if (bp[i] >= 2) push(Eigen::VectorXd::Unit(NX, i));
        grad(i) += s.lam(q);
    }
    for (int i = 0; i < NX; ++i) s.p(i) = -grad(i);
    if (act.rows() == 0) s.licq = true;
    else { Eigen::JacobiSVD<Eigen::MatrixXd> svd(act); s.licq = act.rows() <= NX && svd.singularValues().minCoeff() > 0.2; }
    s.name = vh::fmt("q%d/g%d/x", kq, kg); for (int v : xs) s.name += vh::fmt("%+d", v);
    s.name += "/ineq"; for (int v : gp) s.name += vh::fmt("%d", v);
    s.name += "/box"; for (int v : bp) s.name += vh::fmt("%d", v);
    s.name += vh::fmt("/mult%g", mul);
    return s;
}
// every scenario of the alphabet, visited through f
template <int NX, int NE, int NI, typename F> void each(const std::vector<int> &xsA, const std::vector<double> &muls, F f) {
    std::vector<std::vector<int>> gps, bps; std::vector<int> z;
    auto cart = [](int n, int k) { std::vector<std::vector<int>> r; std::vector<int> c(n, 0); for (;;) { r.push_back(c); int i = n - 1; while (i >= 0 && ++c[i] == k) c[i--] = 0; if (i < 0) break; } return r; };
    for (int kq = 0; kq < NQ; ++kq) for (int kg = 0; kg < (NI ? NG : 1); ++kg)
        for (auto &xc : cart(NX, xsA.size())) for (auto &gp : cart(NI, kg == 0 ? 5 : 3)) for (auto &bp : cart(NX, 5)) {
            int na = NE; for (int v : gp) na += (v == 1 || v == 3 || v == 4); for (int v : bp) na += v >= 2; 
            bool anyact = na > 0;
            std::array<int, NX> xs, b; for (int i = 0; i < NX; ++i) { xs[i] = xsA[xc[i]]; b[i] = bp[i]; }
            for (double m : muls) { if (!anyact && m != muls[0]) continue; f(make<NX, NE, NI>(kq, kg, xs, gp, b, m)); }
        }
}
// first-order optimality residuals of (x, lam) for the scenario
template <int NX, int NE, int NI> struct Resid { double stat, viol, comp, hnorm; };
template <int NX, int NE, int NI, typename P> Resid<NX, NE, NI> kkt(const P &pb, const Eigen::Matrix<double, NX, 1> &x, const Eigen::Matrix<double, NX + NE + NI, 1> &lam, const Eigen::VectorXd &p,
    const Eigen::Matrix<double, NX, 1> &lbx, const Eigen::Matrix<double, NX, 1> &ubx, const Eigen::Matrix<double, NI, 1> &lbg, const Eigen::Matrix<double, NI, 1> &ubg) {
    using J = jets::Jet; Eigen::Matrix<J, NX, 1> xj; for (int i = 0; i < NX; ++i) xj(i) = J::var(x(i), i, NX);
    typename P::static_parameter_t pp = p;
    Eigen::Matrix<J, NE, 1> e; Eigen::Matrix<J, NI, 1> g; J c;
    pb.template cost<J>(xj, pp, c); pb.template equality_constraints<J>(xj, pp, e); pb.template inequality_constraints<J>(xj, pp, g);
    Resid<NX, NE, NI> r{0, 0, 0, 0}; Eigen::VectorXd s = c.grad(NX); Eigen::MatrixXd H = c.hess(NX);
    auto upd = [&](double v, double l, double u, double m) { // value, bounds, multiplier
        r.viol = std::max(r.viol, std::max(l - v, v - u));
        if (m > 0) r.comp = std::max(r.comp, std::min(m, std::isfinite(u) ? std::abs(u - v) : 1e300)); else r.comp = std::max(r.comp, std::min(-m, std::isfinite(l) ? std::abs(v - l) : 1e300)); };
    for (int k = 0; k < NE; ++k) { s += lam(k) * e(k).grad(NX); H += lam(k) * e(k).hess(NX); upd(e(k).v, 0, 0, lam(k)); }
    for (int k = 0; k < NI; ++k) { s += lam(NE + k) * g(k).grad(NX); H += lam(NE + k) * g(k).hess(NX); upd(g(k).v, lbg(k), ubg(k), lam(NE + k)); }
    for (int i = 0; i < NX; ++i) { s(i) += lam(NE + NI + i); upd(x(i), lbx(i), ubx(i), lam(NE + NI + i)); }
    r.stat = s.template lpNorm<Eigen::Infinity>(); r.hnorm = H.norm(); return r;
}
template <typename Problem, typename QP, typename Pre> class Solver : public SQPBase<Solver<Problem, QP, Pre>, Problem, QP, Pre> {};
template <typename S, typename SC> void apply(S &s, const SC &sc) {
    s.get_problem().kq = sc.kq; s.get_problem().kg = sc.kg; s.lower_bound_x() = sc.lbx; s.upper_bound_x() = sc.ubx; s.lower_bound_g() = sc.lbg; s.upper_bound_g() = sc.ubg; s.parameters() = sc.p; }
}
