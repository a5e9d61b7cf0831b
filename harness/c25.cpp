// C25: the Ipopt adapter presents the user's problem. The adapter's TNLP callbacks are driven in every order over points, multipliers and
// objective factors by a stand-in for Ipopt (stubs/ipopt) that owns exactly sized buffers; the interface object is driven through histories of
// settings and solves whose outcome the stand-in chooses.
#include "solvers/ipopt_interface.hpp"
#ifdef NLP
#include "nlp_menu.hpp"
#else
#include "ocp_common.hpp"
#endif
#include <functional>
using V = Eigen::VectorXd; using M = Eigen::MatrixXd; using Ipopt::Index; using Ipopt::Number;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
struct Exp { double f; V g, grad; M J; };
template <class Pb> struct Drive {
    using Ad = IpoptAdapter<Pb>; enum { N = Pb::VAR_SIZE, MM = Pb::NUM_EQ + Pb::NUM_INEQ };
    std::vector<V> pts, lams; std::vector<Exp> ex; std::function<M(int, const V &, double)> hess; std::vector<double> sig = {1, 0, 0.375};
    std::function<void(Ad &)> init;
    struct St { std::vector<Index> jr, jc, hr, hc; int nj = 0, nh = 0; int lastx = -1, lastl = -1; };
    void structure(Ad &a, St &s) {
        Ipopt::TNLP &t = a; Index n = -1, m = -1; Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
        vh::check(t.get_nlp_info(n, m, s.nj, s.nh, st), "info-returned"); vh::op();
        vh::check(n == N && m == MM && st == Ipopt::TNLP::C_STYLE, "sizes"); vh::check(s.nj >= 0 && s.nj <= N * MM && s.nh >= 0 && s.nh <= N * (N + 1) / 2, "announced-counts", vh::fmt("%d %d", s.nj, s.nh));
        jstruct(a, s); hstruct(a, s);
    }
    void jstruct(Ad &a, St &s) { Ipopt::TNLP &t = a; s.jr.assign(s.nj, -7); s.jc.assign(s.nj, -7); s.jr.shrink_to_fit(); vh::check(t.eval_jac_g(N, nullptr, false, MM, s.nj, s.jr.data(), s.jc.data(), nullptr), "jacobian-structure-returned"); vh::op();
        M c = M::Zero(MM, N); for (int k = 0; k < s.nj; ++k) { if (!vh::check(s.jr[k] >= 0 && s.jr[k] < MM && s.jc[k] >= 0 && s.jc[k] < N, "jacobian-structure", vh::fmt("entry %d of %d: (%d,%d)", k, s.nj, s.jr[k], s.jc[k]))) return; c(s.jr[k], s.jc[k]) += 1; } if (c.size()) vh::check(c.maxCoeff() <= 1, "jacobian-duplicate"); }
    void hstruct(Ad &a, St &s) { Ipopt::TNLP &t = a; s.hr.assign(s.nh, -7); s.hc.assign(s.nh, -7); vh::check(t.eval_h(N, nullptr, false, 0, MM, nullptr, false, s.nh, s.hr.data(), s.hc.data(), nullptr), "hessian-structure-returned"); vh::op();
        M c = M::Zero(N, N); for (int k = 0; k < s.nh; ++k) { if (!vh::check(s.hr[k] < N && s.hc[k] >= 0 && s.hr[k] >= s.hc[k], "hessian-structure", vh::fmt("entry %d of %d: (%d,%d)", k, s.nh, s.hr[k], s.hc[k]))) return; c(s.hr[k], s.hc[k]) += 1; } vh::check(c.maxCoeff() <= 1, "hessian-duplicate"); }
    int nops() const { return (int)pts.size() * (4 + (int)(lams.size() * sig.size())) + 2; }
    void op(Ad &a, St &s, int o) {
        Ipopt::TNLP &t = a; const int per = 4 + (int)(lams.size() * sig.size());
        if (o == nops() - 2) { jstruct(a, s); return; } if (o == nops() - 1) { hstruct(a, s); return; }
        const int k = o / per, q = o % per; const Exp &e = ex[k]; std::vector<double> x(pts[k].data(), pts[k].data() + N); const bool nx = s.lastx != k; s.lastx = k; vh::op(); const double tol = 1e-9;
        auto id = [&] { return vh::fmt("callback %d at point %d", q, k); };
        if (q == 0) { double f = NaN; vh::check(t.eval_f(N, x.data(), nx, f), "returned"); vh::near(f, e.f, tol, "cost", id()); }
        else if (q == 1) { std::vector<double> g(N, NaN); vh::check(t.eval_grad_f(N, x.data(), nx, g.data()), "returned"); vh::mnear(Eigen::Map<V>(g.data(), N), e.grad, tol, "gradient", id()); }
        else if (q == 2) { std::vector<double> g(MM, NaN); vh::check(t.eval_g(N, x.data(), nx, MM, g.data()), "returned"); if (MM) vh::mnear(Eigen::Map<V>(g.data(), (int)MM), e.g, tol, "constraints", id()); }
        else if (q == 3) { std::vector<double> v(s.nj, NaN); vh::check(t.eval_jac_g(N, x.data(), nx, MM, s.nj, nullptr, nullptr, v.data()), "returned"); M J = M::Zero(MM, N); for (int i = 0; i < s.nj; ++i) J(s.jr[i], s.jc[i]) += v[i]; if (MM) vh::mnear(J, e.J, tol, "jacobian", id()); }
        else { const int l = (q - 4) / (int)sig.size(); const double sg = sig[(q - 4) % sig.size()]; std::vector<double> lam(lams[l].data(), lams[l].data() + MM), v(s.nh, NaN); const bool nl = s.lastl != l; s.lastl = l;
            vh::check(t.eval_h(N, x.data(), nx, sg, MM, lam.data(), nl, s.nh, nullptr, nullptr, v.data()), "returned"); M H = M::Zero(N, N); for (int i = 0; i < s.nh; ++i) { H(s.hr[i], s.hc[i]) += v[i]; }
            M r = hess(k, lams[l], sg); for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) r(i, j) = 0; vh::mnear(H, r, tol, "hessian", id() + vh::fmt(" objective factor %g multipliers %d", sg, l)); }
    }
    void explore(const std::string &name, int depth, int dense) {
        if (!vh::begin_lazy([&] { return name + vh::fmt("/all callback sequences of length %d", depth); })) return;
        const int K = nops(); std::vector<int> o(depth, 0); long seq = 0;
        for (;;) { std::unique_ptr<Ad> a(new Ad); init(*a); St s; structure(*a, s); for (int i = 0; i < depth; ++i) op(*a, s, o[i]); ++seq; vh::state(vh::Hash().s(name.c_str()).m(Eigen::Map<Eigen::VectorXi>(o.data(), depth)).h);
            int k = depth - 1; while (k >= 0 && (o[k] += k == depth - 1 ? dense : 1) >= K) o[k] = o[k] - K, --k; if (k < 0 || seq > 200000) break; }
        vh::note(vh::fmt("%ld sequences of %d callbacks, %d variables, %d constraints", seq, K, (int)N, (int)MM));
    }
    // ---- the interface object
    void interface(const std::string &name, int np) {
        using If = IpoptInterface<Pb>; using Var = typename Pb::nlp_variable_t; using Dual = typename Pb::nlp_dual_t; enum { NE = Pb::NUM_EQ, NI = Pb::NUM_INEQ };
        struct Mod { V lbx, ubx, lbg, ubg, x, lam, p; };
        const double INF = std::numeric_limits<double>::infinity();
        auto pat = [](int n, double a, double b) { V v(n); for (int i = 0; i < n; ++i) v(i) = a + b * ((i * 5) % 7); return v; };
        // operations: 0..5 set one entry of a block, 6 whole blocks, 7 solve, 8 solve with guess, 9 failed solve, 10 settings
        enum { NOP = 12 };
        for (int o1 = 0; o1 < NOP; ++o1) for (int o2 = 0; o2 < NOP; ++o2) for (int which = 0; which < 3; ++which) {
            if (!vh::begin_lazy([&] { return name + vh::fmt("/interface/%d,%d,entry%d", o1, o2, which); })) continue;
            If s; Mod m; m.lbx = V::Constant(N, -INF); m.ubx = V::Constant(N, INF); m.lbg = V::Constant(NI, -INF); m.ubg = V::Constant(NI, INF); m.x = V::Zero(N); m.lam = V::Zero(MM + N); m.p = V::Zero(np);
            int calls = 0; Ipopt::IpoptApplication *app = nullptr;
            auto solve = [&](int kind) {
                const int it = 3 + 2 * calls; V sx = pat(N, 0.5 + calls, 0.25), sl = pat(MM, -1 - calls, 0.5), zl(N), zu(N); for (int i = 0; i < N; ++i) { zl(i) = (i + calls) % 3 == 0 ? 0.5 + i : 0; zu(i) = (i + calls) % 3 == 1 ? 0.25 + i : 0; }
                bool called = false;
                Ipopt::StandIn::solve() = [&](Ipopt::IpoptApplication &a, Ipopt::TNLP &t) {
                    called = true; app = &a; vh::op(); vh::check(a.initialised == 1, "initialised-once");
                    Index n, mm, nj, nh; Ipopt::TNLP::IndexStyleEnum st; t.get_nlp_info(n, mm, nj, nh, st);
                    std::vector<double> xl(N, NaN), xu(N, NaN), gl(MM, NaN), gu(MM, NaN); t.get_bounds_info(N, xl.data(), xu.data(), MM, gl.data(), gu.data());
                    for (int i = 0; i < N; ++i) vh::check(xl[i] == m.lbx(i) && xu[i] == m.ubx(i), "variable-bounds", vh::fmt("variable %d: [%g,%g]", i, xl[i], xu[i]));
                    for (int i = 0; i < NE; ++i) vh::check(gl[i] == 0 && gu[i] == 0, "equality-bounds", vh::fmt("row %d", i));
                    for (int i = 0; i < NI; ++i) vh::check(gl[NE + i] == m.lbg(i) && gu[NE + i] == m.ubg(i), "constraint-bounds", vh::fmt("row %d: [%g,%g]", i, gl[NE + i], gu[NE + i]));
                    for (int f = 0; f < 8; ++f) { std::vector<double> x(N, 77), a1(N, 77), a2(N, 77), l(MM, 77); vh::check(t.get_starting_point(N, f & 1, x.data(), f & 2, a1.data(), a2.data(), MM, f & 4, l.data()), "start-returned"); vh::op();
                        for (int i = 0; i < N; ++i) { if (f & 1) vh::check(x[i] == m.x(i), "starting-point", vh::fmt("variable %d: %g instead of %g", i, x[i], m.x(i))); if (f & 2) { double z = m.lam(MM + i); vh::check(a1[i] == std::max(-z, 0.0) && a2[i] == std::max(z, 0.0), "starting-bound-multipliers", vh::fmt("variable %d: %g %g for %g", i, a1[i], a2[i], z)); } }
                        if (f & 4) for (int i = 0; i < MM; ++i) vh::check(l[i] == m.lam(i), "starting-multipliers", vh::fmt("row %d: %g instead of %g", i, l[i], m.lam(i))); }
                    std::vector<double> X(sx.data(), sx.data() + N), L(sl.data(), sl.data() + MM), ZL(zl.data(), zl.data() + N), ZU(zu.data(), zu.data() + N), G(MM, 0.125);
                    // a copy of the evaluation protocol at the starting point and at the end point, as Ipopt does
                    double fv; std::vector<double> gr(N); t.eval_f(N, X.data(), true, fv); t.eval_grad_f(N, X.data(), false, gr.data());
                    a.stat->iter = it; a.stat->obj = 1.5 + it; a.stat->d = 0.25 + it; a.stat->c = 0.75 + it; a.stat->b = 9; a.stat->co = 10; a.stat->k = 11;
                    t.finalize_solution(kind ? Ipopt::SUCCESS : Ipopt::MAXITER_EXCEEDED, N, X.data(), ZL.data(), ZU.data(), MM, G.data(), L.data(), 1.5 + it, nullptr, nullptr);
                    return kind ? Ipopt::Solve_Succeeded : Ipopt::Maximum_Iterations_Exceeded; };
                if (kind == 2) { Var xg = pat(N, -2 - calls, 0.125); Dual lg = pat(MM + N, 1 - calls, -0.375); m.x = xg; m.lam = lg; s.solve(xg, lg); } else s.solve();
                vh::op(); ++calls; vh::check(called, "ipopt-called"); m.x = sx; m.lam.head((int)MM) = sl; m.lam.tail((int)N) = zu - zl;
                vh::check(s.info().iter == it && s.info().status == (kind ? Ipopt::Solve_Succeeded : Ipopt::Maximum_Iterations_Exceeded), "info", vh::fmt("iter %d status %d", s.info().iter, (int)s.info().status));
                vh::check(s.cost() == 1.5 + it && s.dual_norm() == 0.25 + it && s.constr_violation() == 0.75 + it, "statistics");
                same(); };
            auto apply = [&](int o) {
                auto e = [&](int n) { return n ? (which * 3 + 1) % n : 0; };
                if (o == 0) { int i = e(N); s.lower_bound_x()(i) = m.lbx(i) = -1.5 - i; } else if (o == 1) { int i = e(N); s.upper_bound_x()(i) = m.ubx(i) = 2.5 + i; }
                else if (o == 2 && NI) { int i = e(NI); s.lower_bound_g()(i) = m.lbg(i) = -3.5 - i; } else if (o == 3 && NI) { int i = e(NI); s.upper_bound_g()(i) = m.ubg(i) = 4.5 + i; }
                else if (o == 4) { int i = e(N); s.primal_solution()(i) = m.x(i) = 0.75 + i; } else if (o == 5) { int i = which == 0 ? 0 : which == 1 ? MM + N - 1 : MM; s.dual_solution()(i) = m.lam(i) = -1.25 - i; }
                else if (o == 6) { m.lbx = pat(N, -3, -0.5); m.ubx = pat(N, 1, 0.5); m.lbg = pat(NI, -2, 0.25); m.ubg = pat(NI, 3, 0.25); s.lower_bound_x() = m.lbx; s.upper_bound_x() = m.ubx; s.lower_bound_g() = m.lbg; s.upper_bound_g() = m.ubg; m.x = pat(N, 0.1, 0.2); s.primal_solution() = m.x; m.lam = pat(MM + N, 1, -0.5); s.dual_solution() = m.lam; }
                else if (o == 7) solve(1); else if (o == 8) solve(2); else if (o == 9) solve(0);
                else if (o == 10) { s.settings().SetIntegerValue("max_iter", 7); } else if (o == 11 && np) { int i = e(np); s.parameters()(i) = m.p(i) = 0.625 + i; }
                same(); };
            same = [&] { vh::check(V(s.primal_solution()) == m.x, "primal-read-back", vh::vec(s.primal_solution())); vh::check(V(s.dual_solution()) == m.lam, "dual-read-back", vh::vec(s.dual_solution()) + " instead of " + vh::vec(m.lam)); vh::check(V(s.parameters()) == m.p, "parameter-read-back");
                vh::check(V(s.lower_bound_x()) == m.lbx && V(s.upper_bound_x()) == m.ubx && V(s.lower_bound_g()) == m.lbg && V(s.upper_bound_g()) == m.ubg, "bounds-read-back"); };
            apply(o1); apply(o2); solve(1); solve(2); solve(1);
            vh::check(app && app->opt->n["tol"] == 1e-6 && app->opt->i["max_iter"] == (o1 == 10 || o2 == 10 ? 7 : 100), "settings-reach-ipopt");
            vh::state(vh::Hash().s(name.c_str()).i(o1).i(o2).i(which).h);
        }
    }
    std::function<void()> same = [] {};
};
#ifdef NLP
template <int NX, int NE, int NI, int NP> static void run() {
    using Pb = Menu<NX, NE, NI, NP>; using J = jets::Jet;
    for (int fc = 0; fc < NF; ++fc) for (int fe = 0; fe < (NE ? NF : 1); ++fe) for (int fi = 0; fi < (NI ? NF : 1); ++fi) {
        if (NE && NI && (fc + 3 * fe + 5 * fi) % 7 && !vh::thorough()) continue;   // every pair of programs
        std::string name = vh::fmt("nlp/nx%d-ne%d-ni%d-np%d/cost%d/eq%d/ineq%d", NX, NE, NI, NP, fc, fe, fi);
        Pb pb; pb.fc = fc; pb.fe = fe; pb.fi = fi; Eigen::Matrix<double, NP, 1> p; for (int i = 0; i < NP; ++i) p(i) = 0.25 + i;
        Drive<Pb> d; std::vector<std::vector<M>> Hs;
        for (int k = 0; k < 3; ++k) { V x(NX); for (int i = 0; i < NX; ++i) x(i) = k == 0 ? -0.5 + 0.25 * i : k == 1 ? 1.25 - 0.5 * i : (i == NX - 1 ? 1.25 : -0.5 + 0.25 * i); d.pts.push_back(x);
            Eigen::Matrix<J, NX, 1> xj; for (int i = 0; i < NX; ++i) xj(i) = J::var(x(i), i, NX); Exp e; e.g.resize(NE + NI); e.J.resize(NE + NI, NX); std::vector<M> H; J c; pb.template cost<J>(xj, p, c); e.f = c.v; e.grad = c.grad(NX); H.push_back(c.hess(NX));
            Eigen::Matrix<J, NE, 1> q; Eigen::Matrix<J, NI, 1> r; pb.template equality_constraints<J>(xj, p, q); pb.template inequality_constraints<J>(xj, p, r);
            for (int i = 0; i < NE + NI; ++i) { const J &y = i < NE ? q(i < NE ? i : 0) : r(i - NE); e.g(i) = y.v; e.J.row(i) = y.grad(NX).transpose(); H.push_back(y.hess(NX)); }
            d.ex.push_back(e); Hs.push_back(H); }
        { V l(NE + NI); for (int i = 0; i < NE + NI; ++i) l(i) = (i % 2 ? -1 : 1) * (0.5 + 0.25 * i); d.lams.push_back(l); if (NE + NI) { V z = V::Zero(NE + NI); d.lams.push_back(z); z(NE + NI - 1) = -1.5; d.lams.push_back(z); } }
        d.hess = [=](int k, const V &l, double s) { M H = s * Hs[k][0]; for (int i = 0; i < NE + NI; ++i) H += l(i) * Hs[k][i + 1]; return H; };
        d.init = [=](typename Drive<Pb>::Ad &a) { a.problem.fc = fc; a.problem.fe = fe; a.problem.fi = fi; a.m_p = p; };
        d.explore(name, 2, 1); if (vh::thorough() && !(NE && NI)) d.explore(name, 3, 1);
        if (fc == 2 && fe == (NE ? 3 : 0) && fi == 0) d.interface(name, NP);
    }
}
void vh_run() { std::cout.setstate(std::ios::failbit);   // the interface announces every solve
#define D(a, b, c, d) run<a, b, c, d>();
    DIMS
}
#else
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int VAR> static void run() {
    using namespace ocp; using Pb = Ocp<NX, NU, NP, ND, NG, P, S, FMTV, VAR>; using R = Reference<NX, NU, NP, ND, NG, P, S>; R rf;
    enum { N = R::N, MM = R::NE + R::NI };
    static_assert((int)Pb::VAR_SIZE == N, "");
    const int combos[][4] = {{1, 1, 1, 1}, {2, 2, 2, 2}, {5, 5, 0, 4}, {3, 3, 3, 3}, {0, 0, 4, 0}};
    for (auto &f : combos) for (int tl : {0, 2, 3}) {
        std::string name = vh::fmt("ocp/%s/%d,%d,%d,%d,%d,%d,%d,%d/dyn%d-run%d-term%d-con%d/[%g,%g]", FMTV ? "sparse" : "dense", NX, NU, NP, ND, NG, P, S, VAR, f[0], f[1], f[2], f[3], TL[tl][0], TL[tl][1]);
        Drive<Pb> d; V dv(ND); for (int i = 0; i < ND; ++i) dv(i) = 0.75 - 0.5 * i; Pb o; o.fd = f[0]; o.fl = f[1]; o.fm = f[2]; o.fg = f[3];
        const bool big = N > 60; if (big && (f[0] != 2 || tl != 2)) continue;
        bool filled = false; auto fill = [&] { if (filled) return; filled = true; for (int k = 0; k < 3; ++k) { V x = point(k == 2 ? 5 : k, N); d.pts.push_back(x); ocp::Ref r = rf.eval(o, x, dv, TL[tl][0], TL[tl][1], V::Zero(MM + N), 1.0); Exp e; e.f = r.cost; e.grad = r.g; e.g.resize(MM); e.g << r.ce, r.ci; e.J.resize(MM, N); e.J << r.Je, r.Ji; d.ex.push_back(e); }
            V l = multipliers(MM); d.lams = {l, V::Zero(MM)}; V z = V::Zero(MM); z.tail(std::min<int>(MM, NG ? NG : NX)).setConstant(-1.5); d.lams.push_back(z); };
        fill(); std::map<std::tuple<int, double, double, double>, M> memo;
        d.hess = [&](int k, const V &l, double s) -> M { auto key = std::make_tuple(k, l.sum(), l(0), s); auto it = memo.find(key); if (it != memo.end()) return it->second; V L = V::Zero(MM + N); L.head((int)MM) = l; return memo[key] = rf.eval(o, d.pts[k], dv, TL[tl][0], TL[tl][1], L, s).LH; };
        d.init = [&](typename Drive<Pb>::Ad &a) { a.problem.fd = f[0]; a.problem.fl = f[1]; a.problem.fm = f[2]; a.problem.fg = f[3]; a.problem.set_time_limits(TL[tl][0], TL[tl][1]); a.m_p = dv; };
        d.explore(name, 2, big ? 7 : vh::thorough() ? 1 : 2);
        if (f[0] == 1 && tl == 0) d.interface(name, ND);
    }
}
void vh_run() { std::cout.setstate(std::ios::failbit);   // the interface announces every solve
#define X(...) run<__VA_ARGS__>();
    LIST
}
#endif
