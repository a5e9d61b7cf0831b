// C10: SQP solves reach the known solution of convex NLPs, and a solve does not depend on what the solver object did before: every history
// of (solve another problem, truncated solve, warm re-solve, settings change) up to the depth bound is followed by a solve that is compared
// with the same solve on a new object.
#include "nlp_common.hpp"
using namespace nlp;
#ifndef QPT
#define QPT boxADMM
#endif
template <typename Problem, typename QP, typename Pre> class Sq : public SQPBase<Sq<Problem, QP, Pre>, Problem, QP, Pre> {
public:
    using B = SQPBase<Sq<Problem, QP, Pre>, Problem, QP, Pre>;
    using typename B::nlp_variable_t; using typename B::parameter_t; using typename B::nlp_dual_t; using typename B::nlp_hessian_t; using typename B::nlp_jacobian_t; using typename B::nlp_constraints_t;
#ifdef EXACT
    void update_linearisation_dense_impl(const Eigen::Ref<const nlp_variable_t> &x, const Eigen::Ref<const parameter_t> &p, const Eigen::Ref<const nlp_variable_t> &, const Eigen::Ref<const nlp_dual_t> &lam,
        Eigen::Ref<nlp_variable_t> cg, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) noexcept { this->linearisation_dense_impl(x, p, lam, cg, H, A, b); }
#endif
};
#ifdef EXACT
enum { EX = 1 };
#else
enum { EX = 0 };
#endif
template <int NX, int NE, int NI> struct Test {
    using P = Convex<NX, NE, NI>; using QP = QPT<NX, NE + NI, double>; using V = Eigen::VectorXd;
#ifdef RUIZ
    using Pre = polympc::RuizEquilibration<double, NX, NE + NI, DENSE>;
#else
    using Pre = polympc::IdentityPreconditioner;
#endif
    using S = Sq<P, QP, Pre>; using SC = Scen<NX, NE, NI>;
    static void config(S &s, int rho, bool adaptive) { s.qp_settings().max_iter = 2000; s.qp_settings().eps_abs = s.qp_settings().eps_rel = 1e-6; s.qp_settings().adaptive_rho = adaptive; s.qp_settings().rho = rho ? 1.0 : 0.1; }
    static typename S::nlp_variable_t start(double st) { typename S::nlp_variable_t x; for (int i = 0; i < NX; ++i) x(i) = st * (i % 2 ? 0.75 : 1); return x; }
    static void reach() {
        for (int cf = 0; cf < 2; ++cf)
        each<NX, NE, NI>({-1, 2}, {0.5, 2.0}, [&](const SC &sc) { if (!EX && sc.lam.norm() > 0) return; for (double st : {0.0, 2.0, -3.0}) {   // quasi-Newton: unconstrained or inactive constraints
            if (!vh::begin_lazy([&] { return vh::fmt("reach/nlp%d_%d_%d/", NX, NE, NI) + sc.name + vh::fmt("/start%g/cfg%d", st, cf); })) continue;
            S s; apply(s, sc); config(s, cf, false); typename S::nlp_dual_t l0; l0.setZero(); s.solve(start(st), l0); vh::op(s.info().iter);
            const double e = (s.primal_solution() - sc.x).cwiseAbs().maxCoeff(); const bool solved = s.info().status.value == sqp_status_t::SOLVED;
            vh::state(vh::Hash().i(cf).i(solved).m(s.primal_solution()).m(sc.p).h); vh::note(vh::fmt("%s after %d, error %g", solved ? "SOLVED" : "MAX_ITER", s.info().iter, e));
            vh::check(e <= (EX ? 1e-2 : 5e-2), "solution", vh::fmt("error %g status %d: x=%s, solution %s", e, (int)solved, vh::vec(s.primal_solution()).c_str(), vh::vec(sc.x).c_str()));
        } });
    }
    struct Out { V x, l; double cost, pn, dn, mx; int it, qit, st; };
    static Out out(S &s) { return Out{s.primal_solution(), s.dual_solution(), s.cost(), s.primal_norm(), s.dual_norm(), s.constr_violation(), s.info().iter, s.info().qp_solver_iter, (int)s.info().status.value}; }
    static void histories() {
        // scenarios: different objective, constraint family, active set
        std::vector<SC> sc; auto add = [&](int kq, int kg, int x0, int gp, int bp, double m) { std::array<int, NX> xs, b; for (int i = 0; i < NX; ++i) { xs[i] = i % 2 ? -x0 : x0; b[i] = i ? (bp + 2 * i) % 3 : bp; } std::vector<int> g(NI, gp); sc.push_back(make<NX, NE, NI>(kq, NI ? kg : 0, xs, g, b, m)); };
        add(0, 0, 1, 1, 0, 0.5); add(2, 1, -1, 0, 2, 2.0); add(3, 2, 2, 1, 1, 1.0); add(4, 0, 0, 3, 3, 0.5);
        const int NS = sc.size();
        // operations: solve scenario cold (2 starts), truncated solve, warm re-solve, tighter settings, change bounds / parameters without solving, user-forced QP state
        enum { COLD = 0, TRUNC = 1, WARM = 2 }; std::vector<std::pair<int, int>> ops; for (int i = 0; i < NS; ++i) { ops.push_back({0, i}); ops.push_back({1, i}); ops.push_back({2, i}); } for (int k = 3; k < 9; ++k) ops.push_back({k, 0});
        const int NO = ops.size(); const int depth = vh::thorough() ? 3 : 2;
        std::vector<std::vector<int>> hist; hist.push_back({}); { std::vector<std::vector<int>> last = hist; for (int d = 0; d < depth; ++d) { std::vector<std::vector<int>> nx; for (auto &h : last) for (int o = 0; o < NO; ++o) { auto g = h; g.push_back(o); nx.push_back(g); } hist.insert(hist.end(), nx.begin(), nx.end()); last = nx; } }
        for (int ad = 0; ad < 2; ++ad) for (int fin = 0; fin < NS; ++fin) {
            S f; apply(f, sc[fin]); config(f, 0, ad); typename S::nlp_dual_t l0; l0.setZero(); f.solve(start(1.5), l0); const Out r = out(f);
            for (auto &h : hist) {
                if (!vh::begin_lazy([&] { std::string n = vh::fmt("history/nlp%d_%d_%d/%s/final%d/", NX, NE, NI, ad ? "adaptive" : "fixed", fin); for (int o : h) n += vh::fmt("%d.%d,", ops[o].first, ops[o].second); return n; })) continue;
                S s; config(s, 0, ad); int cur = fin; apply(s, sc[cur]);
                for (int o : h) { const int k = ops[o].first; vh::op(); typename S::nlp_dual_t l; l.setConstant(0.3);
                    switch (k) {
                    case 0: cur = ops[o].second; apply(s, sc[cur]); s.solve(start(-1), l); break;
                    case 1: { cur = ops[o].second; apply(s, sc[cur]); const int m = s.settings().max_iter; s.settings().max_iter = 1; s.solve(start(2), l); s.settings().max_iter = m; break; }
                    case 2: cur = ops[o].second; apply(s, sc[cur]); s.solve(); break;                                    // warm: from wherever the object is
                    case 3: { s.settings().eps_prim = s.settings().eps_dual = 1e-5; s.solve(); s.settings().eps_prim = s.settings().eps_dual = 1e-3; break; }
                    case 4: s.lower_bound_x().setConstant(-INFTY()); s.upper_bound_x().setConstant(INFTY()); s.solve(start(0.5), l); break;   // drop the box
                    case 5: s.parameters() *= -0.5; s.solve(); break;
                    case 6: { const auto m = s.qp_settings().max_iter; s.qp_settings().max_iter = 1; s.solve(start(0.5), l); s.qp_settings().max_iter = m; break; } // QPs left unfinished
                    case 7: s.lower_bound_g().setConstant(-INFTY()); s.upper_bound_g().setConstant(INFTY()); s.lower_bound_x() = s.upper_bound_x() = start(0.2); s.solve(); break; // fixed variables
                    case 8: s.primal_solution().setConstant(1e3); s.dual_solution().setConstant(-1e3); break;           // poison the iterate
                    } }
                apply(s, sc[fin]); s.solve(start(1.5), l0); vh::op(); const Out q = out(s); vh::state(vh::Hash().i(fin).i(ad).i(cur).i(q.it).m(q.x).m(q.l).h); vh::note(vh::fmt("iterations %d x=%s", q.it, vh::vec(q.x).c_str()));
                auto W = [&] { return vh::fmt("re-solve: x=%s lam=%s iter %d status %d cost %.9g; new solver: x=%s lam=%s iter %d status %d cost %.9g", vh::vec(q.x).c_str(), vh::vec(q.l).c_str(), q.it, q.st, q.cost, vh::vec(r.x).c_str(), vh::vec(r.l).c_str(), r.it, r.st, r.cost); };
                if (!ad) { // nothing may be carried over: identical runs
                    auto eq = [](double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); };
                    vh::check(q.it == r.it && q.st == r.st && q.qit == r.qit, "history.iterations", W());
                    bool ok = eq(q.cost, r.cost) && eq(q.pn, r.pn) && eq(q.dn, r.dn) && eq(q.mx, r.mx); vh::check(ok, "history.report", W());
                    ok = true; for (int i = 0; i < q.x.size(); ++i) ok = ok && eq(q.x(i), r.x(i)); for (int i = 0; i < q.l.size(); ++i) ok = ok && eq(q.l(i), r.l(i)); vh::check(ok, "history.solution", W());
                }
                if (EX || sc[fin].lam.norm() == 0 && r.st == sqp_status_t::SOLVED && q.st == sqp_status_t::SOLVED) vh::check((q.x - sc[fin].x).cwiseAbs().maxCoeff() <= (EX ? 1e-2 : 5e-2), "history.reaches-solution", W() + " expected " + vh::vec(sc[fin].x));
            } }
    }
    static void all() { reach(); histories();
#ifdef WIDE
        if (NX == 2 && NE == 0 && NI == 1) { std::array<int, NX> xs, b; xs.fill(2); b.fill(0); std::vector<int> g(NI, 1); auto sc = make<NX, NE, NI>(2, 0, xs, g, b, 2.0);
            if (vh::begin("any-start/" + sc.name)) { S s; apply(s, sc); s.settings().eps_prim = s.settings().eps_dual = 1e-5; s.settings().max_iter = 60; s.settings().tau = .8; s.settings().eta = .1; s.qp_settings().eps_abs = s.qp_settings().eps_rel = 1e-7; s.qp_settings().max_iter = 1000;
                typename S::nlp_variable_t x0; for (int i = 0; i < NX; ++i) x0(i) = i % 2 ? 1.5 : -3; typename S::nlp_dual_t l0; l0.setConstant(0.7); s.solve(x0, l0);
                vh::check((s.primal_solution() - sc.x).cwiseAbs().maxCoeff() <= 1e-2, "quasi-newton.converges", vh::fmt("x=%s, solution %s", vh::vec(s.primal_solution()).c_str(), vh::vec(sc.x).c_str())); } }
#endif
    }
};
void vh_run() {
#define D(a, b, c) Test<a, b, c>::all();
    DIMS
#undef D
}
