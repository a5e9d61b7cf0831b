// C09: every SQP run over a finite menu of NLPs, starting points and settings is replayed transition by transition: the QP handed to the
// QP solver, the step taken, the line search, the termination decision and the final report are compared with an independent evaluation of
// the same iteration (second-order jets). Only public extension points are used: the QP solver and Hessian-update template parameters, the
// line-search hook, the iteration callback and the getters.
#include "nlp_common.hpp"
using namespace nlp;
#ifndef QPT
#define QPT boxADMM
#endif
struct Rec { Eigen::MatrixXd H, A; Eigen::VectorXd h, al, au, xl, xu, qx, ql, x, lam, p; double alpha; int qit; bool qok; int nls; };
static std::vector<Rec> R; static int NCB; static std::vector<Eigen::VectorXd> CBX;
template <typename Base> struct RecQP : Base {
    template <typename TH, typename Th, typename TA, typename T1, typename T2, typename T3, typename T4>
    status_t solve(const TH &H, const Th &h, const TA &A, const T1 &al, const T2 &au, const T3 &xl, const T4 &xu) {
        Rec r; r.H = H; r.h = h; r.A = A; r.al = al; r.au = au; r.xl = xl; r.xu = xu; r.alpha = -1; r.nls = 0;
        status_t s = Base::solve(H, h, A, al, au, xl, xu); r.qx = this->primal_solution(); r.ql = this->dual_solution(); r.qit = this->info().iter; r.qok = s == status_t::SOLVED; R.push_back(r); return s; }
};
template <typename Problem, typename QP, typename Pre> class Mon : public SQPBase<Mon<Problem, QP, Pre>, Problem, QP, Pre> {
public:
    using B = SQPBase<Mon<Problem, QP, Pre>, Problem, QP, Pre>; using S = typename B::scalar_t;
    using typename B::nlp_variable_t; using typename B::parameter_t; using typename B::nlp_dual_t; using typename B::nlp_hessian_t; using typename B::nlp_jacobian_t; using typename B::nlp_constraints_t;
    S step_size_selection_impl(const Eigen::Ref<const nlp_variable_t> &p) noexcept {
        if (R.empty()) return B::step_size_selection_impl(p);
        R.back().x = this->primal_solution(); R.back().lam = this->dual_solution(); R.back().p = p; R.back().alpha = B::step_size_selection_impl(p); R.back().nls++; return R.back().alpha; }
#ifdef EXACT
    void update_linearisation_dense_impl(const Eigen::Ref<const nlp_variable_t> &x, const Eigen::Ref<const parameter_t> &p, const Eigen::Ref<const nlp_variable_t> &, const Eigen::Ref<const nlp_dual_t> &lam,
        Eigen::Ref<nlp_variable_t> cg, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) noexcept { this->linearisation_dense_impl(x, p, lam, cg, H, A, b); }
#endif
};
struct Cfg { const char *name; double eps, qeps; int max_iter, ls; double tau, eta; bool adaptive; int qmax; };
static const Cfg CF[] = {{"default", 1e-3, 1e-4, 100, 100, .5, .25, true, 100}, {"qp-accurate", 1e-3, 1e-6, 100, 100, .5, .25, false, 2000}, {"tight", 1e-5, 1e-7, 60, 100, .8, .1, true, 1000},
    {"one-iteration", 1e-3, 1e-4, 1, 100, .5, .25, true, 100}, {"two-iterations", 1e-3, 1e-6, 2, 100, .5, .25, true, 200}, {"short-linesearch", 1e-3, 1e-5, 25, 4, .5, .25, true, 100}, {"no-linesearch", 1e-3, 1e-5, 25, 1, .5, .25, true, 100}, {"loose-dual", 1e-4, 1e-6, 50, 60, .3, .6, true, 500}};
template <int NX, int NE, int NI> struct Test {
    using P = Convex<NX, NE, NI>; using QP = RecQP<QPT<NX, NE + NI, double>>;
#ifdef RUIZ
    using Pre = polympc::RuizEquilibration<double, NX, NE + NI, DENSE>; enum { SC = 1 };
#else
    using Pre = polympc::IdentityPreconditioner; enum { SC = 0 };
#endif
    using S = Mon<P, QP, Pre>; using J = jets::Jet; using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
    struct Eval { double f; V g, c; M A, Hf; std::vector<M> Hc; };
    static Eval eval(const P &pb, const V &x, const Scen<NX, NE, NI> &sc) {
        Eigen::Matrix<J, NX, 1> xj; for (int i = 0; i < NX; ++i) xj(i) = J::var(x(i), i, NX);
        Eigen::Matrix<J, NE, 1> e; Eigen::Matrix<J, NI, 1> g; J c; pb.template cost<J>(xj, sc.p, c); pb.template equality_constraints<J>(xj, sc.p, e); pb.template inequality_constraints<J>(xj, sc.p, g);
        Eval r; r.f = c.v; r.g = c.grad(NX); r.Hf = c.hess(NX); r.c.resize(NE + NI); r.A.resize(NE + NI, NX);
        for (int k = 0; k < NE; ++k) { r.c(k) = e(k).v; r.A.row(k) = e(k).grad(NX).transpose(); r.Hc.push_back(e(k).hess(NX)); }
        for (int k = 0; k < NI; ++k) { r.c(NE + k) = g(k).v; r.A.row(NE + k) = g(k).grad(NX).transpose(); r.Hc.push_back(g(k).hess(NX)); }
        return r; }
    static void viol(const Eval &e, const V &x, const Scen<NX, NE, NI> &sc, double &l1, double &mx) {
        l1 = 0; mx = 0; auto in = [&](double v, double l, double u) { double d = std::max(0.0, l - v) + std::max(0.0, v - u); l1 += d; mx = std::max(mx, d); };
        for (int k = 0; k < NE; ++k) in(e.c(k), 0, 0); for (int k = 0; k < NI; ++k) in(e.c(NE + k), sc.lbg(k), sc.ubg(k)); for (int i = 0; i < NX; ++i) in(x(i), sc.lbx(i), sc.ubx(i)); }
    static V lag(const Eval &e, const V &lam) { V g = e.g + lam.tail(NX); if (NE + NI) g += e.A.transpose() * lam.head(NE + NI); return g; }
    static bool close(const V &a, const V &b, double tol) { for (int i = 0; i < a.size(); ++i) { if (std::isinf(a(i)) || std::isinf(b(i))) { if (a(i) != b(i)) return false; } else if (!(std::abs(a(i) - b(i)) <= tol * (1 + std::abs(a(i)) + std::abs(b(i))))) return false; } return true; }
    static M bfgs(const M &B, const V &s, const V &y) {
        V Bs = B * s; double sBs = s.dot(Bs), sy = s.dot(y); double th = sy < 0.2 * sBs ? 0.8 * sBs / (sBs - sy) : 1.0; V r = th * y + (1 - th) * Bs; double sr = s.dot(r);
        if (sr < 2.220446049250313e-16) return B; return B - Bs * Bs.transpose() / sBs + r * r.transpose() / sr; }
    static void run(const Scen<NX, NE, NI> &sc, double st, double l0v, const Cfg &c, bool convex) {
        S s; apply(s, sc); s.settings().eps_prim = c.eps; s.settings().eps_dual = std::string(c.name) == "loose-dual" ? 1.0 : c.eps; s.settings().max_iter = c.max_iter; s.settings().line_search_max_iter = c.ls; s.settings().tau = c.tau; s.settings().eta = c.eta;
        s.qp_settings().eps_abs = s.qp_settings().eps_rel = c.qeps; s.qp_settings().adaptive_rho = c.adaptive; s.qp_settings().max_iter = c.qmax;
        s.settings().iteration_callback = [](void *q) { NCB++; CBX.push_back(static_cast<S *>(q)->primal_solution()); };
        typename S::nlp_variable_t x0; for (int i = 0; i < NX; ++i) x0(i) = st * (i % 2 ? -0.5 : 1); typename S::nlp_dual_t l0; l0.setConstant(l0v);
        R.clear(); NCB = 0; CBX.clear(); s.solve(x0, l0); const int K = R.size(); vh::op(K);
        const bool solved = s.info().status.value == sqp_status_t::SOLVED; const V X = s.primal_solution(), L = s.dual_solution(); const P &pb = s.get_problem();
        vh::state(vh::Hash().i(K).i(solved).m(X).m(L).h);
        vh::note(vh::fmt("iterations %d %s x=%s", K, solved ? "SOLVED" : "MAX_ITER", vh::vec(X).c_str()));
        vh::check(solved || s.info().status.value == sqp_status_t::MAX_ITER_EXCEEDED, "status.value");
        vh::check(s.info().iter == K, "info.iter", vh::fmt("reported %d, %d QPs solved", s.info().iter, K));
        vh::check(K <= c.max_iter && K >= 1, "iterations.within-limit", vh::fmt("%d", K));
        vh::check(solved || K == c.max_iter, "max-iter.only-at-limit", vh::fmt("stopped unsolved after %d", K));
        vh::check(NCB == K - 1, "callback.count", vh::fmt("%d callbacks in %d iterations", NCB, K));
        int qi = 0; for (auto &r : R) qi += r.qit; vh::check(qi == s.info().qp_solver_iter, "info.qp_solver_iter", vh::fmt("reported %d sum %d", s.info().qp_solver_iter, qi));
        if (!vh::check(K >= 1 && R[0].nls == 1, "linesearch.once-per-step")) return;
        vh::check(close(R[0].x, x0, 0) && close(R[0].lam, l0, 0), "start", "first iteration does not start at the guess");
        double pn = 0, dn = 0, mx = 0; Eval ek = eval(pb, R[0].x, sc), ep; bool exhausted = false;
        for (int k = 0; k < K; ++k) {
            Rec &r = R[k]; auto W = [&] { return vh::fmt("iteration %d: x=%s p=%s alpha=%.9g", k + 1, vh::vec(r.x).c_str(), vh::vec(r.p).c_str(), r.alpha); };
            if (!vh::check(r.nls == 1, "linesearch.once-per-step", W())) return;
            V xn = k + 1 < K ? R[k + 1].x : X, ln = k + 1 < K ? R[k + 1].lam : L; 
            if (!(r.p.allFinite() && r.qx.allFinite() && r.ql.allFinite() && ek.g.allFinite() && ek.c.allFinite() && ek.A.allFinite() && r.p.norm() < 1e8)) return; // the QP itself failed (C01, C04)
            // the QP of this iteration
            if (!SC) {
                V lb(NE + NI), ub(NE + NI); for (int i = 0; i < NE; ++i) lb(i) = ub(i) = -ek.c(i); for (int i = 0; i < NI; ++i) { lb(NE + i) = sc.lbg(i) - ek.c(NE + i); ub(NE + i) = sc.ubg(i) - ek.c(NE + i); }
                vh::check(close(r.h, ek.g, 1e-10), "qp.gradient", W()); vh::check(close(r.al, lb, 1e-10), "qp.lower", W() + vh::vec(r.al)); vh::check(close(r.au, ub, 1e-10), "qp.upper", W());
                vh::check(close(r.xl, sc.lbx - r.x, 1e-10), "qp.box-lower", W()); vh::check(close(r.xu, sc.ubx - r.x, 1e-10), "qp.box-upper", W());
                if (NE + NI) vh::check((r.A - ek.A).cwiseAbs().maxCoeff() <= 1e-10 * (1 + ek.A.norm()), "qp.jacobian", W());
                M Href = ek.Hf; for (int i = 0; i < NE + NI; ++i) Href += r.lam(i) * ek.Hc[i];
#ifdef EXACT
                const bool exact = true;
#else
                const bool exact = k == 0;
#endif
                if (exact) vh::check((r.H - Href).cwiseAbs().maxCoeff() <= 1e-9 * (1 + Href.norm()), "qp.exact-hessian", W());
                else {
                    const Rec &q = R[k - 1]; V st = q.alpha * q.p; double sBs = st.dot(q.H * st), pert = st.squaredNorm() * q.H.norm();
                    V lg1 = lag(ek, r.lam), y1 = lg1 - lag(ep, q.lam), y2 = lg1 - lag(ep, r.lam); M H1 = bfgs(q.H, st, y1), H2 = bfgs(q.H, st, y2);
                    if (sBs > 1e-6 * pert && pert > 1e-12) {   // a numerically meaningful step
                        auto off = [&](const M &h, const V &y) { double sc2 = (q.H.norm() + h.norm()) * (1 + pert / sBs) + 1e-6 * y.squaredNorm() / std::max(1e-300, std::max(st.dot(y), 0.2 * sBs)); return (r.H - h).cwiseAbs().maxCoeff() / (1e-300 + sc2) ; };
                        double rel = 1e-14 * (lg1.norm() + lag(ep, q.lam).norm() + 1) / st.norm(); // rounding of the gradient difference
                        vh::check(std::min(off(H1, y1), off(H2, y2)) <= 1e-5 + 100 * rel / (sBs / st.squaredNorm()), "qp.quasi-newton-hessian", W() + " H=" + vh::vec(r.H) + " expected " + vh::vec(H2) + " or " + vh::vec(H1)); }
                }
                vh::check((r.H - r.H.transpose()).cwiseAbs().maxCoeff() <= 1e-8 * (1 + r.H.norm()), "qp.hessian-symmetric", W());
                vh::check(close(r.p, r.qx, 1e-12), "step.is-qp-solution", W());
            } else { // the scaled QP is a diagonal rescaling of the true one and the step and multipliers are its solution scaled back
                V lq = r.alpha > 0 ? V((ln - r.lam) / r.alpha + r.lam) : V(r.lam); M Href = ek.Hf; for (int i = 0; i < NE + NI; ++i) Href += r.lam(i) * ek.Hc[i];
                V lb(NE + NI), ub(NE + NI); for (int i = 0; i < NE; ++i) lb(i) = ub(i) = -ek.c(i); for (int i = 0; i < NI; ++i) { lb(NE + i) = sc.lbg(i) - ek.c(NE + i); ub(NE + i) = sc.ubg(i) - ek.c(NE + i); }
                auto eq = [&](double u, double v, double m) { return std::isinf(u) || std::isinf(v) ? u == v : std::abs(u - v) <= 1e-6 * (std::abs(u) + std::abs(v) + m); };
                // ratios true / scaled variable, and cost scaling, where they can be told from the data
                int ib = -1; for (int i = 0; i < NX; ++i) if (std::abs(r.p(i)) > 1e-7 && std::abs(ek.g(i)) > 1e-6 && (ib < 0 || std::abs(ek.g(i) * r.p(i)) > std::abs(ek.g(ib) * r.p(ib)))) ib = i;
                const double cs = ib < 0 ? 0 : r.h(ib) * r.qx(ib) / (ek.g(ib) * r.p(ib)); const bool dual = r.alpha > 1e-3 && ib >= 0 && r.lam.norm() < 1e5 && r.x.norm() < 1e3; const double lm = 1e-9 * (1 + lq.norm() + r.lam.norm()) / std::max(r.alpha, 1e-3) / 1e-6;
                if (ib >= 0) vh::check(cs > 0, "scaled.cost-factor", W() + vh::fmt(" %g", cs));
                for (int i = 0; i < NX; ++i) if (std::abs(r.p(i)) > 1e-7) { const double d = r.p(i) / r.qx(i); vh::check(d > 0, "scaled.variable-factor", W());
                    vh::check(eq(r.xl(i) * d, sc.lbx(i) - r.x(i), 1e-6), "scaled.box-lower", W()); vh::check(eq(r.xu(i) * d, sc.ubx(i) - r.x(i), 1e-6), "scaled.box-upper", W());
                    if (ib >= 0) vh::check(eq(r.h(i) / d, cs * ek.g(i), cs * 1e-6), "scaled.gradient", W()); if (dual) vh::check(eq(r.ql(NE + NI + i) / d, cs * lq(NE + NI + i), cs * lm), "scaled.box-multiplier", W()); }
                V as = r.A * r.qx, av = ek.A * r.p; for (int j = 0; j < NE + NI; ++j) if (std::abs(av(j)) > 1e-6 * (1 + ek.A.norm() * r.p.norm())) { const double e = as(j) / av(j); vh::check(e > 0, "scaled.row-factor", W());
                    vh::check(eq(r.al(j), e * lb(j), e * 1e-6), "scaled.lower", W()); vh::check(eq(r.au(j), e * ub(j), e * 1e-6), "scaled.upper", W()); if (dual) vh::check(eq(r.ql(j) * e, cs * lq(j), cs * lm), "scaled.multiplier", W()); }
#ifdef EXACT
                const bool exact = true;
#else
                const bool exact = k == 0;
#endif
                if (ib >= 0 && exact) vh::check(eq(r.qx.dot(r.H * r.qx), cs * r.p.dot(Href * r.p), cs * 1e-9 * Href.norm() * r.p.squaredNorm()), "scaled.hessian", W());
            }
            // step
            vh::check(close(xn, r.x + r.alpha * r.p, 1e-12), "step.primal", W() + " next " + vh::vec(xn));
            V lqp = SC ? V(r.alpha > 0 ? V((ln - r.lam) / r.alpha + r.lam) : r.lam) : r.ql;
            if (!SC) vh::check(close(ln, r.lam + r.alpha * (lqp - r.lam), 1e-11), "step.dual", W() + " next " + vh::vec(ln));
            // line search: the first of 1, tau, tau^2, ... with sufficient decrease of the l1 merit function, or the last one
            Eval en = eval(pb, xn, sc); double v0, m0, vn, mn; viol(ek, r.x, sc, v0, m0); viol(en, xn, sc, vn, mn);
            { int j = 0; double a = 1; while (j < c.ls && a > r.alpha * (1 + 1e-9)) { a *= c.tau; ++j; }
              vh::check(std::abs(a - r.alpha) <= 1e-9 * a, "linesearch.power-of-tau", W());
              if (!SC || (r.alpha > 1e-3 && r.lam.norm() < 1e5)) {
                const double mu = lqp.lpNorm<Eigen::Infinity>(), phi0 = ek.f + mu * v0, D = ek.g.dot(r.p) - mu * v0; const double slack = (SC ? 1e-7 : 1e-11) * (1 + std::abs(ek.f) + std::abs(en.f) + mu * (1 + v0 + vn) + std::abs(D) + std::abs(ek.g.dot(r.p)));
                if (j + 1 < c.ls) vh::check(en.f + mu * vn <= phi0 + c.eta * r.alpha * D + slack, "linesearch.sufficient-decrease", W() + vh::fmt(" merit %.12g -> %.12g, predicted slope %.9g", phi0, en.f + mu * vn, D));
                else exhausted = true;
                if (j > 0) { V xb = r.x + r.alpha / c.tau * r.p; Eval eb = eval(pb, xb, sc); double vb, mb; viol(eb, xb, sc, vb, mb);
                    vh::check(!(std::isfinite(eb.f + mu * vb)) || eb.f + mu * vb > phi0 + c.eta * r.alpha / c.tau * D - slack, "linesearch.longest", W() + " a longer step also decreases the merit function"); } } }
            if (k) vh::check(close(CBX.size() >= (size_t)k ? CBX[k - 1] : V::Zero(NX), xn, 0), "callback.iterate", W());
            // termination
            pn = r.alpha * r.p.lpNorm<Eigen::Infinity>(); dn = r.alpha * (lqp - r.lam).lpNorm<Eigen::Infinity>(); mx = mn; const double ed = s.settings().eps_dual;
            auto cmp = [](double v, double e) { return std::abs(v - e) <= 1e-7 * e ? 0 : v < e ? 1 : -1; }; const int t1 = cmp(pn, c.eps), t2 = cmp(dn, ed), t3 = cmp(mx, c.eps);
            const int yes = t1 < 0 || t2 < 0 || t3 < 0 ? -1 : t1 && t2 && t3 ? 1 : 0; const bool stopped = k + 1 == K && solved;
            if (yes) vh::check(stopped == (yes > 0), "termination.iff-criteria", W() + vh::fmt(" |dx| %g |dlam| %g violation %g -> %s", pn, dn, mx, stopped ? "SOLVED" : "continued"));
            ep = ek; ek = en;
            if (k + 1 == K) {
                if (solved) { vh::check(mx <= c.eps * (1 + 1e-9), "solved.feasible", W() + vh::fmt(" violation %g", mx)); vh::check(s.primal_norm() <= c.eps && s.dual_norm() <= ed && s.constr_violation() <= c.eps, "solved.reported-norms", W()); }
                vh::check(std::abs(s.primal_norm() - pn) <= 1e-9 * (1 + pn), "report.primal-norm", W() + vh::fmt(" %g", s.primal_norm()));
                if (!SC || (r.alpha > 1e-3 && r.lam.norm() < 1e5)) vh::check(std::abs(s.dual_norm() - dn) <= 1e-7 * (1 + dn + L.norm()), "report.dual-norm", W() + vh::fmt(" %g vs %g", s.dual_norm(), dn));
                vh::check(std::abs(s.constr_violation() - mx) <= 1e-9 * (1 + mx), "report.violation", W() + vh::fmt(" reported %g, is %g", s.constr_violation(), mx));
                vh::check(std::abs(s.max_constraints_violation(s.primal_solution()) - mx) <= 1e-9 * (1 + mx), "query.max-violation", W());
                vh::check(std::abs(s.constraints_violation(s.primal_solution()) - vn) <= 1e-9 * (1 + vn), "query.l1-violation", W());
                vh::check(std::abs(s.cost() - en.f) <= 1e-10 * (1 + std::abs(en.f)), exhausted ? "report.cost-after-exhausted-linesearch" : "report.cost", W() + vh::fmt(" reported %.12g, is %.12g", s.cost(), en.f));
                if (solved && convex && r.qok && r.alpha == 1.0 && !SC) {
                    auto q = kkt<NX, NE, NI>(pb, s.primal_solution(), s.dual_solution(), sc.p, sc.lbx, sc.ubx, sc.lbg, sc.ubg);
                    const double big = 1 + r.H.norm() + q.hnorm + L.norm() * (1 + en.A.norm());
                    vh::check(q.stat <= 20 * (c.qeps + pn) * big, "solved.stationary", W() + vh::fmt(" residual %g", q.stat));
                    vh::check(q.comp <= 20 * (c.qeps + c.eps + pn) * big, "solved.complementary", W() + vh::fmt(" residual %g", q.comp)); }
                if (solved && convex && sc.wide) { auto q = kkt<NX, NE, NI>(pb, s.primal_solution(), s.dual_solution(), sc.p, sc.lbx, sc.ubx, sc.lbg, sc.ubg);
                    vh::check(q.stat <= 1e-2 * (1 + L.norm() + q.hnorm), "solved.stationary-any-step", W() + vh::fmt(" residual %g", q.stat)); }
            }
        }
    }
    // kq, kg: objective and constraint families; xs: coordinates of the solution (halves); the alphabets per dimension tuple are listed in DESIGN.md
    static void all() {
        const int NC = sizeof(CF) / sizeof(CF[0]); const bool small = NX + NE + NI <= 2, th = vh::thorough();
        auto one = [&](const Scen<NX, NE, NI> &sc, bool convex, const std::vector<double> &sts, const std::vector<double> &ls, const std::vector<int> &cs) {
            for (double st : sts) for (double l0 : ls) for (int c : cs) {
                if (!vh::begin_lazy([&] { return vh::fmt("nlp%d_%d_%d/", NX, NE, NI) + sc.name + vh::fmt("/start%g/lam%g/", st, l0) + CF[c].name; })) continue;
                run(sc, st, l0, CF[c], convex); } };
        std::vector<int> every; for (int i = 0; i < NC; ++i) every.push_back(i); std::vector<int> some = {0, 1, 2, 5};
        const std::vector<double> S3 = {0.5, 2.0, -3.0}, L2 = {0.0, 0.7};
        std::vector<std::vector<int>> bps; { std::vector<int> c(NX, 0); for (;;) { bool keep = small || th || NX <= 2; if (!keep) { int a = 0; for (int v : c) a += v >= 2; keep = a <= 1 && c[NX - 1] != 1; } if (keep) bps.push_back(c); int i = NX - 1; while (i >= 0 && ++c[i] == 5) c[i--] = 0; if (i < 0) break; } }
        std::vector<std::vector<int>> xss; { std::vector<int> al = {-1, 2}, c(NX, 0); for (;;) { std::vector<int> v; for (int q : c) v.push_back(al[q]); if (NX <= 2 || th || c[0] != c[NX - 1]) xss.push_back(v); int i = NX - 1; while (i >= 0 && ++c[i] == 2) c[i--] = 0; if (i < 0) break; } }
        for (int kq = 0; kq < NQ; ++kq) for (int kg = 0; kg < (NI ? NG : 1); ++kg) {
            std::vector<std::vector<int>> gps; { const int n = kg == 0 ? 5 : 3; std::vector<int> c(NI, 0); for (;;) { gps.push_back(c); int i = NI - 1; while (i >= 0 && ++c[i] == n) c[i--] = 0; if (i < 0) break; } }
            for (auto &xv : xss) for (auto &gp : gps) for (auto &bv : bps) {
                std::array<int, NX> xs, b; for (int i = 0; i < NX; ++i) { xs[i] = xv[i]; b[i] = bv[i]; }
                const bool full = small || th; for (double m : full ? std::vector<double>{0.5, 2.0} : std::vector<double>{0.5}) { auto sc = make<NX, NE, NI>(kq, kg, xs, gp, b, m);
                    one(sc, true, full ? S3 : std::vector<double>{0.5, -3.0}, full ? L2 : std::vector<double>{(kq + kg) % 2 ? 0.7 : 0.0}, full ? every : some); } } }
#if defined(WIDE)
        // recorded findings: SOLVED after an unfinished QP, and SOLVED after a damped step, with multipliers far from stationarity
        for (int w = 0; w < 2; ++w) if (w == 0 ? NX == 1 && NE + NI == 0 : NX == 2 && NE == 1 && NI == 1) {
            std::array<int, NX> xs, b; xs.fill(-1); b.fill(w ? 0 : 2); std::vector<int> g(NI, 0); auto sc = make<NX, NE, NI>(w ? 0 : 2, w ? 1 : 0, xs, g, b, w ? 0.5 : 2.0); sc.wide = true;
            if (vh::begin(vh::fmt("any-step/nlp%d_%d_%d/", NX, NE, NI) + sc.name + "/" + CF[0].name)) run(sc, w ? 0.5 : 2.0, w ? 0.7 : 0.0, CF[0], true); }
#endif
        // nonconvex objectives: the invariants of a single iteration do not need convexity
        for (int kq = 5; kq < 7; ++kq) for (int kg = 0; kg < (NI ? 3 : 1); ++kg) for (int gp = 0; gp < (NI ? 3 : 1); ++gp) for (int b = 0; b < 4; ++b) {
            std::array<int, NX> xs, bp; for (int i = 0; i < NX; ++i) { xs[i] = i % 2 ? 2 : -1; bp[i] = (b + i) % 4; } std::vector<int> g(NI, gp); one(make<NX, NE, NI>(kq, kg, xs, g, bp, 0.5), false, S3, L2, every); }
    }
};
void vh_run() {
#define D(a, b, c) Test<a, b, c>::all();
    DIMS
#undef D
}
