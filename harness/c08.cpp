// C08: NLP queries (values, gradients, Jacobians, Hessians) against an independent second-order jet evaluation of the same user functions,
// over every call sequence up to the depth bound.
#include "common.hpp"
#include "jet.hpp"
#include "nlp_menu.hpp"
static const char *QN[] = {"values", "gradient", "hessian", "eq-lin", "ineq-lin", "con-lin", "lag-grad", "lag-grad+jac", "lag-hess", "lag-hess-scaled"};
enum { NQ = 10 };

template <int NX, int NE, int NI, int NP> struct Test {
    using Pb = Menu<NX, NE, NI, NP>;
    struct Ref { double c; Eigen::VectorXd g, lg, ce, ci; Eigen::MatrixXd H, Je, Ji; std::vector<Eigen::MatrixXd> He, Hi; };
    std::vector<Eigen::Matrix<double, NX, 1>> pts; Eigen::Matrix<double, NP, 1> p; Eigen::Matrix<double, NE + NI + NX, 1> lam; std::vector<Ref> refs, refs2; bool alt = false;
    static Ref ref(const Pb &pb, const Eigen::Matrix<double, NX, 1> &x, const Eigen::Matrix<double, NP, 1> &p) {
        using J = jets::Jet; Eigen::Matrix<J, NX, 1> xj; for (int i = 0; i < NX; ++i) xj(i) = J::var(x(i), i, NX);
        Ref r; J c; pb.template cost<J>(xj, p, c); r.c = c.v; r.g = c.grad(NX); r.H = c.hess(NX);
        Eigen::Matrix<J, NE, 1> e; Eigen::Matrix<J, NI, 1> q;
        pb.template equality_constraints<J>(xj, p, e); pb.template inequality_constraints<J>(xj, p, q);
        r.ce.resize(NE); r.ci.resize(NI); r.Je.resize(NE, NX); r.Ji.resize(NI, NX);
        for (int i = 0; i < NE; ++i) { r.ce(i) = e(i).v; r.Je.row(i) = e(i).grad(NX).transpose(); r.He.push_back(e(i).hess(NX)); }
        for (int i = 0; i < NI; ++i) { r.ci(i) = q(i).v; r.Ji.row(i) = q(i).grad(NX).transpose(); r.Hi.push_back(q(i).hess(NX)); }
        return r;
    }
    void query(Pb &pb, int q, int k) {
        vh::op();
        const Ref &r = alt ? refs2[k] : refs[k]; const auto &x = pts[k]; const double G = 7; const double tol = 1e-9;
        double c = G; typename Pb::nlp_variable_t g, lg; g.setConstant(G); lg.setConstant(G);
        typename Pb::nlp_hessian_t H; H.setConstant(G);
        typename Pb::nlp_eq_constraints_t ce; typename Pb::nlp_ineq_constraints_t ci; typename Pb::nlp_constraints_t cc; ce.setConstant(G); ci.setConstant(G); cc.setConstant(G);
        typename Pb::nlp_eq_jacobian_t Je; typename Pb::nlp_ineq_jacobian_t Ji; typename Pb::nlp_jacobian_t J; Je.setConstant(G); Ji.setConstant(G); J.setConstant(G);
        Eigen::VectorXd rc(NE + NI); rc << r.ce, r.ci; Eigen::MatrixXd rJ(NE + NI, NX); rJ << r.Je, r.Ji;
        Eigen::VectorXd rlg = r.g + r.Je.transpose() * lam.template head<NE>() + r.Ji.transpose() * lam.template segment<NI>(NE) + lam.template tail<NX>();
        double s = q == 9 ? 0.375 : 1; Eigen::MatrixXd rH = s * r.H; for (int i = 0; i < NE; ++i) rH += lam(i) * r.He[i]; for (int i = 0; i < NI; ++i) rH += lam(NE + i) * r.Hi[i];
        auto C = [&](const char *w) { vh::near(c, r.c, tol, (std::string("cost/") + w).c_str(), QN[q]); };
        auto M = [&](const Eigen::MatrixXd &a, const Eigen::MatrixXd &b, const char *w) { if (b.size()) vh::mnear(a, b, tol, w, QN[q]); };
        switch (q) {
        case 0: pb.cost(x, p, c); C("value"); pb.equalities(x, p, ce); pb.inequalities(x, p, ci); pb.constraints(x, p, cc);
            M(ce, r.ce, "equalities"); M(ci, r.ci, "inequalities"); M(cc, rc, "constraints");
            { double L = G; pb.lagrangian(x, p, lam, L); double e = r.c + lam.template head<NE>().dot(r.ce) + lam.template segment<NI>(NE).dot(r.ci) + lam.template tail<NX>().dot(x); vh::near(L, e, tol, "lagrangian", QN[q]); } break;
        case 1: pb.cost_gradient(x, p, c, g); C("with-gradient"); M(g, r.g, "cost-gradient"); break;
        case 2: pb.cost_gradient_hessian(x, p, c, g, H); C("with-hessian"); M(g, r.g, "cost-gradient"); M(H, r.H, "cost-hessian"); break;
        case 3: pb.equalities_linearised(x, p, ce, Je); M(ce, r.ce, "equalities"); M(Je, r.Je, "equality-jacobian"); break;
        case 4: pb.inequalities_linearised(x, p, ci, Ji); M(ci, r.ci, "inequalities"); M(Ji, r.Ji, "inequality-jacobian"); break;
        case 5: pb.constraints_linearised(x, p, cc, J); M(cc, rc, "constraints"); M(J, rJ, "constraint-jacobian"); break;
        case 6: pb.lagrangian_gradient(x, p, lam, c, lg); M(lg, rlg, "lagrangian-gradient"); break;
        case 7: pb.lagrangian_gradient(x, p, lam, c, lg, g, cc, J); M(lg, rlg, "lagrangian-gradient"); M(g, r.g, "cost-gradient"); M(cc, rc, "constraints"); M(J, rJ, "constraint-jacobian"); break;
        case 8: pb.lagrangian_gradient_hessian(x, p, lam, c, lg, H, g, cc, J); goto hess;
        case 9: pb.lagrangian_gradient_hessian(x, p, lam, c, lg, H, g, cc, J, s);
        hess: M(lg, rlg, "lagrangian-gradient"); M(g, r.g, "cost-gradient"); M(cc, rc, "constraints"); M(J, rJ, "constraint-jacobian"); M(H, rH, "lagrangian-hessian"); break;
        }
    }
    std::vector<int> path;
    void dfs(const Pb &pb, int depth, const std::vector<int> &P) {
        for (int q = 0; q < NQ; ++q) for (int k : P) {
            Pb c(pb); query(c, q, k); vh::state(vh::Hash().i(NX * 27 + NE * 9 + NI * 3 + NP).i(pb.fc).i(pb.fe).i(pb.fi).i(q).i(k).i(path.empty() ? -1 : path.back()).i(path.size() > 1 ? path[path.size() - 2] : -1).h);
            if (depth > 1) { path.push_back(q * 8 + k); dfs(c, depth - 1, P); path.pop_back(); }
        }
    }
    void run() {
        std::vector<double> grid = {-0.5, 0.0, 0.75, 1.25};
        for (int i = 0; i < NP; ++i) p(i) = 0.25 + i; for (int i = 0; i < NE + NI + NX; ++i) lam(i) = (i % 2 ? -1 : 1) * (0.5 + 0.25 * i);
        std::vector<int> c(NX, 0); for (;;) { Eigen::Matrix<double, NX, 1> v; for (int i = 0; i < NX; ++i) v(i) = grid[c[i]]; pts.push_back(v); int k = NX - 1; while (k >= 0 && ++c[k] == (int)grid.size()) c[k--] = 0; if (k < 0) break; }
        const Eigen::Matrix<double, NP, 1> p1 = p, p2 = Eigen::Matrix<double, NP, 1>::Constant(-0.375); const Eigen::Matrix<double, NE + NI + NX, 1> full = lam;
        std::vector<Eigen::Matrix<double, NE + NI + NX, 1>> lams;   // multiplier patterns: zero, one block, all but one entry, one entry
        { auto z = full; z.setZero(); lams.push_back(z); auto a = z; a.template head<NE>() = full.template head<NE>(); lams.push_back(a); a = z; a.template segment<NI>(NE) = full.template segment<NI>(NE); lams.push_back(a); a = z; a.template tail<NX>() = full.template tail<NX>(); lams.push_back(a);
          for (int i = 0; i < NE + NI + NX; ++i) { a = z; a(i) = -1.5; lams.push_back(a); a = full; a(i) = 0; lams.push_back(a); } }
        for (int fc = 0; fc < NF; ++fc) for (int fe = 0; fe < (NE ? NF : 1); ++fe) for (int fi = 0; fi < (NI ? NF : 1); ++fi) {
            auto id = [&](const char *w) { return vh::fmt("nx%d-ne%d-ni%d-np%d/cost%d/eq%d/ineq%d/%s", NX, NE, NI, NP, fc, fe, fi, w); };
            Pb pb; pb.fc = fc; pb.fe = fe; pb.fi = fi; bool filled = false;
            auto fill = [&] { if (!filled) { refs.clear(); for (auto &x : pts) refs.push_back(ref(pb, x, p)); filled = true; } };
            if (vh::begin_lazy([&] { return id("every query at every grid point, fresh object"); })) { fill();
                for (int k = 0; k < (int)pts.size(); ++k) for (int q = 0; q < NQ; ++q) { Pb o(pb); query(o, q, k); vh::state(vh::Hash().i(NX * 27 + NE * 9 + NI * 3 + NP).i(fc).i(fe).i(fi).i(q).i(k).i(-7).h); } }
            bool hist = (fc + 2 * fe + 3 * fi) % ((NE && NI) ? 5 : (NE || NI) ? 2 : 1) == 0 || vh::thorough();
            // neighbours of a query: the same point with another parameter, other multipliers, or one other coordinate
            if (vh::begin_lazy([&] { return id("every query after a query that differs in one argument"); })) { fill(); refs2.clear(); if (NP) for (auto &x : pts) refs2.push_back(ref(pb, x, p2));
                const int nb = (int)pts.size(); std::vector<int> base = {0, nb - 1, nb / 2};
                for (int k : base) for (int q = 0; q < NQ; ++q) {
                    if (NP) { Pb o(pb); alt = true; p = p2; query(o, q, k); alt = false; p = p1; query(o, q, k); alt = true; p = p2; query(o, (q + k) % NQ, k); query(o, q, k); alt = false; p = p1; }
                    if (q == 0 || q >= 6) for (auto &l : lams) { Pb o(pb); lam = l; query(o, q, k); lam = full; query(o, q, k); lam = l; query(o, q, k); lam = full; }
                    for (int i = 0, st = 1; i < NX; ++i, st *= (int)grid.size()) for (int d = 1; d < 4; ++d) { const int c = (k / st) % 4, k2 = k + ((c + d) % 4 - c) * st; Pb o(pb); query(o, q, k); query(o, q, k2); query(o, (q + 3) % NQ, k2); query(o, q, k); }
                    vh::state(vh::Hash().i(NX * 27 + NE * 9 + NI * 3 + NP).i(fc).i(fe).i(fi).i(q).i(k).i(-9).h); } }
            // a point where the one-sided functions vanish and one where they do not
            std::vector<int> P = {0, (int)pts.size() - 1}; int depth = vh::thorough() && NX <= 2 ? 3 : 2;
            if (!(NE && NI) || NX == 1) depth = 3;
            if (hist && vh::begin_lazy([&] { return id(vh::fmt("all query sequences of length %d over 2 points", depth).c_str()); })) { fill(); dfs(pb, depth, P); }
        }
    }
};
void vh_run() {
#define D(a, b, c, d) { Test<a, b, c, d> t; t.run(); }
    DIMS
}
