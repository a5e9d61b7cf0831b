// C03: all operation histories up to a depth on one solver object, compared with a fresh object and the exact minimiser.
#include "qp_common.hpp"
using namespace qpx;
struct Group { int cut = 0; const char *n; Mat mH, mA; std::vector<QP> q; std::vector<Opt> ref; };
static QP mkq(const Mat &H, const Vec &h, const Mat &A, const Vec &al, const Vec &au, const Vec &xl, const Vec &xu) { QP q; q.H = H; q.h = h; q.A = A; q.al = al; q.au = au; q.xl = xl; q.xu = xu; return q; }
static Vec V(std::initializer_list<double> l) { Vec v(l.size()); int k = 0; for (double d : l) v(k++) = d; return v; }
static Mat MM(int r, int c, std::initializer_list<double> l) { Mat m(r, c); auto it = l.begin(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = *it++; return m; }
template <int N, int M> std::vector<Group> groups();
template <> std::vector<Group> groups<2, 1>() {
    std::vector<Group> g(4); const double I = INF;
    g[0].n = "full"; g[0].mH = Mat::Ones(2, 2); g[0].mA = Mat::Ones(1, 2);
    g[0].q = { mkq(MM(2, 2, {4, 1, 1, 2}), V({1, 1}), MM(1, 2, {1, 1}), V({1}), V({1}), V({0, 0}), V({.7, .7})),
               mkq(MM(2, 2, {1, 0, 0, 1}), V({-2, 1}), MM(1, 2, {2, -1}), V({-I}), V({I}), V({-I, -I}), V({I, I})),
               mkq(MM(2, 2, {2, -1, -1, 3}), V({1, -4}), MM(1, 2, {0, 1}), V({-1}), V({.5}), V({-I, .25}), V({-.5, I})),
               mkq(MM(2, 2, {1, -.5, -.5, 1}), V({-3, 0}), MM(1, 2, {1, 0}), V({-I}), V({-.5}), V({-1, .5}), V({1, .5})),
               mkq(MM(2, 2, {4, 1, 1, 2}), V({1, 1}), MM(1, 2, {1, 1}), V({3}), V({I}), V({0, 0}), V({.7, .7})) };   // infeasible
    // no structural second diagonal entry, no A(0,1)
    g[1].n = "holes"; g[1].mH = MM(2, 2, {1, 1, 1, 0}); g[1].mA = MM(1, 2, {1, 0});
    g[1].q = { mkq(MM(2, 2, {2, 0, 0, 0}), V({1, 1}), MM(1, 2, {1, 0}), V({-.25}), V({I}), V({-1, -1}), V({1, 1})),
               mkq(MM(2, 2, {1, 0, 0, 0}), V({-2, -1}), MM(1, 2, {3, 0}), V({-I}), V({1}), V({-I, 0}), V({I, 2})),
               mkq(MM(2, 2, {3, 0, 0, 0}), V({0, 1}), MM(1, 2, {-1, 0}), V({.5}), V({.5}), V({-2, .25}), V({2, .75})) };
    g[2].n = "diag"; g[2].mH = MM(2, 2, {1, 0, 0, 1}); g[2].mA = MM(1, 2, {0, 1});
    g[2].q = { mkq(MM(2, 2, {1, 0, 0, 2}), V({1, -3}), MM(1, 2, {0, 1}), V({-1}), V({1}), V({-I, -I}), V({I, I})),
               mkq(MM(2, 2, {5, 0, 0, 1}), V({-1, 1}), MM(1, 2, {0, 2}), V({1}), V({1}), V({-1, -1}), V({.1, 1})),
               mkq(MM(2, 2, {1, 0, 0, 3}), V({2, 2}), MM(1, 2, {0, -1}), V({-I}), V({I}), V({.5, -.25}), V({.5, I})) };
    // problems that differ from the first one in a single argument
    { auto &n = g[g.size() - 1]; n.n = "near"; n.mH = Mat::Ones(2, 2); n.mA = Mat::Ones(1, 2); QP b = g[0].q[0]; n.q.push_back(b);
      QP q = b; q.h = V({-3, .5}); n.q.push_back(q); q = b; q.A(0, 1) = -2; n.q.push_back(q); q = b; q.H = MM(2, 2, {1, 0, 0, 3}); n.q.push_back(q);
      q = b; q.al(0) = q.au(0) = .25; n.q.push_back(q); q = b; q.al(0) = -1; n.q.push_back(q); q = b; q.al(0) = -I; q.au(0) = I; n.q.push_back(q);
      q = b; q.xu(1) = .125; n.q.push_back(q); q = b; q.xl(0) = q.xu(0) = .5; n.q.push_back(q); q = b; q.xl = V({-I, -I}); q.xu = V({I, I}); n.q.push_back(q); n.cut = 1; }
    return g;
}
template <> std::vector<Group> groups<2, 2>() {
    std::vector<Group> g(3); const double I = INF;
    g[0].n = "full"; g[0].mH = Mat::Ones(2, 2); g[0].mA = Mat::Ones(2, 2);
    g[0].q = { mkq(MM(2, 2, {2, 1, 1, 2}), V({1, -1}), MM(2, 2, {1, 1, 1, -1}), V({.5, -1}), V({.5, 1}), V({0, 0}), V({I, I})),
               mkq(MM(2, 2, {1, 0, 0, 1}), V({-2, 1}), MM(2, 2, {2, -1, 0, 1}), V({-I, -I}), V({I, .25}), V({-I, -1}), V({I, I})),
               mkq(MM(2, 2, {2, -1, -1, 3}), V({1, -4}), MM(2, 2, {1, 1, 2, 2}), V({-1, -I}), V({1, I}), V({.5, -1}), V({.5, 1})) };
    g[1].n = "tri"; g[1].mH = MM(2, 2, {1, 0, 0, 1}); g[1].mA = MM(2, 2, {1, 0, 1, 1});
    g[1].q = { mkq(MM(2, 2, {1, 0, 0, 2}), V({1, -3}), MM(2, 2, {1, 0, 1, 1}), V({-1, -I}), V({1, .5}), V({-I, -I}), V({I, I})),
               mkq(MM(2, 2, {5, 0, 0, 1}), V({-1, 1}), MM(2, 2, {-2, 0, 1, -1}), V({-I, .25}), V({I, .25}), V({-1, -1}), V({1, 1})),
               mkq(MM(2, 2, {1, 0, 0, 3}), V({2, 2}), MM(2, 2, {1, 0, 0, 1}), V({.25, -I}), V({.25, I}), V({-1, .5}), V({1, .75})) };
    // problems that differ from the first one in a single argument
    { auto &n = g[g.size() - 1]; n.n = "near"; n.mH = Mat::Ones(2, 2); n.mA = Mat::Ones(2, 2); QP b = g[0].q[0]; n.q.push_back(b);
      QP q = b; q.h = V({-3, .5}); n.q.push_back(q); q = b; q.A(0, 1) = -2; n.q.push_back(q); q = b; q.H = MM(2, 2, {1, 0, 0, 3}); n.q.push_back(q);
      q = b; q.al(0) = q.au(0) = .25; n.q.push_back(q); q = b; q.al(0) = -1; n.q.push_back(q); q = b; q.al(0) = -I; q.au(0) = I; n.q.push_back(q);
      q = b; q.xu(1) = .125; n.q.push_back(q); q = b; q.xl(0) = q.xu(0) = .5; n.q.push_back(q); q = b; q.xl = V({-I, -I}); q.xu = V({I, I}); n.q.push_back(q); n.cut = 1; }
    return g;
}
// operations: 0 cold solve, 1 solve with a guess, 2 truncated solve, 3 solve with the same-pattern option, 4.. setting changes
struct Op { int kind, q; };
static std::string opn(const Op &o) { const char *k[] = {"S", "G", "T", "R"}; const char *st[] = {"rho=1", "alpha=1.6", "adaptive", "defaults", "check=1", "sigma=1e-3"}; return o.kind < 4 ? vh::fmt("%s%d", k[o.kind], o.q) : std::string(st[o.kind - 4]); }
template <int N, int M> void run_dim(int depth) {
    using R = Run<N, M>;
    auto gs = groups<N, M>();
    for (auto &g : gs) {
        for (auto &q : g.q) g.ref.push_back(solve_ref(q));
        const int nq = g.q.size();
        std::vector<Op> hist, fin;
        for (int k = 0; k < 4; ++k) for (int i = 0; i < nq; ++i) { Op o{k, i}; if (k != 1 || i != 1) hist.push_back(o); if (k != 2) fin.push_back(o); }
        for (int k = 4; k < 10; ++k) hist.push_back({k, 0});
        for (int d = 0; d <= depth - g.cut; ++d) {
            long tot = 1; for (int i = 0; i < d; ++i) tot *= hist.size();
            for (long c = 0; c < tot; ++c) for (auto &f : fin) {
                std::vector<Op> seq; long t = c; for (int i = 0; i < d; ++i) { seq.push_back(hist[t % hist.size()]); t /= hist.size(); }
                seq.push_back(f);
                if (!vh::begin_lazy([&] { std::string s = vh::fmt("n%dm%d %s:", N, M, g.n); for (auto &o : seq) s += " " + opn(o); return s; })) continue;
                typename R::Solver s; bool have = false;
                auto set = [&](typename R::Solver &z) { z.settings().eps_abs = 1e-7; z.settings().eps_rel = 1e-7; z.settings().max_iter = 20000; z.settings().adaptive_rho_interval = 50; };
                set(s);
                double rho = .1, alpha = 1, sg = 1e-6; bool ad = false; int ct = 25;
                Vec x0 = Vec::Constant(N, 2.5), y0 = Vec::LinSpaced(N + M, -4, 3);
                status_t last = UNSOLVED;
                for (std::size_t k = 0; k < seq.size(); ++k) {
                    auto &o = seq[k];
                    if (o.kind >= 4) { if (o.kind == 4) rho = 1; if (o.kind == 5) alpha = 1.6; if (o.kind == 6) ad = true; if (o.kind == 7) { rho = .1; alpha = 1; ad = false; ct = 25; sg = 1e-6; } if (o.kind == 8) ct = 1; if (o.kind == 9) sg = 1e-3;
                        vh::op(); continue; }
                    s.settings().rho = rho; s.settings().alpha = alpha; s.settings().adaptive_rho = ad; s.settings().check_termination = ct; s.settings().sigma = sg;
                    s.settings().max_iter = o.kind == 2 ? 7 : 20000;
                    s.settings().reuse_pattern = o.kind == 3 && have;
                    last = R::solve(s, g.q[o.q], P_TRUE, (k + o.q) % 2 == 0, o.kind == 1 ? &x0 : nullptr, o.kind == 1 ? &y0 : nullptr, &g.mH, &g.mA);
                    have = true;
                }
                typename R::Solver fr; set(fr); fr.settings().rho = rho; fr.settings().alpha = alpha; fr.settings().adaptive_rho = ad; fr.settings().check_termination = ct; fr.settings().sigma = sg;
                status_t fs = R::solve(fr, g.q[f.q], P_TRUE, true, nullptr, nullptr, &g.mH, &g.mA);
                Vec x = R::x(s), xf = R::x(fr);
                vh::state(vh::Hash().s(opn(seq[0])).i(rho*10).i(alpha*10).i(ad).i(ct).i(last).i(s.info().iter).i(f.q).m(x).h);
                vh::check(last == fs, "status", vh::fmt("status %d, a fresh solver returns %d", last, fs));
                if (fs == SOLVED) {
                    vh::check(ninf(x - xf) <= 1e-3 * (1 + ninf(xf)), "solution", vh::fmt("x=%s, a fresh solver returns %s", vh::vec(x).c_str(), vh::vec(xf).c_str()));
                    auto &r = g.ref[f.q];
                    vh::check(r.feasible && ninf(x - r.x) <= 1e-3 * (1 + ninf(r.x)), "minimiser", vh::fmt("x=%s, minimiser %s", vh::vec(x).c_str(), vh::vec(r.x).c_str()));
                    // multipliers of the reused object are those of the problem that was just solved
                    Vec y = R::y(s); auto &q = g.q[f.q];
                    if (vh::finite(y)) { double rr = ninf(q.H * x + q.h + q.A.transpose() * y.head(M) + y.tail(N)); vh::check(rr < 1e-4, "multipliers", vh::fmt("stationarity residual %g with the returned multipliers", rr)); }
                    else vh::fail("multipliers", "not finite");
                } else vh::check(!g.ref[f.q].feasible, "solved", "a fresh solver does not solve a feasible problem");
                vh::note(vh::fmt("status %d x=", last) + vh::vec(x));
            }
        }
    }
}
void vh_run() { run_dim<2, 1>(vh::thorough() ? 3 : 2); run_dim<2, 2>(vh::thorough() ? 3 : 2); }
