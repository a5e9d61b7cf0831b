// C06: damped BFGS / SR1 updates, breadth-first over all update histories from an alphabet of (s,y) pairs.
#include "common.hpp"
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
#include <Eigen/Dense>
#include <deque>
#include <unordered_set>
using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LV = Eigen::Matrix<long double, Eigen::Dynamic, 1>;

static std::vector<Eigen::VectorXd> grid(int n, const std::vector<double> &al) {
    std::vector<Eigen::VectorXd> r; std::vector<int> c(n, 0);
    for (;;) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = al[c[i]]; r.push_back(v); int k = n - 1; while (k >= 0 && ++c[k] == (int)al.size()) c[k--] = 0; if (k < 0) break; }
    return r; }
static std::vector<Eigen::MatrixXd> starts(int n) {
    std::vector<Eigen::MatrixXd> r; Eigen::MatrixXd I = Eigen::MatrixXd::Identity(n, n);
    r.push_back(I); r.push_back(1e-2 * I); r.push_back(1e3 * I);
    Eigen::MatrixXd T = 2 * I; for (int i = 0; i + 1 < n; ++i) T(i, i + 1) = T(i + 1, i) = (i % 2) ? 0.5 : -1; if (n > 1) r.push_back(T);
    Eigen::MatrixXd Dg = I; for (int i = 0; i < n; ++i) Dg(i, i) = std::pow(10.0, i - 1); r.push_back(Dg);
    return r; }

template <typename S, typename MatT, typename VecT> struct Explorer {
    int n; bool sr1; double tol; const char *tn;
    void step(const MatT &B0, const VecT &s, const VecT &y, MatT &B) {
        B = B0; if (sr1) SR1_update(B, s, y); else BFGS_update(B, s, y); vh::op();
        LM lb = B0.template cast<long double>(); LV ls = s.template cast<long double>(), ly = y.template cast<long double>();
        const long double eps_m = std::numeric_limits<S>::epsilon();
        auto ctx = [&] { return "B=" + vh::vec(B0) + " s=" + vh::vec(s) + " y=" + vh::vec(y) + " -> " + vh::vec(B); };
        if (!vh::check(vh::finite(B), "finite", ctx())) return;
        double bs = B.cwiseAbs().maxCoeff();
        vh::check((B - B.transpose()).cwiseAbs().maxCoeff() <= tol * bs, "symmetric", ctx());
        if (!sr1) {
            LV Bs = lb * ls; long double sBs = ls.dot(Bs), sy = ls.dot(ly); LM ref = lb;
            long double th = sy < 0.2L * sBs ? 0.8L * sBs / (sBs - sy) : 1.0L; LV r = th * ly + (1 - th) * Bs; long double sr = ls.dot(r);
            bool degenerate = std::abs(sr - eps_m) < 0.5L * eps_m || (sBs > 0 && std::abs(sy - 0.2L * sBs) < 1e-9L * sBs);
            bool skip = !(sr >= eps_m); // numerically zero step
            if (!skip) ref += -Bs * Bs.transpose() / sBs + r * r.transpose() / sr;
            long double rs = ref.cwiseAbs().maxCoeff() + lb.cwiseAbs().maxCoeff();
            // first-order rounding error of the update (cancellation in B*s and s'Bs)
            if (!skip) rs = std::max(rs, (1 + lb.norm() * ls.squaredNorm() / sBs) * (lb.norm() + Bs.squaredNorm() / sBs + r.squaredNorm() / sr));
            if (!degenerate) vh::check((double)(B.template cast<long double>() - ref).cwiseAbs().maxCoeff() <= tol * (double)rs * 10, "damped-bfgs-formula", ctx());
            if (!skip && sy >= 0.2L * sBs * 1.0000001L) {
                LV e = B.template cast<long double>() * ls - ly;
                vh::check((double)e.cwiseAbs().maxCoeff() <= tol * 10 * (double)(rs * ls.cwiseAbs().maxCoeff()), "secant", ctx());
            }
            if (ls.cwiseAbs().maxCoeff() == 0) vh::check(B == B0, "zero-step-keeps-matrix", ctx());
            // positive definite (judged where the exact update is safely so)
            Eigen::SelfAdjointEigenSolver<LM> es(ref); Eigen::SelfAdjointEigenSolver<LM> eg(LM(B.template cast<long double>()));
            long double mr = es.eigenvalues().minCoeff(), xr = std::max(es.eigenvalues().maxCoeff(), rs);
            if (mr > 1e2L * eps_m * xr) vh::check(eg.eigenvalues().minCoeff() > 0, "positive-definite", ctx());
            else vh::check(eg.eigenvalues().minCoeff() > -1e3L * eps_m * xr, "positive-definite", ctx());
        } else {
            LV v = ly - lb * ls; long double sc = v.dot(ls), lim = 1e-6L * ls.norm() * v.norm(), rs = lb.cwiseAbs().maxCoeff();
            // v is computed with rounding; when it is at rounding level it is numerically zero
            bool vzero = v.cwiseAbs().maxCoeff() <= 16 * n * eps_m * (ly.cwiseAbs().maxCoeff() + rs * ls.cwiseAbs().maxCoeff());
            if (vzero) return; // finite + symmetric checked; the exact update is the identity up to rounding direction
            if (std::abs(sc) > lim * 1.001L) { LM ref = lb + v * v.transpose() / sc; long double q = rs + ref.cwiseAbs().maxCoeff() + (v * v.transpose() / sc).cwiseAbs().maxCoeff() * (v.norm() * ls.norm() / std::abs(sc)) * (1 + (ly.norm() + rs * ls.norm()) / v.norm());
                vh::check((double)(B.template cast<long double>() - ref).cwiseAbs().maxCoeff() <= tol * (double)q, "sr1-formula", ctx());
                LV e = B.template cast<long double>() * ls - ly; vh::check((double)e.cwiseAbs().maxCoeff() <= tol * (double)(q * ls.cwiseAbs().maxCoeff()), "secant", ctx()); }
            else if (std::abs(sc) < lim * 0.999L) vh::check(B == B0, "rejected-update-keeps-matrix", ctx());
        }
    }
    static vh::u64 h(const MatT &B, int salt) { vh::Hash x; x.i(salt); for (int j = 0; j < B.cols(); ++j) for (int i = 0; i < B.rows(); ++i) { double v = B(i, j); x.i(v == 0 ? 0 : (long long)std::llround(std::log(std::abs(v)) * 1e5)); x.i(v < 0); } return x.h; }
    void run(int depth, const std::vector<Eigen::VectorXd> &Sv, const std::vector<Eigen::VectorXd> &Yv, std::size_t cap) {
        auto st = starts(n); int si = 0;
        for (auto &b0 : st) {
            ++si;
            // one case per (start, first step): each explores all continuations breadth first
            for (std::size_t a = 0; a < Sv.size(); ++a) {
                if (!vh::begin_lazy([&] { return vh::fmt("%s/%s/n%d/start%d/depth%d/s0=%s", sr1 ? "sr1" : "bfgs", tn, n, si, depth, vh::vec(Sv[a]).c_str()); })) continue;
                std::unordered_set<vh::u64> seen; std::deque<std::pair<MatT, int>> q;
                auto push = [&](const MatT &B, int d) { if (!vh::finite(B)) return; auto k = h(B, sr1 * 100 + n * 10 + (sizeof(S) == 4)); vh::state(k); double mx = B.cwiseAbs().maxCoeff(); if (d < depth && mx < 1e8 && mx > 1e-8 && seen.size() < cap && seen.insert(k).second) q.push_back({B, d}); };
                MatT B = b0.template cast<S>(), Bn = B;
                for (auto &y : Yv) { step(B, Sv[a].template cast<S>(), y.template cast<S>(), Bn); push(Bn, 1); }
                while (!q.empty()) { auto p = q.front(); q.pop_front(); for (auto &s : Sv) for (auto &y : Yv) { step(p.first, s.template cast<S>(), y.template cast<S>(), Bn); push(Bn, p.second + 1); } }
                vh::note(vh::fmt("%zu distinct matrices expanded, last %s", seen.size(), vh::vec(Bn).c_str()));
            }
        }
    }
};
void vh_run() {
    const bool T = vh::thorough();
    using V1 = Eigen::Matrix<double, 1, 1>;
    for (bool sr1 : {false, true}) {
        Explorer<double, V1, V1> e1{1, sr1, 1e-9, "double"}; e1.run(T ? 5 : 4, grid(1, {0, 1, -2, 1e-3}), grid(1, {0, 1, -1, 3, 1e-3}), 400);
        Explorer<double, Eigen::Matrix2d, Eigen::Vector2d> e2{2, sr1, 1e-8, "double"}; e2.run(T ? 3 : 2, grid(2, {0, 1, -1}), grid(2, {0, 1, -2}), T ? 1000 : 300);
        e2.run(T ? 3 : 2, grid(2, {1, -0.5}), grid(2, {-1, 0.25, 10}), T ? 1000 : 200);
        e2.run(2, grid(2, {1e-6, 0, 1e-3}), grid(2, {1e-6, -1e-3, 1}), T ? 1000 : 100);
        Explorer<double, Eigen::MatrixXd, Eigen::VectorXd> e3{3, sr1, 1e-8, "dynamic"}; e3.run(T ? 3 : 2, grid(3, {0, 1}), grid(3, {-1, 1}), T ? 500 : 60);
        e3.run(2, grid(3, {-1, 2}), grid(3, {0, 1, 3}), T ? 300 : 40);
        Explorer<float, Eigen::Matrix2f, Eigen::Vector2f> ef{2, sr1, 1e-3, "float"}; ef.run(2, grid(2, {0, 1, -1}), grid(2, {0, 1, -2}), 60);
    }
}
