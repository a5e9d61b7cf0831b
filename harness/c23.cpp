// C23: Lyapunov, Riccati and LQR solutions for every small-integer system, weight and cross weight of the menus, certified by residuals, by the
// stability of the closed loop and by the stable invariant subspace of the Hamiltonian matrix.
#include "common.hpp"
#include "control/lqr.hpp"
using M = Eigen::MatrixXd; using V = Eigen::VectorXd; using CM = Eigen::MatrixXcd; typedef std::complex<double> C;
static Eigen::VectorXcd eig(const M &A) { return Eigen::EigenSolver<M>(A, false).eigenvalues(); }
static std::string str(const M &A) { std::string s = "["; for (int i = 0; i < A.rows(); ++i) { for (int j = 0; j < A.cols(); ++j) s += vh::fmt("%g%s", A(i, j), j + 1 < A.cols() ? " " : ""); s += i + 1 < A.rows() ? ";" : "]"; } return s; }
static M decode(long c, int r, int k, int base, int off) { M A(r, k); for (int i = 0; i < r * k; ++i) { A(i) = c % base + off; c /= base; } return A; }
static long ipow(int b, int e) { long r = 1; while (e--) r *= b; return r; }
// ---------------------------------------------------------------- Lyapunov
static void lyap(const M &A, const M &Q, const std::string &nm) {
    const int n = A.rows(); M K = M::Zero(n * n, n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { K(i + j * n, k + j * n) += A(i, k); K(i + j * n, i + k * n) += A(j, k); }
    Eigen::FullPivLU<M> lu(K); lu.setThreshold(1e-9); if (!lu.isInvertible()) return;                 // A and -A' share an eigenvalue: not admissible
    if (!vh::begin_lazy([&] { return nm; })) return; vh::op();
    const M X = lyapunov(A, Q); const double cond = 1 + K.norm() * lu.inverse().norm();
    const M R = A * X + X * A.transpose() - Q; vh::state(vh::Hash().m(X).h);
    vh::check(R.cwiseAbs().maxCoeff() <= 1e-12 * (1 + Q.norm() + A.norm() * X.norm()), "lyapunov.residual", "A=" + str(A) + " Q=" + str(Q) + " X=" + str(X));
    V q(n * n); for (int i = 0; i < n * n; ++i) q(i) = Q(i); const V x = lu.solve(q); double e = 0; for (int i = 0; i < n * n; ++i) e = std::max(e, std::abs(x(i) - X(i)));
    vh::check(e <= 1e-13 * cond * (1 + X.norm()), "lyapunov.solution", vh::fmt("error %g ", e) + "A=" + str(A) + " Q=" + str(Q) + " X=" + str(X));
}
static M spd(int k, int n) { M Q = M::Identity(n, n); switch (k) { case 0: break; case 1: Q.setZero(); for (int i = 0; i < n; ++i) { Q(i, i) = 2 + i; if (i) Q(i, i - 1) = Q(i - 1, i) = -1; } break; case 2: Q.setZero(); Q(0, 0) = 3; break; case 3: Q.setOnes(); break; case 4: for (int i = 0; i < n; ++i) Q(i, i) = i % 2 ? 100 : 0.01; break; case 5: Q.setZero(); break; } return Q; }
static void lyapunovs() {
    auto qs = [](int n) { std::vector<M> q; for (int k = 0; k < 5; ++k) q.push_back(spd(k, n)); M a(n, n); for (int i = 0; i < n * n; ++i) a(i) = (i * 5) % 7 - 3; q.push_back(a); q.push_back(M::Zero(n, n)); return q; };
    for (int n = 1; n <= 2; ++n) { const int b = n == 1 ? 9 : 7; auto Q = qs(n); for (long c = 0; c < ipow(b, n * n); ++c) for (size_t q = 0; q < Q.size(); ++q) lyap(decode(c, n, n, b, -(b / 2)), Q[q], vh::fmt("lyapunov%d/%ld/q%d", n, c, (int)q)); }
    { auto Q = qs(3); for (long c = 0; c < ipow(3, 9); ++c) for (size_t q = 0; q < Q.size(); ++q) { if (!vh::thorough() && (int)(c % Q.size()) != (int)q) continue; lyap(decode(c, 3, 3, 3, -1), Q[q], vh::fmt("lyapunov3/%ld/q%d", c, (int)q)); } }
    // 4x4 and 5x5: two companion blocks with a coupling (complex pairs in both), and a chain
    auto Q4 = qs(4), Q5 = qs(5);
    for (long c = 0; c < ipow(5, 4); ++c) for (int k = 0; k < 3; ++k) for (size_t q = 0; q < Q4.size(); ++q) { M A = M::Zero(4, 4); long d = c; for (int b = 0; b < 2; ++b) { A(2 * b, 2 * b + 1) = 1; A(2 * b + 1, 2 * b) = d % 5 - 2; d /= 5; A(2 * b + 1, 2 * b + 1) = d % 5 - 2; d /= 5; } if (k) A(0, 3) = k; if (k == 2) A(3, 0) = 1; lyap(A, Q4[q], vh::fmt("lyapunov4/%ld/%d/q%d", c, k, (int)q));
        if (q < 2) { M B = M::Zero(5, 5); B.topLeftCorner(4, 4) = A; B(4, 4) = 1.5; B(4, 1) = 1; B(2, 4) = -1; lyap(B, Q5[q], vh::fmt("lyapunov5/%ld/%d/q%d", c, k, (int)q)); } }
}
// ---------------------------------------------------------------- LQR
static bool stabilisable(const M &F, const M &G) { const int n = F.rows(); auto e = eig(F); for (int i = 0; i < n; ++i) if (e(i).real() > -1e-6) { CM P(n, n + G.cols()); P.leftCols(n) = F.cast<C>() - e(i) * CM::Identity(n, n); P.rightCols(G.cols()) = G.cast<C>(); if (Eigen::JacobiSVD<CM>(P).singularValues()(n - 1) < 1e-4) return false; } return true; }
static M rmenu(int k, int m, int mk) { M R = M::Identity(m, m); switch (k) { case 0: break; case 1: R *= mk ? 0.01 : 1e-7; break; case 2: R *= 100; if (m > 1) { R(0, 1) = R(1, 0) = 30; } break; case 3: for (int i = 0; i < m; ++i) R(i, i) = i % 2 ? 10 : 0.05; break; } return R; }
static void lq(const M &F, const M &G, int qk, int rk, int mk, const std::string &nm) {
    const int n = F.rows(), m = G.cols(); const M Q = spd(qk, n), R = rmenu(rk, m, mk); M N = M::Zero(n, m);
    if (mk) { const double s = 0.4 * std::sqrt(R(0, 0)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) N(i, j) = s * (((i + 2 * j + mk) % 3) - 1); }
    const M Ri = R.inverse(), A = F - G * Ri * N.transpose(), B = G * Ri * G.transpose(), W = Q - N * Ri * N.transpose();
    if (Eigen::SelfAdjointEigenSolver<M>(W).eigenvalues()(0) < (mk ? 1e-3 : -1e-12)) return;          // weights not valid
    if (!stabilisable(F, G)) return;
    M H(2 * n, 2 * n); H << A, -B, -W, -A.transpose(); Eigen::EigenSolver<M> es(H); double gap = 1e9; for (int i = 0; i < 2 * n; ++i) gap = std::min(gap, std::abs(es.eigenvalues()(i).real())); if (gap < 1e-3) return; // no stabilising solution, or nearly so
    if (!vh::begin_lazy([&] { return nm + vh::fmt("/q%d/r%d/m%d", qk, rk, mk); })) return; vh::op();
    M S = M::Constant(n, n, 7), K = M::Constant(m, n, 7), S2 = S, K2 = K; lqr(F, G, Q, R, N, S, K, true); lqr(F, G, Q, R, N, S2, K2, false); vh::state(vh::Hash().m(S).h);
    auto T = [&] { return "F=" + str(F) + " G=" + str(G) + " Q=" + str(Q) + " R=" + str(R) + " M=" + str(N) + " S=" + str(S) + " K=" + str(K); };
    vh::check(S == S2 && K == K2, "check-flag", T());
    const double s0 = A.norm() / B.norm() /* natural scale of S: the weights may be zero */, sn = S.norm() + s0, scale = W.norm() + 2 * (S * A).norm() + (S * B * S).norm() + 1e-3 * s0 * A.norm();
    vh::check((S - S.transpose()).norm() <= 1e-8 * (1e-30 + sn), "symmetric", T());
    vh::check(Eigen::SelfAdjointEigenSolver<M>(0.5 * (S + S.transpose())).eigenvalues()(0) >= -1e-8 * sn, "positive-semidefinite", T());
    const double res = (S * A + A.transpose() * S - S * B * S + W).norm(); vh::check(res <= 1e-9 * scale, "riccati.residual", vh::fmt("residual %g of %g ", res, scale) + T());
    vh::check((K - Ri * (G.transpose() * S + N.transpose())).norm() <= 1e-9 * (Ri.norm() * (G.transpose() * S + N.transpose()).norm() + 1e-30), "gain", T());
    const double re = eig(F - G * K).real().maxCoeff(); vh::check(re < 0, "closed-loop", vh::fmt("max real part %g ", re) + T());
    // the stabilising solution from the Hamiltonian
    CM X(2 * n, n); int c = 0; for (int i = 0; i < 2 * n && c < n; ++i) if (es.eigenvalues()(i).real() < 0) X.col(c++) = es.eigenvectors().col(i);
    if (c == n) { CM X1 = X.topRows(n), X2 = X.bottomRows(n); Eigen::JacobiSVD<CM> sv(X); const double cond = sv.singularValues()(0) / sv.singularValues()(n - 1); if (cond < 1e5) { const M ref = (X2 * X1.fullPivLu().inverse()).real(); const double e = (ref - S).norm(); vh::check(e <= cond * (1e-6 * (ref.norm() + s0) + 1e-14 * H.norm()) / std::min(1.0, gap), "stabilising-solution", vh::fmt("error %g ", e) + "reference " + str(ref) + " " + T()); } }
    // optimality against neighbouring gains: cost matrix of K + E from the linear Lyapunov system, trace must not be smaller
    for (int k = 0; k < n * m; ++k) for (double d : {-0.05, 0.05}) { M L = K; L(k) += d * (1 + std::abs(K(k))); const M Ac = F - G * L; if (eig(Ac).real().maxCoeff() >= -1e-6) continue; const M Wc = Q - N * L - L.transpose() * N.transpose() + L.transpose() * R * L;
        M Kr = M::Zero(n * n, n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < n; ++q) { Kr(i + j * n, q + j * n) += Ac(q, i); Kr(i + j * n, i + q * n) += Ac(q, j); } V w(n * n); for (int i = 0; i < n * n; ++i) w(i) = -Wc(i); const V p = Kr.partialPivLu().solve(w); double tr = 0; for (int i = 0; i < n; ++i) tr += p(i + i * n);
        vh::check(tr >= S.trace() * (1 - 1e-5) - 1e-9, "optimal", vh::fmt("trace %g below %g ", tr, S.trace()) + T()); }
}
static void lqrs() {
    for (int f = -3; f <= 3; ++f) for (int g = 0; g < 3; ++g) for (int q = 0; q < 3; ++q) for (int r = 0; r < 4; ++r) for (int mk = 0; mk < 3; ++mk) { M F(1, 1), G(1, 1); F << f; G << g - 1; lq(F, G, q == 2 ? 4 : q, r, mk, vh::fmt("lqr11/%d/%d", f, g)); M G2(1, 2); G2 << g - 1, 1; lq(F, G2, q, r, mk, vh::fmt("lqr12/%d/%d", f, g)); }
    const int b = vh::thorough() ? 5 : 3;
    for (long c = 0; c < ipow(b, 4); ++c) { const M F = decode(c, 2, 2, b, -(b / 2)); for (long g = 0; g < ipow(3, 2); ++g) for (int q = 0; q < 6; ++q) for (int r = 0; r < 4; ++r) for (int mk = 0; mk < 3; ++mk) lq(F, decode(g, 2, 1, 3, -1), q, r, mk, vh::fmt("lqr21/%ld/%ld", c, g));
        for (long g = 0; g < ipow(3, 4); g += vh::thorough() ? 1 : 4) for (int q = 0; q < 6; q += 1) for (int r = 0; r < 4; ++r) lq(F, decode(g, 2, 2, 3, -1), q, r, (g + q + r) % 3, vh::fmt("lqr22/%ld/%ld", c, g)); }
    for (long c = 0; c < ipow(3, 9); c += vh::thorough() ? 1 : 5) { const M F = decode(c, 3, 3, 3, -1); const int g = c % 26 + 1; for (int q = 0; q < 4; ++q) lq(F, decode(g, 3, 1, 3, -1), q, (c + q) % 4, c % 3, vh::fmt("lqr31/%ld/%d", c, g)); lq(F, decode((c * 31 + 7) % 729, 3, 2, 3, -1), c % 6, c % 4, (c / 7) % 3, vh::fmt("lqr32/%ld", c)); }
    // chains of integrators and oscillators up to order 6
    for (int n = 4; n <= 6; ++n) for (int k = 0; k < 4; ++k) for (int q = 0; q < 5; ++q) for (int r = 0; r < 4; ++r) for (int mk = 0; mk < 2; ++mk) { M F = M::Zero(n, n); for (int i = 0; i + 1 < n; ++i) F(i, i + 1) = 1; if (k & 1) F(n - 1, 0) = -2; if (k & 2) F(0, 0) = 0.5; M G = M::Zero(n, 1); G(n - 1) = 1; lq(F, G, q, r, mk, vh::fmt("chain%d/%d", n, k)); }
}
void vh_run() {
#ifdef LYAP
    lyapunovs();
#else
    lqrs();
#endif
}
