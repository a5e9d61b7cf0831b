// C14: the structured quasi-Newton update of transcribed problems. Reference: damped BFGS (Nocedal & Wright, procedure 18.2)
// in long double, restricted to the sparsity pattern for sparse storage. All sequences of (step, gradient change) pairs.
#include "ocp_common.hpp"
using namespace ocp;
template <int NX, int NU, int NP, int ND, int NG, int P, int S> struct Run {
    using R = Reference<NX, NU, NP, ND, NG, P, S>; enum { N = R::N, NS = 7, NY = 8 };
    using OD = Ocp<NX, NU, NP, ND, NG, P, S, DENSE, 0>; using OS = Ocp<NX, NU, NP, ND, NG, P, S, SPARSE, 0>;
    int node(int c) const { return c < R::VX ? c / NX : c < R::VX + R::VU ? (c - R::VX) / (NU > 0 ? NU : 1) : -1; }
    bool inpat(int r, int c) const { int a = node(r), b = node(c); return a < 0 || b < 0 || a == b; }
    V step(int k) const { V s = V::Zero(N); switch (k) {
        case 0: break; case 1: s(0) = 0.5; break; case 2: s(R::VX + R::VU - 1) = -2.0; break; case 3: for (int i = 0; i < N; ++i) s(i) = 0.1 * ((i * 5) % 7) - 0.3; break;
        case 4: if (NP > 0) s(N - 1) = 1.0; else s(R::VX - 1) = 1.0; break; case 5: for (int i = 0; i < N; ++i) s(i) = node(i) == 1 ? 1.0 - 0.3 * (i % 3) : 0.0; break; case 6: for (int i = 0; i < N; ++i) s(i) = 1e-3 * ((i % 2) ? 1 : -1); break; } return s; }
    V change(int k, const V &s, const M &B) const { V y(N); switch (k) {
        case 0: y = B * s; break; case 1: y = 2.0 * s; break; case 2: y = -s; break; case 3: y.setZero(); break;
        case 4: for (int i = 0; i < N; ++i) y(i) = (i % 3 == 1 ? -1.5 : 3.0) * s(i); break;
        case 5: y = 0.19 * (B * s); y(0) += 0.01 * s(0); break;
        case 6: y = -150.0 * (B * s); break; case 7: y = 1e3 * s; break; } return y; }
    M start(int k) const { M B = M::Zero(N, N); if (k == 0) B.setIdentity(); else {
            // positive definite with full blocks (and weak coupling to the parameters)
            for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) if (inpat(r, c)) B(r, c) = r == c ? 3.0 + 0.1 * r : ((node(r) < 0) != (node(c) < 0) ? 0.02 : 0.15) * (((r + c) % 3) - 1); if (k == 2) B *= 1e4; } return B; }
    void run(const char *tag) {
        const int L = vh::thorough() ? 3 : 2; int tot = 1; for (int i = 0; i < L; ++i) tot *= NS * NY;
        for (int st = 0; st < 3; ++st) for (int mode = 0; mode < 2; ++mode) for (int h = 0; h < tot; ++h) if (vh::begin_lazy([&] { return vh::fmt("%s/st%d.m%d.h%d", tag, st, mode, h); })) {
            static OD od; static OS os; static typename OS::nlp_hessian_t H0; static bool init = false;
            if (!init) { H0.resize(N, N); typename OS::nlp_variable_t g(N), v = point(0, N); typename OS::static_parameter_t d; d.setZero(); double c; os.cost_gradient_hessian(v, d, c, g, H0); init = true; }
            typename OS::nlp_hessian_t H = H0; if (mode) H.makeCompressed(); M B = start(st), D = B, Rf = B; typename OD::nlp_hessian_t Dn = B;
            for (int c = 0; c < N; ++c) for (typename OS::nlp_hessian_t::InnerIterator it(H, c); it; ++it) it.valueRef() = B(it.row(), c);
            M pat = M::Zero(N, N); for (int c = 0; c < N; ++c) for (typename OS::nlp_hessian_t::InnerIterator it(H, c); it; ++it) pat(it.row(), c) = 1;
            bool pd = NP == 0;
            for (int i = 0, c = h; i < L; ++i, c /= NS * NY) {
                typename OS::nlp_variable_t s = step(c % NS), y = change(c / NS % NY, s, Rf), yd = change(c / NS % NY, s, D); vh::op(2);
                auto ref = [&](M &b, const V &sv, const V &yv, bool restrict) { LM b_ = b.cast<long double>(); LV sl = sv.cast<long double>(), yl = yv.cast<long double>(), bs = b_ * sl; long double sbs = sl.dot(bs), sy = sl.dot(yl); LV r = yl; long double sr = sy;
                    if (sy < 0.2L * sbs) { long double th = 0.8L * sbs / (sbs - sy); r = th * yl + (1 - th) * bs; sr = sl.dot(r); } if (sr < 2.3e-16L) return; LM u = r * r.transpose() / sr - bs * bs.transpose() / sbs;
                    for (int a = 0; a < N; ++a) for (int q = 0; q < N; ++q) if (!restrict || inpat(a, q)) b(a, q) = (double)(b_(a, q) + u(a, q)); };
                ref(Rf, s, y, true); ref(D, s, yd, false);
                os.hessian_update_impl(H, s, y); od.hessian_update_impl(Dn, s, yd);
                M Hd = M(H); vh::mnear(Hd, Rf, 1e-8, "sparse_update", vh::fmt("step %d", i)); vh::mnear(Dn, D, 1e-8, "dense_update", vh::fmt("step %d", i));
                vh::mnear(Hd, M(Hd.transpose()), 1e-12, "sparse_symmetric"); vh::mnear(Dn, M(Dn.transpose()), 1e-12, "dense_symmetric");
                M p2 = M::Zero(N, N); for (int q = 0; q < N; ++q) for (typename OS::nlp_hessian_t::InnerIterator it(H, q); it; ++it) p2(it.row(), q) = 1; vh::check(p2 == pat && H.nonZeros() == H0.nonZeros(), "pattern", "sparsity pattern changed");
                auto definite = [&](const M &m, const char *n) { Eigen::SelfAdjointEigenSolver<M> es(m, Eigen::EigenvaluesOnly); double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff(); vh::check(lo > -1e-12 * hi && hi > 0, n, vh::fmt("eigenvalues in [%g, %g]", lo, hi)); };
                if (vh::finite(Dn)) definite(Dn, "dense_definite"); if (pd && vh::finite(Hd)) definite(Hd, "sparse_definite");
                vh::state(vh::Hash().m(Hd).h);
            }
        }
    }
};
#define RUN1(NX, NU, NP, ND, NG, P, S, VAR) { Run<NX, NU, NP, ND, NG, P, S> r; r.run(#NX "," #NU "," #NP "," #ND "," #NG "/P" #P "S" #S); }
void vh_run() {
#define X(...) RUN1(__VA_ARGS__)
    LIST
}
