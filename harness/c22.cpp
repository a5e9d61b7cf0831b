// C22: AD scalars against an independent second-order jet arithmetic, over all expressions up to a depth
// and all assignment histories up to a length.
#include "common.hpp"
#include <Eigen/Dense>
#include "autodiff/AutoDiffScalar.h"
#include <functional>
#include <deque>
#include <unordered_set>
using Eigen::AutoDiffScalar;
using ld = long double;

struct Jet { ld v; ld g[2]; ld h[2][2];
    Jet(ld c = 0) : v(c) { g[0] = g[1] = 0; h[0][0] = h[0][1] = h[1][0] = h[1][1] = 0; } };
static Jet un(const Jet &a, ld f, ld d, ld dd) { Jet r(f); for (int i = 0; i < 2; ++i) { r.g[i] = d * a.g[i]; for (int j = 0; j < 2; ++j) r.h[i][j] = d * a.h[i][j] + dd * a.g[i] * a.g[j]; } return r; }
static Jet bi(const Jet &a, const Jet &b, ld f, ld fa, ld fb, ld faa, ld fab, ld fbb) { Jet r(f);
    for (int i = 0; i < 2; ++i) { r.g[i] = fa * a.g[i] + fb * b.g[i]; for (int j = 0; j < 2; ++j) r.h[i][j] = fa * a.h[i][j] + fb * b.h[i][j] + faa * a.g[i] * a.g[j] + fab * (a.g[i] * b.g[j] + b.g[i] * a.g[j]) + fbb * b.g[i] * b.g[j]; } return r; }
static Jet operator+(const Jet &a, const Jet &b) { return bi(a, b, a.v + b.v, 1, 1, 0, 0, 0); }
static Jet operator-(const Jet &a, const Jet &b) { return bi(a, b, a.v - b.v, 1, -1, 0, 0, 0); }
static Jet operator*(const Jet &a, const Jet &b) { return bi(a, b, a.v * b.v, b.v, a.v, 0, 1, 0); }
static Jet operator/(const Jet &a, const Jet &b) { return bi(a, b, a.v / b.v, 1 / b.v, -a.v / (b.v * b.v), 0, -1 / (b.v * b.v), 2 * a.v / (b.v * b.v * b.v)); }
static Jet operator-(const Jet &a) { return un(a, -a.v, -1, 0); }
static Jet sin(const Jet &a) { return un(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }
static Jet cos(const Jet &a) { return un(a, std::cos(a.v), -std::sin(a.v), -std::cos(a.v)); }
static Jet tan(const Jet &a) { ld t = std::tan(a.v), c = 1 + t * t; return un(a, t, c, 2 * t * c); }
static Jet exp(const Jet &a) { ld e = std::exp(a.v); return un(a, e, e, e); }
static Jet log(const Jet &a) { return un(a, std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
static Jet sqrt(const Jet &a) { ld s = std::sqrt(a.v); return un(a, s, 0.5L / s, -0.25L / (s * a.v)); }
static Jet abs(const Jet &a) { return un(a, std::abs(a.v), a.v < 0 ? -1 : 1, 0); }
static Jet abs2(const Jet &a) { return un(a, a.v * a.v, 2 * a.v, 2); }
static Jet floor(const Jet &a) { return un(a, std::floor(a.v), 0, 0); }
static Jet asin(const Jet &a) { ld q = 1 - a.v * a.v; return un(a, std::asin(a.v), 1 / std::sqrt(q), a.v / (q * std::sqrt(q))); }
static Jet acos(const Jet &a) { ld q = 1 - a.v * a.v; return un(a, std::acos(a.v), -1 / std::sqrt(q), -a.v / (q * std::sqrt(q))); }
static Jet sinh(const Jet &a) { return un(a, std::sinh(a.v), std::cosh(a.v), std::sinh(a.v)); }
static Jet cosh(const Jet &a) { return un(a, std::cosh(a.v), std::sinh(a.v), std::cosh(a.v)); }
static Jet tanh(const Jet &a) { ld t = std::tanh(a.v), c = 1 - t * t; return un(a, t, c, -2 * t * c); }
static Jet pow(const Jet &a, double p) { return un(a, std::pow(a.v, (ld)p), p * std::pow(a.v, (ld)p - 1), p * (p - 1) * std::pow(a.v, (ld)p - 2)); }
static Jet atan2(const Jet &a, const Jet &b) { ld r = a.v * a.v + b.v * b.v; return bi(a, b, std::atan2(a.v, b.v), b.v / r, -a.v / r, -2 * a.v * b.v / (r * r), (a.v * a.v - b.v * b.v) / (r * r), 2 * a.v * b.v / (r * r)); }
static Jet (max)(const Jet &a, const Jet &b) { return a.v >= b.v ? a : b; }
static Jet (min)(const Jet &a, const Jet &b) { return a.v <= b.v ? a : b; }

using A1 = AutoDiffScalar<Eigen::Vector2d>;
using AF = AutoDiffScalar<Eigen::Vector2f>;
using AX = AutoDiffScalar<Eigen::VectorXd>;
using A2 = AutoDiffScalar<Eigen::Matrix<A1, 2, 1>>;
#if !defined(TYPE)
#define TYPE 0
#endif
#if TYPE == 0
using T = A1; using Sc = double; static const char *TN = "fixed";
#elif TYPE == 1
using T = AX; using Sc = double; static const char *TN = "dynamic";
#elif TYPE == 2
using T = A2; using Sc = double; static const char *TN = "nested";
#else
using T = AF; using Sc = float; static const char *TN = "float";
#endif
static const double TOL = sizeof(Sc) == 4 ? 2e-4 : 1e-10;

static T var(double v, int k) {
#if TYPE == 2
    T t; t.value() = A1(v, 2, k); for (int i = 0; i < 2; ++i) t.derivatives()(i) = A1(i == k ? 1.0 : 0.0, Eigen::Vector2d::Zero()); return t;
#else
    return T(Sc(v), 2, k);
#endif
}
static T con(double v) {
#if TYPE == 2
    return T(A1(v));
#else
    return T(Sc(v));
#endif
}
static Jet jvar(double v, int k) { Jet j((ld)(Sc)v); j.g[k] = 1; return j; }

static bool jok(const Jet &j) { if (!std::isfinite((double)(j.v + j.g[0] + j.g[1] + j.h[0][0] + j.h[0][1] + j.h[1][0] + j.h[1][1]))) return false; ld m = std::abs(j.v); for (int i = 0; i < 2; ++i) { m = std::max(m, std::abs(j.g[i])); for (int k = 0; k < 2; ++k) m = std::max(m, std::abs(j.h[i][k])); } return m < 1e4L && std::isfinite((double)m); }
static void cmp(const T &t, const Jet &j, const char *what, double amp = 1) {
    const double tol = TOL * amp;
#if TYPE == 2
    vh::near(t.value().value(), (double)j.v, tol, "value", what);
    for (int i = 0; i < 2; ++i) { vh::near(t.derivatives()(i).value(), (double)j.g[i], tol, "first-derivative", what); vh::near(t.value().derivatives()(i), (double)j.g[i], tol, "first-derivative", what);
        for (int k = 0; k < 2; ++k) vh::near(t.derivatives()(i).derivatives()(k), (double)j.h[i][k], tol, "second-derivative", what); }
#else
    vh::near(t.value(), (double)j.v, tol, "value", what);
    if (t.derivatives().size() == 0) { vh::check(j.g[0] == 0 && j.g[1] == 0, "first-derivative-missing", what); return; }
    vh::check(t.derivatives().size() == 2, "derivative-size", what);
    for (int i = 0; i < 2; ++i) vh::near(t.derivatives()(i), (double)j.g[i], tol, "first-derivative", what);
#endif
}
struct Node { T t; Jet j; std::string s; };
// unary function table: name, AD implementation, jet implementation, domain
struct Un { const char *n; T (*f)(const T &); Jet (*g)(const Jet &); bool (*dom)(ld); };
static bool any(ld) { return true; } static bool pos(ld v) { return v > 0.02L; } static bool unit(ld v) { return std::abs(v) < 0.97L; } static bool nz(ld v) { return std::abs(v) > 0.02L; }
static bool nint(ld v) { return std::abs(v - std::round(v)) > 1e-3L; } static bool small(ld v) { return std::abs(v) < 6; } static bool tand(ld v) { return std::abs(std::cos(v)) > 0.1L && std::abs(v) < 50; } static bool trig(ld v) { return std::abs(v) < 50; }
#define U1(F, D) {#F, [](const T &x) -> T { using std::F; return F(x); }, [](const Jet &x) -> Jet { return F(x); }, D}
static std::vector<Un> UN = { U1(sin, trig), U1(cos, trig), U1(tan, tand), U1(exp, small), U1(log, pos), U1(sqrt, pos), U1(abs, nz), U1(asin, unit), U1(acos, unit), U1(sinh, small), U1(cosh, small), U1(tanh, small), U1(floor, nint),
    {"abs2", [](const T &x) -> T { using Eigen::numext::abs2; return abs2(x); }, [](const Jet &x) -> Jet { return abs2(x); }, any},
    {"neg", [](const T &x) -> T { return -x; }, [](const Jet &x) -> Jet { return -x; }, any},
    {"add_r", [](const T &x) -> T { return x + Sc(1.5); }, [](const Jet &x) -> Jet { return x + Jet(1.5); }, any}, {"add_l", [](const T &x) -> T { return Sc(-0.5) + x; }, [](const Jet &x) -> Jet { return Jet(-0.5) + x; }, any},
    {"sub_r", [](const T &x) -> T { return x - Sc(0.75); }, [](const Jet &x) -> Jet { return x - Jet(0.75); }, any}, {"sub_l", [](const T &x) -> T { return Sc(2) - x; }, [](const Jet &x) -> Jet { return Jet(2) - x; }, any},
    {"mul_r", [](const T &x) -> T { return x * Sc(-3); }, [](const Jet &x) -> Jet { return x * Jet(-3); }, any}, {"mul_l", [](const T &x) -> T { return Sc(0.5) * x; }, [](const Jet &x) -> Jet { return Jet(0.5) * x; }, any},
    {"div_r", [](const T &x) -> T { return x / Sc(4); }, [](const Jet &x) -> Jet { return x / Jet(4); }, any}, {"div_l", [](const T &x) -> T { return Sc(3) / x; }, [](const Jet &x) -> Jet { return Jet(3) / x; }, nz},
#if TYPE != 2
    {"pow2.5", [](const T &x) -> T { return pow(x, Sc(2.5)); }, [](const Jet &x) -> Jet { return pow(x, 2.5); }, pos}, {"pow3", [](const T &x) -> T { return pow(x, Sc(3)); }, [](const Jet &x) -> Jet { return pow(x, 3); }, any}, {"pow2", [](const T &x) -> T { return pow(x, Sc(2)); }, [](const Jet &x) -> Jet { return pow(x, 2); }, any}, {"pow-1", [](const T &x) -> T { return pow(x, Sc(-1)); }, [](const Jet &x) -> Jet { return pow(x, -1); }, nz},
#endif
};
struct Bi { const char *n; T (*f)(const T &, const T &); Jet (*g)(const Jet &, const Jet &); bool (*dom)(ld, ld); };
static bool anyb(ld, ld) { return true; } static bool nzb(ld, ld b) { return std::abs(b) > 0.05L; } static bool at2(ld a, ld b) { return a * a + b * b > 0.01L && !(std::abs(a) < 1e-6L && b <= 0); } static bool neb(ld a, ld b) { return std::abs(a - b) > 1e-3L; }
static std::vector<Bi> BI = {
    {"+", [](const T &a, const T &b) -> T { return a + b; }, [](const Jet &a, const Jet &b) { return a + b; }, anyb}, {"-", [](const T &a, const T &b) -> T { return a - b; }, [](const Jet &a, const Jet &b) { return a - b; }, anyb},
    {"*", [](const T &a, const T &b) -> T { return a * b; }, [](const Jet &a, const Jet &b) { return a * b; }, anyb}, {"/", [](const T &a, const T &b) -> T { return a / b; }, [](const Jet &a, const Jet &b) { return a / b; }, nzb},
    {"min", [](const T &a, const T &b) -> T { return (Eigen::min)(a, b); }, [](const Jet &a, const Jet &b) { return (min)(a, b); }, neb}, {"max", [](const T &a, const T &b) -> T { return (Eigen::max)(a, b); }, [](const Jet &a, const Jet &b) { return (max)(a, b); }, neb},
    {"atan2", [](const T &a, const T &b) -> T { T r = atan2(a, b); return r; }, [](const Jet &a, const Jet &b) { return atan2(a, b); }, at2},
};
static std::vector<Node> apply_all(const std::vector<Node> &as, const std::vector<Node> &bs, bool unary, bool keep, bool both) {
    std::vector<Node> out;
    auto chk = [&](const T &t, const Jet &j, const std::string &s) { if (!jok(j)) return; vh::op(); cmp(t, j, s.c_str(), 1); if (keep) out.push_back({t, j, s}); };
    if (unary) for (auto &a : as) for (auto &u : UN) if (u.dom(a.j.v)) { Jet j = u.g(a.j); if (!jok(j)) continue; chk(u.f(a.t), j, std::string(u.n) + "(" + a.s + ")"); }
    for (auto &a : as) for (auto &b : bs) for (auto &o : BI) {
#if TYPE == 1
        if (o.n[0] == 'a' && (a.t.derivatives().size() == 0 || b.t.derivatives().size() == 0)) continue; // atan2 of a size-less constant: not supported by Eigen's AutoDiffScalar either
#endif
        if (o.dom(a.j.v, b.j.v)) { Jet j = o.g(a.j, b.j); if (jok(j)) chk(o.f(a.t, b.t), j, "(" + a.s + o.n + b.s + ")"); }
        if (both && o.dom(b.j.v, a.j.v)) { Jet j = o.g(b.j, a.j); if (jok(j)) chk(o.f(b.t, a.t), j, "(" + b.s + o.n + a.s + ")"); } }
    return out;
}
static void expressions() {
    const double XS[] = {0.3, -1.2, 2.5, 0}, YS[] = {0.7, -0.45, 1.6, 0};
    for (double xv : XS) for (double yv : YS) {
        const std::vector<Node> leaves = {{var(xv, 0), jvar(xv, 0), "x"}, {var(yv, 1), jvar(yv, 1), "y"}, {con(0.875), Jet(0.875), "c"}};
        auto d1 = [&] { return apply_all(leaves, leaves, true, true, false); };
        if (vh::begin(vh::fmt("expr/%s/x=%g,y=%g/depth1", TN, xv, yv))) { auto r = d1(); vh::note(vh::fmt("%zu expressions", r.size())); for (auto &n : r) vh::state(vh::Hash().s(n.s).d(xv).d(yv).i(TYPE).h); }
        // depth 2: one case per depth-1 operand
        std::size_t count = 40 * 3 + 7 * 9 + 30;
        for (std::size_t k = 0; k < count; ++k) {
            if (!vh::begin_lazy([&] { return vh::fmt("expr/%s/x=%g,y=%g/depth2/operand%zu", TN, xv, yv, k); })) continue;
            static thread_local std::vector<Node> D; static thread_local double dx = 0, dy = 0; if (dx != xv || dy != yv) { D = d1(); dx = xv; dy = yv; }
            if (k >= D.size()) continue;
            std::vector<Node> one = {D[k]}; auto r = apply_all(one, leaves, true, vh::thorough(), true); auto q = apply_all(one, D, false, vh::thorough() , false);
            vh::state(vh::Hash().s(D[k].s).d(xv).d(yv).i(TYPE).i(2).h); vh::note("all operations with operand " + D[k].s);
            if (vh::thorough()) { apply_all(r, leaves, true, false, false); for (auto &n : q) vh::state(vh::Hash().s(n.s).d(xv).d(yv).i(TYPE).h); apply_all(q, {}, true, false, false); }
        }
    }
}
// composite expressions evaluated without materialising the intermediate expression templates;
// the same source is instantiated with the AD type and with jets
#define OPS(F) F(+) F(-) F(*) F(/)
template <typename S> struct K { static S c(double v); };
template <> Sc K<Sc>::c(double v) { return Sc(v); }
template <> Jet K<Jet>::c(double v) { return Jet((ld)(Sc)v); }
template <typename V, typename C, typename F> static void composites(const V &x, const V &y, F &&out) {
    auto k = [](double v) { return K<C>::c(v); };
    using std::sin; using std::cos; using std::exp; using std::sqrt; using std::log; using std::tanh; using std::abs; using std::tan;
#define E3(O1, O2, O3) out(V((x O1 y) O2 (y O3 x)), "(x" #O1 "y)" #O2 "(y" #O3 "x)"); out(V((x O1 k(2.0)) O2 (k(0.5) O3 y)), "(x" #O1 "2)" #O2 "(.5" #O3 "y)"); out(V(-(x O1 x) O2 (y O3 k(3.0))), "-(x" #O1 "x)" #O2 "(y" #O3 "3)");
#define E2(O1, O2) E3(O1, O2, +) E3(O1, O2, -) E3(O1, O2, *) E3(O1, O2, /)
#define E1(O1) E2(O1, +) E2(O1, -) E2(O1, *) E2(O1, /)
    E1(+) E1(-) E1(*) E1(/)
#define EF(F) out(V(F(x * y + k(0.25))), #F "(x*y+.25)"); out(V(F(x) * F(y) - F(x - y)), #F " sum"); out(V(k(2.0) * F(k(0.5) * y) / (x * x + k(1.0))), #F " scaled");
    EF(sin) EF(cos) EF(exp) EF(tanh) EF(abs)
    out(V(sqrt(x * x + y * y)), "hypot"); out(V(log(x * x + k(1.0)) / sqrt(y * y + k(2.0))), "log/sqrt"); out(V(sin(exp(-x * x)) * cos(x * y)), "sin(exp)"); out(V(sin(x) * sin(x) + cos(x) * cos(x)), "one"); out(V((x + y) * (x + y) * (x + y)), "cube"); out(V(tan(x * k(0.1)) / y), "tan/y");
}
static void unmaterialised() {
    const double XS[] = {0.3, -1.2, 2.5, -0.8, 0}, YS[] = {0.7, -0.45, 1.6, 0};
    for (double xv : XS) for (double yv : YS) for (int mode = 0; mode < 3; ++mode) {
        if (!vh::begin(vh::fmt("composite/%s/x=%g,y=%g/mode%d", TN, xv, yv, mode))) continue;
        // mode 0: both active, 1: y constant, 2: x constant
        T x = mode == 2 ? con(xv) : var(xv, 0), y = mode == 1 ? con(yv) : var(yv, 1); Jet jx = mode == 2 ? Jet((ld)(Sc)xv) : jvar(xv, 0), jy = mode == 1 ? Jet((ld)(Sc)yv) : jvar(yv, 1);
#if TYPE == 1
        if (mode == 1) { y.derivatives() = Eigen::Vector2d::Zero(); } if (mode == 2) x.derivatives() = Eigen::Vector2d::Zero(); // un-materialised expressions need coherent sizes
#endif
        std::vector<Jet> ref; composites<Jet, Jet>(jx, jy, [&](const Jet &j, const char *) { ref.push_back(j); });
        std::size_t i = 0; composites<T, Sc>(x, y, [&](const T &t, const char *s) { const Jet &j = ref[i++]; vh::op(); if (jok(j)) { cmp(t, j, s, 10); vh::state(vh::Hash().s(s).d(xv).d(yv).i(mode).i(TYPE).h); } });
        cmp(x, jx, "x unchanged"); cmp(y, jy, "y unchanged"); vh::note(vh::fmt("%zu expressions", i));
    }
}
static void comparisons() {
    const double vs[] = {-1.5, 0, 0.25, 2};
    for (double a : vs) for (double b : vs) {
        if (!vh::begin(vh::fmt("compare/%s/%g,%g", TN, a, b))) continue;
        T x = var(a, 0), y = var(b, 1), c = con(b); Sc s = Sc(b), q = Sc(a);
#define CMP(O) vh::check((x O y) == (a O b), "compare-ad-ad", #O); vh::check((x O c) == (a O b), "compare-ad-const", #O); vh::check((x O s) == (a O b), "compare-ad-scalar", #O); vh::check((q O y) == (a O b), "compare-scalar-ad", #O); vh::check(((x + Sc(1)) O (y + Sc(1))) == (a O b), "compare-expr", #O); vh::op(5);
        CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
        if (a != b) { Jet jx = jvar(a, 0), jy = jvar(b, 1); cmp((Eigen::min)(x, y), (min)(jx, jy), "min"); cmp((Eigen::max)(x, y), (max)(jx, jy), "max"); cmp((Eigen::min)(x, s), (min)(jx, Jet(b)), "min-scalar"); cmp((Eigen::max)(x, s), (max)(jx, Jet(b)), "max-scalar"); cmp((Eigen::min)(q, y), (min)(Jet(a), jy), "min-scalar-l"); cmp((Eigen::max)(q, y), (max)(Jet(a), jy), "max-scalar-l");
            cmp((Eigen::max)(T(x * x), T(y * y + Sc(0.1))), (max)(jx * jx, jy * jy + Jet(0.1)), "max-expr", 100); cmp((Eigen::min)(T(x * x), T(y * y + Sc(0.1))), (min)(jx * jx, jy * jy + Jet(0.1)), "min-expr", 100); vh::op(8); }
        vh::state(vh::Hash().d(a).d(b).i(TYPE).i(9).h);
    }
}
// all assignment histories over three variables
struct Sys { T v[3]; };
struct Ref { Jet v[3]; };
static int nops() { return 3 * 3 * 6 + 3 * 5; }
static std::string apply_op(int k, Sys &s, Ref &r, bool &ok) {
    ok = true; std::string w;
    auto guard = [&](const Jet &j) { ok = jok(j); };
    if (k < 54) { int a = k / 18, b = (k / 6) % 3, o = k % 6; T &A = s.v[a]; const T &B = s.v[b]; Jet &ja = r.v[a]; Jet jb = r.v[b];
        switch (o) {
        case 0: A = B; ja = jb; break;
        case 1: A += B; ja = ja + jb; break;
        case 2: A -= B; ja = ja - jb; break;
        case 3: { Jet p = ja * jb; guard(p); A *= B; ja = p; } break;
        case 4: if (std::abs(jb.v) < 0.05L) { ok = false; break; } { Jet p = ja / jb; guard(p); A /= B; ja = p; } break;
        case 5: { T tmp(B); 
#if TYPE == 1
                T half = tmp * Sc(0.5); A = half + A;
#else
                A = tmp * Sc(0.5) + A;
#endif
                ja = jb * Jet(0.5) + ja; tmp = con(7); } break; }
        w = vh::fmt("v%d%sv%d", a, (const char *[]){"=", "+=", "-=", "*=", "/=", "+=.5*copy "}[o], b);
    } else { int a = (k - 54) / 5, o = (k - 54) % 5; T &A = s.v[a]; Jet &ja = r.v[a];
        switch (o) {
        case 0: A += Sc(0.5); ja = ja + Jet(0.5); break;
        case 1: A -= Sc(1.5); ja = ja - Jet(1.5); break;
        case 2: A *= Sc(-2); ja = ja * Jet(-2); break;
        case 3: A /= Sc(4); ja = ja / Jet(4); break;
        case 4: A = con(1.25); ja = Jet(1.25); break; }
        w = vh::fmt("v%d%s", a, (const char *[]){"+=.5", "-=1.5", "*=-2", "/=4", "=1.25"}[o]);
    }
    guard(r.v[0]); if (ok) guard(r.v[1]); if (ok) guard(r.v[2]);
    return w;
}
static void histories(int depth) {
    for (int first = 0; first < nops(); ++first) for (int second = 0; second < nops(); ++second) {
        if (!vh::begin_lazy([&] { return vh::fmt("history/%s/op%d,op%d/depth%d", TN, first, second, depth); })) continue;
        Sys s0; s0.v[0] = var(0.75, 0); s0.v[1] = var(-1.25, 1); s0.v[2] = con(0.5); Ref r0; r0.v[0] = jvar(0.75, 0); r0.v[1] = jvar(-1.25, 1); r0.v[2] = Jet(0.5);
        bool ok; std::string trace = apply_op(first, s0, r0, ok); if (!ok) continue;
        std::string t2 = apply_op(second, s0, r0, ok); if (!ok) continue; trace += ";" + t2; vh::op(2);
        for (int i = 0; i < 3; ++i) cmp(s0.v[i], r0.v[i], trace.c_str(), 10);
        auto hash = [&](const Ref &r) { vh::Hash h; h.i(TYPE); for (auto &j : r.v) h.d((double)j.v).d((double)j.g[0]).d((double)j.g[1]).d((double)j.h[0][1]).d((double)j.h[0][0]); return h.h; };
        vh::state(hash(r0));
        std::function<void(const Sys &, const Ref &, int, const std::string &)> rec = [&](const Sys &s, const Ref &r, int d, const std::string &tr) {
            if (d >= depth) return;
            for (int k = 0; k < nops(); ++k) { Sys a = s; Ref b = r; bool good; std::string w = apply_op(k, a, b, good); if (!good) continue; vh::op(); for (int i = 0; i < 3; ++i) cmp(a.v[i], b.v[i], (tr + ";" + w).c_str(), 100); vh::state(hash(b)); rec(a, b, d + 1, tr + ";" + w); } };
        rec(s0, r0, 2, trace); vh::note("prefix " + trace);
    }
}
// linear algebra on matrices of AD scalars
static void matrices() {
    for (double xv : {0.5, -1.5}) for (double yv : {1.25, 2.0}) {
        if (!vh::begin(vh::fmt("matrix/%s/%g,%g", TN, xv, yv))) continue;
        using V = Eigen::Matrix<T, 2, 1>; using M = Eigen::Matrix<T, 2, 2>; V v; v << var(xv, 0), var(yv, 1); Jet x = jvar(xv, 0), y = jvar(yv, 1);
        M m; T c2 = con(2), cm = con(-1);
#if TYPE == 1
        c2.derivatives() = Eigen::Vector2d::Zero(); cm.derivatives() = Eigen::Vector2d::Zero(); // expressions of expressions need coherent sizes (as in Eigen 3.3)
#endif
        m << var(xv, 0), c2, cm, var(yv, 1);
        V mv = m * v; cmp(mv(0), x * x + Jet(2) * y, "M*v"); cmp(mv(1), -x + y * y, "M*v"); cmp(v.dot(mv), x * (x * x + Jet(2) * y) + y * (y * y - x), "dot", 10); cmp(v.squaredNorm(), x * x + y * y, "squaredNorm", 10); cmp(v.sum(), x + y, "sum"); cmp(m.trace(), x + y, "trace"); cmp(m.determinant(), x * y + Jet(2), "det", 10);
        V w = v - mv * Sc(0.5); cmp(w(0), x - Jet(0.5) * (x * x + Jet(2) * y), "axpy"); cmp(v.cwiseProduct(mv)(1), y * (y * y - x), "cwiseProduct", 10); V z = V::Zero(); cmp(z(0), Jet(0), "zero"); z += v; cmp(z(1), y, "zero+=v"); cmp(v.norm(), sqrt(x * x + y * y), "norm", 10);
        Eigen::Matrix<Sc, 2, 2> A; A << 1, 2, -3, 0.5; V av = A.template cast<T>() * v; cmp(av(0), x + Jet(2) * y, "A*v"); cmp(av(1), Jet(-3) * x + Jet(0.5) * y, "A*v"); V cp = v; cp(0) = con(3); cmp(v(0), x, "copy-not-aliased"); cmp(cp(0), Jet(3), "copy-not-aliased");
        V q = Sc(2) * v; cmp(q(0), Jet(2) * x, "scalar*vector"); vh::op(16); vh::state(vh::Hash().d(xv).d(yv).i(TYPE).i(11).h);
    }
}
void vh_run() { comparisons(); unmaterialised(); matrices(); histories(vh::thorough() ? 4 : 3); expressions(); }
