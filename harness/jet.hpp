// Second-order jets: value, gradient and Hessian with respect to N variables carried by plain arithmetic.
// Independent of the repository's AutoDiffScalar; used as the derivative oracle for user functions templated on the scalar.
#pragma once
#include <Eigen/Dense>
#include <cmath>
namespace jets {
struct Jet {
    double v; Eigen::VectorXd g; Eigen::MatrixXd h; // empty g/h = constant
    Jet() : v(0) {}
    Jet(double c) : v(c) {}
    Jet(int c) : v(c) {}
    static Jet var(double c, int i, int n) { Jet j(c); j.g = Eigen::VectorXd::Unit(n, i); j.h = Eigen::MatrixXd::Zero(n, n); return j; }
    bool cst() const { return g.size() == 0; }
    Eigen::VectorXd grad(int n) const { return cst() ? Eigen::VectorXd(Eigen::VectorXd::Zero(n)) : g; }
    Eigen::MatrixXd hess(int n) const { return cst() ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(n, n)) : h; }
    // f(this) from f, f', f''
    Jet chain(double f, double d1, double d2) const {
        Jet r(f); if (cst()) return r;
        r.g = d1 * g; r.h = d1 * h + d2 * (g * g.transpose()); return r;
    }
    Jet& operator+=(const Jet& o); Jet& operator-=(const Jet& o); Jet& operator*=(const Jet& o); Jet& operator/=(const Jet& o);
};
inline Jet operator-(const Jet& a) { return a.chain(-a.v, -1, 0); }
inline Jet operator+(const Jet& a, const Jet& b) {
    Jet r(a.v + b.v);
    if (a.cst()) { r.g = b.g; r.h = b.h; } else if (b.cst()) { r.g = a.g; r.h = a.h; }
    else { r.g = a.g + b.g; r.h = a.h + b.h; }
    return r;
}
inline Jet operator-(const Jet& a, const Jet& b) { return a + (-b); }
inline Jet operator*(const Jet& a, const Jet& b) {
    if (a.cst()) return b.chain(a.v * b.v, a.v, 0);
    if (b.cst()) return a.chain(a.v * b.v, b.v, 0);
    Jet r(a.v * b.v); r.g = a.v * b.g + b.v * a.g;
    Eigen::MatrixXd c = a.g * b.g.transpose(); r.h = a.v * b.h + b.v * a.h + c + c.transpose(); return r;
}
inline Jet inv(const Jet& a) { return a.chain(1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v)); }
inline Jet operator/(const Jet& a, const Jet& b) { return a * inv(b); }
inline Jet& Jet::operator+=(const Jet& o) { *this = *this + o; return *this; }
inline Jet& Jet::operator-=(const Jet& o) { *this = *this - o; return *this; }
inline Jet& Jet::operator*=(const Jet& o) { *this = *this * o; return *this; }
inline Jet& Jet::operator/=(const Jet& o) { *this = *this / o; return *this; }
#define JET_REL(op) inline bool operator op(const Jet& a, const Jet& b) { return a.v op b.v; }
JET_REL(<) JET_REL(>) JET_REL(<=) JET_REL(>=) JET_REL(==) JET_REL(!=)
#undef JET_REL
inline Jet sin(const Jet& a) { return a.chain(std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }
inline Jet cos(const Jet& a) { return a.chain(std::cos(a.v), -std::sin(a.v), -std::cos(a.v)); }
inline Jet exp(const Jet& a) { double e = std::exp(a.v); return a.chain(e, e, e); }
inline Jet log(const Jet& a) { return a.chain(std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
inline Jet sqrt(const Jet& a) { double s = std::sqrt(a.v); return a.chain(s, 0.5 / s, -0.25 / (s * s * s)); }
inline Jet pow(const Jet& a, double e) { return a.chain(std::pow(a.v, e), e * std::pow(a.v, e - 1), e * (e - 1) * std::pow(a.v, e - 2)); }
inline Jet abs(const Jet& a) { return a.v < 0 ? -a : a; }
inline const Jet& conj(const Jet& a) { return a; }
inline const Jet& real(const Jet& a) { return a; }
inline Jet imag(const Jet&) { return Jet(0.0); }
inline Jet abs2(const Jet& a) { return a * a; }
}
namespace Eigen {
template<> struct NumTraits<jets::Jet> : NumTraits<double> {
    typedef jets::Jet Real; typedef jets::Jet NonInteger; typedef jets::Jet Nested; typedef jets::Jet Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
};
template<typename B> struct ScalarBinaryOpTraits<jets::Jet, double, B> { typedef jets::Jet ReturnType; };
template<typename B> struct ScalarBinaryOpTraits<double, jets::Jet, B> { typedef jets::Jet ReturnType; };
}
