// Exact second-order jets (value, gradient, Hessian over n independent components) in long double: the oracle of
// the automatic differentiation.  The gradient/Hessian of an expression is what the chain rule prescribes,
// written once for a general function of one or of two arguments.
#pragma once
#include "mc.h"
typedef long double LD;
struct Jet {
    int n = 0; LD v = 0; std::vector<LD> g, h; LD mag = 0;
    Jet() {}
    explicit Jet(int n_, LD v_ = 0): n(n_), v(v_), g(n_, 0), h(n_ * n_, 0) { meas(); }
    void meas() { LD m = std::fabs(v); for (LD x : g) m = std::max(m, std::fabs(x)); for (LD x : h) m = std::max(m, std::fabs(x)); mag = std::max(mag, m); if (!(m < 1e30L)) mag = INFINITY; }
    bool flat() const { for (LD x : g) if (x != 0) return false; return true; }
    bool straight() const { for (LD x : h) if (x != 0) return false; return true; }
};
// f(a): values f, f', f''
inline Jet jet1(const Jet& a, LD f, LD d, LD dd) {
    Jet r(a.n, f); r.mag = a.mag;
    for (int i = 0; i < a.n; ++i) r.g[i] = d * a.g[i];
    for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) r.h[i * a.n + j] = (a.g[i] != 0 && a.g[j] != 0 ? dd * a.g[i] * a.g[j] : 0) + (a.h[i * a.n + j] != 0 ? d * a.h[i * a.n + j] : 0);
    r.meas(); return r;
}
// f(a,b): value and first and second partial derivatives
inline Jet jet2(const Jet& a, const Jet& b, LD f, LD fa, LD fb, LD faa, LD fab, LD fbb) {
    Jet r(a.n, f); r.mag = std::max(a.mag, b.mag);
    int n = a.n;
    for (int i = 0; i < n; ++i) r.g[i] = fa * a.g[i] + fb * b.g[i];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        r.h[i * n + j] = faa * a.g[i] * a.g[j] + fab * (a.g[i] * b.g[j] + b.g[i] * a.g[j]) + fbb * b.g[i] * b.g[j] + fa * a.h[i * n + j] + fb * b.h[i * n + j];
    r.meas(); return r;
}
inline Jet operator+(const Jet& a, const Jet& b) { return jet2(a, b, a.v + b.v, 1, 1, 0, 0, 0); }
inline Jet operator-(const Jet& a, const Jet& b) { return jet2(a, b, a.v - b.v, 1, -1, 0, 0, 0); }
inline Jet operator*(const Jet& a, const Jet& b) { return jet2(a, b, a.v * b.v, b.v, a.v, 0, 1, 0); }
inline Jet operator/(const Jet& a, const Jet& b) { return jet2(a, b, a.v / b.v, 1 / b.v, -a.v / (b.v * b.v), 0, -1 / (b.v * b.v), 2 * a.v / (b.v * b.v * b.v)); }
inline Jet operator-(const Jet& a) { return jet1(a, -a.v, -1, 0); }
inline Jet operator*(LD c, const Jet& a) { return jet1(a, c * a.v, c, 0); }
inline Jet jpow(const Jet& a, const Jet& b) { LD l = std::log(a.v), p = std::pow(a.v, b.v), p1 = std::pow(a.v, b.v - 1), p2 = std::pow(a.v, b.v - 2);
    return jet2(a, b, p, b.v * p1, l * p, b.v * (b.v - 1) * p2, p1 + b.v * p1 * l, l * l * p); }
inline Jet jatan2(const Jet& y, const Jet& x) { LD q = y.v * y.v + x.v * x.v, q2 = q * q;
    return jet2(y, x, std::atan2(y.v, x.v), x.v / q, -y.v / q, -2 * x.v * y.v / q2, (y.v * y.v - x.v * x.v) / q2, 2 * x.v * y.v / q2); }
inline Jet jhypot(const Jet& a, const Jet& b) { LD r = std::sqrt(a.v * a.v + b.v * b.v), r3 = r * r * r;
    return jet2(a, b, r, a.v / r, b.v / r, b.v * b.v / r3, -a.v * b.v / r3, a.v * a.v / r3); }
