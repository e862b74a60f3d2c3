// X01: automatic differentiation against exact second-order jets.
// An operand is one of the library's static kinds (parameter, variable, value with trivial first / second
// derivatives, full value); every operation is applied to every kind (so every static result type the library
// deduces is exercised), and the result -- with the static kind the library gave it -- is an operand again.
// Enumerated: all expressions with one operation over all leaves and evaluation points, all chains of two
// operations (thorough: three), for every storage (vectors, matrices, symmetric matrices), for numdif 0, 1, 2.
#include "jet.h"
#include "anifem++/autodiff/autodiff.h"
using namespace mc; using namespace Ani;
typedef std::array<std::size_t, 1> I1_; typedef std::array<std::size_t, 2> I2_;

template<class ST> struct Acc;
template<std::size_t N> struct Acc<PhysArrStorageSet<N>> {
    typedef PhysArrStorageSet<N> S; enum { n = N }; static const char* name() { return "array"; }
    static I1_ id(int c) { return {(std::size_t)c}; } static int comp(int c) { return c; }
};
template<std::size_t N> struct Acc<PhysTensorStorageSet<N>> {
    typedef PhysTensorStorageSet<N> S; enum { n = N * N }; static const char* name() { return "matrix"; }
    static I2_ id(int c) { return {(std::size_t)c / N, (std::size_t)c % N}; } static int comp(int c) { return c; }
};
template<std::size_t N> struct Acc<PhysSymTensorStorageSet<N>> {
    typedef PhysSymTensorStorageSet<N> S; enum { n = N * N }; static const char* name() { return "symmetric"; }
    static I2_ id(int c) { return {(std::size_t)c / N, (std::size_t)c % N}; }
    static int comp(int c) { int i = c / N, j = c % N; if (i > j) std::swap(i, j); return i * N + j; }    // components with the same storage
};

enum Kind { KP, KV, K0, K1, K2, NK };       // Param, Var, ADVal<100>, <110>, <111>
template<class ST> struct Any {
    typedef ADVal<ADState<true, false, false>, ST> A0; typedef ADVal<ADState<true, true, false>, ST> A1; typedef ADVal<ADState<true, true, true>, ST> A2;
    typedef Param<ST> P; typedef Var<ST> V;
    Kind k = KP; P p; V v; A0 a0; A1 a1; A2 a2;
    Any() {} Any(const P& x): k(KP), p(x) {} Any(const V& x): k(KV), v(x) {} Any(const A0& x): k(K0), a0(x) {} Any(const A1& x): k(K1), a1(x) {} Any(const A2& x): k(K2), a2(x) {}
    Any(const Any&) = default; Any& operator=(const Any& o) { k = o.k; p.Init(o.p()); v = o.v; a0 = o.a0; a1 = o.a1; a2 = o.a2; return *this; }
    template<class F> void with(F&& f) const { switch (k) { case KP: f(p); break; case KV: f(v); break; case K0: f(a0); break; case K1: f(a1); break; default: f(a2); } }
};
template<class ST> struct Node { Any<ST> a; Jet j; std::string s; int nop = 0; };

struct Un { const char* name; };
// ---- unary operations: reference derivative table
struct R3 { LD f, d, dd; bool ok; };
static LD dist = 0.05L;
static R3 ref(const std::string& o, LD a) {
    R3 r{0, 0, 0, true}; auto bad = [&] { r.ok = false; return r; };
    if (o == "neg") return {-a, -1, 0, true};
    if (o == "exp") { LD e = std::exp(a); return {e, e, e, true}; }
    if (o == "expm1") { LD e = std::exp(a); return {std::expm1(a), e, e, true}; }
    if (o == "log") { if (a < dist) return bad(); return {std::log(a), 1 / a, -1 / (a * a), true}; }
    if (o == "log1p") { if (a < dist - 1) return bad(); return {std::log1p(a), 1 / (1 + a), -1 / ((1 + a) * (1 + a)), true}; }
    if (o == "sqrt") { if (a < dist) return bad(); LD s = std::sqrt(a); return {s, 1 / (2 * s), -1 / (4 * s * a), true}; }
    if (o == "cbrt") { if (std::fabs(a) < dist) return bad(); LD c = std::cbrt(a); return {c, 1 / (3 * c * c), -2 / (9 * c * c * a), true}; }
    if (o == "sin") return {std::sin(a), std::cos(a), -std::sin(a), true};
    if (o == "cos") return {std::cos(a), -std::sin(a), -std::cos(a), true};
    if (o == "tan") { LD c = std::cos(a); if (std::fabs(c) < dist) return bad(); LD t = std::tan(a); return {t, 1 / (c * c), 2 * t / (c * c), true}; }
    if (o == "atan") { LD q = 1 + a * a; return {std::atan(a), 1 / q, -2 * a / (q * q), true}; }
    if (o == "asin" || o == "acos") { if (std::fabs(a) > 1 - dist) return bad(); LD q = 1 - a * a, s = std::sqrt(q); LD sg = o == "asin" ? 1 : -1; return {o == "asin" ? std::asin(a) : std::acos(a), sg / s, sg * a / (q * s), true}; }
    if (o == "sinh") return {std::sinh(a), std::cosh(a), std::sinh(a), true};
    if (o == "cosh") return {std::cosh(a), std::sinh(a), std::cosh(a), true};
    if (o == "tanh") { LD c = std::cosh(a), t = std::tanh(a); return {t, 1 / (c * c), -2 * t / (c * c), true}; }
    if (o == "abs") { if (std::fabs(a) < dist) return bad(); return {std::fabs(a), a > 0 ? 1.L : -1.L, 0, true}; }
    if (o == "sign") { if (a == 0) return {0, 0, 0, true}; if (std::fabs(a) < dist) return bad(); return {a > 0 ? 1.L : -1.L, 0, 0, true}; }
    if (o == "sq") return {a * a, 2 * a, 2, true};
    if (o == "cube") return {a * a * a, 3 * a * a, 6 * a, true};
    if (o == "id" || o == "shell" || o == "shell-shell") return {a, 1, 0, true};
    if (o == "user") return {std::sin(2 * a) + a * a, 2 * std::cos(2 * a) + 2 * a, -4 * std::sin(2 * a) + 2, true};
    if (o.compare(0, 3, "pow") == 0) {          // powr:q  powl:q  powi:q  powc:c
        double q = atof(o.c_str() + 5);
        if (o[3] == 'c') { LD l = std::log((LD)q), p = std::pow((LD)q, a); return {p, l * p, l * l * p, true}; }
        bool isint = q == std::floor(q);
        if (!isint && a < 0) return bad();
        // singular at 0 unless every derivative up to the second exists
        if (std::fabs(a) < dist && a != 0 && (q < 2 && q != 1 && q != 0)) return bad();
        if (a == 0 && q < 2 && q != 1 && q != 0) return bad();
        auto P = [&](LD e) -> LD { return e == 0 ? 1 : std::pow(a, e); };
        return {P(q), q == 0 ? 0 : (LD)q * P(q - 1), (q == 0 || q == 1) ? 0 : (LD)q * (q - 1) * P(q - 2), true};
    }
    const LD c = 1.3L;                          // with a number on one side
    if (o == "+c" || o == "c+") return {a + 1.3, 1, 0, true};
    if (o == "-c") return {a - 1.3, 1, 0, true};
    if (o == "c-") return {1.3 - a, -1, 0, true};
    if (o == "*c" || o == "c*") return {a * 1.3, 1.3, 0, true};
    if (o == "/c") return {a / 1.3, 1 / (LD)1.3, 0, true};
    if (o == "c/") { if (std::fabs(a) < dist) return bad(); return {1.3 / a, -1.3 / (a * a), 2 * 1.3 / (a * a * a), true}; }
    (void)c; abort();
}
static std::vector<std::string> unaries() {
    std::vector<std::string> u = {"neg", "exp", "expm1", "log", "log1p", "sqrt", "cbrt", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "abs", "sign", "sq", "cube", "id", "shell", "user", "+c", "c+", "-c", "c-", "*c", "c*", "/c", "c/"};
    for (double q : {-1.5, -1., -0.5, 0., 0.5, 1., 1.5, 2., 2.5, 3.}) u.push_back(fmt("powr:%g", q));
    for (int q = -3; q <= 5; ++q) u.push_back(fmt("powl:%d", q));
    for (int q : {-2, 0, 1, 3}) u.push_back(fmt("powi:%d", q));
    for (double c : {0.5, 1., 2.}) u.push_back(fmt("powc:%g", c));
    return u;
}
template<class ST> static bool apply1(const std::string& o, const Node<ST>& x, Node<ST>& r) {
    R3 q = ref(o, x.j.v); if (!q.ok) return false;
    bool have = true;
    x.a.with([&](auto a) {
        typedef decltype(a) T; typedef Any<ST> A;
        if (o == "neg") r.a = A(-a); else if (o == "exp") r.a = A(exp(a)); else if (o == "expm1") r.a = A(expm1(a)); else if (o == "log") r.a = A(log(a));
        else if (o == "log1p") r.a = A(log1p(a)); else if (o == "sqrt") r.a = A(sqrt(a)); else if (o == "cbrt") r.a = A(cbrt(a)); else if (o == "sin") r.a = A(sin(a));
        else if (o == "cos") r.a = A(cos(a)); else if (o == "tan") r.a = A(tan(a)); else if (o == "atan") r.a = A(atan(a)); else if (o == "asin") r.a = A(asin(a));
        else if (o == "acos") r.a = A(acos(a)); else if (o == "sinh") r.a = A(sinh(a)); else if (o == "cosh") r.a = A(cosh(a)); else if (o == "tanh") r.a = A(tanh(a));
        else if (o == "abs") r.a = A(abs(a)); else if (o == "sign") r.a = A(sign(a)); else if (o == "sq") r.a = A(sq(a)); else if (o == "cube") r.a = A(cube(a));
        else if (o == "id") r.a = A(make_ADVal(a)); else if (o == "shell") r.a = A(make_shell(a));
        else if (o == "user") r.a = A(unary_operation(a, [](unsigned, double y) { return std::array<double, 3>{std::sin(2 * y) + y * y, 2 * std::cos(2 * y) + 2 * y, -4 * std::sin(2 * y) + 2}; }));
        else if (o == "+c") r.a = A(a + 1.3); else if (o == "c+") r.a = A(1.3 + a); else if (o == "-c") r.a = A(a - 1.3); else if (o == "c-") r.a = A(1.3 - a);
        else if (o == "*c") r.a = A(a * 1.3); else if (o == "c*") r.a = A(1.3 * a); else if (o == "/c") r.a = A(a / 1.3); else if (o == "c/") r.a = A(1.3 / a);
        else if (o.compare(0, 4, "powr") == 0) r.a = A(pow(a, atof(o.c_str() + 5)));
        else if (o.compare(0, 4, "powl") == 0) r.a = A(pow(a, atol(o.c_str() + 5)));
        else if (o.compare(0, 4, "powi") == 0) r.a = A(pow(a, atoi(o.c_str() + 5)));
        else if (o.compare(0, 4, "powc") == 0) r.a = A(pow(_EXParam<T>(atof(o.c_str() + 5)), a));
        else have = false;
    });
    if (!have) abort();
    r.j = jet1(x.j, q.f, q.d, q.dd);
    r.s = o + "(" + x.s + ")"; r.nop = x.nop + 1;
    return true;
}
// ---- binary operations
static const char* const BIN[] = {"+", "-", "*", "/", "pow", "atan2", "min", "max", "hypot", "hypot3", "+=", "-=", "*=", "/="};
template<class T> struct Shell;
template<class ST, class T1, class T2, class = void> struct Hyp { static Any<ST> of(const T1& a, const T2& b, bool three) { auto x = make_shell(a), y = make_shell(b); return three ? hypot({x, y, x}) : hypot({x, y}); } };
template<class ST, class T1> struct Hyp<ST, T1, T1> { static Any<ST> of(const T1& a, const T1& b, bool three) { return three ? hypot({a, b, a}) : hypot({a, b}); } };
template<class ST> static bool apply2(const std::string& o, const Node<ST>& x, const Node<ST>& y, Node<ST>& r) {
    const Jet &a = x.j, &b = y.j;
    if ((o == "/" || o == "/=") && std::fabs(b.v) < dist) return false;
    if (o == "pow") {
        bool bc = y.a.k == KP || y.a.k == K0;       // constant exponent: a power of the base, as in one-argument pow
        if (!bc && a.v < dist) return false;
        if (bc) { R3 q = ref(fmt("powr:%.17g", (double)b.v), a.v); if (!q.ok || a.v == 0 || (a.v < 0 && y.nop)) return false; }
    }
    if (o == "atan2" || o == "hypot" || o == "hypot3") { if (std::fabs(a.v) + std::fabs(b.v) < dist) return false; }
    if (o == "atan2" && a.v == 0 && b.v < 0) return false;       // the cut
    if ((o == "min" || o == "max") && std::fabs(a.v - b.v) < 1e-9L) return false;      // the kink
    x.a.with([&](auto p) { y.a.with([&](auto q) {
        typedef Any<ST> A;
        if (o == "+") r.a = A(p + q); else if (o == "-") r.a = A(p - q); else if (o == "*") r.a = A(p * q); else if (o == "/") r.a = A(p / q);
        else if (o == "pow") r.a = A(pow(p, q)); else if (o == "atan2") r.a = A(atan2(p, q)); else if (o == "min") r.a = A(min(p, q)); else if (o == "max") r.a = A(max(p, q));
        else if (o == "hypot") r.a = Hyp<ST, decltype(p), decltype(q)>::of(p, q, false);
        else if (o == "hypot3") r.a = Hyp<ST, decltype(p), decltype(q)>::of(p, q, true);
        else { auto s = make_shell(p); auto t = make_shell(q); if (o == "+=") s += t; else if (o == "-=") s -= t; else if (o == "*=") s *= t; else s /= t; r.a = A(s); }
        MC_REQ((p < q) == ((double)p() < (double)q()) && (p > q) == (p() > q()) && (p <= q) == (p() <= q()) && (p >= q) == (p() >= q()) && (p == q) == (p() == q()) && (p != q) == (p() != q()),
               "comparison", "comparison of %s and %s does not compare the values", x.s.c_str(), y.s.c_str());
    }); });
    if (o == "+" || o == "+=") r.j = a + b; else if (o == "-" || o == "-=") r.j = a - b; else if (o == "*" || o == "*=") r.j = a * b; else if (o == "/" || o == "/=") r.j = a / b;
    else if (o == "pow") { if (y.a.k == KP || y.a.k == K0) { R3 q = ref(fmt("powr:%.17g", (double)b.v), a.v); r.j = jet1(a, q.f, q.d, q.dd); } else r.j = jpow(a, b); }
    else if (o == "atan2") r.j = jatan2(a, b); else if (o == "min") { r.j = a.v <= b.v ? a : b; } else if (o == "max") { r.j = a.v >= b.v ? a : b; }
    else if (o == "hypot") r.j = jhypot(a, b);
    else { Jet s2 = a * a + b * b + a * a; LD s = std::sqrt(s2.v); r.j = jet1(s2, s, 1 / (2 * s), -1 / (4 * s * s2.v)); }
    r.j.mag = std::max(r.j.mag, std::max(a.mag, b.mag));
    r.s = o + "(" + x.s + "," + y.s + ")"; r.nop = x.nop + y.nop + 1;
    return true;
}
static const char* const KN[] = {"Param", "Var", "const", "linear", "full"};
static std::string opname(const std::string& s) { return s.substr(0, s.find('(')); }

static double worst = 0;
// quiet: only tell whether the node agrees (an operand that is already wrong is reported once, where it arises)
template<class ST> static bool compare(const Node<ST>& r, int numdif, bool quiet = false) {
    bool good = true; auto fail = [&](const std::string& s, const std::string& t) { good = false; if (!quiet) mc::fail(s, t); };
    typedef Acc<ST> C;
    const int n = C::n;
    LD tol = 1e-9L * (1 + r.j.mag);
    std::string sig = std::string(C::name()) + ":" + opname(r.s);
    r.a.with([&](auto a) {
        typedef typename decltype(a)::State St;
        LD e = std::fabs((LD)a() - r.j.v);
        if (!(e <= tol)) { checked(); fail("value:" + sig, fmt("%s (numdif %d): value %.17g, exact %.17Lg", r.s.c_str(), numdif, a(), r.j.v)); return; }
        checked(); worst = std::max(worst, (double)(e / tol));
        checked(2);
        if (!St::NotTrivialDeriv && !r.j.flat()) fail("type:" + sig, fmt("%s: the result type %s declares its gradient zero, which it is not", r.s.c_str(), KN[r.a.k]));
        if (!St::NotTrivialSecondDeriv && !r.j.straight()) fail("type:" + sig, fmt("%s: the result type %s declares its second derivative zero, which it is not", r.s.c_str(), KN[r.a.k]));
        if (numdif >= 1) {
            auto d = a.D(); checked();
            for (int i = 0; i < n; ++i) { LD x = d(C::id(i)); LD e = std::fabs(x - r.j.g[i]); if (!(e <= tol)) { fail("gradient:" + sig, fmt("%s (numdif %d): gradient component %d is %.17Lg, exact %.17Lg", r.s.c_str(), numdif, i, x, r.j.g[i])); break; } worst = std::max(worst, (double)(e / tol)); }
        }
        if (numdif >= 2) {
            auto dd = a.DD(); checked(); bool ok = true;
            for (int i = 0; i < n && ok; ++i) for (int j = 0; j < n && ok; ++j) { LD x = dd(C::id(i), C::id(j)); LD e = std::fabs(x - r.j.h[i * n + j]); if (!(e <= tol)) { ok = false; fail("hessian:" + sig, fmt("%s (numdif %d): second derivative %d,%d is %.17Lg, exact %.17Lg", r.s.c_str(), numdif, i, j, x, r.j.h[i * n + j])); } else worst = std::max(worst, (double)(e / tol)); }
        }
    });
    if (!quiet) state();
    return good;
}
// leaves: all static kinds; the values of the full ones are generic (no symmetry between components)
template<class ST> static std::vector<Node<ST>> leaves(double x, double y, int numdif) {
    typedef Acc<ST> C; typedef Any<ST> A; const int n = C::n; std::vector<Node<ST>> L;
    // component c of the gradient of variable iv: components sharing the storage move together
    auto var = [&](int iv, double v, const char* s) {
        Node<ST> q; q.a = A(Var<ST>(iv, v, numdif)); q.j = Jet(n, v); typename ST::GradientType t{}; t[iv] = 1;
        for (int c = 0; c < n; ++c) q.j.g[c] = t(C::id(c)); q.j.meas(); q.s = s; L.push_back(q); };
    int last = 0; { typename ST::GradientType t{}; last = (int)t.continuous_size() - 1; }
    { Node<ST> q; q.a = A(Param<ST>(x)); q.j = Jet(n, x); q.s = fmt("p[%g]", x); L.push_back(q); }
    var(0, x, fmt("x[%g]", x).c_str());
    if (last > 0) var(last, y, fmt("y[%g]", y).c_str());
    if (last > 2) var(1, x, fmt("z[%g]", x).c_str());
    for (int s = 0; s < 3; ++s) for (int w = 0; w < 2; ++w) {
        double v = w ? y : x; Node<ST> q; q.j = Jet(n, v);
        typename ST::GradientType g{}; typename ST::HessianType h{};
        // storage indices, not formulas: the tensors' own component access is the subject of X02
        std::vector<double> gv(n), hv(n * n);
        for (int c = 0; c < n; ++c) { int k = C::comp(c); gv[c] = 0.7 + 0.31 * k - 0.11 * k * k * (w ? 1 : 0.5) - (w ? 0.45 : 0); }
        for (int c = 0; c < n; ++c) for (int d = 0; d < n; ++d) { int k = C::comp(c), l = C::comp(d); hv[c * n + d] = 0.4 + 0.17 * (k + l) - 0.23 * k * l + (w ? 0.3 * (k == l) : 0); }
        if (s >= 1 && numdif >= 1) for (int c = 0; c < n; ++c) { g(C::id(c)) = gv[c]; q.j.g[c] = gv[c]; }
        if (s >= 2 && numdif >= 2) for (int c = 0; c < n; ++c) for (int d = 0; d < n; ++d) { h(C::id(c), C::id(d)) = hv[c * n + d]; q.j.h[c * n + d] = hv[c * n + d]; }
        if (s == 0) q.a = A(typename A::A0(numdif, v, g, h)); else if (s == 1) q.a = A(typename A::A1(numdif, v, g, h)); else q.a = A(typename A::A2(numdif, v, g, h));
        q.j.meas(); q.s = fmt("%s%d[%g]", KN[K0 + s], w, v); L.push_back(q);
    }
    return L;
}
// hypot of one argument and of none; a scalar given as a full value
template<class ST> static void corner(double x, int numdif) {
    typedef Acc<ST> C;
    for (auto& q : leaves<ST>(x, x + 0.5, numdif)) if (std::fabs(q.j.v) > dist) {
        Node<ST> r; r.s = "hypot1(" + q.s + ")"; LD s = q.j.v > 0 ? 1 : -1; r.j = jet1(q.j, std::fabs(q.j.v), s, 0);
        q.a.with([&](auto a) { r.a = Any<ST>(hypot({a})); }); compare<ST>(r, numdif); trans();
    }
    typename Any<ST>::A2 z; z.Init(numdif, 2.5, typename ST::GradientType(), typename ST::HessianType());
    MC_REQ(z() == 2.5, "init", "Init does not set the value");
}
template<class ST> static void storage(const char* name, bool deep) {
    static const double PX[][2] = {{0.3, 0.8}, {0.8, -0.7}, {1.7, 0.3}, {-0.7, -1.5}, {0., 1.7}, {-0.25, 0.}, {2.5, 1.}, {1., 2.}};
    static const std::vector<std::string> U = unaries();
    for (auto& pt : PX) for (int numdif = 0; numdif <= 2; ++numdif) {
        run_case(fmt("%s %g %g d%d corner", name, pt[0], pt[1], numdif), "corner", [&] { corner<ST>(pt[0] == 0 ? 0.6 : pt[0], numdif); });
        // first operation
        auto first = [&](const std::vector<Node<ST>>& L, const std::function<void(Node<ST>&)>& f) {
            Node<ST> r;
            for (auto& q : L) for (auto& o : U) if (apply1<ST>(o, q, r)) f(r);
            for (auto& q : L) for (auto& w : L) for (auto o : BIN) if (apply2<ST>(o, q, w, r)) f(r);
        };
        run_case(fmt("%s %g %g d%d depth1", name, pt[0], pt[1], numdif), "depth1", [&] { first(leaves<ST>(pt[0], pt[1], numdif), [&](Node<ST>& r) { if (r.j.mag > 1e3) return; trans(); compare<ST>(r, numdif); outcome(r.s); }); });
        // second (and third) operation on every result of the first
        
        auto L0 = leaves<ST>(pt[0], pt[1], numdif);
        if (!thorough() && Acc<ST>::n == 9 && (numdif < 2 || (&pt - PX) % 2)) continue;
        {
            std::vector<Node<ST>> N; first(L0, [&](Node<ST>& r) { if (r.j.mag < 1e3 && compare<ST>(r, numdif, true)) N.push_back(r); });
            // results that behave the same (same operation, same static kind of operands) differ only in values: keep all
            size_t blk = 64;
            for (size_t b = 0; b < N.size(); b += blk) run_case(fmt("%s %g %g d%d depth2 %zu", name, pt[0], pt[1], numdif, b), "depth2", [&] {
                Node<ST> r, t;
                for (size_t i = b; i < std::min(N.size(), b + blk); ++i) {
                    auto chk = [&](Node<ST>& r) { if (!(r.j.mag < 1e3)) return; trans(); if (!compare<ST>(r, numdif)) return;
                        if (numdif == 2 && (thorough() || deep)) for (auto o : {"/", "*", "pow"}) for (auto& w : {L0[1], L0.back()}) { if (apply2<ST>(o, r, w, t) && t.j.mag < 1e3) { trans(); compare<ST>(t, numdif); } if (apply2<ST>(o, w, r, t) && t.j.mag < 1e3) { trans(); compare<ST>(t, numdif); } } };
                    for (auto& o : U) if (apply1<ST>(o, N[i], r)) chk(r);
                    for (auto& w : L0) for (auto o : BIN) { if (apply2<ST>(o, N[i], w, r)) chk(r); if (apply2<ST>(o, w, N[i], r)) chk(r); }
                    if (N[i].a.k != KP) for (auto o : BIN) if (apply2<ST>(o, N[i], N[i], r)) chk(r);
                }
            });
        }
    }
}
static void body() {
    std::string v = opt().variant;
    // the derivative table itself, by central differences of the functions
    if (v == "array") run_case("table", "table", [&] { for (auto& o : unaries()) for (LD a : {-1.5L, -0.7L, -0.25L, 0.3L, 0.8L, 1.7L}) { R3 q = ref(o, a); const LD h = 1e-4L; R3 p = ref(o, a + h), m = ref(o, a - h); if (!q.ok || !p.ok || !m.ok) continue;
        MC_REQ(std::fabs((p.f - m.f) / (2 * h) - q.d) < 1e-5L * (1 + std::fabs(q.d)) * 10 && std::fabs((p.d - m.d) / (2 * h) - q.dd) < 1e-4L * (1 + std::fabs(q.dd)) * 10, "table", "the reference derivative of %s at %Lg is wrong", o.c_str(), a); } });
#ifndef AD_MATRIX
    if (v == "array") { storage<PhysArrStorageSet<2>>("array2", true); storage<PhysArrStorageSet<1>>("array1", false); storage<PhysArrStorageSet<3>>("array3", false); }
#else
    if (v == "matrix") { storage<PhysTensorStorageSet<2>>("matrix2", false); storage<PhysTensorStorageSet<3>>("matrix3", false); }
    if (v == "symmetric") { storage<PhysSymTensorStorageSet<2>>("symmetric2", false); storage<PhysSymTensorStorageSet<3>>("symmetric3", false); }
#endif
    if (getenv("MC_WORST")) fprintf(stderr, "worst %g\n", worst);
}
MC_MAIN(body)
