// X04: the symbolic expression wrapper (with an implementation that computes numbers, and with one that relies on every
// default of the interface) against plain arrays, and the symbolic form of basis functions against the reference functions.
#include "femop_common.h"
#include "anifem++/fem/expr_interface.h"
using ref::RSp;
typedef std::vector<double> Vd;
struct Arr { int r = 0, c = 0; Vd v; Arr() {} Arr(int r_, int c_, double x = 0) : r(r_), c(c_), v(r_ * c_, x) {} double& operator()(int i, int j) { return v[i + r * j]; } double operator()(int i, int j) const { return v[i + r * j]; } };
static double sgn(double a) { return (a > 0) - (a < 0); }
static long g_live = 0;
struct Bad : std::runtime_error { using runtime_error::runtime_error; };
// an implementation of the interface over numbers; FULL: overrides what has a default, too
template<bool FULL> struct Num : BaseExpr {
    Arr a{1, 1};
    Num() {} explicit Num(const Arr& x) : a(x) {}
    static const Arr& A(const BaseExpr& x) { return static_cast<const Num&>(x).a; }
    Num& put(Arr&& x) { a = std::move(x); return *this; }
    std::shared_ptr<BaseExpr> makeExpr(std::size_t m = 1, std::size_t n = 1) const override { return std::make_shared<Num>(Arr(m, n)); }
    std::shared_ptr<BaseExpr> makeCopy() const override { return std::make_shared<Num>(*this); }
    std::size_t size1() const override { return a.r; } std::size_t size2() const override { return a.c; }
    BaseExpr& reshape(std::size_t m, std::size_t n) override { if (int(m * n) != a.r * a.c) throw Bad("reshape"); a.r = m, a.c = n; return *this; }
    BaseExpr& set_val(double x) override { for (auto& y : a.v) y = x; return *this; }
    BaseExpr& set_val(double* x) override { std::copy(x, x + a.v.size(), a.v.begin()); return *this; }
    BaseExpr& set_val(const BaseExpr& x) override { Arr t = A(x); return put(std::move(t)); }
    BaseExpr& set_val(const BaseExpr& x, std::size_t i, std::size_t j) override { if (!FULL) return BaseExpr::set_val(x, i, j); auto& o = A(x); if ((int)i >= o.r || (int)j >= o.c) throw Bad("element outside"); return put(Arr(1, 1, o(i, j))); }
    BaseExpr& set_sub_matrix(const BaseExpr& x, const std::size_t* i, std::size_t m, const std::size_t* j, long n) override { auto& o = A(x); Arr t(m, n); for (int p = 0; p < (int)m; ++p) for (int q = 0; q < n; ++q) { if ((int)i[p] >= o.r || (int)j[q] >= o.c) throw Bad("element outside"); t(p, q) = o(i[p], j[q]); } return put(std::move(t)); }
    BaseExpr& set_sub_matrix(const BaseExpr& x, std::size_t i0, long di, std::size_t j0, long dj) override { auto& o = A(x); if (!di) di = o.r; if (!dj) dj = o.c; std::vector<int> I, J; for (long i = i0; i >= 0 && i < o.r; i += di) I.push_back(i); for (long j = j0; j >= 0 && j < o.c; j += dj) J.push_back(j);
        Arr t(I.size(), J.size()); for (size_t p = 0; p < I.size(); ++p) for (size_t q = 0; q < J.size(); ++q) t(p, q) = o(I[p], J[q]); return put(std::move(t)); }
    BaseExpr& set_horzcat(const BaseExpr** b, const BaseExpr** e) override { int n = 0; for (auto p = b; p != e; ++p) { if (A(**p).r != A(**b).r) throw Bad("horzcat of different heights"); n += A(**p).c; } Arr t(A(**b).r, n); n = 0; for (auto p = b; p != e; ++p) { auto& o = A(**p); for (int j = 0; j < o.c; ++j) for (int i = 0; i < o.r; ++i) t(i, n + j) = o(i, j); n += o.c; } return put(std::move(t)); }
    BaseExpr& set_vertcat(const BaseExpr** b, const BaseExpr** e) override { int n = 0; for (auto p = b; p != e; ++p) { if (A(**p).c != A(**b).c) throw Bad("vertcat of different widths"); n += A(**p).r; } Arr t(n, A(**b).c); n = 0; for (auto p = b; p != e; ++p) { auto& o = A(**p); for (int j = 0; j < o.c; ++j) for (int i = 0; i < o.r; ++i) t(n + i, j) = o(i, j); n += o.r; } return put(std::move(t)); }
    BaseExpr& set_row(const BaseExpr& x, std::size_t i) override { if (!FULL) return BaseExpr::set_row(x, i); auto& o = A(x); if ((int)i >= o.r) throw Bad("row outside"); Arr t(1, o.c); for (int j = 0; j < o.c; ++j) t(0, j) = o(i, j); return put(std::move(t)); }
    BaseExpr& set_col(const BaseExpr& x, std::size_t j) override { if (!FULL) return BaseExpr::set_col(x, j); auto& o = A(x); if ((int)j >= o.c) throw Bad("column outside"); Arr t(o.r, 1); for (int i = 0; i < o.r; ++i) t(i, 0) = o(i, j); return put(std::move(t)); }
    template<class F> BaseExpr& el(std::initializer_list<const BaseExpr*> x, F f) { int r = 1, c = 1; for (auto p : x) { auto& o = A(*p); if (o.r * o.c != 1) { if (r * c != 1 && (o.r != r || o.c != c)) throw Bad("shapes differ"); r = o.r, c = o.c; } }
        Arr t(r, c); std::vector<const Arr*> q; for (auto p : x) q.push_back(&A(*p)); for (int k = 0; k < r * c; ++k) { double w[3]; for (size_t m = 0; m < q.size(); ++m) w[m] = q[m]->v[q[m]->v.size() == 1 ? 0 : k]; t.v[k] = f(w); } return put(std::move(t)); }
    template<class F> BaseExpr& fold(const BaseExpr** b, const BaseExpr** e, F f) { Num t; t.a = A(**b); for (auto p = b + 1; p != e; ++p) { Num u; u.el({&t, *p}, f); t.a = u.a; } return put(std::move(t.a)); }
    BaseExpr& set_scal_sum(const BaseExpr** b, const BaseExpr** e, const double* k) override { Num t; t.a = A(**b); for (auto& y : t.a.v) y *= k[0]; for (auto p = b + 1; p != e; ++p) { Num u; double s = k[p - b]; u.el({&t, *p}, [s](double* w) { return w[0] + s * w[1]; }); t.a = u.a; } return put(std::move(t.a)); }
    BaseExpr& set_sum(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double* w) { return w[0] + w[1]; }); }
    BaseExpr& set_mul(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double* w) { return w[0] * w[1]; }); }
    BaseExpr& set_min(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double* w) { return std::min(w[0], w[1]); }); }
    BaseExpr& set_max(const BaseExpr** b, const BaseExpr** e) override { return fold(b, e, [](double* w) { return std::max(w[0], w[1]); }); }
    using BaseExpr::set_sum; using BaseExpr::set_mul; using BaseExpr::set_min; using BaseExpr::set_max; using BaseExpr::set_mtimes;
    BaseExpr& set_sub(const BaseExpr& x, const BaseExpr& y) override { return el({&x, &y}, [](double* w) { return w[0] - w[1]; }); }
    BaseExpr& set_swap_sign(const BaseExpr& x) override { return el({&x}, [](double* w) { return -w[0]; }); }
    BaseExpr& set_div(const BaseExpr& x, const BaseExpr& y) override { return el({&x, &y}, [](double* w) { return w[0] / w[1]; }); }
#define U1(N, F) BaseExpr& set_##N(const BaseExpr& x) override { return el({&x}, [](double* w) { return (double)F(w[0]); }); }
    U1(abs, std::fabs) U1(exp, std::exp) U1(expm1, std::expm1) U1(log, std::log) U1(log1p, std::log1p) U1(sqrt, std::sqrt) U1(cbrt, std::cbrt) U1(sin, std::sin) U1(cos, std::cos) U1(tan, std::tan) U1(asin, std::asin) U1(acos, std::acos) U1(atan, std::atan)
    U1(sinh, std::sinh) U1(cosh, std::cosh) U1(tanh, std::tanh) U1(erf, std::erf) U1(erfc, std::erfc) U1(tgamma, std::tgamma) U1(lgamma, std::lgamma) U1(floor, std::floor) U1(ceil, std::ceil) U1(sign, sgn) U1(not, !)
#define U2(N, F) BaseExpr& set_##N(const BaseExpr& x, const BaseExpr& y) override { return el({&x, &y}, [](double* w) { return (double)(F); }); }
    U2(pow, std::pow(w[0], w[1])) U2(atan2, std::atan2(w[0], w[1])) U2(fmod, std::fmod(w[0], w[1])) U2(hypot, std::hypot(w[0], w[1])) U2(lt, w[0] < w[1]) U2(eq, w[0] == w[1]) U2(and, w[0] && w[1]) U2(or, w[0] || w[1])
    BaseExpr& set_fma(const BaseExpr& x, const BaseExpr& y, const BaseExpr& z) override { return el({&x, &y, &z}, [](double* w) { return w[0] * w[1] + w[2]; }); }
    BaseExpr& set_ifelse(const BaseExpr& x, const BaseExpr& y, const BaseExpr& z) override { return el({&x, &y, &z}, [](double* w) { return w[0] ? w[1] : w[2]; }); }
    BaseExpr& set_le(const BaseExpr& x, const BaseExpr& y) override { if (!FULL) return BaseExpr::set_le(x, y); return el({&x, &y}, [](double* w) { return double(w[0] <= w[1]); }); }
    BaseExpr& set_ge(const BaseExpr& x, const BaseExpr& y) override { if (!FULL) return BaseExpr::set_ge(x, y); return el({&x, &y}, [](double* w) { return double(w[0] >= w[1]); }); }
    BaseExpr& set_gt(const BaseExpr& x, const BaseExpr& y) override { if (!FULL) return BaseExpr::set_gt(x, y); return el({&x, &y}, [](double* w) { return double(w[0] > w[1]); }); }
    BaseExpr& set_ne(const BaseExpr& x, const BaseExpr& y) override { if (!FULL) return BaseExpr::set_ne(x, y); return el({&x, &y}, [](double* w) { return double(w[0] != w[1]); }); }
    BaseExpr& set_sq(const BaseExpr& x) override { if (!FULL) return BaseExpr::set_sq(x); return el({&x}, [](double* w) { return w[0] * w[0]; }); }
    BaseExpr& set_norm(const BaseExpr& x) override { if (!FULL) return BaseExpr::set_norm(x); double s = 0; for (double y : A(x).v) s += y * y; return put(Arr(1, 1, std::sqrt(s))); }
    std::ostream& operator<<(std::ostream& o) const override { for (double x : a.v) o << x << ";"; return o; }
    BaseExpr& set_transpose(const BaseExpr& x) override { auto& o = A(x); Arr t(o.c, o.r); for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) t(j, i) = o(i, j); return put(std::move(t)); }
    BaseExpr& set_cross(const BaseExpr& x, const BaseExpr& y) override { auto &p = A(x), &q = A(y); if (p.r * p.c != 3 || p.r != q.r || p.c != q.c) throw Bad("cross product of other shapes"); Arr t(p.r, p.c); for (int i = 0; i < 3; ++i) t.v[i] = p.v[(i + 1) % 3] * q.v[(i + 2) % 3] - p.v[(i + 2) % 3] * q.v[(i + 1) % 3]; return put(std::move(t)); }
    BaseExpr& set_dot(const BaseExpr& x, const BaseExpr& y) override { auto &p = A(x), &q = A(y); if (p.r != q.r || p.c != q.c) throw Bad("dot product of other shapes"); double s = 0; for (size_t i = 0; i < p.v.size(); ++i) s += p.v[i] * q.v[i]; return put(Arr(1, 1, s)); }
    BaseExpr& set_mtimes(const BaseExpr** b, const BaseExpr** e) override { Arr t = A(**b); for (auto p = b + 1; p != e; ++p) { auto& o = A(**p); if (t.c != o.r) throw Bad("product of other shapes"); Arr u(t.r, o.c); for (int i = 0; i < t.r; ++i) for (int j = 0; j < o.c; ++j) for (int k = 0; k < t.c; ++k) u(i, j) += t(i, k) * o(k, j); t = u; } return put(std::move(t)); }
};
static std::string show(const Arr& a) { std::string s = mc::fmt("%dx%d[", a.r, a.c); for (int i = 0; i < a.r && i < 4; ++i) { for (int j = 0; j < a.c && j < 6; ++j) s += mc::fmt("%g ", a(i, j)); s += ";"; } return s + "]"; }
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-14 * std::fabs(b); }
template<bool FULL> struct Tests {
    typedef Num<FULL> N; static std::string tag(const char* op) { return std::string(FULL ? "" : "default ") + op; }
    static Expr ex(const Arr& a) { return Expr(N(a)); }
    static const Arr& arr(const Expr& e) { return e.target<N>()->a; }
    template<class F> static void is(const char* op, const Arr& want, F&& f, std::initializer_list<std::pair<const Expr*, const Arr*>> ops = {}) {
        mc::trans(); mc::checked(); std::string sg = std::string("wrapper:") + op;
        try { Expr r = f(); auto& g = arr(r); bool ok = g.r == want.r && g.c == want.c; for (size_t k = 0; ok && k < g.v.size(); ++k) ok = eq(g.v[k], want.v[k]);
            if (!ok) mc::fail(sg, tag(op) + ": got " + show(g) + ", expected " + show(want) + (ops.size() ? " for " + show(*ops.begin()->second) : ""));
            MC_REQ((int)r.nrows() == want.r && (int)r.ncols() == want.c, sg, "%s: sizes reported", op);
            for (auto& o : ops) { auto& x = arr(*o.first); bool same = x.r == o.second->r && x.c == o.second->c; for (size_t k = 0; same && k < x.v.size(); ++k) same = eq(x.v[k], o.second->v[k]); MC_REQ(same, sg, "%s changes its operand", tag(op).c_str()); MC_REQ(r.base().get() != o.first->base().get(), sg, "%s: the result shares its operand", tag(op).c_str()); }
        } catch (std::exception& e) { mc::fail(sg, tag(op) + ": refused (" + e.what() + ")" + (ops.size() ? " for " + show(*ops.begin()->second) : "")); }
    }
    static std::vector<Arr> shapes() { std::vector<Arr> r; int S[][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 3}, {3, 2}, {3, 3}, {4, 3}, {4, 1}}; int n = 0; for (auto& s : S) { Arr a(s[0], s[1]); for (auto& x : a.v) x = ((++n * 7) % 13 - 6) * 0.375; r.push_back(a); } return r; }
    template<class F> static Arr map(const Arr& a, F f) { Arr t = a; for (auto& x : t.v) x = f(x); return t; }
    template<class F> static Arr map2(const Arr& a, const Arr& b, F f) { Arr t = a.v.size() > 1 ? a : b; for (size_t k = 0; k < t.v.size(); ++k) t.v[k] = f(a.v[a.v.size() == 1 ? 0 : k], b.v[b.v.size() == 1 ? 0 : k]); return t; }
    static void unary() {
        std::vector<Arr> A = shapes(); A.push_back(Arr(1, 19)); for (int k = 0; k < 19; ++k) A.back().v[k] = (k - 9) * 0.3;
        for (auto& a : A) { Expr x = ex(a); mc::state();
#define ONE(N, F) is(#N, map(a, [](double q) { return (double)(F); }), [&] { return FT::N(x); }, {{&x, &a}});
            ONE(abs, std::fabs(q)) ONE(exp, std::exp(q)) ONE(expm1, std::expm1(q)) ONE(log, std::log(q)) ONE(log1p, std::log1p(q)) ONE(sqrt, std::sqrt(q)) ONE(cbrt, std::cbrt(q)) ONE(sin, std::sin(q)) ONE(cos, std::cos(q)) ONE(tan, std::tan(q)) ONE(asin, std::asin(q)) ONE(acos, std::acos(q)) ONE(atan, std::atan(q))
            ONE(sinh, std::sinh(q)) ONE(cosh, std::cosh(q)) ONE(tanh, std::tanh(q)) ONE(erf, std::erf(q)) ONE(erfc, std::erfc(q)) ONE(tgamma, std::tgamma(q)) ONE(lgamma, std::lgamma(q)) ONE(floor, std::floor(q)) ONE(ceil, std::ceil(q)) ONE(sign, sgn(q)) ONE(sq, q * q)
            is("minus", map(a, [](double q) { return -q; }), [&] { return -x; }, {{&x, &a}}); is("not", map(a, [](double q) { return q == 0; }), [&] { return !x; }, {{&x, &a}});
            double s = 0; for (double q : a.v) s += q * q; is("norm", Arr(1, 1, std::sqrt(s)), [&] { return FT::norm(x); }, {{&x, &a}});
            Arr t(a.c, a.r); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) t(j, i) = a(i, j); is("transpose", t, [&] { return x.T(); }, {{&x, &a}});
            for (int i = 0; i < a.r; ++i) { Arr w(1, a.c); for (int j = 0; j < a.c; ++j) w(0, j) = a(i, j); is("row", w, [&] { return x.row(i); }, {{&x, &a}}); }
            for (int j = 0; j < a.c; ++j) { Arr w(a.r, 1); for (int i = 0; i < a.r; ++i) w(i, 0) = a(i, j); is("column", w, [&] { return x.col(j); }, {{&x, &a}}); for (int i = 0; i < a.r; ++i) is("element", Arr(1, 1, a(i, j)), [&] { return x(i, j); }, {{&x, &a}}); }
            for (int i = 0; i < a.r + 2; ++i) for (int j = 0; j < a.c + 2; ++j) if (i >= a.r || j >= a.c) { bool th = false; try { x(i, j); } catch (std::runtime_error&) { th = true; } mc::checked(); MC_REQ(th, "wrapper:element", "element %d %d of a %dx%d expression is given", i, j, a.r, a.c); }
            for (int i0 = 0; i0 < a.r; ++i0) for (int di = -2; di <= 4; ++di) for (int j0 = 0; j0 < a.c; ++j0) for (int dj = -2; dj <= 4; ++dj) {
                std::vector<size_t> I, J; for (int i = i0; i >= 0 && i < a.r; i += di ? di : a.r) I.push_back(i); for (int j = j0; j >= 0 && j < a.c; j += dj ? dj : a.c) J.push_back(j);
                Arr w(I.size(), J.size()); for (size_t i = 0; i < I.size(); ++i) for (size_t j = 0; j < J.size(); ++j) w(i, j) = a(I[i], J[j]);
                is("part by steps", w, [&] { return FT::submatrix(x, i0, di, j0, dj); }, {{&x, &a}}); is("part by lists", w, [&] { return FT::submatrix(x, I.data(), I.size(), J.data(), (long)J.size()); }, {{&x, &a}}); }
            if (a.r >= 2 && a.c >= 2) { Arr w(2, 1); w(0, 0) = a(1, 1), w(1, 0) = a(0, 1); is("part by lists", w, [&] { return FT::submatrix(x, {1, 0}, {1}); }, {{&x, &a}}); }
            // value semantics
            { Expr y = x; y += x; is("copy", a, [&] { return Expr(x); }); Expr z; z = x; z *= x; is("assign", a, [&] { return Expr(x); }); Expr m = std::move(z); is("move", map(a, [](double q) { return q * q; }), [&] { return Expr(m); });
              Expr u = x.zeroes(a.r, a.c); is("zeroes", Arr(a.r, a.c), [&] { return Expr(u); }); u = 2.5; is("fill", Arr(a.r, a.c, 2.5), [&] { return Expr(u); }); Vd d = a.v; u = d.data(); is("values", a, [&] { return Expr(u); });
              auto sp = std::make_shared<N>(a); std::shared_ptr<BaseExpr> bp = sp; Expr c1(bp); c1 += x; MC_REQ(sp->a.v == a.v, "wrapper:shared", "an expression made from a shared one changes it"); Expr c2; c2 = bp; c2 += x; MC_REQ(sp->a.v == a.v, "wrapper:shared", "an expression assigned from a shared one changes it");
              Expr c3(std::move(bp)); MC_REQ(c3.base().get() == sp.get(), "wrapper:shared", "an expression made from a given pointer is not that one"); N nn(a); Expr c4; c4 = nn; c4 += x; MC_REQ(nn.a.v == a.v, "wrapper:shared", "an expression assigned from an implementation changes it"); Expr c5 = ex(Arr(1, 1)); c5 = nn; is("assign implementation", a, [&] { return Expr(c5); });
              Expr e = x; e.reshape(a.c, a.r); Arr w = a; std::swap(w.r, w.c); is("reshape", w, [&] { return Expr(e); }); std::ostringstream o; o << x; std::string es = "Expr[" + std::to_string(a.r) + ", " + std::to_string(a.c) + "] = \n"; for (double q : a.v) { std::ostringstream p; p << q; es += p.str() + ";"; } MC_REQ(o.str() == es, "wrapper:print", "printed '%s'", o.str().c_str()); }
        }
        { Expr e; MC_REQ(e.nrows() == 0 && e.ncols() == 0, "wrapper:empty", "sizes of an empty expression"); int n = 0; try { e = 1.0; } catch (std::runtime_error&) { ++n; } try { e.zeroes(); } catch (std::runtime_error&) { ++n; } try { e.reshape(1, 1); } catch (std::runtime_error&) { ++n; } Expr q[2]; try { FT::vertcat(q, q + 2); } catch (std::runtime_error&) { ++n; } try { FT::max(q, q); } catch (std::runtime_error&) { ++n; } try { double k[1] = {1}; FT::scalsum(q, q + 1, k); } catch (std::runtime_error&) { ++n; } MC_REQ(n == 6, "wrapper:empty", "only %d of 6 misuses of an empty expression are refused", n); }
    }
    static void binary() {
        double V[] = {-2, -1, -0.5, 0, 0.25, 1, 1.5, 3}; Arr P(8, 8), Q(8, 8); for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) P(i, j) = V[i], Q(i, j) = V[j];
        std::vector<std::pair<Arr, Arr>> L{{P, Q}}; auto S = shapes(); for (auto& a : S) { Arr b = a; for (size_t k = 0; k < b.v.size(); ++k) b.v[k] = 0.5 * (double)((k * 5 + 3) % 7) - 1; L.push_back({a, b}); if (a.v.size() > 1) { L.push_back({a, S[0]}); L.push_back({S[0], a}); } }
        for (auto& p : L) { mc::state(); const Arr &a = p.first, &b = p.second; Expr x = ex(a), y = ex(b);
#define TWO(N, C, F) { auto f = [](double l, double r) { return (double)(F); }; is(#N, map2(a, b, f), [&] { return C(x, y); }, {{&x, &a}, {&y, &b}}); for (double s : V) { is(#N " by number", map2(a, Arr(1, 1, s), f), [&] { return C(x, s); }, {{&x, &a}}); is("number " #N, map2(Arr(1, 1, s), b, f), [&] { return C(s, y); }, {{&y, &b}}); } }
#define OPR(N, O) TWO(N, ([](const auto& l_, const auto& r_) { return l_ O r_; }), l O r)
            OPR(plus, +) OPR(minus, -) OPR(times, *) OPR(divided, /) OPR(less, <) OPR(less or equal, <=) OPR(greater, >) OPR(greater or equal, >=) OPR(equal, ==) OPR(unequal, !=) OPR(and, &&) OPR(or, ||)
            TWO(pow, FT::pow, std::pow(l, r)) TWO(atan2, FT::atan2, std::atan2(l, r)) TWO(fmod, FT::fmod, std::fmod(l, r)) TWO(hypot, FT::hypot, std::hypot(l, r)) TWO(min, FT::min, std::min(l, r)) TWO(max, FT::max, std::max(l, r))
            auto co = [&](const char* n, auto f, auto g) { if (a.v.size() == 1 || b.v.size() == 1 || (a.r == b.r && a.c == b.c)) is(n, map2(a, b, f), [&] { Expr z = x; g(z, y); return z; }, {{&x, &a}, {&y, &b}}); };
            co("+=", [](double l, double r) { return l + r; }, [](Expr& l, Expr& r) { l += r; }); co("-=", [](double l, double r) { return l - r; }, [](Expr& l, Expr& r) { l -= r; }); co("*=", [](double l, double r) { return l * r; }, [](Expr& l, Expr& r) { l *= r; }); co("/=", [](double l, double r) { return l / r; }, [](Expr& l, Expr& r) { l /= r; });
            if (a.r == b.r && a.c == b.c) { double s = 0, s1 = 0; for (size_t k = 0; k < a.v.size(); ++k) s += a.v[k] * b.v[k], s1 += a.v[k] * 1.5; is("dot", Arr(1, 1, s), [&] { return FT::dot(x, y); }, {{&x, &a}, {&y, &b}}); is("dot number", Arr(1, 1, s1), [&] { return FT::dot(x, 1.5); }); is("number dot", Arr(1, 1, s1), [&] { return FT::dot(1.5, x); }); }
        }
        // three operands: every combination of expressions and numbers
        double W[] = {-1.5, 0, 1, 2.25};
        for (auto& a0 : S) for (int sc = 0; sc < 2; ++sc) { mc::state(); Arr a = a0, b = a0, c = a0; for (size_t k = 0; k < a.v.size(); ++k) a.v[k] = W[k % 4], b.v[k] = W[(k + sc) % 4] * 2, c.v[k] = W[(k / 2) % 4] - 1; Expr x = ex(a), y = ex(b), z = ex(c);
            auto three = [&](const char* n, auto f, auto call) {
                auto w = [&](auto fa, auto fb, auto fc) { Arr t = a; for (size_t k = 0; k < t.v.size(); ++k) t.v[k] = f(fa(k), fb(k), fc(k)); return t; }; auto A = [&](size_t k) { return a.v[k]; }; auto B = [&](size_t k) { return b.v[k]; }; auto C = [&](size_t k) { return c.v[k]; };
                is(n, w(A, B, C), [&] { return call(x, y, z); }, {{&x, &a}, {&y, &b}, {&z, &c}});
                for (double s : W) for (double u : {0.75, -2.}) { auto K = [&](size_t) { return s; }; auto M = [&](size_t) { return u; };
                    is(n, w(K, B, C), [&] { return call(s, y, z); }); is(n, w(A, K, C), [&] { return call(x, s, z); }); is(n, w(A, B, K), [&] { return call(x, y, s); }); is(n, w(K, M, C), [&] { return call(s, u, z); }); is(n, w(A, K, M), [&] { return call(x, s, u); }); is(n, w(K, B, M), [&] { return call(s, y, u); }); } };
            three("fma", [](double p, double q, double r) { return p * q + r; }, [](const auto& p, const auto& q, const auto& r) { return FT::fma(p, q, r); });
            three("ifelse", [](double p, double q, double r) { return p ? q : r; }, [](const auto& p, const auto& q, const auto& r) { return FT::ifelse(p, q, r); });
        }
        for (auto& a : S) for (auto& b : S) { mc::state(); Expr x = ex(a), y = ex(b); if (a.c == b.r) { Arr t(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) for (int k = 0; k < a.c; ++k) t(i, j) += a(i, k) * b(k, j); is("product", t, [&] { return FT::mtimes(x, y); }, {{&x, &a}, {&y, &b}}); for (auto& c : S) if (b.c == c.r) { Arr u(t.r, c.c); for (int i = 0; i < t.r; ++i) for (int j = 0; j < c.c; ++j) for (int k = 0; k < t.c; ++k) u(i, j) += t(i, k) * c(k, j); Expr q[3] = {x, y, ex(c)}; is("product of several", u, [&] { return FT::mtimes(q, q + 3); }); } }
            for (auto& c : S) { Expr z = ex(c); if (a.c == b.c && a.c == c.c) { Arr t(a.r + b.r + c.r, a.c); for (int j = 0; j < a.c; ++j) { for (int i = 0; i < a.r; ++i) t(i, j) = a(i, j); for (int i = 0; i < b.r; ++i) t(a.r + i, j) = b(i, j); for (int i = 0; i < c.r; ++i) t(a.r + b.r + i, j) = c(i, j); } is("vertcat", t, [&] { return FT::vertcat({x, y, z}); }, {{&x, &a}, {&y, &b}}); }
                if (a.r == b.r && a.r == c.r) { Arr t(a.r, a.c + b.c + c.c); for (int i = 0; i < a.r; ++i) { for (int j = 0; j < a.c; ++j) t(i, j) = a(i, j); for (int j = 0; j < b.c; ++j) t(i, a.c + j) = b(i, j); for (int j = 0; j < c.c; ++j) t(i, a.c + b.c + j) = c(i, j); } is("horzcat", t, [&] { return FT::horzcat({x, y, z}); }, {{&x, &a}, {&y, &b}}); }
                if (a.r == b.r && a.c == b.c && a.r == c.r && a.c == c.c) { Arr b2 = map(b, [](double q) { return 1 - q; }), c2 = map(c, [](double q) { return q * q; }); Expr q[3] = {x, ex(b2), ex(c2)}; double k[3] = {0.5, -2, 3}; is("weighted sum", map2(map2(a, b2, [](double l, double r) { return 0.5 * l - 2 * r; }), c2, [](double l, double r) { return l + 3 * r; }), [&] { return FT::scalsum(q, q + 3, k); }, {{&x, &a}}); is("weighted sum", map(a, [](double q) { return 0.5 * q; }), [&] { return FT::scalsum(q, q + 1, k); });
                    is("least", map2(map2(a, b2, [](double l, double r) { return std::min(l, r); }), c2, [](double l, double r) { return std::min(l, r); }), [&] { return FT::min(q, q + 3); }, {{&x, &a}}); is("greatest", map2(map2(a, b2, [](double l, double r) { return std::max(l, r); }), c2, [](double l, double r) { return std::max(l, r); }), [&] { return FT::max(q, q + 3); }, {{&x, &a}}); } } }
    }
    static void dets(int from, int to) {
        for (int c = from; c < to; ++c) { mc::state(); Arr a(3, 3); int x = c; for (auto& q : a.v) q = x % 3 - 1, x /= 3; a(2, 1) += 0.5; Expr e = ex(a);
            double d = 0; for (int k = 0; k < 3; ++k) d += a(0, k) * (a(1, (k + 1) % 3) * a(2, (k + 2) % 3) - a(1, (k + 2) % 3) * a(2, (k + 1) % 3)); is("determinant", Arr(1, 1, d), [&] { return FT::det3x3(e); }, {{&e, &a}});
            Arr u(1, 3), v(1, 3), w(1, 3); for (int k = 0; k < 3; ++k) u(0, k) = a(0, k), v(0, k) = a(1, k); for (int k = 0; k < 3; ++k) w(0, k) = u(0, (k + 1) % 3) * v(0, (k + 2) % 3) - u(0, (k + 2) % 3) * v(0, (k + 1) % 3); Expr p = ex(u), q = ex(v); is("cross", w, [&] { return FT::cross(p, q); }, {{&p, &u}, {&q, &v}}); std::swap(u.r, u.c), std::swap(v.r, v.c), std::swap(w.r, w.c); is("cross", w, [&] { return FT::cross(p.T(), q.T()); }); }
    }
};
// the elementary function a function of a tree comes from: its space and number there
static std::pair<const RSp*, int> leaf(const RSp& s, int i) {
    switch (s.kind) { case ref::FIX: return {&s, i}; case ref::VEC: return leaf(s.ch[0], i % s.ch[0].nfa()); default: for (auto& c : s.ch) { if (i < c.nfa()) return leaf(c, i); i -= c.nfa(); } }
    return {nullptr, 0};
}
template<bool FULL> static void basis_of(const RSp& s, const FemSpace& X, int tet, int step) {
    ref::Cell C(ref::cube_tets(true).t[tet]);
    Arr gl(4, 3); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) gl(i, k) = C.G.g[i][k];
    auto& P = points(); int nf = s.nfa();
    for (size_t n = tet % step; n < P.size(); n += step) { mc::state(); Arr l(4, 1); for (int i = 0; i < 4; ++i) l(i, 0) = P[n][i]; Expr L(Num<FULL>{l}), G(Num<FULL>{gl});
        std::string sg = "basis:" + s.name(), w = s.name() + mc::fmt(", tetrahedron %d, point %zu%s", tet, n, FULL ? "" : ", default implementation");
        for (int form = 0; form < 2; ++form) try { std::vector<Expr> phi; if (form) { phi.resize(nf); for (auto& e : phi) e = L.zeroes(); X.evalBasisFunctions(L, G, phi.data()); } else X.base()->evalBasisFunctions(L, G, phi); mc::trans();
            if (!mc::require((int)phi.size() == nf, sg, w + ": number of functions")) break;
            for (int i = 0; i < nf; ++i) { auto f = leaf(s, i); auto v = C.eval(*f.first, P[n]); int d = f.first->dim(); const Arr& g = phi[i].template target<Num<FULL>>()->a; mc::checked(); bool ok = (int)g.v.size() == d && (g.r == 1 || g.c == 1); for (int k = 0; ok && k < d; ++k) ok = std::fabs(g.v[k] - (double)v.v(f.second, k)) < 1e-10 * (1 + std::fabs((double)v.v(f.second, k)));
                if (!ok) { std::string e; for (int k = 0; k < d; ++k) e += mc::fmt("%g ", (double)v.v(f.second, k)); mc::fail(sg, w + mc::fmt(": function %d is ", i) + show(g) + ", expected " + e); break; } }
        } catch (std::exception& e) { mc::fail(sg, w + ": refused (" + e.what() + ")"); } }
}
static void body() {
    mc::run_case("unary full", "wrappers", [] { Tests<true>::unary(); }); mc::run_case("unary default", "wrappers", [] { Tests<false>::unary(); });
    mc::run_case("binary full", "wrappers", [] { Tests<true>::binary(); }); mc::run_case("binary default", "wrappers", [] { Tests<false>::binary(); });
    for (int k = 0; k < 27; ++k) { mc::run_case(mc::fmt("dets %d", k), "wrappers", [=] { Tests<true>::dets(k * 729, k * 729 + 729); }); if (k % 3 == 0) mc::run_case(mc::fmt("dets default %d", k), "wrappers", [=] { Tests<false>::dets(k * 729, k * 729 + 729); }); }
    auto F = [](int f) { return RSp::Fix(f); }; std::vector<RSp> L, S; for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) L.push_back(F(f));
    S = L; for (auto& l : L) for (int k = 1; k <= 3; ++k) S.push_back(RSp::Vec(k, l));
    std::vector<RSp> U{RSp::Uni({F(FEM_P1), F(FEM_B4)}), RSp::Uni({F(FEM_P2), F(FEM_B4)}), RSp::Uni({F(FEM_P1), F(FEM_B2), F(FEM_B4)}), RSp::Uni({RSp::Vec(3, F(FEM_P1)), RSp::Vec(3, F(FEM_B4))})}; for (auto& u : U) { S.push_back(u); S.push_back(RSp::Vec(2, u)); }
    for (auto& a : L) for (auto& b : L) { S.push_back(RSp::Com({a, b})); if (mc::thorough()) S.push_back(RSp::Com({RSp::Vec(2, b), a, U[a.nfa() % 3]})); } for (size_t i = 0; i < L.size(); ++i) S.push_back(RSp::Vec(2, RSp::Com({L[i], RSp::Vec(2, L[(i * 4 + 1) % 9])}))), S.push_back(RSp::Com({U[i % 4], L[i]}));
    int nt = ref::cube_tets(true).t.size();
    for (auto& s : S) { FemSpace X = ref::run_space(s); bool el = s.kind == ref::FIX; for (int part = 0; part < 8; ++part) mc::run_case(mc::fmt("basis %s %d", s.name().c_str(), part), "basis", [&] { for (int t = part; t < nt; t += el ? 8 : mc::thorough() ? 8 * 5 : 8 * 29) { basis_of<true>(s, X, t, el ? 1 : 4); if (t % 24 == part % 24) basis_of<false>(s, X, t, 6); } }); }
}
MC_MAIN(body)
