// Reference for the finite element checks: an independent implementation of every space of the library.
//
// A space is described by a tree (RSp).  Basis functions are obtained from the *definition* of the degrees of
// freedom: take a basis of the space of polynomials (monomials in barycentric coordinates, or the Raviart-Thomas /
// Nedelec polynomials), apply the functionals that define the degrees of freedom, invert the resulting matrix.
// Integrals use a collapsed Gauss rule computed here.  Nothing is shared with the library.
#pragma once
#include <array>
#include <vector>
#include <string>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <map>
#include <memory>
#include <stdexcept>
#include <functional>
#include "anifem++/fem/operations/operations.h"
#include "anifem++/fem/spaces/spaces.h"
#include "anifem++/fem/fem_space.h"

namespace ref {
typedef double R;
typedef std::array<R, 3> V3;
typedef std::array<R, 4> L4;

struct Geo {
    V3 X[4];
    V3 g[4];      // gradients of barycentric coordinates
    R det, vol;
    static V3 sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
    static V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
    static R dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    static R norm(const V3& a) { return std::sqrt(dot(a, a)); }
    Geo() {}
    Geo(const std::array<V3, 4>& p) {
        for (int i = 0; i < 4; ++i) X[i] = p[i];
        det = dot(sub(X[1], X[0]), cross(sub(X[2], X[0]), sub(X[3], X[0])));
        vol = std::fabs(det) / 6;
        for (int i = 0; i < 4; ++i) {
            // gradient of lambda_i: normal of the opposite face, scaled so that it is 1 at vertex i
            const V3 &a = X[(i + 1) % 4], &b = X[(i + 2) % 4], &c = X[(i + 3) % 4];
            V3 n = cross(sub(b, a), sub(c, a));
            R h = dot(n, sub(X[i], a));
            for (int k = 0; k < 3; ++k) g[i][k] = n[k] / h;
        }
    }
    V3 x(const L4& l) const { V3 r{0, 0, 0}; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) r[k] += l[i] * X[i][k]; return r; }
    // face k has vertices k, k+1, k+2 (mod 4); its outward unit normal points away from vertex k+3
    V3 face_normal(int k) const { V3 n = g[(k + 3) % 4]; R s = norm(n); return {-n[0] / s, -n[1] / s, -n[2] / s}; }
    R face_area(int k) const { return norm(cross(sub(X[(k + 1) % 4], X[k]), sub(X[(k + 2) % 4], X[k]))) / 2; }
    static const int (&edges())[6][2] { static const int e[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; return e; }
    R edge_len(int k) const { return norm(sub(X[edges()[k][1]], X[edges()[k][0]])); }
    V3 edge_tan(int k) const { V3 t = sub(X[edges()[k][1]], X[edges()[k][0]]); R s = norm(t); return {t[0] / s, t[1] / s, t[2] / s}; }
};

// --- quadrature made here: Gauss-Legendre on [0,1], collapsed to triangle / tetrahedron
struct Pt { L4 l; R w; };
inline const std::vector<std::pair<R, R>>& gauss(int n) {
    static std::map<int, std::vector<std::pair<R, R>>> cache;
    auto& v = cache[n];
    if (v.empty()) {
        for (int i = 0; i < n; ++i) {
            long double x = std::cos(3.14159265358979323846264338327950288L * (i + 0.75L) / (n + 0.5L)), dp = 1;
            for (int it = 0; it < 100; ++it) {
                long double p0 = 1, p1 = x;
                for (int k = 2; k <= n; ++k) { long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
                dp = n * (x * p1 - p0) / (x * x - 1);
                long double dx = p1 / dp; x -= dx;
                if (std::fabs((double)dx) < 1e-19) break;
            }
            long double p0 = 1, p1 = x;
            for (int k = 2; k <= n; ++k) { long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
            dp = n * (x * p1 - p0) / (x * x - 1);
            v.push_back({(R)((1 + x) / 2), (R)(1 / ((1 - x * x) * dp * dp))});
        }
    }
    return v;
}
// weights sum to 1
inline const std::vector<Pt>& tet_rule(int deg) {
    static std::map<int, std::vector<Pt>> cache;
    int n = (deg + 4) / 2;
    auto& v = cache[n];
    if (v.empty()) {
        auto& g = gauss(n);
        for (auto& a : g) for (auto& b : g) for (auto& c : g) {
            R u = a.first, s = b.first * (1 - u), t = c.first * (1 - u - s);
            R jac = (1 - u) * (1 - u - s);
            v.push_back({{1 - u - s - t, u, s, t}, a.second * b.second * c.second * jac * 6});
        }
    }
    return v;
}
inline std::vector<Pt> face_rule(int deg, int face) {
    int n = (deg + 3) / 2;
    auto& g = gauss(n);
    std::vector<Pt> v;
    for (auto& a : g) for (auto& b : g) {
        R u = a.first, s = b.first * (1 - u);
        Pt p; p.l = {0, 0, 0, 0};
        p.l[face % 4] = 1 - u - s; p.l[(face + 1) % 4] = u; p.l[(face + 2) % 4] = s;
        p.w = a.second * b.second * (1 - u) * 2;
        v.push_back(p);
    }
    return v;
}
inline std::vector<Pt> edge_rule(int deg, int e) {
    int n = (deg + 2) / 2;
    auto& g = gauss(n);
    std::vector<Pt> v;
    for (auto& a : g) {
        Pt p; p.l = {0, 0, 0, 0};
        p.l[Geo::edges()[e][0]] = 1 - a.first; p.l[Geo::edges()[e][1]] = a.first;
        p.w = a.second;
        v.push_back(p);
    }
    return v;
}

// --- values of a vector of functions at a point: val[(i*dim+d)], grad[(i*dim+d)*3+k]
struct Vals { int n = 0, dim = 0; std::vector<R> val, grad; 
    void init(int n_, int d_) { n = n_; dim = d_; val.assign(n * dim, 0); grad.assign(n * dim * 3, 0); }
    R& v(int i, int d) { return val[i * dim + d]; }
    R& g(int i, int d, int k) { return grad[(i * dim + d) * 3 + k]; }
    R v(int i, int d) const { return val[i * dim + d]; }
    R g(int i, int d, int k) const { return grad[(i * dim + d) * 3 + k]; }
};
inline bool invert(std::vector<R>& a, int n) {   // row-major, partial pivoting
    std::vector<R> b(n * n, 0);
    for (int i = 0; i < n; ++i) b[i * n + i] = 1;
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int r = c; r < n; ++r) if (std::fabs(a[r * n + c]) > std::fabs(a[p * n + c])) p = r;
        if (a[p * n + c] == 0) return false;
        for (int k = 0; k < n; ++k) { std::swap(a[p * n + k], a[c * n + k]); std::swap(b[p * n + k], b[c * n + k]); }
        R d = a[c * n + c];
        for (int k = 0; k < n; ++k) { a[c * n + k] /= d; b[c * n + k] /= d; }
        for (int r = 0; r < n; ++r) if (r != c) {
            R m = a[r * n + c];
            if (m == 0) continue;
            for (int k = 0; k < n; ++k) { a[r * n + k] -= m * a[c * n + k]; b[r * n + k] -= m * b[c * n + k]; }
        }
    }
    a = b;
    return true;
}

// --- spaces
enum Kind { FIX, VEC, COM, UNI };
struct RSp {
    Kind kind = FIX; int fix = 0, k = 1; std::vector<RSp> ch;
    static RSp Fix(int f) { RSp s; s.fix = f; return s; }
    static RSp Vec(int k, const RSp& c) { RSp s; s.kind = VEC; s.k = k; s.ch = {c}; return s; }
    static RSp Com(const std::vector<RSp>& c) { RSp s; s.kind = COM; s.ch = c; return s; }
    static RSp Uni(const std::vector<RSp>& c) { RSp s; s.kind = UNI; s.ch = c; return s; }
    int nfa() const {
        switch (kind) {
            case FIX: switch (fix) { case Ani::FEM_P0: return 1; case Ani::FEM_P1: return 4; case Ani::FEM_P2: return 10; case Ani::FEM_P3: return 20;
                      case Ani::FEM_RT0: return 4; case Ani::FEM_ND0: return 6; case Ani::FEM_CR1: return 4; case Ani::FEM_B2: return 6; case Ani::FEM_B4: return 1; }
                      throw std::runtime_error("unknown space");
            case VEC: return k * ch[0].nfa();
            default: { int n = 0; for (auto& c : ch) n += c.nfa(); return n; }
        }
    }
    int dim() const {
        switch (kind) {
            case FIX: return (fix == Ani::FEM_RT0 || fix == Ani::FEM_ND0) ? 3 : 1;
            case VEC: return k * ch[0].dim();
            case COM: { int n = 0; for (auto& c : ch) n += c.dim(); return n; }
            case UNI: return ch[0].dim();
        }
        return 0;
    }
    int deg() const {   // polynomial degree of the functions
        switch (kind) {
            case FIX: switch (fix) { case Ani::FEM_P0: return 0; case Ani::FEM_P1: case Ani::FEM_CR1: case Ani::FEM_RT0: case Ani::FEM_ND0: return 1;
                      case Ani::FEM_P2: case Ani::FEM_B2: return 2; case Ani::FEM_P3: return 3; case Ani::FEM_B4: return 4; }
                      return -1;
            default: { int n = 0; for (auto& c : ch) n = std::max(n, c.deg()); return n; }
        }
    }
    std::string name() const {
        switch (kind) {
            case FIX: switch (fix) { case Ani::FEM_P0: return "P0"; case Ani::FEM_P1: return "P1"; case Ani::FEM_P2: return "P2"; case Ani::FEM_P3: return "P3";
                      case Ani::FEM_RT0: return "RT0"; case Ani::FEM_ND0: return "ND0"; case Ani::FEM_CR1: return "CR1"; case Ani::FEM_B2: return "B2"; case Ani::FEM_B4: return "B4"; }
                      return "?";
            case VEC: return ch[0].name() + "^" + std::to_string(k);
            default: { std::string s = "("; for (size_t i = 0; i < ch.size(); ++i) s += (i ? (kind == COM ? "*" : "+") : "") + ch[i].name(); return s + ")"; }
        }
    }
};

// monomials in barycentric coordinates of total degree p
inline std::vector<std::array<int, 4>> monos(int p) {
    std::vector<std::array<int, 4>> r;
    for (int a = 0; a <= p; ++a) for (int b = 0; a + b <= p; ++b) for (int c = 0; a + b + c <= p; ++c) r.push_back({a, b, c, p - a - b - c});
    return r;
}
inline R ipow(R x, int n) { R r = 1; while (n-- > 0) r *= x; return r; }
struct ScalarDual {      // dual basis of a scalar space: phi_i = sum_j c[i][j] m_j
    std::vector<std::array<int, 4>> m; std::vector<R> c; int n;
};
inline void scalar_def(int fix, std::vector<std::array<int, 4>>& m, std::vector<std::vector<Pt>>& fun) {
    fun.clear();
    auto vert = [&](int i) { L4 l{0, 0, 0, 0}; l[i] = 1; fun.push_back({{l, 1}}); };
    switch (fix) {
        case Ani::FEM_P0: m = monos(0); fun.push_back({{{.25, .25, .25, .25}, 1}}); { auto t = tet_rule(2); fun[0] = t; } break;
        case Ani::FEM_P1: m = monos(1); for (int i = 0; i < 4; ++i) vert(i); break;
        case Ani::FEM_P2: m = monos(2); for (int i = 0; i < 4; ++i) vert(i);
            for (auto& e : Geo::edges()) { L4 l{0, 0, 0, 0}; l[e[0]] = l[e[1]] = .5; fun.push_back({{l, 1}}); } break;
        case Ani::FEM_P3: m = monos(3); for (int i = 0; i < 4; ++i) vert(i);
            for (auto& e : Geo::edges()) for (int s = 0; s < 2; ++s) { L4 l{0, 0, 0, 0}; l[e[s]] = 2. / 3; l[e[1 - s]] = 1. / 3; fun.push_back({{l, 1}}); }
            for (int f = 0; f < 4; ++f) { L4 l{0, 0, 0, 0}; for (int j = 0; j < 3; ++j) l[(f + j) % 4] = 1. / 3; fun.push_back({{l, 1}}); } break;
        case Ani::FEM_CR1: m = monos(1); for (int f = 0; f < 4; ++f) fun.push_back(face_rule(2, f)); break;
        case Ani::FEM_B2: for (auto& e : Geo::edges()) { std::array<int, 4> a{0, 0, 0, 0}; a[e[0]]++; a[e[1]]++; m.push_back(a); L4 l{0, 0, 0, 0}; l[e[0]] = l[e[1]] = .5; fun.push_back({{l, 1}}); } break;
        case Ani::FEM_B4: m = {{1, 1, 1, 1}}; fun.push_back({{{.25, .25, .25, .25}, 1}}); break;
        default: throw std::runtime_error("not scalar");
    }
}
inline const ScalarDual& scalar_dual(int fix) {
    static std::map<int, ScalarDual> cache;
    auto it = cache.find(fix);
    if (it != cache.end()) return it->second;
    ScalarDual& s = cache[fix];
    std::vector<std::vector<Pt>> fun;
    scalar_def(fix, s.m, fun);
    s.n = s.m.size();
    std::vector<R> G(s.n * s.n);   // G[f][j] = f(m_j);  phi_i = sum_j c_ij m_j with sum_j c_ij f_k(m_j) = delta_ik  =>  c = G^{-T}
    for (int f = 0; f < s.n; ++f) for (int j = 0; j < s.n; ++j) {
        R v = 0;
        for (auto& p : fun[f]) { R t = p.w; for (int a = 0; a < 4; ++a) t *= ipow(p.l[a], s.m[j][a]); v += t; }
        G[f * s.n + j] = v;
    }
    if (!invert(G, s.n)) throw std::runtime_error("reference: singular dual matrix");
    s.c.resize(s.n * s.n);
    for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) s.c[i * s.n + j] = G[j * s.n + i];
    return s;
}
// coefficients of RT0 / ND0 dual basis in {e_x,e_y,e_z, x - x0} resp. {e_k, e_k x (x - xc)}
struct VecDual { std::vector<R> c; V3 o; };
inline void vec_monos(int fix, const V3& o, const V3& x, std::vector<V3>& v, std::vector<std::array<V3, 3>>& g) {
    v.clear(); g.clear();
    std::array<V3, 3> z{}; for (auto& a : z) a = {0, 0, 0};
    for (int k = 0; k < 3; ++k) { V3 e{0, 0, 0}; e[k] = 1; v.push_back(e); g.push_back(z); }
    V3 y = Geo::sub(x, o);
    if (fix == Ani::FEM_RT0) { v.push_back(y); std::array<V3, 3> q = z; for (int k = 0; k < 3; ++k) q[k][k] = 1; g.push_back(q); }
    else for (int k = 0; k < 3; ++k) {
        V3 e{0, 0, 0}; e[k] = 1;
        v.push_back(Geo::cross(e, y));
        std::array<V3, 3> q = z;
        for (int j = 0; j < 3; ++j) { V3 d{0, 0, 0}; d[j] = 1; V3 cr = Geo::cross(e, d); for (int i = 0; i < 3; ++i) q[i][j] = cr[i]; }
        g.push_back(q);
    }
}
inline VecDual vec_dual(int fix, const Geo& G) {
    VecDual r; r.o = G.x({.25, .25, .25, .25});
    int n = fix == Ani::FEM_RT0 ? 4 : 6;
    std::vector<R> M(n * n);
    std::vector<V3> v; std::vector<std::array<V3, 3>> g;
    for (int f = 0; f < n; ++f) {
        auto rule = fix == Ani::FEM_RT0 ? face_rule(2, f) : edge_rule(2, f);
        V3 d = fix == Ani::FEM_RT0 ? G.face_normal(f) : G.edge_tan(f);
        std::vector<R> s(n, 0);
        for (auto& p : rule) { vec_monos(fix, r.o, G.x(p.l), v, g); for (int j = 0; j < n; ++j) s[j] += p.w * Geo::dot(v[j], d); }
        for (int j = 0; j < n; ++j) M[f * n + j] = s[j];
    }
    if (!invert(M, n)) throw std::runtime_error("reference: singular dual matrix");
    r.c.resize(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.c[i * n + j] = M[j * n + i];
    return r;
}
// evaluation of all basis functions of a space on one cell
struct Cell {
    Geo G; std::map<int, VecDual> vd;
    explicit Cell(const std::array<V3, 4>& p) : G(p) {}
    const VecDual& dual(int fix) { auto it = vd.find(fix); if (it == vd.end()) it = vd.emplace(fix, vec_dual(fix, G)).first; return it->second; }
    void eval_into(const RSp& s, const L4& l, Vals& r, int i0, int d0) {
        if (s.kind == FIX && (s.fix == Ani::FEM_RT0 || s.fix == Ani::FEM_ND0)) {
            auto& D = dual(s.fix);
            std::vector<V3> v; std::vector<std::array<V3, 3>> g;
            vec_monos(s.fix, D.o, G.x(l), v, g);
            int n = v.size();
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int d = 0; d < 3; ++d) {
                r.v(i0 + i, d0 + d) += D.c[i * n + j] * v[j][d];
                for (int k = 0; k < 3; ++k) r.g(i0 + i, d0 + d, k) += D.c[i * n + j] * g[j][d][k];
            }
        } else if (s.kind == FIX) {
            auto& D = scalar_dual(s.fix);
            int n = D.n;
            std::vector<R> mv(n); std::vector<std::array<R, 4>> md(n);
            for (int j = 0; j < n; ++j) {
                R t = 1; for (int a = 0; a < 4; ++a) t *= ipow(l[a], D.m[j][a]);
                mv[j] = t;
                for (int b = 0; b < 4; ++b) {
                    if (!D.m[j][b]) { md[j][b] = 0; continue; }
                    R q = D.m[j][b];
                    for (int a = 0; a < 4; ++a) q *= ipow(l[a], D.m[j][a] - (a == b));
                    md[j][b] = q;
                }
            }
            for (int i = 0; i < n; ++i) {
                R v = 0; R dl[4] = {0, 0, 0, 0};
                for (int j = 0; j < n; ++j) { R c = D.c[i * n + j]; v += c * mv[j]; for (int b = 0; b < 4; ++b) dl[b] += c * md[j][b]; }
                r.v(i0 + i, d0) += v;
                for (int k = 0; k < 3; ++k) { R t = 0; for (int b = 0; b < 4; ++b) t += dl[b] * G.g[b][k]; r.g(i0 + i, d0, k) += t; }
            }
        } else if (s.kind == VEC) {
            int n = s.ch[0].nfa(), d = s.ch[0].dim();
            for (int j = 0; j < s.k; ++j) eval_into(s.ch[0], l, r, i0 + j * n, d0 + j * d);
        } else {
            for (auto& c : s.ch) { eval_into(c, l, r, i0, d0); i0 += c.nfa(); if (s.kind == COM) d0 += c.dim(); }
        }
    }
    Vals eval(const RSp& s, const L4& l) { Vals r; r.init(s.nfa(), s.dim()); eval_into(s, l, r, 0, 0); return r; }
};
inline int op_dim(int op, int dim) {
    switch (op) { case Ani::IDEN: case Ani::DUDX: case Ani::DUDY: case Ani::DUDZ: return dim; case Ani::GRAD: return 3 * dim; case Ani::DIV: return 1; case Ani::CURL: return 3; }
    return -1;
}
inline const char* op_name(int op) {
    switch (op) { case Ani::IDEN: return "IDEN"; case Ani::GRAD: return "GRAD"; case Ani::DIV: return "DIV"; case Ani::CURL: return "CURL"; case Ani::DUDX: return "DUDX"; case Ani::DUDY: return "DUDY"; case Ani::DUDZ: return "DUDZ"; }
    return "?";
}
// operator applied to basis function i: rows
inline void op_rows(int op, const Vals& v, int i, R* out) {
    switch (op) {
        case Ani::IDEN: for (int d = 0; d < v.dim; ++d) out[d] = v.v(i, d); break;
        case Ani::GRAD: for (int d = 0; d < v.dim; ++d) for (int k = 0; k < 3; ++k) out[k + 3 * d] = v.g(i, d, k); break;
        case Ani::DUDX: case Ani::DUDY: case Ani::DUDZ: { int k = op == Ani::DUDX ? 0 : op == Ani::DUDY ? 1 : 2; for (int d = 0; d < v.dim; ++d) out[d] = v.g(i, d, k); break; }
        case Ani::DIV: out[0] = v.g(i, 0, 0) + v.g(i, 1, 1) + v.g(i, 2, 2); break;
        case Ani::CURL: out[0] = v.g(i, 2, 1) - v.g(i, 1, 2); out[1] = v.g(i, 0, 2) - v.g(i, 2, 0); out[2] = v.g(i, 1, 0) - v.g(i, 0, 1); break;
    }
}
inline int op_deg(int op, const RSp& s) { int d = s.deg(); if (op == Ani::IDEN) return d; return d > 0 ? d - 1 : 0; }

// --- map from compile-time space types
template<class T> struct RefOf;
template<int OP> struct RefOf<std::integral_constant<int, OP>> { static RSp make() { return RSp::Fix(OP); } };
template<int D, int OP> struct RefOf<Ani::FemVec<D, OP>> { static RSp make() { return RSp::Vec(D, RSp::Fix(OP)); } };
template<int D, class T> struct RefOf<Ani::FemComDetails::FemVecTImpl<true, D, T>> { static RSp make() { return RSp::Vec(D, RefOf<T>::make()); } };
template<class... T> struct RefOf<Ani::FemComDetails::FemComImpl<true, T...>> { static RSp make() { return RSp::Com({RefOf<T>::make()...}); } };
template<class... T> struct RefOf<Ani::FemComDetails::FemUnionTImpl<true, T...>> { static RSp make() { return RSp::Uni({RefOf<T>::make()...}); } };

// --- run-time space of the same composition
inline Ani::FemSpace run_space(const RSp& s) {
    using namespace Ani;
    switch (s.kind) {
        case FIX: switch (s.fix) {
            case FEM_P0: return FemSpace{P0Space{}}; case FEM_P1: return FemSpace{P1Space{}}; case FEM_P2: return FemSpace{P2Space{}}; case FEM_P3: return FemSpace{P3Space{}};
            case FEM_RT0: return FemSpace{RT0Space{}}; case FEM_ND0: return FemSpace{ND0Space{}}; case FEM_CR1: return FemSpace{CR1Space{}};
            case FEM_B2: return FemSpace{Bubble2Space{}}; case FEM_B4: return FemSpace{Bubble4Space{}}; }
            throw std::runtime_error("unknown space");
        case VEC: return run_space(s.ch[0]) ^ s.k;
        case COM: { std::vector<FemSpace> c; for (auto& x : s.ch) c.push_back(run_space(x)); return make_complex_with_simplification(c); }
        case UNI: { FemSpace r = run_space(s.ch[0]); for (size_t i = 1; i < s.ch.size(); ++i) r = r + run_space(s.ch[i]); return r; }
    }
    throw std::runtime_error("unknown kind");
}

// --- where each degree of freedom lives: (dimension of the geometric element, its number)
inline std::vector<std::pair<int, int>> dof_places(const RSp& s) {
    std::vector<std::pair<int, int>> r;
    auto add = [&](int dim, int n, int per) { for (int i = 0; i < n; ++i) for (int k = 0; k < per; ++k) r.push_back({dim, i}); };
    switch (s.kind) {
        case FIX: switch (s.fix) {
            case Ani::FEM_P0: case Ani::FEM_B4: add(3, 1, 1); break; case Ani::FEM_P1: add(0, 4, 1); break; case Ani::FEM_P2: add(0, 4, 1); add(1, 6, 1); break;
            case Ani::FEM_P3: add(0, 4, 1); add(1, 6, 2); add(2, 4, 1); break; case Ani::FEM_RT0: case Ani::FEM_CR1: add(2, 4, 1); break;
            case Ani::FEM_ND0: case Ani::FEM_B2: add(1, 6, 1); break; default: throw std::runtime_error("unknown space"); } break;
        case VEC: { auto c = dof_places(s.ch[0]); for (int j = 0; j < s.k; ++j) r.insert(r.end(), c.begin(), c.end()); break; }
        default: for (auto& x : s.ch) { auto c = dof_places(x); r.insert(r.end(), c.begin(), c.end()); }
    }
    return r;
}
// sub-elements of an element of the tetrahedron, itself included; face k has vertices k, k+1, k+2 (mod 4)
inline bool in_closure(int dim, int n, int sdim, int sn) {
    auto verts = [](int d, int k) { int m = 0; if (d == 0) m = 1 << k; if (d == 1) m = (1 << Geo::edges()[k][0]) | (1 << Geo::edges()[k][1]); if (d == 2) for (int j = 0; j < 3; ++j) m |= 1 << (k + j) % 4; if (d == 3) m = 15; return m; };
    int a = verts(dim, n), b = verts(sdim, sn);
    return (a & b) == b;
}
// the functionals of the degrees of freedom applied to a function f(x, values)
typedef std::function<void(const V3&, R*)> Fun;
inline void raw_functionals(Cell& c, const RSp& s, const Fun& f, int fdim, int d0, std::vector<R>& out) {
    std::vector<R> v(fdim);
    if (s.kind == FIX && (s.fix == Ani::FEM_RT0 || s.fix == Ani::FEM_ND0)) {
        for (int k = 0; k < s.nfa(); ++k) {
            auto rule = s.fix == Ani::FEM_RT0 ? face_rule(12, k) : edge_rule(12, k); V3 d = s.fix == Ani::FEM_RT0 ? c.G.face_normal(k) : c.G.edge_tan(k);
            R t = 0; for (auto& p : rule) { f(c.G.x(p.l), v.data()); t += p.w * (d[0] * v[d0] + d[1] * v[d0 + 1] + d[2] * v[d0 + 2]); }
            out.push_back(t);
        }
    } else if (s.kind == FIX) {
        std::vector<std::array<int, 4>> m; std::vector<std::vector<Pt>> fun; scalar_def(s.fix, m, fun);
        if (s.fix == Ani::FEM_P0) fun[0] = tet_rule(12);
        if (s.fix == Ani::FEM_CR1) for (int k = 0; k < 4; ++k) fun[k] = face_rule(12, k);
        for (auto& fn : fun) { R t = 0; for (auto& p : fn) { f(c.G.x(p.l), v.data()); t += p.w * v[d0]; } out.push_back(t); }
    } else if (s.kind == VEC) for (int j = 0; j < s.k; ++j) raw_functionals(c, s.ch[0], f, fdim, d0 + j * s.ch[0].dim(), out);
    else if (s.kind == COM) for (auto& x : s.ch) { raw_functionals(c, x, f, fdim, d0, out); d0 += x.dim(); }
    else {      // union: the functionals are mixed so that they are dual to the given bases: solve raw(sum c_i phi_i) = raw(f)
        int n = s.nfa(), sd = s.dim(); std::vector<R> b, G(n * n);
        for (auto& x : s.ch) raw_functionals(c, x, f, fdim, d0, b);
        for (int i = 0; i < n; ++i) {
            Fun phi = [&](const V3& x, R* o) { L4 l; for (int a = 0; a < 4; ++a) l[a] = 1 + Geo::dot(c.G.g[a], Geo::sub(x, c.G.X[a])); auto q = c.eval(s, l); for (int d = 0; d < sd; ++d) o[d] = q.v(i, d); };
            std::vector<R> col; for (auto& x : s.ch) raw_functionals(c, x, phi, sd, 0, col);
            for (int k = 0; k < n; ++k) G[k * n + i] = col[k];
        }
        if (!invert(G, n)) throw std::runtime_error("reference: singular union");
        for (int i = 0; i < n; ++i) { R t = 0; for (int k = 0; k < n; ++k) t += G[i * n + k] * b[k]; out.push_back(t); }
    }
}

// --- tetrahedra on the vertices of the unit cube, all vertex orders, under a fixed affine map without symmetries
inline V3 warp(const V3& p) {
    return {0.9 * p[0] + 0.21 * p[1] - 0.13 * p[2] + 0.37, 0.17 * p[0] + 1.13 * p[1] + 0.29 * p[2] - 0.41, -0.23 * p[0] + 0.11 * p[1] + 0.83 * p[2] + 0.19};
}
struct TetList {
    std::vector<std::array<V3, 4>> t; std::vector<std::string> name; std::vector<int> shape, perm;
};
inline const TetList& cube_tets(bool warped) {
    static TetList L[2];
    TetList& r = L[warped];
    if (!r.t.empty()) return r;
    auto V = [](int b) { return V3{(R)(b & 1), (R)(b >> 1 & 1), (R)(b >> 2 & 1)}; };
    int shape = 0;
    for (int a = 0; a < 8; ++a) for (int b = a + 1; b < 8; ++b) for (int c = b + 1; c < 8; ++c) for (int d = c + 1; d < 8; ++d) {
        std::array<int, 4> id{a, b, c, d};
        V3 A = V(a); R det = Geo::dot(Geo::sub(V(b), A), Geo::cross(Geo::sub(V(c), A), Geo::sub(V(d), A)));
        if (det == 0) continue;
        int pi = 0;
        do {
            std::array<V3, 4> t; std::string nm;
            for (int i = 0; i < 4; ++i) { t[i] = warped ? warp(V(id[i])) : V(id[i]); nm += char('0' + id[i]); }
            r.t.push_back(t); r.name.push_back(nm); r.shape.push_back(shape); r.perm.push_back(pi++);
        } while (std::next_permutation(id.begin(), id.end()));
        ++shape;
    }
    return r;
}
// barycentric lattice of given degree, then one point outside
inline std::vector<L4> lattice(int n, bool outside) {
    std::vector<L4> r;
    for (auto& m : monos(n)) r.push_back({m[0] / (R)n, m[1] / (R)n, m[2] / (R)n, m[3] / (R)n});
    if (outside) r.push_back({-0.5, 0.9, 0.25, 0.35});
    return r;
}
} // namespace ref
