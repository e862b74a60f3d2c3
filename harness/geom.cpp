// G02: geometry helpers on every tetrahedron with vertices on a small lattice, every vertex order, face and vertex.
#include "mc.h"
#include "anifem++/fem/operations/operations.h"
using namespace mc; using namespace Ani;
typedef std::array<double, 3> P;
static P sub(const P& a, const P& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static P crs(const P& a, const P& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double dot(const P& a, const P& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static std::string sh(const P* X) { std::string s; for (int i = 0; i < 4; ++i) s += fmt("(%g %g %g)", X[i][0], X[i][1], X[i][2]); return s; }
static double S = 1;        // scale
static void check(const P* X) {
    P e1 = sub(X[1], X[0]), e2 = sub(X[2], X[0]), e3 = sub(X[3], X[0]);
    double det = dot(e1, crs(e2, e3));
    if (std::fabs(det) < 1e-9 * S * S * S) return;
    state(); trans(12);
    std::string id = sh(X);
    const double tol = 1e-12;
    Tetra<const double> t(X[0].data(), X[1].data(), X[2].data(), X[3].data());
    auto c = t.centroid();
    double off = 0; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) off = std::max(off, std::fabs(X[i][k]));
    for (int k = 0; k < 3; ++k) MC_REQ(std::fabs(c[k] - (X[0][k] + X[1][k] + X[2][k] + X[3][k]) / 4) <= tol * off, "centroid", "centroid of %s component %d is %g", id.c_str(), k, c[k]);
    double dm = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { P d = sub(X[i], X[j]); dm = std::max(dm, dot(d, d)); }
    MC_REQ(std::fabs(t.diameter() - std::sqrt(dm)) <= tol * S * 4, "diameter", "diameter of %s is %.17g, exact %.17g", id.c_str(), t.diameter(), std::sqrt(dm));
    // jacobian determinant and inverse as the integrator computes them
    { double M[9], I[9]; for (int k = 0; k < 3; ++k) { M[k] = e1[k]; M[3 + k] = e2[k]; M[6 + k] = e3[k]; }
      double d = inverse3x3(M, I);
      MC_REQ(std::fabs(d - det) <= tol * S * S * S * 10, "volume", "6 x volume of %s is %g, exact %g", id.c_str(), d, det);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += I[i + 3 * k] * M[k + 3 * j]; MC_REQ(std::fabs(s - (i == j)) <= 1e-11, "jacobian", "inverse Jacobian of %s is wrong", id.c_str()); } }
    for (int f = 0; f < 4; ++f) {            // face opposite to vertex f
        const P &a = X[(f + 1) % 4], &b = X[(f + 2) % 4], &g = X[(f + 3) % 4], &o = X[f];
        P n = crs(sub(b, a), sub(g, a)); double twice = std::sqrt(dot(n, n));
        double sg = dot(n, sub(o, a)) > 0 ? -1 : 1;
        auto nd = t.normal_direction(f); auto nn = t.normal(f);
        P nr; double area = face_normal(a.data(), b.data(), g.data(), o.data(), nr.data());
        // every order of the face's vertices
        const P* q[3] = {&a, &b, &g}; int pm[3] = {0, 1, 2};
        do {
            P m; double ar = face_normal(q[pm[0]]->data(), q[pm[1]]->data(), q[pm[2]]->data(), o.data(), m.data());
            double ta = tri_area(q[pm[0]]->data(), q[pm[1]]->data(), q[pm[2]]->data());
            MC_REQ(std::fabs(ar - twice / 2) <= tol * S * S * 10 && std::fabs(ta - twice / 2) <= tol * S * S * 10, "area", "area of face %d of %s is %g / %g, exact %g", f, id.c_str(), ar, ta, twice / 2);
            for (int k = 0; k < 3; ++k) MC_REQ(std::fabs(m[k] - sg * n[k] / twice) <= tol, "normal", "outward normal of face %d of %s (vertex order %d%d%d) component %d is %g, exact %g", f, id.c_str(), pm[0], pm[1], pm[2], k, m[k], sg * n[k] / twice);
            P cr, cr2, u = sub(*q[pm[0]], *q[pm[2]]), v = sub(*q[pm[1]], *q[pm[2]]), ex = crs(u, v);
            cross(q[pm[0]]->data(), q[pm[1]]->data(), q[pm[2]]->data(), cr.data()); cross(u.data(), v.data(), cr2.data());
            for (int k = 0; k < 3; ++k) MC_REQ(std::fabs(cr[k] - ex[k]) <= tol * S * S * 10 && std::fabs(cr2[k] - ex[k]) <= tol * S * S * 10, "cross", "cross product of edges of face %d of %s component %d: %g / %g, exact %g", f, id.c_str(), k, cr[k], cr2[k], ex[k]);
        } while (std::next_permutation(pm, pm + 3));
        for (int k = 0; k < 3; ++k) {
            MC_REQ(std::fabs(nn[k] - sg * n[k] / twice) <= tol, "tetra-normal", "normal(%d) of %s component %d is %g, exact %g", f, id.c_str(), k, nn[k], sg * n[k] / twice);
            MC_REQ(std::fabs(nd[k] - sg * n[k]) <= tol * S * S * 10, "tetra-normal-direction", "normal_direction(%d) of %s component %d is %g, exact %g", f, id.c_str(), k, nd[k], sg * n[k]);
        }
    }
    // barycentric coordinates of points
    static const double L[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {.25, .25, .25, .25}, {.5, .25, .125, .125}, {-.5, 1, .75, -.25}};
    double pts[7 * 3], l1[7 * 4], l2[7 * 4], psi[9], M[9];
    for (int n = 0; n < 7; ++n) for (int k = 0; k < 3; ++k) { pts[3 * n + k] = 0; for (int i = 0; i < 4; ++i) pts[3 * n + k] += L[n][i] * X[i][k]; }
    for (int k = 0; k < 3; ++k) { M[k] = e1[k]; M[3 + k] = e2[k]; M[6 + k] = e3[k]; }
    inverse3x3(M, psi);
    for (int cnt : {1, 7}) {
        std::fill(l1, l1 + 28, 99); std::fill(l2, l2 + 28, 99);
        getBaryCoord<double>(X[0].data(), X[1].data(), X[2].data(), X[3].data(), ArrayView<const double>(pts, 3 * cnt), ArrayView<double>(l1, 4 * cnt));
        getBaryCoord<double>(X[0].data(), X[1].data(), X[2].data(), X[3].data(), ArrayView<const double>(pts, 3 * cnt), ArrayView<double>(l2, 4 * cnt), ArrayView<double>(psi, 9));
        double bt = 1e-11 * std::max(1.0, off / S);
        for (int n = 0; n < cnt; ++n) for (int i = 0; i < 4; ++i) MC_REQ(std::fabs(l1[4 * n + i] - L[n][i]) <= bt && std::fabs(l2[4 * n + i] - L[n][i]) <= bt, "barycentric", "barycentric coordinate %d of point %d of %s is %g / %g, exact %g", i, n, id.c_str(), l1[4 * n + i], l2[4 * n + i], L[n][i]);
    }
    outcome(mix((uint64_t)(int64_t)std::llround(det / (S * S * S)), (uint64_t)std::llround(dm / S / S)));
}
static void body() {
    int G = thorough() ? 4 : 3;
    struct Tr { double s; P o; } tr[] = {{1, {0, 0, 0}}, {1e-3, {0, 0, 0}}, {1e3, {0, 0, 0}}, {1, {-5, 3, 100}}};
    for (int g = 2; g <= G; ++g) for (auto& T : tr) {
        if (g == 4 && T.s != 1) continue;
        int n = g * g * g, blocks = g == 2 ? 1 : n;
        for (int b = 0; b < blocks; ++b) run_case(fmt("lattice=%d scale=%g shift=%g first=%d", g, T.s, T.o[2], b), "geometry", [&] {
            S = T.s;
            auto pt = [&](int c) { return P{T.o[0] + T.s * (c % g), T.o[1] + T.s * (c / g % g), T.o[2] + T.s * (c / g / g)}; };
            P X[4];
            for (int i = blocks == 1 ? 0 : b; i < (blocks == 1 ? n : b + 1); ++i) for (int j = 0; j < n; ++j) { if (j == i) continue;
                for (int k = 0; k < n; ++k) { if (k == i || k == j) continue;
                    for (int l = 0; l < n; ++l) { if (l == i || l == j || l == k) continue; if (g == 4 && (i + 2 * j + 3 * k + 5 * l) % 8) continue; X[0] = pt(i); X[1] = pt(j); X[2] = pt(k); X[3] = pt(l); check(X); } } }
        });
    }
}
MC_MAIN(body)
