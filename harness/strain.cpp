// X03: invariants of the Cauchy strain against their definitions as second-order jets over the nine components of the strain,
// kinematic helpers against index formulas, stored energies (functions of invariants) against the chain rule.
#include "jet.h"
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
#include "anifem++/autodiff/autodiff.h"
using namespace mc; using namespace Ani;
typedef std::array<double, 3> V3d;
typedef std::array<std::array<Jet, 3>, 3> JM;
// C = I + 2E with E read as (E + E^T)/2: derivatives over nine components are the symmetric ones
static JM jetC(const double (*E)[3]) {
    JM C; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Jet x(9, (i == j) + (LD)E[i][j] + E[j][i]); x.g[3 * i + j] += 1; x.g[3 * j + i] += 1; x.meas(); C[i][j] = x; }
    return C;
}
// C = F^T F over the nine components of F
static JM jetCF(const double (*F)[3]) {
    JM f, C; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Jet x(9, F[i][j]); x.g[3 * i + j] = 1; f[i][j] = x; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C[i][j] = f[0][i] * f[0][j] + f[1][i] * f[1][j] + f[2][i] * f[2][j];
    return C;
}
static Jet det(const JM& c) { return c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[2][1]) - c[0][1] * (c[1][0] * c[2][2] - c[1][2] * c[2][0]) + c[0][2] * (c[1][0] * c[2][1] - c[1][1] * c[2][0]); }
static Jet tr(const JM& c) { return c[0][0] + c[1][1] + c[2][2]; }
static Jet trsq(const JM& c) { Jet r(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r = r + c[i][j] * c[j][i]; return r; }
static Jet jI2(const JM& c) { return (LD)0.5 * (tr(c) * tr(c) - trsq(c)); }
static Jet jsqrt(const Jet& a) { LD s = std::sqrt(a.v); return jet1(a, s, 0.5L / s, -0.25L / (s * a.v)); }
static Jet jI4(const JM& c, const V3d& f, const V3d& s) { Jet r(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (f[i] * s[j] != 0) r = r + (LD)(f[i] * s[j]) * c[i][j]; return r; }
static Jet jI5(const JM& c, const V3d& f, const V3d& s) { Jet r(9); for (int k = 0; k < 3; ++k) { Jet a(9), b(9); for (int i = 0; i < 3; ++i) { if (f[i] != 0) a = a + (LD)f[i] * c[k][i]; if (s[i] != 0) b = b + (LD)s[i] * c[k][i]; } r = r + a * b; } return r; }
static Jet jI0(const V3d& f, const V3d& s) { return Jet(9, (LD)f[0] * s[0] + (LD)f[1] * s[1] + (LD)f[2] * s[2]); }
static Jet jlog(const Jet& a) { return jet1(a, std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
static Jet jexp(const Jet& a) { LD e = std::exp(a.v); return jet1(a, e, e, e); }
static Jet jabs(const Jet& a) { return a.v < 0 ? -a : a; }
static Jet jp(const Jet& a, LD p) { return jet1(a, std::pow(a.v, p), p * std::pow(a.v, p - 1), p * (p - 1) * std::pow(a.v, p - 2)); }
static Jet jc(LD c) { return Jet(9, c); }

struct Strain { double e[3][3]; std::string show() const { return fmt("E = %g %g %g %g %g %g", e[0][0], e[0][1], e[0][2], e[1][1], e[1][2], e[2][2]); } };
template<class FT> static SymMtx3D<FT> lib(const Strain& s) { SymMtx3D<FT> E; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) E(i, j) = s.e[i][j]; return E; }
static double tol(const Jet& j) { return (double)(1e-12L * std::max((LD)1, j.mag)); }
template<class G> static void grad(const std::string& sig, const G& g, const Jet& j, const std::string& w, double t) {
    checked(9); for (int a = 0; a < 9; ++a) if (!(std::fabs((double)((LD)g(a / 3, a % 3) - j.g[a])) <= t)) { fail(sig + ":gradient", fmt("%s: component %d%d of the gradient is %.15g, exact %.15g", w.c_str(), a / 3, a % 3, (double)g(a / 3, a % 3), (double)j.g[a])); return; }
}
template<class H> static void hess(const std::string& sig, const H& h, const Jet& j, const std::string& w, double t) {
    checked(81); for (int a = 0; a < 81; ++a) { double x = h(a / 27, a / 9 % 3, a / 3 % 3, a % 3); if (!(std::fabs((double)(x - j.h[a])) <= t)) { fail(sig + ":hessian", fmt("%s: component %d%d%d%d of the Hessian is %.15g, exact %.15g", w.c_str(), a / 27, a / 9 % 3, a / 3 % 3, a % 3, x, (double)j.h[a])); return; } }
}
static void val(const std::string& sig, double v, const Jet& j, const std::string& w, double t) { checked(); trans(); if (!(std::fabs((double)(v - j.v)) <= t)) fail(sig + ":value", fmt("%s: value %.15g, exact %.15g", w.c_str(), v, (double)j.v)); }
// an expression of the library (or its result) up to the order of derivatives asked for
template<class T> static void expr(const std::string& sig, const T& x, const Jet& j, const std::string& w, int nd = 2, double k = 1) {
    double t = k * tol(j); val(sig, x(), j, w, t); if (nd >= 1) grad(sig, x.D(), j, w, t); if (nd >= 2) hess(sig, x.DD(), j, w, t);
}
static std::vector<Strain> strains(int step) {
    std::vector<Strain> r; double D[] = {-0.25, 0, 0.5}, O[] = {-0.25, 0, 0.125};
    for (int c = 0; c < 729; c += step) for (double sc : {1., 0.5}) {
        if (sc != 1 && !thorough() && c % 5) continue;
        int x = c, d[6]; for (int& q : d) q = x % 3, x /= 3;
        Strain s; int k = 0; for (int i = 0; i < 3; ++i) s.e[i][i] = D[d[k++]] * sc; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) s.e[i][j] = s.e[j][i] = O[d[k++]] * sc;
        // admissible: C positive definite
        double c00 = 1 + 2 * s.e[0][0], c01 = 2 * s.e[0][1], c11 = 1 + 2 * s.e[1][1]; if (c00 <= 0.05 || c00 * c11 - c01 * c01 <= 0.02) continue; if (det(jetC(s.e)).v <= 0.01) continue;
        r.push_back(s);
    }
    return r;
}
static std::vector<V3d> fibres() { std::vector<V3d> r; for (int c = 0; c < 27; ++c) r.push_back({c % 3 - 1., c / 3 % 3 - 1., c / 9 - 1.}); r.push_back({0.6, 0.8, 0}); r.push_back({0.3, -0.5, 1.25}); return r; }
template<class FT> static void isotropic(const char* tn, const Strain& s) {
    std::string w = s.show() + " (" + tn + ")"; auto E = lib<FT>(s); JM C = jetC(s.e); state(4); double k = std::is_same<FT, float>::value ? 1e8 : 1; std::string p = std::is_same<FT, float>::value ? "float " : "";
    Jet j1 = tr(C), j2 = jI2(C), j3 = det(C), jJ = jsqrt(j3);
    val(p + "C_I1", Mech::C_I1(E), j1, w, k * tol(j1)); grad(p + "C_I1_dE", Mech::C_I1_dE(E), j1, w, k * tol(j1)); grad(p + "C_I1_dE()", Mech::C_I1_dE<FT>(), j1, w, k * tol(j1)); hess(p + "C_I1_ddE", Mech::C_I1_ddE(E), j1, w, k * tol(j1)); hess(p + "C_I1_ddE()", Mech::C_I1_ddE<FT>(), j1, w, k * tol(j1));
    val(p + "C_I2", Mech::C_I2(E), j2, w, k * tol(j2)); grad(p + "C_I2_dE", Mech::C_I2_dE(E), j2, w, k * tol(j2)); hess(p + "C_I2_ddE", Mech::C_I2_ddE(E), j2, w, k * tol(j2)); hess(p + "C_I2_ddE()", Mech::C_I2_ddE<FT>(), j2, w, k * tol(j2));
    val(p + "C_I3", Mech::C_I3(E), j3, w, k * tol(j3)); grad(p + "C_I3_dE", Mech::C_I3_dE(E), j3, w, k * tol(j3)); hess(p + "C_I3_ddE", Mech::C_I3_ddE(E), j3, w, k * tol(j3));
    val(p + "C_J", Mech::C_J(E), jJ, w, k * tol(jJ)); grad(p + "C_J_dE", Mech::C_J_dE(E), jJ, w, k * tol(jJ)); hess(p + "C_J_ddE", Mech::C_J_ddE(E), jJ, w, k * tol(jJ));
    for (int nd = 0; nd <= 2; ++nd) { expr(p + "I1", Mech::I1<FT>(nd, E), j1, w, nd, k); expr(p + "I2", Mech::I2<FT>(nd, E), j2, w, nd, k); expr(p + "I3", Mech::I3<FT>(nd, E), j3, w, nd, k); expr(p + "J", Mech::J<FT>(nd, E), jJ, w, nd, k); }
    // an object set once more for another strain
    Mech::I3<FT> a(2, lib<FT>(Strain{{{0.3, 0.1, 0}, {0.1, 0.2, 0.05}, {0, 0.05, 0.4}}})); a.Init(2, E); expr(p + "I3 again", a, j3, w, 2, k);
    Mech::J<FT> b(2, lib<FT>(Strain{{{0.3, 0.1, 0}, {0.1, 0.2, 0.05}, {0, 0.05, 0.4}}})); b.Init(1, E); expr(p + "J again", b, jJ, w, 1, k);
}
template<class FT> static void fibred(const char* tn, const Strain& s, const V3d& f, const V3d& q, const JM& C) {
    double k = std::is_same<FT, float>::value ? 1e8 : 1; std::string p = std::is_same<FT, float>::value ? "float " : "";
    std::string w = s.show() + fmt(" f = %g %g %g, s = %g %g %g (%s)", f[0], f[1], f[2], q[0], q[1], q[2], tn); auto E = lib<FT>(s); state(3);
    std::array<FT, 3> F{(FT)f[0], (FT)f[1], (FT)f[2]}, Q{(FT)q[0], (FT)q[1], (FT)q[2]};
    Jet j4 = jI4(C, f, q), j5 = jI5(C, f, q), j0 = jI0(f, q);
    val(p + "C_I4fs", Mech::C_I4fs(E, F, Q), j4, w, k * tol(j4)); grad(p + "C_I4fs_dE", Mech::C_I4fs_dE(E, F, Q), j4, w, k * tol(j4)); grad(p + "C_I4fs_dE()", Mech::C_I4fs_dE(F, Q), j4, w, k * tol(j4)); hess(p + "C_I4fs_ddE", Mech::C_I4fs_ddE(E, F, Q), j4, w, k * tol(j4)); hess(p + "C_I4fs_ddE(f,s)", Mech::C_I4fs_ddE(F, Q), j4, w, k * tol(j4));
    val(p + "C_I5fs", Mech::C_I5fs(E, F, Q), j5, w, k * tol(j5)); grad(p + "C_I5fs_dE", Mech::C_I5fs_dE(E, F, Q), j5, w, k * tol(j5)); hess(p + "C_I5fs_ddE", Mech::C_I5fs_ddE(E, F, Q), j5, w, k * tol(j5)); hess(p + "C_I5fs_ddE(f,s)", Mech::C_I5fs_ddE(F, Q), j5, w, k * tol(j5));
    val(p + "C_I0fs", Mech::C_I0fs(E, F, Q), j0, w, k * tol(j0)); val(p + "C_I0fs(f,s)", Mech::C_I0fs(F, Q), j0, w, k * tol(j0)); grad(p + "C_I0fs_dE", Mech::C_I0fs_dE(E, F, Q), j0, w, k * tol(j0)); hess(p + "C_I0fs_ddE", Mech::C_I0fs_ddE(E, F, Q), j0, w, k * tol(j0));
    for (int nd = 0; nd <= 2; ++nd) { expr(p + "I4fs", Mech::I4fs<FT>(nd, E, F, Q), j4, w, nd, k); expr(p + "I5fs", Mech::I5fs<FT>(nd, E, F, Q), j5, w, nd, k); expr(p + "I0fs", Mech::I0fs<FT>(nd, F, Q), j0, w, nd, k); }
}
// stored energies: the expressions of the library on its invariants
static void energies(const Strain& s, const V3d& f, const V3d& q, int nd) {
    using namespace Mech; std::string w = s.show() + fmt(" f = %g %g %g, s = %g %g %g, order %d", f[0], f[1], f[2], q[0], q[1], q[2], nd); state();
    auto E = lib<double>(s); JM C = jetC(s.e);
    Mech::I1<> i1(nd, E); Mech::I2<> i2(nd, E); Mech::I3<> i3(nd, E); Mech::J<> J(nd, E); Mech::I4fs<> i4(nd, E, f, q); Mech::I4fs<> i4f(nd, E, f, f); Mech::I5fs<> i5(nd, E, f, q); Mech::I0fs<> i0(nd, f, q); Mech::I0fs<> i0f(nd, f, f);
    Jet j1 = tr(C), j2 = jI2(C), j3 = det(C), jJ = jsqrt(j3), j4 = jI4(C, f, q), j4f = jI4(C, f, f), j5 = jI5(C, f, q), j0 = jI0(f, q), j0f = jI0(f, f);
    Param<PhysSymTensorStorageSet<3>> mu(0.75), K(2.5);
    auto chk = [&](const char* n, const auto& x, const Jet& j) { expr(std::string("energy ") + n, x, j, w, nd, 10); };
    chk("neo-Hookean", mu / 2 * (i1 - 3) - mu * log(J) + K / 2 * (J - 1) * (J - 1), 0.375L * (j1 - jc(3)) - 0.75L * jlog(jJ) + 1.25L * ((jJ - jc(1)) * (jJ - jc(1))));
    chk("isochoric", mu / 2 * (i1 * pow(J, -2.0 / 3) - 3), 0.375L * (j1 * jp(jJ, -2.0 / 3) - jc(3)));
    chk("Mooney", 0.3 * (i1 / cbrt(i3) - 3) + 0.2 * (i2 / pow(i3, 2.0 / 3) - 3), 0.3L * (j1 * jp(j3, -1.0L / 3) - jc(3)) + 0.2L * (j2 * jp(j3, -2.0 / 3) - jc(3)));
    chk("Gent", -log(1 - (i1 - 3) / 20), -jlog(jc(1) - 0.05L * (j1 - jc(3))));
    chk("volumetric", K / 4 * (sq(J) - 1 - 2 * log(J)), 0.625L * (jJ * jJ - jc(1) - 2.0L * jlog(jJ)));
    chk("sqrt I3", sqrt(i3) * i1 + i2 / J, jsqrt(j3) * j1 + j2 / jJ);
    chk("fibre", exp(0.1 * sq(i4f - i0f)) - 1, jexp(0.1L * ((j4f - j0f) * (j4f - j0f))) - jc(1));
    chk("shear", 0.5 * sq(i4 - i0) + i4 * i1, 0.5L * ((j4 - j0) * (j4 - j0)) + j4 * j1);
    chk("I5", i5 * J - sq(i5) / 10 + i5 * i0, j5 * jJ - 0.1L * (j5 * j5) + j5 * j0);
    chk("mix", (i4 + i5) * (i1 - i3) + i2 * i4f, (j4 + j5) * (j1 - j3) + j2 * j4f);
    if (j0f.v > 0.5) chk("stretch", sqrt(i4f / i0f) + pow(i4f, 1.5), jsqrt(j4f / j0f) + jp(j4f, 1.5L));
    if (std::fabs((double)j4.v) > 1e-3) chk("abs", abs(i4) * i3, jabs(j4) * j3);
    if (std::fabs((double)(j1.v - j2.v)) > 1e-6) chk("max", max(i1, i2) + min(J, i3 + 100), (j1.v > j2.v ? j1 : j2) + jJ);
}
struct Def { double g[3][3]; std::string show() const { return fmt("grad u = %g %g %g %g %g %g %g %g %g", g[0][0], g[0][1], g[0][2], g[1][0], g[1][1], g[1][2], g[2][0], g[2][1], g[2][2]); } };
static Mtx3D<> mtx(const double (*g)[3]) { Mtx3D<> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = g[i][j]; return m; }
template<class A> static void sameM(const char* sig, const A& a, const double (*x)[3], const std::string& w, double t = 1e-13) { checked(9); trans(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::fabs(a(i, j) - x[i][j]) <= t)) { fail(sig, fmt("%s: component %d%d is %.15g, exact %.15g", w.c_str(), i, j, (double)a(i, j), x[i][j])); return; } }
static void kinematics(const Def& d, int n) {
    std::string w = d.show(); state(); double F[3][3], E[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F[i][j] = d.g[i][j] + (i == j);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { E[i][j] = -(i == j) * 0.5; for (int k = 0; k < 3; ++k) E[i][j] += F[k][i] * F[k][j] / 2; }
    sameM("F_to_E", Mech::F_to_E(mtx(F)), E, w); sameM("grU_to_E", Mech::grU_to_E(mtx(d.g)), E, w);
    // the derivative is linear in the increment: its nine basis directions and one general
    for (int b = 0; b < 10; ++b) {
        double dF[3][3], dE[3][3]; for (int i = 0; i < 9; ++i) dF[i / 3][i % 3] = b < 9 ? i == b : 0.25 * (i * 7 % 5 - 2) + 0.1 * i;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { dE[i][j] = 0; for (int k = 0; k < 3; ++k) dE[i][j] += (dF[k][i] * F[k][j] + F[k][i] * dF[k][j]) / 2; }
        sameM("F_and_dF_to_dE", Mech::F_and_dF_to_dE(mtx(F), mtx(dF)), dE, w); sameM("grU_and_dgrU_to_dE", Mech::grU_and_dgrU_to_dE(mtx(d.g), mtx(dF)), dE, w);
    }
    auto S2 = [](int b) { SymMtx3D<> s; if (b < 6) s[b] = 1; else for (int i = 0; i < 6; ++i) s[i] = 0.5 + (i * 5 % 7) - 1.75 * (i % 2); return s; };
    auto S4 = [](int b) { BiSym4Tensor3D<> s; if (b < 21) s[b] = 1; else for (int i = 0; i < 21; ++i) s[i] = 0.25 + (i * 8 % 13) - 1.5 * (i % 3); return s; };
    for (int b = 0; b < 7; ++b) { auto S = S2(b); double P[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { P[i][j] = 0; for (int k = 0; k < 3; ++k) P[i][j] += F[i][k] * S(k, j); } sameM("S_to_P", Mech::S_to_P(mtx(d.g), S), P, w, 1e-12); }
    for (int b = 0; b < 7 + 22; ++b) {
        if (n % 4 && b != 6 && b != 28 && (b + n) % 3) continue;
        SymMtx3D<> S; BiSym4Tensor3D<> H; if (b < 6) S = S2(b); else if (b > 6) H = S4(b - 7); if (b == 6 || b == 28) S = S2(6), H = S4(21);
        double h[3][3][3][3]; for (int x = 0; x < 81; ++x) h[x / 27][x / 9 % 3][x / 3 % 3][x % 3] = H(x / 27, x / 9 % 3, x / 3 % 3, x % 3);
        auto D = Mech::dS_to_dP(mtx(d.g), S, H); checked(81); trans(); bool bad = false;
        for (int x = 0; x < 81 && !bad; ++x) { int i = x / 27, j = x / 9 % 3, k = x / 3 % 3, l = x % 3; double e = i == k ? S(l, j) : 0; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) e += F[i][p] * F[k][q] * h[p][j][q][l];
            if (!(std::fabs(D(i, j, k, l) - e) <= 1e-11 * 50)) bad = true, fail("dS_to_dP", fmt("%s, S %d, dS %d: component %d%d%d%d is %.15g, exact %.15g", w.c_str(), b < 7 ? b : -1, b >= 7 ? b - 7 : -1, i, j, k, l, (double)D(i, j, k, l), e)); }
    }
    // end to end: first and second derivative of energies over the deformation gradient
    JM C = jetCF(F); Jet j3 = det(C); auto G = Mech::grU_to_E(mtx(d.g));
    auto piola = [&](const char* nm, const SymMtx3D<>& S, const BiSym4Tensor3D<>& H, const Jet& j) { double t = 10 * tol(j); grad(std::string("Piola ") + nm, Mech::S_to_P(mtx(d.g), S), j, w, t); hess(std::string("Piola ") + nm, Mech::dS_to_dP(mtx(d.g), S, H), j, w, t); };
    piola("I1", Mech::C_I1_dE(G), Mech::C_I1_ddE(G), tr(C)); piola("I2", Mech::C_I2_dE(G), Mech::C_I2_ddE(G), jI2(C)); piola("I3", Mech::C_I3_dE(G), Mech::C_I3_ddE(G), j3);
    if (j3.v > 0.01) piola("J", Mech::C_J_dE(G), Mech::C_J_ddE(G), jsqrt(j3));
    V3d f{1, -1, 0.5}, q{0.25, 0, 2}; piola("I4", Mech::C_I4fs_dE(G, f, q), Mech::C_I4fs_ddE(G, f, q), jI4(C, f, q)); piola("I5", Mech::C_I5fs_dE(G, f, q), Mech::C_I5fs_ddE(G, f, q), jI5(C, f, q));
}
static void body() {
    auto S = strains(1); auto f = fibres();
    for (size_t i = 0; i < S.size(); ++i) run_case(fmt("strain %zu", i), "strain", [&] {
        isotropic<double>("double", S[i]); if (i % 4 == 0) isotropic<float>("float", S[i]);
        JM C = jetC(S[i].e);
        for (size_t a = 0; a < f.size(); ++a) for (size_t b = 0; b < f.size(); ++b) { if (!thorough() && (a * 31 + b + i) % 5) continue; fibred<double>("double", S[i], f[a], f[b], C); if ((a + b + i) % 40 == 0) fibred<float>("float", S[i], f[a], f[b], C); }
        for (size_t a = i % 3; a < f.size(); a += 3) for (size_t b = (i + a) % 7; b < f.size(); b += thorough() ? 3 : 7) for (int nd = 0; nd <= 2; ++nd) { if (nd < 2 && (a + b) % 3) continue; energies(S[i], f[a], f[b], nd); }
    });
    double v[] = {0, 1, -1}; int n = 0;
    for (int c = 0; c < 19683; ++c) {
        if (!thorough() && c % 3 && c > 729) continue;
        Def d; int x = c; for (int i = 0; i < 9; ++i) d.g[i / 3][i % 3] = v[x % 3] * (1 - 0.0625 * (i % 4)), x /= 3;
        int m = n++; run_case(fmt("deformation %d", c), "deformation", [&] { kinematics(d, m); });
    }
}
MC_MAIN(body)
