// G01: every small matrix through the dense kernels.  Oracle: the defining equations (integer-exact where possible).
#include "mc.h"
#include "anifem++/fem/geometry.h"
using namespace mc; using namespace Ani;
typedef std::vector<double> V;
static std::string sm(const V& a, int n, int m) { std::string s = "["; for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) s += fmt("%g ", a[i + j * n]); s += "; "; } return s + "]"; }
static double nrm(const V& a) { double r = 0; for (double x : a) r = std::max(r, std::fabs(x)); return r; }
// memory with canaries: the advertised workspace must be enough and must not be left
struct Work { V d; size_t n; Work(size_t n) : d(n + 8, 12345.678), n(n) {} double* p() { return d.data() + 4; } bool ok() const { for (size_t i = 0; i < 4; ++i) if (d[i] != 12345.678 || d[n + 4 + i] != 12345.678) return false; return true; } };
struct IWork { std::vector<int> d; size_t n; IWork(size_t n) : d(n + 8, 77777), n(n) {} int* p() { return d.data() + 4; } bool ok() const { for (size_t i = 0; i < 4; ++i) if (d[i] != 77777 || d[n + 4 + i] != 77777) return false; return true; } };
// exact determinant of an integer matrix
static double idet(const V& a, int n) {
    if (n == 0) return 1; if (n == 1) return a[0];
    double d = 0;
    for (int c = 0; c < n; ++c) { if (a[c * n] == 0) continue; V b; for (int j = 0; j < n; ++j) if (j != c) for (int i = 1; i < n; ++i) b.push_back(a[i + j * n]); d += (c % 2 ? -1 : 1) * a[c * n] * idet(b, n - 1); }
    return d;
}
static V iadj(const V& a, int n) {      // adjugate
    V r(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { V b; for (int c = 0; c < n; ++c) if (c != j) for (int k = 0; k < n; ++k) if (k != i) b.push_back(a[k + c * n]); r[j + i * n] = ((i + j) % 2 ? -1 : 1) * idet(b, n - 1); }
    return r;
}
static void k_inverse3(const V& a, double sc) {
    V A = a; for (double& x : A) x *= sc;
    double det = idet(a, 3);
    V inv(9); double d = inverse3x3(A.data(), inv.data());
    MC_REQ(std::fabs(d - det * sc * sc * sc) <= 1e-13 * sc * sc * sc * 50, "inverse3x3", "determinant of %s (scale %g) is %g, exact %g", sm(a, 3, 3).c_str(), sc, d, det * sc * sc * sc);
    if (det == 0) return;
    V adj = iadj(a, 3);
    for (int i = 0; i < 9; ++i) MC_REQ(std::fabs(inv[i] * sc - adj[i] / det) <= 1e-13 * (1 + nrm(adj)), "inverse3x3", "inverse of %s (scale %g) entry %d is %g, exact %g", sm(a, 3, 3).c_str(), sc, i, inv[i] * sc, adj[i] / det);
}
static void k_lu(const V& a, int n, double sc) {
    double det = idet(a, n);
    V A = a; for (double& x : A) x *= sc;
    IWork iw(2 * n);
    if (det == 0) {     // outside the domain: the workspace must still not be left
        Work w(2 * n * n); V b(n, 1.0), x(n);
        fullPivLU_solve(A.data(), b.data(), n, 1, x.data(), w.p(), iw.p());
        MC_REQ(w.ok() && iw.ok(), "lu-memory", "singular %s: memory outside the workspace is written", sm(a, n, n).c_str());
        return;
    }
    V adj = iadj(a, n);
    double cond = nrm(adj) / std::fabs(det) * nrm(a) * n * n;
    for (int M : {1, 2, 3}) {
        V b(n * M), x(n * M, 7.5), xe(n * M);
        for (int l = 0; l < M; ++l) for (int i = 0; i < n; ++i) b[i + n * l] = l == 0 ? i + 1 : (i == l - 1 ? 1 : 0);
        for (int l = 0; l < M; ++l) for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += adj[i + n * j] * b[j + n * l]; xe[i + n * l] = s / det / sc; }
        Work w(n * (n + M));
        fullPivLU_solve(A.data(), b.data(), n, M, x.data(), w.p(), iw.p());
        for (int i = 0; i < n * M; ++i) MC_REQ(std::fabs(x[i] - xe[i]) <= 1e-13 * cond * nrm(xe), "lu-solve", "solution of %s x = (1..n | unit columns), %d columns, entry %d is %g, exact %g", sm(a, n, n).c_str(), M, i, x[i] * sc, xe[i] * sc);
        MC_REQ(w.ok() && iw.ok(), "lu-memory", "%s: memory outside the workspace is written", sm(a, n, n).c_str());
        V y = b; Work w2(n * (n + M));
        fullPivLU_solve(A.data(), y.data(), n, M, y.data(), w2.p(), iw.p());
        MC_REQ(y == x, "lu-solve-inplace", "%s: solving in place differs from out of place", sm(a, n, n).c_str());
    }
    { V inv(n * n); Work w(2 * n * n);
      fullPivLU_inverse(A.data(), inv.data(), n, w.p(), iw.p());
      for (int i = 0; i < n * n; ++i) MC_REQ(std::fabs(inv[i] * sc - adj[i] / det) <= 1e-13 * cond * nrm(adj) / std::fabs(det), "lu-inverse", "inverse of %s entry %d is %g, exact %g", sm(a, n, n).c_str(), i, inv[i] * sc, adj[i] / det);
      MC_REQ(w.ok() && iw.ok(), "lu-memory", "%s: memory outside the workspace is written", sm(a, n, n).c_str());
      V B = A; Work w2(2 * n * n);
      fullPivLU_inverse(B.data(), B.data(), n, w2.p(), iw.p());
      bool same = true; for (int i = 0; i < n * n; ++i) if (!(std::fabs(B[i] - inv[i]) <= 1e-12 * nrm(inv))) same = false;
      MC_REQ(same, "lu-inverse-inplace", "%s: inverting in place gives %s", sm(a, n, n).c_str(), sm(B, n, n).c_str()); }
}
// widely different entries, well conditioned: backward stability
static void k_lu_graded(const V& a, int n) {
    // condition number in extended precision (adjugate of the scaled matrix)
    double mx = nrm(a); if (mx == 0) return;
    std::vector<long double> L(n * n); for (int i = 0; i < n * n; ++i) L[i] = (long double)a[i] / mx;
    auto det = [&](auto self, std::vector<long double> q, int k) -> long double { if (k == 0) return 1; long double d = 0; for (int c = 0; c < k; ++c) { std::vector<long double> r; for (int j = 0; j < k; ++j) if (j != c) for (int i = 1; i < k; ++i) r.push_back(q[i + j * k]); d += (c % 2 ? -1 : 1) * q[c * k] * self(self, r, k - 1); } return d; };
    long double d = det(det, L, n), am = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { std::vector<long double> r; for (int c = 0; c < n; ++c) if (c != j) for (int k = 0; k < n; ++k) if (k != i) r.push_back(L[k + c * n]); am = std::max(am, std::fabs(det(det, r, n - 1))); }
    if (d == 0 || !(am <= 1e6 * std::fabs(d))) return;
    checked();
    IWork iw(2 * n); Work w(n * (n + 1)); V b(n), x(n);
    for (int i = 0; i < n; ++i) b[i] = 1 + i;
    fullPivLU_solve(a.data(), b.data(), n, 1, x.data(), w.p(), iw.p());
    double r = 0; for (int i = 0; i < n; ++i) { long double s = b[i]; for (int j = 0; j < n; ++j) s -= (long double)a[i + n * j] * x[j]; r = std::max(r, (double)std::fabs(s)); }
    MC_REQ(r <= 1e-13 * n * n * (nrm(a) * nrm(x) + nrm(b)), "lu-backward", "residual of %s is %g (|A||x| = %g)", sm(a, n, n).c_str(), r, nrm(a) * nrm(x));
}
static void k_chol(const V& g, int n, double sc) {
    // A = G^T G + I
    V A(n * n), a(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = i == j; for (int k = 0; k < n; ++k) s += g[k + n * i] * g[k + n * j]; a[i + n * j] = s; A[i + n * j] = s * sc; }
    V adj = iadj(a, n); double det = idet(a, n);
    for (int M : {1, 3}) {
        V b(n * M), x(n * M, 3.5), xe(n * M);
        for (int i = 0; i < n * M; ++i) b[i] = (i * 7) % 5 - 1;
        for (int l = 0; l < M; ++l) for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += adj[i + n * j] * b[j + n * l]; xe[i + n * l] = s / det / sc; }
        Work w(n * (n + 1) / 2);
        cholesky_solve(A.data(), b.data(), n, M, x.data(), w.p());
        for (int i = 0; i < n * M; ++i) MC_REQ(std::fabs(x[i] - xe[i]) <= 1e-12 * (nrm(xe) + 1 / sc), "chol-solve", "solution with %s entry %d is %g, exact %g", sm(a, n, n).c_str(), i, x[i] * sc, xe[i] * sc);
        MC_REQ(w.ok(), "chol-memory", "%s: memory outside the workspace is written", sm(a, n, n).c_str());
        V y = b, A2 = A;
        cholesky_solve(A2.data(), y.data(), n, M, y.data(), A2.data());
        bool same = true; for (int i = 0; i < n * M; ++i) if (!(std::fabs(x[i] - y[i]) <= 1e-13 * nrm(x))) same = false;
        MC_REQ(same, "chol-inplace", "%s: in-place solve with the matrix as workspace differs", sm(a, n, n).c_str());
    }
    V inv(n * n); Work w(n * (n + 1) / 2);
    cholesky_inverse(A.data(), inv.data(), n, w.p());
    for (int i = 0; i < n * n; ++i) MC_REQ(std::fabs(inv[i] * sc - adj[i] / det) <= 1e-12, "chol-inverse", "inverse of %s entry %d is %g, exact %g", sm(a, n, n).c_str(), i, inv[i] * sc, adj[i] / det);
    MC_REQ(w.ok(), "chol-memory", "%s: memory outside the workspace is written", sm(a, n, n).c_str());
}
// larger systems, by their residuals: every pattern shifted by permutations of rows and columns
static V pattern(int n, int m, int k) {
    V a(n * m, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { int p = (i * (k % 3 == 1 ? n - 1 : 1) + k / 3 * 5) % n, q = j; double x = 0;
        switch (k % 6) { case 0: x = p == q ? 4 + q : ((p * 7 + q * 3) % 5 - 2) * 0.25; break; case 1: x = p == q ? 2 : (p == q + 1 || q == p + 1) ? -1 : 0; break; case 2: x = ((p * 11 + q * 5 + p * q) % 7 - 3); if (p == q) x += 9; break;
            case 3: x = p == q ? 1 : p < q ? 0.5 : 0; break; case 4: x = p == q ? (q % 2 ? 1e-3 : 1e3) : p > q ? 1e-3 : 0; break; default: x = p == q ? 9.5 : (p + q) % 4 == 0 ? -1 : 0; }
        a[i + n * j] = x; }
    return a;
}
static void k_large(int n, int k, double sc) {
    V A = pattern(n, n, k); for (double& x : A) x *= sc; IWork iw(2 * n); V inv(n * n); std::string nm = fmt("pattern %d of size %d (scale %g)", k, n, sc);
    auto residual = [&](const V& M, const V& x, const V& b, int cols, const char* sig, const char* what) { for (int l = 0; l < cols; ++l) { double nx = 0; for (int j = 0; j < n; ++j) nx = std::max(nx, std::fabs(x[j + n * l])); for (int i = 0; i < n; ++i) { double r = -b[i + n * l]; for (int j = 0; j < n; ++j) r += M[i + n * j] * x[j + n * l]; MC_REQ(std::fabs(r) <= 1e-12 * n * (nrm(M) * nx + nrm(b)), sig, "%s, %s: row %d column %d is missed by %g", nm.c_str(), what, i, l, r); } } };
    for (int M : {1, 2, 7}) { V b(n * M), x(n * M, 7.5); for (int i = 0; i < n * M; ++i) b[i] = (i * 7) % 11 - 4; Work w(n * (n + M)); fullPivLU_solve(A.data(), b.data(), n, M, x.data(), w.p(), iw.p()); MC_REQ(w.ok() && iw.ok(), "lu-memory", "%s: memory outside the workspace is written", nm.c_str()); residual(A, x, b, M, "lu-solve", "solution"); }
    V I(n * n, 0); for (int i = 0; i < n; ++i) I[i * (n + 1)] = 1;
    { Work w(2 * n * n); fullPivLU_inverse(A.data(), inv.data(), n, w.p(), iw.p()); MC_REQ(w.ok() && iw.ok(), "lu-memory", "%s: memory outside the workspace is written", nm.c_str()); residual(A, inv, I, n, "lu-inverse", "inverse"); }
    V G(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = i == j ? sc * sc : 0; for (int q = 0; q < n; ++q) t += A[q + n * i] * A[q + n * j]; G[i + n * j] = t; }
    if (k % 6 != 4) { V b(n * 3), x(n * 3); for (int i = 0; i < n * 3; ++i) b[i] = (i * 5) % 7 - 2; Work w(n * (n + 1) / 2), w2(n * (n + 1) / 2); cholesky_solve(G.data(), b.data(), n, 3, x.data(), w.p()); residual(G, x, b, 3, "chol-solve", "solution of the square"); cholesky_inverse(G.data(), inv.data(), n, w2.p()); MC_REQ(w.ok() && w2.ok(), "chol-memory", "%s: memory outside the workspace is written", nm.c_str()); residual(G, inv, I, n, "chol-inverse", "inverse of the square"); }
    state(); trans();
}
static bool orthonormal(const V& q, int n, double tol) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += q[k + n * i] * q[k + n * j]; if (!(std::fabs(s - (i == j)) <= tol)) return false; } return true; }
static void k_qr(const V& a, int n, int m, double sc) {
    V A = a; for (double& x : A) x *= sc;
    Work w(n * m + n + m), Q(n * n), R(m * m);
    householderQR(A.data(), n, m, Q.p(), R.p(), w.p());
    V q(Q.p(), Q.p() + n * n), r(R.p(), R.p() + m * m);
    MC_REQ(w.ok() && Q.ok() && R.ok(), "qr-memory", "%s: memory outside the workspace or result is written", sm(a, n, m).c_str());
    MC_REQ(orthonormal(q, n, 1e-13), "qr-orthonormal", "%s (scale %g): Q = %s is not orthonormal", sm(a, n, m).c_str(), sc, sm(q, n, n).c_str());
    for (int j = 0; j < m; ++j) for (int i = j + 1; i < m; ++i) MC_REQ(r[i + m * j] == 0, "qr-upper", "%s: R is not upper triangular", sm(a, n, m).c_str());
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double s = 0; for (int k = 0; k < m; ++k) s += q[i + n * k] * r[k + m * j]; MC_REQ(std::fabs(s - A[i + n * j]) <= 1e-13 * nrm(A), "qr-product", "%s (scale %g): (QR)(%d,%d) = %g", sm(a, n, m).c_str(), sc, i, j, s / sc); }
}
static void k_svd(const V& a, int n, int m, double sc) {
    int K = std::min(n, m);
    V A = a; for (double& x : A) x *= sc;
    double tol = 1e-12 * std::max(nrm(A), 1e-300) * std::max(n, m), otol = 1e-11;
    V S0;
    for (int f = 3; f >= 0; --f) {
        Work w(2 * K * K + K), U(n * n), Vv(m * m), S(K);
        int rc = jacobiSVD(A.data(), n, m, f & 1 ? U.p() : (double*)nullptr, S.p(), f & 2 ? Vv.p() : (double*)nullptr, w.p());
        MC_REQ(rc == 0, "svd-converge", "%s (scale %g): not converged", sm(a, n, m).c_str(), sc);
        if (rc) return;
        MC_REQ(w.ok() && U.ok() && Vv.ok() && S.ok(), "svd-memory", "%s: memory outside the workspace or result is written", sm(a, n, m).c_str());
        V s(S.p(), S.p() + K), u(U.p(), U.p() + n * n), v(Vv.p(), Vv.p() + m * m);
        for (int i = 0; i < K; ++i) MC_REQ(s[i] >= 0 && (i == 0 || s[i] <= s[i - 1] * (1 + 1e-13) + tol), "svd-order", "%s (scale %g): singular values not decreasing: %s", sm(a, n, m).c_str(), sc, sm(s, 1, K).c_str());
        if (f == 3) S0 = s;
        for (int i = 0; i < K; ++i) MC_REQ(std::fabs(s[i] - S0[i]) <= tol, "svd-values", "%s (scale %g): singular value %d is %g alone and %g with factors", sm(a, n, m).c_str(), sc, i, s[i], S0[i]);
        if (f & 1) MC_REQ(orthonormal(u, n, otol), "svd-U", "%s (scale %g): U = %s is not orthonormal", sm(a, n, m).c_str(), sc, sm(u, n, n).c_str());
        if (f & 2) MC_REQ(orthonormal(v, m, otol), "svd-V", "%s (scale %g): V = %s is not orthonormal", sm(a, n, m).c_str(), sc, sm(v, m, m).c_str());
        if (f == 3) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double t = 0; for (int k = 0; k < K; ++k) t += u[i + n * k] * s[k] * v[j + m * k]; MC_REQ(std::fabs(t - A[i + n * j]) <= tol * 10, "svd-product", "%s (scale %g): (U S V^T)(%d,%d) = %g", sm(a, n, m).c_str(), sc, i, j, t / sc); }
        // f==1 / f==2: the factor alone diagonalises the Gram matrix
        if (f == 2) for (int j = 0; j < m; ++j) { double t = 0; for (int i = 0; i < n; ++i) { double y = 0; for (int k = 0; k < m; ++k) y += A[i + n * k] * v[k + m * j]; t += y * y; } MC_REQ(std::fabs(std::sqrt(t) - (j < K ? s[j] : 0)) <= tol * 10, "svd-values", "%s (scale %g): |A v_%d| = %g", sm(a, n, m).c_str(), sc, j, std::sqrt(t) / sc); }
        if (f == 1) for (int j = 0; j < n; ++j) { double t = 0; for (int i = 0; i < m; ++i) { double y = 0; for (int k = 0; k < n; ++k) y += A[k + n * i] * u[k + n * j]; t += y * y; } MC_REQ(std::fabs(std::sqrt(t) - (j < K ? s[j] : 0)) <= tol * 10, "svd-values", "%s (scale %g): |A^T u_%d| = %g", sm(a, n, m).c_str(), sc, j, std::sqrt(t) / sc); }
    }
}
// all n x m matrices over an alphabet, split into blocks
template<class F> static void all(const std::string& name, int n, int m, const V& al, int blocks, F f) {
    uint64_t tot = 1; for (int i = 0; i < n * m; ++i) tot *= al.size();
    for (int b = 0; b < blocks; ++b) run_case(fmt("%s %dx%d alphabet=%zu(%g) block=%d/%d", name.c_str(), n, m, al.size(), al.back(), b, blocks), name, [&] {
        V a(n * m); uint64_t cnt = 0;
        for (uint64_t c = b; c < tot; c += blocks) { uint64_t x = c; for (double& e : a) { e = al[x % al.size()]; x /= al.size(); } f(a); state(); trans(); ++cnt; if (n == m) outcome(mix(mix((uint64_t)(int64_t)(idet(a, n) * 4), n), std::hash<std::string>()(name))); }
        sample(fmt("%llu matrices of size %dx%d", (unsigned long long)cnt, n, m));
    });
}
static void body() {
    bool T = thorough();
    V a3 = {-1, 0, 1}, a2 = {0, 1}, a5 = {-2, -1, 0, 1, 2}, gr = {0, 1, 1e20}, gr2 = {0, 1, -3, 1e-18};
    for (double sc : {1.0, 1e-7, 1e7}) all(fmt("inverse3[%g]", sc), 3, 3, sc == 1 && T ? a5 : a3, T ? 16 : 4, [&](const V& a) { k_inverse3(a, sc); });
    for (double sc : {1.0, 1e-9}) for (int n = 1; n <= 4; ++n) all(fmt("lu[%g]", sc), n, n, n <= 2 ? a5 : n == 3 ? a3 : a2, n < 3 ? 1 : 8, [&](const V& a) { k_lu(a, n, sc); });
    for (int n = 2; n <= 3; ++n) { all("lugraded", n, n, gr, 4, [&](const V& a) { k_lu_graded(a, n); }); all("lugraded", n, n, gr2, 4, [&](const V& a) { k_lu_graded(a, n); }); }
    // every permutation of rows and columns of diag(1..n)
    for (int n = 2; n <= (T ? 6 : 5); ++n) run_case(fmt("luperm n=%d", n), "luperm", [&] {
        std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
        do { std::vector<int> q(n); std::iota(q.begin(), q.end(), 0); do { V a(n * n, 0); for (int i = 0; i < n; ++i) a[p[i] + n * q[i]] = i + 1; if (n < 6 || q[0] == 0) { k_lu(a, n, 1); state(); trans(); } } while (std::next_permutation(q.begin(), q.end())); } while (std::next_permutation(p.begin(), p.end()));
    });
    for (double sc : {1.0, 1e-9, 1e9}) for (int n = 1; n <= 4; ++n) all(fmt("chol[%g]", sc), n, n, n <= 3 ? a3 : a2, n < 3 ? 1 : 8, [&](const V& a) { k_chol(a, n, sc); });
    for (double sc : {1.0, 1e-20, 1e20}) for (int n = 1; n <= 4; ++n) for (int m = 1; m <= n; ++m) all(fmt("qr[%g]", sc), n, m, n <= 3 || (n == 4 && m < 3) || (T && m < 4) ? a3 : a2, n < 3 ? 1 : 8, [&](const V& a) { k_qr(a, n, m, sc); });
    for (int n : {5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 33, 60}) run_case(fmt("larger n=%d", n), "larger", [&] { for (int k = 0; k < 36; ++k) for (double sc : {1.0, 1e-7}) k_large(n, k, sc); });
    for (int n : {5, 6, 8, 9, 13, 17}) run_case(fmt("larger qr, svd n=%d", n), "larger", [&] { for (int m : {1, 2, 3, 5, 7, 9, 12}) for (int k = 0; k < 18; ++k) { if (k % 6 == 4) continue; if (m <= n) k_qr(pattern(n, m, k), n, m, 1); k_svd(pattern(n, m, k), n, m, 1); state(); trans(); } });
    for (double sc : {1.0, 1e-9, 1e9}) for (int n = 1; n <= 4; ++n) for (int m = 1; m <= 4; ++m) all(fmt("svd[%g]", sc), n, m, n * m <= (T ? 9 : 8) || (n == 3 && m == 3 && sc == 1) ? a3 : a2, n * m < 6 ? 1 : 16, [&](const V& a) { k_svd(a, n, m, sc); });
}
MC_MAIN(body)
