// D06: prescribed values in element systems: by number, by selection of a numbering (one or two numberings), and for
// rotated components of vector unknowns.
#define DOFMAP_NO_MAIN
#include "dofmap.cpp"
typedef std::vector<double> V;
struct Mat { int nr, nc; V d; Mat(int r, int c) : nr(r), nc(c), d(r * c) {} double& operator()(int i, int j) { return d[i + nr * j]; } double operator()(int i, int j) const { return d[i + nr * j]; } DenseMatrix<double> m() { return DenseMatrix<double>(d.data(), nr, nc); } };
static Mat generic(int nr, int nc, int salt = 0) { Mat A(nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) A(i, j) = 3 + ((i * 31 + j * 57 + i * j * 13 + salt * 7) % 97) * (((i + 2 * j + salt) % 3) ? 1 : -1) + (i == j ? 200 : 0); return A; }
static V genericv(int n, int salt = 0) { V f(n); for (int i = 0; i < n; ++i) f[i] = 5 + ((i * 41 + salt * 17) % 89) * ((i + salt) % 2 ? -1 : 1); return f; }
static std::string show(const Mat& a) { std::string s = "["; for (int i = 0; i < a.nr; ++i) { for (int j = 0; j < a.nc; ++j) s += mc::fmt("%s%g", j ? " " : "", a(i, j)); s += i + 1 < a.nr ? "; " : "]"; } return s; }
// the imposed system written down from the definition: rows I and columns J are replaced, row i <-> column j paired
struct Want { Mat A; V F; };
static Want reference(const Mat& A, const V& F, const std::vector<int>& I, const std::vector<int>& J, const V& bcJ, bool unit, bool keepF) {
    Want w{A, F}; std::vector<char> ri(A.nr), cj(A.nc); for (int i : I) ri[i] = 1; for (int j : J) cj[j] = 1;
    for (int i = 0; i < A.nr; ++i) { double f = F[i]; if (!keepF) for (size_t k = 0; k < J.size(); ++k) f -= A(i, J[k]) * bcJ[k]; for (int j = 0; j < A.nc; ++j) if (ri[i] || cj[j]) w.A(i, j) = 0; if (!ri[i]) w.F[i] = f; }
    for (size_t k = 0; k < I.size(); ++k) { w.F[I[k]] = keepF ? 0 : bcJ[k]; if (unit) w.A(I[k], J[k]) = 1; }
    return w;
}
static void same(const Mat& A, const Mat& B, const std::string& sig, const std::string& what) { mc::checked(A.d.size()); for (int i = 0; i < A.nr; ++i) for (int j = 0; j < A.nc; ++j) if (A(i, j) != B(i, j)) { mc::fail(sig, what + mc::fmt(": entry (%d,%d) is %.17g, expected %.17g", i, j, A(i, j), B(i, j))); return; } }
static void same(const V& a, const V& b, const std::string& sig, const std::string& what) { mc::checked(a.size()); for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) { mc::fail(sig, what + mc::fmt(": right side %zu is %.17g, expected %.17g", i, a[i], b[i])); return; } }
static V bcs(const std::vector<int>& J, int salt = 0) { V b; for (int j : J) b.push_back((j * 5 + salt) % 7 - 3 + (j % 2 ? 0.5 : 0)); return b; }

// every subset of the unknowns in every order, one unknown at a time
static void by_number() {
    int N = mc::thorough() ? 6 : 5;
    for (int n = 1; n <= N; ++n) for (int set = 0; set < 1 << n; ++set) {
        mc::run_case(mc::fmt("number %d set %d", n, set), "number", [&] {
            std::vector<int> S; for (int i = 0; i < n; ++i) if (set >> i & 1) S.push_back(i);
            std::vector<Mat> Ms{generic(n, n), generic(n, n, 3)}; if (n <= 3) for (int c = 0, e = pow(3, n * n); c < e; ++c) { if (n == 3 && !mc::thorough() && c % 7) continue; Mat A(n, n); int x = c; for (auto& v : A.d) v = x % 3 - 1, x /= 3; Ms.push_back(A); }
            for (auto& A : Ms) { auto p = S; V b = bcs(S); V F = genericv(n);
                Mat sy(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sy(i, j) = A(i, j) + A(j, i);
                do { V bp; for (int j : p) bp.push_back(b[std::find(S.begin(), S.end(), j) - S.begin()]);
                    auto w = reference(A, F, p, p, bp, true, false), w0 = reference(A, F, p, p, bp, true, true), wn = reference(A, F, p, p, bp, false, true);
                    { Mat X = A; V f = F; auto m = X.m(); DenseMatrix<double> Fm(f.data(), n, 1); for (size_t k = 0; k < p.size(); ++k) applyDir(m, Fm, p[k], bp[k]); same(X, w.A, "number:applyDir", "applyDir of " + show(A)); same(f, w.F, "number:applyDir", "applyDir of " + show(A)); mc::trans(p.size()); mc::state(); }
                    { Mat X = A; auto m = X.m(); for (int k : p) applyDirMatrix(m, k); same(X, w.A, "number:applyDirMatrix", "applyDirMatrix of " + show(A)); }
                    { V f = F; DenseMatrix<double> Fm(f.data(), n, 1); for (int k : p) applyDirResidual(Fm, k); same(f, w0.F, "number:applyDirResidual", "applyDirResidual"); }
                    { Mat X = A; V f = F; auto m = X.m(); DenseMatrix<double> Fm(f.data(), n, 1); for (int k : p) applyDirNonExists(m, Fm, k); same(X, wn.A, "number:applyDirNonExists", "applyDirNonExists of " + show(A)); same(f, wn.F, "number:applyDirNonExists", "applyDirNonExists"); Mat Y = A; auto m2 = Y.m(); for (int k : p) applyDirNonExists(m2, k); same(Y, wn.A, "number:applyDirNonExists", "applyDirNonExists (matrix only)"); }
                    { Mat X = sy; V f = F; auto m = X.m(); DenseMatrix<double> Fm(f.data(), n, 1); for (size_t k = 0; k < p.size(); ++k) applyDir(m, Fm, p[k], bp[k]); bool s = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s = s && X(i, j) == X(j, i); MC_REQ(s, "number:symmetry", "symmetric matrix became unsymmetric"); }
                } while (std::next_permutation(p.begin(), p.end()));
            } });
    }
}
// a numbering, or a part of one inside a larger system
struct Target { std::string nm; std::shared_ptr<BaseDofMap> hold; std::shared_ptr<const BaseDofMap> m; std::vector<Dof> D; int shift, total; };
static Target whole(const N& r) { Target t; t.nm = r.nm; t.hold = r.make(); t.m = t.hold; t.D = r.dofs(); t.shift = 0; t.total = t.D.size(); return t; }
static Target part(const N& r, const Part& P, bool view) { Target t; t.nm = r.nm + "/"; for (int i : P.path) t.nm += mc::fmt("%d.", i); t.hold = r.make(); const BaseDofMap& c = *t.hold; const int* pd = P.path.data();
    if (view) t.m = std::make_shared<NestedDofMapView>(c.GetNestedDofMapView(pd, P.path.size())); else t.m = std::make_shared<NestedDofMap>(t.hold->GetNestedDofMap(pd, P.path.size())); t.D = P.n->dofs(); t.shift = P.g; t.total = r.dofs().size(); return t; }
static std::vector<int> chosen(const Target& t, int bits) { std::vector<int> r; for (size_t i = 0; i < t.D.size(); ++i) if (bits >> (BASE[DIMOF[t.D[i].t]] + t.D[i].nelem) & 1) r.push_back(t.shift + i); return r; }
static void one_map(const Target& t, int bits, const std::string& g) {
    auto I = chosen(t, bits); int n = t.total; auto sp = selection(bits); Mat A = generic(n, n); V F = genericv(n), dofs = genericv(n, 5), bI; for (int i : I) bI.push_back(dofs[i]); V bc(I.size(), 2.5);
    auto w0 = reference(A, F, I, I, bI, true, true), wn = reference(A, F, I, I, bI, false, true), wd = reference(A, F, I, I, bI, true, false), wc = reference(A, F, I, I, bc, true, false); std::string what = t.nm + " on " + selname(bits); auto& m = *t.m;
    mc::state(); mc::trans(7);
    { Mat X = A; auto x = X.m(); applyDirMatrix(m, x, sp); same(X, w0.A, g + ":applyDirMatrix", "applyDirMatrix " + what); }
    { V f = F; DenseMatrix<double> y(f.data(), n, 1); applyDirResidual(m, y, sp); same(f, w0.F, g + ":applyDirResidual", "applyDirResidual " + what); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), n, 1); applyDirResidual(m, x, y, sp); same(X, w0.A, g + ":applyDirResidual", "applyDirResidual(A,F) " + what); same(f, w0.F, g + ":applyDirResidual", "applyDirResidual(A,F) " + what); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), n, 1); applyDirNonExists(m, x, y, sp); same(X, wn.A, g + ":applyDirNonExists", "applyDirNonExists " + what); same(f, wn.F, g + ":applyDirNonExists", "applyDirNonExists " + what); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), n, 1); applyConstantDirByDofs(m, x, y, sp, 2.5); same(X, wc.A, g + ":applyConstantDirByDofs", "applyConstantDirByDofs " + what); same(f, wc.F, g + ":applyConstantDirByDofs", "applyConstantDirByDofs " + what); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), n, 1); applyDirByDofs(m, x, y, sp, ArrayView<const double>(dofs.data(), n)); same(X, wd.A, g + ":applyDirByDofs", "applyDirByDofs " + what); same(f, wd.F, g + ":applyDirByDofs", "applyDirByDofs " + what); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), n, 1); applyDirByDofs(m, m, x, y, sp, ArrayView<const double>(dofs.data(), n)); same(X, wd.A, g + ":both-same", "applyDirByDofs with the same map twice " + what); same(f, wd.F, g + ":both-same", "applyDirByDofs with the same map twice " + what); }
}
static void two_maps(const Target& tr, const Target& te, int bits) {
    auto J = chosen(tr, bits), I = chosen(te, bits); int nr = te.total, nc = tr.total; auto sp = selection(bits); Mat A = generic(nr, nc); V F = genericv(nr), dofs = genericv(nc, 5); std::string what = "trial " + tr.nm + ", test " + te.nm + " on " + selname(bits), g = "two-maps"; auto &m = *tr.m, &k = *te.m;
    mc::state(); mc::trans(6);
    // pairing read off the result; it has to be a bijection that keeps the element
    auto imposed = [&](const Mat& X, const V* f, const V& val, bool keepF, const char* fn) {
        std::vector<int> pi, pj; std::vector<char> used(nr);
        for (int j : J) { int c = 0, row = -1; for (int i = 0; i < nr; ++i) if (X(i, j) != 0) ++c, row = i;
            bool ok = c == 1 && X(row, j) == 1 && std::find(I.begin(), I.end(), row) != I.end() && !used[row]; if (ok) { auto &a = te.D[row - te.shift], &b = tr.D[j - tr.shift]; ok = DIMOF[a.t] == DIMOF[b.t] && a.nelem == b.nelem; used[row] = 1; }
            mc::checked(); if (!ok) { mc::fail(g + ":" + fn, std::string(fn) + " " + what + mc::fmt(": column %d holds %d nonzero entries or is tied to a wrong row (%d)", j, c, row)); return; } pi.push_back(row); pj.push_back(j); }
        V b; for (int j : pj) b.push_back(val.empty() ? 0 : val[j]); auto w = reference(A, F, pi, pj, b, true, keepF); same(X, w.A, g + ":" + fn, std::string(fn) + " " + what); if (f) same(*f, w.F, g + ":" + fn, std::string(fn) + " " + what); };
    { Mat X = A; auto x = X.m(); applyDirMatrix(m, k, x, sp); imposed(X, nullptr, {}, true, "applyDirMatrix"); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), nr, 1); applyDirResidual(m, k, x, y, sp); imposed(X, &f, {}, true, "applyDirResidual"); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), nr, 1); applyDirByDofs(m, k, x, y, sp, ArrayView<const double>(dofs.data(), nc)); imposed(X, &f, dofs, false, "applyDirByDofs"); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), nr, 1); applyConstantDirByDofs(m, k, x, y, sp, 2.5); imposed(X, &f, V(nc, 2.5), false, "applyConstantDirByDofs"); }
    auto wn = reference(A, F, I, J, V(J.size()), false, true);
    { Mat X = A; auto x = X.m(); applyDirNonExists(m, k, x, sp); same(X, wn.A, g + ":applyDirNonExists", "applyDirNonExists " + what); }
    { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), nr, 1); applyDirNonExists(m, k, x, y, sp); same(X, wn.A, g + ":applyDirNonExists", "applyDirNonExists " + what); same(f, wn.F, g + ":applyDirNonExists", "applyDirNonExists " + what); }
}
static std::array<unsigned, 4> perdim(const N& r) { auto n = r.num(); return {{n[0], n[1] + n[2], n[3] + n[4], n[5]}}; }
static void by_map() {
    auto few = few_selections(); auto T = trees(true); std::vector<int> some; for (size_t i = 0; i < few.size(); i += mc::thorough() ? 3 : 9) some.push_back(few[i]);
    for (auto& r : T) mc::run_case("map " + r.nm, sg("map", r), [&] { auto t = whole(r); if (t.total > 90) return; for (int b : some) one_map(t, b, sg("map", r)); });
    int every = 0;
    for (auto& r : T) { if (r.kind == N::U || r.dofs().size() > 45 || (++every % 5 && !mc::thorough())) continue; mc::run_case("part " + r.nm, sg("part", r), [&] { std::vector<Part> ps; parts_of(r, {}, 0, {}, ps); for (auto& P : ps) for (int v = 0; v < 2; ++v) { auto t = part(r, P, v); for (size_t i = v; i < some.size(); i += 2) one_map(t, some[i], sg("part", r)); } }); }
    // every selection
    for (auto& r : T) { if (r.dofs().size() > 10 || r.dofs().empty()) continue; for (int h = 0; h < 8; ++h) mc::run_case(mc::fmt("map-all %d ", h) + r.nm, sg("map", r), [&] { auto t = whole(r); for (int b = h << 12; b < (h + 1) << 12; ++b) one_map(t, b, sg("map", r)); }); }
    // trial and test numbered differently, the same number of unknowns on every element
    size_t np = 0;
    for (size_t a = 0; a < T.size(); ++a) for (size_t b = 0; b < T.size(); ++b) { if (a == b || perdim(T[a]) != perdim(T[b]) || T[a].dofs().size() > 45 || T[a].dofs().empty()) continue; if (!mc::thorough() && T[a].dofs().size() > 20 && ++np % 3) continue;
        mc::run_case("pair " + T[a].nm + " " + T[b].nm, "two-maps", [&] { auto p = whole(T[a]), q = whole(T[b]); for (size_t i = (a + b) % 3; i < some.size(); i += 3) two_maps(p, q, some[i]); }); }
    // parts of larger systems
    struct S { const N* r; Part p; }; std::vector<S> ps; for (auto& r : T) { if (r.kind == N::U || r.dofs().size() > 24) continue; std::vector<Part> v; parts_of(r, {}, 0, {}, v); for (auto& P : v) if (!P.n->dofs().empty() && ps.size() < (mc::thorough() ? 400u : 160u)) ps.push_back({&r, P}); }
    for (size_t a = 0; a < ps.size(); ++a) for (size_t b = 0; b < ps.size(); ++b) { if (perdim(*ps[a].p.n) != perdim(*ps[b].p.n)) continue;
        mc::run_case(mc::fmt("parts %zu %zu", a, b), "two-maps", [&] { auto p = part(*ps[a].r, ps[a].p, false), q = part(*ps[b].r, ps[b].p, true); for (size_t i = (a + b) % 5; i < some.size(); i += 5) { auto I = chosen(p, some[i]), J = chosen(q, some[i]); if (p.total == q.total && I == J) { if (*p.m == *q.m) one_map(p, some[i], "part"); else two_maps(p, q, some[i]); } else two_maps(p, q, some[i]); } }); }
}
// rotated components.  Reference: the system after the change of test functions, then substitution of V u = b
static std::vector<Mat> rotations(int d) {
    std::vector<Mat> r; std::vector<int> p(d); std::iota(p.begin(), p.end(), 0);
    do for (int s = 0; s < 1 << d; ++s) { if (d == 3 && s && s != 5) continue; Mat Q(d, d); for (int i = 0; i < d; ++i) Q(i, p[i]) = s >> i & 1 ? -1 : 1; r.push_back(Q); } while (std::next_permutation(p.begin(), p.end()));
    if (d == 2) { Mat Q(2, 2); Q(0, 0) = 0.6, Q(0, 1) = 0.8, Q(1, 0) = -0.8, Q(1, 1) = 0.6; r.push_back(Q); std::swap(Q(1, 0), Q(0, 0)); std::swap(Q(1, 1), Q(0, 1)); r.push_back(Q); }
    if (d == 3) { Mat Q(3, 3); double q[9] = {2, -2, 1, 1, 2, 2, -2, -1, 2}; for (int i = 0; i < 9; ++i) Q(i / 3, i % 3) = q[i] / 3; r.push_back(Q); double h = sqrt(0.5); Mat R(3, 3); R(0, 0) = h, R(0, 1) = h, R(1, 0) = -h, R(1, 1) = h, R(2, 2) = 1; r.push_back(R); double c[9] = {6, -2, 3, 3, 6, -2, -2, 3, 6}; for (int i = 0; i < 9; ++i) Q(i / 3, i % 3) = c[i] / 7; r.push_back(Q); }
    return r;
}
static void near(const V& a, const V& b, double scale, const std::string& sig, const std::string& what) { mc::checked(a.size()); for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-11 * scale)) { mc::fail(sig, what + mc::fmt(": entry %zu is %.17g, expected %.17g", i, a[i], b[i])); return; } }
struct VecWant { Mat A; V F; };
static VecWant vec_reference(const Mat& A, const V& F, const std::vector<unsigned>& id, const Mat& Q, const std::vector<unsigned>& K, const V& bc) {
    int d = Q.nr; Mat R = A; V G = F;
    for (int m = 0; m < d; ++m) { for (int j = 0; j < A.nc; ++j) { double s = 0; for (int p = 0; p < d; ++p) s += Q(m, p) * A(id[p], j); R(id[m], j) = s; } double s = 0; for (int p = 0; p < d; ++p) s += Q(m, p) * F[id[p]]; G[id[m]] = s; }
    // substitute u = (I - V^T V) u + V^T b
    Mat X = R; V H = G;
    for (int i = 0; i < A.nr; ++i) { for (int l = 0; l < d; ++l) { double s = R(i, id[l]); for (unsigned k : K) { double c = 0; for (int p = 0; p < d; ++p) c += R(i, id[p]) * Q(k, p); s -= c * Q(k, l); } X(i, id[l]) = s; } for (size_t k = 0; k < K.size(); ++k) for (int p = 0; p < d; ++p) H[i] -= R(i, id[p]) * Q(K[k], p) * bc[k]; }
    for (size_t k = 0; k < K.size(); ++k) { for (int j = 0; j < A.nc; ++j) X(id[K[k]], j) = 0; for (int p = 0; p < d; ++p) X(id[K[k]], id[p]) = Q(K[k], p); H[id[K[k]]] = bc[k]; }
    return {X, H};
}
static bool solve(Mat A, V f, V& u) { int n = A.nr; for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i; if (std::fabs(A(p, k)) < 1e-9) return false; if (p != k) { for (int j = 0; j < n; ++j) std::swap(A(p, j), A(k, j)); std::swap(f[p], f[k]); } for (int i = k + 1; i < n; ++i) { double c = A(i, k) / A(k, k); for (int j = k; j < n; ++j) A(i, j) -= c * A(k, j); f[i] -= c * f[k]; } } u.assign(n, 0); for (int k = n - 1; k >= 0; --k) { double s = f[k]; for (int j = k + 1; j < n; ++j) s -= A(k, j) * u[j]; u[k] = s / A(k, k); } return true; }
static void rotated() {
    int N = mc::thorough() ? 6 : 5;
    for (int d = 1; d <= 3; ++d) { auto Qs = rotations(d);
        for (size_t iq = 0; iq < Qs.size(); ++iq) for (int n = d; n <= N; ++n) for (int ex = -1; ex <= 1; ++ex) {
            // every ordered choice of the rotated unknowns
            std::vector<unsigned> id(d); int tot = 1; for (int i = 0; i < d; ++i) tot *= n;
            for (int c = 0; c < tot; ++c) { int x = c; bool ok = true; for (int i = 0; i < d; ++i) { id[i] = x % n; x /= n; for (int j = 0; j < i; ++j) ok = ok && id[j] != id[i]; } if (!ok) continue;
                mc::run_case(mc::fmt("rotated d%d q%zu n%d+%d ids%d", d, iq, n, ex, c), mc::fmt("rotated:%d", d), [&] {
                    auto& Q = Qs[iq]; int nr = n + (ex > 0), nc = n + (ex < 0); Mat A = generic(nr, nc); V F = genericv(nr); DenseMatrix<double> Vo(const_cast<double*>(Q.d.data()), d, d);
                    for (int ks = 0; ks < 1 << d; ++ks) { std::vector<unsigned> K; for (int i = 0; i < d; ++i) if (ks >> i & 1) K.push_back(i);
                        do { bool prefix = true; for (size_t i = 0; i < K.size(); ++i) prefix = prefix && K[i] == i; V bc; for (unsigned k : K) bc.push_back(1.5 - k * 2.25); auto w = vec_reference(A, F, id, Q, K, bc);
                            for (int nul = 0; nul <= (prefix ? 1 : 0); ++nul) { const unsigned* dc = nul ? nullptr : K.data(); if (!nul && K.empty()) { static unsigned z; dc = &z; } unsigned nd = K.size(); mc::state(); mc::trans(5);
                                std::string what = mc::fmt("d=%d rotation %s unknowns %u.. fixed rows", d, show(Q).c_str(), id[0]); for (unsigned k : K) what += mc::fmt(" %u", k); if (nul) what += " (default)"; std::string g = nd > 1 ? ":several" : nd ? ":one" : ":none";
                                const double CAN = 7.0e77; size_t ms = d * std::max(nr, nc);
                                { Mat X = A; auto x = X.m(); V mem(ms + 8, CAN); applyVectorDirMatrix(x, id.data(), Vo, ArrayView<double>(mem.data() + 4, ms), nd, dc); near(X.d, w.A.d, 300, "rotated:matrix" + g, "applyVectorDirMatrix " + what); for (int i = 0; i < 4; ++i) MC_REQ(mem[i] == CAN && mem[4 + ms + i] == CAN, "rotated:memory", "applyVectorDirMatrix writes past its work memory, %s", what.c_str()); }
                                { Mat X = A; V f = F; auto x = X.m(); DenseMatrix<double> y(f.data(), nr, 1); V mem(ms + 8, CAN), b = bc; b.resize(d + 1); applyVectorDir(x, y, id.data(), Vo, ArrayView<double>(b.data(), nd), ArrayView<double>(mem.data() + 4, ms), nd, dc); near(X.d, w.A.d, 300, "rotated:matrix" + g, "applyVectorDir " + what); near(f, w.F, 1000, "rotated:rhs" + g, "applyVectorDir " + what); for (int i = 0; i < 4; ++i) MC_REQ(mem[i] == CAN && mem[4 + ms + i] == CAN, "rotated:memory", "applyVectorDir writes past its work memory, %s", what.c_str());
                                    V u; if (nr == nc && solve(X, f, u)) { for (size_t k = 0; k < K.size(); ++k) { double s = 0; for (int p = 0; p < d; ++p) s += Q(K[k], p) * u[id[p]]; MC_REQ(std::fabs(s - bc[k]) < 1e-9, "rotated:solution" + g, "%s: condition %zu: solution has %g, prescribed %g", what.c_str(), k, s, bc[k]); }
                                        // equations of the untouched test functions and of the free rotated ones hold with the original matrix
                                        V res(nr); for (int i = 0; i < nr; ++i) { res[i] = -F[i]; for (int j = 0; j < nc; ++j) res[i] += A(i, j) * u[j]; }
                                        for (int i = 0; i < nr; ++i) { if (std::find(id.begin(), id.end(), (unsigned)i) == id.end()) MC_REQ(std::fabs(res[i]) < 1e-7, "rotated:solution" + g, "%s: equation %d is left with residual %g", what.c_str(), i, res[i]); }
                                        for (int m = 0; m < d; ++m) if (std::find(K.begin(), K.end(), (unsigned)m) == K.end()) { double s = 0; for (int p = 0; p < d; ++p) s += Q(m, p) * res[id[p]]; MC_REQ(std::fabs(s) < 1e-7, "rotated:solution" + g, "%s: free direction %d is left with residual %g", what.c_str(), m, s); } } }
                                { V f = F; DenseMatrix<double> y(f.data(), nr, 1); V mem(d + 8, CAN); applyVectorDirResidual(y, id.data(), Vo, ArrayView<double>(mem.data() + 4, d), nd, dc); V h = F; for (int m = 0; m < d; ++m) { double s = 0; for (int p = 0; p < d; ++p) s += Q(m, p) * F[id[p]]; h[id[m]] = s; } for (unsigned k : K) h[id[k]] = 0; near(f, h, 300, "rotated:residual" + g, "applyVectorDirResidual " + what); for (int i = 0; i < 4; ++i) MC_REQ(mem[i] == CAN && mem[4 + d + i] == CAN, "rotated:memory", "applyVectorDirResidual writes past its work memory"); }
                                // a row and a column of the same system outside the rotated unknowns
                                for (int j = 0; j < nc; ++j) { if (std::find(id.begin(), id.end(), (unsigned)j) != id.end()) continue; V col(nr), want(nr); for (int i = 0; i < nr; ++i) col[i] = A(i, j), want[i] = w.A(i, j); ArrayView<double> B(col.data(), nr); V mem(d + 8, CAN); applyVectorDirMatrixExtCol(B, id.data(), Vo, ArrayView<double>(mem.data() + 4, d), nd, dc); near(col, want, 300, "rotated:column" + g, "applyVectorDirMatrixExtCol " + what); for (int i = 0; i < 4; ++i) MC_REQ(mem[i] == CAN && mem[4 + d + i] == CAN, "rotated:memory", "applyVectorDirMatrixExtCol writes past its work memory"); }
                                for (int i = 0; i < nr; ++i) { if (std::find(id.begin(), id.end(), (unsigned)i) != id.end()) continue; V row(nc), want(nc); for (int j = 0; j < nc; ++j) row[j] = A(i, j), want[j] = w.A(i, j); ArrayView<double> C(row.data(), nc); applyVectorDirMatrixExtRow(C, id.data(), Vo, nd, dc); near(row, want, 300, "rotated:row" + g, "applyVectorDirMatrixExtRow " + what); }
                            }
                        } while (std::next_permutation(K.begin(), K.end())); }
                }); } } }
}
static void body() { std::string v = mc::opt().variant; if (v == "number") by_number(); else if (v == "map") by_map(); else rotated(); }
MC_MAIN(body)
