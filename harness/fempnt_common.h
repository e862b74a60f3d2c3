// Shared by fempnt_ct.cpp and fempnt_rt.cpp: discrete functions, points, reference values of D * Op(u).
#pragma once
#include "femint.h"
// point sets: one point, all vertices and an outside point, 24 points (the static default), 30 points (more than the static default)
inline const std::vector<L4>& pset(int k) {
    static std::vector<std::vector<L4>> s;
    if (s.empty()) {
        s.push_back({{0.2, 0.3, 0.1, 0.4}});
        s.push_back({{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {-0.25, 0.5, 0.5, 0.25}});
        auto l = ref::lattice(4, true);
        s.push_back(std::vector<L4>(l.begin() + 5, l.begin() + 29)); s.push_back(std::vector<L4>(l.begin(), l.begin() + 30));
        std::vector<L4> many; for (auto& p : ref::lattice(6, false)) many.push_back(p); s.push_back(many);       // 84
    }
    return s[k];
}
struct PntSet {
    std::vector<double> XYL, X; int q;
    PntSet(BatchRef& B, const std::vector<L4>& P) { q = P.size(); for (auto& l : P) { for (double v : l) XYL.push_back(v); auto x = B.cell[0].G.x(l); for (double v : x) X.push_back(v); } }
    ArrayView<> L() { return ArrayView<>(XYL.data(), XYL.size()); }
    ArrayView<const double> Xv() { return ArrayView<const double>(X.data(), X.size()); }
};
inline double dof_val(int i, int r) { return Coef::noise(7 * i + 3 * r + 2) * (1 + 0.1 * ((i * 5 + r) % 7)); }
inline std::vector<double> make_dofs(int nfa, int f) { std::vector<double> d(nfa * f); for (int r = 0; r < f; ++r) for (int i = 0; i < nfa; ++i) d[i + nfa * r] = dof_val(i, r); return d; }
// reference: rows of Op(u) (Ddim1 == 0) or D Op(u) at every point of cell r: E[d + rows * n]
inline double ref_apply(BatchRef& B, int r, const OpS& U, const std::vector<L4>& P, int pk, int Ddim1, const Coef* c, std::vector<double>& E) {
    int nU = U.nfa(), dU = U.dim(), q = P.size(), rows = Ddim1 ? Ddim1 : dU;
    std::vector<ref::Pt> rule; for (auto& l : P) rule.push_back({l, 1});
    auto& uv = g_vals.get(ref::cube_tets(true).name[B.b.id[r]], B.cell[r], U, mc::fmt("pset%d.%d", pk, q), rule);
    E.assign(rows * q, 0); double mag = 0;
    std::vector<double> v(dU);
    for (int n = 0; n < q; ++n) {
        std::fill(v.begin(), v.end(), 0);
        for (int i = 0; i < nU; ++i) for (int d = 0; d < dU; ++d) { v[d] += dof_val(i, r) * uv[(n * nU + i) * dU + d]; mag = std::max(mag, std::fabs(v[d])); }
        if (!Ddim1) { for (int d = 0; d < dU; ++d) E[d + rows * n] = v[d]; continue; }
        auto x = B.cell[r].G.x(P[n]);
        for (int i = 0; i < Ddim1; ++i) for (int j = 0; j < dU; ++j) E[i + rows * n] += c->at(x.data(), r, Ddim1, dU, i, j) * v[j];
    }
    return mag;
}
inline bool check_apply(const std::string& sig, BatchRef& B, const OpS& U, int pk, int Ddim1, const Coef* c, const OutMat& A, bool check_shape, const std::string& how) {
    auto& P = pset(pk); int q = P.size(), rows = Ddim1 ? Ddim1 : U.dim();
    if (!A.intact()) { mc::fail("out-of-bounds:" + sig, how + ": values outside the output were changed"); return false; }
    if (check_shape && ((int)A.M.nRow != rows * q || (int)A.M.nCol != B.f())) { mc::fail("shape:" + sig, how + mc::fmt(": output is %d x %d, expected %d x %d", (int)A.M.nRow, (int)A.M.nCol, rows * q, B.f())); return false; }
    std::vector<double> E; uint64_t h = 3;
    for (int r = 0; r < B.f(); ++r) {
        double mag = ref_apply(B, r, U, P, pk, Ddim1, c, E);
        for (int k = 0; k < rows * q; ++k) {
            double g = A[k + (size_t)rows * q * r];
            mc::checked();
            if (!same_mat(g, E[k], 4 * mag)) { mc::fail(sig, how + mc::fmt(": cell %d of %d, point %d of %d, component %d: %.15g, expected %.15g", r, B.f(), k / rows, q, k % rows, g, E[k])); return false; }
            h = mc::mix(h, (uint64_t)(int64_t)std::llround(std::max(-1e12, std::min(1e12, g * 1e5))));
        }
    }
    if (g_bad) { mc::fail("functor:" + sig, how + (g_bad == 1 ? ": coefficient called with wrong dimensions" : ": user data not passed on")); g_bad = 0; return false; }
    mc::outcome(h); mc::state();
    return true;
}
inline std::vector<std::vector<int>> cell_sequences(int maxlen) {
    std::vector<int> cells = {5, 700, 1111, 333}; std::vector<std::vector<int>> seqs, cur{{}};
    for (int l = 1; l <= maxlen; ++l) { std::vector<std::vector<int>> nx; for (auto& s : cur) for (int c : cells) { auto t = s; t.push_back(c); nx.push_back(t); } cur = nx; for (auto& s : nx) seqs.push_back(s); }
    for (int l : {7, 19}) { std::vector<int> q; for (int i = 0; i < l; ++i) q.push_back((i * 97 + l * 31) % 1392); seqs.push_back(q); }   // long ones, all cells different
    return seqs;
}
inline std::vector<std::vector<int>> spread_batches(int cnt) {
    std::vector<std::vector<int>> r;
    for (int k = 0; k < cnt; ++k) { std::vector<int> b; for (int i = 0; i <= k % 4; ++i) b.push_back((57 + 409 * k + 523 * i) % 1392); r.push_back(b); }
    return r;
}
