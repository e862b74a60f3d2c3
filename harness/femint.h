// Shared by the integration checks: reference element matrices, coefficient tensors in every declared form, guarded work memory.
#pragma once
#include "femop_common.h"
using ref::RSp;
#include <limits>

// ---- operators
struct OpS {
    RSp sp; int op;
    int dim() const { return ref::op_dim(op, sp.dim()); }
    int nfa() const { return sp.nfa(); }
    int deg() const { return ref::op_deg(op, sp); }
    std::string name() const { return std::string(ref::op_name(op)) + "." + sp.name(); }
};
inline std::vector<OpS> ops_of(const RSp& s, bool partial = true) {
    std::vector<OpS> r{{s, IDEN}, {s, GRAD}};
    if (partial) { r.push_back({s, DUDX}); r.push_back({s, DUDY}); r.push_back({s, DUDZ}); }
    if (s.dim() == 3) { r.push_back({s, DIV}); r.push_back({s, CURL}); }
    return r;
}

// ---- coefficients
enum Variation { VConst, VCell, VPoint };
static int g_tag;             // user_data must arrive as &g_tag
static int g_bad;             // set when a functor is called with wrong arguments
struct Coef {
    int kind = TENSOR_GENERAL, var = VPoint;
    // is the "scalar on a single scalar function" form: every row gets the same value
    static double noise(int k) { static const double t[] = {0.7, -0.4, 1.3, 0.25, -1.1, 0.9, 0.35, -0.65, 1.45, 0.15, -0.85, 0.55}; return t[k % 12] + 0.03 * (k % 7); }
    double scal(const double* x, int r) const {
        double s = 1.7; if (var == VCell) s += 0.6 * r; if (var == VPoint) s += 0.3 * x[0] - 0.5 * x[1] + 0.2 * x[2] + 0.4 * r; return s;
    }
    double at(const double* x, int r, int R, int C, int i, int j) const {
        switch (kind) {
            case TENSOR_NULL: return R == C ? i == j : 1;
            case TENSOR_SCALAR: return R == C ? (i == j) * scal(x, r) : scal(x, r);
            case TENSOR_SYMMETRIC: { int a = std::min(i, j), b = std::max(i, j); double v = noise(3 * a + 5 * b); if (var == VCell) v += 0.2 * r * (1 + a * b); if (var == VPoint) v += 0.1 * (a + b + 1) * x[0] - 0.2 * (1 + a * b) * x[1] + 0.3 * x[2] + 0.15 * r; return v; }
            default: { double v = noise(5 * i + 3 * j + 1); if (var == VCell) v += 0.2 * r * (1 + i - 2 * j); if (var == VPoint) v += 0.1 * (i + 1) * x[0] - 0.2 * (j + 1) * x[1] + 0.3 * (i - j) * x[2] + 0.25 * r * (i + 1); return v; }
        }
    }
    int deg() const { return kind == TENSOR_NULL || var != VPoint ? 0 : 1; }
};
// rep: the kind the functor declares; 0 alternates between all kinds that can express the tensor (by cell for rep_by_cell, by point otherwise)
struct CoefF {
    Coef c; int rep; bool by_cell; bool constant;
    int R, C;
    bool sym_ok() const { return R == C; }
    int pick(const double* x, int r) const {
        if (rep) return rep;
        int lo = c.kind, n = 0, t[4]; for (int k = lo; k <= TENSOR_GENERAL; ++k) if (k != TENSOR_SYMMETRIC || sym_ok()) t[n++] = k;
        int h = by_cell ? r : (int)std::floor(std::fabs(x[0] * 7 + x[1] * 13 + x[2] * 29)) + r;
        return t[h % n];
    }
    void fill(int t, const double* x, int r, double* D) const {
        if (t == TENSOR_NULL) return;
        if (t == TENSOR_SCALAR) { D[0] = c.kind == TENSOR_NULL ? 1 : c.scal(x, r); return; }
        for (int j = 0; j < C; ++j) for (int i = 0; i < R; ++i) D[i + R * j] = c.at(x, r, R, C, i, j);
    }
    TensorType operator()(const std::array<double, 3>& X, double* D, TensorDims dims, void* ud, int iTet) const {
        if ((int)dims.first != R || (int)dims.second != C) g_bad = 1;
        if (ud != (void*)&g_tag) g_bad = 2;
        double x[3] = {X[0], X[1], X[2]};
        int t = pick(x, iTet);
        fill(t, x, iTet, D);
        return (TensorType)t;
    }
};
struct CoefFus {       // batch form
    CoefF p;
    TensorType operator()(ArrayView<> X, ArrayView<> D, TensorDims dims, void* ud, const AniMemory<double, int>& mem) const {
        if ((int)dims.first != p.R || (int)dims.second != p.C) g_bad = 1;
        if (ud != (void*)&g_tag) g_bad = 2;
        double z[3] = {0, 0, 0};
        int t = p.pick(p.by_cell || p.constant ? z : X.data, 0);
        if (p.constant) { p.fill(t, z, 0, D.data); if (t == TENSOR_GENERAL) for (size_t k = 1; k < mem.q * mem.f; ++k) p.fill(t, z, 0, D.data + k * p.R * p.C); return (TensorType)t; }
        for (size_t r = 0; r < mem.f; ++r) for (size_t n = 0; n < mem.q; ++n) p.fill(t, X.data + 3 * (n + mem.q * r), (int)r, D.data + p.R * p.C * (n + mem.q * r));
        return (TensorType)t;
    }
};

// ---- forms
enum FormT { FTet, FFace, FFaceN, FEdge, FNode, FPntL, FPntX };
struct Form { int t, idx; };
inline const char* form_name(int t) { static const char* n[] = {"tet", "face", "faceN", "edge", "node", "pntL", "pntX"}; return n[t]; }
inline std::vector<Form> forms(const std::vector<int>& types) {
    std::vector<Form> r;
    for (int t : types) { int n = t == FTet ? 1 : t == FFace || t == FFaceN || t == FNode ? 4 : t == FEdge ? 6 : 2; for (int i = 0; i < n; ++i) r.push_back({t, i}); }
    return r;
}
// points of the point forms: idx 0 - a single point, idx 1 - five points
inline const std::vector<L4>& pnt_pts(int idx) {
    static std::vector<L4> p[2] = {{{0.2, 0.3, 0.1, 0.4}}, {{0.1, 0.2, 0.3, 0.4}, {0, 0, 0, 1}, {0.5, 0, 0.5, 0}, {0.25, 0.25, 0.25, 0.25}, {-0.25, 0.5, 0.5, 0.25}}};
    return p[idx];
}
inline double pnt_wg(int idx, int n) { static const double w[] = {0.7, 1.1, -0.4, 0.9, 0.3}; return idx ? w[n] : 1.3; }

struct BatchRef {
    Batch b; std::vector<ref::Cell> cell;
    explicit BatchRef(const std::vector<int>& ids) : b(make_batch(ids)) { for (int i : ids) cell.emplace_back(ref::cube_tets(true).t[i]); }
    int f() const { return cell.size(); }
    std::string name() const { std::string s; for (int i : b.id) s += " " + ref::cube_tets(true).name[i]; return s; }
};
// a rule for the form: points and weights (weights include the measure)
inline void form_rule(const Form& fm, int deg, const ref::Geo& G, std::vector<ref::Pt>& r) {
    r.clear();
    double m = 1;
    switch (fm.t) {
        case FTet: r = ref::tet_rule(deg); m = G.vol; break;
        case FFace: case FFaceN: r = ref::face_rule(deg, fm.idx); m = G.face_area(fm.idx); break;
        case FEdge: r = ref::edge_rule(deg, fm.idx); m = G.edge_len(fm.idx); break;
        case FNode: { ref::Pt p; p.l = {0, 0, 0, 0}; p.l[fm.idx] = 1; p.w = 1; r.push_back(p); break; }
        default: { auto& P = pnt_pts(fm.idx); for (size_t n = 0; n < P.size(); ++n) r.push_back({P[n], pnt_wg(fm.idx, n)}); }
    }
    for (auto& p : r) p.w *= m;
}
// values of the rows of an operator at the points of a rule, cached per cell
struct ValCache {
    std::map<std::string, std::vector<double>> m; size_t bytes = 0;
    const std::vector<double>& get(const std::string& cellkey, ref::Cell& c, const OpS& o, const std::string& rulekey, const std::vector<ref::Pt>& r) {
        std::string k = cellkey + "|" + o.name() + "|" + rulekey;
        auto it = m.find(k);
        if (it != m.end()) return it->second;
        if (bytes > (size_t)200 << 20) { m.clear(); bytes = 0; }
        auto& v = m[k];
        int nf = o.nfa(), d = o.dim();
        v.resize(r.size() * nf * d); bytes += v.size() * 8 + 100;
        for (size_t n = 0; n < r.size(); ++n) { auto x = c.eval(o.sp, r[n].l); for (int i = 0; i < nf; ++i) ref::op_rows(o.op, x, i, &v[(n * nf + i) * d]); }
        return v;
    }
};
static ValCache g_vals;
// reference matrix of cell r: A[i + nV*j]; returns the magnitude of the largest sum of absolute terms
inline double ref_matrix(BatchRef& B, int r, const Form& fm, const OpS& U, const OpS& V, const Coef& c, std::vector<double>& A) {
    int deg = U.deg() + V.deg() + c.deg(), nU = U.nfa(), nV = V.nfa(), dU = U.dim(), dV = V.dim();
    ref::Cell& cell = B.cell[r];
    std::vector<ref::Pt> rule; form_rule(fm, deg, cell.G, rule);
    std::string ck = ref::cube_tets(true).name[B.b.id[r]], rk = mc::fmt("%d.%d.%d", fm.t == FFaceN ? FFace : fm.t, fm.idx, (int)rule.size());
    std::vector<double> uv = g_vals.get(ck, cell, U, rk, rule);
    const std::vector<double>& vv = g_vals.get(ck, cell, V, rk, rule);
    A.assign(nU * nV, 0);
    std::vector<double> D(dU * dV), DU(dV);
    ref::V3 nrm{0, 0, 0}; if (fm.t == FFaceN) nrm = cell.G.face_normal(fm.idx);
    double mag = 0;
    for (size_t n = 0; n < rule.size(); ++n) {
        auto x = cell.G.x(rule[n].l);
        for (int i = 0; i < dV; ++i) for (int j = 0; j < dU; ++j) {
            if (fm.t != FFaceN) D[i + dV * j] = c.at(x.data(), r, dV, dU, i, j);
            else { double s = 0; for (int k = 0; k < 3; ++k) s += nrm[k] * c.at(x.data(), r, 3 * dV, dU, 3 * i + k, j); D[i + dV * j] = s; }
        }
        for (int j = 0; j < nU; ++j) {
            for (int i = 0; i < dV; ++i) { double s = 0; for (int k = 0; k < dU; ++k) s += D[i + dV * k] * uv[(n * nU + j) * dU + k]; DU[i] = s * rule[n].w; }
            for (int i = 0; i < nV; ++i) { double s = 0; for (int k = 0; k < dV; ++k) s += DU[k] * vv[(n * nV + i) * dV + k]; A[i + nV * j] += s; }
        }
    }
    for (double a : A) mag = std::max(mag, std::fabs(a));
    return mag;
}
// dimensions of the coefficient tensor in a form
inline int coef_rows(const Form& fm, const OpS& V) { return fm.t == FFaceN ? 3 * V.dim() : V.dim(); }

// ---- work memory of exactly the advertised size, between guards (under AddressSanitizer: a block of exactly that size)
#ifdef __SANITIZE_ADDRESS__
enum { GUARD = 0 };
#else
enum { GUARD = 64 };
#endif
struct GuardedX {
    static const int G = GUARD;
    std::vector<double> d; std::vector<int> i; std::vector<DenseMatrix<>> m; PlainMemoryX<> pm;
    explicit GuardedX(const PlainMemoryX<>& req) {
        d.assign(req.dSize + 2 * G, std::numeric_limits<double>::quiet_NaN());
        i.assign(req.iSize + 2 * G, 0x5a5a5a5a);
        DenseMatrix<> x; x.data = reinterpret_cast<double*>(0x5a5a); x.nRow = x.nCol = x.size = 12345;
        m.assign(req.mSize + 2 * G, x);
        for (int k = 0; k < G; ++k) d[k] = d[d.size() - 1 - k] = 4242.25;
        pm = req; pm.ddata = d.data() + G; pm.idata = i.data() + G; pm.mdata = m.data() + G;
    }
    bool intact() const {
        for (int k = 0; k < G; ++k) {
            if (d[k] != 4242.25 || d[d.size() - 1 - k] != 4242.25 || i[k] != 0x5a5a5a5a || i[i.size() - 1 - k] != 0x5a5a5a5a) return false;
            if (m[k].nRow != 12345 || m[m.size() - 1 - k].nRow != 12345 || m[k].data != reinterpret_cast<double*>(0x5a5a) || m[m.size() - 1 - k].data != reinterpret_cast<double*>(0x5a5a)) return false;
        }
        return true;
    }
};
struct Guarded {
    static const int G = GUARD;
    std::vector<double> d; std::vector<int> i; PlainMemory<> pm;
    explicit Guarded(const PlainMemory<>& req) {
        d.assign(req.dSize + 2 * G, std::numeric_limits<double>::quiet_NaN()); i.assign(req.iSize + 2 * G, 0x5a5a5a5a);
        for (int k = 0; k < G; ++k) d[k] = d[d.size() - 1 - k] = 4242.25;
        pm = req; pm.ddata = d.data() + G; pm.idata = i.data() + G;
    }
    bool intact() const { for (int k = 0; k < G; ++k) if (d[k] != 4242.25 || d[d.size() - 1 - k] != 4242.25 || i[k] != 0x5a5a5a5a || i[i.size() - 1 - k] != 0x5a5a5a5a) return false; return true; }
};
// output matrix between guards
struct OutMat {
    std::vector<double> d; DenseMatrix<> M; size_t n;
    OutMat(int r, int c) : d(r * c + 32, 3131.5), M(d.data() + 16, r, c), n(r * c) { for (size_t k = 0; k < n; ++k) d[16 + k] = std::numeric_limits<double>::quiet_NaN(); }
    bool intact() const { for (int k = 0; k < 16; ++k) if (d[k] != 3131.5 || d[d.size() - 1 - k] != 3131.5) return false; return true; }
    double operator[](size_t k) const { return d[16 + k]; }
};
inline auto tets_of(const Batch& b) {
    return make_tetras((const double*)b.xy[0].data(), (const double*)b.xy[1].data(), (const double*)b.xy[2].data(), (const double*)b.xy[3].data(), (int)b.id.size());
}
struct PntData {
    std::vector<double> XYL, X, W;
    PntData(BatchRef& B, int idx) {
        auto& P = pnt_pts(idx);
        for (size_t n = 0; n < P.size(); ++n) { for (double v : P[n]) XYL.push_back(v); auto x = B.cell[0].G.x(P[n]); for (double v : x) X.push_back(v); W.push_back(pnt_wg(idx, n)); }
    }
};
enum Mode { MPlain, MDyn };
// run a form with run-time operators
template<class Tr, class F> static void run_rt(const Form& fm, BatchRef& B, const ApplyOpBase& U, const ApplyOpBase& V, const F& fn, DenseMatrix<>& A, int mode, int order, bool* guards_ok) {
    auto XYZ = tets_of(B.b);
    int f = B.f(); void* ud = &g_tag;
    PntData P(B, fm.t == FPntL || fm.t == FPntX ? fm.idx : 0);
    ArrayView<> XYL(P.XYL.data(), P.XYL.size()), W(P.W.data(), P.W.size()); ArrayView<const double> X(P.X.data(), P.X.size());
    Tetra<const double> T(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
    if (mode == MDyn) {
        switch (fm.t) {
            case FTet: fem3Dtet<Tr>(XYZ, U, V, fn, A, g_wmem, order, ud); break;
            case FFace: fem3Dface<Tr>(XYZ, fm.idx, U, V, fn, A, g_wmem, order, ud); break;
            case FFaceN: fem3DfaceN<Tr>(XYZ, fm.idx, U, V, fn, A, g_wmem, order, ud); break;
            case FEdge: fem3Dedge<Tr>(XYZ, fm.idx, U, V, fn, A, g_wmem, order, ud); break;
            case FNode: fem3Dnode<Tr>(XYZ, fm.idx, U, V, fn, A, g_wmem, ud); break;
            case FPntL: fem3DpntL<Tr>(XYZ, XYL, W, U, V, fn, A, g_wmem, ud); break;
            case FPntX: fem3DpntX<Tr>(T, X, W, U, V, fn, A, g_wmem, ud); break;
        }
    } else {
        PlainMemoryX<> rq;
        switch (fm.t) {
            case FTet: rq = fem3Dtet_memory_requirements<Tr>(U, V, order, f); break;
            case FFace: rq = fem3Dface_memory_requirements<Tr>(U, V, order, f); break;
            case FFaceN: rq = fem3DfaceN_memory_requirements<Tr>(U, V, order, f); break;
            case FEdge: rq = fem3Dedge_memory_requirements<Tr>(U, V, order, f); break;
            case FNode: rq = fem3Dnode_memory_requirements<Tr>(U, V, f); break;
            case FPntL: rq = fem3DpntL_memory_requirements<Tr>(U, V, W.size, f); break;
            case FPntX: rq = fem3DpntX_memory_requirements<Tr>(U, V, W.size, 1); break;
        }
        GuardedX g(rq);
        switch (fm.t) {
            case FTet: fem3Dtet<Tr>(XYZ, U, V, fn, A, g.pm, order, ud); break;
            case FFace: fem3Dface<Tr>(XYZ, fm.idx, U, V, fn, A, g.pm, order, ud); break;
            case FFaceN: fem3DfaceN<Tr>(XYZ, fm.idx, U, V, fn, A, g.pm, order, ud); break;
            case FEdge: fem3Dedge<Tr>(XYZ, fm.idx, U, V, fn, A, g.pm, order, ud); break;
            case FNode: fem3Dnode<Tr>(XYZ, fm.idx, U, V, fn, A, g.pm, ud); break;
            case FPntL: fem3DpntL<Tr>(XYZ, XYL, W, U, V, fn, A, g.pm, ud); break;
            case FPntX: fem3DpntX<Tr>(T, X, W, U, V, fn, A, g.pm, ud); break;
        }
        if (guards_ok) *guards_ok = g.intact();
    }
    mc::trans();
}
inline bool same_mat(double a, double b, double scale) { return std::fabs(a - b) <= 2e-10 * (scale + 1); }
// compare the output of a form with the reference, cell by cell
inline bool check_mat(const std::string& sig, BatchRef& B, const Form& fm, const OpS& U, const OpS& V, const Coef& c, const OutMat& A, const std::string& how) {
    int nU = U.nfa(), nV = V.nfa();
    if (!A.intact()) { mc::fail("out-of-bounds:" + sig, how + ": values outside the element matrix were changed"); return false; }
    if ((int)A.M.nRow != nV || (int)A.M.nCol != nU * B.f()) { mc::fail("shape:" + sig, how + mc::fmt(": matrix is %d x %d, expected %d x %d", (int)A.M.nRow, (int)A.M.nCol, nV, nU * B.f())); return false; }
    std::vector<double> E; uint64_t h = 7;
    for (size_t k = 0; k < A.n; ++k) h = mc::mix(h, (uint64_t)(int64_t)std::llround(std::max(-1e12, std::min(1e12, A[k] * 1e5))));
    mc::outcome(h);
    for (int r = 0; r < B.f(); ++r) {
        double mag = ref_matrix(B, r, fm, U, V, c, E);
        for (int j = 0; j < nU; ++j) for (int i = 0; i < nV; ++i) {
            double g = A[i + nV * (j + nU * (size_t)r)];
            mc::checked();
            if (!same_mat(g, E[i + nV * j], mag)) {
                mc::fail(sig, how + mc::fmt(": %s %d, cell %d of %d, row %d column %d: %.15g, expected %.15g", form_name(fm.t), fm.idx, r, B.f(), i, j, g, E[i + nV * j]));
                return false;
            }
        }
    }
    if (g_bad) { mc::fail("functor:" + sig, how + (g_bad == 1 ? ": coefficient called with wrong dimensions" : ": user data not passed on")); g_bad = 0; return false; }
    mc::state();
    return true;
}
// batches used by the pair passes: sizes 1, 2, 3 with cells of all shapes and orientations
inline std::vector<std::vector<int>> batches() {
    std::vector<std::vector<int>> r; auto& L = ref::cube_tets(true); int n = L.t.size();
    int cnt = mc::thorough() ? 18 : 6;
    for (int k = 0; k < cnt; ++k) { std::vector<int> b; for (int i = 0; i <= k % 3; ++i) b.push_back((101 + 397 * k + 523 * i) % n); r.push_back(b); }
    return r;
}
