// Shared by the finite element operator checks (femop.cpp: compile-time and run-time forms of the same spaces; femrt.cpp: run-time space trees).
#pragma once
#include "mc.h"
#include "femref.h"
using namespace Ani;
using ref::R; using ref::L4; using ref::V3;

static const char* variant() { return mc::opt().variant.c_str(); }
static bool close(R a, R b, R scale) { return std::fabs(a - b) <= 1e-10 * (scale + 1); }
static DynMem<> g_wmem;

// tetra subset used for a space with n functions: every ordered tetrahedron for small spaces, one even and one odd order of every shape for the large ones
static std::vector<int> tet_subset(int nfa) {
    auto& L = ref::cube_tets(true);
    std::vector<int> r;
    for (size_t i = 0; i < L.t.size(); ++i) {
        int p = L.perm[i];
        if (mc::thorough() || nfa <= 12 || (nfa <= 40 && p % 3 == 1) || p == 3 || p == 22) r.push_back(i);
    }
    return r;
}
static const std::vector<L4>& points() { static std::vector<L4> p = ref::lattice(4, true); return p; }
static int pick_f(int nfa, size_t k) { (void)nfa; return 1 + k % 3; }

// all values of operator op of all basis functions on a batch of cells, from the library: out[((r*nfa+i)*q+n)*dim+d]
template<class Apply> static void all_columns(int nfa, int dim, int f, int q, Apply&& apply, std::vector<R>& out) {
    out.assign((size_t)nfa * f * q * dim, 1e300);
    std::vector<double> dofs(nfa * f), res((size_t)dim * q * f);
    for (int i = 0; i < nfa; ++i) {
        std::fill(dofs.begin(), dofs.end(), 0);
        for (int r = 0; r < f; ++r) dofs[(i + r) % nfa + nfa * r] = 1;          // another function on every cell of the batch
        std::fill(res.begin(), res.end(), 1e77);
        DenseMatrix<> D(dofs.data(), nfa, f), U(res.data(), dim * q, f);
        apply(D, U);
        for (int r = 0; r < f; ++r)
            for (int n = 0; n < q; ++n) for (int d = 0; d < dim; ++d)
                out[(((size_t)r * nfa + (i + r) % nfa) * q + n) * dim + d] = res[d + dim * (n + (size_t)q * r)];
    }
}
struct Batch { std::vector<double> xy[4]; std::vector<int> id; };
static Batch make_batch(const std::vector<int>& ids) {
    Batch b; b.id = ids;
    auto& L = ref::cube_tets(true);
    for (int v = 0; v < 4; ++v) for (int id : ids) for (int k = 0; k < 3; ++k) b.xy[v].push_back(L.t[id][v][k]);
    return b;
}
static std::string key(const char* w, const std::string& sp, int op, const std::vector<int>& ids) {
    auto& L = ref::cube_tets(true);
    std::string s = std::string(w) + " " + sp + " " + ref::op_name(op);
    for (int i : ids) s += " " + L.name[i];
    return s;
}
static void compare(const char* w, const ref::RSp& sp, int op, const Batch& b, const std::vector<L4>& P, const std::vector<R>& got) {
    int nfa = sp.nfa(), dim = ref::op_dim(op, sp.dim()), q = P.size(), f = b.id.size();
    auto& L = ref::cube_tets(true);
    std::vector<R> ex(dim);
    uint64_t h = 1;
    for (int r = 0; r < f; ++r) {
        ref::Cell c(L.t[b.id[r]]);
        for (int n = 0; n < q; ++n) {
            auto v = c.eval(sp, P[n]);
            for (int i = 0; i < nfa; ++i) {
                ref::op_rows(op, v, i, ex.data());
                R sc = 0; for (R x : ex) sc = std::max(sc, std::fabs(x));
                for (int d = 0; d < dim; ++d) {
                    R g = got[(((size_t)r * nfa + i) * q + n) * dim + d];
                    mc::checked();
                    if (!close(g, ex[d], sc)) { mc::fail(std::string(w) + ":" + sp.name() + ":" + ref::op_name(op),
                        mc::fmt("%s %s of basis function %d component %d on cell %d of the batch at (%g %g %g %g): %.15g, expected %.15g", sp.name().c_str(), ref::op_name(op), i, d, r, P[n][0], P[n][1], P[n][2], P[n][3], g, ex[d])); return; }
                }
            }
            mc::state();
        }
        h = mc::mix(h, b.id[r]);
    }
    mc::outcome(mc::mix(h, std::hash<std::string>()(sp.name()) + op));
}

// ---- run-time operators of the same composition
static void rt_ops(const ref::RSp& sp, const char* w, std::function<FemSpace()> make, int few, int off = 0) {   // few > 0: only that many batches, starting at a moving place
    int nfa = sp.nfa();
    auto& P = points();
    std::vector<int> ops = {IDEN, GRAD, DUDX, DUDY, DUDZ};
    if (sp.dim() == 3) { ops.push_back(DIV); ops.push_back(CURL); }
    for (int op : ops) {
        auto ids = tet_subset(few ? 1 : nfa);
        int dim = ref::op_dim(op, sp.dim());
        for (size_t k0 = 0; k0 < (few ? (size_t)few : ids.size()); ++k0) {
            size_t k = few ? (off * 37 + k0 * 611) % ids.size() : k0;
            int f = pick_f(nfa, few ? off + k0 : k);
            std::vector<int> bt; for (int r = 0; r < f; ++r) bt.push_back(ids[(k + r * 7) % ids.size()]);
            mc::run_case(key(w, sp.name(), op, bt) + (few ? mc::fmt(" #%d", off) : ""), w, [&] {
                FemSpace s = make();
                auto A = s.getOP((OperatorType)op);
                std::string sg = std::string(w) + ":sizes:" + sp.name();
                MC_REQ((int)A.Nfa() == nfa, sg, "number of functions %d, expected %d", (int)A.Nfa(), nfa);
                MC_REQ((int)A.Dim() == dim, sg, "dimension %d, expected %d", (int)A.Dim(), dim);
                MC_REQ((int)s.dimOP((OperatorType)op) == dim, sg, "dimOP %d, expected %d", (int)s.dimOP((OperatorType)op), dim);
                MC_REQ((int)s.dim() == sp.dim(), sg, "dim %d, expected %d", (int)s.dim(), sp.dim());
                MC_REQ((int)A.Order() >= ref::op_deg(op, sp), std::string(w) + ":order:" + sp.name(), "%s: advertised polynomial order %d is below the degree %d", ref::op_name(op), (int)A.Order(), ref::op_deg(op, sp));
                Batch b = make_batch(bt);
                std::vector<double> XYL; for (auto& l : P) for (double x : l) XYL.push_back(x);
                std::vector<R> got;
                all_columns(nfa, dim, f, P.size(), [&](DenseMatrix<>& D, DenseMatrix<>& U) {
                    auto XYZ = make_tetras((const double*)b.xy[0].data(), (const double*)b.xy[1].data(), (const double*)b.xy[2].data(), (const double*)b.xy[3].data(), f);
                    fem3DapplyL(XYZ, ArrayView<>(XYL.data(), XYL.size()), D, A, U, g_wmem);
                    mc::trans();
                }, got);
                compare(w, sp, op, b, P, got);
            });
        }
    }
}
// ---- degrees of freedom: functional i of basis function j is delta_ij
// unions mixing a face or edge space with others: see known_findings.txt; functionals of one part on functions of another part get their own failure class
static bool has_vector_part(const ref::RSp& sp) {
    if (sp.kind == ref::FIX) return sp.fix == FEM_RT0 || sp.fix == FEM_ND0;
    for (auto& c : sp.ch) if (has_vector_part(c)) return true;
    return false;
}
// name of the union in which i and j belong to different parts, if it contains a face or edge space; empty otherwise
static std::string mixed_union(const ref::RSp& sp, int i, int j) {
    if (sp.kind == ref::FIX || i < 0 || j < 0) return "";
    if (sp.kind == ref::VEC) { int n = sp.ch[0].nfa(); return i / n == j / n ? mixed_union(sp.ch[0], i % n, j % n) : ""; }
    for (auto& c : sp.ch) {
        int n = c.nfa(); bool ii = i < n, jj = j < n;
        if (ii && jj) return mixed_union(c, i, j);
        if (ii != jj) return sp.kind == ref::UNI && jj && has_vector_part(sp) ? sp.name() : "";
        i -= n; j -= n;
    }
    return "";
}
static L4 bary(const ref::Geo& G, const V3& X) { L4 l; V3 d = ref::Geo::sub(X, G.X[0]); for (int i = 0; i < 4; ++i) l[i] = (i == 0) + ref::Geo::dot(G.g[i], d); return l; }
static void dual_check(const char* w, const ref::RSp& sp, int i, int j, double g, int fus, std::map<std::string, std::string>& mixed) {
    mc::checked();
    if (close(g, i == j, 1)) return;
    std::string t = mc::fmt("%s: functional %d of basis function %d is %.15g (fused %d)", sp.name().c_str(), i, j, g, fus);
    std::string u = mixed_union(sp, i, j);
    if (!u.empty()) { mixed.emplace(u, t); return; }
    mc::fail(std::string(w) + ":" + sp.name(), t);
}
static void dof_rt(const ref::RSp& sp, const std::function<FemSpace()>& make, const char* w, int id) {
    int nfa = sp.nfa(), dim = sp.dim(), order = std::max(sp.deg(), 1) + 1;
    auto& L = ref::cube_tets(true);
    ref::Cell c(L.t[id]);
    Batch b = make_batch({id});
    Tetra<const double> XYZ(b.xy[0].data(), b.xy[1].data(), b.xy[2].data(), b.xy[3].data());
    FemSpace s = make();
    std::map<std::string, std::string> mixed;
    for (int j = 0; j < nfa; ++j) for (int fus = 1; fus <= 2; ++fus) {
        auto func = [&](const std::array<double, 3>& X, double* res, unsigned, void*) -> int {
            auto v = c.eval(sp, bary(c.G, X));
            for (int r = 0; r < fus; ++r) for (int q = 0; q < dim; ++q) res[r * dim + q] = v.v((j + r) % nfa, q);
            return 0;
        };
        std::vector<double> w0(nfa, -7), w1(nfa, -7);
        ArrayView<> uu[2] = {ArrayView<>(w0.data(), nfa), ArrayView<>(w1.data(), nfa)};
        for (int i = 0; i < nfa; ++i) {
            if (fus == 1 && i % 2) s.interpolateOnDOF(XYZ, func, uu[0], i, g_wmem, nullptr, order);
            else s.interpolateOnDOF(XYZ, func, uu, i, fus, g_wmem, nullptr, order);
            mc::trans();
            for (int k = i + 1; k < nfa; ++k) for (int r = 0; r < fus; ++r) MC_REQ((r ? w1 : w0)[k] == -7, std::string(w) + "-other:" + sp.name(), "interpolating functional %d changed coefficient %d", i, k);
        }
        for (int r = 0; r < fus; ++r) for (int i = 0; i < nfa; ++i) dual_check(w, sp, i, (j + r) % nfa, (r ? w1 : w0)[i], fus, mixed);
    }
    mc::state();
    for (auto& m : mixed) mc::fail("dof-mixed:" + m.first, m.second);
}
