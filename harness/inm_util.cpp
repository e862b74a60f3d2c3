// Z03: box meshes of the generator.  Z04: tags, values, integrals, projections and the diffusion problem of the utilities, on distributed meshes.
#include "inm_common.h"
#include "anifem++/utils/utils.h"
#include "anifem++/utils/mesh_utils.h"
#include "anifem++/utils/adapt_mesh.h"
typedef std::array<double, 3> P3d; typedef std::array<int, 3> Ex;
struct Poly { std::map<Ex, double> c;
    double operator()(const P3d& x) const { double s = 0; for (auto& t : c) s += t.second * std::pow(x[0], t.first[0]) * std::pow(x[1], t.first[1]) * std::pow(x[2], t.first[2]); return s; }
    Poly d(int k) const { Poly r; for (auto& t : c) if (t.first[k]) { Ex e = t.first; --e[k]; r.c[e] += t.second * t.first[k]; } return r; }
    Poly& add(const Poly& o, double f = 1) { for (auto& t : o.c) c[t.first] += f * t.second; return *this; }
    Poly operator*(const Poly& o) const { Poly r; for (auto& a : c) for (auto& b : o.c) r.c[{a.first[0] + b.first[0], a.first[1] + b.first[1], a.first[2] + b.first[2]}] += a.second * b.second; return r; } };
static Poly mono(int a, int b, int c, double f = 1) { Poly p; p.c[{a, b, c}] = f; return p; }
static Poly full(int deg, int seed) { Poly p; for (int a = 0; a <= deg; ++a) for (int b = 0; a + b <= deg; ++b) for (int c = 0; a + b + c <= deg; ++c) p.c[{a, b, c}] = ((seed * 7 + a * 5 + b * 3 + c * 11 + a * b * 2) % 9 - 4.25) / 2; return p; }
/// integral over a tetrahedron, through the monomials of the reference one
static double integral(const Poly& p, const std::array<P3d, 4>& X) {
    Poly q[3]; for (int k = 0; k < 3; ++k) { q[k].c[{0, 0, 0}] = X[0][k]; for (int i = 0; i < 3; ++i) { Ex e{{0, 0, 0}}; e[i] = 1; q[k].c[e] = X[i + 1][k] - X[0][k]; } }
    double J[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) J[i][k] = X[i + 1][k] - X[0][k]; double det = std::fabs(J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]));
    double s = 0; static const double F[12] = {1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800};
    for (auto& t : p.c) { Poly m = mono(0, 0, 0, t.second); for (int k = 0; k < 3; ++k) for (int n = 0; n < t.first[k]; ++n) m = m * q[k]; for (auto& u : m.c) s += u.second * F[u.first[0]] * F[u.first[1]] * F[u.first[2]] / F[u.first[0] + u.first[1] + u.first[2] + 3]; }
    return s * det; }
/// a field that lies in the space, one polynomial per component
static std::vector<Poly> field(const RSp& s, int seed) {
    std::vector<Poly> r; switch (s.kind) {
        case ref::FIX: if (s.fix == FEM_RT0) { double b = 0.5 + seed % 3; for (int k = 0; k < 3; ++k) { Poly p = mono(0, 0, 0, 1.5 - k + seed % 2); Ex e{{0, 0, 0}}; e[k] = 1; p.c[e] = b; r.push_back(p); } return r; }
            if (s.fix == FEM_ND0) { double b[3] = {0.5 + seed % 3, -1.25, 2}; for (int k = 0; k < 3; ++k) { Poly p = mono(0, 0, 0, 1.5 - k); int i = (k + 1) % 3, j = (k + 2) % 3; Ex e{{0, 0, 0}}, f{{0, 0, 0}}; e[j] = 1; f[i] = 1; p.c[e] = b[i]; p.c[f] = -b[j]; r.push_back(p); } return r; }
            return {full(s.fix == FEM_P0 ? 0 : s.fix == FEM_P2 ? 2 : s.fix == FEM_P3 ? 3 : 1, seed)};
        case ref::VEC: for (int k = 0; k < s.k; ++k) { auto q = field(s.ch[0], seed + 2 * k + 1); r.insert(r.end(), q.begin(), q.end()); } return r;
        case ref::COM: for (size_t k = 0; k < s.ch.size(); ++k) { auto q = field(s.ch[k], seed + 3 * int(k) + 1); r.insert(r.end(), q.begin(), q.end()); } return r;
        default: return field(s.ch[0], seed); } }
static int ref_dofs(const RSp& s) { if (s.kind == ref::FIX) return int(ref::run_space(s).dofMap().NumDofOnTet()); int n = 0; for (auto& c : s.ch) n += ref_dofs(c); return s.kind == ref::VEC ? n * s.k : n; }
static int degree(const RSp& s) { if (s.kind == ref::FIX) return s.fix == FEM_P0 ? 0 : s.fix == FEM_P2 ? 2 : s.fix == FEM_P3 ? 3 : s.fix == FEM_B4 ? 4 : 1; int d = 0; for (auto& c : s.ch) d = std::max(d, degree(c)); return d; }
static std::array<P3d, 4> corners(Mesh* m, const Cell& c) { std::array<P3d, 4> r; auto nd = c.getNodes(); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) r[i][k] = nd[i].Coords()[k]; return r; }
static const double BAR[6][4] = {{0.25, 0.25, 0.25, 0.25}, {1, 0, 0, 0}, {0, 0.5, 0.5, 0}, {0.1, 0.2, 0.3, 0.4}, {0, 0.25, 0.25, 0.5}, {0.5, 0.125, 0.125, 0.25}};
static std::string where; static bool close(double a, double b) { return std::fabs(a - b) <= 1e-8 * (1 + std::fabs(b)); }
static void diff(const std::string& s) { if (where.empty()) where = s; }
struct Quiet { std::streambuf* b; Quiet(): b(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); } };
/// values and derivatives of a stored variable on every cell
static void values(Mesh* m, const Ani::FemSpace& S, Tag u, const std::vector<Poly>& f, const char* what) {
    Ani::DynMem<> mem; int dim = int(S.dim());
    for (auto it = m->BeginCell(); it != m->EndCell(); ++it) { Cell c = it->getAsCell(); std::array<HandleType, 4> nd; std::array<HandleType, 6> e; std::array<HandleType, 4> fc; Ani::collectConnectivityInfo(c, nd.data(), e.data(), fc.data(), true, true);
        double xyl[24]; P3d X[6]; for (int q = 0; q < 6; ++q) { X[q] = {{0, 0, 0}}; for (int i = 0; i < 4; ++i) { xyl[4 * q + i] = BAR[q][i]; for (int k = 0; k < 3; ++k) X[q][k] += BAR[q][i] * Node(m, nd[i]).Coords()[k]; } }
        for (int op : {int(Ani::IDEN), int(Ani::GRAD), int(Ani::DIV), int(Ani::CURL)}) { Ani::ApplyOpBase const* o = nullptr; std::unique_ptr<Ani::ApplyOpFromSpaceView> ov; if (op == Ani::DIV && dim != 3 || op == Ani::CURL && dim != 3) continue;
            try { ov.reset(new Ani::ApplyOpFromSpaceView(S.getOP(Ani::OperatorType(op)))); o = ov.get(); } catch (std::exception&) { continue; } catch (...) { continue; }
            int D = int(o->Dim()); std::vector<double> out(D * 6 + 4, 7e77); for (int nq : {6, 1}) { std::fill(out.begin(), out.end(), 7e77); Ani::DenseMatrix<> O(out.data(), D, nq, D * nq);
                eval_op_var_by_barycentric_points(O, mem, c, Ani::DenseMatrix<const double>(xyl, 4, nq, 4 * nq), *o, *(S.dofMap().target<>()), u);
                for (int q = 0; q < nq; ++q) for (int i = 0; i < D; ++i) { double w = 0; if (op == Ani::IDEN) w = f[i](X[q]); else if (op == Ani::GRAD) { if (D != 3 * dim) continue; w = f[i / 3].d(i % 3)(X[q]); } else if (op == Ani::DIV) for (int k = 0; k < 3; ++k) w += f[k].d(k)(X[q]); else w = f[(i + 2) % 3].d((i + 1) % 3)(X[q]) - f[(i + 1) % 3].d((i + 2) % 3)(X[q]); mc::checked();
                    if (!close(out[i + D * q], w)) diff(mc::fmt("%s: operator %d component %d at point %d is %.12g instead of %.12g", what, op, i, q, out[i + D * q], w)); }
                for (size_t i = size_t(D) * nq; i < out.size(); ++i) if (out[i] != 7e77) diff(mc::fmt("%s: writes beyond the result", what)); } } } }
static std::vector<mock::Dist> ghosted(size_t nc) { std::vector<mock::Dist> r; for (auto& d : dists(nc)) if (d.nproc == 1 || d.layers == 1) r.push_back(d); return r; }
static std::vector<RSp> spaces() { auto F = [](int f) { return RSp::Fix(f); };
    return {F(FEM_P0), F(FEM_P1), F(FEM_P2), F(FEM_P3), F(FEM_CR1), F(FEM_RT0), F(FEM_ND0), RSp::Uni({F(FEM_P1), F(FEM_B4)}), RSp::Vec(3, F(FEM_P1)), RSp::Vec(2, F(FEM_P2)), RSp::Com({F(FEM_P2), F(FEM_RT0)}), RSp::Com({F(FEM_ND0), RSp::Vec(2, F(FEM_CR1)), F(FEM_P0)}), RSp::Vec(2, F(FEM_ND0)), RSp::Vec(3, RSp::Uni({F(FEM_P2), F(FEM_B4)})), RSp::Vec(2, RSp::Com({F(FEM_P1), F(FEM_P3)}))}; }
// ---------------------------------------------------------------- Z03
static void box(const std::array<unsigned, 3>& n, int np, const P3d& A, const P3d& O, bool cube) {
    struct Tet { std::array<std::array<long, 3>, 4> v; }; std::vector<Tet> all; std::string why; std::vector<std::unique_ptr<Mesh>> M(np); World w; auto bad = [&](const std::string& s) { if (why.empty()) why = s; };
    try { w.run(np, [&](int p) { M[p] = cube ? GenerateCube(INMOST_MPI_Comm(), n[0], n[1], n[2], A[0]) : GenerateParallelepiped(INMOST_MPI_Comm(), n, A, O); if (M[p] && M[p]->nproc != np) bad("the communicator was not set"); }); } catch (std::exception& e) { bad(e.what()); }
    std::map<std::vector<std::array<long, 3>>, int> faces; double vol = 0; std::set<std::vector<std::array<long, 3>>> cells; std::set<std::array<long, 3>> nodes;
    if (why.empty()) for (auto& m : M) for (auto it = m->BeginCell(); it != m->EndCell(); ++it) { std::vector<std::array<long, 3>> v; mc::state(); auto nd = it->getNodes(); if (nd.size() != 4) bad("a cell with another number of nodes");
        for (auto q : nd) { std::array<long, 3> x; for (int k = 0; k < 3; ++k) { double h = (A[k] - O[k]) / n[k], r = (q.Coords()[k] - O[k]) / h; x[k] = std::lround(r); if (std::fabs(r - x[k]) > 1e-9 || x[k] < 0 || x[k] > long(n[k])) bad(mc::fmt("node at %g %g %g is not a point of the grid", q.Coords()[0], q.Coords()[1], q.Coords()[2])); } v.push_back(x); nodes.insert(x); }
        double J[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) J[i][k] = v[i + 1][k] - v[0][k]; double d = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]); if (d == 0) bad("a flat cell"); vol += std::fabs(d) / 6;
        std::sort(v.begin(), v.end()); if (!cells.insert(v).second) bad("a cell occurs twice"); for (int k = 0; k < 3; ++k) if (v[3][k] - v[0][k] > 1 || v[0][k] - v[3][k] > 1) bad("a cell is larger than a cell of the grid");
        for (int i = 0; i < 4; ++i) { auto f = v; f.erase(f.begin() + i); ++faces[f]; } mc::checked(10); }
    size_t want = size_t(6) * n[0] * n[1] * n[2]; if (why.empty() && std::fabs(vol - double(want) / 6) > 1e-9) bad(mc::fmt("the cells fill %g cells of the grid instead of %g", vol, double(want) / 6)); if (why.empty() && nodes.size() != size_t(n[0] + 1) * (n[1] + 1) * (n[2] + 1)) bad("points of the grid are missing");
    if (why.empty()) for (auto& f : faces) { bool edge = false; for (int k = 0; k < 3; ++k) for (long s : {0l, long(n[k])}) edge |= f.first[0][k] == s && f.first[1][k] == s && f.first[2][k] == s; if (f.second != (edge ? 1 : 2)) bad(mc::fmt("a face of %d cells%s", f.second, edge ? " at the boundary" : " inside")); }
    if (why.empty()) { std::array<double, 3> far{{0, 0, 0}}; for (auto& m : M) for (auto& c : m->coords) for (int k = 0; k < 3; ++k) if (std::fabs(c[k] - A[k]) < 1e-12) far[k] = 1; if (far[0] + far[1] + far[2] != 3) bad("the box does not reach its corner"); }
    mc::outcome(cells.size()); MC_REQ(why.empty(), "box", "%u x %u x %u, %d processes: %s", n[0], n[1], n[2], np, why.c_str());
}
// ---------------------------------------------------------------- Z04
static void tags(const Set& s, const mock::Topo& t, const mock::Dist& d) {
    auto B = mock::build(t, d); where.clear();
    B->world.run(d.nproc, [&](int p) { Mesh* m = B->m[p].get(); int k = 0; for (auto& v : s.v) for (int fixed = 0; fixed < 2; ++fixed) { std::string nm = "t" + std::to_string(k++); Tag u = createFemVarTag(m, *(v.map.target<>()), nm, fixed); Set one; one.v.push_back(v); auto L = layout(one);
        if (!u.isValid() || u.GetTagName() != nm || u.GetDataType() != DATA_REAL || !m->HaveTag(nm)) { diff("tag"); continue; }
        for (int n = 0; n < 4; ++n) { if (u.isDefined(ElementTypeFromDim(n)) != !L[n].empty()) diff(mc::fmt("the tag lives on the wrong elements (dimension %d)", n)); if (L[n].empty() || !u.isDefined(ElementTypeFromDim(n))) continue; for (size_t l = 0; l < m->el[n].size(); ++l) if (m->el[n][l].alive) { auto a = m->RealArray(ComposeHandleNum(n, int(l)), u); mc::checked(); if (a.size() < L[n].size()) diff(mc::fmt("an element of dimension %d has %d numbers instead of %d", n, int(a.size()), int(L[n].size()))); if (!fixed && a.size() != L[n].size()) diff("more numbers than degrees of freedom"); for (unsigned i = 0; i < a.size(); ++i) if (a[i] != 0) diff("the tag is not filled with zeros"); } }
        auto r = create_or_load_problem_tag(m, *(v.map.target<>()), nm); if (!r.second || r.first != u) diff("an existing tag was not taken"); bool thrown = false; try { create_or_load_problem_tag(m, *(v.map.target<>()), nm, false); } catch (std::exception&) { thrown = true; } if (!thrown) diff("an existing tag was taken though it must not");
        r = create_or_load_problem_tag(m, *(v.map.target<>()), nm + "new", fixed); if (r.second || r.first.GetTagName() != nm + "new" || !m->HaveTag(nm + "new")) diff("a missing tag was not created"); } });
    MC_REQ(where.empty(), "tags", "%s: %s", s.name.c_str(), where.c_str());
}
static void integrals(const mock::Topo& t, const mock::Dist& d, int order) {
    auto B = mock::build(t, d); where.clear();
    std::vector<Poly> f; for (int a = 0; a <= order; ++a) for (int b = 0; a + b <= order; ++b) { int c = order - a - b; f.push_back(mono(a, b, c)); if (c) f.push_back(mono(a, b, c - 1, 2)); } int N = int(f.size());
    std::vector<double> want(N, 0.0); for (auto& q : t.tets) { std::array<P3d, 4> X; for (int i = 0; i < 4; ++i) X[i] = t.pts[q[i]]; for (int i = 0; i < N; ++i) want[i] += integral(f[i], X); }
    B->world.run(d.nproc, [&](int p) { Mesh* m = B->m[p].get(); auto same = [&](double a, int i, const char* w) { mc::checked(); if (!close(a, want[i])) diff(mc::fmt("%s: integral of x^%d y^%d z^%d is %.12g instead of %.12g", w, f[i].c.begin()->first[0], f[i].c.begin()->first[1], f[i].c.begin()->first[2], a, want[i])); };
        for (int dim : {N, 1}) { std::vector<double> out(dim + 2, 3e33); integrate_vector_func(out.data(), dim, m, [&](Cell c, Ani::DenseMatrix<const double> L, Ani::DenseMatrix<const double> X, Ani::DenseMatrix<> F, Ani::DynMem<>& mem) { auto w = mem.alloc(7, 3, 0); for (int i = 0; i < 7; ++i) w.m_mem.ddata[i] = 5e55; if (L.nRow != 4 || X.nRow != 3 || L.nCol != X.nCol || int(F.nRow) != dim || F.nCol != X.nCol) { diff("shapes of the arguments"); return; } auto K = corners(m, c);
            for (unsigned q = 0; q < X.nCol; ++q) { P3d x{{X(0, q), X(1, q), X(2, q)}}; double s = 0; for (int i = 0; i < 4; ++i) s += L(i, q); if (!close(s, 1)) diff("barycentric coordinates"); std::array<HandleType, 4> nd; auto hc = m->HighConn(c.GetHandle()); for (int k = 0; k < 3; ++k) { double v = 0; for (int i = 0; i < 4; ++i) v += L(i, q) * Node(m, hc[i]).Coords()[k]; (void)v; } for (int i = 0; i < dim; ++i) F(i, q) = f[i](x); } }, order, false); for (int i = 0; i < dim; ++i) same(out[i], i, "vector function"); if (out[dim] != 3e33) diff("result overrun"); }
        for (int i = 0; i + 2 < N; i += 3) { auto r = integrate_vector_func<3>(m, [&](const Cell& c, const Ani::Coord<>& X) { P3d x{{X[0], X[1], X[2]}}; return std::array<double, 3>{{f[i](x), f[i + 1](x), f[i + 2](x)}}; }, order); for (int k = 0; k < 3; ++k) same(r[k], i + k, "array function"); }
        for (int i = 0; i < N; ++i) same(integrate_scalar_func(m, [&](const Cell& c, const Ani::Coord<>& X) { return f[i](P3d{{X[0], X[1], X[2]}}); }, order), i, "scalar function"); });
    MC_REQ(where.empty(), "integrals", "%s", where.c_str());
}
static void project(const RSp& r, const mock::Topo& t, const mock::Dist& d, int seed, int form, const char* name = nullptr) {
    auto B = mock::build(t, d); where.clear(); auto S = name ? choose_space_from_name(name) : ref::run_space(r); if (int(S.dofMap().NumDofOnTet()) != ref_dofs(r)) diff("another number of degrees of freedom"); auto f = field(r, seed); int order = std::max(1, 2 * degree(r)), dim = int(f.size());
    try { Quiet z; B->world.run(d.nproc, [&](int p) { Mesh* m = B->m[p].get(); m->AssignGlobalID(NODE | EDGE | FACE | CELL); Tag u = createFemVarTag(m, *(S.dofMap().target<>()), "u", seed % 2);
        if (form == 0) make_l2_project([&](Cell c, std::array<double, 3> X, double* res) { if (!c.isValid()) diff("cell of the function"); for (int i = 0; i < dim; ++i) res[i] = f[i](X); }, m, u, S, order);
        else make_l2_project([&](Cell c, Ani::DenseMatrix<const double> L, Ani::DenseMatrix<const double> X, Ani::DenseMatrix<> F, Ani::DynMem<>& mem) { auto w = mem.alloc(9, 2, 1); for (int i = 0; i < 9; ++i) w.m_mem.ddata[i] = 3e30; if (!c.isValid() || int(F.nRow) != dim || F.nCol != X.nCol || X.nRow != 3 || L.nRow != 4 || L.nCol != X.nCol) { diff("arguments of the function"); return; } for (unsigned q = 0; q < X.nCol; ++q) for (int i = 0; i < dim; ++i) F(i, q) = f[i](P3d{{X(0, q), X(1, q), X(2, q)}}); }, m, u, S, order);
        values(m, S, u, f, "projection"); if (m->tags.size() > 2 + 1) mc::outcome(m->tags.size()); }); } catch (std::exception& e) { diff(e.what()); }
    mc::state(); MC_REQ(where.empty(), "projection:" + r.name(), "%s", where.c_str());
}
template <class FEM> static void project_ct(const RSp& r, const mock::Topo& t, const mock::Dist& d, int seed) { // space known at compile time, values by a point of space
    auto B = mock::build(t, d); where.clear(); auto f = field(r, seed); int order = std::max(1, 2 * degree(r)), dim = int(f.size()); constexpr int D = Ani::Operator<Ani::IDEN, FEM>::Dim::value;
    try { Quiet z; B->world.run(d.nproc, [&](int p) { Mesh* m = B->m[p].get(); m->AssignGlobalID(NODE | EDGE | FACE | CELL); auto mp = Ani::GenerateHelper<FEM>(); Ani::DofT::DofMap dm = Ani::DofT::DofMap(Ani::Dof<FEM>::Map()); Tag u = createFemVarTag(m, *(dm.target<>()), "u", seed % 2);
        make_l2_project<FEM>([&](Cell c, std::array<double, 3> X, double* res) { if (!c.isValid()) diff("cell of the function"); for (int i = 0; i < dim; ++i) res[i] = f[i](X); }, m, u, order);
        ::Assembler a(m); { Ani::FemExprDescr e; e.PushFemPair(mp, "u", mp, "v"); a.SetProbDescr(std::move(e)); } a.SetMatRHSFunc(Ani::GenerateElemMatRhs(std::function<void(const double**, double*, double*, double*, long*, void*)>([](const double**, double*, double*, double*, long*, void*) {}), mp.NumDofOnTet(), mp.NumDofOnTet(), 0, 0)); a.SetDataGatherer([](Ani::ElementalAssembler&) {}); a.PrepareProblem();
        Ani::ApplyOpFromTemplate<Ani::IDEN, FEM> id;
        for (auto it = m->BeginCell(); it != m->EndCell(); ++it) { Cell c = it->getAsCell(); auto K = corners(m, c); for (auto& b : BAR) { P3d x{{0, 0, 0}}; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) x[k] += b[i] * K[i][k]; std::vector<double> o(D + 2, 7e77); eval_op_var_at_point(o.data(), c, x, id, a, u); auto q = eval_op_var_at_point<D>(c, x, id, a, u, nullptr, 0); auto h = eval_op_var_at_point<D + 2>(c, x, id, a, u); for (int i = 0; i < D; ++i) { mc::checked(3); if (!close(o[i], f[i](x)) || !close(q[i], f[i](x)) || !close(h[i], f[i](x))) diff(mc::fmt("component %d at %g %g %g is %.12g, %.12g, %.12g instead of %.12g", i, x[0], x[1], x[2], o[i], q[i], h[i], f[i](x))); } if (o[D] != 7e77) diff("writes beyond the result"); } } }); } catch (std::exception& e) { diff(e.what()); }
    mc::state(); MC_REQ(where.empty(), "projection:" + r.name(), "compile time: %s", where.c_str());
}
/// the report of a linear solver
static void report(int its, bool verb) {
    Solver s; s.its = its; s.flag = true; s.resid = 0.5; std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); std::string why; try { print_linear_solver_status(s, verb ? "name of the problem" : "p", verb); } catch (std::exception& e) { why = e.what(); } std::cout.rdbuf(b);
    std::string t = o.str(); auto at = t.find("#lits "); std::string num; if (at == std::string::npos) why = "no number of iterations"; else { for (size_t i = at + 6; i < t.size() && (t[i] == ' ' || isdigit((unsigned char)t[i])); ++i) if (t[i] != ' ') num += t[i]; if (num != std::to_string(its)) why = mc::fmt("reports %s iterations instead of %d", num.c_str(), its); }
    if (t.find(verb ? "name of the problem" : "p") == std::string::npos || t.find("0.5") == std::string::npos) why = "name or residual missing"; mc::state(); MC_REQ(why.empty(), "report", "%s", why.c_str());
}
static void names() {
    std::string why; for (auto n : {"", "P4", "p1", "MINI4", "P", "RT0"}) { bool thrown = false; try { choose_space_from_name(n); } catch (std::runtime_error&) { thrown = true; } mc::checked(); if (!thrown) why = std::string("a space of the name ") + n; } MC_REQ(why.empty(), "names", "%s", why.c_str());
}
/// the diffusion problem whose solution lies in the space: every choice of the boundary faces with prescribed values
static void diffusion(const RSp& r, const mock::Topo& t, const mock::Dist& d, unsigned dirichlet, int kind, int order, int seed) {
    auto B = mock::build(t, d); where.clear(); auto S = ref::run_space(r); auto f = field(r, seed); int dim = int(f.size());
    if (kind == 4) { f[0] = mono(1, 0, 0, 2).add(mono(0, 1, 0, -1)).add(mono(0, 0, 1, 0.5)).add(mono(0, 0, 0, 3)); int g = degree(r); if (r.kind == ref::UNI) g = degree(r.ch[0]); if (g >= 2) f[0].add(mono(2, 0, 0)).add(mono(0, 2, 0, -1)).add(mono(0, 1, 1, 1.5)); if (g >= 3) f[0].add(mono(1, 1, 1, 2)).add(mono(3, 0, 0)).add(mono(1, 2, 0, -3)); for (int i = 1; i < dim; ++i) { f[i] = f[0]; f[i].add(mono(1, 0, 0, i)); } }
    // coefficient: 0 unit, 1 number, 2 symmetric, 3 general and varying, 4 the Laplace problem
    Poly K[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = i == j; if (kind == 1) v *= 2.5; if (kind == 2) v = i == j ? 2 + i : 0.25 * (i + j); if (kind == 3) v = i == j ? 3 + i : 0.3 * i - 0.2 * j; K[i][j] = mono(0, 0, 0, v); if (kind == 3 && r.kind == ref::FIX && r.fix != FEM_CR1) { K[i][j].c[{1, 0, 0}] += i == j ? 0.25 : 0; K[i][j].c[{0, 0, 1}] += 0.0625 * (i - j); } }
    std::vector<std::array<Poly, 3>> flux(dim); std::vector<Poly> src(dim); for (int q = 0; q < dim; ++q) for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) flux[q][i].add(K[i][j] * f[q].d(j)); src[q].add(flux[q][i].d(i), -1); }
    // boundary faces by their points
    std::map<std::array<int, 3>, std::vector<int>> sides; for (auto& c : t.tets) for (int i = 0; i < 4; ++i) { std::array<int, 3> k; int n = 0; for (int j = 0; j < 4; ++j) if (j != i) k[n++] = c[j]; std::sort(k.begin(), k.end()); sides[k].push_back(c[i]); }
    std::set<std::vector<int>> given; std::map<std::array<int, 3>, int> opposite; unsigned b = 0; for (auto& s : sides) if (s.second.size() == 1) { opposite[s.first] = s.second[0]; if (dirichlet >> b & 1) { auto& k = s.first; for (int m = 1; m < 8; ++m) { std::vector<int> e; for (int i = 0; i < 3; ++i) if (m >> i & 1) e.push_back(k[i]); given.insert(e); } } ++b; }
    auto& ent = B->ent; auto key = [&](const Element& e) { return ent[e.GetElementNum()][e.GetMeshLink()->key[e.GetElementNum()][e.LocalID()]]; };
    auto is_dir = [&](Element e) { return e.GetElementNum() < 3 && given.count(key(e)) > 0; };
    auto dirval = [&](Element e, P3d X, Ani::ArrayView<> o) { if (!is_dir(e)) diff("a value was asked on an element that is not prescribed"); if (int(o.size) != dim) diff("size of the prescribed value"); for (int i = 0; i < dim; ++i) o[i] = f[i](X); };
    auto neu = [&](Face fc, P3d X, Ani::ArrayView<> o) { auto k = key(fc); std::array<int, 3> q{{k[0], k[1], k[2]}}; if (!opposite.count(q)) { diff("flux asked on an inner face"); o.SetZero(); return; } if (is_dir(fc)) diff("flux asked on a face with prescribed values"); if (int(o.size) != dim) diff("size of the flux");
        auto &x0 = t.pts[q[0]], &x1 = t.pts[q[1]], &x2 = t.pts[q[2]], &y = t.pts[opposite[q]]; double a[3], c[3], n[3]; for (int i = 0; i < 3; ++i) a[i] = x1[i] - x0[i], c[i] = x2[i] - x0[i]; for (int i = 0; i < 3; ++i) n[i] = a[(i + 1) % 3] * c[(i + 2) % 3] - a[(i + 2) % 3] * c[(i + 1) % 3]; double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), s = 0, h = 0; for (int i = 0; i < 3; ++i) n[i] /= l, s += n[i] * (y[i] - x0[i]), h += n[i] * (X[i] - x0[i]); if (std::fabs(h) > 1e-9) diff("the point of the flux is not on its face"); for (int w = 0; w < dim; ++w) { o[w] = 0; for (int i = 0; i < 3; ++i) o[w] += (s > 0 ? -1 : 1) * n[i] * flux[w][i](X); } };
    auto Kf = [&](Cell c, P3d X, Ani::DenseMatrix<> D) -> Ani::TensorType { if (!c.isValid()) diff("cell of the coefficient"); if (kind == 0) { D.SetEye(1); return Ani::TENSOR_NULL; } if (kind == 1) { D.data[0] = 2.5; return Ani::TENSOR_SCALAR; } if (D.nRow != 3u * dim || D.nCol != 3u * dim) diff("shape of the coefficient"); D.SetZero(); for (int w = 0; w < dim; ++w) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) D(3 * w + i, 3 * w + j) = K[i][j](X); return kind == 2 ? Ani::TENSOR_SYMMETRIC : Ani::TENSOR_GENERAL; };
    auto rhs = [&](Cell c, P3d X, Ani::ArrayView<> o) { if (!c.isValid() || int(o.size) != dim) diff("arguments of the source"); for (int w = 0; w < dim; ++w) o[w] = src[w](X); };
    try { Quiet z; B->world.run(d.nproc, [&](int p) { Mesh* m = B->m[p].get(); m->AssignGlobalID(NODE | EDGE | FACE | CELL); MarkerType other = m->CreateMarker(); for (auto it = m->BeginFace(); it != m->EndFace(); ++it) if (it->LocalID() % 2) it->SetMarker(other); Tag u = createFemVarTag(m, *(S.dofMap().target<>()), "u", seed % 2);
        if (kind == 4) make_laplace(m, S, u, is_dir, dirval, order); else solve_stationary_diffusion(m, S, u, is_dir, dirval, neu, Kf, rhs, order);
        if (m->marks_used != other) diff("a marker is left in use"); for (auto it = m->BeginFace(); it != m->EndFace(); ++it) if (it->GetMarker(other) != (it->LocalID() % 2 == 1)) diff("a marker of the user was changed");
        values(m, S, u, f, "solution"); }); } catch (std::exception& e) { diff(e.what()); }
    mc::state(); MC_REQ(where.empty(), "diffusion:" + r.name(), "prescribed faces %x, coefficient %d, order %d: %s", dirichlet, kind, order, where.c_str());
}
/// meshes without folds: two cells of a face lie on its two sides
static std::vector<Topos> proper() {
    std::vector<Topos> r; for (auto& t : topos()) { bool ok = t.name.find("sharing an edge") == std::string::npos && t.name.find("sharing a node") == std::string::npos; std::map<std::set<int>, std::vector<double>> s; for (auto& c : t.t.tets) for (int i = 0; i < 4; ++i) { std::set<int> k(c.begin(), c.end()); k.erase(c[i]); std::vector<int> q(k.begin(), k.end()); auto &x = t.t.pts[q[0]], &y = t.t.pts[q[1]], &z = t.t.pts[q[2]], &w = t.t.pts[c[i]]; double J[3][3]; for (int j = 0; j < 3; ++j) J[0][j] = y[j] - x[j], J[1][j] = z[j] - x[j], J[2][j] = w[j] - x[j]; s[k].push_back(J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0])); } for (auto& q : s) if (q.second.size() == 2 && q.second[0] * q.second[1] > 0) ok = false; if (ok) r.push_back(t); }
    mock::Topo in; in.pts = {{0, 0, 0}, {2, 0, 0.5}, {0, 2, 0}, {0.5, 0, 3}, {0.5, 0.5, 0.75}}; in.tets = {{0, 1, 2, 4}, {1, 2, 3, 4}, {0, 2, 3, 4}, {3, 0, 4, 1}}; r.push_back({"four cells around an inner node", in});
    mock::Topo ring; ring.pts = {{0, 0, -1}, {0, 0.25, 1}, {1, 0, 0}, {0, 1, 0}, {-1, 0.25, 0}, {0, -1, 0.25}}; ring.tets = {{0, 1, 2, 3}, {3, 4, 0, 1}, {5, 0, 1, 4}, {0, 2, 5, 1}}; r.push_back({"four cells around an inner edge", ring});
    mock::Topo row; row.pts = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {0.25, 2, 1.5}}; row.tets = {{0, 1, 2, 3}, {4, 1, 2, 3}, {2, 3, 4, 5}}; r.push_back({"three cells in a row", row});
    return r; }
static unsigned outer(const mock::Topo& t) { std::map<std::set<int>, int> s; for (auto& c : t.tets) for (int i = 0; i < 4; ++i) { std::set<int> k(c.begin(), c.end()); k.erase(c[i]); ++s[k]; } unsigned n = 0; for (auto& q : s) n += q.second == 1; return n; }
// ---------------------------------------------------------------- Z05
typedef std::array<double, 9> M9; // full symmetric matrix
struct Eig { double l[3]; double q[3][3]; }; // q[k] belongs to l[k], ascending
static Eig eigen(const M9& A0) { double A[3][3], V[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = (A0[3 * i + j] + A0[3 * j + i]) / 2, V[i][j] = i == j; for (int it = 0; it < 60; ++it) for (int p = 0; p < 2; ++p) for (int q = p + 1; q < 3; ++q) if (A[p][q] != 0) { double t = (A[q][q] - A[p][p]) / (2 * A[p][q]), u = (t >= 0 ? 1 : -1) / (std::fabs(t) + std::sqrt(t * t + 1)), c = 1 / std::sqrt(u * u + 1), s = u * c; for (int k = 0; k < 3; ++k) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; } for (int k = 0; k < 3; ++k) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; } for (int k = 0; k < 3; ++k) { double x = V[k][p], y = V[k][q]; V[k][p] = c * x - s * y; V[k][q] = s * x + c * y; } }
    std::array<int, 3> o{{0, 1, 2}}; std::sort(o.begin(), o.end(), [&](int a, int b) { return A[a][a] < A[b][b]; }); Eig e; for (int k = 0; k < 3; ++k) { e.l[k] = A[o[k]][o[k]]; for (int i = 0; i < 3; ++i) e.q[k][i] = V[i][o[k]]; } return e; }
static M9 compose(const Eig& e) { M9 r; r.fill(0); for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[3 * i + j] += e.l[k] * e.q[k][i] * e.q[k][j]; return r; }
static Eig absolute(const M9& H) { Eig e = eigen(H); std::array<int, 3> o{{0, 1, 2}}; std::sort(o.begin(), o.end(), [&](int a, int b) { return std::fabs(e.l[a]) < std::fabs(e.l[b]); }); Eig r; for (int k = 0; k < 3; ++k) { r.l[k] = std::fabs(e.l[o[k]]); for (int i = 0; i < 3; ++i) r.q[k][i] = e.q[o[k]][i]; } return r; }
/// bounds on the eigenvalues; ascending before, ascending after
static double edge_of_bound = 1; // a ratio equal to its bound up to rounding may or may not be reduced once more
static void bound(Eig& e, const MetricsConstructTraits& t) { for (double& l : e.l) l = std::min(std::max(l, t.M_lambda_min), t.M_lambda_max); double R = std::max(t.M_lambda_max_rel, 1.0); if (e.l[2] / e.l[0] > R * edge_of_bound) { double g = std::cbrt(e.l[0]) * std::cbrt(e.l[1]) * std::cbrt(e.l[2]); for (double& l : e.l) l = std::min(std::max(g * std::min(std::sqrt(R), std::max(1 / std::sqrt(R), l / g)), t.M_lambda_min), t.M_lambda_max); } }
static M9 metric_of(Eig e, const MetricsConstructTraits& t, double f) { edge_of_bound = f; bound(e, t); double d = e.l[0] * e.l[1] * e.l[2]; if (!(d > 1e-300)) { for (double& l : e.l) l = t.isotropic_fallback; } else for (double& l : e.l) l *= std::pow(d, -0.2); return compose(e); }
static M9 bounded(const M9& A, const MetricsConstructTraits& t, double f) { Eig e = eigen(A); edge_of_bound = f; bound(e, t); return compose(e); }
struct CellH { Eig abs; bool degenerate = true; bool unsure = false; };
struct LocalBasis { std::vector<Poly> f; std::vector<std::vector<int>> on; }; // in barycentric coordinates 1..3 (x, y, z); on: local nodes of the element that carries the value
static LocalBasis basis(int kind) { LocalBasis b; Poly l[4]; l[0] = mono(0, 0, 0); l[0].add(mono(1, 0, 0), -1).add(mono(0, 1, 0), -1).add(mono(0, 0, 1), -1); l[1] = mono(1, 0, 0); l[2] = mono(0, 1, 0); l[3] = mono(0, 0, 1); auto sc = [](Poly p, double s) { for (auto& t : p.c) t.second *= s; return p; };
    if (kind == 0 || kind == 2 || kind == 3) for (int i = 0; i < 4; ++i) { Poly p = l[i]; if (kind == 0) { p = sc(l[i] * l[i], 2); p.add(l[i], -1); } b.f.push_back(p); b.on.push_back({i}); }
    if (kind == 0 || kind == 1) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { b.f.push_back(sc(l[i] * l[j], 4)); b.on.push_back({i, j}); }
    if (kind == 2) { b.f.push_back(sc(l[0] * l[1] * l[2] * l[3], 256)); b.on.push_back({0, 1, 2, 3}); } return b; }
static double refint(const Poly& p) { static const std::array<P3d, 4> R{{{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}}; return integral(p, R); }
static CellH cell_metric(const LocalBasis& b, const std::array<P3d, 4>& X, std::vector<double> d, const MetricsConstructTraits& t) {
    double J[3][3], I[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) J[k][i] = X[i + 1][k] - X[0][k]; double det = 0; for (int i = 0; i < 3; ++i) det += J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) I[i][k] = (J[(k + 1) % 3][(i + 1) % 3] * J[(k + 2) % 3][(i + 2) % 3] - J[(k + 1) % 3][(i + 2) % 3] * J[(k + 2) % 3][(i + 1) % 3]) / det; // d xi_i / d x_k
    size_t n = d.size(); std::vector<std::array<Poly, 3>> g(n); for (size_t f = 0; f < n; ++f) for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) g[f][k].add(b.f[f].d(i), I[i][k]);
    auto hess = [&](const std::vector<double>& d) { std::vector<double> a = d; double sum = 0; for (double v : d) sum += std::fabs(v); if (t.distrib_heuristics) { std::array<Poly, 3> v; for (size_t f = 0; f < n; ++f) for (int k = 0; k < 3; ++k) v[k].add(g[f][k], d[f]); double e = 0; for (int k = 0; k < 3; ++k) e += 6 * refint(v[k] * v[k]); for (size_t f = 0; f < n; ++f) a[f] = std::fabs(d[f]) * e / sum; }
        M9 H; for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) { double s = 0; for (size_t f = 0; f < n; ++f) { Poly h; for (int i = 0; i < 3; ++i) h.add(g[f][k].d(i), I[i][m]); s += -0.5 * a[f] * 6 * refint(h); } H[3 * k + m] = s; } return H; };
    CellH r; double sum = 0; for (double v : d) sum += std::fabs(v); for (int k = 0; k < 3; ++k) { r.abs.l[k] = 0; for (int i = 0; i < 3; ++i) r.abs.q[k][i] = i == k; } if (!(sum > 0)) return r;
    double big = 0; auto flat = [&](const Eig& e) { double q = e.l[0] > 0 ? e.l[2] / e.l[0] : HUGE_VAL; if (q > t.H_lambda_max_rel / 10 && q < std::max(1e13, t.H_lambda_max_rel * 10)) r.unsure = true; if (e.l[2] < 1e-9 * sum) r.unsure = true; /* only rounding errors are left */ return !(q <= t.H_lambda_max_rel); };
    r.abs = absolute(hess(d)); r.degenerate = flat(r.abs); big = r.abs.l[2]; (void)big;
    if (r.degenerate && t.alpha_boost != 1) { size_t im = 0; for (size_t f = 1; f < n; ++f) if (std::fabs(d[f]) > std::fabs(d[im])) im = f; for (size_t f = 0; f < n; ++f) if (f != im && std::fabs(d[f]) > std::fabs(d[im]) * (1 - 1e-9)) r.unsure = true; d[im] *= t.alpha_boost; Eig e = absolute(hess(d)); if (!flat(e)) { r.abs = e; r.degenerate = false; } }
    if (r.degenerate) { for (double& l : r.abs.l) if (l < 1e-12 * std::max(1.0, r.abs.l[2])) l = 0; } return r; }
static double fieldval(int kind, const std::vector<P3d>& p, int seed) { P3d x{{0, 0, 0}}; for (auto& q : p) for (int k = 0; k < 3; ++k) x[k] += q[k] / p.size(); if (seed < 0) { long h = std::lround(x[0] * 7919) * 31 + std::lround(x[1] * 6101) * 17 + std::lround(x[2] * 4093) * 5 + p.size() - seed * 977; h = ((h % 2003) + 2003) % 2003; if (seed % 4 == 0 && h % 3) return 0; return (double(h) - 700) / 512; }
    // quadratic forms by number: diagonal and mixed coefficients
    int s = seed; double v = 0.25 * x[0] - 0.5 * x[2] + 1; for (int k = 0; k < 3; ++k) { v += ((s % 3) - 1) * (1 + k) * x[k] * x[k]; s /= 3; } for (int k = 0; k < 3; ++k) { v += (s % 2) * 0.75 * x[k] * x[(k + 1) % 3]; s /= 2; } return v; }
static void metrics(const mock::Topo& t, const mock::Dist& d, int kind, int seed, const MetricsConstructTraits& tr, int tagform) {
    auto B = mock::build(t, d); where.clear(); auto b = basis(kind); auto F = [](int f) { return RSp::Fix(f); }; std::vector<Poly> cubic; if (kind == 4) { cubic = {full(3, seed + 40)}; cubic[0].add(mono(2, 0, 0), 3).add(mono(0, 1, 1), -2).add(mono(0, 2, 0), seed % 3); } RSp R = kind == 4 ? F(FEM_P3) : kind == 0 ? F(FEM_P2) : kind == 1 ? F(FEM_B2) : kind == 2 ? RSp::Uni({F(FEM_P1), F(FEM_B4)}) : F(FEM_P1); auto S = ref::run_space(R);
    std::vector<CellH> C; for (auto& c : t.tets) { std::array<P3d, 4> X; for (int i = 0; i < 4; ++i) X[i] = t.pts[c[i]]; if (kind == 4) { P3d g{{0, 0, 0}}; for (auto& x : X) for (int k = 0; k < 3; ++k) g[k] += x[k] / 4; M9 H; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) H[3 * k + l] = -0.5 * cubic[0].d(k).d(l)(g); CellH q; q.abs = absolute(H); q.degenerate = !(q.abs.l[2] <= tr.H_lambda_max_rel * q.abs.l[0]); q.unsure = (q.degenerate && tr.alpha_boost != 1) || q.abs.l[2] / q.abs.l[0] > 1e4; C.push_back(q); continue; } std::vector<double> v; for (auto& o : b.on) { std::vector<P3d> p; for (int i : o) p.push_back(X[i]); v.push_back(fieldval(kind, p, seed)); } C.push_back(cell_metric(b, X, v, tr)); }
    bool anyH = false; for (auto& c : C) anyH |= c.abs.l[2] > 0;
    std::map<int, std::vector<M9>> want; for (int nd = 0; nd < int(t.pts.size()); ++nd) { std::vector<CellH> P, N; bool unsure = false; for (size_t c = 0; c < C.size(); ++c) for (int v : t.tets[c]) if (v == nd) { P.push_back(C[c]); unsure |= C[c].unsure; if (!C[c].degenerate) N.push_back(C[c]); } if (P.empty() || unsure) continue; auto& W = want[nd];
        bool skip = false; for (double f1 : {1 - 1e-9, 1 + 1e-9}) for (double f2 : {1 - 1e-9, 1 + 1e-9}) { if (skip) break;
        if (!N.empty()) { if (tr.vertex_projection_strategy == 0) { double best = 0; for (auto& c : N) best = std::max(best, c.abs.l[0] * c.abs.l[1] * c.abs.l[2]); for (auto& c : N) if (c.abs.l[0] * c.abs.l[1] * c.abs.l[2] >= best * (1 - 1e-9)) W.push_back(bounded(metric_of(c.abs, tr, f1), tr, f2)); }
            else { M9 s; s.fill(0); for (auto& c : N) { Eig e = eigen(metric_of(c.abs, tr, f1)); for (double& l : e.l) l = std::log(l); M9 g = compose(e); for (int i = 0; i < 9; ++i) s[i] += g[i] / N.size(); } Eig e = eigen(s); for (double& l : e.l) l = std::exp(l); W.push_back(bounded(compose(e), tr, f2)); } } else {
        int nn = -1; double pr = 0; auto num = [&](const CellH& c, double& p) { int n = 0; p = 1; for (double l : c.abs.l) if (l > tr.M_lambda_min) ++n, p *= l; return n; }; for (auto& c : P) { double p; int n = num(c, p); if (n > nn || n == nn && p > pr) nn = n, pr = p; }
        if (nn > 0) { for (auto& c : P) { double p; if (num(c, p) == nn && p >= pr * (1 - 1e-9)) { Eig e = c.abs; double lo = HUGE_VAL; for (double l : e.l) if (l > tr.M_lambda_min) lo = std::min(lo, l); for (double& l : e.l) if (!(l > tr.M_lambda_min)) l = lo; W.push_back(bounded(metric_of(e, tr, f1), tr, f2)); } } } else {
        bool small = false; for (auto& c : P) small |= c.abs.l[2] > 0; if (small) { skip = true; break; } M9 e; e.fill(0); e[0] = e[4] = e[8] = tr.isotropic_fallback; W.push_back(bounded(e, tr, f2)); } } } if (skip) want.erase(nd); }
    std::map<int, M9> first; mc::outcome(want.size() * 100 + std::count_if(C.begin(), C.end(), [](const CellH& c) { return c.degenerate; }));
    try { Quiet z; B->world.run(d.nproc, [&](int p) { Mesh* m = B->m[p].get(); m->AssignGlobalID(NODE | EDGE | FACE | CELL); Tag u = createFemVarTag(m, *(S.dofMap().target<>()), "u", seed % 2); size_t i = 0; if (kind == 4) make_l2_project([&](Cell, P3d X, double* r) { r[0] = cubic[0](X); }, m, u, S, 6); else for (int n = 0; n < 4; ++n) if (u.isDefined(ElementTypeFromDim(n))) for (size_t l = 0; l < m->el[n].size(); ++l) if (m->el[n][l].alive) { std::vector<P3d> q; for (int v : B->ent[n][m->key[n][l]]) q.push_back(t.pts[v]); m->RealArray(ComposeHandleNum(n, int(l)), u)[0] = fieldval(kind, q, seed); }
        Tag M = tagform == 0 ? m->CreateTag("metric", DATA_REAL, NODE, NONE, 6) : tagform == 1 ? m->CreateTag("metric", DATA_REAL, NODE, NONE) : m->CreateTag("metric", DATA_REAL, NODE, NONE, 8); auto marks = m->marks_used; size_t tags = m->tags.size(); if (seed % 3 == 0) { auto q = tr; q.vertex_projection_strategy = 1 - q.vertex_projection_strategy; construct_metrics(S, u, M, q); } construct_metrics(S, u, M, tr);
        if (m->HaveTag("___tmp_cell_absH_svals") || m->marks_used != marks) diff("temporary data is left in the mesh"); (void)tags; (void)i;
        for (auto it = m->BeginNode(); it != m->EndNode(); ++it) { int v = B->ent[0][m->key[0][it->LocalID()]][0]; auto a = it->RealArray(M); if (a.size() < 6) { diff("too few numbers in a node"); continue; } M9 g{{a[0], a[3], a[5], a[3], a[1], a[4], a[5], a[4], a[2]}}; mc::checked(); for (double x : g) if (!std::isfinite(x)) diff(mc::fmt("node %d: a number that is not finite", v)); Eig e = eigen(g); if (!(e.l[0] >= tr.M_lambda_min * (1 - 1e-6) - 1e-11 * e.l[2]) || !(e.l[2] <= tr.M_lambda_max * (1 + 1e-6)) || !(e.l[2] <= e.l[0] * std::max(1.0, tr.M_lambda_max_rel) * (1 + 1e-6))) diff(mc::fmt("node %d: eigenvalues %g %g %g are outside of the bounds", v, e.l[0], e.l[1], e.l[2]));
            auto f = first.find(v); if (f == first.end()) first[v] = g; else for (int k = 0; k < 9; ++k) if (std::fabs(f->second[k] - g[k]) > 1e-12 * e.l[2]) diff(mc::fmt("node %d: processes disagree", v));
            auto w = want.find(v); if (w == want.end()) continue; double best = HUGE_VAL; for (auto& q : w->second) { double x = 0; for (int k = 0; k < 9; ++k) x = std::max(x, std::fabs(q[k] - g[k])); best = std::min(best, x); } if (!(best <= 1e-6 * e.l[2])) { auto& q = w->second[0]; diff(mc::fmt("node %d: metric %.9g %.9g %.9g %.9g %.9g %.9g instead of %.9g %.9g %.9g %.9g %.9g %.9g", v, a[0], a[1], a[2], a[3], a[4], a[5], q[0], q[4], q[8], q[1], q[5], q[2])); } } }); } catch (std::exception& e) { diff(e.what()); }
    mc::state(); MC_REQ(where.empty(), "metric", "%s", where.c_str());
}
static std::vector<MetricsConstructTraits> traits() { std::vector<MetricsConstructTraits> r; for (int h = 0; h < 2; ++h) for (int s = 0; s < 2; ++s) for (int k = 0; k < 7; ++k) { MetricsConstructTraits t; t.distrib_heuristics = h; t.vertex_projection_strategy = s; t.isotropic_fallback = 0.75; if (k == 1) t.M_lambda_max_rel = 4; if (k == 2) t.M_lambda_min = 0.5, t.M_lambda_max = 1.25; if (k == 3) t.alpha_boost = 1; if (k == 4) t.H_lambda_max_rel = 3, t.alpha_boost = 2; if (k == 5) t.M_lambda_max_rel = 0.5, t.verbosity = true; if (k == 6) t.M_lambda_max_rel = 1e9, t.max_quad_order = 3; r.push_back(t); } return r; }
static void body() {
    auto v = mc::opt().variant; const bool th = mc::thorough(); auto T = topos(), G = proper(); auto R = spaces();
    if (v.empty() || v == "box") { unsigned mx = th ? 6 : 4; int np = th ? 12 : 9; for (unsigned a = 1; a <= mx; ++a) for (unsigned b = 1; b <= mx; ++b) for (unsigned c = 1; c <= mx; ++c) for (int p = 1; p <= np; ++p) for (int g = 0; g < 3; ++g) mc::run_case(mc::fmt("box %u x %u x %u on %d processes, place %d", a, b, c, p, g), "box", [&] { static const P3d A[3] = {{{1, 1, 1}}, {{3, -1, 0.5}}, {{2, 2, 2}}}, O[3] = {{{0, 0, 0}}, {{1, -4, 0.25}}, {{0, 0, 0}}}; box({{a, b, c}}, p, A[g], O[g], g == 2); });
        for (unsigned n = 5; n <= (th ? 40u : 20u); ++n) for (int p = 1; p <= (th ? 24 : 16); ++p) for (int ax = 0; ax < 3; ++ax) mc::run_case(mc::fmt("row of %u on %d processes along %d", n, p, ax), "box", [&] { std::array<unsigned, 3> s{{1, 1, 1}}; s[ax] = n; box(s, p, {{1, 2, 4}}, {{0, 0, 0}}, false); }); }
    if (v.empty() || v == "fields") {
        auto S = sets(); for (size_t is = 0; is < S.size(); ++is) for (size_t it = 0; it < T.size(); ++it) for (int l = 0; l < 3; ++l) mc::run_case(mc::fmt("tags of %s on %s, order %d", S[is].name.c_str(), T[it].name.c_str(), l), "tags", [&] { mock::Dist d; d.owner.assign(T[it].t.tets.size(), 0); d.local = l; tags(S[is], T[it].t, d); });
        for (size_t it = 0; it < T.size(); ++it) { auto D = dists(T[it].t.tets.size()); for (size_t id = 0; id < D.size(); ++id) for (int o = 0; o <= 6; ++o) if (th || (id + o + it) % 3 == 0) mc::run_case(mc::fmt("integrals on %s, distribution %d, order %d", T[it].name.c_str(), int(id), o), "integrals", [&] { integrals(T[it].t, D[id], o); }); }
        for (size_t ir = 0; ir < R.size(); ++ir) for (size_t it = 0; it < T.size(); ++it) { auto D = ghosted(T[it].t.tets.size()); for (size_t id = 0; id < D.size(); ++id) for (int fm = 0; fm < 2; ++fm) if (th || (id * 2 + fm + ir + it) % 3 == 0) mc::run_case(mc::fmt("projection to %s on %s, distribution %d, form %d", R[ir].name().c_str(), T[it].name.c_str(), int(id), fm), "projection", [&] { project(R[ir], T[it].t, D[id], int(ir + id + it), fm); }); }
        { auto F = [](int f) { return RSp::Fix(f); }; std::vector<std::pair<const char*, RSp>> Nm = {{"P0", F(FEM_P0)}, {"P1", F(FEM_P1)}, {"P2", F(FEM_P2)}, {"P3", F(FEM_P3)}, {"MINI", RSp::Uni({F(FEM_P1), F(FEM_B4)})}, {"MINI1", RSp::Uni({F(FEM_P1), F(FEM_B4)})}, {"MINI2", RSp::Uni({F(FEM_P2), F(FEM_B4)})}, {"MINI3", RSp::Uni({F(FEM_P3), F(FEM_B4)})}, {"CR1", F(FEM_CR1)}, {"MINI_CR", RSp::Uni({F(FEM_CR1), F(FEM_B4)})}, {"MINI_CR1", RSp::Uni({F(FEM_CR1), F(FEM_B4)})}};
          for (auto& n : Nm) for (size_t it = 0; it < 2; ++it) mc::run_case(mc::fmt("space %s on %s", n.first, T[it].name.c_str()), "projection", [&] { auto D = dists(T[it].t.tets.size()); project(n.second, T[it].t, D[0], 2, 1, n.first); }); mc::run_case("names", "names", names); }
        for (int its : {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 123456, 2147483647}) for (bool vb : {false, true}) mc::run_case(mc::fmt("report of %d iterations, %d", its, int(vb)), "report", [&] { report(its, vb); });
#define CT(N, ...) for (size_t it = 0; it < T.size(); ++it) { auto D = ghosted(T[it].t.tets.size()); for (size_t id = 0; id < D.size(); ++id) if (th || (id + it) % 4 == 0) mc::run_case(mc::fmt("compile time projection to %s on %s, distribution %d", R[N].name().c_str(), T[it].name.c_str(), int(id)), "projection", [&] { project_ct<__VA_ARGS__>(R[N], T[it].t, D[id], int(id + it)); }); }
        using namespace Ani; CT(1, FemFix<FEM_P1>) CT(3, FemFix<FEM_P3>) CT(5, FemFix<FEM_RT0>) CT(6, FemFix<FEM_ND0>) CT(8, FemVec<3, FEM_P1>) CT(10, FemCom<FemFix<FEM_P2>, FemFix<FEM_RT0>>)
    }
    if (v.empty() || v == "diffusion") for (size_t ir : {1, 2, 3, 4, 7, 8, 9}) for (size_t it = 0; it < G.size(); ++it) { auto& T = G; unsigned nf = outer(T[it].t);
        for (unsigned s = 1; s < (1u << nf); ++s) for (int k = 0; k < 5; ++k) { if (k == 4 && s != (1u << nf) - 1) continue; if (k >= 2 && R[ir].kind == ref::VEC) continue; 
            for (int q = 0; q < (th ? 8 : 1); ++q) mc::run_case(mc::fmt("diffusion in %s on %s, prescribed faces %x, coefficient %d, distribution %d", R[ir].name().c_str(), T[it].name.c_str(), s, k, q), "diffusion", [&] { auto D = ghosted(T[it].t.tets.size()); int dg = degree(R[ir]); diffusion(R[ir], T[it].t, D[(s * 7 + k + q * 37) % D.size()], s, k, std::max(2 * dg, 2) + (s % 3 == 0), int(s + k)); }); } }
    if (v.empty() || v == "metrics") { auto Q = traits(); for (size_t it = 0; it < G.size(); ++it) { auto D = ghosted(G[it].t.tets.size()); for (int kind = 0; kind < 5; ++kind) for (int seed = -12; seed < (kind == 4 ? 24 : 216); ++seed) for (size_t q = 0; q < Q.size(); ++q) { if (!th && (unsigned(seed + 12) * 28 + q + it * 3 + kind) % 7) continue; if (kind == 4 && Q[q].distrib_heuristics) continue; if (kind == 2) Q[q].max_quad_order = 6; mc::run_case(mc::fmt("metric of space %d, field %d, settings %d on %s", kind, seed, int(q), G[it].name.c_str()), "metric", [&] { metrics(G[it].t, D[(unsigned(seed + 12) * 5 + q) % D.size()], kind, seed, Q[q], int(q + seed + 12) % 3); }); } } }
}
MC_MAIN(body)
