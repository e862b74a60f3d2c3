// Variables, layouts of the degrees of freedom on the elements, meshes and distributions shared by the checks of the INMOST interface.
#pragma once
#include "femop_common.h"
#include "anifem++/fem/tetdofmap.h"
#include "anifem++/inmost_interface/global_enumerator.h"
#include "mock/meshes.h"
using namespace INMOST; using Ani::DofT::BaseDofMap; using Ani::IGlobEnumeration; using Ani::OrderedEnumerator; using Ani::SimpleEnumerator; using Ani::GlobEnumeration; using Ani::FemVarContainer; using ref::RSp;
namespace DT = Ani::DofT;
static const int MD[6] = {0, 1, 1, 2, 2, 3};
struct Var { std::string name; Ani::DofT::DofMap map; int ndim; };
struct Set { std::string name; std::vector<Var> v; bool nodes_needed; };
static std::vector<Set> sets() {
    auto F = [](int f) { return RSp::Fix(f); }; auto V = [](int k, RSp s) { return RSp::Vec(k, s); };
    auto add = [](Set& s, const RSp& r) { s.v.push_back(Var{r.name(), ref::run_space(r).dofMap(), r.kind == ref::VEC ? r.k : 1}); s.name += (s.name.empty() ? "" : ", ") + r.name(); for (int f : {FEM_P3, FEM_RT0, FEM_ND0}) { std::function<bool(const RSp&)> has = [&](const RSp& q) { if (q.kind == ref::FIX) return q.fix == f; for (auto& c : q.ch) if (has(c)) return true; return false; }; s.nodes_needed |= has(r); } };
    std::vector<std::vector<RSp>> L{{F(FEM_P1)}, {F(FEM_P2)}, {F(FEM_P3)}, {F(FEM_RT0)}, {F(FEM_ND0)}, {F(FEM_P0)}, {F(FEM_CR1)}, {V(3, F(FEM_P1))}, {V(2, F(FEM_P2)), F(FEM_P1)}, {F(FEM_RT0), F(FEM_P0)}, {F(FEM_ND0), V(2, F(FEM_P3))}, {F(FEM_P3), F(FEM_ND0), F(FEM_RT0)}, {RSp::Com({F(FEM_ND0), F(FEM_P3)}), F(FEM_P2)},
        {V(2, F(FEM_ND0)), V(2, F(FEM_P2)), F(FEM_ND0)}, {V(2, RSp::Com({F(FEM_P2), F(FEM_ND0)})), F(FEM_P0)}, {V(3, RSp::Uni({F(FEM_P1), F(FEM_B4)})), F(FEM_P1)}, {V(2, F(FEM_RT0)), F(FEM_CR1), F(FEM_P3)}, {F(FEM_P1), F(FEM_P1), V(1, F(FEM_P1))}, {V(2, V(2, F(FEM_P2)))}};
    std::vector<Set> r; for (auto& l : L) { Set s; s.nodes_needed = false; for (auto& x : l) add(s, x); r.push_back(s); }
    { Set s; s.nodes_needed = true; s.v.push_back(Var{"FemVec<3,P2>", Ani::DofT::DofMap(Ani::Dof<Ani::FemVec<3, Ani::FEM_P2>>::Map()), 3}); s.v.push_back(Var{"FemVec<2,ND0>", Ani::DofT::DofMap(Ani::Dof<Ani::FemVec<2, Ani::FEM_ND0>>::Map()), 2}); s.v.push_back(Var{"FemCom<FemVec<2,P3>,RT0>", Ani::DofT::DofMap(Ani::Dof<Ani::FemCom<Ani::FemVec<2, Ani::FEM_P3>, Ani::FemFix<Ani::FEM_RT0>>>::Map()), 1}); s.name = "FemVec<3,P2>, FemVec<2,ND0>, FemCom<FemVec<2,P3>,RT0>"; r.push_back(s); }
    auto sym = [&](std::string n, DT::DofSymmetries q, std::string other, const RSp& o) { Set s; s.nodes_needed = true; s.v.push_back(Var{n, DT::DofMap(std::make_shared<DT::UniteDofMap>(q)), 1}); s.v.push_back(Var{other, ref::run_space(o).dofMap(), 1}); s.name = n + ", " + other; r.push_back(s); };
    sym("edges S2, faces S1 S3, cell S4 S6", DT::DofSymmetries({1}, {0, 1}, {0, 0}, {1, 1, 0}, {0, 0, 0}, {0, 1, 1, 0, 0}), "P0", F(FEM_P0));
    sym("oriented edges S2, oriented faces S6, cell S12", DT::DofSymmetries({0}, {0, 0}, {0, 1}, {0, 0, 0}, {0, 0, 1}, {0, 0, 0, 1, 0}), "P1", F(FEM_P1));
    sym("edges S2", DT::DofSymmetries({0}, {0, 1}, {0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0, 0, 0}), "P0", F(FEM_P0)); sym("faces S3, cell S4", DT::DofSymmetries({0}, {0, 0}, {0, 0}, {0, 1, 0}, {0, 0, 0}, {0, 1, 0, 0, 0}), "CR1", F(FEM_CR1));
    return r;
}
static FemVarContainer vars_of(const Set& s) { FemVarContainer r; for (auto& v : s.v) r.PushVar(v.map, v.name); return r; }
/// one degree of freedom of an element
struct D { int et, v, d, q; unsigned edof, vdof; };
static std::array<std::vector<D>, 4> layout(const Set& s) {
    std::array<std::vector<D>, 4> r; std::vector<std::array<unsigned, 4>> vd(s.v.size(), std::array<unsigned, 4>{{0, 0, 0, 0}});
    for (int et = 0; et < 6; ++et) for (size_t v = 0; v < s.v.size(); ++v) { int n = int(s.v[v].map.NumDof(DT::NumToGeomType(et))); int nd = n / s.v[v].ndim; for (int d = 0; d < s.v[v].ndim; ++d) for (int q = 0; q < nd; ++q) { auto& a = r[MD[et]]; a.push_back(D{et, int(v), d, q, unsigned(a.size()), vd[v][MD[et]]++}); } }
    return r;
}
struct Topos { std::string name; mock::Topo t; };
static std::vector<Topos> topos() {
    std::vector<Topos> r; mock::Topo a; a.pts = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {2, 0.5, 0.3}, {-1, 0.2, 0.4}, {0.2, 0.3, -1}};
    auto T = [&](std::string n, std::vector<std::array<int, 4>> c) { mock::Topo t; int np = 0; for (auto& q : c) for (int v : q) np = std::max(np, v + 1); t.pts.assign(a.pts.begin(), a.pts.begin() + np); t.tets = c; r.push_back({n, t}); };
    T("one cell", {{0, 1, 2, 3}}); T("two cells sharing a face", {{0, 1, 2, 3}, {4, 1, 2, 3}}); T("two cells sharing an edge", {{0, 1, 2, 3}, {2, 3, 4, 5}}); T("two cells sharing a node", {{0, 1, 2, 3}, {3, 4, 5, 6}}); T("three cells around a face and an edge", {{0, 1, 2, 3}, {1, 2, 3, 4}, {2, 3, 4, 5}});
    T("four cells filling the hull of the first three", {{0, 1, 2, 3}, {1, 2, 3, 4}, {0, 1, 2, 4}, {2, 4, 5, 3}}); T("four separate cells of a fan", {{0, 1, 2, 3}, {0, 2, 3, 4}, {0, 3, 4, 5}, {0, 4, 5, 1}});
    return r;
}
static std::vector<Topos> large() {   // two cubes of six cells; a fan of nine cells around an edge
    std::vector<Topos> r; mock::Topo t; auto id = [](int x, int y, int z) { return x * 4 + y * 2 + z; };
    for (int x = 0; x < 3; ++x) for (int y = 0; y < 2; ++y) for (int z = 0; z < 2; ++z) t.pts.push_back({x + 0.1 * y, y + 0.05 * z, z + 0.07 * x});
    for (int x = 0; x < 2; ++x) { int q[3] = {0, 1, 2}; do { int c[3] = {x, 0, 0}; std::array<int, 4> e; e[0] = id(c[0], c[1], c[2]); for (int i = 0; i < 3; ++i) ++c[q[i]], e[i + 1] = id(c[0], c[1], c[2]); t.tets.push_back(e); } while (std::next_permutation(q, q + 3)); }
    r.push_back({"two cubes of six cells", t});
    mock::Topo f; f.pts.push_back({0, 0, 0}), f.pts.push_back({0, 0, 1}); for (int i = 0; i < 9; ++i) f.pts.push_back({std::cos(i * 0.69), std::sin(i * 0.69), 0.1 * i});
    for (int i = 0; i < 9; ++i) f.tets.push_back({i % 2, 2 + i, 1 - i % 2, 2 + (i + 1) % 9}); r.push_back({"nine cells around an edge", f});
    return r;
}
static std::vector<mock::Dist> dists(size_t nc) {
    std::vector<mock::Dist> r; auto add = [&](int np, std::vector<int> own, int l, int o) { mock::Dist d; d.nproc = np; d.owner = own; d.layers = l; d.local = o; r.push_back(d); };
    if (nc > 4) {   // a larger mesh: in turn, in blocks, in blocks in reverse order with processes without cells
        for (int np = 1; np <= 5; ++np) for (int k = 0; k < (np > 1 ? 3 : 1); ++k) { std::vector<int> own; for (size_t c = 0; c < nc; ++c) own.push_back(k == 0 ? c % np : k == 1 ? c * np / nc : np - 1 - (c * (np - 1) / nc)); add(np, own, np > 1 ? (k + np) % 3 : 0, (k + 2 * np) % 3); }
        return r;
    }
    for (int np = 1; np <= 3; ++np) { int all = 1; for (size_t c = 0; c < nc; ++c) all *= np; for (int a = 0; a < all; ++a) { mock::Dist d; d.nproc = np; int x = a; for (size_t c = 0; c < nc; ++c) d.owner.push_back(x % np), x /= np; for (int l = 0; l < (np > 1 ? 3 : 1); ++l) for (int o = 0; o < 3; ++o) { mock::Dist q = d; q.layers = l; q.local = o; r.push_back(q); } } }
    if (nc == 4) { std::vector<int> p{0, 1, 2, 3}; int k = 0; do add(4, p, (k + 1) % 3, k / 2 % 3), ++k; while (std::next_permutation(p.begin(), p.end())); }   // every cell on a process of its own
    for (int k = 0; k < 3; ++k) { std::vector<int> own; for (size_t c = 0; c < nc; ++c) own.push_back((2 * c + k) % 6); add(6, own, k, 2 - k); }                  // more processes than cells
    return r;
}
