// D01 D02 D03 D04 D05: numberings of degrees of freedom, their traversal, views, symmetries, and element selections.
#include "mc.h"
#include "anifem++/fem/tetdofmap.h"
#include "anifem++/fem/quadrature_formulas.h"
using namespace Ani;
using namespace Ani::DofT;
static const int ELEMS[6] = {4, 6, 6, 4, 4, 1};
static const int DIMOF[6] = {0, 1, 1, 2, 2, 3};
static const int NELD[4] = {4, 6, 4, 1};
static const int OFFS[7] = {0, 1, 3, 5, 8, 11, 16};
static const int VOL[16] = {1, 1, 2, 1, 2, 1, 3, 6, 1, 3, 6, 1, 4, 6, 12, 24};
static const int EDN[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
static const int FCN[4][3] = {{0, 1, 2}, {1, 2, 3}, {2, 3, 0}, {3, 0, 1}};
// ---------------------------------------------------------------- reference numbering
struct Dof { int t, nelem, leid, stype, lsid; bool operator==(const Dof& o) const { return t == o.t && nelem == o.nelem && leid == o.leid && stype == o.stype && lsid == o.lsid; } };
struct N {
    enum K { U, V, C } kind = U; bool sym = false; std::array<unsigned, 16> s{}; std::array<unsigned, 6> n{}; int k = 1; std::vector<N> ch;
    std::string nm;
    static N Sym(const char* nm, std::array<unsigned, 16> s) { N r; r.sym = true; r.s = s; r.nm = nm; for (int t = 0; t < 6; ++t) for (int i = OFFS[t]; i < OFFS[t + 1]; ++i) r.n[t] += s[i] * VOL[i]; return r; }
    static N Num(std::array<unsigned, 6> n) { N r; r.n = n; r.nm = "{"; for (unsigned x : n) r.nm += char('0' + x); r.nm += "}"; return r; }
    static N Vec(int k, N b) { N r; r.kind = V; r.k = k; r.nm = b.nm + mc::fmt("^%d", k); r.ch = {std::move(b)}; return r; }
    static N Com(std::vector<N> c) { N r; r.kind = C; r.nm = "("; for (size_t i = 0; i < c.size(); ++i) r.nm += (i ? "*" : "") + c[i].nm; r.nm += ")"; r.ch = std::move(c); return r; }
    std::array<unsigned, 6> num() const { if (kind == U) return n; std::array<unsigned, 6> r{}; for (int i = 0; i < 6; ++i) { if (kind == V) r[i] = k * ch[0].num()[i]; else for (auto& c : ch) r[i] += c.num()[i]; } return r; }
    unsigned mask(int t) const { if (kind == U) { if (!sym) return 1 << 5; unsigned m = 0; for (int i = OFFS[t]; i < OFFS[t + 1]; ++i) if (s[i]) m |= 1 << (i - OFFS[t]); return m; }
        unsigned m = 0; for (auto& c : ch) m |= c.mask(t); return m; }
    std::vector<Dof> dofs() const {
        std::vector<Dof> r;
        if (kind == U) { for (int t = 0; t < 6; ++t) for (int e = 0; e < ELEMS[t]; ++e) for (unsigned l = 0; l < n[t]; ++l) { Dof d{t, e, (int)l, 255, 255};
            if (sym) { unsigned b = 0; for (int i = OFFS[t]; i < OFFS[t + 1]; ++i) { unsigned w = VOL[i] * s[i]; if (l < b + w) { d.stype = i - OFFS[t]; d.lsid = (l - b) % VOL[i]; break; } b += w; } }
            r.push_back(d); } return r; }
        std::array<unsigned, 6> sh{};
        for (int i = 0; i < (kind == V ? k : (int)ch.size()); ++i) { auto& c = ch[kind == V ? 0 : i]; for (auto d : c.dofs()) { d.leid += sh[d.t]; r.push_back(d); } auto m = c.num(); for (int t = 0; t < 6; ++t) sh[t] += m[t]; }
        return r;
    }
    std::shared_ptr<BaseDofMap> make() const {
        if (kind == U) return sym ? std::make_shared<UniteDofMap>(symm()) : std::make_shared<UniteDofMap>(n);
        if (kind == V) return std::make_shared<VectorDofMap>(k, ch[0].make());
        std::vector<std::shared_ptr<BaseDofMap>> v; for (auto& c : ch) v.push_back(c.make()); return std::make_shared<ComplexDofMap>(v);
    }
    DofSymmetries symm() const { return DofSymmetries({s[0]}, {s[1], s[2]}, {s[3], s[4]}, {s[5], s[6], s[7]}, {s[8], s[9], s[10]}, {s[11], s[12], s[13], s[14], s[15]}); }
    bool same(const N& o) const { if (kind != o.kind || ch.size() != o.ch.size()) return false; if (kind == U) return sym == o.sym && n == o.n && s == o.s; if (kind == V && k != o.k) return false; for (size_t i = 0; i < ch.size(); ++i) if (!ch[i].same(o.ch[i])) return false; return true; }
};
static std::vector<N> leaves() {
    std::vector<N> v;
    //                     node  eu    eo    fu       fo       cell
    v.push_back(N::Sym("P1", {{1}}));
    v.push_back(N::Sym("P2", {{1, 1}}));
    v.push_back(N::Sym("P3", {{1, 0, 1, 0, 0, 1}}));
    v.push_back(N::Sym("ND", {{0, 0, 0, 1}}));
    v.push_back(N::Sym("RT", {{0, 0, 0, 0, 0, 0, 0, 0, 1}}));
    v.push_back(N::Sym("Rich", {{1, 1, 1, 0, 1, 1, 1, 0, 0, 0, 1, 1, 0, 1}}));
    v.push_back(N::Num({{0, 1, 2, 0, 0, 0}}));
    v.push_back(N::Num({{0, 0, 0, 1, 1, 2}}));
    v.push_back(N::Num({{0, 0, 0, 0, 0, 0}}));
    v.push_back(N::Num({{1, 1, 1, 1, 1, 1}}));
    v.push_back(N::Sym("C4", {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}));      // four cell dofs in one orbit
    v.push_back(N::Sym("C1111", {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4}}));      // four cell dofs, each its own orbit
    return v;
}
static std::vector<N> trees(bool small = false) {
    auto L = leaves(); int n = L.size(); std::vector<N> v; bool th = mc::thorough() && !small;
    for (auto& l : L) v.push_back(l);
    if (!small) for (int c = 0; c < 729; ++c) { std::array<unsigned, 6> a; int x = c; for (int i = 0; i < 6; ++i) a[i] = x % 3, x /= 3; v.push_back(N::Num(a)); }
    for (int k = 1; k <= 3; ++k) for (auto& l : L) v.push_back(N::Vec(k, l));
    if (small) n = 9;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (small && (i * 7 + j * 3) % 5) continue;
        v.push_back(N::Com({L[i], L[j]})); v.push_back(N::Vec(2, N::Com({L[i], L[j]}))); v.push_back(N::Com({N::Vec(2, L[i]), L[j]})); v.push_back(N::Com({L[i], N::Vec(3, L[j])}));
        v.push_back(N::Vec(2, N::Com({N::Vec(2, L[i]), L[j]})));
        v.push_back(N::Com({N::Com({L[i], L[j]}), N::Com({L[j], L[i]})}));
    }
    for (auto& l : L) v.push_back(N::Vec(2, N::Vec(3, l))), v.push_back(N::Com({l})), v.push_back(N::Com({N::Com({l})}));
    int m = th ? n : small ? 0 : 8;
    static const int sub[12] = {5, 6, 7, 8, 3, 4, 0, 2, 1, 9, 10, 11};
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) for (int c = 0; c < m; ++c) { auto &A = L[sub[a]], &B = L[sub[b]], &C = L[sub[c]];
        v.push_back(N::Com({A, B, C})); if (!th && a > 5) continue;
        v.push_back(N::Com({N::Com({A, B}), C})); v.push_back(N::Com({A, N::Com({B, C})})); v.push_back(N::Com({A, N::Vec(2, N::Com({B, C}))})); v.push_back(N::Com({N::Vec(2, A), B, N::Vec(2, C)})); }
    if (!small) {   // long and deep ones (D03 looks at every view of every view: less deep)
        N big = N::Num({{3, 70, 11, 0, 130, 300}}), rich = N::Sym("Rich4", {{4, 3, 2, 1, 2, 3, 2, 2, 0, 3, 1, 12, 3, 2, 1, 2}}), deep = L[5];
        v.push_back(big), v.push_back(rich), v.push_back(N::Vec(40, L[2])), v.push_back(N::Vec(17, L[5])), v.push_back(N::Vec(9, rich)), v.push_back(N::Com({N::Vec(13, L[2]), big, L[5]}));
        std::vector<N> many; for (int i = 0; i < 11; ++i) many.push_back(L[sub[(i * 5) % 12]]); v.push_back(N::Com(many)); v.push_back(N::Vec(3, N::Com(many)));
        for (int i = 0; i < (mc::opt().variant == "d03" ? 2 : 6); ++i) deep = i % 2 ? N::Com({L[i], deep, L[3]}) : N::Vec(2, N::Com({deep, L[i]})), v.push_back(deep); }
    int q = th ? 6 : small ? 0 : 4;
    for (int a = 0; a < q; ++a) for (int b = 0; b < q; ++b) for (int c = 0; c < q; ++c) for (int d = 0; d < q; ++d) v.push_back(N::Com({L[sub[a]], L[sub[b]], L[sub[c]], L[sub[d]]})), v.push_back(N::Com({N::Com({L[sub[a]], L[sub[b]]}), N::Vec(2, N::Com({L[sub[c]], L[sub[d]]}))}));
    return v;
}
// compile-time counterparts
template<class T> struct Mk;
template<> struct Mk<UniteDofMap> { static constexpr int leaves = 1; static N ref(const std::vector<N>& L, int& p) { return L[p++]; } static UniteDofMap make(const std::vector<N>& L, int& p) { auto& l = L[p++]; return l.sym ? UniteDofMap(l.symm()) : UniteDofMap(l.n); } };
template<class T> struct Mk<FemComDetails::VectorDofMapCImpl<true, T>> { static constexpr int leaves = Mk<T>::leaves; static int dim() { return 1 + leaves % 3 + (leaves == 1); }
    static N ref(const std::vector<N>& L, int& p) { return N::Vec(dim(), Mk<T>::ref(L, p)); } static VectorDofMapC<T> make(const std::vector<N>& L, int& p) { return VectorDofMapC<T>(dim(), Mk<T>::make(L, p)); } };
template<class... T> struct SumL; template<> struct SumL<> { static constexpr int v = 0; }; template<class A, class... T> struct SumL<A, T...> { static constexpr int v = Mk<A>::leaves + SumL<T...>::v; };
template<class... T> struct Mk<FemComDetails::ComplexDofMapCImpl<true, T...>> { static constexpr int leaves = SumL<T...>::v;
    static N ref(const std::vector<N>& L, int& p) { std::vector<N> c{Mk<T>::ref(L, p)...}; return N::Com(c); }
    struct Caller { ComplexDofMapC<T...> m; Caller(const T&... t) : m(t...) {} };
    static ComplexDofMapC<T...> make(const std::vector<N>& L, int& p) { return Caller{Mk<T>::make(L, p)...}.m; } };
typedef UniteDofMap UM;
struct CtMap { N ref; std::shared_ptr<BaseDofMap> m; };
template<class T, class F> static void ct_type(int nl, F& f) {
    auto L = leaves(); static const int sub[12] = {5, 6, 7, 8, 3, 4, 0, 2, 1, 9, 10, 11}; int k = Mk<T>::leaves; if (k == 1) nl = 12;
    std::vector<int> ix(k, 0);
    for (;;) { std::vector<N> l; for (int i : ix) l.push_back(L[sub[i]]); int p = 0; N r = Mk<T>::ref(l, p); r.nm = "ct" + r.nm; auto mk = [l] { int p = 0; return std::make_shared<T>(Mk<T>::make(l, p)); }; f(r, std::function<std::shared_ptr<BaseDofMap>()>(mk));
        int i = k - 1; while (i >= 0 && ++ix[i] == nl) ix[i--] = 0; if (i < 0) break; }
}
template<class F> static void ct_maps(F f, bool small = false) {
    int n2 = small ? 3 : 12, n3 = small ? 2 : mc::thorough() ? 8 : 6;
    ct_type<VectorDofMapC<UM>>(n2, f); ct_type<VectorDofMapC<VectorDofMapC<UM>>>(n2, f);
    ct_type<ComplexDofMapC<UM, UM>>(n2, f); ct_type<ComplexDofMapC<VectorDofMapC<UM>, UM>>(n2, f); ct_type<ComplexDofMapC<UM, VectorDofMapC<UM>>>(n2, f); ct_type<VectorDofMapC<ComplexDofMapC<UM, UM>>>(n2, f);
    ct_type<ComplexDofMapC<UM, UM, UM>>(n3, f); ct_type<ComplexDofMapC<ComplexDofMapC<UM, UM>, UM>>(n3, f); ct_type<ComplexDofMapC<UM, VectorDofMapC<ComplexDofMapC<UM, UM>>>>(n3, f); ct_type<VectorDofMapC<ComplexDofMapC<VectorDofMapC<UM>, UM>>>(n2, f);
    ct_type<ComplexDofMapC<VectorDofMapC<UM>, UM, VectorDofMapC<UM>>>(n3, f);
}
template<class F> static void all_maps(F f, bool small = false) {
    for (auto& t : trees(small)) f(t, std::function<std::shared_ptr<BaseDofMap>()>([&t] { return t.make(); }));
    ct_maps(f, small);
}
static std::string show(const LocalOrder& l) { return mc::fmt("number %u on type %d element %d index %u symmetry %d.%d", l.gid, GeomTypeToNum(l.etype), l.nelem, l.leid, l.stype, l.lsid); }
static std::string show(const Dof& d, int gid) { return mc::fmt("number %d on type %d element %d index %d symmetry %d.%d", gid, d.t, d.nelem, d.leid, d.stype, d.lsid); }
static bool eq(const LocalOrder& l, const Dof& d, unsigned gid) { return l.gid == gid && l.etype == (1 << d.t) && l.nelem == d.nelem && l.leid == (unsigned)d.leid && l.stype == d.stype && l.lsid == d.lsid; }
static const char* kindof(const N& n) { return n.nm.substr(0, 2) == "ct" ? (n.kind == N::V ? "ct-vector" : "ct-composed") : n.kind == N::U ? "scalar" : n.kind == N::V ? "vector" : "composed"; }
static std::string sg(const char* what, const N& n) { return std::string(what) + ":" + kindof(n); }

// ---------------------------------------------------------------- D01
static void numbering(const N& r, const BaseDofMap& m, const char* pre) {
    auto D = r.dofs(); auto num = r.num(); unsigned n = D.size(); auto S = [&](const char* w) { return sg((std::string(pre) + w).c_str(), r); };
    MC_REQ(m.NumDofOnTet() == n, S("total"), "%s: %u degrees of freedom in all, expected %u", r.nm.c_str(), m.NumDofOnTet(), n);
    auto A = m.NumDofs(), B = m.NumDofsOnTet(); unsigned gm = 0;
    for (int t = 0; t < 6; ++t) { unsigned char e = 1 << t; if (num[t]) gm |= e;
        MC_REQ(m.NumDof(e) == num[t] && A[t] == num[t], S("count"), "%s: type %d: NumDof %u, NumDofs %u, expected %u", r.nm.c_str(), t, m.NumDof(e), A[t], num[t]);
        MC_REQ(m.NumDofOnTet(e) == num[t] * ELEMS[t] && B[t] == num[t] * ELEMS[t], S("count-tet"), "%s: type %d: NumDofOnTet %u, NumDofsOnTet %u, expected %u", r.nm.c_str(), t, m.NumDofOnTet(e), B[t], num[t] * ELEMS[t]);
        MC_REQ(m.DefinedOn(e) == (num[t] > 0), S("defined"), "%s: DefinedOn type %d", r.nm.c_str(), t);
        MC_REQ(m.SymComponents(e) == r.mask(t), S("sym-mask"), "%s: symmetry mask of type %d is %d, expected %u", r.nm.c_str(), t, m.SymComponents(e), r.mask(t));
    }
    MC_REQ(m.GetGeomMask() == gm, S("geom-mask"), "%s: mask %u expected %u", r.nm.c_str(), m.GetGeomMask(), gm);
    for (unsigned i = 0; i < n; ++i) { auto& d = D[i]; LocGeomOrder g(1 << d.t, d.nelem, d.leid);
        MC_REQ(m.isValidIndex(TetOrder(i)) && m.isValidIndex(g), S("valid"), "%s: %s is called invalid", r.nm.c_str(), show(d, i).c_str());
        auto l = m.LocalOrderOnTet(TetOrder(i)); MC_REQ(eq(l, d, i), S("forward"), "%s: LocalOrderOnTet(%u) gives %s, expected %s", r.nm.c_str(), i, show(l).c_str(), show(d, i).c_str());
        MC_REQ(m.TypeOnTet(i) == (1u << d.t), S("type"), "%s: TypeOnTet(%u)", r.nm.c_str(), i);
        MC_REQ(m.TetDofID(g) == i, S("back"), "%s: TetDofID(type %d element %d index %d) gives %u, expected %u", r.nm.c_str(), d.t, d.nelem, d.leid, m.TetDofID(g), i);
        auto x = m.TetDofIDExt(g); MC_REQ(x.first == i && x.second == LocSymOrder(d.stype, d.lsid), S("back-ext"), "%s: TetDofIDExt(type %d element %d index %d) gives %u %d.%d", r.nm.c_str(), d.t, d.nelem, d.leid, x.first, x.second.stype, x.second.lsid);
        LocalOrder v[6] = {m.LocalOrderOnTet(g), m[TetOrder(i)], m[g], m[i], m.at(TetOrder(i)), m.at(g)};
        for (int k = 0; k < 6; ++k) MC_REQ(eq(v[k], d, i), S("access"), "%s: access %d to %s gives %s", r.nm.c_str(), k, show(d, i).c_str(), show(v[k]).c_str());
        MC_REQ(m.isValidIndex(l) && l.isValid(), S("valid-own"), "%s: own location %s is called invalid", r.nm.c_str(), show(l).c_str());
        if (d.stype != 255) MC_REQ(m.isValidIndex(l, true) && l.isValid(true), S("valid-sym"), "%s: own location with symmetry %s is called invalid", r.nm.c_str(), show(l).c_str());
    }
    for (int t = 0; t < 6; ++t) for (int e = 0; e < ELEMS[t] + 2; ++e) for (unsigned l = 0; l < num[t] + 2; ++l) { bool ok = e < ELEMS[t] && l < num[t]; LocGeomOrder g(1 << t, e, l);
        MC_REQ(m.isValidIndex(g) == ok, S("valid-loc"), "%s: location type %d element %d index %u validity", r.nm.c_str(), t, e, l);
        if (!ok) { bool th = false; try { m.at(g); } catch (const std::out_of_range&) { th = true; } MC_REQ(th, S("at-throws"), "%s: at(invalid location) did not throw", r.nm.c_str()); } }
    for (unsigned i : {n, n + 1, unsigned(-1)}) { MC_REQ(!m.isValidIndex(TetOrder(i)), S("valid-num"), "%s: number %u of %u is called valid", r.nm.c_str(), i, n);
        bool th = false; try { m.at(TetOrder(i)); } catch (const std::out_of_range&) { th = true; } MC_REQ(th, S("at-throws"), "%s: at(%u) did not throw", r.nm.c_str(), i); }
    MC_REQ(!m.isValidIndex(LocGeomOrder()), S("valid-loc"), "%s: undefined location is called valid", r.nm.c_str());
    // the plain traversal
    auto b = m.begin(), e = m.end(); MC_REQ(e - b == (int)n, S("iter-distance"), "%s: end - begin is %d", r.nm.c_str(), e - b);
    unsigned i = 0; for (auto it = b; it != e && i <= n; ++it, ++i) { if (i < n) MC_REQ(eq(*it, D[i], i) && it->leid == (unsigned)D[i].leid && it->etype == 1 << D[i].t, S("iter"), "%s: traversal lists %s in place %u", r.nm.c_str(), show(*it).c_str(), i); }
    MC_REQ(i == n, S("iter"), "%s: traversal lists %u of %u", r.nm.c_str(), i, n);
    if (n) for (unsigned i = 0; i < n; i += std::max(1u, n / 7)) for (unsigned j = 0; j < n; j += std::max(1u, n / 5)) {
        auto p = b + int(i); auto q = p; LocalOrder touch = *q; (void)touch; q += int(j) - int(i); auto w = q--; MC_REQ(eq(*w, D[j], j), S("iter-arith"), "%s: += / -- %u %u", r.nm.c_str(), i, j);
        auto u = e; u -= int(n - j); MC_REQ(eq(*u, D[j], j) && u == b + int(j) && u - p == int(j) - int(i) && (p < u) == (i < j) && (p <= u) == (i <= j) && (p > u) == (i > j) && (p >= u) == (i >= j), S("iter-arith"), "%s: -= and comparisons %u %u", r.nm.c_str(), i, j);
        MC_REQ(eq(b[int(j)], D[j], j) && eq(*(int(j) + b), D[j], j) && eq(*((b + int(n)) - int(n - j)), D[j], j), S("iter-arith"), "%s: [] and + %u", r.nm.c_str(), j);
        auto z = b + int(j); auto z0 = z++; MC_REQ(eq(*z0, D[j], j) && z - z0 == 1, S("iter-arith"), "%s: it++ %u", r.nm.c_str(), j); }
    mc::state(n);
}
static void components(const N& r, const BaseDofMap& m) {
    if (r.nm.substr(0, 2) == "ct" || r.kind == N::U) return;
    auto D = r.dofs(); int parts = r.kind == N::V ? r.k : r.ch.size(); unsigned g = 0; std::array<unsigned, 6> sh{};
    MC_REQ(m.NestedDim() == (unsigned)parts, sg("parts", r), "%s: NestedDim %u", r.nm.c_str(), m.NestedDim());
    for (int p = 0; p < parts; ++p) { auto& c = r.ch[r.kind == N::V ? 0 : p]; unsigned nn = c.dofs().size(); auto num = c.num();
        for (unsigned i = 0; i < nn; ++i, ++g) { ComponentTetOrder x; unsigned y;
            if (r.kind == N::V) { auto& v = static_cast<const VectorDofMap&>(m); x = v.ComponentID(TetOrder(g)); y = v.TetDofID(p, TetOrder(i)); } else { auto& v = static_cast<const ComplexDofMap&>(m); x = v.ComponentID(TetOrder(g)); y = v.TetDofID(p, TetOrder(i)); }
            MC_REQ(x.gid.gid == g && x.cgid.gid == i && x.part_id == (unsigned)p && y == g, sg("component", r), "%s: number %u is %u of part %d: got %u of %u, back %u", r.nm.c_str(), g, i, p, x.cgid.gid, x.part_id, y); }
        for (int t = 0; t < 6; ++t) { for (unsigned l = 0; l < num[t]; ++l) { ElemOrder eo(1 << t, sh[t] + l); ComponentElemOrder x = r.kind == N::V ? static_cast<const VectorDofMap&>(m).ComponentID(eo) : static_cast<const ComplexDofMap&>(m).ComponentID(eo);
            MC_REQ(x.etype == 1 << t && x.gid == eo.gid && x.cgid == l && x.part_id == (unsigned)p, sg("component-elem", r), "%s: type %d index %u is %u of part %d: got %u of %u", r.nm.c_str(), t, eo.gid, l, p, (unsigned)x.cgid, x.part_id); } sh[t] += num[t]; }
    }
}
static void d01() {
    all_maps([](const N& r, std::function<std::shared_ptr<BaseDofMap>()> mk) {
        mc::run_case("numbering " + r.nm, sg("numbering", r), [&] { auto m = mk(); numbering(r, *m, ""); components(r, *m); DofMap w(m); numbering(r, *w.base(), ""); mc::outcome(r.nm); });
        if (r.kind == N::C && r.nm[0] != 'c') mc::run_case("pushback " + r.nm, sg("pushback", r), [&] { ComplexDofMap c; for (auto& x : r.ch) c.PushBack(x.make()); numbering(r, c, "pushback-"); components(r, c); });
    });
    for (int t = 0; t < 6; ++t) mc::run_case(mc::fmt("types %d", t), "types", [&] { unsigned char e = 1 << t;
        MC_REQ(GeomTypeToNum(e) == t && NumToGeomType(t) == e && GeomTypeDim(e) == DIMOF[t] && GeomTypeTetElems(e) == ELEMS[t] && NumToGeomDim(t) == DIMOF[t] && GeomTypeIsValid(e), "types", "type %d: helpers disagree", t); });
    for (int s = 0; s < 64; ++s) mc::run_case(mc::fmt("mask %d", s), "types", [&] { int dim = s == 0 ? -1 : s & 32 ? 3 : s & 24 ? 2 : s & 6 ? 1 : 0; MC_REQ(GeomTypeDim(s) == dim && GeomTypeIsValid(s), "types", "mask %d: dimension %d", s, GeomTypeDim(s)); });
}
// ---------------------------------------------------------------- D02
static TetGeomSparsity selection(int bits) { TetGeomSparsity sp; for (int i = 0; i < 4; ++i) if (bits >> i & 1) sp.setNode(i); for (int i = 0; i < 6; ++i) if (bits >> (4 + i) & 1) sp.setEdge(i); for (int i = 0; i < 4; ++i) if (bits >> (10 + i) & 1) sp.setFace(i); if (bits >> 14 & 1) sp.setCell(); return sp; }
static const int BASE[4] = {0, 4, 10, 14};
static std::string selname(int b) { static const char* n[4] = {"n", "e", "f", "c"}; std::string s; for (int d = 0; d < 4; ++d) { bool f = false; for (int i = 0; i < NELD[d]; ++i) if (b >> (BASE[d] + i) & 1) { if (!f) s += n[d]; f = true; s += char('0' + i); } } return s.empty() ? "nothing" : s; }
static void traverse(const N& r, const BaseDofMap& m, const std::vector<Dof>& D, int bits, unsigned shift, const std::string& sig, const std::array<unsigned, 6>* esh = nullptr) {
    auto sp = selection(bits); static std::vector<char> seen;
    for (int pref = 0; pref < 2; ++pref) {
        seen.assign(D.size(), 0); size_t want = 0, got = 0; for (auto& d : D) want += bits >> (BASE[DIMOF[d.t]] + d.nelem) & 1;
        int last = -1; size_t lim = D.size() + 2;
        for (auto it = m.beginBySparsity(sp, pref), e = m.endBySparsity(); it != e; ++it, ++got) {
            if (got > lim) { mc::fail(sig, mc::fmt("%s: traversal of %s (%s order) does not end", r.nm.c_str(), selname(bits).c_str(), pref ? "element" : "own")); break; }
            auto l = *it; unsigned g = l.gid - shift;
            if (g >= D.size()) { mc::fail(sig, mc::fmt("%s: traversal of %s lists %s, which is no number of it", r.nm.c_str(), selname(bits).c_str(), show(l).c_str())); break; }
            Dof d = D[g]; if (esh) d.leid += (*esh)[d.t];
            if (!eq(l, d, l.gid)) { mc::fail(sig, mc::fmt("%s: traversal of %s (%s order) lists %s, expected %s", r.nm.c_str(), selname(bits).c_str(), pref ? "element" : "own", show(l).c_str(), show(d, l.gid).c_str())); break; }
            if (it->gid != l.gid || seen[g]) { mc::fail(sig, mc::fmt("%s: traversal of %s (%s order) lists number %u twice", r.nm.c_str(), selname(bits).c_str(), pref ? "element" : "own", l.gid)); break; }
            seen[g] = 1; int pos = BASE[DIMOF[d.t]] + d.nelem;
            if (!(bits >> pos & 1)) { mc::fail(sig, mc::fmt("%s: traversal of %s lists %s, not selected", r.nm.c_str(), selname(bits).c_str(), show(l).c_str())); break; }
            if (pref && pos < last) { mc::fail(sig + "-order", mc::fmt("%s: element order of %s goes back at %s", r.nm.c_str(), selname(bits).c_str(), show(l).c_str())); break; }
            last = pos;
        }
        mc::checked(got + 1); mc::trans(got);
        if (got != want) mc::fail(sig, mc::fmt("%s: traversal of %s (%s order) lists %zu of %zu", r.nm.c_str(), selname(bits).c_str(), pref ? "element" : "own", got, want));
    }
    mc::state(2);
}
static std::vector<int> few_selections() {
    static const int nd[] = {0, 1, 8, 6, 15}, ed[] = {0, 1, 0x20, 0x12, 0x3f}, fc[] = {0, 1, 8, 6, 15}; std::vector<int> v;
    for (int a : nd) for (int b : ed) for (int c : fc) for (int d = 0; d < 2; ++d) v.push_back(a | b << 4 | c << 10 | d << 14);
    for (int i = 0; i < 15; ++i) v.push_back(1 << i);
    for (int i = 0; i < 15; ++i) v.push_back(0x7fff ^ (1 << i));
    return v;
}
static void d02() {
    auto few = few_selections();
    all_maps([&](const N& r, std::function<std::shared_ptr<BaseDofMap>()> mk) {
        mc::run_case("few " + r.nm, sg("traversal", r), [&] { auto m = mk(); auto D = r.dofs(); for (int b : few) traverse(r, *m, D, b, 0, sg("traversal", r)); }); });
    all_maps([&](const N& r, std::function<std::shared_ptr<BaseDofMap>()> mk) {
        if (!mc::thorough() && r.dofs().size() > 45) return;
        for (int h = 0; h < 8; ++h) mc::run_case(mc::fmt("all %d ", h) + r.nm, sg("traversal", r), [&] { auto m = mk(); auto D = r.dofs(); for (int b = h << 12; b < (h + 1) << 12; ++b) traverse(r, *m, D, b, 0, sg("traversal", r)); });
    }, true);
}
// ---------------------------------------------------------------- D03
struct Part { std::vector<int> path; const N* n; unsigned g; std::array<unsigned, 6> e; };
static void parts_of(const N& r, std::vector<int> path, unsigned g, std::array<unsigned, 6> e, std::vector<Part>& out) {
    if (!path.empty()) out.push_back({path, &r, g, e});
    if (r.kind == N::U) return;
    for (int i = 0; i < (r.kind == N::V ? r.k : (int)r.ch.size()); ++i) { auto& c = r.ch[r.kind == N::V ? 0 : i]; auto p = path; p.push_back(i); parts_of(c, p, g, e, out); g += c.dofs().size(); auto m = c.num(); for (int t = 0; t < 6; ++t) e[t] += m[t]; }
}
static void view_is(const N& whole, const Part& P, const NestedDofMapBase& v, const std::string& sig, const std::vector<int>& few) {
    auto D = P.n->dofs(); auto num = P.n->num(); unsigned n = D.size();
    MC_REQ(v.NumDofOnTet() == n && v.NumDofs() == num, sig, "%s: view holds %u numbers, expected %u", whole.nm.c_str(), v.NumDofOnTet(), n);
    for (int t = 0; t < 6; ++t) { unsigned char e = 1 << t; MC_REQ(v.NumDof(e) == num[t] && v.NumDofOnTet(e) == num[t] * ELEMS[t] && v.DefinedOn(e) == (num[t] > 0) && v.NumDofsOnTet()[t] == num[t] * ELEMS[t] && v.SymComponents(e) == P.n->mask(t), sig, "%s: counts of the view, type %d", whole.nm.c_str(), t);
        for (int el = 0; el < ELEMS[t]; ++el) for (unsigned l = 0; l < whole.num()[t] + 1; ++l) { bool in = l >= P.e[t] && l < P.e[t] + num[t]; MC_REQ(v.isValidOutputIndex(LocGeomOrder(e, el, l)) == in, sig + "-inside", "%s: location type %d element %d index %u inside the view?", whole.nm.c_str(), t, el, l); } }
    for (unsigned g = 0; g < whole.dofs().size() + 1; ++g) MC_REQ(v.isValidOutputIndex(TetOrder(g)) == (g >= P.g && g < P.g + n), sig + "-inside", "%s: number %u inside the view?", whole.nm.c_str(), g);
    for (unsigned i = 0; i < n; ++i) { Dof d = D[i], o = d; o.leid += P.e[d.t]; LocGeomOrder g(1 << d.t, d.nelem, d.leid); unsigned w = P.g + i;
        LocalOrder a[3] = {v.LocalOrderOnTet(TetOrder(i)), v.LocalOrderOnTet(g), static_cast<const BaseDofMap&>(v).LocalOrderOnTet(TetOrder(i))};
        for (int k = 0; k < 3; ++k) MC_REQ(eq(a[k], o, w), sig, "%s: view entry %u by way %d is %s, expected %s", whole.nm.c_str(), i, k, show(a[k]).c_str(), show(o, w).c_str());
        LocalOrder b[5] = {v[TetOrder(i)], v[g], v[i], v.at(TetOrder(i)), v.at(g)};
        for (int k = 0; k < 5; ++k) MC_REQ(eq(b[k], o, w), sig + "-access", "%s: view access %d to entry %u is %s, expected %s", whole.nm.c_str(), k, i, show(b[k]).c_str(), show(o, w).c_str());
        MC_REQ(v.TetDofID(g) == w && v.TetDofIDExt(g).first == w && v.TetDofIDExt(g).second == LocSymOrder(d.stype, d.lsid) && v.TypeOnTet(i) == 1u << d.t, sig, "%s: view location of entry %u", whole.nm.c_str(), i);
        MC_REQ(v.isValidOutputIndex(a[0]), sig + "-inside", "%s: own entry %u outside the view", whole.nm.c_str(), i);
    }
    for (int b : few) traverse(whole, v, D, b, P.g, sig + "-traversal", &P.e);
}
static std::vector<Dof> concat(const std::vector<const N*>& v) { std::vector<Dof> r; std::array<unsigned, 6> sh{}; for (auto* p : v) { for (auto d : p->dofs()) { d.leid += sh[d.t]; r.push_back(d); } auto m = p->num(); for (int t = 0; t < 6; ++t) sh[t] += m[t]; } return r; }
static void same_list(const BaseDofMap& m, const std::vector<Dof>& D, const std::string& sig, const std::string& what) {
    if (!mc::require(m.NumDofOnTet() == D.size(), sig, mc::fmt("%s: %u numbers, expected %zu", what.c_str(), m.NumDofOnTet(), D.size()))) return;
    for (unsigned i = 0; i < D.size(); ++i) { auto l = m.LocalOrderOnTet(TetOrder(i)); MC_REQ(eq(l, D[i], i), sig, "%s: entry %u is %s, expected %s", what.c_str(), i, show(l).c_str(), show(D[i], i).c_str()); }
}
template<class T> struct SetTwice { static void run(int nl) { auto f = [](const N&, std::function<std::shared_ptr<BaseDofMap>()>) {}; (void)f; (void)nl; } };
static void d03() {
    std::vector<int> few; { auto f = few_selections(); for (size_t i = 0; i < f.size(); i += 7) few.push_back(f[i]); }
    all_maps([&](const N& r, std::function<std::shared_ptr<BaseDofMap>()> mk) {
        std::vector<Part> parts; parts_of(r, {}, 0, {}, parts);
        mc::run_case("views " + r.nm, sg("view", r), [&] { auto m = mk(); const BaseDofMap& c = *m; auto D = r.dofs();
            for (auto& P : parts) { const int* pd = P.path.data(); int np = P.path.size();
                auto v = c.GetNestedDofMapView(pd, np); view_is(r, P, v, sg("view", r), few);
                auto w = c.GetNestedDofMap(pd, np); view_is(r, P, w, sg("nested", r), {few[3], few[11]});
                auto cp = w.Copy(); view_is(r, P, static_cast<NestedDofMap&>(*cp), sg("nested-copy", r), {});
                auto s = m->GetSubDofMap(pd, np); if (mc::require(!!s, sg("sub", r), r.nm + ": no sub-map")) same_list(*s, P.n->dofs(), sg("sub", r), "sub-map of " + r.nm);
                std::shared_ptr<const BaseDofMap> cs = c.GetSubDofMap(pd, np); if (mc::require(!!cs, sg("sub", r), r.nm + ": no constant sub-map")) same_list(*cs, P.n->dofs(), sg("sub", r), "constant sub-map of " + r.nm);
                DofMap dm(m); auto v2 = dm.GetNestedDofMapView(pd, np); view_is(r, P, v2, sg("view", r), {few[5]});
                if (np >= 1) for (auto& Q : parts) if ((int)Q.path.size() > np && std::equal(P.path.begin(), P.path.end(), Q.path.begin())) { // a view of a view
                    std::vector<int> rest{0}; rest.insert(rest.end(), Q.path.begin() + np, Q.path.end()); auto vv = v.GetNestedDofMapView(rest.data(), rest.size()); view_is(r, Q, vv, sg("view-of-view", r), {}); }
            }
            NestedDofMapView all(m.get()); Part W{{}, &r, 0, {}}; view_is(r, W, all, sg("view-all", r), {few[2]});
            auto cc = c.Copy(); same_list(*cc, D, sg("copy", r), "copy of " + r.nm); MC_REQ(*cc == c && c == *cc && !(*cc != c), sg("copy-equal", r), "%s: copy compares unequal", r.nm.c_str());
            auto other = mk(); MC_REQ(*other == c, sg("twin-equal", r), "%s: equal maps compare unequal", r.nm.c_str());
            int bad[3] = {(int)c.NestedDim(), 0, 0}; auto e1 = m->GetSubDofMap(bad, 1); MC_REQ(!e1, sg("sub-outside", r), "%s: a part that does not exist", r.nm.c_str());
        });
    });
    // products never change the numbering
    auto T = trees(true); std::vector<N> S; for (size_t i = 0; i < T.size(); ++i) if (i < 12 || T[i].kind != N::U) if (i < 24 || i % (mc::thorough() ? 2 : 4) == 0) S.push_back(T[i]);
    for (size_t i = 0; i < S.size(); ++i) for (size_t j = 0; j < S.size(); ++j) mc::run_case("product " + S[i].nm + " , " + S[j].nm, "product", [&] {
        auto a = std::make_shared<DofMap>(S[i].make()), b = std::make_shared<DofMap>(S[j].make()); auto D = concat({&S[i], &S[j]}); std::string w = S[i].nm + " , " + S[j].nm;
        if (S[i].kind == N::C && S[i].ch.empty()) return;
        same_list(*((*a) * (*b)).base(), D, "product", "product of " + w); same_list(*merge({*a, *b}).base(), D, "merge", "merge of " + w); same_list(*merge_with_simplifications({*a, *b}).base(), D, "merge-simplified", "simplified merge of " + w);
        auto mc_ = ComplexDofMap::makeCompressed({a->base(), b->base()}); same_list(mc_, D, "compressed", "compressed " + w);
        if (j < 24) { auto D3 = concat({&S[i], &S[j], &S[i]}); same_list(*((*a) * (*b) * (*a)).base(), D3, "product3", "product of three " + w); auto D4 = concat({&S[i], &S[i], &S[j], &S[j]});
            same_list(ComplexDofMap::makeCompressed({a->base(), a->base(), b->base(), b->base()}), D4, "compressed4", "compressed four " + w); same_list(*merge_with_simplifications({*a, *a, *b, *b}).base(), D4, "merge-simplified4", "simplified merge of four " + w); }
        bool same = S[i].same(S[j]); bool e = *a == *b; MC_REQ(!same || e, "equal", "%s: equal maps compare unequal", w.c_str());
        if (e) { auto x = S[i].dofs(), y = S[j].dofs(); MC_REQ(x == y, "equal-different", "%s: maps of different numbering compare equal", w.c_str()); }
    });
    for (auto& s : S) for (int k = 1; k <= 4; ++k) mc::run_case(mc::fmt("power %d ", k) + s.nm, "power", [&] { DofMap a(s.make()); std::vector<const N*> p(k, &s); auto D = concat(p); same_list(*(a ^ k).base(), D, "power", s.nm); same_list(*Ani::DofT::pow(a, k).base(), D, "power", s.nm); });
    // parts assigned to a compile-time map one by one, and again
    auto L = leaves();
    for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) for (size_t k = 0; k < L.size(); k += 3) mc::run_case("set " + L[i].nm + " " + L[j].nm + " " + L[k].nm, "ct-set", [&] {
        auto U1 = [](const N& l) { return l.sym ? UM(l.symm()) : UM(l.n); };
        ComplexDofMapC<UM, UM> m; m.set<0>(U1(L[i])).set<1>(U1(L[j])); numbering(N::Com({L[i], L[j]}), m, "set-");
        ComplexDofMapC<UM, UM> q; q.set<1>(U1(L[j])).set<0>(U1(L[i])); numbering(N::Com({L[i], L[j]}), q, "set-");
        m.set<0>(U1(L[k])); numbering(N::Com({L[k], L[j]}), m, "reset-"); });
}
// ---------------------------------------------------------------- D04
typedef std::array<unsigned char, 4> Perm;
static std::vector<Perm> perms() { std::vector<Perm> v; Perm p{{0, 1, 2, 3}}; do v.push_back(p); while (std::next_permutation(p.begin(), p.end())); return v; }
// local pattern of weights on the vertices of the element: vertex k of the element carries label pat[k]
static std::vector<std::vector<int>> patterns(int dim, int st) {
    if (dim == 1) return st == 0 ? std::vector<std::vector<int>>{{0, 0}} : std::vector<std::vector<int>>{{1, 0}, {0, 1}};
    if (dim == 2) { if (st == 0) return {{0, 0, 0}}; if (st == 1) return {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; return {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; }
    if (dim == 3) { if (st == 0) return {{0, 0, 0, 0}}; if (st == 1) return {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}; }
    return {};
}
// orbits as they are laid out by the quadrature rules (an independent table of the same convention)
static bool near_eq(double a, double b) { return std::fabs(a - b) < 1e-11; }
static void orbit_from_rules(int dim, int st, std::vector<std::vector<int>>& out) {
    for (int o = 1; o <= 20; ++o) {
        std::vector<std::vector<double>> P; std::vector<int> part;
        if (dim == 2) { auto f = triangle_quadrature_formulas(o); if (!f.IsSymmetric()) continue; for (int i = 0; i < f.GetNumPoints(); ++i) { auto q = f.GetPointWeight(i); P.push_back({q.p[0], q.p[1], q.p[2]}); } auto s = f.GetSymmetryPartition(); part.assign(s.begin(), s.end()); }
        else { auto f = tetrahedron_quadrature_formulas(o); if (!f.IsSymmetric()) continue; for (int i = 0; i < f.GetNumPoints(); ++i) { auto q = f.GetPointWeight(i); P.push_back({q.p[0], q.p[1], q.p[2], q.p[3]}); } auto s = f.GetSymmetryPartition(); part.assign(s.begin(), s.end()); }
        size_t at = 0; for (size_t t = 0; t < part.size(); ++t) { int vol = DofSymmetries::symmetry_volume(dim == 2 ? FACE_UNORIENT : CELL, t); if (part[t] > 0 && (int)t == st) { std::vector<double> vals = P[at]; std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end(), near_eq), vals.end());
                std::vector<std::vector<int>> r; for (int i = 0; i < vol; ++i) { std::vector<int> pat; for (double x : P[at + i]) { int k = 0; while (k < (int)vals.size() && !near_eq(vals[k], x)) ++k; pat.push_back(k); } r.push_back(pat); } out = r; return; }
            if (part[t] > 0) at += (size_t)part[t] * vol; }
    }
}
static void d04() {
    auto P = perms();
    for (int t = 1; t < 6; ++t) { int dim = DIMOF[t]; unsigned char et = 1 << t;
        for (int st = 0; st < OFFS[t + 1] - OFFS[t]; ++st) { int vol = VOL[OFFS[t] + st];
            std::vector<std::vector<int>> pat = patterns(dim, st); bool from_rules = false;
            if (pat.empty() || dim == 3) { std::vector<std::vector<int>> r; orbit_from_rules(dim, st, r); if (!r.empty()) { pat = r; from_rules = true; } }
            for (int e = 0; e < ELEMS[t]; ++e) mc::run_case(mc::fmt("reorder type %d element %d symmetry %d", t, e, st), mc::fmt("reorder:%d.%d", t, st), [&] {
                std::vector<int> V; if (dim == 1) V = {EDN[e][0], EDN[e][1]}; else if (dim == 2) V = {e, (e + 1) % 4, (e + 2) % 4}; else V = {0, 1, 2, 3};
                std::string sig = mc::fmt("reorder:%d.%d", t, st);
                std::vector<std::vector<int>> table(P.size());
                for (size_t pi = 0; pi < P.size(); ++pi) { auto& p = P[pi]; std::vector<char> hit(vol, 0);
                    // rank of each vertex of the element in its new order
                    std::vector<int> rk(V.size()); for (size_t i = 0; i < V.size(); ++i) { int c = 0; for (int w : V) c += p[w] < p[V[i]]; rk[i] = c; }
                    for (int i = 0; i < vol; ++i) { int j = DofSymmetries::index_on_reorderd_elem(et, e, st, i, p.data()); table[pi].push_back(j);
                        if (!mc::require(j >= 0 && j < vol && !hit[j], sig + "-bijection", mc::fmt("type %d element %d symmetry %d permutation %d%d%d%d: index %d goes to %d", t, e, st, p[0], p[1], p[2], p[3], i, j))) continue;
                        hit[j] = 1;
                        if (!pat.empty() && (int)pat.size() == vol) { std::vector<int> moved(V.size()); for (size_t k = 0; k < V.size(); ++k) moved[rk[k]] = pat[i][k];
                            MC_REQ(moved == pat[j], sig + "-place", "type %d element %d symmetry %d permutation %d%d%d%d: index %d goes to %d, another place", t, e, st, p[0], p[1], p[2], p[3], i, j); }
                        mc::state(); } }
                // composition: the rank order is what matters; reordering twice equals reordering once
                if (dim == 3 || dim == 1) for (size_t a = 0; a < P.size(); ++a) for (size_t b = 0; b < P.size(); ++b) { Perm c; for (int k = 0; k < 4; ++k) c[k] = P[b][P[a][k]];
                    for (int i = 0; i < vol; ++i) { int e2 = e; if (dim == 1) { int x = P[a][V[0]], y = P[a][V[1]]; for (int q = 0; q < 6; ++q) if ((EDN[q][0] == x && EDN[q][1] == y) || (EDN[q][0] == y && EDN[q][1] == x)) e2 = q; }
                        if (table[a][i] >= vol) continue; int two = DofSymmetries::index_on_reorderd_elem(et, e2, st, table[a][i], P[b].data()); int one = DofSymmetries::index_on_reorderd_elem(et, e, st, i, c.data());
                        MC_REQ(one == two, sig + "-compose", "type %d element %d symmetry %d index %d: %d%d%d%d then %d%d%d%d gives %d, together %d", t, e, st, i, P[a][0], P[a][1], P[a][2], P[a][3], P[b][0], P[b][1], P[b][2], P[b][3], two, one); mc::trans(); } }
                // two cells seeing the same face with the same vertex order agree (through face 0, whose local order is plain)
                if (dim == 2) for (size_t a = 0; a < P.size(); ++a) { Perm q; for (int k = 0; k < 3; ++k) q[k] = P[a][V[k]]; q[3] = P[a][(e + 3) % 4];
                    for (int i = 0; i < vol; ++i) { int x = table[a][i], y = DofSymmetries::index_on_reorderd_elem(et, 0, st, i, q.data()); MC_REQ(x == y, sig + "-shared", "type %d symmetry %d index %d: seen as face %d gives %d, as face 0 %d", t, st, i, e, x, y); } }
                mc::outcome(mc::fmt("%d %d %d", t, st, (int)from_rules));
            });
        } }
    // sizes of orbits
    mc::run_case("volumes", "volumes", [&] { for (int t = 0; t < 6; ++t) { MC_REQ(DofSymmetries::symmetries_amount(1 << t) == OFFS[t + 1] - OFFS[t], "volumes", "type %d: number of symmetry kinds", t); for (int i = OFFS[t]; i < OFFS[t + 1]; ++i) MC_REQ(DofSymmetries::symmetry_volume(1 << t, i - OFFS[t]) == VOL[i], "volumes", "type %d kind %d", t, i - OFFS[t]); } });
    for (int t = 0; t < 6; ++t) for (int i = OFFS[t]; i < OFFS[t + 1]; ++i) for (unsigned c = 1; c < 4; ++c) mc::run_case(mc::fmt("count %d.%d %u", t, i, c), "counts", [&] { DofSymmetries s; MC_REQ(!s.isInited(), "counts", "fresh symmetry table is initialised"); s.add(1 << t, i - OFFS[t], c); s.add(1 << t, i - OFFS[t]); 
        for (int u = 0; u < 6; ++u) for (int j = OFFS[u]; j < OFFS[u + 1]; ++j) MC_REQ(s.get(1 << u, j - OFFS[u]) == (j == i ? c + 1 : 0), "counts", "count of %d.%d", u, j - OFFS[u]); MC_REQ(s.GetSymMask(1 << t) == 1 << (i - OFFS[t]), "counts", "mask"); });
    // permutation matrices of whole numberings
    std::vector<N> M; for (auto& l : leaves()) M.push_back(l); { auto L = leaves(); M.push_back(N::Vec(2, L[0])); M.push_back(N::Vec(3, L[4])); M.push_back(N::Com({L[1], L[3]})); M.push_back(N::Com({L[2], N::Vec(2, L[3])})); M.push_back(N::Vec(2, N::Com({L[5], L[10]}))); }
    M.push_back(N::Sym("F3", {{0, 0, 0, 0, 0, 0, 1}})); M.push_back(N::Sym("F6", {{0, 0, 0, 0, 0, 0, 0, 1}})); M.push_back(N::Sym("EO2", {{0, 0, 0, 0, 1}})); M.push_back(N::Sym("FO3", {{0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}));
    M.push_back(N::Sym("C6", {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}})); M.push_back(N::Sym("C12", {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}})); M.push_back(N::Sym("C24", {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}})); M.push_back(N::Sym("2s", {{2, 1, 2, 0, 0, 2, 2, 0, 0, 0, 0, 1, 2}}));
    for (auto& r : M) { bool sym = true; std::function<void(const N&)> chk = [&](const N& x) { if (x.kind == N::U && !x.sym && x.dofs().size()) sym = false; for (auto& c : x.ch) chk(c); }; chk(r); if (!sym) continue;
        mc::run_case("matrices " + r.nm, "matrices:" + r.nm, [&] { auto m = r.make(); auto D = r.dofs(); int n = D.size(); std::string sig = "matrices:" + r.nm; std::vector<std::vector<double>> A;
            for (auto& p : P) { std::vector<double> q(n * n + 1, 7.0); S4::build_dof_permutation(*m, p.data(), q.data(), n); q.pop_back(); A.push_back(q); std::vector<int> row(n, 0);
                for (int j = 0; j < n; ++j) { int c = 0, at = -1; for (int i = 0; i < n; ++i) { double v = q[i + j * n]; if (v != 0) { ++c; at = i; ++row[i]; MC_REQ(v == 1 || v == -1, sig, "entry %g", v); bool orient = D[j].t == 2 || D[j].t == 4; if (!orient) MC_REQ(v == 1, sig, "sign on an unoriented location"); } }
                    MC_REQ(c == 1, sig, "%s: column %d of the permutation by %d%d%d%d has %d entries", r.nm.c_str(), j, p[0], p[1], p[2], p[3], c);
                    if (at >= 0) { int dim = DIMOF[D[j].t]; std::set<int> x, y; auto vs = [&](int e) { std::set<int> s; if (dim == 0) s = {e}; if (dim == 1) s = {EDN[e][0], EDN[e][1]}; if (dim == 2) s = {FCN[e][0], FCN[e][1], FCN[e][2]}; return s; }; for (int w : vs(D[j].nelem)) x.insert(p[w]); y = vs(D[at].nelem); MC_REQ(x == y && D[at].t == D[j].t, sig, "%s: location moved to another element", r.nm.c_str()); } }
                for (int i = 0; i < n; ++i) MC_REQ(row[i] == 1, sig, "%s: row %d has %d entries", r.nm.c_str(), i, row[i]); }
            for (int i = 0; i < n; ++i) MC_REQ(n == 0 || A[0][i + i * n] == 1, sig, "%s: the identity moves number %d", r.nm.c_str(), i);
            for (size_t a = 0; a < P.size(); ++a) for (size_t b = 0; b < P.size(); ++b) { Perm c; for (int k = 0; k < 4; ++k) c[k] = P[b][P[a][k]]; size_t ci = std::find(P.begin(), P.end(), c) - P.begin(); bool ok = true;
                for (int j = 0; j < n && ok; ++j) { int ja = -1, jb = -1; double s = 0; for (int i = 0; i < n; ++i) if (A[a][i + j * n] != 0) ja = i, s = A[a][i + j * n]; if (ja < 0) { ok = false; break; } for (int i = 0; i < n; ++i) if (A[b][i + ja * n] != 0) jb = i, s *= A[b][i + ja * n]; ok = jb >= 0 && A[ci][jb + j * n] == s; }
                MC_REQ(ok, sig, "%s: the action of %d%d%d%d followed by %d%d%d%d is not that of their product", r.nm.c_str(), P[a][0], P[a][1], P[a][2], P[a][3], P[b][0], P[b][1], P[b][2], P[b][3]); mc::trans(); }
        });
    }
    // element helpers
    mc::run_case("elements", "elements", [&] { for (int e = 0; e < 6; ++e) { MC_REQ(S4::edge_vertex(e, 0) == EDN[e][0] && S4::edge_vertex(e, 1) == EDN[e][1] && S4::find_edge_elem(EDN[e][0], EDN[e][1]) == e && S4::find_edge_elem(EDN[e][1], EDN[e][0]) == e, "elements", "edge %d", e); }
        for (int f = 0; f < 4; ++f) { std::vector<int> v(FCN[f], FCN[f] + 3); std::sort(v.begin(), v.end()); do MC_REQ(S4::find_face_elem(v[0], v[1], v[2]) == f, "elements", "face %d", f); while (std::next_permutation(v.begin(), v.end())); for (int k = 0; k < 3; ++k) MC_REQ(std::count(FCN[f], FCN[f] + 3, S4::face_vertex(f, k)) == 1, "elements", "face %d", f); }
        std::array<std::array<unsigned char, 4>, 24> ap; S4::all_permutations(ap); std::set<Perm> u(ap.begin(), ap.end()); MC_REQ(u.size() == 24, "elements", "%zu permutations", u.size()); });
}
// ---------------------------------------------------------------- D05
static int closure(int d, int i) {
    static const int FE[4][3] = {{0, 1, 3}, {3, 4, 5}, {1, 2, 5}, {0, 2, 4}}; int b = 0;
    if (d == 3) return 0x3fff; if (d == 2) { for (int k = 0; k < 3; ++k) b |= 1 << FCN[i][k] | 1 << (4 + FE[i][k]); } if (d == 1) b |= 1 << EDN[i][0] | 1 << EDN[i][1]; return b;
}
static const int DMASK[4] = {0xf, 0x3f << 4, 0xf << 10, 1 << 14};
static int observe(const TetGeomSparsity& s, std::string& err) {
    int bits = 0; auto bad = [&](const std::string& e) { if (err.empty()) err = e; };
    for (int d = 0; d < 4; ++d) { auto ids = s.getElemsIds(d); int k = 0, last = -1; for (; k < ids.second; ++k) { int i = ids.first[k]; if (i <= last || i >= NELD[d]) { bad("element list"); break; } last = i; bits |= 1 << (BASE[d] + i); } }
    for (int d = 0; d < 4; ++d) { bool e = !(bits & DMASK[d]); if (s.empty(d) != e) bad(mc::fmt("empty(%d) is %d", d, s.empty(d))); 
        std::vector<int> w, g; for (int i = 0; i < NELD[d]; ++i) if (bits >> (BASE[d] + i) & 1) w.push_back(i);
        int lim = 0; for (auto p = s.beginPos(d); p != s.endPos() && lim < 9; p = s.nextPosOnDim(p), ++lim) { if (!p.isValid() || p.elem_dim != d) { bad("beginPos(dim)"); break; } g.push_back(p.elem_num); }
        if (g != w) bad(mc::fmt("listing of dimension %d", d)); }
    if (s.empty() != (bits == 0)) bad("empty()");
    std::vector<std::pair<int, int>> w, g; for (int d = 0; d < 4; ++d) for (int i = 0; i < NELD[d]; ++i) if (bits >> (BASE[d] + i) & 1) w.push_back({d, i});
    int lim = 0; for (auto p = s.beginPos(); p.isValid() && lim < 20; p = s.nextPos(p), ++lim) g.push_back({p.elem_dim, p.elem_num}); if (g != w) bad("listing of all");
    if (s.endPos().isValid() || s.nextPos(s.endPos()).isValid() || s.nextPosOnDim(s.endPos()).isValid()) bad("endPos"); return bits;
}
struct Op { std::string n; std::function<void(TetGeomSparsity&)> f; std::function<int(int)> m; };
static const std::vector<Op>& ops() {
    static std::vector<Op> v; if (!v.empty()) return v;
    typedef TetGeomSparsity S;
    v.push_back({"clear", [](S& s) { s.clear(); }, [](int) { return 0; }});
    v.push_back({"~", [](S& s) { s = ~s; }, [](int b) { return 0x7fff & ~b; }});
    for (int c = 0; c < 2; ++c) { bool cl = c;
        v.push_back({mc::fmt("setCell(%d)", c), [cl](S& s) { s.setCell(cl); }, [cl](int b) { return b | 1 << 14 | (cl ? closure(3, 0) : 0); }}); v.push_back({mc::fmt("unsetCell(%d)", c), [cl](S& s) { s.unsetCell(cl); }, [cl](int b) { return b & ~(1 << 14 | (cl ? closure(3, 0) : 0)); }});
        for (int i = 0; i < 4; ++i) { v.push_back({mc::fmt("setFace(%d,%d)", i, c), [cl, i](S& s) { s.setFace(i, cl); }, [cl, i](int b) { return b | 1 << (10 + i) | (cl ? closure(2, i) : 0); }}); v.push_back({mc::fmt("unsetFace(%d,%d)", i, c), [cl, i](S& s) { s.unsetFace(i, cl); }, [cl, i](int b) { return b & ~(1 << (10 + i) | (cl ? closure(2, i) : 0)); }}); }
        for (int i = 0; i < 6; ++i) { v.push_back({mc::fmt("setEdge(%d,%d)", i, c), [cl, i](S& s) { s.setEdge(i, cl); }, [cl, i](int b) { return b | 1 << (4 + i) | (cl ? closure(1, i) : 0); }}); v.push_back({mc::fmt("unsetEdge(%d,%d)", i, c), [cl, i](S& s) { s.unsetEdge(i, cl); }, [cl, i](int b) { return b & ~(1 << (4 + i) | (cl ? closure(1, i) : 0)); }}); }
        for (int d = 0; d < 4; ++d) for (int i = 0; i < NELD[d]; ++i) { v.push_back({mc::fmt("set(%d,%d,%d)", d, i, c), [cl, d, i](S& s) { s.set(d, i, cl); }, [cl, d, i](int b) { return b | 1 << (BASE[d] + i) | (cl ? closure(d, i) : 0); }}); v.push_back({mc::fmt("unset(%d,%d,%d)", d, i, c), [cl, d, i](S& s) { s.unset(d, i, cl); }, [cl, d, i](int b) { return b & ~(1 << (BASE[d] + i) | (cl ? closure(d, i) : 0)); }}); }
    }
    for (int i = 0; i < 4; ++i) { v.push_back({mc::fmt("setNode(%d)", i), [i](S& s) { s.setNode(i); }, [i](int b) { return b | 1 << i; }}); v.push_back({mc::fmt("unsetNode(%d)", i), [i](S& s) { s.unsetNode(i); }, [i](int b) { return b & ~(1 << i); }}); }
    v.push_back({"setNodes", [](S& s) { s.setNodes(); }, [](int b) { return b | DMASK[0]; }}); v.push_back({"unsetNodes", [](S& s) { s.unsetNodes(); }, [](int b) { return b & ~DMASK[0]; }});
    v.push_back({"setEdges", [](S& s) { s.setEdges(); }, [](int b) { return b | DMASK[1]; }}); v.push_back({"unsetEdges", [](S& s) { s.unsetEdges(); }, [](int b) { return b & ~DMASK[1]; }});
    v.push_back({"setFaces", [](S& s) { s.setFaces(); }, [](int b) { return b | DMASK[2]; }}); v.push_back({"unsetFaces", [](S& s) { s.unsetFaces(); }, [](int b) { return b & ~DMASK[2]; }});
    for (int d = 0; d < 4; ++d) { v.push_back({mc::fmt("set(%d)", d), [d](S& s) { s.set((unsigned char)d); }, [d](int b) { return b | DMASK[d]; }}); v.push_back({mc::fmt("unset(%d)", d), [d](S& s) { s.unset((unsigned char)d); }, [d](int b) { return b & ~DMASK[d]; }}); }
    static const int pats[] = {0, 0x7fff, 0x1249, 0x6db6, 0xf, 0x3f0, 0x3c00, 0x4000, 0x5555, 0x2aaa, 0x4211};
    for (int p : pats) { v.push_back({mc::fmt("|%x", p), [p](S& s) { s = s | selection(p); }, [p](int b) { return b | p; }}); v.push_back({mc::fmt("&%x", p), [p](S& s) { s = s & selection(p); }, [p](int b) { return b & p; }}); v.push_back({mc::fmt("^%x", p), [p](S& s) { s = s ^ selection(p); }, [p](int b) { return b ^ p; }});
        v.push_back({mc::fmt("set(%x)", p), [p](S& s) { s.set(selection(p)); }, [p](int b) { return b | p; }}); v.push_back({mc::fmt("unset(%x)", p), [p](S& s) { s.unset(selection(p)); }, [p](int b) { return b & ~p; }}); }
    return v;
}
static void d05() {
    // every selection x every step.  The step's result is compared with plain sets and, where its stored form is
    // not the plain one, every second step is taken from it as well; so every history is covered by induction.
    for (int blk = 0; blk < 512; ++blk) mc::run_case(mc::fmt("selections %d..%d", blk * 64, blk * 64 + 63), "selection", [&] {
        for (int b = blk * 64; b < blk * 64 + 64; ++b) { TetGeomSparsity s0 = selection(b); std::string e0; int o0 = observe(s0, e0); MC_REQ(o0 == b && e0.empty(), "selection-build", "%s: built as %s %s", selname(b).c_str(), selname(o0).c_str(), e0.c_str()); mc::state();
            for (auto& op : ops()) { TetGeomSparsity s = s0; op.f(s); std::string e; int o = observe(s, e), w = op.m(b); mc::trans(); std::string g = op.n.substr(0, op.n.find_first_of("(0123456789"));
                if (g.empty()) g = op.n.substr(0, 1);
                MC_REQ(o == w, "selection:" + g, "%s then %s: %s, expected %s", selname(b).c_str(), op.n.c_str(), selname(o).c_str(), selname(w).c_str()); MC_REQ(e.empty(), "selection-query:" + g, "%s then %s: %s is wrong", selname(b).c_str(), op.n.c_str(), e.c_str());
                TetGeomSparsity c = selection(w); if (memcmp(&c, &s, sizeof s)) for (auto& op2 : ops()) { TetGeomSparsity s2 = s; op2.f(s2); std::string e2; int o2 = observe(s2, e2), w2 = op2.m(w); MC_REQ(o2 == w2 && e2.empty(), "selection2:" + g, "%s then %s then %s: %s, expected %s %s", selname(b).c_str(), op.n.c_str(), op2.n.c_str(), selname(o2).c_str(), selname(w2).c_str(), e2.c_str()); }
            } } });
    // all pairs of sub-selections of one dimension, the others fixed
    for (int d = 0; d < 4; ++d) for (int fix : {0, 0x7fff, 0x2aaa}) mc::run_case(mc::fmt("pairs %d %x", d, fix), "pairs", [&] { int n = 1 << NELD[d];
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { int x = (fix & ~DMASK[d]) | a << BASE[d], y = (fix & ~DMASK[d]) / 3 * 2; y = (y & ~DMASK[d]) & 0x7fff; y |= b << BASE[d]; TetGeomSparsity p = selection(x), q = selection(y), s = p, u = p; s.set(q); u.unset(q); std::string e; mc::state();
            MC_REQ(observe(p | q, e) == (x | y), "pairs:|", "%x | %x", x, y); MC_REQ(observe(p & q, e) == (x & y), "pairs:&", "%x & %x", x, y); MC_REQ(observe(p ^ q, e) == (x ^ y), "pairs:^", "%x ^ %x", x, y); MC_REQ(observe(s, e) == (x | y), "pairs:set", "%x set %x", x, y); MC_REQ(observe(u, e) == (x & ~y), "pairs:unset", "%x unset %x", x, y); MC_REQ(e.empty(), "pairs:query", "%x %x: %s", x, y, e.c_str()); } });
}
#ifndef DOFMAP_NO_MAIN
static void body() { std::string v = mc::opt().variant; if (v == "d01") d01(); else if (v == "d02") d02(); else if (v == "d03") d03(); else if (v == "d04") d04(); else d05(); }
MC_MAIN(body)
#endif
