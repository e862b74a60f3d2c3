// P01: global numbering of the degrees of freedom of a distributed mesh: every enumeration, every distribution of the cells over up to three processes.
#include "inm_common.h"
typedef IGlobEnumeration PGE; typedef std::array<int, 5> K5;
struct Kind { std::string name; int type; int arr = 0; bool rev = false; }; // type 0 Simple, 1 Ordered, 2 GlobEnumeration, 3 GlobEnumeration with an enumerator of the user
static const char* GN[6] = {"ANITYPE", "MINIBLOCKS", "NATURAL", "DIMUNION", "BYELEMTYPE", "ETDIMBLOCKS"};
static std::vector<std::array<unsigned char, 5>> arrs() { std::vector<std::array<unsigned char, 5>> r; std::array<unsigned char, 5> a{{0, 1, 2, 3, 4}}; do r.push_back(a); while (std::next_permutation(a.begin(), a.end())); return r; }
static const auto ARR = arrs();
static std::vector<Kind> kinds() { std::vector<Kind> r; for (int t = 0; t < 2; ++t) r.push_back({std::string("simple ") + GN[t], 0, t}); for (int t = 0; t < 6; ++t) r.push_back({std::string("global ") + GN[t], 2, t}); for (int q = 0; q < 3; ++q) r.push_back({mc::fmt("given by the user (form %d)", q), 3, q}); for (int a = 0; a < 120; ++a) for (int v = 0; v < 2; ++v) r.push_back({mc::fmt("ordered %d%d%d%d%d%s", ARR[a][0], ARR[a][1], ARR[a][2], ARR[a][3], ARR[a][4], v ? " reversed" : ""), 1, a, v == 1}); return r; }
static std::shared_ptr<PGE> make(const Kind& k, Mesh* m, const FemVarContainer& vars, int form) {
    if (k.type == 0) { std::shared_ptr<SimpleEnumerator> e(new SimpleEnumerator(SimpleEnumerator::ASSEMBLING_TYPE(k.arr))); if (form) { e.reset(new SimpleEnumerator()); e->setAssemblingType(SimpleEnumerator::ASSEMBLING_TYPE(k.arr)); } e->setMesh(m).setVars(vars).setup(); return e; }
    if (k.type == 1) { if (form) return std::shared_ptr<PGE>(new OrderedEnumerator(m, vars, ARR[k.arr], k.rev)); std::shared_ptr<OrderedEnumerator> e(new OrderedEnumerator); e->setArrangment(ARR[k.arr]).setReverse(k.rev).setMesh(m).setVars(vars).setup(); return e; }
    std::shared_ptr<GlobEnumeration> e(new GlobEnumeration);
    if (k.type == 2) { if (form) e.reset(new GlobEnumeration(GlobEnumeration::ASSEMBLING_TYPE(k.arr))); else e->setAssemblingType(GlobEnumeration::ASSEMBLING_TYPE(k.arr)); }
    else if (k.arr == 0) { std::shared_ptr<OrderedEnumerator> o = std::make_shared<OrderedEnumerator>(); o->setArrangment({{4, 3, 2, 1, 0}}).setReverse(true); e->setBaseEnumerator(std::shared_ptr<IGlobEnumeration>(o)); }
    else if (k.arr == 1) { OrderedEnumerator o; o.setArrangment({{4, 3, 2, 1, 0}}).setReverse(true); e->setBaseEnumerator(std::move(o)); }
    else e->setBaseEnumerator<SimpleEnumerator>();
    e->setMesh(m).setVars(vars).setup(); return e;
}
/// the place of a degree of freedom in the order of the enumeration; elements are counted from the first element of the process
static std::pair<K5, bool> key(const Kind& k, const D& d, int gid) {
    int type = k.type; std::array<unsigned char, 5> a{{0, 1, 2, 3, 4}}; int simple = k.arr; bool rev = k.rev; if (type == 1) a = ARR[k.arr];
    if (type == 2) { type = k.arr < 2 ? 0 : 1; static const std::array<unsigned char, 5> G[4] = {{{0, 1, 2, 3, 4}}, {{0, 2, 3, 4, 1}}, {{2, 0, 1, 3, 4}}, {{2, 0, 3, 4, 1}}}; if (type) a = G[k.arr - 2]; }
    if (type == 3) { type = k.arr == 2 ? 0 : 1; simple = 0; a = {{4, 3, 2, 1, 0}}; rev = k.arr != 2; }
    if (type == 0) return {simple == 0 ? K5{{MD[d.et], int(d.edof), gid, 0, 0}} : K5{{MD[d.et], gid, int(d.edof), 0, 0}}, false};
    int val[5] = {d.v, d.d, d.et, gid, d.q}; K5 r; for (int i = 0; i < 5; ++i) r[i] = val[a[i]]; return {r, rev};
}
static double code(int n, int e, unsigned k) { return 1 + k + 64. * (e + 64 * n); }
typedef std::tuple<int, int, unsigned> Dof3; // dimension, entity, number on the element
static void check(const Set& S, const mock::Topo& T, const mock::Dist& DI, const Kind& k, int form, const std::string& sg) {
    auto B = mock::build(T, DI); mock::Built& b = *B; int np = DI.nproc; FemVarContainer vars = vars_of(S); auto L = layout(S); size_t nv = S.v.size();
    std::vector<std::shared_ptr<PGE>> E(np); std::vector<Sparse::Vector> vec(np), vec2(np); std::vector<std::array<Tag, 4>> u(np); std::vector<std::vector<std::vector<Tag>>> w(np, std::vector<std::vector<Tag>>(5, std::vector<Tag>(nv)));
    ElementType mask = NONE; unsigned mx = 0; for (int n = 0; n < 4; ++n) if (!L[n].empty()) mask |= ElementTypeFromDim(n), mx = std::max(mx, unsigned(L[n].size()));
    std::vector<size_t> ntags(np);
    b.world.run(np, [&](int p) {
        Mesh* m = b.m[p].get(); if (form & 1) { m->AssignGlobalID(NODE | EDGE | FACE | CELL); PGE::createGlobalToLocalIDMap(m, mask); }
        E[p] = make(k, m, vars, form & 1); PGE& e = *E[p];
        if (form & 2) { Sparse::Vector x; e.setMesh(m).setVars(vars); e.setup(); }
        for (int i = 0; i < 4; ++i) u[p][i] = m->CreateTag(mc::fmt("u%d", i), DATA_REAL, mask, NONE, mx);
        for (size_t v = 0; v < nv; ++v) { unsigned mv = 0; ElementType vm = NONE; for (int n = 0; n < 4; ++n) { unsigned c = 0; for (auto& d : L[n]) c += d.v == int(v); mv = std::max(mv, c); if (c) vm |= ElementTypeFromDim(n); } for (int i = 0; i < 5; ++i) w[p][i][v] = m->CreateTag(mc::fmt("w%d_%d", i, int(v)), DATA_REAL, vm, NONE, mv); }
        for (int n = 0; n < 4; ++n) for (size_t l = 0; l < m->el[n].size(); ++l) if (m->el[n][l].alive) for (auto& d : L[n]) m->RealArray(ComposeHandleNum(n, int(l)), u[p][0])[d.edof] = code(n, m->key[n][l], d.edof);
        mc::trans();
        e.CopyByEnumeration(u[p][0], vec[p]); e.CopyByEnumeration(vec[p], u[p][1]); e.CopyByEnumeration(vec[p], w[p][0]); e.CopyByEnumeration(w[p][0], vec2[p]); e.CopyByEnumeration(u[p][0], w[p][1]); e.CopyByEnumeration(w[p][1], u[p][2]);
        for (size_t v = 0; v < nv; ++v) { e.CopyVarByEnumeration(vec[p], w[p][2][v], int(v)); e.CopyVarByEnumeration(u[p][0], w[p][3][v], int(v)); e.CopyVarByEnumeration(w[p][2][v], int(v), u[p][3]); e.CopyVarByEnumeration(int(v), w[p][3][v], w[p][4][v]); }
        ntags[p] = m->tags.size();
    });
    // numbers
    std::map<Dof3, long> num; std::set<long> used; long total = 0, at = 0; for (int n = 0; n < 4; ++n) total += long(L[n].size() * b.ent[n].size());
    for (int p = 0; p < np; ++p) { PGE& e = *E[p]; Mesh& m = *b.m[p]; mc::state();
        std::vector<std::pair<K5, Dof3>> mine; bool rev = false; long count = 0; std::array<long, 4> ne{{0, 0, 0, 0}};
        for (int n = 0; n < 4; ++n) for (size_t i = 0; i < b.ent[n].size(); ++i) if (b.owner[n][i] == p) { ++ne[n]; for (auto& d : L[n]) { auto q = key(k, d, int(b.gid[n][i] - e.getBegElemID()[n])); rev = q.second; mine.push_back({q.first, Dof3(n, int(i), d.edof)}); ++count; } }
        MC_REQ(e.getMatrixSize() == total && bool(e), sg + "size", "size of the matrix is %ld, there are %ld degrees of freedom", e.getMatrixSize(), total);
        MC_REQ(e.getBegInd() == at && e.getEndInd() == at + count, sg + "interval", "process %d owns %ld degrees of freedom after %ld of lower processes, its interval is [%ld, %ld)", p, count, at, e.getBegInd(), e.getEndInd());
        for (int et = 0; et < 6; ++et) { unsigned c = 0; for (auto& d : L[MD[et]]) c += d.et == et; MC_REQ(e.getNumDofs()[et] == c, sg + "numdof", "number of degrees of freedom of type %d", et); }
        for (int n = 0; n < 4; ++n) { MC_REQ(e.getInmostMeshNumDof()[n] == L[n].size(), sg + "numdof", "number of degrees of freedom of dimension %d", n); if (!L[n].empty()) MC_REQ(e.getNumElem()[n] == ne[n] && e.getEndElemID()[n] - e.getBegElemID()[n] == ne[n], sg + "numelem", "process %d: %ld elements of dimension %d, not %ld", p, e.getNumElem()[n], n, ne[n]); }
        MC_REQ(e.getInmostVarElementType() == mask && (!S.nodes_needed || m.HaveGlobalID(NODE)), sg + "types", "types of elements, or numbers of nodes were not assigned");
        std::sort(mine.begin(), mine.end()); if (rev) std::reverse(mine.begin(), mine.end());
        for (size_t i = 0; i < mine.size(); ++i) num[mine[i].second] = at + long(i);
        at += count; mc::checked(5); }
    MC_REQ(long(num.size()) == total, "machinery", "numbering of the reference");
    for (int p = 0; p < np; ++p) { PGE& e = *E[p]; Mesh& m = *b.m[p]; std::map<long, Dof3> back; for (auto& q : num) if (q.second >= e.getBegInd() && q.second < e.getEndInd()) back[q.second] = q.first;
        for (int n = 0; n < 4; ++n) for (size_t l = 0; l < m.el[n].size(); ++l) if (m.el[n][l].alive) { HandleType h = ComposeHandleNum(n, int(l)); Element el(&m, h); int ent = m.key[n][l]; bool ghost = m.rec(h).st == Element::Ghost;
            for (auto& d : L[n]) { PGE::NaturalIndex ni(el, DT::NumToGeomType(d.et), d.v, d.d, d.q); long x = num.at(Dof3(n, ent, d.edof)); mc::checked(4);
                auto same = [&](const PGE::NaturalIndexExt& f) { return f.GetElemDofId() == d.edof && f.GetSingleVarDofId() == d.vdof && static_cast<const PGE::NaturalIndex&>(f) == ni && f.elem_type == ni.elem_type && f.var_id == d.v && f.dim_id == d.d && f.dim_elem_dof_id == d.q && f.elem.GetHandle() == h; };
                auto f1 = e.getFullIndex(ni), f2 = e.getFullIndex(el, int(d.edof)), f3 = e.getFullIndex(el, unsigned(d.v), int(d.vdof));
                MC_REQ(same(f1), sg + "index", "index of type %d variable %d component %d number %d: place %u (%u in its variable) instead of %u (%u)", d.et, d.v, d.d, d.q, f1.GetElemDofId(), f1.GetSingleVarDofId(), d.edof, d.vdof);
                MC_REQ(same(f2), sg + "index-place", "degree of freedom %u of an element of dimension %d is type %d variable %d component %d number %d place %u/%u instead of type %d variable %d component %d number %d place %u/%u", d.edof, n, int(DT::GeomTypeToNum(f2.elem_type)), f2.var_id, f2.dim_id, f2.dim_elem_dof_id, f2.GetElemDofId(), f2.GetSingleVarDofId(), d.et, d.v, d.d, d.q, d.edof, d.vdof);
                MC_REQ(same(f3), sg + "index-var", "degree of freedom %u of variable %d on an element of dimension %d is type %d component %d number %d place %u/%u instead of type %d component %d number %d place %u/%u", d.vdof, d.v, n, int(DT::GeomTypeToNum(f3.elem_type)), f3.dim_id, f3.dim_elem_dof_id, f3.GetElemDofId(), f3.GetSingleVarDofId(), d.et, d.d, d.q, d.edof, d.vdof);
                MC_REQ(e.OrderC(ni).id == x, sg + "column", "process %d, %s element %d of dimension %d, degree of freedom %u (type %d): column %ld instead of %ld", p, ghost ? "ghost" : "own", ent, n, d.edof, d.et, e.OrderC(ni).id, x);
                if (!ghost) MC_REQ(e(ni).id == x && e.OrderR(ni).id == x, sg + "row", "process %d, element %d of dimension %d, degree of freedom %u: row %ld instead of %ld", p, ent, n, d.edof, e(ni).id, x);
                double c = code(n, ent, d.edof); auto R = [&](Tag t, unsigned i) { return m.RealArray(h, t)[i]; };
                MC_REQ(R(u[p][1], d.edof) == c && R(u[p][2], d.edof) == c && R(w[p][0][d.v], d.vdof) == c && R(w[p][1][d.v], d.vdof) == c && R(w[p][2][d.v], d.vdof) == c && R(w[p][3][d.v], d.vdof) == c && R(u[p][3], d.edof) == c && R(w[p][4][d.v], d.vdof) == c, sg + "copy", "process %d, %s element %d of dimension %d, degree of freedom %u: value %g is copied as %g %g %g %g %g %g %g %g", p, ghost ? "ghost" : "own", ent, n, d.edof, c, R(u[p][1], d.edof), R(u[p][2], d.edof), R(w[p][0][d.v], d.vdof), R(w[p][1][d.v], d.vdof), R(w[p][2][d.v], d.vdof), R(w[p][3][d.v], d.vdof), R(u[p][3], d.edof), R(w[p][4][d.v], d.vdof)); }
            if (!L[n].empty() && m.HaveGlobalID(NODE) && n == 0) MC_REQ(e.GNodeIndex(Node(&m, h)) == b.gid[0][ent], sg + "node", "number of a node"); }
        // numbers to places, iterators
        auto nat = [&](const PGE::NaturalIndex& g) { int n = g.elem.GetElementNum(); for (auto& d : L[n]) if (DT::NumToGeomType(d.et) == g.elem_type && d.v == g.var_id && d.d == g.dim_id && d.q == g.dim_elem_dof_id) return Dof3(n, m.key[n].at(g.elem.LocalID()), d.edof); return Dof3(-1, -1, 0); };
        for (long x = e.getBegInd(); x < e.getEndInd(); ++x) { MC_REQ(nat(e(PGE::EnumerateIndex(x))) == back.at(x), sg + "inverse", "process %d: the degree of freedom with number %ld is found in a wrong place", p, x); MC_REQ(vec[p][x] == code(std::get<0>(back[x]), std::get<1>(back[x]), std::get<2>(back[x])) && vec2[p][x] == vec[p][x], sg + "copy-vector", "entry %ld of the vector", x); mc::checked(2); }
        { long x = e.getBegInd(); auto it = e.beginByVector(), en = e.endByVector(); auto st = it; for (; it != en; ++it, ++x) { MC_REQ(x < e.getEndInd() && (*it).GetVecInd().id == x && nat((*it).GetNatInd()) == back.at(x) && it->GetVecInd().id == x, sg + "by-vector", "iterator over numbers at %ld", x); }
          MC_REQ(x == e.getEndInd(), sg + "by-vector", "iterator over numbers stops at %ld", x); const auto cs = st, ce = en; long n = e.getEndInd() - e.getBegInd();
          MC_REQ(ce - cs == n && (cs < ce) == (n > 0) && (cs >= ce) == (n == 0) && (ce >= cs) && cs >= cs && cs <= cs && !(cs > ce) && (cs <= ce) && cs + n == ce && n + cs == ce && ce - n == cs, sg + "by-vector-order", "comparison or difference of iterators over %ld numbers", n);
          for (long i = 0; i < n; ++i) { auto j = cs + i; MC_REQ(nat(cs[i].GetNatInd()) == back.at(e.getBegInd() + i) && nat((*j).GetNatInd()) == back.at(e.getBegInd() + i) && j - cs == i && (ce - (n - i)) == j, sg + "by-vector-random", "random access to number %ld", i); auto j2 = j; ++j2; MC_REQ(j2 > j && j2 >= j && !(j >= j2) && --j2 == j, sg + "by-vector-order", "comparison of iterators"); } }
        // slices by place
        auto slice = [&](int v, int d, int q, unsigned char et, long le) { mc::trans(); std::multiset<Dof3> got, exp; long guard = 0; for (auto it = e.beginByGeom(v, d, q, et, le); it != e.endByGeom() && guard++ < 4 * total + 8; ++it) { got.insert(nat(it->GetNatInd())); auto nd = nat(it->GetNatInd()); if (std::get<0>(nd) < 0 || !num.count(nd) || it->GetVecInd().id != num[nd]) { mc::require(false, sg + "by-geom-number", "iterator over places gives a wrong number"); } }
            for (int n = 0; n < 4; ++n) for (size_t l = 0; l < m.el[n].size(); ++l) if (m.el[n][l].alive && m.el[n][l].st != Element::Ghost && (le < 0 || le == long(l))) for (auto& x : L[n]) if ((v < 0 || v == x.v) && (d < 0 || d == x.d) && (q < 0 || q == x.q) && (DT::NumToGeomType(x.et) & et)) exp.insert(Dof3(n, m.key[n][l], x.edof));
            mc::checked(); if (got != exp) { std::string miss; for (auto& x : exp) if (got.count(x) != exp.count(x)) { miss = mc::fmt("misses or repeats number %u of element %d of dimension %d", std::get<2>(x), std::get<1>(x), std::get<0>(x)); break; } MC_REQ(false, sg + "by-geom", "process %d, variable %d component %d number %d types %d element %ld: iteration visits %d of %d degrees of freedom, %s", p, v, d, q, int(et), le, int(got.size()), int(exp.size()), miss.c_str()); } };
        int rot = form / 4; int mxd = 1, mxq = 0; for (int n = 0; n < 4; ++n) for (auto& x : L[n]) mxd = std::max(mxd, x.d + 1), mxq = std::max(mxq, x.q); long lmax = 1; for (int n = 0; n < 4; ++n) lmax = std::max(lmax, long(m.el[n].size()));
        slice(-1, -1, -1, 63, -1); int c = 0; for (int v = -1; v < int(nv); ++v) for (int d = -1; d < mxd; ++d) for (int q = -1; q <= mxq; ++q) for (int et = 1; et < 64; ++et) if (mc::thorough() ? (++c % 16) == rot % 16 : (++c % 61) == rot % 61) { slice(v, d, q, (unsigned char)et, -1); slice(v, d, q, (unsigned char)et, (c + rot) % lmax); }
        // lower bounds
        if (auto* o = dynamic_cast<OrderedEnumerator*>(&e)) { auto ar = o->getArrangement(); MC_REQ(ar.first == ARR[k.arr] && ar.second, sg + "arrangement", "arrangement is not preserved"); std::vector<std::pair<K5, long>> ord; for (auto& q : back) { auto& d = L[std::get<0>(q.second)][std::get<2>(q.second)]; ord.push_back({key(k, d, int(b.gid[std::get<0>(q.second)][std::get<1>(q.second)] - e.getBegElemID()[std::get<0>(q.second)])).first, q.first}); } std::sort(ord.begin(), ord.end());
            int c = 0; for (int et = 0; et < 6; ++et) for (int g = 0; g <= int(b.ent[MD[et]].size()); ++g) for (int v = 0; v < int(nv); ++v) for (int d = 0; d <= mxd; ++d) for (int q = 0; q <= mxq + 1; ++q) if (++c % (mc::thorough() ? 7 : 37) == rot % (mc::thorough() ? 7 : 37)) { D x{et, v, d, q, 0, 0}; int n = MD[et]; long bg = o->getBegElemID()[n]; if (L[n].empty()) continue; K5 kk = key(k, x, int(std::max<long>(g, bg) - bg)).first; auto lb = std::lower_bound(ord.begin(), ord.end(), std::make_pair(kk, LONG_MIN)); long expn = lb == ord.end() ? o->getEndInd() : lb->second; mc::trans(); mc::checked();
                long got = (*o->getLowerOrderIndex(g, PGE::IsoElementIndex(DT::NumToGeomType(et), v, d, q))).GetVecInd().id; MC_REQ(got == expn, sg + "lower", "first number not before type %d variable %d component %d element %d number %d is %ld instead of %ld", et, v, d, g, q, got, expn); } } }
    // owned tags go with the enumerator
    if (form & 1) for (int p = 0; p < np; ++p) { E[p]->Clear(); MC_REQ(E[p]->getMatrixSize() == -1 && !bool(*E[p]), sg + "clear", "a cleared enumeration is not empty"); }
    for (int p = 0; p < np; ++p) { E[p].reset(); size_t left = 0; for (auto& t : b.m[p]->tags) left += t->name.find("_GenEnum") == 0; MC_REQ(left == 0, sg + "tags", "%d tags of a destroyed enumeration stay on the mesh", int(left)); }
}
static void body() {
    auto S = sets(); auto T = topos(); auto K = kinds(); for (auto& l : large()) T.push_back(l); int c = 0; int step = mc::thorough() ? 30 : 240;
    for (size_t is = 0; is < S.size(); ++is) for (size_t it = 0; it < T.size(); ++it) { auto D = dists(T[it].t.tets.size()); for (size_t id = 0; id < D.size(); ++id) { ++c; bool par = D[id].nproc > 1; if (!mc::thorough() && T[it].t.tets.size() >= 3 && par && (id + is) % 5) continue;
        std::string own; for (int o : D[id].owner) own += char('0' + o);
        mc::run_case(mc::fmt("%s on %s, cells of %d processes %s, %d layers, order %d", S[is].name.c_str(), T[it].name.c_str(), D[id].nproc, own.c_str(), D[id].layers, D[id].local), "numbering", [&] {
            int q = 0; for (auto& k : K) { ++q; if (k.type == 1 && (q + 17 * c) % step) continue; if (k.type != 1 && !mc::thorough() && (q + c) % 3) continue; check(S[is], T[it].t, D[id], k, (c + q) * 5 % 244, k.type == 1 ? (k.rev ? "ordered-reversed:" : "ordered:") : k.name + ":"); } });
    } }
}
MC_MAIN(body)
