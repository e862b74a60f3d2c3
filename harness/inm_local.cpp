// P03: degrees of freedom of a cell in the mesh interface: connectivity of a cell, place and orientation of every degree of freedom, gathering, renumbering.
#include "trace_common.h"
#include "anifem++/inmost_interface/ordering.h"
#include "mock/meshes.h"
using namespace INMOST; using Ani::DofT::BaseDofMap;
typedef std::array<int, 4> I4;
static int parity(const std::vector<int>& p) { int s = 0; for (size_t i = 0; i < p.size(); ++i) for (size_t j = i + 1; j < p.size(); ++j) s ^= p[i] > p[j]; return s; }
static double det4(const std::array<std::array<double, 3>, 4>& x) { V3 a, b, c; for (int k = 0; k < 3; ++k) a[k] = x[1][k] - x[0][k], b[k] = x[2][k] - x[0][k], c[k] = x[3][k] - x[0][k]; return ref::Geo::dot(a, ref::Geo::cross(b, c)); }

// ---- connectivity: every order of the nodes and faces of a cell, of the edges of its faces and of the ends of its edges
static void conn() {
    mock::Topo t; t.pts = {{0, 0, 0}, {1.1, 0.2, 0.1}, {0.3, 0.9, -0.2}, {0.2, 0.1, 1.2}}; t.tets = {{0, 1, 2, 3}};
    auto ord = orders(); static const int P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int no = 0; no < 24; ++no) for (int fo = 0; fo < 24; ++fo) mc::run_case(mc::fmt("connectivity: nodes %d faces %d", no, fo), "connectivity", [&] {
        mock::Dist d; d.local = fo % 3; auto B = mock::build(t, d); Mesh& m = *B->m[0]; HandleType hc = mock::handle(m, 3, 0); auto& rc = m.rec(hc);
        auto nodes0 = rc.high; auto faces0 = rc.low; for (int i = 0; i < 4; ++i) rc.high[i] = nodes0[ord[no][i]], rc.low[i] = faces0[ord[fo][i]];
        std::array<std::vector<HandleType>, 4> fe; for (int f = 0; f < 4; ++f) fe[f] = m.rec(rc.low[f]).low;
        std::vector<HandleType> ed; std::array<std::array<HandleType, 2>, 6> en; for (int e = 0; e < 6; ++e) { ed.push_back(mock::handle(m, 1, e)); en[e] = {m.rec(ed[e]).low[0], m.rec(ed[e]).low[1]}; }
        std::map<std::pair<HandleType, HandleType>, HandleType> edge_of; for (int e = 0; e < 6; ++e) edge_of[std::minmax(en[e][0], en[e][1])] = ed[e];
        std::map<std::set<HandleType>, HandleType> face_of; for (int f = 0; f < 4; ++f) { std::set<HandleType> s; for (auto e : fe[f]) for (int k = 0; k < 6; ++k) if (ed[k] == e) s.insert(en[k][0]), s.insert(en[k][1]); face_of[s] = rc.low[f]; }
        HandleType exp[2][4]; for (int i = 0; i < 4; ++i) exp[0][i] = exp[1][i] = rc.high[i];
        { std::array<std::array<double, 3>, 4> x; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) x[i][k] = Node(&m, rc.high[i]).Coords()[k]; if (det4(x) > 0) std::swap(exp[1][2], exp[1][3]); }
        HandleType ee[2][6], ef[2][4]; for (int r = 0; r < 2; ++r) { for (int k = 0; k < 6; ++k) ee[r][k] = edge_of.at(std::minmax(exp[r][EDN[k][0]], exp[r][EDN[k][1]])); for (int f = 0; f < 4; ++f) ef[r][f] = face_of.at({exp[r][f], exp[r][(f + 1) % 4], exp[r][(f + 2) % 4]}); }
        Cell cell(&m, hc); int step = mc::thorough() ? 1 : 7; int cnt = (no * 5 + fo) % step;
        std::string sg = "connectivity";
        for (int a = 0; a < 216; ++a) { int q[3] = {a % 6, a / 6 % 6, a / 36}; for (int f = 0; f < 4; ++f) for (int k = 0; k < 3; ++k) m.rec(rc.low[f]).low[k] = fe[f][P3[f < 3 ? q[f] : a % 6][k]];
            for (int fl = 0; fl < 64; ++fl) { if (++cnt % step) continue; for (int e = 0; e < 6; ++e) { auto& l = m.rec(ed[e]).low; l[0] = en[e][fl >> e & 1]; l[1] = en[e][1 - (fl >> e & 1)]; }
                mc::state(); bool r = !(fl & 1) || (a & 1); HandleType n[4] = {0, 0, 0, 0}, e[6] = {0, 0, 0, 0, 0, 0}, f[4] = {0, 0, 0, 0}; Ani::collectConnectivityInfo(cell, n, e, f, r, true); mc::trans(); mc::checked(3);
                bool ok = !memcmp(n, exp[r], sizeof n) && !memcmp(e, ee[r], sizeof e) && !memcmp(f, ef[r], sizeof f);
                if (!ok) { mc::fail(sg, mc::fmt("nodes %d faces %d edges of faces %d edge ends %d: wrong nodes, edges or faces", no, fo, a, fl)); return; }
                if (a % 36 == fl % 36) { ElementArray<Node> N(&m, 4); ElementArray<Edge> E(&m, 6); ElementArray<Face> F(&m, 4); Ani::collectConnectivityInfo(cell, N, E, F, r, true); ok = !memcmp(N.data(), exp[r], sizeof n) && !memcmp(E.data(), ee[r], sizeof e) && !memcmp(F.data(), ef[r], sizeof f); MC_REQ(ok, sg + "-arrays", "nodes %d faces %d: arrays of elements are filled differently", no, fo);
                    Node nn[4]; Edge xe[6]; Face xf[4]; Ani::collectConnectivityInfo(cell, nn, xe, xf, r, true); ok = true; for (int i = 0; i < 4; ++i) ok &= nn[i].GetHandle() == exp[r][i] && xf[i].GetHandle() == ef[r][i]; for (int i = 0; i < 6; ++i) ok &= xe[i].GetHandle() == ee[r][i]; MC_REQ(ok, sg + "-objects", "nodes %d faces %d: elements are filled differently from handles", no, fo);
                    HandleType o[4] = {0, 0, 0, 0}; Ani::collectConnectivityInfo(cell, o, nullptr, nullptr, r, false); MC_REQ(!memcmp(o, exp[r], sizeof o), sg + "-nodes", "nodes alone differ");
                    ElementArray<Node> N1(&m, 4); ElementArray<Edge> E1; ElementArray<Face> F1; Ani::collectConnectivityInfo(cell, N1, E1, F1, r, false); MC_REQ(!memcmp(N1.data(), exp[r], sizeof o), sg + "-nodes", "nodes alone differ");
                    ElementArray<Node> N2(&m, 4); for (int i = 0; i < 4; ++i) N2.data()[i] = exp[0][i]; Ani::reorderNodesOnTetrahedron(N2); MC_REQ(!memcmp(N2.data(), exp[1], sizeof o), sg + "-positive", "positive order of the nodes"); } } }
    });
    // order of the nodes and orientation of the elements
    mc::run_case("order permutation", "order", [&] { for (int base = 0; base < 3; ++base) for (int up = 0; up < 2; ++up) for (auto& p : ord) { mc::state(); long v[4]; int w[4]; unsigned char u[4]; static const long vals[3][4] = {{0, 1, 2, 3}, {7, 8, 100, 90000}, {-5, 0, 3, 1L << 40}}; for (int i = 0; i < 4; ++i) v[i] = vals[base][p[i]], w[i] = int(vals[base % 2][p[i]]), u[i] = (unsigned char)p[i];
        auto a = Ani::createOrderPermutation(v), b = Ani::createOrderPermutation(w), c = Ani::createOrderPermutation(u); for (int i = 0; i < 4; ++i) MC_REQ(a[i] == p[i] && b[i] == p[i] && c[i] == p[i], "order", "numbers %ld %ld %ld %ld: place of number %d is %d", v[0], v[1], v[2], v[3], i, a[i]);
        unsigned char q[4]; for (int i = 0; i < 4; ++i) q[i] = p[i];
        for (int e = 0; e < 6; ++e) MC_REQ(Ani::isPositivePermutationOrient(Ani::DofT::EDGE_ORIENT, e, q) == (p[EDN[e][0]] < p[EDN[e][1]]), "orientation-edge", "edge %d", e);
        for (int f = 0; f < 4; ++f) MC_REQ(Ani::isPositivePermutationOrient(Ani::DofT::FACE_ORIENT, f, q) == (parity({p[f], p[(f + 1) % 4], p[(f + 2) % 4]}) == f % 2), "orientation-face", "face %d with nodes %d %d %d", f, p[f], p[(f + 1) % 4], p[(f + 2) % 4]); } });
}

// ---- places of degrees of freedom
static std::vector<RSp> spaces() {
    auto F = [](int f) { return RSp::Fix(f); }; std::vector<RSp> L, r; for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) L.push_back(F(f));
    r = L; auto U = [](std::vector<RSp> c) { return RSp::Uni(c); };
    std::vector<RSp> u{U({F(FEM_P1), F(FEM_B4)}), U({F(FEM_P1), F(FEM_B2)}), U({F(FEM_P3), F(FEM_B4)}), U({F(FEM_RT0), RSp::Vec(3, F(FEM_B4))}), U({F(FEM_ND0), RSp::Vec(3, F(FEM_B4))}), U({RSp::Vec(3, F(FEM_P1)), RSp::Vec(3, F(FEM_B4))})};
    for (auto& x : u) r.push_back(x);
    for (auto& l : L) r.push_back(RSp::Vec(2, l)); r.push_back(RSp::Vec(3, F(FEM_P3))); for (auto& x : u) r.push_back(RSp::Vec(2, x));
    for (auto& a : {L[1], L[3], L[4], L[5]}) for (auto& b : {L[2], L[3], L[5], L[4], L[6], L[0]}) r.push_back(RSp::Com({a, b}));
    for (auto& a : {L[1], L[3], L[4], L[5]}) for (auto& b : {L[2], L[5], L[4]}) r.push_back(RSp::Com({RSp::Vec(2, a), b, a}));
    r.push_back(RSp::Com({RSp::Vec(2, RSp::Com({F(FEM_P3), F(FEM_ND0)})), RSp::Vec(2, F(FEM_RT0))})); r.push_back(RSp::Vec(2, RSp::Com({F(FEM_ND0), F(FEM_P3)}))); r.push_back(RSp::Com({F(FEM_P1), u[2], u[4]}));
    return r;
}
struct Loc { HandleType h; uint k; int sign; bool operator<(const Loc& o) const { return std::tie(h, k) < std::tie(o.h, o.k); } };
// value stored in place k of an element
static double code(int n, int key, int k) { return 1 + k + 64. * (key + 16 * n); }
static ElementType mask_of(const BaseDofMap& d) { return Ani::GeomMaskToInmostElementType(d.GetGeomMask()); }
static void fill(Mesh& m, Tag t, const BaseDofMap& d, double scale = 1) { auto nd = Ani::DofTNumDofsToInmostNumDofs(d.NumDofs()); for (int n = 0; n < 4; ++n) if (nd[n]) for (size_t l = 0; l < m.el[n].size(); ++l) if (m.el[n][l].alive) { auto a = m.RealArray(ComposeHandleNum(n, int(l)), t); for (unsigned k = 0; k < nd[n]; ++k) a[k] = scale * code(n, m.key[n][l], int(k)); } }
static unsigned max_dofs(const BaseDofMap& d) { auto nd = Ani::DofTNumDofsToInmostNumDofs(d.NumDofs()); return *std::max_element(nd.begin(), nd.end()); }
static bool positive(const Pair& p, const std::array<int, 4>& v) { std::array<std::array<double, 3>, 4> x; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) x[i][k] = p.x[v[i]][k]; return det4(x) < 0; }   // the order that collectConnectivityInfo produces: seen from node 3 the nodes 0 1 2 turn right
static std::vector<std::vector<int>> comps(const RSp& s) { std::vector<std::vector<int>> r{{}}; if (s.kind == ref::VEC) for (int i = 0; i < s.k; ++i) for (auto c : comps(s.ch[0])) { c.insert(c.begin(), i); r.push_back(c); } if (s.kind == ref::COM) for (size_t i = 0; i < s.ch.size(); ++i) for (auto c : comps(s.ch[i])) { c.insert(c.begin(), int(i)); r.push_back(c); } return r; }
// offset and size of a component
static std::pair<int, int> range(const RSp& s, const std::vector<int>& c, size_t d = 0) { if (d == c.size()) return {0, s.nfa()}; int o = 0; if (s.kind == ref::VEC) o = c[d] * s.ch[0].nfa(); else for (int i = 0; i < c[d]; ++i) o += s.ch[i].nfa(); auto q = range(s.kind == ref::VEC ? s.ch[0] : s.ch[c[d]], c, d + 1); return {o + q.first, q.second}; }
static void places() {
    auto ord = orders(); auto S = spaces(); auto P = pairs(); std::vector<std::vector<int>> nums; { std::vector<int> q{0, 1, 2, 3, 4}; do nums.push_back(q); while (std::next_permutation(q.begin(), q.end())); }
    for (auto& s : S) { FemSpace X = ref::run_space(s); const BaseDofMap& dm = *X.dofMap().target<>(); std::string pr = promise(s); int nf = s.nfa(), dim = s.dim();
        for (size_t ip = 0; ip < P.size(); ++ip) { auto& p = P[ip]; if (ip >= 6 && !mc::thorough()) continue; int m0 = int(p.x.size());
            mc::run_case(mc::fmt("places %s sharing a %s #%d", s.name().c_str(), p.name, int(ip)), "places", [&] {
                std::string sg = std::string("places:") + s.name() + ":" + p.name;
                mock::Topo T; for (auto& x : p.x) T.pts.push_back({x[0], x[1], x[2]}); T.tets = {p.a, p.b}; mock::Dist D; D.local = ip % 3; auto B = mock::build(T, D); Mesh& m = *B->m[0]; m.AssignGlobalID(NODE);
                Tag tag = m.CreateTag("v", DATA_REAL, mask_of(dm), NONE, max_dofs(dm)); fill(m, tag, dm);
                std::vector<int> sh; for (int v : p.a) if (std::find(p.b.begin(), p.b.end(), v) != p.b.end()) sh.push_back(v); std::sort(sh.begin(), sh.end());
                std::vector<ref::Pt> pts; if (p.n == 1) pts.push_back({{1, 0, 0, 0}, 1}); if (p.n == 2) for (auto& q : ref::edge_rule(6, 0)) pts.push_back(q); if (p.n == 3) { pts = ref::face_rule(4, 0); pts.push_back({{0, 0.5, 0.5, 0}, 0}); }
                int np = int(pts.size()); V3 n{0, 0, 0}, t{0, 0, 0}; if (p.n == 3) { n = ref::Geo::cross(ref::Geo::sub(p.x[sh[1]], p.x[sh[0]]), ref::Geo::sub(p.x[sh[2]], p.x[sh[0]])); R l = ref::Geo::norm(n); for (auto& v : n) v /= l; } if (p.n >= 2) t = ref::Geo::sub(p.x[sh[1]], p.x[sh[0]]);
                auto A = X.getOP(IDEN);
                // traces of the functions of a cell for every positive order of its nodes
                struct Side { int o; std::array<int, 4> v; std::vector<R> val; }; std::vector<Side> side[2];
                for (int w = 0; w < 2; ++w) for (size_t o = 0; o < ord.size(); ++o) { Side q; q.o = int(o); for (int i = 0; i < 4; ++i) q.v[i] = (w ? p.b : p.a)[ord[o][i]]; if (!positive(p, q.v)) continue;
                    std::vector<double> xyl(4 * np); for (int k = 0; k < np; ++k) for (int i = 0; i < 4; ++i) { auto it = std::find(sh.begin(), sh.end(), q.v[i]); xyl[4 * k + i] = it == sh.end() ? 0 : pts[k].l[it - sh.begin()]; }
                    std::vector<double> c[4]; for (int i = 0; i < 4; ++i) c[i].assign(p.x[q.v[i]].begin(), p.x[q.v[i]].end());
                    all_columns(nf, dim, 1, np, [&](DenseMatrix<>& Dm, DenseMatrix<>& Um) { auto XYZ = make_tetras((const double*)c[0].data(), (const double*)c[1].data(), (const double*)c[2].data(), (const double*)c[3].data(), 1); fem3DapplyL(XYZ, ArrayView<>(xyl.data(), xyl.size()), Dm, A, Um, g_wmem); }, q.val); side[w].push_back(std::move(q)); }
                // numbers of the nodes: all orders of the five points of two cells sharing a face, otherwise all orders of each cell
                int q = 0; for (auto& num0 : nums) { ++q; std::vector<int> num(m0, 0); for (int i = 0; i < m0; ++i) num[i] = i < 5 ? num0[i] : 5 + (i * 3 + q) % 4; if (m0 > 5) { std::vector<std::pair<int, int>> z; for (int i = 0; i < m0; ++i) z.push_back({num[i], i}); std::sort(z.begin(), z.end()); for (int i = 0; i < m0; ++i) num[z[i].second] = i * 3 + 1; }
                    std::vector<std::map<Loc, int>> at[2]; std::vector<std::vector<Loc>> L[2];
                    for (int w = 0; w < 2; ++w) for (auto& sd : side[w]) { mc::state(); HandleType hn[4], he[6], hf[4], hc = mock::handle(m, 3, w); auto& rc = m.rec(hc); for (int i = 0; i < 4; ++i) rc.high[i] = mock::handle(m, 0, sd.v[i]);
                        Cell cell(&m, hc); Ani::collectConnectivityInfo(cell, hn, he, hf, true, true); for (int i = 0; i < 4; ++i) MC_REQ(hn[i] == rc.high[i], sg, "order of the nodes changed");
                        long g[4]; for (int i = 0; i < 4; ++i) g[i] = num[sd.v[i]]; auto can = Ani::createOrderPermutation(g);
                        std::vector<double> out(nf, 0.25); Ani::GatherDataOnElement(tag, dm, &m, hc, hf, he, hn, can.data(), out.data(), nullptr, 0); mc::trans();
                        std::vector<Loc> ls; std::map<Loc, int> mp; for (int i = 0; i < nf; ++i) { double a = std::fabs(out[i]) - 1; int k = int(a) % 64, key = int(a) / 64 % 16, nn = int(a) / 1024; Loc l{a < 0 ? 0 : mock::handle(m, nn, key), uint(k), out[i] < 0 ? -1 : 1};
                            MC_REQ(a >= 0 && a == std::floor(a) && mp.emplace(l, i).second, sg, "degree of freedom %d of cell %d was not gathered from a place of its own (value %g)", i, w, out[i]); ls.push_back(l); }
                        // other ways to ask
                        if (q % 7 == 0) { ElementArray<Node> N(&m, 4); ElementArray<Edge> E(&m, 6); ElementArray<Face> Fc(&m, 4); Ani::collectConnectivityInfo(cell, N, E, Fc); std::vector<double> o2(nf, 0.25); Ani::GatherDataOnElement(tag, dm, cell, Fc, E, N, can.data(), o2.data(), nullptr, 0); MC_REQ(o2 == out, sg + "-arrays", "gathering from arrays of elements differs");
                            for (int i = 0; i < nf; ++i) { auto lo = dm.LocalOrderOnTet(Ani::DofT::TetOrder(i)); auto d = Ani::getDOFLocus(dm, lo, &m, hc, hf, he, hn, can.data()); auto d2 = Ani::getDOFLocus(dm, lo, cell, Fc, E, N, can.data()); double v = Ani::takeElementDOF(tag, dm, lo, &m, hc, hf, he, hn, can.data()), v2 = Ani::takeElementDOF(tag, dm, lo, cell, Fc, E, N, can.data()); auto av = Ani::takeElementDOFifAvailable(tag, dm, lo, &m, hc, hf, he, hn, can.data());
                                MC_REQ(d.elem.GetHandle() == ls[i].h && d.elem_data_index == ls[i].k && d.sign == ls[i].sign && d2.elem.GetHandle() == ls[i].h && d2.elem_data_index == ls[i].k && d2.sign == ls[i].sign && v == out[i] && v2 == out[i] && av.second && av.first == out[i], sg + "-single", "degree of freedom %d asked for alone differs from the gathered one", i);
                                auto dl = Ani::DofT::GeomTypeDim(lo.etype); MC_REQ(int(dl) == GetHandleElementNum(ls[i].h) && ls[i].h == (dl == 0 ? hn : dl == 1 ? he : dl == 2 ? hf : &hc)[lo.nelem], sg + "-elem", "degree of freedom %d is taken from another element", i); }
                            for (auto& c : comps(s)) { auto r = range(s, c); std::vector<double> o3(nf + 1, 0.25); Ani::GatherDataOnElement(tag, dm, &m, hc, hf, he, hn, can.data(), o3.data(), c.data(), unsigned(c.size())); mc::trans(); bool ok = true; for (int i = 0; i <= nf; ++i) ok &= o3[i] == (i < r.second ? out[r.first + i] : 0.25); std::string nm; for (int x : c) nm += mc::fmt(".%d", x); MC_REQ(ok, sg + "-component", "component %s is gathered wrongly", nm.c_str()); }
                        }
                        L[w].push_back(ls); at[w].push_back(mp); }
                    // traces of the functions of every shared degree of freedom agree
                    std::vector<R> x, y; bool use = false; for (char c : pr) use |= c == 'V' || (c == 'T' && p.n >= 2) || ((c == 'N' || c == 'A') && p.n == 3);
                    if (use) for (size_t a = 0; a < side[0].size(); ++a) for (size_t b = 0; b < side[1].size(); ++b) { if (!mc::thorough() && p.n != 3 && (a * 5 + b + q) % 6) continue; mc::state(); auto& qa = side[0][a]; auto& qb = side[1][b];
                        for (int i = 0; i < nf; ++i) { auto it = at[0][a].find(L[1][b][i]); if (it == at[0][a].end()) continue; int j = it->second; trace_part(pr, pts, p.n, n, t, qa.val, j, x); trace_part(pr, pts, p.n, n, t, qb.val, i, y); R z = it->first.sign * L[1][b][i].sign; mc::checked(); for (size_t k = 0; k < x.size(); ++k) if (!(std::fabs(x[k] - z * y[k]) < 1e-10)) { mc::fail(sg, mc::fmt("%s sharing a %s, node numbers #%d: degrees of freedom %d and %d are stored in one place, the traces of their functions are %g and %g", s.name().c_str(), p.name, q, j, i, x[k], z * y[k])); return; } } } }
            }); } }
}
// ---- one tag for every variable, absent data
static void tags() {
    auto S = spaces(); auto P = pairs(); auto ord = orders();
    for (auto& s : S) mc::run_case(mc::fmt("tags %s", s.name().c_str()), "tags", [&] { FemSpace X = ref::run_space(s); const BaseDofMap& dm = *X.dofMap().target<>(); int nf = s.nfa(); std::string sg = "tags:" + s.name(); auto& p = P[0];
        mock::Topo T; for (auto& x : p.x) T.pts.push_back({x[0], x[1], x[2]}); T.tets = {p.a, p.b}; auto B = mock::build(T, mock::Dist()); Mesh& m = *B->m[0];
        int nv = s.kind == ref::FIX || s.kind == ref::UNI ? 0 : s.kind == ref::VEC ? s.k : int(s.ch.size()); std::vector<Tag> vt; for (int v = 0; v < nv; ++v) { auto& c = s.kind == ref::VEC ? s.ch[0] : s.ch[v]; FemSpace Y = ref::run_space(c); const BaseDofMap& d = *Y.dofMap().target<>(); vt.push_back(m.CreateTag(mc::fmt("v%d", v), DATA_REAL, mask_of(d), NONE, max_dofs(d))); fill(m, vt.back(), d, 1 + v * 1e6); }
        Tag part = m.CreateTag("part", DATA_REAL, mask_of(dm), mask_of(dm), ENUMUNDEF); auto nd = Ani::DofTNumDofsToInmostNumDofs(dm.NumDofs());
        for (auto& o : ord) { HandleType hn[4], he[6], hf[4], hc = mock::handle(m, 3, 0); Cell cell(&m, hc); Ani::collectConnectivityInfo(cell, hn, he, hf); long g[4]; for (int i = 0; i < 4; ++i) g[i] = o[i]; auto can = Ani::createOrderPermutation(g); mc::state();
            ElementArray<Node> N(&m, 4); ElementArray<Edge> E(&m, 6); ElementArray<Face> Fc(&m, 4); Ani::collectConnectivityInfo(cell, N, E, Fc);
            std::vector<double> exp(nf, 0); if (nv) {
                for (int v = 0; v < nv; ++v) { auto& c = s.kind == ref::VEC ? s.ch[0] : s.ch[v]; FemSpace Y = ref::run_space(c); std::vector<double> q(c.nfa()); Ani::GatherDataOnElement(vt[v], *Y.dofMap().target<>(), &m, hc, hf, he, hn, can.data(), q.data(), nullptr, 0); auto r = range(s, {v}); for (int i = 0; i < r.second; ++i) exp[r.first + i] = q[i]; }
                for (auto& c : comps(s)) { auto r = range(s, c); std::vector<double> a(nf + 1, 0.25), b = a; Ani::GatherDataOnElement(vt.data(), vt.size(), dm, &m, hc, hf, he, hn, can.data(), a.data(), c.data(), unsigned(c.size())); Ani::GatherDataOnElement(vt.data(), vt.size(), dm, cell, Fc, E, N, can.data(), b.data(), c.data(), unsigned(c.size())); mc::trans(2);
                    bool ok = true; for (int i = 0; i <= nf; ++i) ok &= a[i] == (i < r.second ? exp[r.first + i] : 0.25) && a[i] == b[i]; std::string nm; for (int x : c) nm += mc::fmt(".%d", x); MC_REQ(ok, sg, "component %s is gathered wrongly from the tags of the variables", nm.c_str()); }
                bool thrown = false; try { std::vector<double> a(nf); Ani::GatherDataOnElement(vt.data(), vt.size() - 1, dm, &m, hc, hf, he, hn, can.data(), a.data(), nullptr, 0); } catch (const std::runtime_error&) { thrown = true; } MC_REQ(thrown, sg + "-few", "too few tags are accepted"); }
            // data on some of the elements only, and with fewer values than needed
            Tag full = m.HaveTag("full") ? m.GetTag("full") : m.CreateTag("full", DATA_REAL, mask_of(dm), NONE, max_dofs(dm)); fill(m, full, dm); std::vector<double> all(nf); Ani::GatherDataOnElement(full, dm, &m, hc, hf, he, hn, can.data(), all.data(), nullptr, 0);
            for (int set = 0; set < 16; ++set) { for (int n = 0; n < 6; ++n) part.mem->present[n].clear(), part.mem->r[n].clear(); std::map<HandleType, unsigned> have;
                for (int n = 0; n < 4; ++n) if (nd[n] && (set >> n & 1)) for (size_t l = 0; l < m.el[n].size(); ++l) { HandleType h = ComposeHandleNum(n, int(l)); if (n && (l + set) % 3 == 0) continue; unsigned c = (l + set) % 4 == 1 ? nd[n] - 1 : nd[n]; auto a = m.RealArray(h, part); a.resize(c); for (unsigned k = 0; k < c; ++k) a[k] = code(n, m.key[n][l], int(k)); have[h] = c; }
                std::vector<double> a(nf, 0.25); Ani::GatherDataOnElement<true>(part, dm, &m, hc, hf, he, hn, can.data(), a.data(), nullptr, 0); mc::trans(); for (int i = 0; i < nf; ++i) { auto d = Ani::getDOFLocus(dm, dm.LocalOrderOnTet(Ani::DofT::TetOrder(i)), &m, hc, hf, he, hn, can.data()); auto it = have.find(d.elem.GetHandle()); bool av = it != have.end() && d.elem_data_index < it->second; MC_REQ(a[i] == (av ? all[i] : 0.25), sg + "-absent", "degree of freedom %d, data %s: value %g", i, av ? "present" : "absent", a[i]); } }
        } });
}
// ---- renumbering of the nodes keeps the function
static void renumber() {
    auto S = spaces(); auto P = pairs(); auto ord = orders();
    for (auto& s : S) for (int mode = 0; mode < 3; ++mode) mc::run_case(mc::fmt("renumber %s mode %d", s.name().c_str(), mode), "renumber", [&] { FemSpace X = ref::run_space(s); const BaseDofMap& dm = *X.dofMap().target<>(); int nf = s.nfa(); std::string sg = "renumber:" + s.name(); auto& p = P[0];
        mock::Topo T; for (auto& x : p.x) T.pts.push_back({x[0], x[1], x[2]}); T.tets = {p.a, p.b}; mock::Dist D; D.local = mode; auto B = mock::build(T, D); Mesh& m = *B->m[0]; auto nd = Ani::DofTNumDofsToInmostNumDofs(dm.NumDofs());
        Tag o = m.CreateTag("old", DATA_INTEGER, NODE, NONE, 1), nw = m.CreateTag("new", DATA_INTEGER, NODE, NONE, 1);
        // one value per degree of freedom; blocks of two values behind other data; blocks of two of which some elements keep one
        int bs = mode ? 2 : 1; std::array<std::size_t, 4> shift{0, 0, 0, 0}; if (mode) shift = {1, 3, 0, 2}; unsigned mx = 0; for (int n = 0; n < 4; ++n) mx = std::max(mx, unsigned(shift[n] + bs * nd[n]));
        Tag t1 = m.CreateTag("a", DATA_REAL, mask_of(dm), NONE, mode == 2 ? ENUMUNDEF : mx + 1), t2 = m.CreateTag("b", DATA_REAL, mask_of(dm), mask_of(dm), mode == 2 ? ENUMUNDEF : mx + 1); std::vector<std::vector<int>> nums; { std::vector<int> q{0, 1, 2, 3, 4}; int c = 0; do if (mc::thorough() || c++ % 3 == 0) nums.push_back(q); while (std::next_permutation(q.begin(), q.end())); }
        for (auto& a : nums) for (auto& b : nums) { mc::state(); for (int v = 0; v < 5; ++v) { m.Integer(mock::handle(m, 0, v), o) = a[v] * 2 + 1; m.Integer(mock::handle(m, 0, v), nw) = b[v] * 5; }
            for (int n = 0; n < 6; ++n) t2.mem->present[n].clear(), t1.mem->r[n].clear(), t2.mem->r[n].clear();
            for (int n = 0; n < 4; ++n) if (nd[n]) for (size_t l = 0; l < m.el[n].size(); ++l) if (m.el[n][l].alive) { HandleType h = ComposeHandleNum(n, int(l)); for (int w = 0; w < 2; ++w) { if (w && (l + n) % 3 == 0) continue; auto x = m.RealArray(h, w ? t2 : t1); if (mode == 2) x.resize((l + n) % 2 ? shift[n] + bs : mx + 1); for (unsigned k = 0; k < x.size(); ++k) x[k] = (w ? 7000 : 1) + k + 100. * (m.key[n][l] + 16 * n); } }
            auto read = [&](Tag t, Tag num, int w, std::vector<double>& out) { out.clear(); HandleType hn[4], he[6], hf[4], hc = mock::handle(m, 3, w); Ani::collectConnectivityInfo(Cell(&m, hc), hn, he, hf); long g[4]; for (int i = 0; i < 4; ++i) g[i] = m.Integer(hn[i], num); auto can = Ani::createOrderPermutation(g);
                for (int i = 0; i < nf; ++i) { auto d = Ani::getDOFLocus(dm, dm.LocalOrderOnTet(Ani::DofT::TetOrder(i)), &m, hc, hf, he, hn, can.data()); int n = GetHandleElementNum(d.elem.GetHandle()); if (!d.elem.HaveData(t)) { out.push_back(0); continue; } auto x = d.elem.RealArray(t); bool small = mode == 2 && x.size() < shift[n] + 2 * bs; for (int c = 0; c < bs; ++c) out.push_back(small ? x[shift[n] + c] : d.sign * x[shift[n] + bs * d.elem_data_index + c]); } };
            auto other = [&](Tag t) { std::vector<double> r; for (int n = 0; n < 4; ++n) if (nd[n]) for (size_t l = 0; l < m.el[n].size(); ++l) if (m.el[n][l].alive) { HandleType h = ComposeHandleNum(n, int(l)); if (!m.HaveData(h, t)) continue; auto x = m.RealArray(h, t); for (unsigned k = 0; k < x.size(); ++k) if (k < shift[n] || k >= shift[n] + bs * nd[n]) r.push_back(x[k]); } return r; };
            std::vector<double> b0[2][2], b1; auto u0 = other(t1), u1 = other(t2); for (int w = 0; w < 2; ++w) read(t1, o, w, b0[0][w]), read(t2, o, w, b0[1][w]);
            Ani::reorder_mesh_function_data({t1, t2}, dm, o, nw, bs, shift, mode == 2); mc::trans();
            for (int w = 0; w < 2; ++w) { read(t1, nw, w, b1); MC_REQ(b1 == b0[0][w], sg, "values of a cell change with the numbers of the nodes"); read(t2, nw, w, b1); MC_REQ(b1 == b0[1][w], sg + "-sparse", "values of a cell change with the numbers of the nodes (data on some elements)"); }
            MC_REQ(u0 == other(t1) && u1 == other(t2), sg + "-outside", "data of other functions changed"); } });
}
static void body() { auto& v = mc::opt().variant; if (v == "conn") conn(); else if (v == "places") places(); else if (v == "tags") tags(); else if (v == "renumber") renumber(); }
MC_MAIN(body)
