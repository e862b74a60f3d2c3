// F05: two cells that share a face, an edge or a vertex, every pair of local vertex orders: functions with equal shared degrees of freedom have the trace their space promises.
#include "trace_common.h"
static std::vector<RSp> spaces() {
    auto F = [](int f) { return RSp::Fix(f); }; std::vector<RSp> L, r; for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) L.push_back(F(f));
    r = L; auto U = [](std::vector<RSp> c) { return RSp::Uni(c); };
    std::vector<RSp> u{U({F(FEM_P1), F(FEM_B4)}), U({F(FEM_P1), F(FEM_B2)}), U({F(FEM_P2), F(FEM_B4)}), U({F(FEM_P3), F(FEM_B4)}), U({F(FEM_B4), F(FEM_B2), F(FEM_P1)}), U({F(FEM_CR1), F(FEM_B4)}), U({F(FEM_RT0), RSp::Vec(3, F(FEM_B4))}), U({F(FEM_ND0), RSp::Vec(3, F(FEM_B4))}), U({RSp::Vec(3, F(FEM_P1)), RSp::Vec(3, F(FEM_B4))}), U({RSp::Com({F(FEM_P1), F(FEM_P2)}), RSp::Vec(2, F(FEM_B4))})};
    for (auto& x : u) r.push_back(x);
    for (auto& l : L) r.push_back(RSp::Vec(2, l)), r.push_back(RSp::Vec(3, l)); for (auto& x : u) r.push_back(RSp::Vec(2, x));
    for (auto& a : L) for (auto& b : L) { if (a.nfa() + b.nfa() <= 26 || mc::thorough()) r.push_back(RSp::Com({a, b})); }
    for (auto& a : {L[1], L[3], L[4], L[5]}) for (auto& b : {L[2], L[5], L[4], L[6]}) { r.push_back(RSp::Com({RSp::Vec(2, a), b, a})); if (mc::thorough()) r.push_back(RSp::Vec(2, RSp::Com({b, RSp::Vec(2, a)}))); }
    for (auto& x : u) for (auto& b : {L[1], L[4], L[5]}) r.push_back(RSp::Com({b, x}));
    return r;
}
struct Key { int et; std::array<int, 4> v; unsigned k; bool operator<(const Key& o) const { return std::tie(et, v, k) < std::tie(o.et, o.v, o.k); } };
struct Side { std::vector<Key> key; std::vector<int> sign; std::vector<bool> shared; std::vector<R> val; };   // val[(i*np + n)*dim + d]
static void body() {
    auto ord = orders(); auto S = spaces(); auto P = pairs();
    for (auto& s : S) { FemSpace X = ref::run_space(s); std::string pr = promise(s);
        for (size_t ip = 0; ip < P.size(); ++ip) { auto& p = P[ip]; bool use = false; for (char c : pr) use |= c == 'V' || (c == 'T' && p.n >= 2) || (c == 'N' && p.n == 3) || (c == 'A' && p.n == 3);
            mc::run_case(mc::fmt("trace %s sharing a %s #%d", s.name().c_str(), p.name, (int)ip), "trace", [&] {
                std::vector<int> sh; for (int v : p.a) if (std::find(p.b.begin(), p.b.end(), v) != p.b.end()) sh.push_back(v); std::sort(sh.begin(), sh.end());
                // points of the shared element, as weights of its vertices, and a rule for averages
                std::vector<ref::Pt> pts; if (p.n == 1) pts.push_back({{1, 0, 0, 0}, 1}); if (p.n == 2) for (auto& q : ref::edge_rule(6, 0)) pts.push_back(q); if (p.n == 3) { pts = ref::face_rule(4, 0); pts.push_back({{1, 0, 0, 0}, 0}); pts.push_back({{0, 0.5, 0.5, 0}, 0}); }
                if (p.n == 2) { pts.push_back({{0, 1, 0, 0}, 0}); }
                int np = pts.size(), nf = s.nfa(), dim = s.dim(); V3 n{0, 0, 0}, t{0, 0, 0};
                if (p.n == 3) { n = ref::Geo::cross(ref::Geo::sub(p.x[sh[1]], p.x[sh[0]]), ref::Geo::sub(p.x[sh[2]], p.x[sh[0]])); R l = ref::Geo::norm(n); for (auto& v : n) v /= l; } if (p.n >= 2) { t = ref::Geo::sub(p.x[sh[1]], p.x[sh[0]]); }
                auto A = X.getOP(IDEN); std::vector<Side> side[2];
                for (int w = 0; w < 2; ++w) for (auto& o : ord) { Side q; std::array<int, 4> v; for (int i = 0; i < 4; ++i) v[i] = (w ? p.b : p.a)[o[i]];
                    std::vector<double> xyl(4 * np); for (int k = 0; k < np; ++k) for (int i = 0; i < 4; ++i) { auto it = std::find(sh.begin(), sh.end(), v[i]); xyl[4 * k + i] = it == sh.end() ? 0 : pts[k].l[it - sh.begin()]; }
                    std::vector<double> c[4]; for (int i = 0; i < 4; ++i) c[i].assign(p.x[v[i]].begin(), p.x[v[i]].end());
                    all_columns(nf, dim, 1, np, [&](DenseMatrix<>& D, DenseMatrix<>& U) { auto XYZ = make_tetras((const double*)c[0].data(), (const double*)c[1].data(), (const double*)c[2].data(), (const double*)c[3].data(), 1); fem3DapplyL(XYZ, ArrayView<>(xyl.data(), xyl.size()), D, A, U, g_wmem); mc::trans(); }, q.val);
                    unsigned char rank[4]; for (int i = 0; i < 4; ++i) { rank[i] = 0; for (int j = 0; j < 4; ++j) rank[i] += v[j] < v[i]; }
                    for (int i = 0; i < nf; ++i) { auto l = X.dofMap().LocalOrderOnTet(DofT::TetOrder(i)); Key k; k.et = l.etype; k.v = {-1, -1, -1, -1}; int d = DofT::GeomTypeDim(l.etype), m = 0; std::vector<int> lv;
                        if (d == 0) lv = {l.nelem}; if (d == 1) lv = {EDN[l.nelem][0], EDN[l.nelem][1]}; if (d == 2) lv = {l.nelem, (l.nelem + 1) % 4, (l.nelem + 2) % 4}; if (d == 3) lv = {0, 1, 2, 3};
                        for (int x : lv) k.v[m++] = v[x]; std::sort(k.v.begin(), k.v.begin() + m);
                        bool in = true; for (int x = 0; x < m; ++x) in &= std::find(sh.begin(), sh.end(), k.v[x]) != sh.end(); q.shared.push_back(in);
                        k.k = l.leid - l.lsid + DofT::DofSymmetries::index_on_reorderd_elem(l.etype, l.nelem, l.stype, l.lsid, rank); q.key.push_back(k);
                        int sg = 1; if (l.etype == DofT::EDGE_ORIENT) sg = v[lv[0]] < v[lv[1]] ? 1 : -1; if (l.etype == DofT::FACE_ORIENT) sg = w ? -1 : 1; q.sign.push_back(sg); }
                    side[w].push_back(std::move(q)); }
                auto part = [&](const std::vector<R>& v, int i, std::vector<R>& out) { trace_part(pr, pts, p.n, n, t, v, i, out); };
                std::vector<R> x, y; std::string sg = std::string("trace:") + s.name() + ":" + p.name;
                // functions whose degree of freedom is not shared have no trace
                for (int w = 0; w < 2; ++w) for (size_t o = 0; o < ord.size(); ++o) { auto& q = side[w][o]; for (int i = 0; i < nf; ++i) if (!q.shared[i]) { part(q.val, i, x); mc::checked(); for (R z : x) MC_REQ(std::fabs(z) < 1e-10, sg, "%s sharing a %s: function %d of a cell in order %d%d%d%d, whose degree of freedom is not shared, has trace %g", s.name().c_str(), p.name, i, ord[o][0], ord[o][1], ord[o][2], ord[o][3], z); } }
                // traces of the functions of every shared degree of freedom agree for every pair of orders
                for (size_t a = 0; a < ord.size(); ++a) { std::map<Key, int> at; auto& qa = side[0][a]; int ns = 0; for (int i = 0; i < nf; ++i) if (qa.shared[i]) { ++ns; MC_REQ(at.emplace(qa.key[i], i).second, sg, "%s: two degrees of freedom of a cell in order %d%d%d%d are the same on the shared %s", s.name().c_str(), ord[a][0], ord[a][1], ord[a][2], ord[a][3], p.name); }
                    for (size_t b = 0; b < ord.size(); ++b) { mc::state(); auto& qb = side[1][b]; int m = 0;
                        for (int i = 0; i < nf; ++i) if (qb.shared[i]) { ++m; auto it = at.find(qb.key[i]); if (!mc::require(it != at.end(), sg, mc::fmt("%s: degree of freedom %d of the second cell has no counterpart, orders %d and %d", s.name().c_str(), i, (int)a, (int)b))) continue;
                            if (!use) continue; int j = it->second; part(qa.val, j, x); part(qb.val, i, y); R z = qa.sign[j] * qb.sign[i]; mc::checked(); for (size_t k = 0; k < x.size(); ++k) if (!(std::fabs(x[k] - z * y[k]) < 1e-10)) { mc::fail(sg, mc::fmt("%s sharing a %s: orders %d%d%d%d and %d%d%d%d: degrees of freedom %d and %d are the same, the traces of their functions are %g and %g", s.name().c_str(), p.name, ord[a][0], ord[a][1], ord[a][2], ord[a][3], ord[b][0], ord[b][1], ord[b][2], ord[b][3], j, i, x[k], z * y[k])); break; } }
                        MC_REQ(m == ns, sg, "%s: the cells have %d and %d degrees of freedom on the shared %s", s.name().c_str(), ns, m, p.name); } }
            }); } }
}
MC_MAIN(body)
