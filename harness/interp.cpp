// N01 (and part of M03): interpolation on vertices, edges, faces and the cell, through degrees of freedom and by projection.
// MC_PART 0: run-time spaces; 1..3: spaces known at compile time.
#include "fempnt_common.h"
#include "femtypes.h"
#ifndef MC_PART
#define MC_PART 0
#endif
typedef DofT::TetGeomSparsity Sp;
static const double UNSET = -77777.5;
static const int NEL[4] = {4, 6, 4, 1};
static const unsigned char TYPES[4] = {DofT::NODE, DofT::EDGE, DofT::FACE, DofT::CELL};
static const char* ELN[4] = {"node", "edge", "face", "cell"};
// polynomial vector functions of degree 0..3, and members of the space (kind 4)
struct FunSpec { int kind, dim; };
static void poly(int kind, const V3& x, double* o, int dim) {
    for (int d = 0; d < dim; ++d) {
        double a = 0.3 + 0.7 * d, v = a;
        if (kind >= 1) v += (1 - 0.2 * d) * x[0] - 0.6 * x[1] + (0.4 + 0.3 * d) * x[2];
        if (kind >= 2) v += 0.5 * x[0] * x[1] - (0.3 + 0.1 * d) * x[2] * x[2] + 0.8 * x[1] * x[2];
        if (kind >= 3) v += 0.35 * x[0] * x[0] * x[1] - 0.25 * x[1] * x[2] * x[2] + (0.15 * d - 0.2) * x[0] * x[1] * x[2] + 0.1 * x[0] * x[0] * x[0];
        o[d] = v;
    }
}
static double coef(int i) { return Coef::noise(3 * i + 1); }
static ref::Fun make_fun(ref::Cell& c, const RSp& s, int kind) {
    int dim = s.dim();
    if (kind < 4) return [kind, dim](const V3& x, double* o) { poly(kind, x, o, dim); };
    auto memo = std::make_shared<std::map<std::array<double, 3>, std::vector<double>>>();
    return [&c, s, dim, memo](const V3& x, double* o) {
        auto it = memo->find(x);
        if (it == memo->end()) {
            L4 l; for (int a = 0; a < 4; ++a) l[a] = 1 + ref::Geo::dot(c.G.g[a], ref::Geo::sub(x, c.G.X[a]));
            auto q = c.eval(s, l); std::vector<double> v(dim, 0); for (int d = 0; d < dim; ++d) for (int i = 0; i < s.nfa(); ++i) v[d] += coef(i) * q.v(i, d);
            it = memo->emplace(x, v).first;
        }
        for (int d = 0; d < dim; ++d) o[d] = it->second[d];
    };
}
static int fun_deg(const RSp& s, int kind) { return kind < 4 ? kind : s.deg(); }
// reference projection on the closure of an element
static std::vector<std::pair<int, double>> project(ref::Cell& c, const RSp& s, const ref::Fun& f, int fdeg, int dim, int n) {
    auto pl = ref::dof_places(s); std::vector<int> id;
    for (size_t i = 0; i < pl.size(); ++i) if (ref::in_closure(dim, n, pl[i].first, pl[i].second)) id.push_back(i);
    int m = id.size(), D = s.dim(), deg = s.deg() + std::max(s.deg(), fdeg);
    auto rule = dim == 1 ? ref::edge_rule(deg, n) : dim == 2 ? ref::face_rule(deg, n) : ref::tet_rule(deg);
    std::vector<double> A(m * m, 0), b(m, 0), fv(D);
    for (auto& p : rule) {
        auto q = c.eval(s, p.l); f(c.G.x(p.l), fv.data());
        for (int i = 0; i < m; ++i) for (int d = 0; d < D; ++d) { b[i] += p.w * fv[d] * q.v(id[i], d); for (int j = 0; j < m; ++j) A[i * m + j] += p.w * q.v(id[i], d) * q.v(id[j], d); }
    }
    std::vector<std::pair<int, double>> r;
    if (m && !ref::invert(A, m)) throw std::runtime_error("reference: singular projection");
    for (int i = 0; i < m; ++i) { double t = 0; for (int j = 0; j < m; ++j) t += A[i * m + j] * b[j]; r.push_back({id[i], t}); }
    return r;
}
struct Callback { const ref::Fun* f; int dim; };
static Callback g_cb;
static int eval_plain(const std::array<double, 3>& X, double* r, uint dim, void* ud) {
    if ((int)dim != g_cb.dim) g_bad = 1; if (ud != (void*)&g_tag) g_bad = 2;
    (*g_cb.f)(X, r); return 0;
}
struct Dofs {
    std::vector<double> d; int n;
    explicit Dofs(int n) : d(n + 32, UNSET), n(n) {}
    ArrayView<> v() { return ArrayView<>(d.data() + 16, n); }
    bool compare(const std::string& sig, const std::string& how, const std::vector<std::pair<int, double>>& ex) {
        std::vector<double> e(d.size(), UNSET); double mag = 0; for (auto& x : ex) { e[16 + x.first] = x.second; mag = std::max(mag, std::fabs(x.second)); }
        uint64_t h = 5;
        for (size_t i = 0; i < d.size(); ++i) {
            mc::checked(); h = mc::mix(h, (uint64_t)(int64_t)std::llround(std::max(-1e12, std::min(1e12, d[i] * 1e5))));
            if (e[i] == UNSET && d[i] != UNSET) { mc::fail(sig, how + mc::fmt(": degree of freedom %d does not belong to the element but was changed", (int)i - 16)); return false; }
            if (e[i] != UNSET && d[i] == UNSET) { mc::fail(sig, how + mc::fmt(": degree of freedom %d belongs to the element but was not set", (int)i - 16)); return false; }
            if (e[i] != UNSET && !(std::fabs(d[i] - e[i]) <= 1e-8 * (mag + 1))) { mc::fail(sig, how + mc::fmt(": degree of freedom %d is %.15g, expected %.15g", (int)i - 16, d[i], e[i])); return false; }
        }
        if (g_bad) { mc::fail("functor:" + sig, how + (g_bad == 1 ? ": function called with the wrong dimension" : ": user data not passed on")); g_bad = 0; return false; }
        mc::outcome(h); mc::state(); mc::trans(); return true;
    }
};
static bool has_mix(const RSp& s) { if (s.kind == ref::UNI) for (auto& c : s.ch) { if (c.kind == ref::FIX && (c.fix == FEM_RT0 || c.fix == FEM_ND0)) return true; if (c.kind == ref::VEC && c.ch[0].kind == ref::FIX && (c.ch[0].fix == FEM_RT0 || c.ch[0].fix == FEM_ND0)) return true; } for (auto& c : s.ch) if (has_mix(c)) return true; return false; }
// selections of elements used for interpolation through degrees of freedom
struct Sel { Sp sp; std::string name; bool in[4][6]; };
static Sel make_sel(const std::vector<std::array<int, 3>>& el) {
    Sel s; memset(s.in, 0, sizeof s.in);
    for (auto& e : el) {
        switch (e[0]) { case 0: s.sp.setNode(e[1]); break; case 1: s.sp.setEdge(e[1], e[2]); break; case 2: s.sp.setFace(e[1], e[2]); break; default: s.sp.setCell(e[2]); }
        s.name += mc::fmt("%s%s%d%s", s.name.empty() ? "" : "+", ELN[e[0]], e[1], e[2] && e[0] ? "~" : "");
        for (int d = 0; d < 4; ++d) for (int k = 0; k < NEL[d]; ++k) if ((d == e[0] && k == e[1]) || (e[2] && ref::in_closure(e[0], e[1], d, k))) s.in[d][k] = true;
    }
    return s;
}
static const std::vector<Sel>& sels() {
    static std::vector<Sel> v;
    if (v.empty()) {
        v.push_back(make_sel({}));
        std::vector<std::array<int, 3>> all;
        for (int d = 0; d < 4; ++d) for (int k = 0; k < NEL[d]; ++k) for (int c = 0; c < 2; ++c) { if (d == 0 && c) continue; all.push_back({d, k, c}); v.push_back(make_sel({{d, k, c}})); }
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j) if ((i * 7 + j) % (mc::thorough() ? 1 : 9) == 0) v.push_back(make_sel({all[i], all[j]}));
    }
    return v;
}
static std::vector<int> cells(int nfa, int base) { std::vector<int> r; int n = nfa > 20 ? 2 : nfa > 10 ? 5 : 9; if (mc::thorough()) n *= 8; for (int k = 0; k < n; ++k) r.push_back((base * 53 + 313 * k + k * k) % 1392); return r; }
struct CellCtx { ref::Cell c; std::vector<double> xy[4]; std::string name;
    explicit CellCtx(int id) : c(ref::cube_tets(true).t[id]), name(ref::cube_tets(true).name[id]) { for (int v = 0; v < 4; ++v) xy[v].assign(c.G.X[v].begin(), c.G.X[v].end()); }
    Tetra<const double> T() { return Tetra<const double>(xy[0].data(), xy[1].data(), xy[2].data(), xy[3].data()); } };

#if MC_PART == 0
static std::vector<RSp> spaces() {
    auto F = [](int f) { return RSp::Fix(f); };
    RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)});
    std::vector<RSp> s;
    for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) s.push_back(F(f));
    s.push_back(RSp::Vec(1, F(FEM_P1))); s.push_back(RSp::Vec(2, F(FEM_P1))); s.push_back(RSp::Vec(3, F(FEM_P1))); s.push_back(RSp::Vec(3, F(FEM_P0))); s.push_back(RSp::Vec(3, F(FEM_P2))); s.push_back(RSp::Vec(3, F(FEM_CR1)));
    s.push_back(mini); s.push_back(RSp::Vec(3, mini)); s.push_back(RSp::Uni({F(FEM_P1), F(FEM_B2)})); s.push_back(RSp::Uni({F(FEM_P2), F(FEM_B4)})); s.push_back(RSp::Uni({F(FEM_CR1), F(FEM_B4)})); s.push_back(RSp::Uni({F(FEM_P0), F(FEM_B4)}));
    s.push_back(RSp::Uni({RSp::Vec(3, F(FEM_P1)), RSp::Vec(3, F(FEM_B4))})); s.push_back(RSp::Uni({F(FEM_RT0), RSp::Vec(3, F(FEM_B4))}));
    s.push_back(RSp::Com({F(FEM_P1), F(FEM_P0), F(FEM_P2)})); s.push_back(RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))})); s.push_back(RSp::Com({F(FEM_RT0), F(FEM_P0)})); s.push_back(RSp::Vec(2, F(FEM_RT0))); s.push_back(RSp::Vec(3, F(FEM_ND0)));
    s.push_back(RSp::Vec(2, RSp::Com({F(FEM_P1), F(FEM_P0)}))); s.push_back(RSp::Com({RSp::Vec(3, mini), F(FEM_P1)})); s.push_back(RSp::Com({F(FEM_P1), F(FEM_ND0)})); s.push_back(RSp::Com({RSp::Com({F(FEM_P1), F(FEM_P0)}), RSp::Vec(2, F(FEM_P1))}));
    s.push_back(RSp::Com({RSp::Vec(3, F(FEM_P2)), F(FEM_P1), F(FEM_P0)}));
    return s;
}
// sub-views: direct parts of a product or power, and parts of those
static void sub_parts(const RSp& s, std::vector<int> path, int d0, std::vector<std::pair<std::vector<int>, std::pair<int, int>>>& out) {
    if (!path.empty()) out.push_back({path, {d0, s.nfa()}});
    // products and powers are built flattened where they nest: their parts have no such path
    if (s.kind == ref::COM || s.kind == ref::VEC) for (auto& c : s.ch) if (c.kind == s.kind) return;
    if (s.kind == ref::VEC) { for (int j = 0; j < s.k; ++j) { auto p = path; p.push_back(j); sub_parts(s.ch[0], p, d0 + j * s.ch[0].nfa(), out); } }
    if (s.kind == ref::COM || s.kind == ref::UNI) for (size_t j = 0; j < s.ch.size(); ++j) { auto p = path; p.push_back(j); sub_parts(s.ch[j], p, d0, out); d0 += s.ch[j].nfa(); }
}
static void body() {
    bool m03 = !strcmp(variant(), "m03");
    auto S = spaces();
    for (size_t si = 0; si < S.size(); ++si) { auto& s = S[si]; FemSpace sp = ref::run_space(s); int nfa = s.nfa(), dim = s.dim(); auto pl = ref::dof_places(s);
        bool mix = has_mix(s);
        for (int id : cells(nfa, si)) { CellCtx C(id);
            for (int kind = 0; kind < 5; ++kind) { auto f = make_fun(C.c, s, kind); int fd = fun_deg(s, kind);
                BaseFemSpace::EvalFunc ep = eval_plain; BaseFemSpace::EvalFunctor ef = eval_plain; auto lam = [](const std::array<double, 3>& X, double* r, uint d, void* ud) { return eval_plain(X, r, d, ud); };
                // through degrees of freedom
                std::vector<double> fu; bool have = false;
                auto funcs = [&]() -> const std::vector<double>& { if (!have) { ref::raw_functionals(C.c, s, f, dim, 0, fu); have = true; } return fu; };
                // a union interpolates exactly only functions it can see through its functionals at the chosen order
                std::vector<int> orders = {std::max(fd, 5)}; if (m03 || kind == 0) orders = {0, 1, 2, 3, 5, 7, 12, 20};
                for (int ord : orders) {
                    bool exact = ord >= std::max(fd, s.deg());
                    if (!mix) for (size_t q = 0; q < sels().size(); ++q) { auto& L = sels()[q];
                        if (kind != 1 && q > 26 && q % 5) continue;
                        for (int e = 0; e < 5; ++e) {
                            if (e != (int)(q + kind) % 5 && !(q == 26 || q % 11 == 0)) continue;
                            mc::run_case(mc::fmt("bydofs %s f%d order %d %s entry %d : %s", s.name().c_str(), kind, ord, L.name.c_str(), e, C.name.c_str()), "bydofs", [&] {
                                std::vector<std::pair<int, double>> ex; for (int i = 0; i < nfa; ++i) if (L.in[pl[i].first][pl[i].second]) ex.push_back({i, exact ? funcs()[i] : 0});
                                g_cb = {&f, dim}; g_bad = 0; Dofs D(nfa); bool ok = true;
                                switch (e) {
                                    case 0: { GuardedX m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(C.T(), ep, D.v(), L.sp, m.pm, &g_tag, ord); ok = m.intact(); break; }
                                    case 1: { GuardedX m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(C.T(), lam, D.v(), L.sp, m.pm, &g_tag, ord); ok = m.intact(); break; }
                                    case 2: sp.interpolateByDOFs(C.T(), ep, D.v(), L.sp, g_wmem, &g_tag, ord); break;
                                    case 3: sp.interpolateByDOFs(C.T(), ef, D.v(), L.sp, g_wmem, &g_tag, ord); break;
                                    default: { auto mp = sp.dofMap().GetNestedDofMapView(); GuardedX m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(C.T(), lam, D.v(), L.sp, mp, m.pm, &g_tag, ord); ok = m.intact(); }
                                }
                                std::string sig = "bydofs:" + s.name();
                                if (!ok) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                                if (!exact) { for (auto& x : ex) { double v = D.d[16 + x.first]; x.second = v == UNSET ? 0 : v; } }
                                D.compare(sig, mc::fmt("interpolateByDOFs (entry %d) on %s, order %d", e, L.name.c_str(), ord), ex);
                            });
                        }
                    }
                    // one by one, and two functions at once
                    if (!mix) for (int i = 0; i < nfa; ++i) for (int e = 0; e < 4; ++e) { if (e != (i + kind) % 4) continue;
                        mc::run_case(mc::fmt("ondof %s f%d order %d dof %d entry %d : %s", s.name().c_str(), kind, ord, i, e, C.name.c_str()), "ondof", [&] {
                            std::vector<std::pair<int, double>> ex{{i, exact ? funcs()[i] : 0}};
                            g_cb = {&f, dim}; g_bad = 0; Dofs D(nfa); bool ok = true; ArrayView<> dv = D.v();
                            switch (e) {
                                case 0: { GuardedX m(sp.interpolateOnDOF_mem_req(i, 1, ord)); sp.interpolateOnDOF(C.T(), ep, &dv, i, 1, m.pm, &g_tag, ord); ok = m.intact(); break; }
                                case 1: { GuardedX m(sp.interpolateOnDOF_mem_req(i, 1, ord)); sp.interpolateOnDOF(C.T(), lam, D.v(), i, m.pm, &g_tag, ord); ok = m.intact(); break; }
                                case 2: sp.interpolateOnDOF(C.T(), lam, &dv, i, 1, g_wmem, &g_tag, ord); break;
                                default: sp.interpolateOnDOF(C.T(), lam, D.v(), i, g_wmem, &g_tag, ord);
                            }
                            std::string sig = "ondof:" + s.name();
                            if (!ok) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                            if (!exact) { double v = D.d[16 + i]; ex[0].second = v == UNSET ? 0 : v; }
                            D.compare(sig, mc::fmt("interpolateOnDOF (entry %d), order %d", e, ord), ex);
                        });
                    }
                }
                // sub-views of the space
                std::vector<std::pair<std::vector<int>, std::pair<int, int>>> parts; sub_parts(s, {}, 0, parts);
                int ord = std::max(std::max(fd, s.deg()), 5);
                for (auto& p : parts) for (size_t q = 0; q < sels().size(); ++q) { auto& L = sels()[q]; if (q > 26 && (q + kind) % 7) continue; if (kind != 2 && q % 4 != (size_t)kind % 4) continue;
                    std::string pn; for (int x : p.first) pn += mc::fmt(".%d", x);
                    mc::run_case(mc::fmt("sub %s%s f%d %s : %s", s.name().c_str(), pn.c_str(), kind, L.name.c_str(), C.name.c_str()), "sub", [&] {
                        auto mp = sp.dofMap().GetNestedDofMapView(p.first.data(), p.first.size());
                        std::vector<std::pair<int, double>> ex, cx; for (int i = p.second.first; i < p.second.first + p.second.second; ++i) if (L.in[pl[i].first][pl[i].second]) { ex.push_back({i, mix ? 0 : funcs()[i]}); cx.push_back({i, 4.25}); }
                        Dofs K(nfa); sp.interpolateConstant(4.25, K.v(), L.sp, mp); K.compare("sub-constant:" + s.name(), "interpolateConstant on a part", cx);
                        if (mix) return;
                        g_cb = {&f, dim}; g_bad = 0; Dofs D(nfa), E(nfa);
                        GuardedX m(sp.interpolateByDOFs_mem_req(ord)); sp.interpolateByDOFs(C.T(), lam, D.v(), L.sp, mp, m.pm, &g_tag, ord);
                        if (!m.intact()) mc::fail("workspace-sub:" + s.name(), "memory outside the advertised workspace was changed");
                        D.compare("sub:" + s.name(), "interpolateByDOFs on a part", ex);
                        sp.interpolateByDOFs(C.T(), lam, E.v(), L.sp, mp, g_wmem, &g_tag, ord); E.compare("sub:" + s.name(), "interpolateByDOFs on a part, automatic memory", ex);
                    });
                }
                if (kind == 0) for (size_t q = 0; q < sels().size(); ++q) { auto& L = sels()[q];
                    mc::run_case(mc::fmt("constant %s %s : %s", s.name().c_str(), L.name.c_str(), C.name.c_str()), "constant", [&] {
                        std::vector<std::pair<int, double>> cx; for (int i = 0; i < nfa; ++i) if (L.in[pl[i].first][pl[i].second]) cx.push_back({i, -3.5});
                        Dofs K(nfa); sp.interpolateConstant(-3.5, K.v(), L.sp); K.compare("constant:" + s.name(), "interpolateConstant", cx); });
                }
                // by projection
                for (int el = 0; el < 4; ++el) for (int n = 0; n < NEL[el]; ++n) {
                    int deg = s.deg() + std::max(s.deg(), fd);
                    std::vector<int> po = {std::max(deg, 5)}; if (m03) po.push_back(std::max(deg, 9)), po.push_back(20);
                    for (int ord2 : po) for (int tv = 0; tv < 2; ++tv) {
                        if (el == 0 && mix) continue;
                        if (tv && el != 1 && el != 2) continue;
                        mc::run_case(mc::fmt("region %s f%d order %d %s %d.%d : %s", s.name().c_str(), kind, ord2, ELN[el], n, tv, C.name.c_str()), "region", [&] {
                            unsigned char t = TYPES[el]; if (tv) t = el == 1 ? DofT::EDGE_UNORIENT : DofT::FACE_ORIENT;
                            std::vector<std::pair<int, double>> ex;
                            if (el == 0) { for (int i = 0; i < nfa; ++i) if (pl[i].first == 0 && pl[i].second == n) ex.push_back({i, funcs()[i]}); }
                            else ex = project(C.c, s, f, fd, el, n);
                            g_cb = {&f, dim}; g_bad = 0; Dofs D(nfa);
                            GuardedX m(sp.interpolateOnRegion_mem_req(t, ord2)); sp.interpolateOnRegion(C.T(), ef, D.v(), t, n, m.pm, &g_tag, ord2);
                            std::string sig = mc::fmt("region-%s:", ELN[el]) + s.name();
                            if (!m.intact()) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                            D.compare(sig, mc::fmt("interpolateOnRegion on %s %d, order %d", ELN[el], n, ord2), ex);
                        });
                    }
                }
            }
        }
    }
}
#else
#if MC_PART == 1
typedef FixTypes Types;
#elif MC_PART == 2
typedef TypeList<FemVec<3, FEM_P0>, FemVec<3, FEM_P1>, FemVec<2, FEM_P2>, FemVec<3, FEM_CR1>, FemVec<1, FEM_P1>, FemVecT<2, tRT>, FemVecT<2, FemVec<3, FEM_P1>>, FemVecT<3, tMini>, FemVecT<2, FemCom<FemVec<3, FEM_P1>, tP0>>> Types;
#else
typedef TypeList<FemCom<FemVec<3, FEM_P2>, tP1>, FemCom<tRT, tP0>, FemCom<tP1, tP2, tP3>, FemCom<FemVecT<3, tMini>, tP1>, FemCom<FemCom<tP1, tP0>, FemVec<2, FEM_P1>>, FemCom<tP1, tND>,
    tMini, FemUnionT<tP2, tB4>, FemUnionT<tP1, tB2>, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>, FemUnionT<tRT, FemVec<3, FEM_B4>>, FemUnionT<FemCom<tP1, tP0>, FemVec<2, FEM_B4>>, FemUnionT<tCR, tB4>> Types;
#endif
struct Run {
    int si = 0; bool m03;
    template<class T> void operator()() {
        RSp s = ref::RefOf<T>::make(); ++si; int nfa = s.nfa(), dim = s.dim(); auto pl = ref::dof_places(s); bool mix = has_mix(s);
        for (int id : cells(nfa, si)) { CellCtx C(id);
            for (int kind = 0; kind < 5; ++kind) { auto f = make_fun(C.c, s, kind); int fd = fun_deg(s, kind);
                auto lam = [](const std::array<double, 3>& X, double* r, uint d, void* ud) { return eval_plain(X, r, d, ud); };
                std::vector<double> fu; bool have = false;
                auto funcs = [&]() -> const std::vector<double>& { if (!have) { ref::raw_functionals(C.c, s, f, dim, 0, fu); have = true; } return fu; };
                int ord = std::max(std::max(fd, s.deg()), 5);
                for (size_t q = 0; q < sels().size(); ++q) { auto& L = sels()[q];
                    mc::run_case(mc::fmt("ct-bydofs %s f%d %s : %s", s.name().c_str(), kind, L.name.c_str(), C.name.c_str()), "ct-bydofs", [&] {
                        std::vector<std::pair<int, double>> ex, cx; for (int i = 0; i < nfa; ++i) if (L.in[pl[i].first][pl[i].second]) { ex.push_back({i, mix ? 0 : funcs()[i]}); cx.push_back({i, 4.25}); }
                        Dofs K(nfa); interpolateConstant<T>(4.25, K.v(), L.sp); K.compare("ct-constant:" + s.name(), "interpolateConstant", cx);
                        if (mix) return;
                        g_cb = {&f, dim}; g_bad = 0; Dofs D(nfa); interpolateByDOFs<T>(C.T(), lam, D.v(), L.sp, &g_tag, ord); D.compare("ct-bydofs:" + s.name(), "interpolateByDOFs on " + L.name, ex);
                    });
                }
                for (int el = 0; el < 4; ++el) for (int n = 0; n < NEL[el]; ++n) {
                    int deg = s.deg() + std::max(s.deg(), fd);
                    std::vector<int> po = {std::max(deg, 5)}; if (m03) po.push_back(20);
                    if (el == 0 && mix) continue;
                    for (int ord2 : po) mc::run_case(mc::fmt("ct-region %s f%d order %d %s %d : %s", s.name().c_str(), kind, ord2, ELN[el], n, C.name.c_str()), "ct-region", [&] {
                        unsigned char t = TYPES[el];
                        std::vector<std::pair<int, double>> ex;
                        if (el == 0) { for (int i = 0; i < nfa; ++i) if (pl[i].first == 0 && pl[i].second == n) ex.push_back({i, funcs()[i]}); }
                        else ex = project(C.c, s, f, fd, el, n);
                        g_cb = {&f, dim}; g_bad = 0; Dofs D(nfa), E(nfa);
                        Guarded m(interpolateByRegion_memory_requirements<T, double, int>(t, ord2)); interpolateByRegion<T>(C.T(), lam, D.v(), t, n, m.pm, &g_tag, ord2);
                        std::string sig = mc::fmt("ct-region-%s:", ELN[el]) + s.name();
                        if (!m.intact()) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                        D.compare(sig, mc::fmt("interpolateByRegion on %s %d, order %d, caller memory", ELN[el], n, ord2), ex);
                        // the stack version states its limit of 256 KB by an assertion
                        if (interpolateByRegion_memory_requirements<T, double, int>(t, ord2).enoughRawSize() > 256 * 1024) return;
                        interpolateByRegion<T>(C.T(), lam, E.v(), t, n, &g_tag, ord2);
                        E.compare(sig, mc::fmt("interpolateByRegion on %s %d, order %d, stack memory", ELN[el], n, ord2), ex);
                    });
                }
            }
        }
    }
};
static void body() { Run r; r.m03 = !strcmp(variant(), "m03"); each_type(Types(), r); }
#endif
MC_MAIN(body)
