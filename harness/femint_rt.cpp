// A01 A02 A03 A04 A05 M03 U01: integration with operators chosen at run time, against exact integrals.
#include "femint.h"
typedef DfuncTraits<> TrGen;

static std::vector<RSp> spaces() {
    auto F = [](int f) { return RSp::Fix(f); };
    RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)});
    std::vector<RSp> s;
    for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) s.push_back(F(f));
    s.push_back(RSp::Vec(1, F(FEM_P1))); s.push_back(RSp::Vec(2, F(FEM_P1))); s.push_back(RSp::Vec(3, F(FEM_P1))); s.push_back(RSp::Vec(3, F(FEM_P0)));
    s.push_back(mini); s.push_back(RSp::Vec(3, mini)); s.push_back(RSp::Uni({RSp::Vec(3, F(FEM_P1)), RSp::Vec(3, F(FEM_B4))})); s.push_back(RSp::Uni({F(FEM_RT0), RSp::Vec(3, F(FEM_B4))}));
    s.push_back(RSp::Com({F(FEM_P1), F(FEM_P0), F(FEM_P2)})); s.push_back(RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))})); s.push_back(RSp::Com({F(FEM_RT0), F(FEM_P0)})); s.push_back(RSp::Vec(2, F(FEM_RT0)));
    s.push_back(RSp::Vec(2, RSp::Com({F(FEM_P1), F(FEM_P0)})));
    if (mc::thorough()) { s.push_back(RSp::Vec(3, F(FEM_P2))); s.push_back(RSp::Com({RSp::Vec(3, F(FEM_P2)), F(FEM_P1)})); s.push_back(RSp::Com({RSp::Vec(3, mini), F(FEM_P1)})); s.push_back(RSp::Com({F(FEM_P1), F(FEM_ND0)})); }
    return s;
}
static std::map<std::string, FemSpace> g_spaces;
static FemSpace& space_of(const RSp& s) {
    auto it = g_spaces.find(s.name());
    if (it == g_spaces.end()) it = g_spaces.emplace(s.name(), ref::run_space(s)).first;
    return it->second;
}
static int order_for(const OpS& U, const OpS& V, const Coef& c, int extra) { return U.deg() + V.deg() + c.deg() + extra; }

static void one(const std::string& pfx, const Form& fm, BatchRef& B, const OpS& U, const OpS& V, const Coef& c, int mode, int extra) {
    CoefF fn{c, c.kind, false, c.var == VConst, coef_rows(fm, V), U.dim()};
    auto u = space_of(U.sp).getOP((OperatorType)U.op); auto v = space_of(V.sp).getOP((OperatorType)V.op);
    OutMat A(V.nfa(), U.nfa() * B.f());
    bool g = true;
    run_rt<TrGen>(fm, B, u, v, fn, A.M, mode, order_for(U, V, c, extra), &g);
    std::string sig = pfx + ":" + form_name(fm.t) + ":" + U.name() + "," + V.name();
    if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
    check_mat(sig, B, fm, U, V, c, A, mode == MPlain ? "caller memory" : "automatic memory");
}
// every ordered pair of operators of every ordered pair of spaces
static void pairs(const char* pfx, const std::vector<int>& types) {
    std::vector<OpS> ops;
    for (auto& s : spaces()) for (auto& o : ops_of(s, true)) if (mc::thorough() || (o.op != DUDX && o.op != DUDZ) || s.nfa() <= 4) ops.push_back(o);
    auto bs = batches();
    auto fms = forms(types);
    int n = 0, ib = 0;
    for (auto& bi : bs) {
        BatchRef B(bi);
        for (auto& U : ops) for (auto& V : ops) {
            ++n;
            for (auto& fm : fms) {
                if (fm.t == FPntX && B.f() > 1) continue;
                // large operators with large operators: every second face / edge / node, moving with the pair
                int cnt = fm.t == FEdge ? 6 : fm.t == FTet ? 1 : 4;
                if (!mc::thorough() && U.nfa() * V.nfa() * U.dim() * V.dim() > 1200 && cnt > 1 && fm.t < FPntL && fm.idx % 2 != n % 2) continue;
                mc::run_case(mc::fmt("%s %s%d %s %s :%s", pfx, form_name(fm.t), fm.idx, U.name().c_str(), V.name().c_str(), B.name().c_str()), pfx,
                             [&] { one(pfx, fm, B, U, V, Coef(), n % 2 ? MPlain : MDyn, n % 3 == 0); });
                // the other kinds of tensor where the shapes allow them: in turn over the batches, each with both kinds of memory
                if (coef_rows(fm, V) != U.dim()) continue;
                Coef c; c.kind = std::array<int, 3>{TENSOR_NULL, TENSOR_SCALAR, TENSOR_SYMMETRIC}[ib % 3];
                mc::run_case(mc::fmt("%s %s%d %s %s kind%d :%s", pfx, form_name(fm.t), fm.idx, U.name().c_str(), V.name().c_str(), c.kind, B.name().c_str()), pfx,
                             [&] { one(pfx, fm, B, U, V, c, ib / 3 % 2 ? MDyn : MPlain, 0); });
            }
        }
        ++ib;
    }
}
// a few pairs on every ordered tetrahedron of the cube
static void all_tets(const char* pfx, const std::vector<int>& types) {
    auto F = [](int f) { return RSp::Fix(f); };
    std::vector<std::pair<OpS, OpS>> pr = {{{F(FEM_P1), GRAD}, {F(FEM_P2), IDEN}}, {{F(FEM_RT0), IDEN}, {F(FEM_ND0), IDEN}}, {{F(FEM_ND0), CURL}, {RSp::Vec(3, F(FEM_P1)), GRAD}}, {{F(FEM_P3), IDEN}, {F(FEM_CR1), GRAD}}, {{RSp::Com({F(FEM_RT0), F(FEM_P0)}), IDEN}, {F(FEM_RT0), DIV}}, {{F(FEM_P0), IDEN}, {F(FEM_B2), DUDY}}};
    auto& L = ref::cube_tets(true);
    auto fms = forms(types);
    for (size_t id = 0; id < L.t.size(); ++id) {
        BatchRef B({(int)id});
        int n = 0;
        for (auto& p : pr) { ++n; for (auto& fm : fms)
            mc::run_case(mc::fmt("%s-t %s%d %s %s :%s", pfx, form_name(fm.t), fm.idx, p.first.name().c_str(), p.second.name().c_str(), B.name().c_str()), pfx,
                         [&] { one(pfx, fm, B, p.first, p.second, Coef(), (n + id) % 2 ? MPlain : MDyn, 0); }); }
    }
}

// ---- A04: the same tensor declared in every possible way
template<class Tr> struct TrName;
static const char* kname(int k) { static const char* n[] = {"mixed", "identity", "scalar", "symmetric", "general"}; return n[k]; }
static const char* vname(int v) { static const char* n[] = {"constant", "per-cell", "per-point"}; return n[v]; }
struct A04 {
    const char* pfx = "a04";
    std::vector<BatchRef> bs; std::vector<std::pair<OpS, OpS>> pr; std::vector<Form> fms;
    template<class Tr, bool Fus> void decl(const char* trn) {
        const bool cst = Tr::IsConstant::value; const int spars = Tr::TensorSparsity::value;
        for (int kind = TENSOR_NULL; kind <= TENSOR_GENERAL; ++kind) for (int var = VConst; var <= VPoint; ++var) {
            if (kind == TENSOR_NULL && var != VConst) continue;
            if (cst && var != VConst) continue;
            // declared kinds that can express the tensor
            for (int rep = 0; rep <= TENSOR_GENERAL; ++rep) {
                if (rep && rep < kind) continue;
                if (rep == 0) { if (spars > 0 || cst || spars == PerSelection) continue; }      // the kind may vary only when the declaration says so
                if (spars > 0 && spars == TENSOR_NULL && rep != TENSOR_NULL) continue;
                if (spars == TENSOR_SCALAR && rep != TENSOR_SCALAR) continue;
                if ((spars == TENSOR_SYMMETRIC || spars == TENSOR_GENERAL) && !(rep == spars || (spars == TENSOR_GENERAL && rep == TENSOR_SYMMETRIC))) continue;
                for (size_t b = 0; b < bs.size(); ++b) for (auto& p : pr) for (auto& fm : fms) {
                    auto& U = p.first; auto& V = p.second; BatchRef& B = bs[b];
                    if (fm.t == FPntX && B.f() > 1) continue;
                    int R = coef_rows(fm, V), C = U.dim();
                    bool single = R != C && U.nfa() == 1 && C == 1;
                    if (kind == TENSOR_SYMMETRIC && R != C) continue;
                    if (rep == TENSOR_SYMMETRIC && R != C) continue;
                    if ((kind == TENSOR_NULL || kind == TENSOR_SCALAR) && R != C && !single) continue;
                    Coef c; c.kind = kind; c.var = var;
                    for (int mode = 0; mode < 2; ++mode)
                    mc::run_case(mc::fmt("%s %s %s %s as %s %s%d %s %s mem%d :%s", pfx, trn, vname(var), kname(kind), kname(rep), form_name(fm.t), fm.idx, U.name().c_str(), V.name().c_str(), mode, B.name().c_str()), pfx, [&] {
                        auto u = space_of(U.sp).getOP((OperatorType)U.op); auto v = space_of(V.sp).getOP((OperatorType)V.op);
                        CoefF fn{c, rep, spars == PerTetra, cst, R, C};
                        OutMat A(V.nfa(), U.nfa() * B.f());
                        bool g = true; int ord = order_for(U, V, c, 0);
                        call<Tr>(std::integral_constant<bool, Fus>(), fm, B, u, v, fn, A.M, mode, ord, &g);
                        std::string sig = mc::fmt("%s:%s:%s:%s", pfx, trn, kname(kind), form_name(fm.t));
                        if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                        check_mat(sig, B, fm, U, V, c, A, mc::fmt("%s %s tensor declared %s returned as %s", vname(var), kname(kind), trn, kname(rep)));
                    });
                }
            }
        }
    }
    template<class Tr> void call(std::false_type, const Form& fm, BatchRef& B, const ApplyOpBase& u, const ApplyOpBase& v, const CoefF& fn, DenseMatrix<>& A, int mode, int ord, bool* g) { run_rt<Tr>(fm, B, u, v, fn, A, mode, ord, g); }
    template<class Tr> void call(std::true_type, const Form& fm, BatchRef& B, const ApplyOpBase& u, const ApplyOpBase& v, const CoefF& fn, DenseMatrix<>& A, int mode, int ord, bool* g) { run_rt<Tr>(fm, B, u, v, CoefFus{fn}, A, mode, ord, g); }
    void run() {
        auto F = [](int f) { return RSp::Fix(f); };
        RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)}), v3 = RSp::Vec(3, F(FEM_P1)), com = RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))});
        bs.emplace_back(std::vector<int>{77}); bs.emplace_back(std::vector<int>{500, 901}); bs.emplace_back(std::vector<int>{1300, 17, 644});
        pr = {{{F(FEM_P1), IDEN}, {F(FEM_P2), IDEN}}, {{F(FEM_P1), GRAD}, {F(FEM_P1), GRAD}}, {{F(FEM_P1), GRAD}, {F(FEM_P2), IDEN}}, {{F(FEM_P0), IDEN}, {F(FEM_P1), GRAD}}, {{F(FEM_P0), IDEN}, {v3, IDEN}}, {{F(FEM_P0), IDEN}, {com, IDEN}},
              {{v3, IDEN}, {F(FEM_RT0), IDEN}}, {{com, IDEN}, {com, IDEN}}, {{F(FEM_RT0), DIV}, {F(FEM_P0), IDEN}}, {{com, IDEN}, {F(FEM_P1), IDEN}}, {{RSp::Vec(2, mini), GRAD}, {RSp::Vec(2, F(FEM_P1)), GRAD}}, {{F(FEM_ND0), CURL}, {com, IDEN}}, {{F(FEM_B4), IDEN}, {com, GRAD}}};
        fms = {{FTet, 0}, {FFace, 1}, {FFaceN, 2}, {FNode, 3}, {FPntL, 1}, {FPntX, 1}, {FEdge, 4}};
        if (mc::thorough()) fms = forms({FTet, FFace, FFaceN, FEdge, FNode, FPntL, FPntX});
        all();
    }
    // the batches of A05 under every declaration of the tensor
    void batches() {
        pfx = "a05";
        auto F = [](int f) { return RSp::Fix(f); };
        RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)}), com = RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))}), big = RSp::Com({F(FEM_P2), F(FEM_RT0), F(FEM_P1)});
        bs.emplace_back(std::vector<int>{500, 901}); bs.emplace_back(std::vector<int>{1300, 17, 644, 17});
        pr = {{{com, IDEN}, {com, IDEN}}, {{big, IDEN}, {big, IDEN}}, {{big, IDEN}, {F(FEM_P1), IDEN}}, {{RSp::Vec(2, mini), GRAD}, {RSp::Vec(2, F(FEM_P1)), GRAD}}, {{F(FEM_P1), GRAD}, {F(FEM_RT0), IDEN}}, {{F(FEM_P0), IDEN}, {com, GRAD}}};
        fms = {{FTet, 0}, {FFaceN, 2}, {FPntL, 0}};
        if (mc::thorough()) { bs.emplace_back(std::vector<int>{3, 1001, 222}); fms = forms({FTet, FFace, FFaceN, FEdge, FNode, FPntL}); }
        all();
    }
    // the forms of A01, A02, A03 under every declaration of the tensor
    void declared(const char* p, const std::vector<int>& types) {
        pfx = p;
        auto F = [](int f) { return RSp::Fix(f); };
        RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)}), com = RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))}), v3 = RSp::Vec(3, F(FEM_P1));
        bs.emplace_back(std::vector<int>{1001}); bs.emplace_back(std::vector<int>{77, 640});
        pr = {{{com, IDEN}, {F(FEM_P1), IDEN}}, {{v3, IDEN}, {F(FEM_P1), IDEN}}, {{com, IDEN}, {v3, IDEN}}, {{v3, GRAD}, {com, IDEN}}, {{F(FEM_P1), GRAD}, {F(FEM_P2), IDEN}}, {{F(FEM_RT0), DIV}, {F(FEM_P0), IDEN}}, {{F(FEM_P0), IDEN}, {com, IDEN}}, {{RSp::Vec(3, mini), CURL}, {F(FEM_ND0), IDEN}}};
        fms = forms(types);
        all();
    }
    void all() {
        decl<DfuncTraits<PerPoint, false>, false>("PerPoint"); decl<DfuncTraits<PerTetra, false>, false>("PerTetra"); decl<DfuncTraits<PerSelection, false>, false>("PerSelection");
        decl<DfuncTraits<PerPoint, true>, false>("PerPoint,const"); decl<DfuncTraits<PerTetra, true>, false>("PerTetra,const"); decl<DfuncTraits<PerSelection, true>, false>("PerSelection,const");
        decl<DfuncTraits<TENSOR_NULL, false>, false>("NULL"); decl<DfuncTraits<TENSOR_NULL, true>, false>("NULL,const");
        decl<DfuncTraits<TENSOR_SCALAR, false>, false>("SCALAR"); decl<DfuncTraits<TENSOR_SCALAR, true>, false>("SCALAR,const");
        decl<DfuncTraits<TENSOR_SYMMETRIC, false>, false>("SYMMETRIC"); decl<DfuncTraits<TENSOR_SYMMETRIC, true>, false>("SYMMETRIC,const");
        decl<DfuncTraits<TENSOR_GENERAL, false>, false>("GENERAL"); decl<DfuncTraits<TENSOR_GENERAL, true>, false>("GENERAL,const");
        decl<DfuncTraitsFusive<>, true>("batch"); decl<DfuncTraitsCommon<PerSelection, true, -1, -1, FusiveTensor>, true>("batch,const"); decl<DfuncTraitsCommon<TENSOR_NULL, true, -1, -1, FusiveTensor>, true>("batch,NULL");
    }
};

// ---- A05: every sequence of cells up to a length
static void batching() {
    auto F = [](int f) { return RSp::Fix(f); };
    RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)}), com = RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))});
    std::vector<std::pair<OpS, OpS>> pr = {{{F(FEM_P1), GRAD}, {F(FEM_P2), IDEN}}, {{F(FEM_RT0), IDEN}, {F(FEM_ND0), CURL}}, {{com, IDEN}, {RSp::Vec(3, F(FEM_P0)), IDEN}}, {{RSp::Vec(3, mini), DIV}, {com, GRAD}}, {{RSp::Uni({F(FEM_RT0), RSp::Vec(3, F(FEM_B4))}), IDEN}, {F(FEM_CR1), GRAD}},
        {{RSp::Vec(2, F(FEM_RT0)), GRAD}, {RSp::Vec(2, F(FEM_RT0)), GRAD}}, {{F(FEM_P0), IDEN}, {F(FEM_P3), DUDX}}, {{RSp::Vec(2, com), IDEN}, {RSp::Vec(2, com), IDEN}}};
    std::vector<int> cells = {5, 700, 1111, 333};
    int maxlen = mc::thorough() ? 5 : 4;
    auto fms = forms({FTet, FFace, FFaceN, FEdge, FNode, FPntL});
    std::vector<std::vector<int>> seqs, cur{{}};
    for (int l = 1; l <= maxlen; ++l) { std::vector<std::vector<int>> nx; for (auto& s : cur) for (int c : cells) { auto t = s; t.push_back(c); nx.push_back(t); } cur = nx; for (auto& s : nx) seqs.push_back(s); }
    for (int l : {6, 9, 17, 40}) { std::vector<int> q; for (int i = 0; i < l; ++i) q.push_back((i * 97 + l * 31) % 1392); seqs.push_back(q); }   // long ones, all cells different
    int n = 0;
    for (auto& s : seqs) {
        BatchRef B(s);
        for (auto& p : pr) for (auto& fm : fms) { ++n;
            if (!mc::thorough() && fm.t != FTet && fm.t != FPntL && (fm.idx + n / 24) % 2) continue;
            mc::run_case(mc::fmt("a05 %s%d %s %s :%s", form_name(fm.t), fm.idx, p.first.name().c_str(), p.second.name().c_str(), B.name().c_str()), "a05", [&] { one("a05", fm, B, p.first, p.second, Coef(), n % 2 ? MPlain : MDyn, 0); });
        }
    }
}
// ---- M03: every quadrature order and batch size, exactly the advertised memory, and the result of automatic memory
static void exact_memory() {
    std::vector<OpS> ops;
    for (auto& s : spaces()) for (auto& o : ops_of(s, false)) ops.push_back(o);
    auto fms = std::vector<Form>{{FTet, 0}, {FFace, 2}, {FFaceN, 1}, {FEdge, 3}, {FNode, 1}, {FPntL, 0}, {FPntL, 1}, {FPntX, 0}, {FPntX, 1}};
    int n = 0;
    for (auto& U : ops) for (auto& V : ops) for (auto& fm : fms) {
        int nord = fm.t == FTet || fm.t == FFace || fm.t == FFaceN || fm.t == FEdge ? (mc::thorough() ? 21 : 4) : 1;
        for (int oi = 0; oi < nord; ++oi) for (int f = 1; f <= (mc::thorough() ? 4 : 2); ++f) { ++n;
            if (fm.t == FPntX && f > 1) continue;
            int order = mc::thorough() ? oi : (oi == 0 ? n % 3 : oi == 1 ? 3 + n % 4 : oi == 2 ? 7 + n % 5 : 12 + n % 9);
            if (U.nfa() * V.nfa() * U.dim() * V.dim() > 4000 && order > 12) continue;
            mc::run_case(mc::fmt("m03 %s%d %s %s order %d batch %d", form_name(fm.t), fm.idx, U.name().c_str(), V.name().c_str(), order, f), "m03", [&] {
                std::vector<int> ids; for (int r = 0; r < f; ++r) ids.push_back((n * 31 + r * 477) % 1392);
                BatchRef B(ids);
                auto u = space_of(U.sp).getOP((OperatorType)U.op); auto v = space_of(V.sp).getOP((OperatorType)V.op);
                Coef c; CoefF fn{c, c.kind, false, false, coef_rows(fm, V), U.dim()};
                OutMat A(V.nfa(), U.nfa() * f), D(V.nfa(), U.nfa() * f);
                bool g = true;
                run_rt<TrGen>(fm, B, u, v, fn, A.M, MPlain, order, &g);
                run_rt<TrGen>(fm, B, u, v, fn, D.M, MDyn, order, nullptr);
                std::string sig = mc::fmt("m03:%s:%s,%s", form_name(fm.t), U.name().c_str(), V.name().c_str());
                MC_REQ(g, "workspace-" + sig, "memory outside the advertised workspace was changed (order %d, batch %d)", order, f);
                MC_REQ(A.intact() && D.intact(), "out-of-bounds:" + sig, "values outside the element matrix were changed");
                for (size_t k = 0; k < A.n; ++k) { mc::checked(); MC_REQ(std::fabs(A[k] - D[k]) <= 1e-12 * (1 + std::fabs(D[k])), sig, "order %d batch %d entry %d: %.17g with caller memory, %.17g with automatic memory", order, f, (int)k, A[k], D[k]); }
                mc::state();
            });
        }
    }
}
// ---- U01: recognition of equal operators: the same object, a copy, an equal one built apart, operators of other spaces
static void equal_ops() {
    std::vector<OpS> ops;
    auto F = [](int f) { return RSp::Fix(f); };
    auto sp = spaces();
    sp.push_back(RSp::Vec(3, F(FEM_CR1))); sp.push_back(RSp::Vec(2, F(FEM_CR1))); sp.push_back(RSp::Vec(3, RSp::Vec(1, F(FEM_P1)))); sp.push_back(RSp::Com({F(FEM_P0), F(FEM_P1)})); sp.push_back(RSp::Com({F(FEM_P1), F(FEM_P0)}));
    for (auto& s : sp) for (auto& o : ops_of(s, false)) ops.push_back(o);
    std::vector<std::vector<int>> bt = {{211}, {850, 12}};
    for (auto& bi : bt) { BatchRef B(bi);
        for (auto& U : ops) for (auto& V : ops) for (int how = 0; how < 4; ++how) {
            bool same = U.name() == V.name();
            if (!same && how != 2) continue;
            for (int t : {FTet, FFaceN, FNode}) for (int mode = 0; mode < 2; ++mode) {
                Form fm{t, t == FTet ? 0 : 1};
                if (!mc::thorough() && !same && t != FTet) continue;
                mc::run_case(mc::fmt("u01 %d %s %s %s mem%d :%s", how, form_name(t), U.name().c_str(), V.name().c_str(), mode, B.name().c_str()), "u01", [&] {
                    FemSpace s1 = ref::run_space(U.sp), s2 = ref::run_space(V.sp);
                    auto u = s1.getOP_own((OperatorType)U.op);
                    Coef c; CoefF fn{c, c.kind, false, false, coef_rows(fm, V), U.dim()};
                    OutMat A(V.nfa(), U.nfa() * B.f()); bool g = true; int ord = order_for(U, V, c, 0);
                    if (how == 0) run_rt<TrGen>(fm, B, u, u, fn, A.M, mode, ord, &g);
                    else if (how == 1) { auto v = s1.getOP_own((OperatorType)V.op); run_rt<TrGen>(fm, B, u, v, fn, A.M, mode, ord, &g); }
                    else if (how == 2) { auto v = s2.getOP_own((OperatorType)V.op); run_rt<TrGen>(fm, B, u, v, fn, A.M, mode, ord, &g); }
                    else { auto v = s1.getOP((OperatorType)V.op); auto u2 = s1.getOP((OperatorType)U.op); run_rt<TrGen>(fm, B, u2, v, fn, A.M, mode, ord, &g); }
                    std::string sig = mc::fmt("u01:%d:%s,%s", how, U.name().c_str(), V.name().c_str());
                    if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                    check_mat(sig, B, fm, U, V, c, A, mode == MPlain ? "caller memory" : "automatic memory");
                });
            }
        }
    }
}
// spaces composed of the same objects: operators are equal only when all parts agree
static void shared_parts() {
    auto F = [](int f) { return RSp::Fix(f); };
    std::vector<RSp> rp = {F(FEM_P1), F(FEM_P2), F(FEM_P0), F(FEM_P1), F(FEM_RT0)};
    static std::vector<FemSpace> ob; for (auto& r : rp) ob.push_back(ref::run_space(r));
    struct Sp { RSp r; FemSpace s; std::string nm; };
    std::vector<Sp> all2, all3, alld;
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) all2.push_back({RSp::Com({rp[a], rp[b]}), make_complex_raw(std::vector<FemSpace>{ob[a], ob[b]}), mc::fmt("%d%d", a, b)});
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) all3.push_back({RSp::Com({rp[a], rp[b], rp[c]}), make_complex_raw(std::vector<FemSpace>{ob[a], ob[b], ob[c]}), mc::fmt("%d%d%d", a, b, c)});
    for (int a : {0, 1, 3}) for (int k = 1; k <= 3; ++k) alld.push_back({RSp::Vec(k, rp[a]), FemSpace(ob[a] ^ k), mc::fmt("%d^%d", a, k)});
    FemSpace b4 = ref::run_space(F(FEM_B4)), b2 = ref::run_space(F(FEM_B2));
    for (int a : {0, 1, 3}) { alld.push_back({RSp::Uni({rp[a], F(FEM_B4)}), ob[a] + b4, mc::fmt("%d+4", a)}); if (a != 1) alld.push_back({RSp::Uni({rp[a], F(FEM_B2)}), ob[a] + b2, mc::fmt("%d+2", a)}); }
    BatchRef B({404, 31});
    int n = 0;
    for (auto* S : {&all2, &all3, &alld}) for (auto& U : *S) for (auto& V : *S) for (int op : {IDEN, GRAD}) { ++n;
        if (op == GRAD && S == &all3 && !mc::thorough()) continue;
        mc::run_case(mc::fmt("u01 shared %s %s op%d", U.nm.c_str(), V.nm.c_str(), op), "u01", [&] {
            OpS u{U.r, op}, v{V.r, op}; Form fm{FTet, 0}; Coef c; CoefF fn{c, c.kind, false, false, coef_rows(fm, v), u.dim()};
            OutMat A(v.nfa(), u.nfa() * B.f()); bool g = true;
            auto a = U.s.getOP_own((OperatorType)op); auto b = V.s.getOP_own((OperatorType)op);
            run_rt<TrGen>(fm, B, a, b, fn, A.M, n % 2 ? MPlain : MDyn, order_for(u, v, c, 0), &g);
            std::string sig = mc::fmt("u01:shared:%s,%s", u.name().c_str(), v.name().c_str());
            if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
            check_mat(sig, B, fm, u, v, c, A, "spaces with common parts");
        });
    }
}
static void body() {
    std::string v = variant();
    if (v == "a01") { pairs("a01", {FTet}); all_tets("a01", {FTet}); A04 a; a.declared("a01", {FTet}); }
    if (v == "a02") { pairs("a02", {FFace, FFaceN}); all_tets("a02", {FFace, FFaceN}); A04 a; a.declared("a02", {FFace, FFaceN}); }
    if (v == "a03") { pairs("a03", {FEdge, FNode, FPntL, FPntX}); all_tets("a03", {FEdge, FNode, FPntL, FPntX}); A04 a; a.declared("a03", {FEdge, FNode, FPntL, FPntX}); }
    if (v == "a04") { A04 a; a.run(); }
    if (v == "a05") { batching(); A04 a; a.batches(); }
    if (v == "m03") exact_memory();
    if (v == "u01") { equal_ops(); shared_parts(); }
}
MC_MAIN(body)
