// E01 A05 M03: applying run-time operators (with and without a coefficient tensor) to discrete functions at points.
#include "fempnt_common.h"
static std::vector<RSp> spaces() {
    auto F = [](int f) { return RSp::Fix(f); };
    RSp mini = RSp::Uni({F(FEM_P1), F(FEM_B4)});
    std::vector<RSp> s;
    for (int f : {FEM_P0, FEM_P1, FEM_P2, FEM_P3, FEM_RT0, FEM_ND0, FEM_CR1, FEM_B2, FEM_B4}) s.push_back(F(f));
    s.push_back(RSp::Vec(1, F(FEM_P1))); s.push_back(RSp::Vec(2, F(FEM_P1))); s.push_back(RSp::Vec(3, F(FEM_P1))); s.push_back(RSp::Vec(3, F(FEM_P0))); s.push_back(RSp::Vec(3, F(FEM_P2)));
    s.push_back(mini); s.push_back(RSp::Vec(3, mini)); s.push_back(RSp::Uni({RSp::Vec(3, F(FEM_P1)), RSp::Vec(3, F(FEM_B4))})); s.push_back(RSp::Uni({F(FEM_RT0), RSp::Vec(3, F(FEM_B4))}));
    s.push_back(RSp::Com({F(FEM_P1), F(FEM_P0), F(FEM_P2)})); s.push_back(RSp::Com({F(FEM_P0), RSp::Vec(2, F(FEM_P1))})); s.push_back(RSp::Com({F(FEM_RT0), F(FEM_P0)})); s.push_back(RSp::Vec(2, F(FEM_RT0)));
    s.push_back(RSp::Vec(2, RSp::Com({F(FEM_P1), F(FEM_P0)}))); s.push_back(RSp::Com({RSp::Vec(3, mini), F(FEM_P1)})); s.push_back(RSp::Com({F(FEM_P1), F(FEM_ND0)})); s.push_back(RSp::Com({RSp::Com({F(FEM_P1), F(FEM_P0)}), RSp::Vec(2, F(FEM_P1))}));
    return s;
}
static std::map<std::string, FemSpace> g_spaces;
static FemSpace& space_of(const RSp& s) {
    auto it = g_spaces.find(s.name());
    if (it == g_spaces.end()) it = g_spaces.emplace(s.name(), ref::run_space(s)).first;
    return it->second;
}
// entry: 0 L caller, 1 L automatic, 2 X caller, 3 X automatic (single cell)
static void plain_one(const char* pfx, BatchRef& B, const OpS& U, int pk, int entry) {
    auto u = space_of(U.sp).getOP((OperatorType)U.op);
    int f = B.f(); PntSet P(B, pset(pk)); auto XYZ = tets_of(B.b);
    Tetra<const double> T(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
    auto dv = make_dofs(U.nfa(), f); DenseMatrix<> D(dv.data(), U.nfa(), f);
    OutMat A(U.dim() * P.q, f); bool g = true;
    switch (entry) {
        case 0: { GuardedX m(fem3DapplyL_memory_requirements(u, P.q, f)); fem3DapplyL(XYZ, P.L(), D, u, A.M, m.pm); g = m.intact(); break; }
        case 1: fem3DapplyL(XYZ, P.L(), D, u, A.M, g_wmem); break;
        case 2: { GuardedX m(fem3DapplyX_memory_requirements(u, P.q, 1)); fem3DapplyX(T, P.Xv(), D, u, A.M, m.pm); g = m.intact(); break; }
        case 3: fem3DapplyX(T, P.Xv(), D, u, A.M, g_wmem); break;
    }
    mc::trans();
    static const char* en[] = {"fem3DapplyL, caller memory", "fem3DapplyL, automatic memory", "fem3DapplyX, caller memory", "fem3DapplyX, automatic memory"};
    std::string sig = std::string(pfx) + ":apply" + "LLXX"[entry] + ":" + U.name();
    if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
    check_apply(sig, B, U, pk, 0, nullptr, A, true, en[entry]);
    for (int i = 0; i < U.nfa() * f; ++i) if (dv[i] != dof_val(i % U.nfa(), i / U.nfa())) { mc::fail(sig, "the coefficients of the function were changed"); break; }
}
template<class Tr, class Fn> static void d_one(const std::string& pfx, BatchRef& B, const OpS& U, int pk, int entry, int Ddim1, const Coef& c, const Fn& fn, const std::string& what) {
    auto u = space_of(U.sp).getOP((OperatorType)U.op);
    int f = B.f(); PntSet P(B, pset(pk)); auto XYZ = tets_of(B.b); void* ud = &g_tag;
    Tetra<const double> T(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
    auto dv = make_dofs(U.nfa(), f); DenseMatrix<> D(dv.data(), U.nfa(), f);
    OutMat A(Ddim1 * P.q, f); bool g = true;
    switch (entry) {
        case 0: { GuardedX m(fem3DapplyL_memory_requirements<Tr>(Ddim1, u, P.q, f)); fem3DapplyL<Tr>(XYZ, P.L(), D, u, Ddim1, fn, A.M, m.pm, ud); g = m.intact(); break; }
        case 1: fem3DapplyL<Tr>(XYZ, P.L(), D, u, Ddim1, fn, A.M, g_wmem, ud); break;
        case 2: { GuardedX m(fem3DapplyX_memory_requirements<Tr>(Ddim1, u, P.q, 1)); fem3DapplyX<Tr>(T, P.Xv(), D, u, Ddim1, fn, A.M, m.pm, ud); g = m.intact(); break; }
        case 3: fem3DapplyX<Tr>(T, P.Xv(), D, u, Ddim1, fn, A.M, g_wmem, ud); break;
    }
    mc::trans();
    static const char* en[] = {"fem3DapplyL with tensor, caller memory", "fem3DapplyL with tensor, automatic memory", "fem3DapplyX with tensor, caller memory", "fem3DapplyX with tensor, automatic memory"};
    std::string sig = pfx + ":applyD" + "LLXX"[entry] + ":" + U.name();
    if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
    check_apply(sig, B, U, pk, Ddim1, &c, A, true, en[entry] + what);
    for (int i = 0; i < U.nfa() * f; ++i) if (dv[i] != dof_val(i % U.nfa(), i / U.nfa())) { mc::fail(sig, "the coefficients of the function were changed"); break; }
}
template<class Tr, bool Fus> struct DCall;
template<class Tr> struct DCall<Tr, false> { static void go(const std::string& p, BatchRef& B, const OpS& U, int pk, int e, int R, const Coef& c, const CoefF& f, const std::string& w) { d_one<Tr>(p, B, U, pk, e, R, c, f, w); } };
template<class Tr> struct DCall<Tr, true> { static void go(const std::string& p, BatchRef& B, const OpS& U, int pk, int e, int R, const Coef& c, const CoefF& f, const std::string& w) { d_one<Tr>(p, B, U, pk, e, R, c, CoefFus{f}, w); } };
static bool kind_ok(int kind, int R, int C) { if (kind == TENSOR_SYMMETRIC) return R == C; if (kind <= TENSOR_SCALAR) return R == C || C == 1; return true; }
template<class Tr, bool Fus> static void decl(const char* pfx, const char* trn, const std::vector<OpS>& ops, const std::vector<std::vector<int>>& bs, const std::vector<int>& pks) {
    const bool cst = Tr::IsConstant::value; const int spars = Tr::TensorSparsity::value;
    for (auto& bi : bs) { BatchRef B(bi);
        for (auto& U : ops) for (int R : {1, 3, U.dim(), 9}) {
            if ((R == 1 || R == 3 || R == 9) && R == U.dim() && R != 1) { if (R == 9) continue; }
            for (int kind = TENSOR_NULL; kind <= TENSOR_GENERAL; ++kind) for (int var = VConst; var <= VPoint; ++var) for (int rep = 0; rep <= TENSOR_GENERAL; ++rep) {
                if (kind == TENSOR_NULL && var != VConst) continue;
                if (cst && var != VConst) continue;
                if (!kind_ok(kind, R, U.dim()) || (rep && !kind_ok(rep, R, U.dim()))) continue;
                if (R != U.dim() && rep != kind && kind <= TENSOR_SCALAR) continue;
                if (rep && rep < kind) continue;
                if (rep == 0 && (spars > 0 || cst || spars == PerSelection || (R != U.dim()))) continue;
                if (spars == TENSOR_NULL && rep != TENSOR_NULL) continue;
                if (spars == TENSOR_SCALAR && rep != TENSOR_SCALAR) continue;
                if ((spars == TENSOR_SYMMETRIC || spars == TENSOR_GENERAL) && !(rep == spars || (spars == TENSOR_GENERAL && rep == TENSOR_SYMMETRIC))) continue;
                for (int pk : pks) for (int e = 0; e < (B.f() > 1 ? 2 : 4); ++e)
                    mc::run_case(mc::fmt("%s-D %s %s rows %d kind %d as %d var %d points %d entry %d :%s", pfx, trn, U.name().c_str(), R, kind, rep, var, pk, e, B.name().c_str()), pfx, [&] {
                        Coef c; c.kind = kind; c.var = var; CoefF fn{c, rep, spars == PerTetra, cst, R, U.dim()};
                        DCall<Tr, Fus>::go(pfx, B, U, pk, e, R, c, fn, mc::fmt(" (declared %s, kind %d returned as %d, %d rows)", trn, kind, rep, R));
                    });
            }
        }
    }
}
static void all(const char* pfx, const std::vector<std::vector<int>>& bs, const std::vector<int>& pks, bool partial) {
    for (auto& bi : bs) { BatchRef B(bi);
        for (auto& s : spaces()) for (auto& U : ops_of(s, partial)) for (int pk : pks) for (int e = 0; e < (B.f() > 1 ? 2 : 4); ++e)
            mc::run_case(mc::fmt("%s %s points %d entry %d :%s", pfx, U.name().c_str(), pk, e, B.name().c_str()), pfx, [&] { plain_one(pfx, B, U, pk, e); });
    }
}
static void body() {
    std::string v = variant(); bool th = mc::thorough();
    std::vector<OpS> all_ops; for (auto& s : spaces()) for (auto& o : ops_of(s, false)) all_ops.push_back(o);
    if (v == "e01") {
        std::vector<std::vector<int>> one; for (int i = 0; i < 1392; ++i) one.push_back({i});
        all("e01", one, {0, 1}, false); all("e01", spread_batches(th ? 1392 : 96), {0, 1, 2, 3, 4}, true);
        auto bs = spread_batches(th ? 96 : 12);
        decl<DfuncTraits<PerPoint, false>, false>("e01", "PerPoint", all_ops, bs, {0, 1}); decl<DfuncTraits<PerTetra, false>, false>("e01", "PerTetra", all_ops, bs, {0, 1}); decl<DfuncTraits<PerSelection, false>, false>("e01", "PerSelection", all_ops, bs, {0, 1});
        decl<DfuncTraits<PerSelection, true>, false>("e01", "PerSelection,const", all_ops, bs, {0, 1}); decl<DfuncTraits<PerPoint, true>, false>("e01", "PerPoint,const", all_ops, bs, {1}); decl<DfuncTraits<PerTetra, true>, false>("e01", "PerTetra,const", all_ops, bs, {1});
        decl<DfuncTraits<TENSOR_NULL, true>, false>("e01", "NULL,const", all_ops, bs, {0, 1}); decl<DfuncTraits<TENSOR_NULL, false>, false>("e01", "NULL", all_ops, bs, {1}); decl<DfuncTraits<TENSOR_SCALAR, false>, false>("e01", "SCALAR", all_ops, bs, {0, 1}); decl<DfuncTraits<TENSOR_SCALAR, true>, false>("e01", "SCALAR,const", all_ops, bs, {1});
        decl<DfuncTraits<TENSOR_SYMMETRIC, false>, false>("e01", "SYMMETRIC", all_ops, bs, {0, 1}); decl<DfuncTraits<TENSOR_SYMMETRIC, true>, false>("e01", "SYMMETRIC,const", all_ops, bs, {1}); decl<DfuncTraits<TENSOR_GENERAL, false>, false>("e01", "GENERAL", all_ops, bs, {0, 1}); decl<DfuncTraits<TENSOR_GENERAL, true>, false>("e01", "GENERAL,const", all_ops, bs, {1});
        decl<DfuncTraitsFusive<>, true>("e01", "batch", all_ops, bs, {0, 1}); decl<DfuncTraitsCommon<PerSelection, true, -1, -1, FusiveTensor>, true>("e01", "batch,const", all_ops, bs, {1}); decl<DfuncTraitsCommon<TENSOR_NULL, true, -1, -1, FusiveTensor>, true>("e01", "batch,NULL", all_ops, bs, {1});
    }
    if (v == "a05") { auto bs = cell_sequences(th ? 5 : 4); all("a05", bs, {0, 1}, false); std::vector<OpS> some; for (auto& o : all_ops) if (some.size() < 60 && o.nfa() <= 15) some.push_back(o);
        decl<DfuncTraits<PerPoint, false>, false>("a05", "PerPoint", some, cell_sequences(th ? 4 : 3), {1}); }
    if (v == "m03") { auto bs = spread_batches(16); all("m03", bs, {0, 1, 2, 3, 4}, true); decl<DfuncTraits<PerPoint, false>, false>("m03", "PerPoint", all_ops, spread_batches(4), {0, 1, 2, 4}); decl<DfuncTraits<TENSOR_NULL, true>, false>("m03", "NULL,const", all_ops, spread_batches(4), {0, 1, 4}); decl<DfuncTraitsFusive<>, true>("m03", "batch", all_ops, spread_batches(4), {0, 1, 4}); }
}
MC_MAIN(body)
