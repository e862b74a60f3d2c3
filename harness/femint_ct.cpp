// A01 A02 A03 A04 A05 M03 U01: integration with operators known at compile time (stack, caller and automatic memory), against exact integrals.
// MC_PART selects a share of the operator pairs (to bound compilation time).
#include "femint.h"
#include "femtypes.h"
#ifndef MC_PART
#define MC_PART 0
#endif
template<int OP, class T> using O = Operator<OP, T>;
template<class U, class V> struct P {};
template<class T> struct OpInfo;
template<int OP, class T> struct OpInfo<Operator<OP, T>> { static OpS make() { return {ref::RefOf<T>::make(), (int)OP}; } enum { nfa = Operator<OP, T>::Nfa::value, dim = Operator<OP, T>::Dim::value }; };

typedef FemVec<3, FEM_P1> v3P1; typedef FemVec<3, FEM_P0> v3P0; typedef FemVec<3, FEM_P2> v3P2; typedef FemCom<tRT, tP0> cRT; typedef FemCom<tP1, FemVec<2, FEM_P0>> cMix; typedef FemVecT<3, tMini> vMini; typedef FemUnionT<v3P1, FemVec<3, FEM_B4>> uMini;
#if MC_PART == 0
typedef TypeList<P<O<GRAD, tP1>, O<GRAD, tP1>>, P<O<IDEN, tP2>, O<GRAD, tP1>>, P<O<IDEN, tP0>, O<GRAD, v3P1>>, P<O<IDEN, tP3>, O<IDEN, tRT>>, P<O<DIV, tRT>, O<IDEN, tP0>>, P<O<CURL, tND>, O<CURL, tND>>, P<O<GRAD, tCR>, O<DUDX, tB4>>,
    P<O<IDEN, tB2>, O<DUDY, tP3>>> Pairs;
#elif MC_PART == 1
typedef TypeList<P<O<GRAD, v3P1>, O<GRAD, v3P1>>, P<O<DIV, v3P2>, O<IDEN, tP1>>, P<O<IDEN, tP1>, O<DIV, v3P2>>, P<O<CURL, v3P1>, O<IDEN, tND>>, P<O<IDEN, cRT>, O<IDEN, cRT>>, P<O<GRAD, cMix>, O<IDEN, cRT>>, P<O<IDEN, tP0>, O<IDEN, cMix>>> Pairs;
#elif MC_PART == 2
typedef TypeList<P<O<GRAD, vMini>, O<IDEN, vMini>>, P<O<IDEN, uMini>, O<GRAD, uMini>>, P<O<DIV, uMini>, O<IDEN, FemUnionT<tP1, tB2>>>, P<O<GRAD, tMini>, O<GRAD, tMini>>, P<O<IDEN, FemUnionT<tRT, FemVec<3, FEM_B4>>>, O<CURL, FemUnionT<tRT, FemVec<3, FEM_B4>>>>,
    P<O<IDEN, FemVecT<2, tRT>>, O<DUDZ, FemVecT<2, tRT>>>, P<O<IDEN, FemVecT<2, FemVecT<2, tND>>>, O<DIV, tND>>> Pairs;
#elif MC_PART == 3
typedef TypeList<P<O<IDEN, FemCom<vMini, tP1>>, O<IDEN, FemCom<vMini, tP1>>>, P<O<GRAD, FemCom<tP1, tND>>, O<IDEN, FemCom<FemCom<tP1, tP0>, FemVec<2, FEM_P1>>>>, P<O<IDEN, v3P2>, O<GRAD, v3P2>>, P<O<GRAD, FemUnionT<FemCom<tP1, tP0>, FemVec<2, FEM_B4>>>, O<IDEN, tP0>>, P<O<DUDX, FemCom<tP1, tP2, tP3>>, O<IDEN, FemVec<1, FEM_P1>>>,
    P<O<IDEN, tP1>, O<IDEN, FemVec<1, FEM_P1>>>, P<O<IDEN, FemVec<1, FEM_P1>>, O<IDEN, FemVec<1, FEM_P1>>>> Pairs;
#endif

// modes: 0 caller memory, 1 automatic memory, 2 stack memory
template<class U, class V, class Tr> struct Ct {
    static const int F = 4;
    static const bool stack_ok = OpInfo<U>::nfa <= 30 && OpInfo<V>::nfa <= 30 && OpInfo<U>::dim <= 9 && OpInfo<V>::dim <= 9;
    static const bool stackN_ok = stack_ok && OpInfo<V>::dim * OpInfo<U>::nfa <= 90 && OpInfo<V>::dim * OpInfo<U>::dim <= 90;
    template<class Fn> static bool plain(const Form& fm, BatchRef& B, const Fn& fn, DenseMatrix<>& A, int order, bool* g) {
        auto XYZ = tets_of(B.b); int f = B.f(); void* ud = &g_tag;
        PntData Pd(B, fm.t >= FPntL ? fm.idx : 0);
        ArrayView<> XYL(Pd.XYL.data(), Pd.XYL.size()), W(Pd.W.data(), Pd.W.size()); ArrayView<const double> X(Pd.X.data(), Pd.X.size());
        Tetra<const double> T(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
        PlainMemory<> rq;
        switch (fm.t) {
            case FTet: rq = fem3Dtet_memory_requirements<U, V>(order, f); break;
            case FFace: rq = fem3Dface_memory_requirements<U, V>(order, f); break;
            case FFaceN: rq = fem3DfaceN_memory_requirements<U, V>(order, f); break;
            case FEdge: rq = fem3Dedge_memory_requirements<U, V>(order, f); break;
            case FNode: rq = fem3Dnode_memory_requirements<U, V>(f); break;
            case FPntL: rq = fem3DpntL_memory_requirements<U, V>(W.size, f); break;
            case FPntX: rq = fem3DpntX_memory_requirements<U, V>(W.size, f); break;
        }
        Guarded G(rq);
        switch (fm.t) {
            case FTet: fem3Dtet<U, V, Tr>(XYZ, fn, A, G.pm, order, ud); break;
            case FFace: fem3Dface<U, V, Tr>(XYZ, fm.idx, fn, A, G.pm, order, ud); break;
            case FFaceN: fem3DfaceN<U, V, Tr>(XYZ, fm.idx, fn, A, G.pm, order, ud); break;
            case FEdge: fem3Dedge<U, V, Tr>(XYZ, fm.idx, fn, A, G.pm, order, ud); break;
            case FNode: fem3Dnode<U, V, Tr>(XYZ, fm.idx, fn, A, G.pm, ud); break;
            case FPntL: fem3DpntL<U, V, Tr>(XYZ, XYL, W, fn, A, G.pm, ud); break;
            case FPntX: fem3DpntX<U, V, Tr>(T, X, W, fn, A, G.pm, ud); break;
        }
        *g = G.intact();
        return true;
    }
    template<class Fn> static bool dyn(const Form& fm, BatchRef& B, const Fn& fn, DenseMatrix<>& A, int order) {
        auto XYZ = tets_of(B.b); void* ud = &g_tag;
        PntData Pd(B, fm.t >= FPntL ? fm.idx : 0);
        ArrayView<> XYL(Pd.XYL.data(), Pd.XYL.size()), W(Pd.W.data(), Pd.W.size()); ArrayView<const double> X(Pd.X.data(), Pd.X.size());
        Tetra<const double> T(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
        switch (fm.t) {
            case FTet: fem3Dtet<U, V, Tr>(XYZ, fn, A, g_wmem, order, ud); break;
            case FFace: fem3Dface<U, V, Tr>(XYZ, fm.idx, fn, A, g_wmem, order, ud); break;
            case FFaceN: fem3DfaceN<U, V, Tr>(XYZ, fm.idx, fn, A, g_wmem, order, ud); break;
            case FEdge: fem3Dedge<U, V, Tr>(XYZ, fm.idx, fn, A, g_wmem, order, ud); break;
            case FNode: fem3Dnode<U, V, Tr>(XYZ, fm.idx, fn, A, g_wmem, ud); break;
            case FPntL: fem3DpntL<U, V, Tr>(XYZ, XYL, W, fn, A, g_wmem, ud); break;
            case FPntX: fem3DpntX<U, V, Tr>(T, X, W, fn, A, g_wmem, ud); break;
        }
        return true;
    }
    template<class Fn> static bool stack(std::true_type, const Form& fm, BatchRef& B, const Fn& fn, DenseMatrix<>& A, int order) {
        auto XYZ = tets_of(B.b); void* ud = &g_tag;
        PntData Pd(B, fm.t >= FPntL ? fm.idx : 0);
        ArrayView<> XYL(Pd.XYL.data(), Pd.XYL.size()), W(Pd.W.data(), Pd.W.size()); ArrayView<const double> X(Pd.X.data(), Pd.X.size());
        Tetra<const double> T(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
        switch (fm.t) {
            case FTet: if (order > 6) return false; fem3Dtet<U, V, Tr, F>(XYZ, fn, A, order, ud); break;
            case FFace: if (order > 9) return false; fem3Dface<U, V, Tr, F>(XYZ, fm.idx, fn, A, order, ud); break;
            case FFaceN: if (order > 9 || !stackN_ok) return false; fem3DfaceN<U, V, Tr, F>(XYZ, fm.idx, fn, A, order, ud); break;
            case FEdge: if (order > 20) return false; fem3Dedge<U, V, Tr, F>(XYZ, fm.idx, fn, A, order, ud); break;
            case FNode: fem3Dnode<U, V, Tr, F>(XYZ, fm.idx, fn, A, ud); break;
            case FPntL: fem3DpntL<U, V, Tr, F>(XYZ, XYL, W, fn, A, ud); break;
            case FPntX: fem3DpntX<U, V, Tr>(T, X, W, fn, A, ud); break;
        }
        return true;
    }
    template<class Fn> static bool stack(std::false_type, const Form&, BatchRef&, const Fn&, DenseMatrix<>&, int) { return false; }
};
template<class T> struct Rt;
template<int OP, class F> struct Rt<Operator<OP, F>> { typedef ApplyOpFromTemplate<OP, F> T; };
#ifdef WITH_EIGEN
template<class U, class V, class Tr, class Fn> static bool eig(std::true_type, BatchRef& B, const Fn& fn, OutMat& A, int order) {
    Eigen::Vector3d x[4]; for (int k = 0; k < 4; ++k) for (int i = 0; i < 3; ++i) x[k][i] = B.b.xy[k][i];
    Eigen::Matrix<double, V::Nfa::value, U::Nfa::value> M; M.setConstant(std::numeric_limits<double>::quiet_NaN());
    fem3Dtet<U, V, Tr>(x[0], x[1], x[2], x[3], fn, M, order, (void*)&g_tag);
    for (int j = 0; j < U::Nfa::value; ++j) for (int i = 0; i < V::Nfa::value; ++i) A.d[16 + i + V::Nfa::value * j] = M(i, j);
    return true;
}
template<class U, class V, class Tr, class Fn> static bool eig(std::false_type, BatchRef&, const Fn&, OutMat&, int) { return false; }
#endif
template<class U, class V, class Tr> static void run_one(const char* pfx, const Form& fm, BatchRef& B, const Coef& c, int mode, int order, const char* what) {
    OpS u = OpInfo<U>::make(), v = OpInfo<V>::make();
    CoefF fn{c, c.kind, false, c.var == VConst, coef_rows(fm, v), u.dim()};
    if (Tr::TensorSparsity::value == PerPoint && c.kind == TENSOR_SCALAR && c.var == VPoint) fn.rep = 0;
    OutMat A(v.nfa(), u.nfa() * B.f());
    bool g = true, ran = false;
    typedef Ct<U, V, Tr> C;
    if (mode == 0) ran = C::plain(fm, B, fn, A.M, order, &g);
    else if (mode == 1) ran = C::dyn(fm, B, fn, A.M, order);
    else if (mode == 2) ran = C::stack(std::integral_constant<bool, C::stack_ok>(), fm, B, fn, A.M, order);
    else if (mode == 3) { typename Rt<U>::T a; typename Rt<V>::T b; run_rt<Tr>(fm, B, a, b, fn, A.M, (order + fm.idx) % 2 ? MPlain : MDyn, order, &g); ran = true; }
    else if (mode == 5) { FemSpace s1 = ref::run_space(u.sp), s2 = ref::run_space(v.sp); auto a = s1.getOP((OperatorType)u.op); auto b = s2.getOP((OperatorType)v.op); run_rt<Tr>(fm, B, a, b, fn, A.M, (order + fm.idx) % 2 ? MPlain : MDyn, order, &g); ran = true; }
#ifdef WITH_EIGEN
    else if (fm.t == FTet && B.f() == 1 && order <= 6) ran = eig<U, V, Tr>(std::integral_constant<bool, C::stack_ok>(), B, fn, A, order);
#endif
    if (!ran) return;
    if (mode != 3 && mode != 5) mc::trans();
    std::string sig = std::string(pfx) + ":" + form_name(fm.t) + ":" + u.name() + "," + v.name();
    if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
    static const char* mn[] = {"caller memory", "automatic memory", "stack memory", "operators wrapped for run time", "Eigen interface", "operators of run-time spaces"};
    check_mat(sig, B, fm, u, v, c, A, std::string(mn[mode]) + what);
}
template<class U, class V> static void fix_pair(const char* pfx, const std::vector<int>& types, const std::vector<std::vector<int>>& bs, bool kinds, int mode0 = 0, int mode1 = 4) {
    OpS u = OpInfo<U>::make(), v = OpInfo<V>::make();
    MC_REQ((int)U::Nfa::value == u.nfa() && (int)V::Nfa::value == v.nfa() && (int)U::Dim::value == u.dim() && (int)V::Dim::value == v.dim(), std::string(pfx) + ":sizes:" + u.name(), "wrong number of functions or dimension");
    for (auto& fm : forms(types)) for (auto& bi : bs) {
        BatchRef B(bi);
        if (fm.t == FPntX && B.f() > 1) continue;
        int R = coef_rows(fm, v), C = u.dim();
        bool single = u.nfa() == 1 && C == 1;
        for (int mode = mode0; mode <= mode1; ++mode) for (int kind = TENSOR_NULL; kind <= TENSOR_GENERAL; ++kind) {
            if (!kinds && kind != TENSOR_GENERAL) continue;
            if (mode == 4 && (fm.t != FTet || B.f() > 1)) continue;
            if (mode == 2 && B.f() > 4) continue;   // stack memory: batches of at most four cells by its interface
            if (kind == TENSOR_SYMMETRIC && R != C) continue;
            if (kind <= TENSOR_SCALAR && R != C && !single) continue;
            mc::run_case(mc::fmt("%s-ct %s%d %s %s k%d mem%d :%s", pfx, form_name(fm.t), fm.idx, u.name().c_str(), v.name().c_str(), kind, mode, B.name().c_str()), pfx, [&] {
                Coef c; c.kind = kind; c.var = kind == TENSOR_NULL ? VConst : VPoint;
                int order = u.deg() + v.deg() + c.deg();
                run_one<U, V, DfuncTraits<>>(pfx, fm, B, c, mode, order, "");
            });
        }
    }
}
template<int I> struct Sel { typedef DfuncTraits<PerTetra, false> T; enum { kind = TENSOR_GENERAL, var = VPoint }; };
template<> struct Sel<1> { typedef DfuncTraits<PerSelection, false> T; enum { kind = TENSOR_GENERAL, var = VPoint }; };
template<> struct Sel<2> { typedef DfuncTraits<TENSOR_NULL, true> T; enum { kind = TENSOR_NULL, var = VConst }; };
template<> struct Sel<3> { typedef DfuncTraits<TENSOR_GENERAL, true> T; enum { kind = TENSOR_GENERAL, var = VConst }; };
template<> struct Sel<4> { typedef DfuncTraits<TENSOR_SYMMETRIC, false> T; enum { kind = TENSOR_SYMMETRIC, var = VCell }; };
template<> struct Sel<5> { typedef DfuncTraits<TENSOR_SCALAR, false> T; enum { kind = TENSOR_SCALAR, var = VPoint }; };
template<class U, class V, int I> static void traits_pair(const std::vector<std::vector<int>>& bs) {
    typedef typename Sel<I>::T Tr;
    OpS u = OpInfo<U>::make(), v = OpInfo<V>::make();
    for (auto& fm : forms({FTet, FFaceN, FNode})) for (auto& bi : bs) {
        BatchRef B(bi);
        int R = coef_rows(fm, v), C = u.dim(), kind = Sel<I>::kind;
        if (kind == TENSOR_SYMMETRIC && R != C) continue;
        if (kind <= TENSOR_SCALAR && R != C && !(u.nfa() == 1 && C == 1)) continue;
        for (int mode = 0; mode < 3; ++mode)
            mc::run_case(mc::fmt("a04-ct declaration %d %s%d %s %s mem%d :%s", I, form_name(fm.t), fm.idx, u.name().c_str(), v.name().c_str(), mode, B.name().c_str()), "a04", [&] {
                Coef c; c.kind = kind; c.var = Sel<I>::var;
                run_one<U, V, Tr>("a04", fm, B, c, mode, u.deg() + v.deg() + c.deg(), mc::fmt(", declaration %d", I).c_str());
            });
    }
}
// every order and batch size: caller memory of exactly the advertised size gives the result of automatic memory
template<class U, class V> static void exact_pair() {
    OpS u = OpInfo<U>::make(), v = OpInfo<V>::make();
    int n = 0;
    for (auto& fm : forms({FTet, FFace, FFaceN, FEdge, FNode, FPntL, FPntX})) for (int order = 0; order <= 20; ++order) for (int f = 1; f <= 4; ++f) { ++n;
        if (fm.t >= FNode && order) continue;
        if (fm.t == FPntX && f > 1) continue;
        if (!mc::thorough() && n % 3 && order > 6) continue;
        mc::run_case(mc::fmt("m03-ct %s%d %s %s order %d batch %d", form_name(fm.t), fm.idx, u.name().c_str(), v.name().c_str(), order, f), "m03", [&] {
            std::vector<int> ids; for (int r = 0; r < f; ++r) ids.push_back((n * 31 + r * 477) % 1392);
            BatchRef B(ids);
            Coef c; CoefF fn{c, c.kind, false, false, coef_rows(fm, v), u.dim()};
            OutMat A(v.nfa(), u.nfa() * f), D(v.nfa(), u.nfa() * f), S(v.nfa(), u.nfa() * f);
            bool g = true; typedef Ct<U, V, DfuncTraits<>> C;
            C::plain(fm, B, fn, A.M, order, &g); C::dyn(fm, B, fn, D.M, order);
            bool st = C::stack(std::integral_constant<bool, C::stack_ok>(), fm, B, fn, S.M, order);
            std::string sig = mc::fmt("m03:%s:%s,%s", form_name(fm.t), u.name().c_str(), v.name().c_str());
            MC_REQ(g, "workspace-" + sig, "memory outside the advertised workspace was changed (order %d, batch %d)", order, f);
            MC_REQ(A.intact() && D.intact() && S.intact(), "out-of-bounds:" + sig, "values outside the element matrix were changed");
            for (size_t k = 0; k < A.n; ++k) { mc::checked();
                MC_REQ(std::fabs(A[k] - D[k]) <= 1e-12 * (1 + std::fabs(D[k])), sig, "order %d batch %d entry %d: %.17g with caller memory, %.17g with automatic memory", order, f, (int)k, A[k], D[k]);
                if (st) MC_REQ(std::fabs(S[k] - D[k]) <= 1e-12 * (1 + std::fabs(D[k])), sig, "order %d batch %d entry %d: %.17g with stack memory, %.17g with automatic memory", order, f, (int)k, S[k], D[k]); }
            mc::state();
        });
    }
}
template<class L> struct Each;
template<class... U, class... V> struct Each<TypeList<P<U, V>...>> {
    static void fixed(const char* pfx, const std::vector<int>& types, const std::vector<std::vector<int>>& bs, bool kinds, int m0 = 0, int m1 = 4) { int d[] = {0, (fix_pair<U, V>(pfx, types, bs, kinds, m0, m1), 0)...}; (void)d; }
    static void exact() { int d[] = {0, (exact_pair<U, V>(), 0)...}; (void)d; }
    template<int I> static void traits(const std::vector<std::vector<int>>& bs) { int d[] = {0, (traits_pair<U, V, I>(bs), 0)...}; (void)d; }
};
static std::vector<std::vector<int>> many_batches(int cnt) {
    std::vector<std::vector<int>> r;
    for (int k = 0; k < cnt; ++k) { std::vector<int> b; for (int i = 0; i <= k % 4; ++i) b.push_back((57 + 409 * k + 523 * i) % 1392); r.push_back(b); }
    return r;
}
static std::vector<std::vector<int>> sequences(int maxlen) {
    std::vector<int> cells = {5, 700, 1111}; std::vector<std::vector<int>> seqs, cur{{}};
    for (int l = 1; l <= maxlen; ++l) { std::vector<std::vector<int>> nx; for (auto& s : cur) for (int c : cells) { auto t = s; t.push_back(c); nx.push_back(t); } cur = nx; for (auto& s : nx) seqs.push_back(s); }
    for (int l : {5, 11, 24}) { std::vector<int> q; for (int i = 0; i < l; ++i) q.push_back((i * 97 + l * 31) % 1392); seqs.push_back(q); }   // long ones, all cells different
    return seqs;
}
static void body() {
    std::string v = variant(); bool th = mc::thorough();
    typedef Each<Pairs> E;
#ifdef MC_ONLY_TRAITS
    if (v == "a04") { auto bs = many_batches(th ? 348 : 48); E::traits<0>(bs); E::traits<1>(bs); E::traits<2>(bs); E::traits<3>(bs); E::traits<4>(bs); E::traits<5>(bs); }
#else
    if (v == "a01") E::fixed("a01", {FTet}, many_batches(1392), false);
    if (v == "a02") E::fixed("a02", {FFace, FFaceN}, many_batches(th ? 1392 : 348), false);
    if (v == "a03") E::fixed("a03", {FEdge, FNode, FPntL, FPntX}, many_batches(th ? 1392 : 348), false);
    if (v == "a04") E::fixed("a04", {FTet, FFace, FFaceN, FEdge, FNode, FPntL, FPntX}, many_batches(th ? 348 : 48), true);
    if (v == "a05") E::fixed("a05", {FTet, FFace, FFaceN, FEdge, FNode, FPntL}, sequences(th ? 6 : 4), false);
    if (v == "u01") E::fixed("u01", {FTet, FFace, FFaceN, FEdge, FNode, FPntL, FPntX}, many_batches(th ? 348 : 48), false, 0, 5);
    if (v == "m03") E::exact();
#endif
}
MC_MAIN(body)
