// E01 A05 M03: applying operators known at compile time to discrete functions at points, every entry point.
// MC_PART selects a share of the spaces (to bound compilation time).
#include "fempnt_common.h"
#include "femtypes.h"
#ifndef MC_PART
#define MC_PART 0
#endif
#if MC_PART == 0
typedef FixTypes Types;
#elif MC_PART == 1
typedef VecTypes Types;
#elif MC_PART == 2
typedef TypeList<FemVecT<2, tRT>, FemVecT<2, FemVec<3, FEM_P1>>, FemVecT<3, tMini>, FemVecT<2, FemCom<FemVec<3, FEM_P1>, tP0>>, FemVecT<2, FemVecT<2, tND>>, FemCom<FemVec<3, FEM_P2>, tP1>, FemCom<tRT, tP0>> Types;
#else
typedef TypeList<FemCom<tP1, tP2, tP3>, FemCom<FemVecT<3, tMini>, tP1>, FemCom<FemCom<tP1, tP0>, FemVec<2, FEM_P1>>, FemCom<tP1, tND>, tMini, FemUnionT<tP1, tB2, tB4>, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>, FemUnionT<tRT, FemVec<3, FEM_B4>>, FemUnionT<FemCom<tP1, tP0>, FemVec<2, FEM_B4>>> Types;
#endif
enum { E_LSTACK, E_LPLAIN, E_LDYN, E_LPTR_STACK, E_LPTR_PLAIN, E_XSTACK, E_XPLAIN, E_XDYN, E_XPTR_STACK, E_XPTR_PLAIN, E_XONE, NENTRY };
static const char* ename(int e) { static const char* n[] = {"L stack", "L caller memory", "L automatic memory", "L matrices stack", "L matrices caller memory", "X stack", "X caller memory", "X automatic memory", "X pointers stack", "X pointers caller memory", "X one point"}; return n[e]; }
template<class Op, bool Ok> struct Stack {
    static bool L(BatchRef&, PntSet&, DenseMatrix<>&, DenseMatrix<>&, bool) { return false; }
    static bool X(BatchRef&, PntSet&, ArrayView<>, ArrayView<>, int) { return false; }
};
template<class Op> struct Stack<Op, true> {
    static bool L(BatchRef& B, PntSet& P, DenseMatrix<>& D, DenseMatrix<>& A, bool mat) {
        int f = B.f();
        if (mat) { DenseMatrix<const double> x[4] = {{B.b.xy[0].data(), 3, (size_t)f}, {B.b.xy[1].data(), 3, (size_t)f}, {B.b.xy[2].data(), 3, (size_t)f}, {B.b.xy[3].data(), 3, (size_t)f}}; fem3DapplyL<Op, 4>(x[0], x[1], x[2], x[3], P.L(), D, A); }
        else fem3DapplyL<Op, 4>(tets_of(B.b), P.L(), D, A);
        return true;
    }
    static bool X(BatchRef& B, PntSet& P, ArrayView<> D, ArrayView<> A, int e) {
        const double *x0 = B.b.xy[0].data(), *x1 = B.b.xy[1].data(), *x2 = B.b.xy[2].data(), *x3 = B.b.xy[3].data();
        if (e == E_XSTACK) fem3DapplyX<Op>(Tetra<const double>(x0, x1, x2, x3), P.Xv(), D, A);
        else if (e == E_XPTR_STACK) fem3DapplyX<Op>(x0, x1, x2, x3, P.Xv(), D, A);
        else fem3DapplyX<Op>(x0, x1, x2, x3, P.X.data(), D, A);
        return true;
    }
};
static std::vector<std::vector<int>> g_bs; static std::vector<int> g_pks; static std::string g_pfx;
struct Run {
    template<int OP, class T> void operator()() {
        typedef Operator<OP, T> Op;
        const bool ok = Op::Nfa::value <= 30 && Op::Dim::value <= 9;
        OpS U{ref::RefOf<T>::make(), OP};
        for (auto& bi : g_bs) { BatchRef B(bi);
            for (int pk : g_pks) for (int e = 0; e < NENTRY; ++e) {
                if (e >= E_XSTACK && B.f() > 1) continue;
                if (e == E_XONE && pk) continue;
                mc::run_case(mc::fmt("%s-ct %s points %d %s :%s", g_pfx.c_str(), U.name().c_str(), pk, ename(e), B.name().c_str()), g_pfx, [&] {
                    int f = B.f(), nfa = U.nfa(); PntSet P(B, pset(pk)); auto XYZ = tets_of(B.b);
                    Tetra<const double> Te(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data());
                    auto dv = make_dofs(nfa, f); DenseMatrix<> D(dv.data(), nfa, f); ArrayView<> Dv(dv.data(), dv.size());
                    OutMat A(U.dim() * P.q, f); ArrayView<> Av(A.M.data, A.M.size); bool g = true, ran = true;
                    bool stack = e == E_LSTACK || e == E_LPTR_STACK || e == E_XSTACK || e == E_XPTR_STACK || e == E_XONE;
                    std::string sig = g_pfx + ":apply-ct:" + U.name();
                    try {
                        switch (e) {
                            case E_LSTACK: case E_LPTR_STACK: ran = Stack<Op, ok>::L(B, P, D, A.M, e == E_LPTR_STACK); break;
                            case E_LPLAIN: { Guarded m(fem3DapplyL_memory_requirements<Op>(P.q, f)); fem3DapplyL<Op>(XYZ, P.L(), D, A.M, m.pm); g = m.intact(); break; }
                            case E_LDYN: fem3DapplyL<Op>(XYZ, P.L(), D, A.M, g_wmem); break;
                            case E_LPTR_PLAIN: { DenseMatrix<const double> x[4] = {{B.b.xy[0].data(), 3, (size_t)f}, {B.b.xy[1].data(), 3, (size_t)f}, {B.b.xy[2].data(), 3, (size_t)f}, {B.b.xy[3].data(), 3, (size_t)f}};
                                Guarded m(fem3DapplyL_memory_requirements<Op>(P.q, f)); fem3DapplyL<Op>(x[0], x[1], x[2], x[3], P.L(), D, A.M, m.pm); g = m.intact(); break; }
                            case E_XSTACK: case E_XPTR_STACK: case E_XONE: ran = Stack<Op, ok>::X(B, P, Dv, Av, e); break;
                            case E_XPLAIN: { Guarded m(fem3DapplyX_memory_requirements<Op>(P.q)); fem3DapplyX<Op>(Te, P.Xv(), Dv, Av, m.pm); g = m.intact(); break; }
                            case E_XDYN: fem3DapplyX<Op>(Te, P.Xv(), Dv, Av, g_wmem); break;
                            case E_XPTR_PLAIN: { Guarded m(fem3DapplyX_memory_requirements<Op>(P.q)); fem3DapplyX<Op>(B.b.xy[0].data(), B.b.xy[1].data(), B.b.xy[2].data(), B.b.xy[3].data(), P.Xv(), Dv, Av, m.pm); g = m.intact(); break; }
                        }
                    } catch (const std::runtime_error&) {
                        if (!stack || (P.q <= 24 && f <= 4)) throw;     // the stack form may refuse more points or cells than its static limits
                        mc::checked(); return;
                    }
                    if (!ran) return;
                    mc::trans();
                    if (stack && (P.q > 24 || f > 4)) { mc::fail(sig + ":limit", mc::fmt("%s accepted %d points and %d cells, its storage holds 24 and 4", ename(e), P.q, f)); return; }
                    if (!g) mc::fail("workspace-" + sig, "memory outside the advertised workspace was changed");
                    check_apply(sig, B, U, pk, 0, nullptr, A, e < E_XSTACK, ename(e));
                    for (int i = 0; i < nfa * f; ++i) if (dv[i] != dof_val(i % nfa, i / nfa)) { mc::fail(sig, "the coefficients of the function were changed"); break; }
                });
            }
        }
    }
};
static void body() {
    std::string v = variant(); bool th = mc::thorough(); g_pfx = v; Run r;
    if (v == "e01") { g_bs = spread_batches(th ? 1392 : 348); g_pks = {0, 1, 2, 3}; }
    if (v == "a05") { g_bs = cell_sequences(4); g_pks = {0, 1}; }
    if (v == "m03") { g_bs = spread_batches(16); g_pks = {0, 1, 2, 3, 4}; }
    each_type_op(Types(), r);
}
MC_MAIN(body)
