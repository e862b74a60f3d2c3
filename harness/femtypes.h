// The compile-time spaces the finite element checks run over.
#pragma once
#include "femref.h"
using namespace Ani;
template<int F> using Fx = FemFix<F>;
template<class... T> struct TypeList {};
typedef FemFix<FEM_P0> tP0; typedef FemFix<FEM_P1> tP1; typedef FemFix<FEM_P2> tP2; typedef FemFix<FEM_P3> tP3;
typedef FemFix<FEM_RT0> tRT; typedef FemFix<FEM_ND0> tND; typedef FemFix<FEM_CR1> tCR; typedef FemFix<FEM_B2> tB2; typedef FemFix<FEM_B4> tB4;
typedef TypeList<tP0, tP1, tP2, tP3, tRT, tND, tCR, tB2, tB4> FixTypes;
typedef FemUnionT<tP1, tB4> tMini;
typedef TypeList<FemVec<3, FEM_P0>, FemVec<3, FEM_P1>, FemVec<2, FEM_P2>, FemVec<3, FEM_P2>, FemVec<3, FEM_CR1>, FemVec<3, FEM_B2>, FemVec<1, FEM_P1>, FemVec<3, FEM_B4>> VecTypes;
typedef TypeList<FemVecT<2, tRT>, FemVecT<2, FemVec<3, FEM_P1>>, FemVecT<3, tMini>, FemVecT<2, FemCom<FemVec<3, FEM_P1>, tP0>>, FemVecT<2, FemVecT<2, tND>>> VecTTypes;
typedef TypeList<FemCom<FemVec<3, FEM_P2>, tP1>, FemCom<tRT, tP0>, FemCom<tP1, tP2, tP3>, FemCom<FemVecT<3, tMini>, tP1>, FemCom<FemCom<tP1, tP0>, FemVec<2, FEM_P1>>, FemCom<tP1, tND>> ComTypes;
typedef TypeList<tMini, FemUnionT<tP2, tB4>, FemUnionT<tP1, tB2>, FemUnionT<tP1, tB2, tB4>, FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>, FemUnionT<tRT, FemVec<3, FEM_B4>>,
                 FemUnionT<FemCom<tP1, tP0>, FemVec<2, FEM_B4>>, FemUnionT<tCR, tB4>> UniTypes;

// does the compile-time operator exist for this space
template<class T> struct IsVecOp { static const bool value = false; };                     // DIV, CURL
template<> struct IsVecOp<tRT> { static const bool value = true; };
template<> struct IsVecOp<tND> { static const bool value = true; };
template<int OP> struct IsVecOp<FemVec<3, OP>> { static const bool value = OP != FEM_RT0 && OP != FEM_ND0; };
template<class T, class... U> struct IsVecOp<Ani::FemComDetails::FemUnionTImpl<true, T, U...>> { static const bool value = IsVecOp<T>::value && IsVecOp<Ani::FemComDetails::FemUnionTImpl<true, U...>>::value; };
template<class T> struct IsVecOp<Ani::FemComDetails::FemUnionTImpl<true, T>> { static const bool value = IsVecOp<T>::value; };

template<class F, int OP, class T, bool Has> struct CallOp { static void call(F& f) { f.template operator()<OP, T>(); } };
template<class F, int OP, class T> struct CallOp<F, OP, T, false> { static void call(F&) {} };
template<class F, class T> void each_op(F& f) {
    CallOp<F, IDEN, T, true>::call(f); CallOp<F, GRAD, T, true>::call(f);
    CallOp<F, DUDX, T, true>::call(f); CallOp<F, DUDY, T, true>::call(f); CallOp<F, DUDZ, T, true>::call(f);
    CallOp<F, DIV, T, IsVecOp<T>::value>::call(f); CallOp<F, CURL, T, IsVecOp<T>::value>::call(f);
}
template<class F, class... T> void each_type_op(TypeList<T...>, F& f) { int d[] = {0, (each_op<F, T>(f), 0)...}; (void)d; }
template<class F, class... T> void each_type(TypeList<T...>, F& f) { int d[] = {0, (f.template operator()<T>(), 0)...}; (void)d; }
