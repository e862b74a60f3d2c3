// Stand-in of KINSOL: keeps what it was given; KINSol runs the behaviour the harness prescribes.
#ifndef MOCK_KINSOL_H
#define MOCK_KINSOL_H
#include "sundials/sundials_linearsolver.h"
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#define KIN_NONE 0
#define KIN_LINESEARCH 1
#define KIN_PICARD 2
#define KIN_ETACHOICE1 1
#define KIN_ETACHOICE2 2
#define KIN_ETACONSTANT 3
#define KIN_SUCCESS 0
#define KIN_INITIAL_GUESS_OK 1
#define KIN_STEP_LT_STPTOL 2
#define KIN_REPTD_SYSFUNC_ERR -15
#define KIN_WARNING 99
#define KIN_MEM_NULL -1
#define KIN_ILL_INPUT -2
#define KIN_NO_MALLOC -3
#define KIN_MEM_FAIL -4
#define KIN_LINESEARCH_NONCONV -5
#define KIN_MAXITER_REACHED -6
#define KIN_MXNEWT_5X_EXCEEDED -7
#define KIN_LINESEARCH_BCFAIL -8
#define KIN_LINSOLV_NO_RECOVERY -9
#define KIN_LINIT_FAIL -10
#define KIN_LSETUP_FAIL -11
#define KIN_LSOLVE_FAIL -12
#define KIN_SYSFUNC_FAIL -13
#define KIN_FIRST_SYSFUNC_ERR -14
typedef int (*KINSysFn)(N_Vector, N_Vector, void*);
typedef int (*KINLsJacFn)(N_Vector, N_Vector, SUNMatrix, void*, N_Vector, N_Vector);
typedef void (*KINErrHandlerFn)(int, const char*, const char*, char*, void*);
typedef void (*KINInfoHandlerFn)(const char*, const char*, char*, void*);
namespace mock {
struct Kin {
    KINSysFn f = nullptr; KINLsJacFn jac = nullptr; N_Vector tmpl = nullptr; SUNLinearSolver ls = nullptr; SUNMatrix A = nullptr; void* user = nullptr; void *euser = nullptr, *iuser = nullptr; KINErrHandlerFn eh = nullptr; KINInfoHandlerFn ih = nullptr;
    std::map<std::string, std::vector<double>> set; long sets = 0; N_Vector constraints = nullptr; int print = 0; N_Vector u = nullptr, us = nullptr, fs = nullptr; int strategy = -1;
};
inline std::function<int(Kin&)>& solve() { static std::function<int(Kin&)> f; return f; }
inline int note(void* k, const char* n, std::vector<double> v) { if (!k) return KIN_MEM_NULL; Kin* q = static_cast<Kin*>(k); q->set[n] = v; ++q->sets; return KIN_SUCCESS; }
}
inline void* KINCreate(MOCK_CTX) { mock::Kin* k = new mock::Kin; ++mock::count().kin; return k; }
inline void KINFree(void** k) { if (!k || !*k) return; mock::Kin* q = static_cast<mock::Kin*>(*k); if (q->constraints) N_VDestroy(q->constraints); delete q; --mock::count().kin; *k = nullptr; }
#define MK mock::Kin* q = static_cast<mock::Kin*>(k); if (!q) return KIN_MEM_NULL
inline int KINInit(void* k, KINSysFn f, N_Vector tmpl) { MK; if (!f || !tmpl) return KIN_ILL_INPUT; q->f = f; q->tmpl = tmpl; return KIN_SUCCESS; }
inline int KINSetLinearSolver(void* k, SUNLinearSolver ls, SUNMatrix A) { MK; if (!ls) return KIN_ILL_INPUT; q->ls = ls; q->A = A; return KIN_SUCCESS; }
inline int KINSetJacFn(void* k, KINLsJacFn f) { MK; q->jac = f; return KIN_SUCCESS; }
inline int KINSetUserData(void* k, void* u) { MK; q->user = u; return KIN_SUCCESS; }
inline int KINSetErrHandlerFn(void* k, KINErrHandlerFn f, void* u) { MK; q->eh = f; q->euser = u; return KIN_SUCCESS; }
inline int KINSetInfoHandlerFn(void* k, KINInfoHandlerFn f, void* u) { MK; q->ih = f; q->iuser = u; return KIN_SUCCESS; }
inline int KINSetPrintLevel(void* k, int l) { MK; q->print = l; return KIN_SUCCESS; }
inline int KINSetConstraints(void* k, N_Vector c) { MK; if (q->constraints) N_VDestroy(q->constraints); q->constraints = nullptr; if (!c) return KIN_SUCCESS; q->constraints = c->ops->nvclone(c); c->ops->nvscale(1.0, c, q->constraints); return KIN_SUCCESS; }
inline int KINSetEtaForm(void* k, int x) { return mock::note(k, "EtaForm", {double(x)}); }
inline int KINSetEtaConstValue(void* k, realtype x) { return mock::note(k, "EtaConstValue", {x}); }
inline int KINSetEtaParams(void* k, realtype g, realtype a) { return mock::note(k, "EtaParams", {g, a}); }
inline int KINSetResMonParams(void* k, realtype a, realtype b) { return mock::note(k, "ResMonParams", {a, b}); }
inline int KINSetResMonConstValue(void* k, realtype x) { return mock::note(k, "ResMonConst", {x}); }
inline int KINSetMaxNewtonStep(void* k, realtype x) { return mock::note(k, "MaxNewtonStep", {x}); }
inline int KINSetFuncNormTol(void* k, realtype x) { return mock::note(k, "FuncNormTol", {x}); }
inline int KINSetScaledStepTol(void* k, realtype x) { return mock::note(k, "ScaledSteptol", {x}); }
inline int KINSetDampingAA(void* k, realtype x) { return mock::note(k, "DampingAA", {x}); }
inline int KINSetNumMaxIters(void* k, long x) { return mock::note(k, "MaxIters", {double(x)}); }
inline int KINSetNoInitSetup(void* k, booleantype x) { return mock::note(k, "NoInitSetup", {double(x)}); }
inline int KINSetNoResMon(void* k, booleantype x) { return mock::note(k, "NoResMon", {double(x)}); }
inline int KINSetMaxSetupCalls(void* k, long x) { return mock::note(k, "MaxSetupCalls", {double(x)}); }
inline int KINSetMaxSubSetupCalls(void* k, long x) { return mock::note(k, "MaxSubSetupCalls", {double(x)}); }
inline int KINSetNoMinEps(void* k, booleantype x) { return mock::note(k, "NoMinEps", {double(x)}); }
inline int KINSetMaxBetaFails(void* k, long x) { return mock::note(k, "MaxBetaFails", {double(x)}); }
inline int KINSetMAA(void* k, long x) { return mock::note(k, "MAA", {double(x)}); }
inline int KINSol(void* k, N_Vector u, int s, N_Vector us, N_Vector fs) { MK; if (!q->f) return KIN_NO_MALLOC; if (!u || !us || !fs) return KIN_ILL_INPUT; q->u = u; q->strategy = s; q->us = us; q->fs = fs; return mock::solve()(*q); }
#define MG(name, val) inline int name(void* k, long* r) { MK; *r = val; return KIN_SUCCESS; }
MG(KINGetNumFuncEvals, 101) MG(KINGetNumNonlinSolvIters, 102) MG(KINGetNumBetaCondFails, 103) MG(KINGetNumBacktrackOps, 104) MG(KINGetNumJacEvals, 105) MG(KINGetNumLinFuncEvals, 106) MG(KINGetNumLinIters, 107) MG(KINGetNumLinConvFails, 108) MG(KINGetLastLinFlag, 109)
inline int KINGetFuncNorm(void* k, realtype* r) { MK; *r = 110; return KIN_SUCCESS; }
inline int KINGetStepLength(void* k, realtype* r) { MK; *r = 111; return KIN_SUCCESS; }
inline char* KINGetLinReturnFlagName(long f) { char* s = static_cast<char*>(malloc(32)); strcpy(s, ("FLAG" + std::to_string(f)).c_str()); return s; }
#undef MK
#undef MG
#endif
