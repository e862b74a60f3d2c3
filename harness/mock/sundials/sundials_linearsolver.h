#ifndef MOCK_SUNDIALS_LINEARSOLVER_H
#define MOCK_SUNDIALS_LINEARSOLVER_H
#include "sundials_matrix.h"
enum SUNLinearSolver_Type { SUNLINEARSOLVER_DIRECT, SUNLINEARSOLVER_ITERATIVE, SUNLINEARSOLVER_MATRIX_ITERATIVE, SUNLINEARSOLVER_MATRIX_EMBEDDED };
enum SUNLinearSolver_ID { SUNLINEARSOLVER_BAND, SUNLINEARSOLVER_CUSTOM };
#define SUNLS_SUCCESS 0
#define SUNLS_MEM_NULL -801
#define SUNLS_ILL_INPUT -802
#define SUNLS_MEM_FAIL -803
#define SUNLS_ATIMES_FAIL_UNREC -805
#define SUNLS_PACKAGE_FAIL_UNREC -809
#define SUNLS_RES_REDUCED 801
#define SUNLS_CONV_FAIL 802
#define SUNLS_PACKAGE_FAIL_REC 806
typedef struct _generic_SUNLinearSolver* SUNLinearSolver;
struct _generic_SUNLinearSolver_Ops {
    SUNLinearSolver_Type (*gettype)(SUNLinearSolver) = nullptr; SUNLinearSolver_ID (*getid)(SUNLinearSolver) = nullptr; int (*initialize)(SUNLinearSolver) = nullptr; int (*setup)(SUNLinearSolver, SUNMatrix) = nullptr; int (*solve)(SUNLinearSolver, SUNMatrix, N_Vector, N_Vector, realtype) = nullptr; int (*numiters)(SUNLinearSolver) = nullptr; realtype (*resnorm)(SUNLinearSolver) = nullptr; int (*free)(SUNLinearSolver) = nullptr;
};
struct _generic_SUNLinearSolver {
    void* content = nullptr; _generic_SUNLinearSolver_Ops* ops = nullptr;
#if SUNDIALS_VERSION_MAJOR >= 6
    SUNContext sunctx = nullptr;
#endif
};
inline SUNLinearSolver SUNLinSolNewEmpty(MOCK_CTX) { SUNLinearSolver v = new _generic_SUNLinearSolver; v->ops = new _generic_SUNLinearSolver_Ops; MOCK_SET(v); ++mock::count().ls; return v; }
inline void SUNLinSolFreeEmpty(SUNLinearSolver v) { if (!v) return; delete v->ops; delete v; --mock::count().ls; }
#endif
