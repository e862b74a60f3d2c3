#ifndef MOCK_SUNDIALS_MATRIX_H
#define MOCK_SUNDIALS_MATRIX_H
#include "sundials_nvector.h"
enum SUNMatrix_ID { SUNMATRIX_DENSE, SUNMATRIX_CUSTOM };
#define SUNMAT_SUCCESS 0
#define SUNMAT_ILL_INPUT -701
#define SUNMAT_MEM_FAIL -702
#define SUNMAT_OPERATION_FAIL -703
typedef struct _generic_SUNMatrix* SUNMatrix;
struct _generic_SUNMatrix_Ops {
    SUNMatrix_ID (*getid)(SUNMatrix) = nullptr; SUNMatrix (*clone)(SUNMatrix) = nullptr; void (*destroy)(SUNMatrix) = nullptr; int (*zero)(SUNMatrix) = nullptr; int (*copy)(SUNMatrix, SUNMatrix) = nullptr; int (*scaleadd)(realtype, SUNMatrix, SUNMatrix) = nullptr; int (*scaleaddi)(realtype, SUNMatrix) = nullptr; int (*matvecsetup)(SUNMatrix) = nullptr; int (*matvec)(SUNMatrix, N_Vector, N_Vector) = nullptr; int (*space)(SUNMatrix, long*, long*) = nullptr;
};
struct _generic_SUNMatrix {
    void* content = nullptr; _generic_SUNMatrix_Ops* ops = nullptr;
#if SUNDIALS_VERSION_MAJOR >= 6
    SUNContext sunctx = nullptr;
#endif
};
inline SUNMatrix SUNMatNewEmpty(MOCK_CTX) { SUNMatrix v = new _generic_SUNMatrix; v->ops = new _generic_SUNMatrix_Ops; MOCK_SET(v); ++mock::count().mat; return v; }
inline void SUNMatFreeEmpty(SUNMatrix v) { if (!v) return; delete v->ops; delete v; --mock::count().mat; }
inline int SUNMatCopyOps(SUNMatrix w, SUNMatrix v) { if (!w || !v || !w->ops || !v->ops) return -1; *v->ops = *w->ops; return 0; }
#endif
