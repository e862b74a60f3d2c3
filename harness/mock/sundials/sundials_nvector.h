#ifndef MOCK_SUNDIALS_NVECTOR_H
#define MOCK_SUNDIALS_NVECTOR_H
#include "sundials_types.h"
enum N_Vector_ID { SUNDIALS_NVEC_SERIAL, SUNDIALS_NVEC_PARALLEL, SUNDIALS_NVEC_CUSTOM };
typedef struct _generic_N_Vector* N_Vector;
struct _generic_N_Vector_Ops {
    N_Vector_ID (*nvgetvectorid)(N_Vector) = nullptr; N_Vector (*nvclone)(N_Vector) = nullptr; N_Vector (*nvcloneempty)(N_Vector) = nullptr; void (*nvdestroy)(N_Vector) = nullptr;
    void (*nvspace)(N_Vector, sunindextype*, sunindextype*) = nullptr; realtype* (*nvgetarraypointer)(N_Vector) = nullptr; void (*nvsetarraypointer)(realtype*, N_Vector) = nullptr; void* (*nvgetcommunicator)(N_Vector) = nullptr; sunindextype (*nvgetlength)(N_Vector) = nullptr;
    void (*nvlinearsum)(realtype, N_Vector, realtype, N_Vector, N_Vector) = nullptr; void (*nvconst)(realtype, N_Vector) = nullptr; void (*nvprod)(N_Vector, N_Vector, N_Vector) = nullptr; void (*nvdiv)(N_Vector, N_Vector, N_Vector) = nullptr; void (*nvscale)(realtype, N_Vector, N_Vector) = nullptr; void (*nvabs)(N_Vector, N_Vector) = nullptr; void (*nvinv)(N_Vector, N_Vector) = nullptr; void (*nvaddconst)(N_Vector, realtype, N_Vector) = nullptr;
    realtype (*nvdotprod)(N_Vector, N_Vector) = nullptr; realtype (*nvmaxnorm)(N_Vector) = nullptr; realtype (*nvwrmsnorm)(N_Vector, N_Vector) = nullptr; realtype (*nvwrmsnormmask)(N_Vector, N_Vector, N_Vector) = nullptr; realtype (*nvmin)(N_Vector) = nullptr; realtype (*nvwl2norm)(N_Vector, N_Vector) = nullptr; realtype (*nvl1norm)(N_Vector) = nullptr;
    void (*nvcompare)(realtype, N_Vector, N_Vector) = nullptr; booleantype (*nvinvtest)(N_Vector, N_Vector) = nullptr; booleantype (*nvconstrmask)(N_Vector, N_Vector, N_Vector) = nullptr; realtype (*nvminquotient)(N_Vector, N_Vector) = nullptr;
    int (*nvlinearcombination)(int, realtype*, N_Vector*, N_Vector) = nullptr; int (*nvscaleaddmulti)(int, realtype*, N_Vector, N_Vector*, N_Vector*) = nullptr; int (*nvdotprodmulti)(int, N_Vector, N_Vector*, realtype*) = nullptr;
    realtype (*nvdotprodlocal)(N_Vector, N_Vector) = nullptr; realtype (*nvmaxnormlocal)(N_Vector) = nullptr; realtype (*nvminlocal)(N_Vector) = nullptr; realtype (*nvl1normlocal)(N_Vector) = nullptr; booleantype (*nvinvtestlocal)(N_Vector, N_Vector) = nullptr; booleantype (*nvconstrmasklocal)(N_Vector, N_Vector, N_Vector) = nullptr; realtype (*nvminquotientlocal)(N_Vector, N_Vector) = nullptr; realtype (*nvwsqrsumlocal)(N_Vector, N_Vector) = nullptr; realtype (*nvwsqrsummasklocal)(N_Vector, N_Vector, N_Vector) = nullptr;
    void (*nvprint)(N_Vector) = nullptr; void (*nvprintfile)(N_Vector, void*) = nullptr;
};
typedef struct _generic_N_Vector_Ops* N_Vector_Ops;
struct _generic_N_Vector {
    void* content = nullptr; N_Vector_Ops ops = nullptr;
#if SUNDIALS_VERSION_MAJOR >= 6
    SUNContext sunctx = nullptr;
#endif
};
inline N_Vector N_VNewEmpty(MOCK_CTX) { N_Vector v = new _generic_N_Vector; v->ops = new _generic_N_Vector_Ops; MOCK_SET(v); ++mock::count().vec; return v; }
inline void N_VFreeEmpty(N_Vector v) { if (!v) return; delete v->ops; delete v; --mock::count().vec; }
inline int N_VCopyOps(N_Vector w, N_Vector v) { if (!w || !v || !w->ops || !v->ops) return -1; *v->ops = *w->ops; return 0; }
inline void N_VDestroy(N_Vector v) { if (!v) return; if (v->ops && v->ops->nvdestroy) { v->ops->nvdestroy(v); return; } if (v->content) { free(v->content); v->content = nullptr; } N_VFreeEmpty(v); }
#endif
