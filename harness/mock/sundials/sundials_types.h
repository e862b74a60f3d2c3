// Stand-in of the part of SUNDIALS the interface of the nonlinear solver uses (types and empty objects).
#ifndef MOCK_SUNDIALS_TYPES_H
#define MOCK_SUNDIALS_TYPES_H
#include <cfloat>
#include <cstdlib>
#include <cstdint>
#ifndef SUNDIALS_VERSION_MAJOR
#define SUNDIALS_VERSION_MAJOR 6
#endif
typedef double realtype;
typedef int64_t sunindextype;
typedef int booleantype;
#define SUNFALSE 0
#define SUNTRUE 1
#define RCONST(x) x
#define BIG_REAL DBL_MAX
#define SMALL_REAL DBL_MIN
#define UNIT_ROUNDOFF DBL_EPSILON
struct _SUNContext { void* comm; };
typedef struct _SUNContext* SUNContext;
namespace mock { struct Count { long vec = 0, mat = 0, ls = 0, kin = 0, ctx = 0; }; inline Count& count() { static Count c; return c; } }
#if SUNDIALS_VERSION_MAJOR >= 6
#include <memory>
namespace sundials {
class Context {
    std::unique_ptr<SUNContext> p;
public:
    explicit Context(void* comm = nullptr): p(new SUNContext(new _SUNContext{comm})) { ++mock::count().ctx; }
    Context(const Context&) = delete; Context(Context&&) = default; Context& operator=(const Context&) = delete;
    Context& operator=(Context&& o) { drop(); p = std::move(o.p); return *this; }
    void drop() { if (p) { delete *p; --mock::count().ctx; p.reset(); } }
    operator SUNContext() { return *p.get(); }
    ~Context() { drop(); }
};
}
#define MOCK_CTX SUNContext c
#define MOCK_SET(v) (v)->sunctx = c
#define MOCK_COPY(w, v) (v)->sunctx = (w)->sunctx
#else
#define MOCK_CTX
#define MOCK_SET(v)
#define MOCK_COPY(w, v)
#endif
#endif
