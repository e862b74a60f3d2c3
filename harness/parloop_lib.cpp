#include "parloop_lib.h"
#include "anifem++/fem/mutex_type.h"
#include <vector>
using namespace ThreadPar;
bool lib_has_omp() {
#ifdef WITH_OPENMP
    return true;
#else
    return false;
#endif
}
int lib_num_threads_std(int n) { return get_num_threads<Type::STD>(n); }
void lib_loop(int kind, int nthreads, int* beg, int n) {
    std::vector<int> v(beg, beg + n);
    int one = 1;
    switch (kind) {
        case 0: { auto f = [](std::vector<int>::iterator it, int t) { rt_body(*it, t, 1); }; parallel_for<Type::STD>(nthreads, f, v.begin(), v.end()); break; }
        case 1: { auto f = [](long i, int t) { rt_body((int)i, t, 1); }; parallel_for<Type::STD>(nthreads, f, 0l, (long)n); break; }
        case 2: { auto f = [](std::vector<int>::iterator it, int t) { rt_body(*it, t, 1); }; parallel_for<Type::NONE>(nthreads, f, v.begin(), v.end()); break; }
        case 5: { auto f = [](int i, int t) { rt_body(i, t, 1); }; parallel_for<Type::STD>(nthreads, f, 0, n); break; }
        case 6: { auto f = [](unsigned i, int t, int& e) { rt_body((int)i, t, e); }; parallel_for<Type::STD>(nthreads, f, 0u, (unsigned)n, one); break; }
        case 4: { auto f = [](int* it, int t, int& e) { rt_body(*it, t, e); }; parallel_for<Type::STD>(nthreads, f, v.data(), v.data() + n, one); break; }
#ifdef WITH_OPENMP
        case 3: { auto f = [](int* it, int t) { rt_body(*it, t, 1); }; parallel_for<Type::OMP>(nthreads, f, v.data(), v.data() + n); break; }
#endif
        default: break;
    }
}
