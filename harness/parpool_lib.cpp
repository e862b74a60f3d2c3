// The only instrumented translation unit of parpool: the library's pool with the explorer's mutex.
#include "parpool_lib.h"
#include "anifem++/fem/fem_memory_parallel.h"
struct Mutex { void lock() { rt_lock(this); } bool try_lock() { return rt_try_lock(this); } void unlock() { rt_unlock(this); } };
struct Pool { Ani::DynMemParallel<double, int, Mutex> p; };
typedef Ani::DynMem<double, int> DM;
struct Part { DM::MemPart p; };
Pool* lib_new() { return new Pool; }
void lib_delete(Pool* p) { delete p; }
int lib_alloc(Pool* p) { return p->p.alloc(); }
void lib_release(Pool* p, int i) { p->p.release(i); }
std::pair<int, int> lib_alloc_range(Pool* p, int n) { return p->p.alloc_range(n); }
void lib_release_range(Pool* p, std::pair<int, int> r) { p->p.release_range(r); }
void* lib_get(Pool* p, int i) { return p->p.get(i); }
Part* lib_part(void* m, int tag) { Part* r = new Part{((DM*)m)->alloc(2, 1, 0)}; r->p.m_mem.ddata[0] = tag; r->p.m_mem.ddata[1] = -tag; r->p.m_mem.idata[0] = tag; return r; }
bool lib_part_ok(Part* r, int tag) { return r->p.m_mem.ddata[0] == tag && r->p.m_mem.ddata[1] == -tag && r->p.m_mem.idata[0] == tag; }
void lib_part_free(Part* r) { delete r; }
