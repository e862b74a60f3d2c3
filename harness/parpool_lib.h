#pragma once
#include <utility>
struct Pool; struct Part;
Pool* lib_new(); void lib_delete(Pool*);
int lib_alloc(Pool*); void lib_release(Pool*, int);
std::pair<int, int> lib_alloc_range(Pool*, int); void lib_release_range(Pool*, std::pair<int, int>);
void* lib_get(Pool*, int);
Part* lib_part(void*, int tag); bool lib_part_ok(Part*, int tag); void lib_part_free(Part*);
// the mutex of the explorer
void rt_lock(const void*); bool rt_try_lock(const void*); void rt_unlock(const void*);
