#pragma once
// kind: 0 std threads over a random access iterator, 1 std threads over an integer range, 2 one thread, 3 OpenMP, 4 std threads through a pointer with extra arguments
void lib_loop(int kind, int nthreads, int* beg, int n);
bool lib_has_omp();
int lib_num_threads_std(int);
void rt_body(int index, int thread_num, int extra);
