#pragma once
/// one exploration: every schedule with at most `bound` preemptions of a function that starts threads
struct ThrResult { unsigned long schedules, points, accesses; bool capped; };
ThrResult thr_explore(void (*fn)(void*), void* arg, int bound, unsigned long max, bool (*after)(void*, const char* problem, const char* schedule));
void thr_plain(void (*fn)(void*), void* arg);       ///< one run, threads one after another, nothing is watched
void thr_lock(const void* key); void thr_unlock(const void* key);
void thr_yield();                                   ///< the harness lets another thread run
struct ThrOff { bool t; ThrOff(); ~ThrOff(); };     ///< accesses of the harness itself are not watched
int thr_self();
