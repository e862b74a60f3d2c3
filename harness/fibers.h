// Controlled scheduler: threads of the code under test are fibers, every lock / atomic / create / join is a scheduling
// point, every memory access of the instrumented translation unit is checked for a happens-before race.
#pragma once
#ifdef FIBERS_NO_MC   // a unit of its own, apart from the (instrumented) one with the cases
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <vector>
static uint64_t ntrans; static void trans() { ++ntrans; }
static std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
#else
#include "mc.h"
using namespace mc;
#endif
#include <ucontext.h>
#include <unordered_map>
#ifndef FIBERS_MAX
#define FIBERS_MAX 5
#endif
static const int MAXT = FIBERS_MAX;
static bool own_stack_private = true;
struct VC { unsigned c[MAXT]; };
struct Fiber { ucontext_t ctx; char* stack = nullptr; int state = 0; /*0 new/ready 1 blocked 2 done*/ const void* wait = nullptr; VC vc; const std::vector<int>* prog = nullptr; std::function<void()> fn; };
static Fiber F[MAXT];
static ucontext_t mainctx;
static int nT, cur = -1;
static bool tracking = false, runmode = false;
static std::string raced;
#ifndef FIBERS_STK
#define FIBERS_STK (64 * 1024)
#endif
static const size_t STK = FIBERS_STK;
struct Cell { unsigned w; unsigned char wt; unsigned r[MAXT]; };
static std::unordered_map<uintptr_t, Cell>* shadow;
static uint64_t naccess;

static inline void access(uintptr_t a, size_t n, bool wr) {
    if (!tracking) return;
    if (cur >= 0 && own_stack_private) { uintptr_t s = (uintptr_t)F[cur].stack; if (a >= s && a < s + STK) return; }
    tracking = false;
    Fiber& f = F[cur];
    for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; ++g) {
        ++naccess;
        Cell& c = (*shadow)[g];
        if (c.w && c.wt != cur && f.vc.c[c.wt] < c.w && raced.empty()) raced = fmt("thread %d %s memory last written by thread %d without synchronisation", cur, wr ? "writes" : "reads", c.wt);
        if (wr) {
            for (int t = 0; t < nT; ++t) if (t != cur && c.r[t] > f.vc.c[t] && raced.empty()) raced = fmt("thread %d writes memory read by thread %d without synchronisation", cur, t);
            c.w = f.vc.c[cur]; c.wt = cur;
        } else c.r[cur] = f.vc.c[cur];
    }
    tracking = true;
}
#define RT(fn, name, args, ...) void fn args __asm__(name); void fn args { __VA_ARGS__ }
#define ACC(n) RT(rt_r##n, "__tsan_read" #n, (void* p), access((uintptr_t)p, n, false);) RT(rt_w##n, "__tsan_write" #n, (void* p), access((uintptr_t)p, n, true);) \
    RT(rt_ur##n, "__tsan_unaligned_read" #n, (void* p), access((uintptr_t)p, n, false);) RT(rt_uw##n, "__tsan_unaligned_write" #n, (void* p), access((uintptr_t)p, n, true);) \
    RT(rt_vr##n, "__tsan_volatile_read" #n, (void* p), access((uintptr_t)p, n, false);) RT(rt_vw##n, "__tsan_volatile_write" #n, (void* p), access((uintptr_t)p, n, true);)
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
RT(rt_rr, "__tsan_read_range", (void* p, unsigned long n), if (n) access((uintptr_t)p, n, false);)
RT(rt_wr, "__tsan_write_range", (void* p, unsigned long n), if (n) access((uintptr_t)p, n, true);)
RT(rt_vu, "__tsan_vptr_update", (void* p, void*), access((uintptr_t)p, 8, true);)
RT(rt_vrd, "__tsan_vptr_read", (void* p), access((uintptr_t)p, 8, false);)
RT(rt_fe, "__tsan_func_entry", (void*), ) RT(rt_fx, "__tsan_func_exit", (), ) RT(rt_in, "__tsan_init", (), )
RT(rt_tf, "__tsan_atomic_thread_fence", (int), ) RT(rt_sf, "__tsan_atomic_signal_fence", (int), )
extern "C" {
void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && tracking) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && tracking) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memset(void* d, int s, size_t n) { if (n && tracking) access((uintptr_t)d, n, true); return __real_memset(d, s, n); }
}
// atomics: a scheduling point and a synchronising access; fibers are one OS thread, so plain operations are enough
static void atomic_point(const volatile void*);
#define ATM(b, T) \
    T at##b##_load(const volatile T* a, int) __asm__("__tsan_atomic" #b "_load"); T at##b##_load(const volatile T* a, int) { atomic_point(a); return *a; } \
    void at##b##_store(volatile T* a, T v, int) __asm__("__tsan_atomic" #b "_store"); void at##b##_store(volatile T* a, T v, int) { atomic_point(a); *a = v; } \
    T at##b##_xchg(volatile T* a, T v, int) __asm__("__tsan_atomic" #b "_exchange"); T at##b##_xchg(volatile T* a, T v, int) { atomic_point(a); T o = *a; *a = v; return o; } \
    T at##b##_add(volatile T* a, T v, int) __asm__("__tsan_atomic" #b "_fetch_add"); T at##b##_add(volatile T* a, T v, int) { atomic_point(a); T o = *a; *a = o + v; return o; } \
    T at##b##_sub(volatile T* a, T v, int) __asm__("__tsan_atomic" #b "_fetch_sub"); T at##b##_sub(volatile T* a, T v, int) { atomic_point(a); T o = *a; *a = o - v; return o; } \
    T at##b##_and(volatile T* a, T v, int) __asm__("__tsan_atomic" #b "_fetch_and"); T at##b##_and(volatile T* a, T v, int) { atomic_point(a); T o = *a; *a = o & v; return o; } \
    T at##b##_or(volatile T* a, T v, int) __asm__("__tsan_atomic" #b "_fetch_or"); T at##b##_or(volatile T* a, T v, int) { atomic_point(a); T o = *a; *a = o | v; return o; } \
    bool at##b##_cs(volatile T* a, T* e, T v, int, int) __asm__("__tsan_atomic" #b "_compare_exchange_strong"); bool at##b##_cs(volatile T* a, T* e, T v, int, int) { atomic_point(a); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
    bool at##b##_cw(volatile T* a, T* e, T v, int, int) __asm__("__tsan_atomic" #b "_compare_exchange_weak"); bool at##b##_cw(volatile T* a, T* e, T v, int, int) { atomic_point(a); if (*a == *e) { *a = v; return true; } *e = *a; return false; }
ATM(8, unsigned char) ATM(16, unsigned short) ATM(32, unsigned) ATM(64, unsigned long)
// fresh memory has no history; freeing counts as a write
static const size_t HDR = 16;
static void* getmem(size_t n) {
    char* p = (char*)malloc(n + HDR); if (!p) throw std::bad_alloc();
    *(size_t*)p = n;
    if (tracking) { tracking = false; for (uintptr_t g = (uintptr_t)(p + HDR) >> 2; g <= ((uintptr_t)(p + HDR) + n) >> 2; ++g) shadow->erase(g); tracking = true; }
    return p + HDR;
}
static void putmem(void* q) { if (!q) return; char* p = (char*)q - HDR; size_t n = *(size_t*)p; if (tracking && n) access((uintptr_t)q, n, true); free(p); }
void* operator new(size_t n) { return getmem(n); }
void* operator new[](size_t n) { return getmem(n); }
void operator delete(void* p) noexcept { putmem(p); }
void operator delete[](void* p) noexcept { putmem(p); }
void operator delete(void* p, size_t) noexcept { putmem(p); }
void operator delete[](void* p, size_t) noexcept { putmem(p); }

// ---- scheduler
static std::vector<int> choice, width;     // schedule so far
static size_t cpos;
static std::vector<int> trace;
static bool deadlock, misfit;
static void yield_() { bool t = tracking; tracking = false; int me = cur; swapcontext(&F[me].ctx, &mainctx); cur = me; tracking = t; }
static VC atomic_vc;
static bool atomics_yield = true;          // otherwise every atomic object synchronises by itself and no thread is preempted there
static std::unordered_map<const volatile void*, VC>* atomics;
static void atomic_point(const volatile void* p) {
    if (!runmode || !tracking) return;
    if (atomics_yield) yield_();
    bool t_ = tracking; tracking = false;
    VC& v = atomics_yield ? atomic_vc : (*atomics)[p];
    for (int t = 0; t < nT; ++t) F[cur].vc.c[t] = v.c[t] = std::max(F[cur].vc.c[t], v.c[t]);
    F[cur].vc.c[cur]++; tracking = t_;
}
struct MState { int owner = -1; VC vc{}; };
static std::map<const void*, MState>* mutexes;
static MState& ms(const void* m) { return (*mutexes)[m]; }
struct NoTrack { bool t; NoTrack() : t(tracking) { tracking = false; } ~NoTrack() { tracking = t; } };
static void acquire(const void* m) { auto& s = ms(m); s.owner = cur; for (int t = 0; t < nT; ++t) F[cur].vc.c[t] = std::max(F[cur].vc.c[t], s.vc.c[t]); }
void rt_lock(const void* m) {
    NoTrack nt;
    if (!runmode) return;
    yield_();
    while (ms(m).owner != -1) { F[cur].state = 1; F[cur].wait = m; yield_(); }
    acquire(m);
}
bool rt_try_lock(const void* m) {
    NoTrack nt;
    if (!runmode) return true;
    yield_();
    if (ms(m).owner != -1) return false;
    acquire(m); return true;
}
void rt_unlock(const void* m) {
    NoTrack nt;
    if (!runmode) return;
    if (ms(m).owner != cur && raced.empty()) raced = "mutex unlocked by a thread that does not hold it";
    ms(m).owner = -1; ms(m).vc = F[cur].vc; F[cur].vc.c[cur]++;
    for (int t = 0; t < nT; ++t) if (F[t].state == 1 && F[t].wait == m) F[t].state = 0;
}
