// Scheduler of the threads of the assembler: pthread_* are ours, threads are fibers (fibers.h), every schedule up to a number of preemptions.
#define FIBERS_NO_MC
#define FIBERS_MAX 6
#define FIBERS_STK (512 * 1024)
#include "fibers.h"
#include "asmthr_rt.h"
#include <pthread.h>
#include <algorithm>
static std::string err; static bool watch = true; static int bound, used;
static void bad(const std::string& s) { if (err.empty()) err = s; }
static void tramp(int t) { cur = t; tracking = watch; F[t].fn(); tracking = false; F[t].state = 2; for (int k = 0; k < nT; ++k) if (F[k].state == 1 && F[k].wait == &F[t]) F[k].state = 0; setcontext(&mainctx); }
static int newfiber(std::function<void()> fn) {
    int t = nT; if (t >= MAXT) { bad("too many threads"); return -1; }
    ++nT; F[t].state = 0; F[t].fn = fn; for (int k = 0; k < MAXT; ++k) F[t].vc.c[k] = 0; F[t].vc.c[t] = 1;
    if (!F[t].stack) F[t].stack = (char*)malloc(STK);
    getcontext(&F[t].ctx); F[t].ctx.uc_stack.ss_sp = F[t].stack; F[t].ctx.uc_stack.ss_size = STK; F[t].ctx.uc_link = nullptr; makecontext(&F[t].ctx, (void (*)())tramp, 1, t); return t;
}
extern "C" int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    NoTrack nt; if (!runmode) abort(); int t = newfiber([fn, arg] { fn(arg); }); if (t < 0) return 11;
    for (int k = 0; k < MAXT; ++k) F[t].vc.c[k] = std::max(F[t].vc.c[k], F[cur].vc.c[k]);
    F[cur].vc.c[cur]++; *th = (pthread_t)(t + 1); yield_(); return 0;
}
extern "C" int pthread_join(pthread_t th, void** r) {
    NoTrack nt; int t = (int)(long)th - 1; if (t <= 0 || t >= nT) { bad("join of an unknown thread"); return 3; }
    while (F[t].state != 2) { F[cur].state = 1; F[cur].wait = &F[t]; yield_(); }
    for (int k = 0; k < MAXT; ++k) F[cur].vc.c[k] = std::max(F[t].vc.c[k], F[cur].vc.c[k]);
    if (r) *r = nullptr; return 0;
}
extern "C" int pthread_detach(pthread_t) { return 0; }
extern "C" int get_nprocs(void) { return 2; }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { rt_lock(m); return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) { return rt_try_lock(m) ? 0 : 16; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { rt_unlock(m); return 0; }
void thr_lock(const void* k) { rt_lock(k); }
void thr_unlock(const void* k) { rt_unlock(k); }
void thr_yield() { NoTrack nt; if (runmode && cur >= 0) yield_(); }
ThrOff::ThrOff(): t(tracking) { tracking = false; }
ThrOff::~ThrOff() { tracking = t; }
int thr_self() { return runmode ? cur : -1; }
static void execute(void (*fn)(void*), void* arg, bool plain) {
    err.clear(); raced.clear(); deadlock = misfit = false; trace.clear(); cpos = 0; width.clear(); shadow->clear(); mutexes->clear(); atomics->clear(); nT = 0; tracking = false; used = 0; watch = !plain; int last = -1;
    newfiber([&] { fn(arg); tracking = false; for (int t = 1; t < nT; ++t) if (F[t].state != 2) bad("the call returned while one of its threads is still running"); });
    runmode = true;
    while (true) {
        int en[MAXT], m = 0; bool all = true, can = last >= 0 && F[last].state == 0; if (can) en[m++] = last;
        for (int t = 0; t < nT; ++t) { if (F[t].state != 2) all = false; if (F[t].state == 0 && !(can && t == last)) en[m++] = t; }
        if (all || !err.empty() || !raced.empty()) break;
        if (!m) { deadlock = true; break; }
        if (can && used >= bound) m = 1;
        int c = 0; if (!plain) { c = cpos < choice.size() ? choice[cpos] : 0; if (cpos >= choice.size()) choice.push_back(0); if (c >= m) { misfit = true; break; } width.push_back(m); ++cpos; }
        if (can && c) ++used;
        last = cur = en[c]; trace.push_back(cur); trans(); swapcontext(&mainctx, &F[cur].ctx); tracking = false;
    }
    runmode = false; cur = -1;
    if (misfit) raced = "the run is not determined by its schedule"; if (deadlock) raced = "no thread can run";
    if (raced.empty()) raced = err;
}
static void setup() { if (!shadow) { shadow = new std::unordered_map<uintptr_t, Cell>(); mutexes = new std::map<const void*, MState>(); atomics = new std::unordered_map<const volatile void*, VC>(); own_stack_private = false; atomics_yield = false; } }
void thr_plain(void (*fn)(void*), void* arg) { setup(); execute(fn, arg, true); }
ThrResult thr_explore(void (*fn)(void*), void* arg, int b, unsigned long max, bool (*after)(void*, const char*, const char*)) {
    setup(); bound = b; choice.clear(); ThrResult r{0, 0, 0, false}; uint64_t t0 = ntrans, a0 = naccess;
    while (true) {
        execute(fn, arg, false); ++r.schedules; std::string tr; for (int t : trace) tr += char('0' + t); std::string pr = raced;
        if (!after(arg, pr.c_str(), tr.c_str()) || !pr.empty()) break;
        int k = (int)width.size() - 1; choice.resize(width.size()); while (k >= 0 && choice[k] + 1 >= width[k]) --k; if (k < 0) break;
        choice.resize(k + 1); choice[k]++; if (r.schedules >= max) { r.capped = true; break; }
    }
    r.points = ntrans - t0; r.accesses = naccess - a0; return r;
}
