// M04: the parallel loop helper under every schedule of its threads, and for every range length / thread count.
// pthread_create / pthread_join are ours: the threads std::thread starts are fibers of the explorer.
#include "mc.h"
#define FIBERS_MAX 14
#include "fibers.h"
#include "parloop_lib.h"
#include <pthread.h>
static std::string err;
static void bad(const std::string& s) { if (err.empty()) err = s; }
static std::vector<int> count, actnum;
static int nprocs = 4, nstarted, joined[MAXT], depthlimit;
static std::vector<int> seenT;
static bool points = true;
static void tramp(int t) { cur = t; tracking = true; F[t].fn(); tracking = false; F[t].state = 2; for (int k = 0; k < nT; ++k) if (F[k].state == 1 && F[k].wait == &F[t]) F[k].state = 0; setcontext(&mainctx); }
static int newfiber(std::function<void()> fn) {
    int t = nT++;
    if (t >= MAXT) { bad("too many threads"); --nT; return -1; }
    F[t].state = 0; F[t].fn = fn; for (int k = 0; k < MAXT; ++k) F[t].vc.c[k] = 0; F[t].vc.c[t] = 1;
    if (!F[t].stack) F[t].stack = (char*)malloc(STK);
    getcontext(&F[t].ctx); F[t].ctx.uc_stack.ss_sp = F[t].stack; F[t].ctx.uc_stack.ss_size = STK; F[t].ctx.uc_link = nullptr;
    makecontext(&F[t].ctx, (void (*)())tramp, 1, t);
    return t;
}
#ifndef WITH_OPENMP
extern "C" int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    NoTrack nt;
    int t = newfiber([fn, arg] { fn(arg); });
    if (t < 0) return 11;
    for (int k = 0; k < MAXT; ++k) F[t].vc.c[k] = std::max(F[t].vc.c[k], F[cur].vc.c[k]);
    F[cur].vc.c[cur]++;
    *th = (pthread_t)(t + 1); joined[t] = 0; ++nstarted;
    yield_();
    return 0;
}
extern "C" int pthread_join(pthread_t th, void** r) {
    NoTrack nt;
    int t = (int)(long)th - 1; if (t <= 0 || t >= nT) { bad("join of an unknown thread"); return 3; }
    while (F[t].state != 2) { F[cur].state = 1; F[cur].wait = &F[t]; yield_(); }
    for (int k = 0; k < MAXT; ++k) F[cur].vc.c[k] = std::max(F[t].vc.c[k], F[cur].vc.c[k]);
    joined[t]++; if (r) *r = nullptr;
    return 0;
}
extern "C" int pthread_detach(pthread_t) { return 0; }
extern "C" int get_nprocs(void) { return nprocs; }
#endif
static bool omp_mode = false;
static int omp_threads_seen;
void rt_body(int i, int tn, int extra) {
    if (omp_mode) { __atomic_fetch_add(&count[i], 1, 5); if (extra != 1 || tn < 0 || tn >= 64) bad("wrong argument"); return; }
    NoTrack nt;
    if (i < 0 || i >= (int)count.size()) { bad(fmt("body called for index %d outside the range", i)); return; }
    if (extra != 1) bad("extra argument not passed");
    if (tn < 0) bad("negative thread number");
    for (int t = 0; t < nT; ++t) if (t != cur && actnum[t] == tn) bad(fmt("two bodies run at the same time under thread number %d", tn));
    if (seenT[cur] >= 0 && seenT[cur] != tn) bad("one thread runs under two thread numbers");
    seenT[cur] = tn; actnum[cur] = tn;
    if (points) yield_();
    actnum[cur] = -1;
    count[i]++;
}
static bool execute(int kind, int n, int nthreads) {
    err.clear(); raced.clear(); deadlock = misfit = false; trace.clear(); cpos = 0; width.clear(); shadow->clear(); mutexes->clear(); atomic_vc = VC{};
    count.assign(n, 0); actnum.assign(MAXT, -1); seenT.assign(MAXT, -1); nT = 0; nstarted = 0; tracking = false;
    std::vector<int> idx(n); for (int i = 0; i < n; ++i) idx[i] = i;
    bool returned = false;
    newfiber([&] {
        lib_loop(kind, nthreads, idx.data(), n);
        NoTrack nt; returned = true;
        for (int i = 0; i < n; ++i) if (count[i] != 1) bad(fmt("after the loop index %d has run %d times", i, count[i]));
        for (int t = 1; t < nT; ++t) if (F[t].state != 2) bad("the loop returned while one of its threads is still running");
        int want = lib_num_threads_std(nthreads);
        for (int t = 0; t < nT; ++t) if (seenT[t] >= want) bad(fmt("thread number %d, only %d threads", seenT[t], want));
    });
    runmode = true;
    while (true) {
        int en[MAXT], m = 0; bool all = true;
        for (int t = 0; t < nT; ++t) { if (F[t].state != 2) all = false; if (F[t].state == 0) en[m++] = t; }
        if (all || !err.empty() || !raced.empty()) break;
        if (!m) { deadlock = true; break; }
        int c = cpos < choice.size() ? choice[cpos] : 0;
        if (cpos >= choice.size()) choice.push_back(0);
        if (c >= m) { misfit = true; break; }
        width.push_back(m); ++cpos; cur = en[c]; trace.push_back(cur); trans();
        swapcontext(&mainctx, &F[cur].ctx);
        tracking = false;
    }
    runmode = false; if (misfit) return true;
    state(); checked(3);
    std::string tr; for (int t : trace) tr += std::to_string(t);
    if (deadlock) fail("deadlock", "no thread can run after schedule " + tr);
    if (!raced.empty()) fail("race", raced + ", schedule " + tr);
    if (!err.empty()) fail("loop", err + ", schedule " + tr);
    outcome(mix(mix(n, nT), nthreads));
    return err.empty() && raced.empty() && !deadlock;
}
static void explore(int kind, int n, int nthreads, std::vector<int> prefix) {
    choice = prefix; size_t base = prefix.size(); uint64_t cnt = 0;
    while (true) {
        bool ok = execute(kind, n, nthreads); ++cnt;
        if (misfit || !ok || width.size() < base) return;
        int k = (int)width.size() - 1; choice.resize(width.size());
        while (k >= (int)base && choice[k] + 1 >= width[k]) --k;
        if (k < (int)base) break;
        choice.resize(k + 1); choice[k]++;
    }
    sample(fmt("%llu schedules", (unsigned long long)cnt));
}
static std::vector<int> lengths(int top) { std::vector<int> r; for (int n = 0; n <= top; ++n) r.push_back(n); for (int n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4099}) if (n > top) r.push_back(n); return r; }
static void body() {
    shadow = new std::unordered_map<uintptr_t, Cell>(); mutexes = new std::map<const void*, MState>();
    own_stack_private = false;
    if (opt().variant == "omp") {
        omp_mode = true;
        for (int n : lengths(thorough() ? 200 : 40)) for (int nt : {-1, 1, 2, 3, 4, 5, 8, 13})
            run_case(fmt("omp n=%d threads=%d", n, nt), "loop", [&] {
                for (int rep = 0; rep < 3; ++rep) {
                    count.assign(n, 0); std::vector<int> idx(n); for (int i = 0; i < n; ++i) idx[i] = i;
                    lib_loop(3, nt, idx.data(), n); state(); trans(n);
                    for (int i = 0; i < n; ++i) MC_REQ(count[i] == 1, "omp", "index %d has run %d times", i, count[i]);
                }
                outcome(mix(n, nt));
            });
        return;
    }
    // every shape, first schedule (workers run late) and the mirrored one is covered by the schedule exploration below
    for (int kind : {0, 1, 2, 4, 5, 6}) for (int n : lengths(thorough() ? 120 : 40)) for (int nt : {-1, 1, 2, 3, 4, 5, 7, 8, 12})
        run_case(fmt("shape kind=%d n=%d threads=%d", kind, n, nt), "loop", [&] { nprocs = 4; points = false; choice.clear(); execute(kind, n, nt); });
    for (int kind : {0, 1, 4}) for (int nt : {-1, 2, 3, 4}) for (int np : {1, 2, 3}) for (int n = 0; n <= (thorough() ? 12 : 10); ++n) {
        if (nt > 0 && np > 1) continue;
        int T = nt > 0 ? nt : np;
        if (T == 4 && n > (thorough() ? 7 : 5)) continue;
        if (T == 3 && n > (thorough() ? 10 : 8)) continue;
        if (!thorough() && kind == 1 && T > 3) continue;
        int d = T >= 3 ? 4 : 0; long tot = 1; for (int i = 0; i < d; ++i) tot *= T;
        for (long c = 0; c < tot; ++c) {
            std::vector<int> pf; long x = c; std::string ps; for (int i = 0; i < d; ++i) { pf.push_back(x % T); ps += std::to_string(x % T); x /= T; }
            if (d && pf[0]) continue;      // the calling thread starts alone
            run_case(fmt("schedules kind=%d n=%d threads=%d procs=%d prefix=%s", kind, n, nt, np, ps.c_str()), "loop", [&] { nprocs = np; points = true; explore(kind, n, nt, pf); });
        }
    }
}
MC_MAIN(body)
