// M02: every interleaving of the shared work-memory pool's clients.
// The real DynMemParallel runs on fibers; its mutex is ours, so every lock operation is a scheduling point and the
// explorer walks all schedules.  The code is compiled with access instrumentation (-fsanitize=thread) whose runtime is
// replaced below (only parpool_lib.cpp is instrumented): every memory access of the library is checked for a happens-before race, so the set of schedules that
// switch only at synchronisation points is complete (no race => every finer interleaving equals one of these).
#include "mc.h"
#include "parpool_lib.h"
#include "fibers.h"
static Pool* pool;
enum { A, R, N, M, C };       // acquire one + use, release oldest single, acquire a range of two + use both, release range, acquire one and hand nothing back until the end
static std::string err;
struct Hold { int id; void* p; Part* part; int tag; };
#define T_(x) ([&] { struct G { G() { tracking = true; } ~G() { tracking = false; } } g_; return x; }())
static std::vector<Hold> held[MAXT];
static std::vector<std::pair<int,int>> ranges[MAXT];
static int maxid;
static void bad(const std::string& s) { if (err.empty()) err = s; }
static void use(int t, int id) {
    maxid = std::max(maxid, id);
    void* p = T_(lib_get(pool, id));
    if (!p) { bad("a granted memory has no storage"); return; }
    for (int o = 0; o < nT; ++o) for (auto& h : held[o]) {
        if (h.id == id) bad(fmt("threads %d and %d hold the same memory number %d", o, t, id));
        if (h.p == p) bad(fmt("threads %d and %d were given the same memory", o, t));
    }
    Hold h; h.id = id; h.p = p; h.tag = 100 * t + (int)held[t].size() + 1;
    h.part = T_(lib_part(p, h.tag));
    held[t].push_back(std::move(h));
}
static void drop(int t, int id) {
    for (size_t k = 0; k < held[t].size(); ++k) if (held[t][k].id == id) {
        auto& h = held[t][k];
        void* p = T_(lib_get(pool, id));
        if (p != h.p) bad(fmt("memory number %d designates other memory than when it was granted", id));
        else {
            if (!T_(lib_part_ok(h.part, h.tag))) bad("content of a live chunk changed");
            T_(lib_part_free(h.part));
        }
        held[t].erase(held[t].begin() + k); return;
    }
}
static void fiber_main(int t) {
    for (int op : *F[t].prog) {
        cur = t;
        if (op == A) { int id = T_(lib_alloc(pool)); use(t, id); }
        if (op == R && !held[t].empty()) { int id = held[t][0].id; drop(t, id); T_(lib_release(pool, id)); }
        if (op == N) { auto r = T_(lib_alloc_range(pool, 2)); if (r.second - r.first != 2) bad("range of wrong length"); ranges[t].push_back(r); for (int i = r.first; i < r.second; ++i) use(t, i); }
        if (op == M && !ranges[t].empty()) { auto r = ranges[t][0]; ranges[t].erase(ranges[t].begin()); for (int i = r.first; i < r.second; ++i) drop(t, i); T_(lib_release_range(pool, r)); }
        if (!err.empty() || !raced.empty()) break;
    }
    F[t].state = 2;
}
static void tramp(int t) { fiber_main(t); tracking = false; setcontext(&mainctx); }
static bool execute(const std::vector<std::vector<int>>& prog, int warm) {
    // warm: number of memories already granted and released before the threads start
    nT = prog.size(); err.clear(); raced.clear(); deadlock = misfit = false; trace.clear(); cpos = 0; width.clear();
    runmode = false; tracking = false;
    shadow->clear(); atomic_vc = VC{};
    mutexes->clear(); pool = lib_new(); maxid = warm - 1;
    { std::vector<int> ids; for (int i = 0; i < warm; ++i) ids.push_back(lib_alloc(pool)); for (int i : ids) lib_release(pool, i); }
    for (int t = 0; t < nT; ++t) {
        F[t].state = 0; F[t].prog = &prog[t]; for (int k = 0; k < MAXT; ++k) F[t].vc.c[k] = 0; F[t].vc.c[t] = 1;
        if (!F[t].stack) F[t].stack = (char*)malloc(STK);
        getcontext(&F[t].ctx); F[t].ctx.uc_stack.ss_sp = F[t].stack; F[t].ctx.uc_stack.ss_size = STK; F[t].ctx.uc_link = nullptr;
        makecontext(&F[t].ctx, (void (*)())tramp, 1, t);
    }
    runmode = true;
    while (true) {
        int en[MAXT], n = 0; bool all = true;
        for (int t = 0; t < nT; ++t) { if (F[t].state != 2) all = false; if (F[t].state == 0) en[n++] = t; }
        if (all) break;
        if (!err.empty() || !raced.empty()) break;
        if (!n) { deadlock = true; break; }
        int c = cpos < choice.size() ? choice[cpos] : 0;
        if (cpos >= choice.size()) choice.push_back(0);
        if (c >= n) { misfit = true; break; }
        width.push_back(n); ++cpos;
        cur = en[c]; trace.push_back(cur); trans();
        swapcontext(&mainctx, &F[cur].ctx);
        tracking = false;
    }
    runmode = false; if (misfit) { for (int t = 0; t < MAXT; ++t) { held[t].clear(); ranges[t].clear(); } return true; }
    state();
    bool ok = err.empty() && raced.empty() && !deadlock;
    std::string tr; if (!ok) for (int t : trace) tr += std::to_string(t);
    if (deadlock) fail("deadlock", "no thread can run after schedule " + tr);
    if (!raced.empty()) fail("race", raced + ", schedule " + tr);
    if (!err.empty()) fail("grant", err + ", schedule " + tr);
    checked(3);
    if (ok) {
        // nothing lost: everything not held any more is granted again before new memory is made, and is distinct from what is held
        std::set<int> heldids; std::set<void*> heldp;
        size_t total = 0;
        for (int t = 0; t < nT; ++t) for (auto& h : held[t]) { heldids.insert(h.id); heldp.insert(h.p); }
        bool ranges_used = false; for (auto& t : prog) for (int o : t) if (o == N) ranges_used = true;
        std::set<int> g; std::set<void*> gp;
        int nfree = ranges_used ? 3 : maxid + 1 - (int)heldids.size();
        for (int k = 0; k < nfree; ++k) {
            int id = lib_alloc(pool); void* p = lib_get(pool, id); checked();
            if (heldids.count(id) || heldp.count(p) || !g.insert(id).second || !gp.insert(p).second) { fail("end-state", fmt("memory %d is granted again while in use", id)); break; }
            if (!ranges_used && id > maxid) { fail("end-state", fmt("a released memory is never granted again (%d made, %zu in use, number %d granted)", maxid + 1, heldids.size(), id)); break; }
        }
        uint64_t h = 0; for (int i : g) h = mix(h, i); for (int i : heldids) h = mix(h, 100 + i); outcome(h);
    }
    // tear down (unfinished fibers are simply dropped; their parts must not run destructors on a dead pool)
    for (int t = 0; t < MAXT; ++t) { for (auto& h : held[t]) if (ok) lib_part_free(h.part); held[t].clear(); ranges[t].clear(); }
    if (ok) lib_delete(pool);
    return ok;
}
static void explore(const std::vector<std::vector<int>>& prog, int warm, std::vector<int> prefix) {
    choice = prefix;
    size_t base = prefix.size(); uint64_t n = 0;
    while (true) {
        bool ok = execute(prog, warm); ++n; if (misfit) return;
        if (!ok && casefailed()) { if (n > 0) break; }
        if (width.size() < base) break;       // prefix longer than the execution: nothing else
        int k = (int)width.size() - 1;
        choice.resize(width.size());
        while (k >= (int)base && choice[k] + 1 >= width[k]) --k;
        if (k < (int)base) break;
        choice.resize(k + 1); choice[k]++;
    }
    sample(fmt("%llu schedules, %llu library memory accesses so far", (unsigned long long)n, (unsigned long long)naccess));
}
static std::string show(const std::vector<std::vector<int>>& p) { std::string s; for (auto& t : p) { for (int o : t) s += "ARNM"[o]; s += "|"; } return s; }
static void body() {
    shadow = new std::unordered_map<uintptr_t, Cell>(); mutexes = new std::map<const void*, MState>();
    std::vector<std::vector<std::vector<int>>> P = {
        {{A}, {A}}, {{A, R}, {A, R}}, {{A, R, A}, {A, R, A}}, {{A, A, R}, {A, R, A}}, {{A, A, R, R}, {A, R}}, {{A, R, A, R}, {A, R, A, R}}, {{A, A, R, R}, {A, A, R, R}},
        {{A}, {A}, {A}}, {{A, R}, {A}, {A}}, {{A, R}, {A, R}, {A}}, {{A, R}, {A, R}, {A, R}},
        {{N, M}, {A, R}}, {{N}, {A, R, A}}, {{A, R}, {N, M}}, {{N, M, N, M}, {A, R}}, {{N, M}, {N, M}},  {{N, M, A}, {A, R, A}},
        {{A}, {A}, {A}, {A}}};
    if (thorough()) for (auto q : std::vector<std::vector<std::vector<int>>>{{{A, R, A, R, A}, {A, R, A, R}}, {{A, R, A}, {A, R}, {A}}, {{N, M}, {A, R}, {A}}, {{A, A, R, R, A}, {A, R, A, R}}, {{A, R}, {A}, {A}, {A}}}) P.push_back(q);
    for (auto& p : P) for (int warm : {0, 1, 3}) {
        int n = p.size();
        // the first choices split the schedules into cases (choices that do not exist end at once)
        int d = 4; long tot = 1; for (int i = 0; i < d; ++i) tot *= n;
        for (long c = 0; c < tot; ++c) {
            std::vector<int> pre; long x = c; for (int i = 0; i < d; ++i) { pre.push_back(x % n); x /= n; }
            std::string id = fmt("pool prog=%s warm=%d prefix=", show(p).c_str(), warm); for (int v : pre) id += std::to_string(v);
            run_case(id, "pool", [&] {
                // a prefix that names a thread that is not enabled is skipped
                choice = pre; explore(p, warm, pre);
            });
        }
    }
}
MC_MAIN(body)
