// M05: assembling with several threads under every schedule of them: no data race, no deadlock, and the result of one thread.
#define PARTYPE STD
#include "asmthr_rt.h"
#define THR_POINT thr_yield();
#define INM_ASSM_PART
#include "inm_assm.cpp"
static const char* OP[4] = {"Assemble", "AssembleMatrix", "AssembleRHS", "AssembleTemplate"};
struct Seen { int times = 0; std::vector<HandleType> h; std::vector<double> iv, A, F; bool operator==(const Seen& o) const { return times == o.times && h == o.h && iv == o.iv && A == o.A && F == o.F; } };
struct Job { Asm* a; int op; Ani::AssmOpts opts; Sparse::Matrix A; Sparse::Vector F; int st; std::map<int, Seen> seen;
    // what has to come
    std::function<void(Job&)> fresh; int st0; Mat A0; Rhs F0; std::map<int, Seen> seen0; std::string why; };
static void run(void* p) { Job& j = *static_cast<Job*>(p); Asm& a = *j.a; switch (j.op) { case 0: j.st = a.Assemble(j.A, j.F, j.opts); break; case 1: j.st = a.AssembleMatrix(j.A, j.opts); break; case 2: j.st = a.AssembleRHS(j.F, j.opts); break; default: j.st = a.AssembleTemplate(j.A); } }
static Mat matrix_of(Sparse::Matrix& A) { Mat r; for (auto i = A.GetFirstIndex(); i < A.GetLastIndex(); ++i) for (unsigned k = 0; k < A[i].Size(); ++k) { std::pair<long, long> q(i, A[i].GetIndex(k)); if (r.count(q)) r[q] = NAN; else r[q] = A[i].GetValue(k); } return r; }
static Rhs rhs_of(Sparse::Vector& F) { Rhs r; for (auto i = F.GetFirstIndex(); i < F.GetLastIndex(); ++i) r[i] = F[i]; return r; }
static bool after(void* p, const char* pr, const char* sched) {
    Job& j = *static_cast<Job*>(p); mc::state(); mc::checked(4); std::string w = pr;
    if (w.empty()) w = problem; if (w.empty() && j.st != j.st0) w = mc::fmt("status %d instead of %d", j.st, j.st0);
    if (w.empty() && !j.st0) { if (!(j.seen == j.seen0)) w = "a cell was handed to the element function in another state"; else if (j.op != 2 && matrix_of(j.A) != j.A0) w = "another matrix than by one thread"; else if ((j.op == 0 || j.op == 2) && rhs_of(j.F) != j.F0) w = "another right-hand side than by one thread"; }
    if (!w.empty()) { j.why = w + ", schedule " + sched; return false; }
    problem.clear(); j.seen.clear(); j.fresh(j); return true;
}
static void hook(Sparse::LockService* L, INMOST_DATA_ENUM_TYPE row, int lock) { const void* k = reinterpret_cast<const void*>(reinterpret_cast<uintptr_t>(L) ^ (uintptr_t(row + 1) << 48)); if (lock) thr_lock(k); else thr_unlock(k); }
static void explore(const Set& S, const mock::Topo& T, const Conf& C, int threads, int bound, const std::string& sg, Bad nan = Bad()) {
    mock::Dist d; d.nproc = 1; d.owner.assign(T.tets.size(), 0); d.layers = 0; d.local = 0; auto B = mock::build(T, d); problem.clear(); std::string why; unsigned long total = 0;
    Sparse::LockService::hook() = nullptr;
    B->world.run(1, [&](int) { Mesh* m = B->m[0].get(); Asm a(m); m->AssignGlobalID(NODE); int pat = C.spm || C.spr || C.spm2 || C.spr2; FemVarContainer vars = vars_of(S); int n = int(vars.NumDofOnTet());
        { Ani::FemExprDescr e; for (auto& v : S.v) e.PushFemPair(v.map, v.name, v.map, v.name); a.SetProbDescr(e); }
        if (C.fun & 1) a.SetMatFunc(func(Spec{pat, n, C.spm, false, C.dyn, 3, 2, nan}, 1)); if (C.fun & 2) a.SetRHSFunc(func(Spec{pat, n, false, C.spr, C.dyn2, 2, 5, nan}, 2)); if (C.fun & 4) a.SetMatRHSFunc(func(Spec{pat, n, C.spm2, C.spr2, C.dyn, 4, 1, nan}, 3));
        set_enum(a, C, m, vars); a.m_assm_traits.reorder_nodes = C.reorder; a.m_assm_traits.prepare_edges = a.m_assm_traits.prepare_faces = C.prep;
        auto L = layout(S); ElementType mask = NONE; unsigned mx = 0; for (int k = 0; k < 4; ++k) if (!L[k].empty()) mask |= ElementTypeFromDim(k), mx = std::max(mx, unsigned(L[k].size()));
        Tag u = m->CreateTag("u", DATA_REAL, mask, NONE, mx); for (int k = 0; k < 4; ++k) for (size_t l = 0; l < m->el[k].size(); ++l) if (m->el[k][l].alive) for (auto& q : L[k]) m->RealArray(ComposeHandleNum(k, int(l)), u)[q.edof] = 1 + q.edof + 64. * (m->key[k][l] + 64 * k);
        if (C.init == 1) a.SetInitValueSetter(Asm::makeInitValueSetter(2.5)); else if (C.init >= 2) a.SetInitValueSetter(Asm::makeInitValueSetter(u));
        Job j; j.a = &a; j.opts = Ani::AssmOpts(&user_cookie, C.drop); j.opts.SetIsMtxSorted(C.insert == 1 || C.insert == 3).SetIsMtxIncludeTemplate(C.insert == 3 || C.insert == 4).SetUseOrderedInsert(C.insert == 2 || C.insert == 3 || C.insert == 5);
        a.SetDataGatherer([&](EA& q) {
            int c = m->key[3][q.cell->LocalID()]; { ThrOff o; Seen& s = j.seen[c]; ++s.times; s.h.clear(); for (int i = 0; i < 4; ++i) s.h.push_back((*q.nodes)[i].GetHandle()); if (C.prep) { for (int i = 0; i < 6; ++i) s.h.push_back((*q.edges)[i].GetHandle()); for (int i = 0; i < 4; ++i) s.h.push_back((*q.faces)[i].GetHandle()); } s.iv = q.vars->initValues; }
            auto mm = q.pool->alloc(7, 2, 0); for (size_t i = 0; i < mm.m_mem.dSize; ++i) mm.m_mem.ddata[i] = c;
            double a0[2] = {double(c), c + 0.5}, a1[3] = {7, 8, 9}; const double* args[2] = {a0, a1}; if (c % 2) q.compute(args); else q.compute(args, &user_cookie);
            thr_yield(); { ThrOff o; Seen& s = j.seen[c]; for (size_t i = 0; i < mm.m_mem.dSize; ++i) if (mm.m_mem.ddata[i] != c) s.times = 100; if (j.op <= 1) for (int i = 0; i < n * n; ++i) s.A.push_back(q.loc_m.m_dat[i]); if (j.op != 1) for (int i = 0; i < n; ++i) s.F.push_back(q.loc_rhs.m_dat[i]); }
        });
        a.PrepareProblem(); long bg = a.getBegInd(), en = a.getEndInd(); Sparse::Matrix templ; a.m_assm_traits.num_threads = 1; templ.SetInterval(bg, en); thr_plain([](void* p) { auto& q = *static_cast<std::pair<Asm*, Sparse::Matrix*>*>(p); q.first->AssembleTemplate(*q.second); }, [&] { static std::pair<Asm*, Sparse::Matrix*> q; q = {&a, &templ}; return &q; }());
        j.fresh = [&](Job& q) { q.A = Sparse::Matrix(); q.F = Sparse::Vector(); q.A.SetInterval(bg, en); if (q.op != 3 && (C.insert == 3 || C.insert == 4)) q.A = templ; if (C.insert >= 5) for (long r = bg; r < en; ++r) for (long k : {(r * 5 + 1) % en, (r * 3 + 2) % en}) if (!q.A[r].Size() || k != (r * 5 + 1) % en) q.A[r].Push(INMOST_DATA_ENUM_TYPE(k), 1000. + r); };
        for (j.op = 0; j.op < 4 && why.empty(); ++j.op) { if (j.op == 0 && !((C.fun & 4) || (C.fun & 3) == 3)) continue; if (j.op == 1 && !(C.fun & 5)) continue; if (j.op == 2 && !(C.fun & 6)) continue; if (j.op == 3 && C.insert) continue;
            std::streambuf* cerr = std::cerr.rdbuf(nullptr); Sparse::LockService::hook() = hook;
            for (int w = 0; w < 2; ++w) { a.m_assm_traits.num_threads = w ? threads : 1; j.seen.clear(); j.fresh(j); thr_plain(run, &j); if (!w) { j.st0 = j.st; j.A0 = matrix_of(j.A); j.F0 = rhs_of(j.F); j.seen0 = j.seen; } }
            problem.clear(); j.seen.clear(); j.fresh(j); ThrResult r = thr_explore(run, &j, bound, 1000000, after); std::cerr.rdbuf(cerr); Sparse::LockService::hook() = nullptr; mc::trans(r.points); total += r.schedules;
            mc::outcome(mc::mix(mc::mix(r.schedules, r.accesses), j.op)); if (r.capped) mc::outcome("capped"); if (!j.why.empty()) why = std::string(OP[j.op]) + ": " + j.why + " (" + conf_name(C) + ")"; j.why.clear(); } });
    mc::sample(mc::fmt("%lu schedules", total)); MC_REQ(why.empty(), sg, "%d threads: %s", threads, why.c_str());
}
static void body() {
    auto S = sets(); auto T = topos(); auto v = mc::opt().variant; const bool th = mc::thorough(); static const double V[3] = {NAN, INFINITY, -INFINITY};
    if (v.empty() || v == "options") for (int k = 0; k < NCONF; ++k) mc::run_case(mc::fmt("options %d", k), "options", [&] { explore(S[0], T[1].t, conf(k), k % 5 ? 2 : -1, th ? 3 : 2, "options"); });
    // more preemptions
    if (v.empty() || v == "all") for (int k = 0; k < NCONF; k += th ? 11 : 83) for (int is : {5, 0}) mc::run_case(mc::fmt("all schedules %s options %d", S[is].name.c_str(), k), "all", [&] { explore(S[is], T[1].t, conf(k), 2, is ? (th ? 8 : 5) : 3, "all"); });
    if (v.empty() || v == "sets") for (size_t is = 0; is < S.size(); ++is) for (int k = 0; k < (th ? 12 : 2); ++k) mc::run_case(mc::fmt("%s options %d", S[is].name.c_str(), k), "sets", [&] { explore(S[is], T[1].t, conf(int(is * 12 + k) * 37), 2, vars_of(S[is]).NumDofOnTet() > 12 ? 1 : 2, "sets:" + S[is].name); });
    if (v.empty() || v == "meshes") for (size_t it = 0; it < T.size(); ++it) for (int is : {0, 3, 5}) for (int t = 2; t <= 3; ++t) for (int k = 0; k < (th ? 10 : 2); ++k) mc::run_case(mc::fmt("%s on %s, %d threads, options %d", S[is].name.c_str(), T[it].name.c_str(), t, k), "meshes", [&] { explore(S[is], T[it].t, conf((int(it) * 10 + is * 3 + k) * 37 + t), t, t == 3 && T[it].t.tets.size() > 2 ? 1 : 2, "meshes"); });
    if (v.empty() || v == "nan") for (int is : {0, 5}) for (int it : {1, 4}) { int n = int(vars_of(S[is]).NumDofOnTet()), c = 0; for (size_t cell = 0; cell < T[it].t.tets.size(); ++cell) for (int i = 0; i < n; ++i) for (int j = -1; j < n; ++j) for (int k = 0; k < (th ? 6 : 1); ++k) mc::run_case(mc::fmt("%s on %s cell %d entry (%d, %d) is not a number, %d", S[is].name.c_str(), T[it].name.c_str(), int(cell), i, j, k), "nan", [&] { Bad b; b.cell = int(cell); b.i = i; b.j = j; b.v = V[(i + j + k) % 3 < 0 ? 0 : (i + j + k) % 3]; explore(S[is], T[it].t, conf((c + k) * 37), 2, 2, "nan", b); ++c; }); }
}
MC_MAIN(body)
