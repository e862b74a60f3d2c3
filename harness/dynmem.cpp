// M01: every allocate/release/move/defragment history of the work-memory pool up to a bound.
// Oracle: live parts never overlap, lie inside storage of the right size, keep their contents; re-use of released memory.
#include "mc.h"
#include "anifem++/fem/fem_memory.h"
using namespace mc;
#if defined(__SANITIZE_ADDRESS__)
static const bool ASAN = true;
#else
static const bool ASAN = false;
#endif
typedef Ani::DynMem<double, int> Pool;
struct Sz { int d, i, m; };
static std::vector<Sz> SIZES;
static int MAXLIVE, DEPTH;

struct Live { Pool::MemPart part; int tag; Sz sz; };
struct World {
    std::unique_ptr<Pool> pool{new Pool};
    std::vector<Live> live;
    int tag = 0;
};
// operations: 0..S-1 alloc size k; S..S+MAXLIVE-1 release live[k]; then move-assign (k), defragment
struct Op { int kind, arg; };    // 0 alloc 1 release(clear) 2 destroy 3 move-construct 4 move-assign over another live part 5 defragment
static std::string show(const std::vector<Op>& h) {
    static const char* n[] = {"alloc", "clear", "destroy", "move", "assign-over-next", "defragment"};
    std::string s;
    for (auto& o : h) { s += n[o.kind]; if (o.kind == 0) s += fmt("(%d,%d,%d)", SIZES[o.arg].d, SIZES[o.arg].i, SIZES[o.arg].m); else if (o.kind < 5) s += fmt("#%d", o.arg); s += " "; }
    return s;
}
static void fill(Live& l) {
    auto& m = l.part.m_mem;
    for (int k = 0; k < l.sz.d; ++k) m.ddata[k] = l.tag * 100 + k;
    for (int k = 0; k < l.sz.i; ++k) m.idata[k] = l.tag * 100 + k;
    for (int k = 0; k < l.sz.m; ++k) m.mdata[k] = Ani::DenseMatrix<>((double*)nullptr + (l.tag * 100 + k), l.tag, k, 0);
}
// every array of the part lies inside one storage block
static bool inside(World& w, const Live& l) {
    bool r = !l.sz.d, i = !l.sz.i, m = !l.sz.m;
    auto in = [](const void* p, size_t n, const void* q, size_t k) { return (char*)p >= (char*)q && (char*)p + n <= (char*)q + k; };
    auto& x = l.part.m_mem;
    for (auto& c : w.pool->m_chunks) {
        r = r || in(x.ddata, l.sz.d * 8, c.rdata.data(), c.rdata.size() * 8); i = i || in(x.idata, l.sz.i * 4, c.idata.data(), c.idata.size() * 4);
        m = m || in(x.mdata, l.sz.m * sizeof(*x.mdata), c.mdata.data(), c.mdata.size() * sizeof(*x.mdata));
    }
    checked();
    return r && i && m;
}
static bool check(World& w, const std::vector<Op>& h, const std::string& last) {
    bool ok = true;
    auto bad = [&](const std::string& sig, const std::string& t) { ok = false; fail(sig + ":" + last, "after " + show(h) + ": " + t); };
    state();
    for (size_t a = 0; a < w.live.size(); ++a) {
        auto& l = w.live[a]; auto& m = l.part.m_mem;
        checked();
        if ((int)m.dSize != l.sz.d || (int)m.iSize != l.sz.i || (int)m.mSize != l.sz.m) { bad("size", fmt("part %d has sizes (%zu,%zu,%zu), requested (%d,%d,%d)", l.tag, m.dSize, m.iSize, m.mSize, l.sz.d, l.sz.i, l.sz.m)); continue; }
        for (size_t b = a + 1; b < w.live.size(); ++b) {
            auto& o = w.live[b].part.m_mem;
            auto ov = [](const void* p, size_t n, const void* q, size_t k) { return n && k && (char*)p < (char*)q + k && (char*)q < (char*)p + n; };
            if (ov(m.ddata, m.dSize * 8, o.ddata, o.dSize * 8) || ov(m.idata, m.iSize * 4, o.idata, o.iSize * 4) || ov(m.mdata, m.mSize * sizeof(*m.mdata), o.mdata, o.mSize * sizeof(*o.mdata)))
                bad("overlap", fmt("live parts %d and %d share memory", l.tag, w.live[b].tag));
        }
        for (int k = 0; k < l.sz.d; ++k) if (m.ddata[k] != l.tag * 100 + k) { bad("content", fmt("real %d of part %d changed", k, l.tag)); break; }
        for (int k = 0; k < l.sz.i; ++k) if (m.idata[k] != l.tag * 100 + k) { bad("content", fmt("integer %d of part %d changed", k, l.tag)); break; }
        for (int k = 0; k < l.sz.m; ++k) if ((int)m.mdata[k].nRow != l.tag || (int)m.mdata[k].nCol != k) { bad("content", fmt("matrix %d of part %d changed", k, l.tag)); break; }
    }
    return ok;
}
static size_t storage(World& w) { size_t n = 0; for (auto& c : w.pool->m_chunks) n += c.rdata.size(); return n; }
static bool step(World& w, const Op& o, std::vector<Op>& h, bool& ok) {
    ok = true;
    switch (o.kind) {
        case 0: {
            if ((int)w.live.size() >= MAXLIVE) return false;
            h.push_back(o);
            Live l; l.sz = SIZES[o.arg]; l.tag = ++w.tag;
            l.part = w.pool->alloc(l.sz.d, l.sz.i, l.sz.m);
            auto v = l.part.getPlainMemoryX(); auto p = l.part.getPlainMemory();
            if (v.ddata != l.part.m_mem.ddata || p.ddata != l.part.m_mem.ddata || p.idata != l.part.m_mem.idata || (int)p.dSize != l.sz.d || (int)p.iSize != l.sz.i) { fail("view", "after " + show(h) + ": plain view differs from the part"); ok = false; }
            if (!inside(w, l)) { fail("outside", "after " + show(h) + ": the part reaches beyond the storage of the pool"); ok = false; break; }
            fill(l);
            w.live.push_back(std::move(l));
            break;
        }
        case 1: if (o.arg >= (int)w.live.size()) return false; h.push_back(o);
            w.live[o.arg].part.clear();
            if (w.live[o.arg].part.m_mem.dSize || w.live[o.arg].part.m_mem.ddata) { fail("clear", "after " + show(h) + ": cleared part still designates memory"); ok = false; }
            w.live[o.arg].part.clear();              // clearing twice is harmless
            w.live.erase(w.live.begin() + o.arg); break;
        case 2: if (o.arg >= (int)w.live.size()) return false; h.push_back(o); w.live.erase(w.live.begin() + o.arg); break;
        case 3: { if (o.arg >= (int)w.live.size()) return false; h.push_back(o);
            Pool::MemPart t(std::move(w.live[o.arg].part));
            w.live[o.arg].part.clear();              // the moved-from part owns nothing
            w.live[o.arg].part = std::move(t); break; }
        case 4: { if (o.arg + 1 >= (int)w.live.size()) return false; h.push_back(o);
            Live l = std::move(w.live[o.arg]);
            w.live[o.arg + 1].part = std::move(l.part); w.live[o.arg + 1].sz = l.sz; w.live[o.arg + 1].tag = l.tag;
            w.live.erase(w.live.begin() + o.arg); break; }
        case 5: { h.push_back(o);
            bool thrown = false; size_t before = storage(w), nch = w.pool->m_chunks.size();
            try { w.pool->defragment(); } catch (const std::runtime_error&) { thrown = true; }
            checked();
            if (w.live.empty() && thrown) { fail("defragment", "after " + show(h) + ": defragmentation of an unused pool is rejected"); ok = false; }
            if (!w.live.empty() && !thrown && nch > 1) { fail("defragment", "after " + show(h) + ": defragmentation accepted while parts are alive"); ok = false; }
            if (!thrown && w.live.empty() && (storage(w) != before || w.pool->m_chunks.size() > 1)) { fail("defragment", "after " + show(h) + ": storage lost or still fragmented"); ok = false; }
            break; }
    }
    return true;
}
static std::vector<Op> alphabet() {
    std::vector<Op> r;
    for (size_t k = 0; k < SIZES.size(); ++k) r.push_back({0, (int)k});
    for (int k = 0; k < MAXLIVE; ++k) r.push_back({1, k});
    if (thorough()) for (int k = 0; k < MAXLIVE; ++k) r.push_back({2, k});
    r.push_back({3, 0});
    for (int k = 0; k + 1 < MAXLIVE; ++k) r.push_back({4, k});
    r.push_back({5, 0});
    return r;
}
// pool state + live parts, canonical: chunk sizes/busy, and for each live part where it lies
static std::string canon(World& w) {
    std::string s;
    for (auto& c : w.pool->m_chunks) s += fmt("[%zu/%zu %zu/%zu %zu/%zu n%zu]", c.rbusy, c.rdata.size(), c.ibusy, c.idata.size(), c.mbusy, c.mdata.size(), c.nparts);
    for (auto& l : w.live) {
        auto& m = l.part.m_mem;
        s += "|";
        for (size_t k = 0; k < w.pool->m_chunks.size(); ++k) {
            auto& c = w.pool->m_chunks[k];
            if (m.dSize && m.ddata >= c.rdata.data() && m.ddata < c.rdata.data() + c.rdata.size()) s += fmt("r%zu@%zd+%zu", k, m.ddata - c.rdata.data(), m.dSize);
            if (m.iSize && m.idata >= c.idata.data() && m.idata < c.idata.data() + c.idata.size()) s += fmt("i%zu@%zd+%zu", k, m.idata - c.idata.data(), m.iSize);
            if (m.mSize && m.mdata >= c.mdata.data() && m.mdata < c.mdata.data() + c.mdata.size()) s += fmt("m%zu@%zd+%zu", k, m.mdata - c.mdata.data(), m.mSize);
        }
    }
    return s;
}
static void run(const std::vector<Op>& h, World& w, std::vector<Op>& done, bool& ok) { ok = true; for (auto& o : h) { bool k; step(w, o, done, k); ok = ok && k; } }
static const char* kname(int k) { static const char* n[] = {"alloc", "clear", "destroy", "move", "assign", "defragment"}; return n[k]; }

static uint64_t g_nodes;
static void dfs(std::vector<Op>& h, const std::vector<Op>& A, int depth) {
    for (auto& o : A) {
        World w; std::vector<Op> d; bool ok;
        run(h, w, d, ok);
        if (!step(w, o, d, ok)) continue;
        trans(); ++g_nodes;
        if (!check(w, d, kname(o.kind)) || !ok) continue;
        outcome(canon(w));
        // releasing everything makes all storage available again: a request of the largest storage block size needs no new storage
        if (w.live.empty() && !w.pool->m_chunks.empty()) {
            // (re-running the same history in the emptied pool must not need more storage blocks each time: two repetitions reach a plateau)
            size_t s1 = 0, s2 = 0, s3 = 0;
            for (int rep = 0; rep < 6; ++rep) { World& u = w; for (auto& x : d) { bool k; std::vector<Op> dd; step(u, x, dd, k); } u.live.clear(); if (rep == 3) s1 = storage(u); if (rep == 4) s2 = storage(u); if (rep == 5) s3 = storage(u); }
            checked();
            if (!(s1 == s2 && s2 == s3)) fail("reuse", "after " + show(d) + fmt(": repeating the same history keeps growing the storage (%zu, %zu, %zu reals)", s1, s2, s3));
        }
        if (depth > 1) dfs(d, A, depth - 1);
    }
}
static void body() {
    for (int conf = 0; conf < 4; ++conf) {
        if (conf == 0) { SIZES = {{1, 0, 0}, {2, 0, 0}, {0, 0, 0}}; MAXLIVE = 4; DEPTH = (thorough() && !ASAN) ? 9 : ASAN ? 6 : 8; }
        if (conf == 1) { SIZES = {{4, 2, 1}, {1, 1, 1}, {0, 1, 0}, {2, 0, 2}}; MAXLIVE = 4; DEPTH = (thorough() && !ASAN) ? 8 : ASAN ? 5 : 7; }
        if (conf == 2) { SIZES = {{6, 6, 6}, {2, 2, 2}}; MAXLIVE = 5; DEPTH = (thorough() && !ASAN) ? 9 : ASAN ? 6 : 8; }
        // kinds of data in different proportions: a storage block may have room for one kind and not for another
        if (conf == 3) { SIZES = {{5, 4, 4}, {1, 3, 1}, {3, 1, 0}, {1, 1, 3}}; MAXLIVE = 4; DEPTH = (thorough() && !ASAN) ? 8 : ASAN ? 5 : 6; }
        auto A = alphabet();
        // first two operations: the case
        for (int a = -1; a < (int)A.size(); ++a) for (int b = 0; b < (int)A.size(); ++b) {
            if (a == -1 && b) continue;
            std::string id = fmt("pool conf=%d first=%d,%d depth=%d", conf, a, b, DEPTH);
            // prune impossible prefixes before counting a case
            if (a >= 0 && A[a].kind != 0 && A[a].kind != 5) continue;
            if (a >= 0 && A[b].kind >= 1 && A[b].kind <= 4 && (A[a].kind != 0 || A[b].arg > 0 || A[b].kind == 4)) continue;
            run_case(id, "pool", [&] {
                std::vector<Op> h;
                if (a < 0) { dfs(h, A, 2); return; }
                World w; bool ok;
                std::vector<Op> pre = {A[a], A[b]};
                run(pre, w, h, ok);
                g_nodes = 0;
                // a second pool state to start from: the same pool after everything was released and defragmented
                dfs(h, A, DEPTH - 2);
                sample(fmt("conf %d, prefix %s: %llu histories", conf, show(pre).c_str(), (unsigned long long)g_nodes));
            });
        }
    }
    // adaptor that lends the memory of a pool of bigger elements
    SIZES = {{3, 2, 1}, {1, 0, 0}, {2, 2, 0}}; MAXLIVE = 4;
    run_case("adaptor", "adaptor", [&] {
        int n = 3, D = thorough() ? 6 : 5;
        std::function<void(std::vector<int>)> rec = [&](std::vector<int> h) {
            if ((int)h.size() == D) {
                Pool pool; auto ad = Ani::makeAdaptor<float, short>(pool);
                typedef decltype(ad.alloc(1, 1, 1)) Part;
                struct L { Part p; int tag; Sz z; };
                std::vector<L> live; int tag = 0;
                for (int c : h) {
                    if (c < n) { if ((int)live.size() >= MAXLIVE) return; L l{ad.alloc(SIZES[c].d, SIZES[c].i, SIZES[c].m), ++tag, SIZES[c]}; for (int k = 0; k < l.z.d; ++k) l.p.m_mem.ddata[k] = l.tag * 10 + k; for (int k = 0; k < l.z.i; ++k) l.p.m_mem.idata[k] = l.tag * 10 + k; live.push_back(std::move(l)); }
                    else { if (c - n >= (int)live.size()) return; live.erase(live.begin() + (c - n)); }
                    trans(); state();
                    for (auto& l : live) for (int k = 0; k < l.z.d; ++k) { checked(); if (l.p.m_mem.ddata[k] != l.tag * 10 + k) { fail("adaptor-content", "adapted part changed"); return; } }
                    for (auto& l : live) for (int k = 0; k < l.z.i; ++k) { checked(); if (l.p.m_mem.idata[k] != l.tag * 10 + k) { fail("adaptor-content", "adapted part changed"); return; } }
                }
                live.clear();
                MC_REQ(pool.m_chunks.empty() || pool.m_chunks[0].nparts == 0, "adaptor-release", "parts released through the adaptor are still counted");
                return;
            }
            for (int c = 0; c < n + MAXLIVE; ++c) { auto g = h; g.push_back(c); rec(g); }
        };
        rec({});
    });
}
MC_MAIN(body)
