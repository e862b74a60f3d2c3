// M03: the description of work memory itself: every combination of sizes, element types and start positions.
// Memory of exactly the advertised size is enough wherever it starts; whatever is handed out lies inside, aligned, without overlap.
#include "mc.h"
#include "anifem++/fem/fem_memory.h"
using namespace mc;
struct Blk { const void* p; size_t n, al; const char* nm; };
static void within(const std::string& sig, const std::vector<Blk>& b, const void* lo, size_t sz, const std::string& what) {
    checked();
    for (auto& x : b) if (x.n) {
        if (!x.p) { fail(sig, what + fmt(": no %s given", x.nm)); return; }
        if ((char*)x.p < (char*)lo || (char*)x.p + x.n > (char*)lo + sz) { fail(sig, what + fmt(": %s lie outside the memory (%td..%td of %zu)", x.nm, (char*)x.p - (char*)lo, (char*)x.p + x.n - (char*)lo, sz)); return; }
        if ((uintptr_t)x.p % x.al) { fail(sig, what + fmt(": %s are not aligned", x.nm)); return; }
        for (auto& y : b) if (&y != &x && y.n && (char*)x.p < (char*)y.p + y.n && (char*)y.p < (char*)x.p + x.n) { fail(sig, what + fmt(": %s and %s overlap", x.nm, y.nm)); return; }
    }
}
static long long g_buf[4096];
template<class S, class I> static void sizes(const char* tn) {
    typedef Ani::PlainMemory<S, I> PM; typedef Ani::PlainMemoryX<S, I> PX; typedef Ani::DenseMatrix<S> DM;
    int mx = thorough() ? 9 : 5;
    for (int d = 0; d <= mx; ++d) for (int i = 0; i <= mx; ++i) {
        run_case(fmt("plain %s %d %d", tn, d, i), "plain", [&] {
            PM r; r.dSize = d; r.iSize = i;
            size_t need = r.enoughRawSize();
            for (int off = 0; off < 24; ++off) for (size_t sz = 0; sz <= need + 1; ++sz) {
                PM m; m.dSize = d; m.iSize = i; state();
                char* base = (char*)g_buf + 64 + off;
                void* e = m.allocateFromRaw(base, sz);
                std::string w = fmt("%s, %d reals, %d integers, %zu bytes from position %d", tn, d, i, sz, off);
                bool given = e || (!d && !i);
                if (sz >= need) MC_REQ(given, std::string("plain-enough:") + tn, "memory of the advertised size is refused: %s", w.c_str());
                if (e) { within(std::string("plain-inside:") + tn, {{m.ddata, d * sizeof(S), alignof(S), "reals"}, {m.idata, i * sizeof(I), alignof(I), "integers"}}, base, sz, w);
                    MC_REQ((char*)e <= base + sz && (char*)e >= base && (!d || (char*)e >= (char*)(m.ddata + d)) && (!i || (char*)e >= (char*)(m.idata + i)), std::string("plain-end:") + tn, "the end returned is wrong: %s", w.c_str());
                    MC_REQ((int)m.dSize == d && (int)m.iSize == i, std::string("plain-size:") + tn, "sizes changed: %s", w.c_str()); }
                outcome(fmt("%s%d%d%d%zu%d", tn, d, i, off, sz, (int)!!e));
            }
        });
        for (int m = 0; m <= mx - 1; ++m)
        run_case(fmt("extended %s %d %d %d", tn, d, i, m), "extended", [&] {
            PX r; r.dSize = d; r.iSize = i; r.mSize = m;
            size_t need = r.enoughRawSize();
            for (int off = 0; off < 24; ++off) for (size_t sz = need > 40 ? need - 40 : 0; sz <= need + 1; ++sz) {
                PX x; x.dSize = d; x.iSize = i; x.mSize = m; state();
                char* base = (char*)g_buf + 64 + off;
                void* e = x.allocateFromRaw(base, sz);
                std::string w = fmt("%s, %d reals, %d integers, %d matrices, %zu bytes from position %d", tn, d, i, m, sz, off);
                if (sz >= need) MC_REQ(e || (!d && !i && !m), std::string("extended-enough:") + tn, "memory of the advertised size is refused: %s", w.c_str());
                if (e) { within(std::string("extended-inside:") + tn, {{x.ddata, d * sizeof(S), alignof(S), "reals"}, {x.idata, i * sizeof(I), alignof(I), "integers"}, {x.mdata, m * sizeof(DM), alignof(DM), "matrices"}}, base, sz, w);
                    MC_REQ((char*)e <= base + sz && (char*)e >= base, std::string("extended-end:") + tn, "the end returned is wrong: %s", w.c_str());
                    MC_REQ((int)x.dSize == d && (int)x.iSize == i && (int)x.mSize == m, std::string("extended-size:") + tn, "sizes changed: %s", w.c_str()); }
            }
            // matrices placed behind the reals or behind the integers of a plain memory
            for (int fromS = 0; fromS < 2; ++fromS) {
                PM p = r.enoughPlainMemory(fromS);
                MC_REQ((int)p.dSize >= d && (int)p.iSize >= i && (fromS ? (int)p.iSize == i : (int)p.dSize == d), std::string("placed-size:") + tn, "advertised plain memory is smaller");
                for (int o = 0; o < 8; ++o) for (int cut = 0; cut <= (fromS ? (int)p.dSize : (int)p.iSize) - (fromS ? d : i); ++cut) {
                    S* sd = (S*)(g_buf + 8) + o; I* si = (I*)(g_buf + 2048) + o; state();
                    PM q = p; q.ddata = sd; q.idata = si; if (fromS) q.dSize -= cut; else q.iSize -= cut;
                    PX x; x.dSize = d; x.iSize = i; x.mSize = m;
                    bool ok = x.allocateFromPlainMemory(q, fromS);
                    std::string w = fmt("%s, %d reals, %d integers, %d matrices behind the %s, position %d, %d less than advertised", tn, d, i, m, fromS ? "reals" : "integers", o, cut);
                    if (!cut) MC_REQ(ok, std::string("placed-enough:") + tn, "memory of the advertised size is refused: %s", w.c_str());
                    if (ok) { if (d) MC_REQ(x.ddata == sd, std::string("placed:") + tn, "reals moved: %s", w.c_str());
                        if (i) MC_REQ(x.idata == si, std::string("placed:") + tn, "integers moved: %s", w.c_str());
                        within(std::string("placed-inside:") + tn, {{fromS ? (void*)sd : (void*)si, fromS ? d * sizeof(S) : i * sizeof(I), 1, "numbers"}, {x.mdata, m * sizeof(DM), alignof(DM), "matrices"}}, fromS ? (void*)sd : (void*)si, fromS ? q.dSize * sizeof(S) : q.iSize * sizeof(I), w); }
                }
            }
            // requests taken together
            for (int d2 : {0, 1, mx + 1}) for (int i2 : {0, 2, mx + 1}) for (int m2 : {0, 1, mx + 1}) {
                PX a = r, b = r, o; o.dSize = d2; o.iSize = i2; o.mSize = m2;
                a.extend_size(o); b.append_size(o);
                MC_REQ((int)a.dSize == std::max(d, d2) && (int)a.iSize == std::max(i, i2) && (int)a.mSize == std::max(m, m2) && a.ge(o) && a.ge(r) && r.ge(o) == (d >= d2 && i >= i2 && m >= m2), std::string("together:") + tn, "maximum of two requests");
                MC_REQ((int)b.dSize == d + d2 && (int)b.iSize == i + i2 && (int)b.mSize == m + m2, std::string("together:") + tn, "sum of two requests");
                PM pa, pb, po; pa.dSize = pb.dSize = d; pa.iSize = pb.iSize = i; po.dSize = d2; po.iSize = i2;
                pa.extend_size(po); pb.append_size(po);
                MC_REQ((int)pa.dSize == std::max(d, d2) && (int)pa.iSize == std::max(i, i2) && pa.ge(po) && (int)pb.dSize == d + d2 && (int)pb.iSize == i + i2, std::string("together:") + tn, "two plain requests");
            }
        });
    }
}
static void body() {
    sizes<double, int>("double,int"); sizes<double, long>("double,long"); sizes<float, int>("float,int"); sizes<float, short>("float,short"); sizes<double, char>("double,char"); sizes<long double, int>("long double,int"); sizes<float, long>("float,long");
}
MC_MAIN(body)
