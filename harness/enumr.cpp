// I03: enumerators over interval-compressed values and over range-extended sets of tuples.
// Every small set of values / set of tuples / assignment of ranges / position / dependency, against explicit sorted lists.
#include "mc.h"
#include "anifem++/interval/ext_array_enum.h"
using namespace mc;
// a failed check ends the examination of the structure (what follows would dereference wrong iterators)
struct Stop {};
#define RQ(cond, sig, ...) do { sh()->checks++; if (!(cond)) { fail(sig, fmt(__VA_ARGS__)); throw Stop(); } } while (0)
template<class F> static void guarded(F&& f) { try { f(); } catch (Stop&) {} }
typedef Ani::interval_own_memory<int, int> Own; typedef Ani::interval_external_memory<int> Ext;
typedef Ani::interval_own_memory<unsigned, long> OwnU;

// ---- values stored by intervals
struct Store { std::vector<std::pair<int, int>> pr; std::vector<int> flat; };
// cut: bit k set = a new interval starts at value k although it follows value k-1 directly
static Store pack(const std::vector<int>& v, unsigned cut) {
    Store s;
    for (size_t k = 0; k < v.size(); ++k) if (!k || v[k] != v[k - 1] + 1 || (cut >> k & 1)) s.pr.push_back({(int)k, v[k]});
    if (!v.empty()) s.pr.push_back({(int)v.size(), v.back() + 1});
    for (auto& p : s.pr) s.flat.push_back(p.first), s.flat.push_back(p.second);
    return s;
}
static Own own_of(const Store& s) { Own m; m.m_dat = s.pr; return m; }
static Ext ext_of(Store& s) { Ext m; if (!s.flat.empty()) { m.m_dat_st = s.flat.data(); m.m_dat_end = s.flat.data() + s.flat.size(); } return m; }
static std::string show(const std::vector<int>& v) { std::string s = "{"; for (int x : v) s += fmt("%d ", x); return s + "}"; }

template<class Mem> static void intervals(const char* kind, const std::vector<int>& v, Mem mem) {
    typedef Ani::interval_enum<Mem> IE;
    typedef typename IE::const_iterator It;
    IE e; e.setMem(mem);
    std::string K = std::string("intervals-") + kind + ":";
    int n = v.size(), lo = n ? v[0] - 2 : -2, hi = n ? v.back() + 3 : 3;
    state(); outcome(K + show(v));
    checked(); RQ(e.size() == v.size() && e.empty() == v.empty(), K + "size", "size %zu, empty %d for %d values", e.size(), (int)e.empty(), n);
    auto at = [&](const It& it, int k, const char* fn, int arg) {
        checked(); trans();
        if (k >= n) { RQ(it == e.end(), K + fn, "%s(%d) of %s is not the end", fn, arg, show(v).c_str()); return; }
        RQ(it != e.end(), K + fn, "%s(%d) of %s is the end, expected number %d", fn, arg, show(v).c_str(), k);
        auto p = *it;
        RQ((long)p.first == k && (long)p.second == v[k] && (long)it->first == k && (long)it->second == v[k], K + fn, "%s(%d) of %s gives (%ld, %ld), expected (%d, %d)", fn, arg, show(v).c_str(), (long)p.first, (long)p.second, k, v[k]);
    };
    for (int l = -2; l <= n + 3; ++l) {
        if (std::is_unsigned<typename IE::EnumInt>::value && l < 0) continue;
        bool in = l >= 0 && l < n;
        RQ(e.contains_left(l) == in, K + "contains_left", "contains_left(%d) of %s", l, show(v).c_str());
        at(e.find_left(l), in ? l : n, "find_left", l);
        at(e.lower_bound_left(l), std::max(l, 0), "lower_bound_left", l);
        at(e.upper_bound_left(l), std::max(l + 1, 0), "upper_bound_left", l);
    }
    for (int r = lo; r <= hi; ++r) {
        int k = std::lower_bound(v.begin(), v.end(), r) - v.begin(), u = std::upper_bound(v.begin(), v.end(), r) - v.begin();
        RQ(e.contains_right(r) == (u > k), K + "contains_right", "contains_right(%d) of %s", r, show(v).c_str());
        at(e.find_right(r), u > k ? k : n, "find_right", r);
        at(e.lower_bound_right(r), k, "lower_bound_right", r);
        at(e.upper_bound_right(r), u, "upper_bound_right", r);
    }
    std::vector<It> its; int k = 0;
    for (It it = e.begin(); it != e.end(); ++it) { at(it, k, "increment", k); its.push_back(it); if (++k > n + 1) break; }
    RQ(k == n, K + "increment", "%d steps from begin to end of %s", k, show(v).c_str());
    its.push_back(e.end());
    if (n) { It it = e.end(); for (k = n; k-- > 0; ) { It c = it; --it; at(it, k, "decrement", k); RQ(c-- == (k + 1 == n ? e.end() : its[k + 1]) && c == it, K + "decrement", "postfix decrement of %s", show(v).c_str()); } RQ(it == e.begin(), K + "decrement", "not back at the beginning"); }
    if (n) { It it = e.begin(), o = it++; RQ(o == e.begin() && it == its[1], K + "increment", "postfix increment of %s", show(v).c_str()); }
    if (n) for (int a = 0; a <= n; ++a) for (int b = 0; b <= n; ++b) { checked();
        RQ((its[a] == its[b]) == (a == b) && (its[a] != its[b]) == (a != b) && (its[a] < its[b]) == (a < b) && (its[a] > its[b]) == (a > b) && (its[a] <= its[b]) == (a <= b) && (its[a] >= its[b]) == (a >= b), K + "compare", "positions %d and %d of %s", a, b, show(v).c_str());
        RQ((long)(its[a] - its[b]) == a - b, K + "difference", "%d - %d of %s is %ld", a, b, show(v).c_str(), (long)(its[a] - its[b])); }
    IE c = e; c.clear(); RQ(c.size() == 0 && c.begin() == c.end() && (int)e.size() == n, K + "clear", "not empty after clear");
}
// random access over pairs kept in a flat array
static void flat_iterator(Store& s) {
    Ext m = ext_of(s); int n = s.pr.size(); auto b = m.begin();
    typedef Ext::const_iterator It;
    const It cb = b;
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { checked(); state();
        It x = b, y = b; x += i; y += j;
        RQ((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "flat:compare", "positions %d and %d", i, j);
        RQ(x - y == i - j, "flat:difference", "%d - %d", i, j);
        It z = x; z -= i - j; RQ(z == y, "flat:move", "%d - (%d)", i, i - j);
        It w = x + (j - i); RQ(w == y, "flat:move", "%d + (%d)", i, j - i);
        It u = (j - i) + x; RQ(u == y, "flat:move", "(%d) + %d", j - i, i);
        It q = x - (i - j); RQ(q == y, "flat:move", "%d - (%d)", i, i - j);
        if (j < n) { RQ((*y) == std::make_pair(s.pr[j].first, s.pr[j].second) && y->second == s.pr[j].second && x[j - i] == *y, "flat:value", "element %d", j); }
    }
    for (int i = 0; i < n; ++i) { It x = b; x += i; It y = x, z = x; ++y; RQ(z++ == x && z == y, "flat:move", "increment"); RQ(z-- == y && z == x, "flat:move", "decrement"); --y; RQ(y == x, "flat:move", "decrement"); }
    RQ(b + n == m.end() && (n ? !m.empty() : m.empty()), "flat:size", "distance of the ends");
    (void)cb;
}

// ---- range-extended tuples
template<unsigned N> using Tup = std::array<unsigned, N>;
template<unsigned N> static std::string tshow(const Tup<N>& t) { std::string s = "("; for (unsigned x : t) s += fmt("%u ", x); s.back() = ')'; return s; }
struct Rng { std::vector<unsigned> r; unsigned operator()(unsigned v) const { return v < r.size() ? r[v] : 0; } };
template<unsigned N> struct Setup {
    std::vector<Tup<N>> base; Rng rg; unsigned n, m; unsigned K;
    std::string name() const { std::string s = fmt("insert %u by %u ranges", n, m); for (unsigned x : rg.r) s += fmt(" %u", x); s += " base"; for (auto& b : base) s += " " + tshow<N>(b); return s; }
    std::vector<Tup<N + 1>> list() const {
        std::set<Tup<N + 1>> L;
        for (auto& a : base) for (unsigned s = 0; s < rg(a[m]); ++s) { Tup<N + 1> b; for (unsigned k = 0; k < N; ++k) b[k + (k >= n)] = a[k]; b[n] = s; L.insert(b); }
        return std::vector<Tup<N + 1>>(L.begin(), L.end());
    }
};
template<unsigned N> static void all_tuples(unsigned K, std::vector<Tup<N>>& out) { out.clear(); Tup<N> t{}; for (;;) { out.push_back(t); unsigned k = N; while (k-- > 0) { if (++t[k] < K) break; t[k] = 0; if (!k) return; } } }
// one iterator type for both kinds of enumerators: checks the sequence L at every number
template<unsigned N, class E> static void check_enum(const std::string& K, const E& e, const std::vector<Tup<N + 1>>& L, const std::vector<Tup<N + 1>>& queries, const std::function<long(const Tup<N + 1>&)>& lower, const std::function<long(const Tup<N + 1>&)>& upper, const std::string& nm) {
    typedef typename E::iterator It; long sz = L.size();
    state(); outcome(K + fmt("%ld", sz));
    RQ((long)e.size() == sz && e.empty() == (sz == 0), K + "size", "size %ld, expected %ld: %s", (long)e.size(), sz, nm.c_str());
    auto at = [&](const It& it, long k, const char* fn) {
        checked(); trans();
        if (k >= sz) { RQ(it == e.end(), K + fn, "%s: not the end: %s", fn, nm.c_str()); return; }
        RQ(it != e.end(), K + fn, "%s: the end instead of number %ld %s: %s", fn, k, tshow<N + 1>(L[k]).c_str(), nm.c_str());
        RQ((long)it->first == k && (*it).second == L[k], K + fn, "%s: number %ld %s, expected %ld %s: %s", fn, (long)it->first, tshow<N + 1>(it->second).c_str(), k, tshow<N + 1>(L[k]).c_str(), nm.c_str());
    };
    for (long k = 0; k < sz; ++k) { checked();
        RQ((long)e[L[k]] == k, K + "number", "number of %s is %ld, expected %ld: %s", tshow<N + 1>(L[k]).c_str(), (long)e[L[k]], k, nm.c_str());
        auto t = e[(typename std::decay<decltype(e.size())>::type)k];
        RQ(t == L[k], K + "element", "element %ld is %s, expected %s: %s", k, tshow<N + 1>(t).c_str(), tshow<N + 1>(L[k]).c_str(), nm.c_str());
        at(e.begin(k), k, "begin"); }
    for (long k = 0; k <= sz + 1; ++k) at(e.find((typename std::decay<decltype(e.size())>::type)k), k, "find-number");
    if (sz) { at(e.begin(), 0, "begin");
        // increments from every starting point to the end
        for (long s = 0; s < sz; ++s) { It it = e.begin(s); for (long k = s; k < sz; ++k) { at(it, k, "increment"); ++it; } at(it, sz, "increment"); }
        It a = e.begin(), o = a++; at(o, 0, "postfix-increment"); at(a, 1, "postfix-increment");
        { It it = e.end(); for (long k = sz; k-- > 0; ) { --it; at(it, k, "decrement"); if (k + 1 < sz) { It c = it; ++c; at(c, k + 1, "increment-after-decrement"); } } }
        { It it = e.end(), o2 = it--; at(o2, sz, "postfix-decrement"); at(it, sz - 1, "postfix-decrement"); }
        for (long a1 = 0; a1 <= sz; ++a1) for (long b1 = 0; b1 <= sz; ++b1) { checked();
            It x = a1 < sz ? e.begin(a1) : e.end(), y = b1 < sz ? e.begin(b1) : e.end();
            RQ((x == y) == (a1 == b1) && (x != y) == (a1 != b1) && (x < y) == (a1 < b1) && (x > y) == (a1 > b1) && (x <= y) == (a1 <= b1) && (x >= y) == (a1 >= b1), K + "compare", "positions %ld and %ld: %s", a1, b1, nm.c_str());
            if (a1 < sz && b1 >= a1) { It z = x; z += b1 - a1; at(z, b1, "add"); at(x + (b1 - a1), b1, "add"); at((b1 - a1) + x, b1, "add"); }
            if (b1 < sz && b1 <= a1) { It z = x; z -= a1 - b1; at(z, b1, "subtract"); at(x - (a1 - b1), b1, "subtract"); }
        }
    } else { RQ(e.begin() == e.end(), K + "begin", "begin of an empty set is not the end: %s", nm.c_str()); }
    for (auto& q : queries) { checked();
        auto it = std::find(L.begin(), L.end(), q);
        bool in = it != L.end();
        RQ(e.contains(q) == in && (e.count(q) == 1) == in, K + "contains", "contains %s: %d: %s", tshow<N + 1>(q).c_str(), (int)e.contains(q), nm.c_str());
        at(e.find(q), it - L.begin(), "find");
        long l = lower(q), u = upper(q);
        if (l >= 0) at(e.lower_bound(q), l, "lower_bound");
        if (u >= 0) at(e.upper_bound(q), u, "upper_bound");
    }
}
template<unsigned N> static void ranged(const Setup<N>& S) {
    typedef Ani::ext_range_array_enum<N, Rng, unsigned, unsigned> E;
    auto L = S.list();
    // queries: every tuple of a box somewhat larger than the set
    std::vector<Tup<N + 1>> Q; all_tuples<N + 1>(std::max(S.K, 3u) + 1, Q);
    auto lower = [&](const Tup<N + 1>& q) { return long(std::lower_bound(L.begin(), L.end(), q) - L.begin()); };
    auto upper = [&](const Tup<N + 1>& q) { return long(std::upper_bound(L.begin(), L.end(), q) - L.begin()); };
    E e(S.base, S.rg, S.n, S.m); e.setup();
    check_enum<N>(fmt("ranged%u:", N), e, L, Q, lower, upper, S.name());
    E f; auto rev = S.base; std::reverse(rev.begin(), rev.end()); if (!rev.empty()) rev.push_back(rev.back());
    f.setBaseSet(rev).setRangedExtension(S.rg, S.n, S.m).setup(); f.setup();
    for (size_t k = 0; k < L.size(); ++k) RQ((size_t)f[L[k]] == k && f[(unsigned)k] == L[k] && f.size() == L.size(), fmt("ranged%u:order", N), "other order of the base set: %s", S.name().c_str());
    f.clear(); RQ(f.size() == 0 && f.empty(), fmt("ranged%u:clear", N), "not empty after clear");
}
// the inserted value renamed by intervals chosen by the coordinate it depends on
template<unsigned N> static void renamed(const Setup<N>& S, std::vector<std::vector<int>> names) {
    for (int k = 0; k < 3; ++k) names[k].resize(S.rg(k));           // as many names as the range has values
    typedef Ani::ext_array_enum<N, 3, Rng, unsigned, unsigned, Own> E;
    std::vector<Tup<N + 1>> L0 = S.list(), L;
    unsigned mm = S.m + (S.n <= S.m);
    for (auto t : L0) { t[S.n] = names[t[mm]][t[S.n]]; L.push_back(t); }
    std::array<Ani::interval_enum<Own>, 3> ie;
    for (int k = 0; k < 3; ++k) ie[k].setMem(own_of(pack(names[k], 0)));
    typename E::ExtRangeArrayEnum ar(S.base, S.rg, S.n, S.m); ar.setup();
    E e(ar, ie);
    std::vector<Tup<N + 1>> Q; all_tuples<N + 1>(std::max(S.K, 3u) + 4, Q);
    // order by number of the name; a name that is not in use stands before the next one in use
    auto keyed = [&](const Tup<N + 1>& q, bool& ok) { auto t = q; ok = q[mm] < 3; if (ok) { auto& v = names[q[mm]]; t[S.n] = std::lower_bound(v.begin(), v.end(), (int)q[S.n]) - v.begin(); if (t[S.n] >= v.size()) t[S.n] = 1000; } return t; };
    auto lower = [&](const Tup<N + 1>& q) { bool ok; auto t = keyed(q, ok); return ok ? long(std::lower_bound(L0.begin(), L0.end(), t) - L0.begin()) : -1L; };
    auto upper = [&](const Tup<N + 1>& q) { long l = lower(q); return l >= 0 && l < (long)L.size() && L[l] == q ? l + 1 : l; };
    std::string nm = S.name() + " names"; for (auto& v : names) nm += " " + show(v);
    check_enum<N>(fmt("renamed%u:", N), e, L, Q, lower, upper, nm);
    e.clear(); RQ(e.size() == 0 && e.empty(), fmt("renamed%u:clear", N), "not empty after clear");
}
// every subset (of at most cap elements) of the tuples over {0..K-1}, every assignment of ranges 0..R to 0..K-1, every position and dependency
template<unsigned N> static void sweep(const char* what, unsigned K, int cap, unsigned r0, unsigned R, bool rename) {
    std::vector<Tup<N>> T; all_tuples<N>(K, T);
    std::vector<std::vector<unsigned>> rgs{{}};
    for (unsigned k = 0; k < K; ++k) { std::vector<std::vector<unsigned>> x; for (auto& g : rgs) for (unsigned r = r0; r <= R; ++r) { auto h = g; h.push_back(r); x.push_back(h); } rgs = x; }
    const std::vector<std::vector<std::vector<int>>> NM = {{{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}}, {{0, 2, 3, 5}, {1, 2, 4, 5}, {0, 1, 2, 5}}, {{3, 4, 5, 6}, {0, 2, 4, 6}, {1, 2, 3, 6}}};
    for (uint64_t bits = 0; bits < (uint64_t(1) << T.size()); ++bits) {
        int pc = __builtin_popcountll(bits), co = T.size() - pc;
        if (pc > cap && co > 1) continue;
        run_case(fmt("%s N=%u K=%u set=%llx", what, N, K, (unsigned long long)bits), what, [&] {
            Setup<N> S; S.K = K; for (size_t k = 0; k < T.size(); ++k) if (bits >> k & 1) S.base.push_back(T[k]);
            for (auto& g : rgs) for (S.n = 0; S.n <= N; ++S.n) for (S.m = 0; S.m < N; ++S.m) {
                S.rg.r = g;
                if (rename) for (auto& nm : NM) guarded([&] { renamed<N>(S, nm); }); else guarded([&] { ranged<N>(S); });
            }
        });
    }
}
static void body() {
    std::string v = mc::opt().variant;
    bool th = thorough();
    if (v == "intervals") {
        int W = th ? 12 : 9;
        for (unsigned bits = 0; bits < (1u << W); ++bits) for (int off : {0, -3, 100}) for (int split = 0; split < 3; ++split)
            run_case(fmt("intervals %x from %d split %d", bits, off, split), "intervals", [&] {
                std::vector<int> x; for (int k = 0; k < W; ++k) if (bits >> k & 1) x.push_back(k + off);
                Store s = pack(x, split == 0 ? 0u : split == 1 ? ~0u : 0xaaaau);
                guarded([&] { intervals<Own>("own", x, own_of(s)); });
                guarded([&] { intervals<Ext>("external", x, ext_of(s)); });
                if (off >= 0) { OwnU m; for (auto& p : s.pr) m.m_dat.push_back({(unsigned)p.first, (long)p.second}); guarded([&] { intervals<OwnU>("unsigned", x, m); }); }
                if (off == 0) guarded([&] { flat_iterator(s); });
            });
    }
    if (v == "ranged") { sweep<1>("ranged", 4, 4, 0, 3, false); sweep<2>("ranged", 3, 9, 0, th ? 3 : 2, false); sweep<3>("ranged", 2, 8, 0, th ? 3 : 2, false); sweep<3>("ranged", 3, th ? 3 : 2, 0, 2, false); sweep<4>("ranged", 2, th ? 4 : 2, 1, 2, false); }
    if (v == "renamed") { sweep<1>("renamed", 3, 3, 0, 3, true); sweep<2>("renamed", 3, th ? 9 : 4, 0, 2, true); sweep<3>("renamed", 2, th ? 8 : 4, 0, 2, true); }
}
MC_MAIN(body)
