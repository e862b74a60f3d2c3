// I01/I02: every insert history over a small key universe, explored to a fixpoint of reachable container states,
// against a point-wise reference map.
#include "mc.h"
#include "anifem++/interval/interval_map.h"
using namespace mc;
typedef Ani::interval_map<int, int> IM;
struct Op { int kind, a, b, v; };     // kind 0: [a,b) 1: [a,inf) 2: (-inf,b) 3: all
static int K;
static const int K0 = -1;             // keys K0..K
static const int LO = -4;             // sampled points LO..HI; LO stands for "-infinity side", HI for "+infinity side"
static int HI() { return K + 3; }

typedef std::vector<int> Ref;         // value per point, -1: absent
static std::string show(const Op& o) {
    switch (o.kind) {
        case 0: return fmt("[%d,%d)->%d", o.a, o.b, o.v);
        case 1: return fmt("[%d,inf)->%d", o.a, o.v);
        case 2: return fmt("(-inf,%d)->%d", o.b, o.v);
    }
    return fmt("(-inf,inf)->%d", o.v);
}
static std::string show(const std::vector<Op>& h) { std::string s; for (auto& o : h) s += show(o) + " "; return s; }
static bool covers(const Op& o, int p) {
    switch (o.kind) { case 0: return o.a <= p && p < o.b; case 1: return o.a <= p; case 2: return p < o.b; }
    return true;
}
static bool refInsert(Ref& r, const Op& o) {
    if (o.kind == 0 && o.b <= o.a) return false;
    for (int p = LO; p <= HI(); ++p) if (covers(o, p) && r[p - LO] != -1 && r[p - LO] != o.v) return false;
    for (int p = LO; p <= HI(); ++p) if (covers(o, p)) r[p - LO] = o.v;
    return true;
}
static std::pair<IM::iterator, bool> apply(IM& m, const Op& o) {
    switch (o.kind) {
        case 0: return m.insert(o.a, o.b, o.v);
        case 1: return m.insert(o.a, Ani::infinite_t{}, o.v);
        case 2: return m.insert(Ani::infinite_t{}, o.b, o.v);
    }
    return m.insert(Ani::infinite_t{}, Ani::infinite_t{}, o.v);
}
static std::string key(IM& m) {
    std::string s;
    for (auto it = m.begin(); it != m.end(); ++it) {
        s += fmt("%c%d:%d%c=%d;", it.is_left_infinite() ? '<' : ' ', it->first.m_start, it->first.m_end, it.is_right_infinite() ? '>' : ' ', it->second);
    }
    return s;
}
static std::string opclass(const Op& o) { static const char* n[] = {"finite", "right-inf", "left-inf", "all"}; return n[o.kind]; }

static void compare(IM& m, const Ref& r, const std::vector<Op>& h, const std::string& cls) {
    const IM& c = m;
    // maximal runs of the reference
    struct Run { int b, e, v; };
    std::vector<Run> runs;
    for (int p = LO; p <= HI(); ++p) {
        int v = r[p - LO];
        if (v == -1) continue;
        if (!runs.empty() && runs.back().e == p && runs.back().v == v) runs.back().e = p + 1;
        else runs.push_back({p, p + 1, v});
    }
    state();
    MC_REQ(m.size() == runs.size(), "size:" + cls, "after %s: size()=%zu, expected %zu intervals; content %s", show(h).c_str(), m.size(), runs.size(), key(m).c_str());
    MC_REQ(m.empty() == runs.empty(), "empty:" + cls, "after %s: empty()=%d", show(h).c_str(), (int)m.empty());
    for (int p = LO; p <= HI(); ++p) {
        int v = r[p - LO];
        MC_REQ(c.contains(p) == (v != -1), "contains:" + cls, "after %s: contains(%d)=%d expected %d; content %s", show(h).c_str(), p, (int)c.contains(p), v != -1, key(m).c_str());
        MC_REQ(c.count(p) == (v != -1 ? 1u : 0u), "count:" + cls, "after %s: count(%d)", show(h).c_str(), p);
        auto f = c.find(p);
        auto f2 = m.find(p);
        MC_REQ((f != c.end()) == (v != -1) && (f2 != m.end()) == (v != -1), "find:" + cls, "after %s: find(%d) found=%d expected %d; content %s", show(h).c_str(), p, (int)(f != c.end()), v != -1, key(m).c_str());
        if (f != c.end() && v != -1) {
            MC_REQ(f->second == v && f2->second == v && c[p] == v, "find-value:" + cls, "after %s: find(%d) -> %d expected %d", show(h).c_str(), p, f->second, v);
            MC_REQ(f.contains(p), "iter-contains:" + cls, "after %s: find(%d).contains(%d) is false", show(h).c_str(), p, p);
        }
        bool thrown = false; int got = -7;
        try { got = c.at(p); } catch (const std::out_of_range&) { thrown = true; }
        MC_REQ(thrown == (v == -1) && (thrown || got == v), "at:" + cls, "after %s: at(%d) thrown=%d value=%d expected %d", show(h).c_str(), p, (int)thrown, got, v);
        // first interval that holds a key >= p / > p
        size_t lb = 0, ub = 0;
        while (lb < runs.size() && !(runs[lb].e - 1 >= p || runs[lb].e == HI() + 1)) ++lb;
        while (ub < runs.size() && !(runs[ub].e - 1 > p || runs[ub].e == HI() + 1)) ++ub;
        size_t glb = std::distance(m.begin(), m.lower_bound(p)), gub = std::distance(m.begin(), m.upper_bound(p));
        MC_REQ(glb == lb, "lower_bound:" + cls, "after %s: lower_bound(%d) is interval #%zu expected #%zu; content %s", show(h).c_str(), p, glb, lb, key(m).c_str());
        MC_REQ(gub == ub, "upper_bound:" + cls, "after %s: upper_bound(%d) is interval #%zu expected #%zu; content %s", show(h).c_str(), p, gub, ub, key(m).c_str());
        MC_REQ((size_t)std::distance(c.begin(), c.lower_bound(p)) == lb && (size_t)std::distance(c.begin(), c.upper_bound(p)) == ub, "const-bound:" + cls, "after %s: const bounds at %d", show(h).c_str(), p);
    }
    // iteration: sorted disjoint intervals with the right ends
    size_t i = 0;
    for (auto it = m.begin(); it != m.end() && i < runs.size(); ++it, ++i) {
        const Run& q = runs[i];
        bool li = q.b == LO, ri = q.e == HI() + 1;
        bool ok = it->second == q.v && it.is_left_infinite() == li && it.is_right_infinite() == ri && (li || it->first.m_start == q.b) && (ri || it->first.m_end == q.e);
        MC_REQ(ok, "iterate:" + cls, "after %s: interval #%zu of %s, expected [%d,%d)=%d", show(h).c_str(), i, key(m).c_str(), q.b, q.e, q.v);
        if (!ok) break;
        for (int p = LO; p <= HI(); ++p)
            MC_REQ(it.contains(p) == (q.b <= p && p < q.e), "iter-contains:" + cls, "after %s: interval #%zu (%s) contains(%d)=%d", show(h).c_str(), i, key(m).c_str(), p, (int)it.contains(p));
    }
    outcome(key(m));
}

static bool g_text = false;
static void roundtrip(IM& m, const Ref& r, const std::vector<Op>& h) {
    // text round trip with several delimiter sets (all chosen so that no delimiter occurs in a number)
    static const char* D[][4] = {{":", "->", ";", " \t"}, {":", "->", "|", " \t"}, {"..", "=>", ",", " "}, {"~", "=", ";", ""}, {"to", "maps", "and", " "}};
    for (auto& d : D) {
        Ani::ParseIvlMapTraits t(d[0], d[1], d[2], d[3]);
        std::ostringstream os;
        m.print(os, t);
        std::string s = os.str();
        std::string cls = std::string(d[0]) + d[1] + d[2] + (d[3][0] ? "sp" : "nosp");
        for (int variant = 0; variant < 4; ++variant) {
            std::string in = s;
            size_t pos = 0, cnt = std::string::npos;
            if (variant == 1) { if (!d[3][0]) continue; in = "  " + s + "  "; }
            if (variant == 2) { if (s.empty()) continue; in = "xx" + s; pos = 2; }             // start offset
            if (variant == 3) { if (s.empty()) continue; cnt = s.size(); in = s + d[2] + "junk"; }   // character count ends at an element
            trans(); state();
            try {
                IM p = Ani::parse_interval_map<int, int>(in, pos, cnt, Ani::details::DefaultParser<int>(), Ani::details::DefaultParser<int>(), t);
                bool same = true;
                for (int q = LO; q <= HI(); ++q) {
                    bool c = p.contains(q);
                    if (c != (r[q - LO] != -1) || (c && p.find(q)->second != r[q - LO])) same = false;
                }
                std::ostringstream o2; p.print(o2, t);
                MC_REQ(same && o2.str() == s, "roundtrip:" + cls, "content %s (from %s) printed as \"%s\" parsed back as \"%s\"", key(m).c_str(), show(h).c_str(), s.c_str(), o2.str().c_str());
            } catch (const std::exception& e) {
                fail("roundtrip:" + cls, fmt("content %s printed as \"%s\" is rejected: %s", key(m).c_str(), s.c_str(), e.what()));
            }
            outcome(s);
        }
    }
}

static void explore(const std::vector<Op>& alphabet, const std::string& name) {
    // breadth-first over container states; a state is reached by a recorded history which is replayed on a fresh object
    struct Node { std::vector<Op> h; Ref r; };
    std::map<std::string, int> seen;
    std::vector<Node> q;
    { IM m; Ref r(HI() - LO + 1, -1); seen[key(m)] = 0; q.push_back({{}, r}); }
    for (size_t i = 0; i < q.size(); ++i) {
        for (size_t k = 0; k < alphabet.size(); ++k) {
            Node n = q[i];
            const Op& o = alphabet[k];
            IM m; for (auto& x : n.h) apply(m, x);
            std::string before = key(m);
            n.h.push_back(o);
            auto r = apply(m, o);
            trans();
            bool exp = refInsert(n.r, o);
            std::string cls = opclass(o) + (exp ? "" : "-rejected");
            if (!g_text) {
                MC_REQ(r.second == exp, "insert-result:" + cls, "%s: returned %d expected %d; content before %s after %s", show(n.h).c_str(), (int)r.second, (int)exp, before.c_str(), key(m).c_str());
                if (exp && r.second) {
                    int p = o.kind == 2 || o.kind == 3 ? LO : o.a;
                    MC_REQ(r.first != m.end() && r.first->second == o.v && r.first.contains(p), "insert-iterator:" + cls, "%s: returned iterator does not designate the interval that holds %d", show(n.h).c_str(), p);
                }
                if (!exp && !r.second && !(o.kind == 0 && o.b <= o.a))
                    MC_REQ(r.first != m.end() && r.first->second != o.v, "insert-iterator:" + cls, "%s: iterator of a rejected insertion does not designate a conflicting interval", show(n.h).c_str());
                compare(m, n.r, n.h, cls);
            } else roundtrip(m, n.r, n.h);
            if (casefailed()) { if (q.size() > 50000) return; }
            std::string kk = key(m);
            if (r.second != exp) continue;                       // diverged: reported above, do not build on it
            if (seen.emplace(kk, 1).second) q.push_back(n);
        }
    }
    sample(fmt("%s: fixpoint with %zu container states, longest history %zu inserts, e.g. %s", name.c_str(), q.size(), q.back().h.size(), show(q.back().h).c_str()));
}

static void body() {
    g_text = opt().variant == "text";
    K = thorough() ? 4 : 3;
    int NV = 2;
    std::vector<Op> A;
    // the first letters restrict the alphabet so that shards share the work: one case per (value-set, kinds) choice
    for (int mask = 1; mask < 16; ++mask) {
        A.clear();
        for (int v = 0; v < NV; ++v) {
            if (mask & 1) for (int a = K0; a <= K; ++a) for (int b = K0; b <= K; ++b) A.push_back({0, a, b, v});
            if (mask & 2) for (int a = K0; a <= K; ++a) A.push_back({1, a, 0, v});
            if (mask & 4) for (int b = K0; b <= K; ++b) A.push_back({2, 0, b, v});
            if (mask & 8) A.push_back({3, 0, 0, v});
        }
        std::string id = fmt("histories kinds=%d K=%d values=%d", mask, K, NV);
        run_case(id, "histories", [&] { explore(A, id); });
    }
    if (thorough()) {
        K = 3; NV = 3;
        A.clear();
        for (int v = 0; v < NV; ++v) {
            for (int a = K0; a <= K; ++a) for (int b = a + 1; b <= K; ++b) A.push_back({0, a, b, v});
            for (int a = K0; a <= K; ++a) A.push_back({1, a, 0, v});
            for (int b = K0; b <= K; ++b) A.push_back({2, 0, b, v});
            A.push_back({3, 0, 0, v});
        }
        std::string id = fmt("histories kinds=all K=%d values=%d", K, NV);
        run_case(id, "histories", [&] { explore(A, id); });
    }
    if (!g_text)
        run_case("clear-swap", "clear-swap", [&] {
            // clear, swap and copies of every state reachable with two inserts
            K = 2;
            std::vector<Op> B;
            for (int v = 0; v < 2; ++v) {
                for (int a = K0; a <= K; ++a) for (int b = a + 1; b <= K; ++b) B.push_back({0, a, b, v});
                for (int a = K0; a <= K; ++a) { B.push_back({1, a, 0, v}); B.push_back({2, 0, a, v}); }
                B.push_back({3, 0, 0, v});
            }
            auto mk = [&](int i, int j, Ref& r, std::vector<Op>& h) { IM m; r.assign(HI() - LO + 1, -1); h.clear(); if (i >= 0) { apply(m, B[i]); refInsert(r, B[i]); h.push_back(B[i]); } if (j >= 0) { Ref q = r; if (refInsert(q, B[j])) { apply(m, B[j]); r = q; h.push_back(B[j]); } } return m; };
            int n = B.size();
            for (int i = -1; i < n; ++i) for (int j = -1; j < n; j += 3) {
                Ref r1, r2; std::vector<Op> h1, h2;
                IM a = mk(i, j, r1, h1), b = mk(j, -1, r2, h2);
                IM c(a);
                a.swap(b); trans();
                compare(a, r2, h2, "swap"); compare(b, r1, h1, "swap"); compare(c, r1, h1, "copy");
                b.clear(); trans();
                Ref e(HI() - LO + 1, -1);
                compare(b, e, h1, "clear"); compare(c, r1, h1, "copy");
                for (int k = 0; k < n; ++k) { IM d(b); Ref f = e; std::vector<Op> h3 = h1; h3.push_back(B[k]); bool x = refInsert(f, B[k]); MC_REQ(apply(d, B[k]).second == x, "clear-insert", "insert into a cleared map"); compare(d, f, h3, "clear-insert"); trans(); }
                b = c; compare(b, r1, h1, "assign");
            }
        });
}
MC_MAIN(body)
