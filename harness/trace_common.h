// Two cells that share a face, an edge or a vertex and the part of a function that their neighbours share.
#pragma once
#include "femop_common.h"
#include "anifem++/fem/tetdofmap.h"
using ref::RSp;
static const int EDN[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
inline std::vector<std::array<int, 4>> orders() { std::vector<std::array<int, 4>> r; std::array<int, 4> p{0, 1, 2, 3}; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
// what is shared by neighbours, component by component: V values, T tangential part, N normal part (three components each), A face averages, X nothing
inline std::string promise(const RSp& s) {
    switch (s.kind) {
        case ref::FIX: return s.fix == FEM_RT0 ? "NNN" : s.fix == FEM_ND0 ? "TTT" : s.fix == FEM_CR1 ? "A" : s.fix == FEM_P0 ? "X" : "V";
        case ref::VEC: { std::string r; for (int i = 0; i < s.k; ++i) r += promise(s.ch[0]); return r; }
        case ref::COM: { std::string r; for (auto& c : s.ch) r += promise(c); return r; }
        case ref::UNI: { std::string r = promise(s.ch[0]); for (auto& c : s.ch) { auto p = promise(c); for (size_t i = 0; i < r.size(); ++i) if (r[i] != p[i]) { if (r[i] == 'V') r[i] = p[i]; else if (p[i] != 'V') r[i] = 'X'; } } return r; }
    }
    return "";
}
// cells in general position: the first cell has points 0 1 2 3; the second shares the last n of them and has its own otherwise
struct Pair { std::vector<V3> x; std::array<int, 4> a, b; int n; const char* name; };
inline std::vector<Pair> pairs() {
    std::vector<Pair> r; const char* nm[] = {"", "vertex", "edge", "face"};
    std::vector<V3> base[3] = {{{0, 0, 0}, {1.1, 0.2, 0.1}, {0.3, 0.9, -0.2}, {0.2, 0.1, 1.2}}, {{-0.4, 0.2, 0.7}, {0.5, 0.1, 0.3}, {0.1, 1.4, 0.2}, {0.9, 0.8, 1.6}}, {{1, 1, 0}, {0, 1, 1}, {1, 0, 1}, {0, 0, 0}}};
    for (int g = 0; g < (mc::thorough() ? 3 : 2); ++g) for (int n = 3; n >= 1; --n) for (int lab = 0; lab < 2; ++lab) { Pair p; p.n = n; p.name = nm[n]; p.x = base[g];
        V3 c{0, 0, 0}, s{0, 0, 0}; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { c[k] += p.x[i][k] / 4; if (i >= 4 - n) s[k] += p.x[i][k] / n; }
        for (int i = 0; i < 4 - n; ++i) { V3 y; for (int k = 0; k < 3; ++k) y[k] = s[k] + 1.3 * (s[k] - c[k]) - 0.8 * (p.x[i][k] - c[k]) * (1 + 0.2 * i) + 0.05 * (k == i); p.x.push_back(y); }
        // numbers of the points: increasing along the first cell, or mixed
        int m = p.x.size(); std::vector<int> id(m); for (int i = 0; i < m; ++i) id[i] = lab ? (i * 3 + 1) % 7 % m : i; if (lab) { std::vector<int> q{3, 0, 2, 1, 4, 6, 5}; for (int i = 0; i < m; ++i) id[i] = -1; int t = 0; for (int v : q) if (v < m) id[v] = t++; }
        std::vector<V3> y(m); for (int i = 0; i < m; ++i) y[id[i]] = p.x[i]; p.x = y;
        for (int i = 0; i < 4; ++i) { p.a[i] = id[i]; p.b[i] = i < n ? id[4 - n + i] : id[4 + i - n]; }
        r.push_back(p); }
    return r;
}
// the parts of the values of function i that are compared; n: unit normal of the shared face, t: direction of the shared edge
inline void trace_part(const std::string& pr, const std::vector<ref::Pt>& pts, int nshared, const V3& n, const V3& t, const std::vector<R>& v, int i, std::vector<R>& out) {
    int np = pts.size(), dim = pr.size(); out.clear();
    for (int d = 0; d < dim;) { char c = pr[d];
        if (c == 'V') for (int k = 0; k < np; ++k) out.push_back(v[((size_t)i * np + k) * dim + d]);
        if (c == 'A' && nshared == 3) { R a = 0; for (int k = 0; k < np; ++k) a += pts[k].w * v[((size_t)i * np + k) * dim + d]; out.push_back(a); }
        if (c == 'N' && nshared == 3) for (int k = 0; k < np; ++k) { R a = 0; for (int x = 0; x < 3; ++x) a += n[x] * v[((size_t)i * np + k) * dim + d + x]; out.push_back(a); }
        if (c == 'T' && nshared == 3) for (int k = 0; k < np; ++k) { R a = 0; for (int x = 0; x < 3; ++x) a += n[x] * v[((size_t)i * np + k) * dim + d + x]; for (int x = 0; x < 3; ++x) out.push_back(v[((size_t)i * np + k) * dim + d + x] - a * n[x]); }
        if (c == 'T' && nshared == 2) for (int k = 0; k < np; ++k) { R a = 0; for (int x = 0; x < 3; ++x) a += t[x] * v[((size_t)i * np + k) * dim + d + x]; out.push_back(a); }
        d += c == 'N' || c == 'T' ? 3 : 1; }
}
