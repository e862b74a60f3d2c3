// Tetrahedral meshes of the stand-in: one global list of cells, distributed over processes with or without ghost layers.
#pragma once
#include "inmost.h"
namespace mock {
struct Topo { std::vector<std::array<double, 3>> pts; std::vector<std::array<int, 4>> tets; };
/// order of the elements inside a process: 0 as listed, 1 reversed, 2 with deleted elements in between
struct Dist { std::vector<int> owner; int nproc = 1, layers = 0, local = 0; };
struct Built { std::vector<std::unique_ptr<INMOST::Mesh>> m; std::array<std::vector<std::vector<int>>, 4> ent; std::array<std::vector<int>, 4> owner, gid; INMOST::World world; };
inline std::unique_ptr<Built> build(const Topo& t, const Dist& d) {
    using namespace INMOST; std::unique_ptr<Built> B(new Built); Built& b = *B;
    auto idx = [&](int n, std::vector<int> k) { std::sort(k.begin(), k.end()); for (size_t i = 0; i < b.ent[n].size(); ++i) if (b.ent[n][i] == k) return int(i); b.ent[n].push_back(k); return int(b.ent[n].size() - 1); };
    for (size_t i = 0; i < t.pts.size(); ++i) idx(0, {int(i)});
    for (auto& c : t.tets) { for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) idx(1, {c[i], c[j]}); for (int i = 0; i < 4; ++i) idx(2, {c[i], c[(i + 1) % 4], c[(i + 2) % 4]}); idx(3, {c[0], c[1], c[2], c[3]}); }
    auto owner_of = [&](size_t c) { return d.owner.empty() ? 0 : d.owner[c]; };
    auto inside = [&](const std::vector<int>& k, const std::array<int, 4>& c) { for (int v : k) if (std::find(c.begin(), c.end(), v) == c.end()) return false; return true; };
    for (int n = 0; n < 4; ++n) for (auto& k : b.ent[n]) { int o = INT_MAX; for (size_t c = 0; c < t.tets.size(); ++c) if (inside(k, t.tets[c])) o = std::min(o, owner_of(c)); b.owner[n].push_back(o); b.gid[n].push_back(-1); }
    std::array<std::vector<std::vector<int>>, 4> local; // per dimension, per process: the entities in local order
    for (int n = 0; n < 4; ++n) local[n].resize(d.nproc);
    for (int p = 0; p < d.nproc; ++p) { std::set<size_t> cs; for (size_t c = 0; c < t.tets.size(); ++c) if (owner_of(c) == p) cs.insert(c);
        for (int l = 0; l < d.layers; ++l) { auto old = cs; for (size_t c = 0; c < t.tets.size(); ++c) for (size_t o : old) for (int v : t.tets[o]) if (std::find(t.tets[c].begin(), t.tets[c].end(), v) != t.tets[c].end()) cs.insert(c); }
        for (int n = 0; n < 4; ++n) { for (size_t i = 0; i < b.ent[n].size(); ++i) { bool in = false; for (size_t c : cs) in |= inside(b.ent[n][i], t.tets[c]); if (in) local[n][p].push_back(int(i)); } if (d.local == 1) std::reverse(local[n][p].begin(), local[n][p].end()); } }
    for (int n = 0; n < 4; ++n) { int g = 0; for (int p = 0; p < d.nproc; ++p) for (int e : local[n][p]) if (b.owner[n][e] == p) b.gid[n][e] = g++; }
    b.world.nproc = d.nproc;
    for (int p = 0; p < d.nproc; ++p) {
        std::unique_ptr<Mesh> M(new Mesh); Mesh& m = *M; m.rank = p; m.nproc = d.nproc; m.world = &b.world;
        std::array<std::map<int, HandleType>, 4> at;
        for (int n = 0; n < 4; ++n) { m.total[n] = int(b.ent[n].size());
            for (int e : local[n][p]) {
                if (d.local == 2 && (m.el[n].empty() || m.el[n].size() % 3 == 2)) { ElemRec r; r.alive = false; m.el[n].push_back(r); m.key[n].push_back(-1); }
                ElemRec r; bool other = false; for (int q = 0; q < d.nproc; ++q) if (q != p) other |= std::find(local[n][q].begin(), local[n][q].end(), e) != local[n][q].end();
                r.st = b.owner[n][e] != p ? Element::Ghost : other ? Element::Shared : Element::Owned;
                at[n][e] = ComposeHandleNum(n, int(m.el[n].size())); m.el[n].push_back(r); m.key[n].push_back(e); }
            if (d.local == 2) { ElemRec r; r.alive = false; m.el[n].push_back(r); m.key[n].push_back(-1); } }
        auto find = [&](int n, std::vector<int> k) { std::sort(k.begin(), k.end()); for (size_t i = 0; i < b.ent[n].size(); ++i) if (b.ent[n][i] == k) return at[n].at(int(i)); throw std::logic_error("mesh"); };
        m.coords.resize(m.el[0].size()); for (int e : local[0][p]) { auto h = at[0][e]; m.coords[GetHandleID(h)] = {t.pts[e][0], t.pts[e][1], t.pts[e][2]}; }
        for (int e : local[1][p]) { auto& k = b.ent[1][e]; m.rec(at[1][e]).low = {at[0][k[0]], at[0][k[1]]}; }
        for (int e : local[2][p]) { auto& k = b.ent[2][e]; m.rec(at[2][e]).low = {find(1, {k[0], k[1]}), find(1, {k[1], k[2]}), find(1, {k[2], k[0]})}; }
        for (size_t c = 0; c < t.tets.size(); ++c) { auto& k = t.tets[c]; int e = -1; auto s = std::vector<int>(k.begin(), k.end()); std::sort(s.begin(), s.end()); for (size_t i = 0; i < b.ent[3].size(); ++i) if (b.ent[3][i] == s) e = int(i); if (!at[3].count(e)) continue;
            auto& r = m.rec(at[3][e]); for (int i = 0; i < 4; ++i) r.high.push_back(at[0][k[i]]); for (int i = 0; i < 4; ++i) r.low.push_back(find(2, {k[i], k[(i + 1) % 4], k[(i + 2) % 4]})); }
        Built* bp = &b; Mesh* mp = &m;
        m.gid_source = [bp, mp](int n) { std::vector<int> r; for (size_t l = 0; l < mp->el[n].size(); ++l) r.push_back(mp->el[n][l].alive ? bp->gid[n][mp->key[n][l]] : -1); return r; };
        b.world.mesh.push_back(&m); b.m.push_back(std::move(M)); }
    return B;
}
inline HandleType handle(INMOST::Mesh& m, int n, int entity) { for (size_t l = 0; l < m.key[n].size(); ++l) if (m.key[n][l] == entity) return INMOST::ComposeHandleNum(n, int(l)); return 0; }
} // namespace mock
