// Volume meshing helpers: closed triangulated surfaces and the exact-filling oracle.
#pragma once
#include "msh.hpp"
#include "MshTetrahedronMesher.hpp"
struct Surf { std::string name; std::vector<P3> p; std::vector<std::array<int, 3>> t; }; // outward
inline LD surfVol(const Surf& s) { LD v = 0; for (auto& t : s.t) v += dot(toL(s.p[t[0]]), cross(toL(s.p[t[1]]), toL(s.p[t[2]]))) / 6; return v; }
inline Mesh surfMesh(const Surf& s, int scheme) { MD d; d.p = s.p; for (auto& t : s.t) d.e.push_back({ET_TRIANGLE, {t[0], t[1], t[2]}}); Mesh m = mkMeshN(d, scheme); return m; }
typedef std::array<long long, 3> Key3;
inline Key3 keyOf3(const P3& p) { return {llround(p.x() * 1e7), llround(p.y() * 1e7), llround(p.z() * 1e7)}; }
typedef std::array<Key3, 3> TriKey;
typedef std::map<TriKey, int> Tris; // sorted key, sum of orientation signs
inline void addTri(Tris& T, const P3& a, const P3& b, const P3& c, int sign = 1) { TriKey k = {keyOf3(a), keyOf3(b), keyOf3(c)}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (k[j + 1] < k[j]) { std::swap(k[j], k[j + 1]); sign = -sign; } if (!(T[k] += sign)) T.erase(k); }
inline Tris trisOf(const Mesh& m) { Tris T; for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); addTri(T, m.node(e.nodeId(0)), m.node(e.nodeId(1)), m.node(e.nodeId(2))); } return T; }
inline bool fills(const Mesh& m, const Tris& want, double vol, std::string& why, double lim = 1e-12) {
    Tris T; LD s = 0; std::map<std::array<Key3, 3>, int> cnt;
    for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); if (e.elementType() != ET_TETRAHEDRON || e.nbNodeIds() != 4) { why = "not a tetrahedron"; return false; } P3 p[4]; for (int k = 0; k < 4; ++k) p[k] = m.node(e.nodeId(k));
        LD v = -tetVol(p[0], p[1], p[2], p[3]); if (!(v > lim)) { why = strf("element %d has volume %g", m.elementId(i), (double)v); return false; } s += v;
        addTri(T, p[0], p[1], p[2]); addTri(T, p[1], p[3], p[2]); addTri(T, p[0], p[3], p[1]); addTri(T, p[0], p[2], p[3]); }
    if (T != want) { why = strf("boundary differs: %zu triangles instead of %zu", T.size(), want.size()); return false; }
    if (std::fabs((double)s - vol) > 1e-7 * (1 + vol)) { why = strf("volume %.9g instead of %.9g", (double)s, vol); return false; }
    return true;
}
// union of unit cells of a box, diagonals of the surface quadrilaterals given by bits; empty when not a manifold surface
inline Surf polycube(const std::vector<V3i>& cells, unsigned long long diag, int* nq = nullptr) {
    std::set<std::array<int, 3>> in; for (auto& c : cells) in.insert({(int)c.x, (int)c.y, (int)c.z}); Surf s; std::map<std::array<int, 3>, int> id; int q = 0;
    auto P = [&](int x, int y, int z) { std::array<int, 3> k = {x, y, z}; if (!id.count(k)) { id[k] = s.p.size(); s.p.push_back(P3(x, y, z)); } return id[k]; };
    for (auto& c : in) for (int d = 0; d < 3; ++d) for (int o = 0; o < 2; ++o) { auto n = c; n[d] += o ? 1 : -1; if (in.count(n)) continue; int u = (d + 1) % 3, w = (d + 2) % 3; int v[4]; for (int k = 0; k < 4; ++k) { auto a = c; a[d] += o; a[u] += (k == 1 || k == 2); a[w] += k >= 2; v[k] = P(a[0], a[1], a[2]); } if (!o) std::swap(v[1], v[3]);
        if (diag >> q & 1) { s.t.push_back({v[1], v[2], v[3]}); s.t.push_back({v[1], v[3], v[0]}); } else { s.t.push_back({v[0], v[1], v[2]}); s.t.push_back({v[0], v[2], v[3]}); } ++q; }
    if (nq) *nq = q; std::map<std::pair<int, int>, int> ed; for (auto& t : s.t) for (int k = 0; k < 3; ++k) if (++ed[{t[k], t[(k + 1) % 3]}] > 1) { s.t.clear(); return s; }
    s.name = "cells"; for (auto& c : cells) s.name += strf("(%lld,%lld,%lld)", (long long)c.x, (long long)c.y, (long long)c.z); s.name += strf(" diagonals %llx", diag); return s;
}
