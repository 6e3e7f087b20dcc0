// Facet sets given by shared vertex indices, and their combinatorial connectivity.
#pragma once
#include "pde.hpp"
#include "StlUtils.hpp"
using namespace ENigMA::stl;
typedef CStlUtils<R> Stl;
struct TS { std::string name; std::vector<P3> p; std::vector<std::array<int, 3>> t; };
inline TS tsOf(const Body& b) { TS s; s.name = b.name; for (auto& v : b.v) s.p.push_back(C(v)); for (auto& f : b.f) for (size_t i = 1; i + 1 < f.size(); ++i) s.t.push_back({{f[0], f[i], f[i + 1]}}); return s; }
inline TS tetraTS() { TS s; s.name = "tetra"; s.p = {P3(0, 0, 0), P3(2, 0, 0), P3(0, 3, 0), P3(0, 0, 1)}; s.t = {{{0, 2, 1}}, {{0, 1, 3}}, {{1, 2, 3}}, {{2, 0, 3}}}; return s; }
inline TS octaTS() { TS s; s.name = "octahedron"; s.p = {P3(1, 0, 0), P3(-1, 0, 0), P3(0, 1.5, 0), P3(0, -1, 0), P3(0, 0, 1), P3(0, 0, -2)}; s.t = {{{0, 2, 4}}, {{2, 1, 4}}, {{1, 3, 4}}, {{3, 0, 4}}, {{2, 0, 5}}, {{1, 2, 5}}, {{3, 1, 5}}, {{0, 3, 5}}}; return s; }
inline TS cubeTS() { TS s; s.name = "box"; for (int k = 0; k < 8; ++k) s.p.push_back(P3(k & 1 ? 1.25 : 0, k & 2 ? 0.5 : -0.25, k & 4 ? 3 : 1)); s.t = {{{0, 2, 3}}, {{0, 3, 1}}, {{4, 5, 7}}, {{4, 7, 6}}, {{0, 1, 5}}, {{0, 5, 4}}, {{2, 6, 7}}, {{2, 7, 3}}, {{0, 4, 6}}, {{0, 6, 2}}, {{1, 3, 7}}, {{1, 7, 5}}}; return s; }
inline TS stripTS(int n) { TS s; s.name = strf("strip%d", n); for (int i = 0; i < n + 2; ++i) s.p.push_back(P3(0.5 * i, i % 2 ? 1 : 0, 0.1 * i * i)); for (int i = 0; i < n; ++i) { if (i % 2) s.t.push_back({{i + 1, i, i + 2}}); else s.t.push_back({{i, i + 1, i + 2}}); } return s; }
inline TS fanTS(int n, bool closed) { TS s; s.name = strf("%s%d", closed ? "umbrella" : "fan", n); s.p.push_back(P3(0, 0, 1)); int m = closed ? n : n + 1; for (int i = 0; i < m; ++i) { double a = 6.283185307179586 * i / (closed ? n : n + 3); s.p.push_back(P3(std::cos(a), std::sin(a), 0)); } for (int i = 0; i < n; ++i) s.t.push_back({{0, 1 + i, 1 + (i + 1) % m}}); return s; }
inline TS twoTS(const TS& a, const TS& b) { TS s = a; s.name += "+" + b.name; int k = a.p.size(); for (auto& p : b.p) s.p.push_back(P3(p.x() + 20, p.y() - 7, p.z())); for (auto t : b.t) { for (int& i : t) i += k; s.t.push_back(t); } return s; }
inline TS ringTS(int n) { TS s; s.name = strf("ring%d", n); for (int i = 0; i < n; ++i) { double a = 6.283185307179586 * i / n; s.p.push_back(P3(std::cos(a), std::sin(a), 0)); s.p.push_back(P3(1.5 * std::cos(a), 1.5 * std::sin(a), 0.7)); } for (int i = 0; i < n; ++i) { int j = (i + 1) % n; s.t.push_back({{2 * i, 2 * i + 1, 2 * j}}); s.t.push_back({{2 * i + 1, 2 * j + 1, 2 * j}}); } return s; }
inline TS pick(const TS& s, unsigned mask) { TS o = s; o.t.clear(); for (size_t i = 0; i < s.t.size(); ++i) if (mask >> i & 1) o.t.push_back(s.t[i]); return o; }
inline void turn(std::array<int, 3>& t, int k) { for (k %= 3; k-- > 0;) t = {{t[1], t[2], t[0]}}; }
inline void flip(std::array<int, 3>& t) { std::swap(t[1], t[2]); }
inline std::vector<int> idsFor(int n, int scheme) { return scheme == 0 ? iota(n) : scheme == 1 ? iota(n, 5, 3) : iota(n, 2 * n + 3, -2); }
inline CStlFacet<R> facetOf(const TS& s, int i) { CStlFacet<R> f; for (int k : s.t[i]) { P3 p = s.p[k]; f.addVertex(p); } return f; }
inline void build(Stl& u, const TS& s, const std::vector<int>& id) { for (size_t i = 0; i < s.t.size(); ++i) u.addFacet(id[i], facetOf(s, i)); u.calculateStatistics(); }
typedef std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> Edges;
inline Edges edgesOf(const TS& s) { Edges e; for (size_t i = 0; i < s.t.size(); ++i) for (int j = 0; j < 3; ++j) { int a = s.t[i][j], b = s.t[i][(j + 1) % 3]; e[{std::min(a, b), std::max(a, b)}].push_back({(int)i, j}); } return e; }
inline bool manifold(const TS& s) { for (auto& e : edgesOf(s)) if (e.second.size() > 2) return false; return true; }
inline bool atP(const P3& a, const P3& b, double tol = 0) { return std::fabs(a.x() - b.x()) <= tol && std::fabs(a.y() - b.y()) <= tol && std::fabs(a.z() - b.z()) <= tol; }
// connectivity stored in u equals that of s
inline void judgeLinks(Run& r, Stl& u, const TS& s, const std::vector<int>& id) { auto& f = u.stlFile(); bool cnt = f.nbFacets() == (int)s.t.size(); r.expect(cnt, "count"); if (!cnt) return; std::map<int, int> at; for (size_t i = 0; i < id.size(); ++i) at[id[i]] = i; for (size_t i = 0; i < s.t.size(); ++i) { auto& c = f.facet(id[i]); for (int k = 0; k < 3; ++k) r.expect(atP(c.vertex(k), s.p[s.t[i][k]]), "vertices", "facet %d corner %d", (int)i, k); }
    for (auto& e : edgesOf(s)) for (auto& x : e.second) { auto& g = f.facet(id[x.first]).edge(x.second); int nb = g.neighbor(), vn = g.whichVertexNot(); if (e.second.size() == 1) { r.expect(nb == -1, "free edge linked", "facet %d edge %d to %d", x.first, x.second, nb); r.expect(vn == -1, "free edge vertex"); } else { bool ok = at.count(nb) > 0; int k = -1, u2 = -1; for (auto& y : e.second) if (!(y == x) && ok && y.first == at[nb]) { k = y.second; if ((y.second + 2) % 3 == vn) u2 = y.second; } r.expect(ok && k >= 0, "link", "facet %d edge %d to %d", x.first, x.second, nb); if (ok && k >= 0) r.expect(u2 >= 0, "opposite vertex", "facet %d edge %d: %d", x.first, x.second, vn); } } }
