// Planar meshing helpers: domains, edge meshes, tiling oracle.
#pragma once
#include "msh.hpp"
struct Dom { std::vector<std::vector<V3i>> loops; }; // first counter-clockwise, others clockwise
inline std::string show(const Dom& d) { std::string s; for (auto& l : d.loops) { s += "["; for (auto& v : l) s += strf("(%lld,%lld)", (long long)v.x, (long long)v.y); s += "]"; } return s; }
inline double domArea(const Dom& d) { double s = 0; for (auto& l : d.loops) s += area2x2(l) / 2.0; return s; }
// all simple counter-clockwise polygons with k vertices among the points, the first vertex being the smallest
inline void polygons(const std::vector<V3i>& pts, int k, bool straight, const std::function<void(const std::vector<V3i>&)>& f) {
    std::vector<int> c; std::vector<bool> used(pts.size());
    std::function<void()> go = [&]() {
        if ((int)c.size() == k) { std::vector<V3i> p; for (int i : c) p.push_back(pts[i]); if (area2x2(p) > 0 && simple2(p, straight)) f(p); return; }
        for (int i = 0; i < (int)pts.size(); ++i) { if (used[i] || (!c.empty() && i < c[0])) continue; used[i] = true; c.push_back(i); go(); c.pop_back(); used[i] = false; } };
    go();
}
// scheme 0: consecutive numbers from 0; 1: shifted and descending numbers; 2: edges stored in interleaved order
inline Mesh edgeMesh(const Dom& d, int scheme, double sc = 1, double ox = 0, double oy = 0) {
    MD m; for (auto& l : d.loops) { int b = m.p.size(), n = l.size(); for (auto& v : l) m.p.push_back(P3(ox + sc * v.x, oy + sc * v.y, 0)); for (int i = 0; i < n; ++i) m.e.push_back({ET_BEAM, {b + i, b + (i + 1) % n}}); }
    return mkMeshN(m, scheme);
}
typedef std::array<long long, 2> Key;
inline Key keyOf(const P3& p) { return {llround(p.x() * 1e7), llround(p.y() * 1e7)}; }
typedef std::map<std::pair<Key, Key>, int> Edges;
inline void addEdge(Edges& E, const P3& a, const P3& b) { Key p = keyOf(a), q = keyOf(b); if (E.count({q, p})) { if (!--E[{q, p}]) E.erase({q, p}); } else ++E[{p, q}]; }
inline Edges edgesOf(const Mesh& m) { Edges E; for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); addEdge(E, m.node(e.nodeId(0)), m.node(e.nodeId(1))); } return E; }
// elements positively oriented, boundary exactly the given oriented edges: then every point of the domain is covered exactly once
inline bool tiles(const Mesh& m, const Edges& want, double area, std::string& why, bool quads = false, double lim = 1e-9) {
    Edges E; double s = 0; std::set<int> used;
    for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); int n = e.nbNodeIds();
        if (!(e.elementType() == ET_TRIANGLE && n == 3) && !(quads && e.elementType() == ET_QUADRILATERAL && n == 4)) { why = strf("element %d is not a triangle", m.elementId(i)); return false; }
        std::vector<P3> p; for (int k = 0; k < n; ++k) { p.push_back(m.node(e.nodeId(k))); used.insert(e.nodeId(k)); if (std::fabs(p[k].z()) > 1e-9) { why = "not planar"; return false; } }
        for (int k = 0; k < n; ++k) { auto &a = p[k], &b = p[(k + 1) % n], &c = p[(k + 2) % n]; double t = (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x());
            if (!(t > (n == 3 ? lim : -1e-9))) { why = strf("element %d has a corner of area %g", m.elementId(i), t / 2); return false; } addEdge(E, a, b); }
        double t = 0; for (int k = 0; k < n; ++k) t += p[k].x() * p[(k + 1) % n].y() - p[k].y() * p[(k + 1) % n].x(); s += t / 2; }
    if (E != want) { why = "boundary differs"; return false; }
    if (std::fabs(s - area) > 1e-7 * (1 + area)) { why = strf("area %.9g instead of %.9g", s, area); return false; }
    return true;
}
