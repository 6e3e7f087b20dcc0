// Mesh helpers shared by the mesh drivers.
#pragma once
#include "geo.hpp"
#include "MshMesh.hpp"
using namespace ENigMA::mesh;
typedef CMshMesh<R> Mesh;
inline int nbOf(EElementType t) { switch (t) { case ET_BEAM: return 2; case ET_TRIANGLE: return 3; case ET_QUADRILATERAL: return 4; case ET_TETRAHEDRON: return 4; case ET_TRIANGULAR_PRISM: return 6; case ET_HEXAHEDRON: return 8; default: return 0; } }
inline const char* nameOf(EElementType t) { switch (t) { case ET_BEAM: return "beam"; case ET_TRIANGLE: return "triangle"; case ET_QUADRILATERAL: return "quadrilateral"; case ET_TETRAHEDRON: return "tetrahedron"; case ET_TRIANGULAR_PRISM: return "prism"; case ET_HEXAHEDRON: return "hexahedron"; default: return "none"; } }
// sides of an element as vertex positions (reference knowledge, independent of the library)
inline std::vector<std::vector<int>> sidesOf(EElementType t) {
    switch (t) {
    case ET_BEAM: return {{0}, {1}};
    case ET_TRIANGLE: return {{0, 1}, {1, 2}, {2, 0}};
    case ET_QUADRILATERAL: return {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    case ET_TETRAHEDRON: return {{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {0, 2, 3}};
    case ET_TRIANGULAR_PRISM: return {{0, 1, 2}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}};
    case ET_HEXAHEDRON: return {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    default: return {}; }
}
// canonical form of a cyclic node list: rotation and direction removed
inline std::vector<int> cyc(std::vector<int> v) {
    if (v.size() < 3) { std::sort(v.begin(), v.end()); return v; }
    std::vector<int> best; for (int d = 0; d < 2; ++d) { for (size_t i = 0; i < v.size(); ++i) { if (best.empty() || v < best) best = v; std::rotate(v.begin(), v.begin() + 1, v.end()); } std::reverse(v.begin(), v.end()); }
    return best;
}
inline std::vector<int> rotMin(std::vector<int> v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; }
inline std::vector<int> nodesOf(const CMshElement<R>& e) { std::vector<int> v; for (int i = 0; i < e.nbNodeIds(); ++i) v.push_back(e.nodeId(i)); return v; }
inline std::vector<int> nodesOf(const CMshFace<R>& e) { std::vector<int> v; for (int i = 0; i < e.nbNodeIds(); ++i) v.push_back(e.nodeId(i)); return v; }
inline std::vector<int> sideNodes(const CMshElement<R>& e, const std::vector<int>& s) { std::vector<int> v; for (int i : s) v.push_back(e.nodeId(i)); return v; }
inline CMshElement<R> mkElem(EElementType t, const std::vector<int>& n) { CMshElement<R> e; e.setElementType(t); for (int i : n) e.addNodeId(i); return e; }

// A mesh description: points, elements over point numbers.
struct MD { std::string name; std::vector<P3> p; std::vector<std::pair<EElementType, std::vector<int>>> e; };
// positive measure (length, area, volume); independent of the library's code
inline double triArea(const P3& a, const P3& b, const P3& c) { return norm(cross(toL(b) - toL(a), toL(c) - toL(a))) / 2; }
inline LD tetVol(const P3& a, const P3& b, const P3& c, const P3& d) { return dot(toL(b) - toL(a), cross(toL(c) - toL(a), toL(d) - toL(a))) / 6; }
// signed volume by the divergence theorem with quadrilateral sides as bilinear patches (four-triangle average), orientation as in sidesOut
inline LD closedVol(const std::vector<std::vector<P3>>& faces) {
    LD s = 0; for (auto& f : faces) { if (f.size() == 3) s += dot(toL(f[0]), cross(toL(f[1]), toL(f[2]))); else if (f.size() == 4) { auto T = [&](int a, int b, int c) { return dot(toL(f[a]), cross(toL(f[b]), toL(f[c]))); }; s += (T(0, 1, 2) + T(0, 2, 3) + T(0, 1, 3) + T(1, 2, 3)) / 2; } }
    return s / 6;
}
// signed measure: beams length, surface elements area vector norm, solids signed volume in the library's convention
// (tetrahedron 0,1,2 seen counter-clockwise from outside..., i.e. positive for the meshers' orientation)
inline double measure(EElementType t, const std::vector<P3>& v) {
    auto at = [&](std::initializer_list<int> l) { std::vector<P3> q; for (int i : l) q.push_back(v[i]); return q; };
    switch (t) {
    case ET_BEAM: return norm(toL(v[1]) - toL(v[0]));
    case ET_TRIANGLE: return triArea(v[0], v[1], v[2]);
    case ET_QUADRILATERAL: return norm(cross(toL(v[2]) - toL(v[0]), toL(v[3]) - toL(v[1]))) / 2;
    case ET_TETRAHEDRON: return -tetVol(v[0], v[1], v[2], v[3]);
    case ET_TRIANGULAR_PRISM: return closedVol({at({0, 1, 2}), at({5, 4, 3}), at({1, 0, 3, 4}), at({2, 1, 4, 5}), at({0, 2, 5, 3})});
    case ET_HEXAHEDRON: return closedVol({at({0, 1, 2, 3}), at({7, 6, 5, 4}), at({5, 1, 0, 4}), at({3, 2, 6, 7}), at({6, 2, 1, 5}), at({3, 7, 4, 0})});
    default: return 0; }
}
inline std::vector<P3> ptsOf(const Mesh& m, const CMshElement<R>& e) { std::vector<P3> v; for (int i = 0; i < e.nbNodeIds(); ++i) v.push_back(m.node(e.nodeId(i))); return v; }
inline double measureOf(const Mesh& m, int id) { const CMshElement<R>& e = m.element(id); return measure(e.elementType(), ptsOf(m, e)); }
inline double totalMeasure(const Mesh& m) { LD s = 0; for (int i = 0; i < m.nbElements(); ++i) s += measureOf(m, m.elementId(i)); return (double)s; }
// builds a mesh: node k gets id nid[k], element k id eid[k]; no/eo give the storage order
inline Mesh mkMesh(const MD& d, const std::vector<int>& nid, const std::vector<int>& eid, const std::vector<int>& no, const std::vector<int>& eo) {
    Mesh m; for (int k : no) m.addNode(nid[k], CMshNode<R>(d.p[k].x(), d.p[k].y(), d.p[k].z()));
    for (int k : eo) { std::vector<int> v; for (int i : d.e[k].second) v.push_back(nid[i]); m.addElement(eid[k], mkElem(d.e[k].first, v)); }
    return m;
}
inline std::vector<int> iota(int n, int a = 0, int s = 1) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = a + s * i; return v; }
inline Mesh mkMesh(const MD& d) { return mkMesh(d, iota(d.p.size()), iota(d.e.size()), iota(d.p.size()), iota(d.e.size())); }
// numbering schemes: 0 plain, 1 offset stride, 2 reversed ids, 3 scattered ids and shuffled storage order
inline Mesh mkMeshN(const MD& d, int scheme) {
    int n = d.p.size(), m = d.e.size(); auto nid = iota(n), eid = iota(m), no = iota(n), eo = iota(m);
    auto scatter = [](std::vector<int>& v, int k) { std::vector<int> q; int n = v.size(); for (int i = 0; i < n; ++i) v[i] = i; for (int i = 0; i < n; ++i) std::swap(v[i], v[(i * 7 + k) % n]); };
    if (scheme == 1) { nid = iota(n, 10, 3); eid = iota(m, 100, 2); }
    if (scheme == 2) { nid = iota(n, 3 * n, -1); eid = iota(m, 2 * m, -2); }
    if (scheme == 3) { scatter(nid, 3); scatter(eid, 5); for (int& i : nid) i = 5 * i + 2; for (int& i : eid) i = 4 * i + 7; scatter(no, 2); scatter(eo, 1); }
    return mkMesh(d, nid, eid, no, eo);
}
// structured grids (reference construction)
inline MD gridLine(int n, double L = 1) { MD d; d.name = strf("line%d", n); for (int i = 0; i <= n; ++i) d.p.push_back(P3(L * i / n, 0, 0)); for (int i = 0; i < n; ++i) d.e.push_back({ET_BEAM, {i, i + 1}}); return d; }
inline MD gridQuad(int nx, int ny, double dx, double dy, int split) { // split 0 quads, 1 triangles, 2 mixed
    MD d; d.name = strf("%s%dx%d", split == 0 ? "quads" : split == 1 ? "triangles" : "mixed", nx, ny); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) d.p.push_back(P3(i * dx, j * dy, 0));
    auto N = [&](int i, int j) { return i + j * (nx + 1); };
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int a = N(i, j), b = N(i + 1, j), c = N(i + 1, j + 1), e = N(i, j + 1); bool tri = split == 1 || (split == 2 && (i + j) % 2);
        if (!tri) d.e.push_back({ET_QUADRILATERAL, {a, b, c, e}}); else if ((i + 2 * j) % 3) { d.e.push_back({ET_TRIANGLE, {a, b, c}}); d.e.push_back({ET_TRIANGLE, {a, c, e}}); } else { d.e.push_back({ET_TRIANGLE, {a, b, e}}); d.e.push_back({ET_TRIANGLE, {b, c, e}}); } }
    return d; }
inline MD gridHex(int nx, int ny, int nz, double dx, double dy, double dz, int split) { // 0 hexahedra, 1 tetrahedra (six per cell), 2 prisms, 3 hexahedra and prisms alternating along x
    MD d; d.name = strf("%s%dx%dx%d", split == 0 ? "hexes" : split == 1 ? "tets" : split == 2 ? "prisms" : "hexprism", nx, ny, nz); for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) d.p.push_back(P3(i * dx, j * dy, k * dz));
    auto N = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int c[8]; for (int q = 0; q < 8; ++q) c[q] = N(i + (q & 1), j + ((q >> 1) & 1), k + ((q >> 2) & 1));
        // library orientation: first face is the top one (counter-clockwise seen from above)
        if (split == 0 || (split == 3 && i % 2 == 0)) d.e.push_back({ET_HEXAHEDRON, {c[4], c[5], c[7], c[6], c[0], c[1], c[3], c[2]}});
        else if (split == 2 || split == 3) { d.e.push_back({ET_TRIANGULAR_PRISM, {c[4], c[5], c[7], c[0], c[1], c[3]}}); d.e.push_back({ET_TRIANGULAR_PRISM, {c[4], c[7], c[6], c[0], c[3], c[2]}}); }
        else { int perm[6][3] = {{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}}; for (auto& p : perm) { int a = 0, b = a | p[0], e = b | p[1], f = 7; P3 A = d.p[c[a]], B = d.p[c[b]], E = d.p[c[e]], F = d.p[c[f]]; if (tetVol(A, B, E, F) < 0) d.e.push_back({ET_TETRAHEDRON, {c[a], c[b], c[e], c[f]}}); else d.e.push_back({ET_TETRAHEDRON, {c[a], c[e], c[b], c[f]}}); } } }
    return d; }
inline std::vector<MD> meshCatalogue() {
    std::vector<MD> r; r.push_back(gridLine(4)); for (int s = 0; s < 3; ++s) { r.push_back(gridQuad(3, 2, 0.1, 0.3, s)); r.push_back(gridQuad(1, 1, 1, 1, s)); }
    for (int s = 0; s < 4; ++s) { r.push_back(gridHex(2, 2, 1, 0.1, 0.7, 0.3, s)); r.push_back(gridHex(1, 1, 1, 1, 1, 1, s)); r.push_back(gridHex(3, 1, 2, 1.0 / 3, 1, 0.2, s)); }
    for (auto d : std::vector<MD>(r)) { double a = 0.6, b = 0.8; MD q = d; q.name += "-rotated"; for (auto& p : q.p) { P3 o = p; p = P3(a * o.x() - b * o.y() + 0.37 + 0.05 * o.y() * o.x(), b * o.x() + a * o.y() - 1.3 + 0.2 * o.z(), o.z() + 0.11 * o.x() - 2.7); } r.push_back(q); }
    return r; }
