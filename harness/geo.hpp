#pragma once
#include "vk.hpp"
#include "GeoCoordinate.hpp"
#include "GeoLine.hpp"
#include "GeoLineList.hpp"
#include "GeoPolyline.hpp"
#include "GeoTriangle.hpp"
#include "GeoQuadrilateral.hpp"
#include "GeoPolygon.hpp"
#include "GeoTetrahedron.hpp"
#include "GeoTriangularPrism.hpp"
#include "GeoHexahedron.hpp"
#include "GeoPolyhedron.hpp"
using namespace vk;
using namespace ENigMA::geometry;
typedef double R;
typedef CGeoCoordinate<R> P3;
inline P3 C(const V3i& a) { return P3((R)a.x, (R)a.y, (R)a.z); }
inline P3 C(const V3i& a, double s, const P3& t) { P3 p((R)a.x * s + t.x(), (R)a.y * s + t.y(), (R)a.z * s + t.z()); return p; }
inline bool nearP(const P3& a, double x, double y, double z, double tol = 1e-9) { return near(a.x(), x, tol) && near(a.y(), y, tol) && near(a.z(), z, tol); }
template <class N> inline bool nearV(const N& a, double x, double y, double z, double tol = 1e-9) { return near(a.x(), x, tol) && near(a.y(), y, tol) && near(a.z(), z, tol); }

// planes used to embed planar lattice figures in space; each maps (u,v) linearly
struct Emb { V3i o, e1, e2; const char* name; V3i at(const V3i& p) const { return o + e1 * p.x + e2 * p.y; } };
inline const std::vector<Emb>& embeddings() {
    static std::vector<Emb> e = {
        {{0,0,0},{1,0,0},{0,1,0},"xy"}, {{0,0,0},{0,1,0},{0,0,1},"yz"}, {{0,0,0},{0,0,1},{1,0,0},"zx"},
        {{1,-2,3},{1,0,1},{0,1,1},"tilt1"}, {{0,0,0},{0,1,-1},{2,1,0},"tilt2"}, {{-1,0,2},{1,1,0},{-1,1,1},"tilt3"},
        {{0,0,0},{0,1,0},{1,0,0},"yx"}, {{0,0,0},{1,0,0},{0,0,1},"xz"} };
    return e;
}
inline ll cross2(const V3i& a, const V3i& b, const V3i& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
inline bool onSeg2(const V3i& a, const V3i& b, const V3i& p) {
    return cross2(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool segInt2(const V3i& a, const V3i& b, const V3i& c, const V3i& d) { // closed segments intersect
    auto sg = [](ll v) { return (v > 0) - (v < 0); };
    int o1 = sg(cross2(a, b, c)), o2 = sg(cross2(a, b, d)), o3 = sg(cross2(c, d, a)), o4 = sg(cross2(c, d, b));
    if (o1 != o2 && o3 != o4 && o1 * o2 <= 0 && o3 * o4 <= 0 && (o1 || o2) && (o3 || o4)) return true;
    return onSeg2(a, b, c) || onSeg2(a, b, d) || onSeg2(c, d, a) || onSeg2(c, d, b);
}
// simple polygon without zero-length sides and without straight corners (unless allowed)
inline bool simple2(const std::vector<V3i>& p, bool allowStraight) {
    int n = p.size();
    for (int i = 0; i < n; ++i) {
        ll c = cross2(p[i], p[(i + 1) % n], p[(i + 2) % n]);
        if (c == 0) {
            if (!allowStraight) return false;
            V3i u = p[(i + 1) % n] - p[i], v = p[(i + 2) % n] - p[(i + 1) % n];
            if (u.dot(v) <= 0) return false;
        }
    }
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) {
            if (j == i + 1 || (i == 0 && j == n - 1)) continue;
            if (segInt2(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false;
        }
    return true;
}
inline ll area2x2(const std::vector<V3i>& p) { ll s = 0; int n = p.size(); for (int i = 0; i < n; ++i) s += p[i].x * p[(i + 1) % n].y - p[(i + 1) % n].x * p[i].y; return s; }
inline bool convex2(const std::vector<V3i>& p) { int n = p.size(); int pos = 0, neg = 0; for (int i = 0; i < n; ++i) { ll c = cross2(p[i], p[(i + 1) % n], p[(i + 2) % n]); if (c > 0) ++pos; if (c < 0) ++neg; } return !(pos && neg); }

inline CGeoPolygon<R> mkPoly(const std::vector<P3>& v) {
    CGeoPolyline<R> pl; for (auto& p : v) pl.addVertex(p); pl.close();
    CGeoPolygon<R> g; g.setPolyline(pl); return g;
}
inline CGeoPolygon<R> mkPoly(const std::vector<V3i>& v) { std::vector<P3> q; for (auto& p : v) q.push_back(C(p)); return mkPoly(q); }

// A closed polyhedron given by lattice vertices and outward faces.
struct Body { std::string name; std::vector<V3i> v; std::vector<std::vector<int>> f; };
inline ll vol6(const Body& b) { ll s = 0; for (auto& f : b.f) for (size_t i = 1; i + 1 < f.size(); ++i) s += det3(b.v[f[0]], b.v[f[i]], b.v[f[i + 1]]); return s; }
inline CGeoPolyhedron<R> mkBody(const Body& b, double s = 1, P3 t = P3(0, 0, 0)) {
    CGeoPolyhedron<R> h; int k = 0; // face identifiers are neither consecutive nor ascending
    for (auto& f : b.f) { std::vector<P3> q; for (int i : f) q.push_back(C(b.v[i], s, t)); CGeoPolygon<R> g = mkPoly(q); h.addPolygon(20 + (5 * k++ + 3) % 11, g); }
    return h;
}
inline Body mkHex(const std::string& n, const V3i& o, const V3i& a, const V3i& b, const V3i& c) { // parallelepiped, det(a,b,c)>0
    Body B; B.name = n;
    B.v = {o, o + a, o + a + b, o + b, o + c, o + a + c, o + a + b + c, o + b + c};
    B.f = {{3, 2, 1, 0}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    return B;
}
inline std::vector<Body> bodies() {
    std::vector<Body> r;
    r.push_back(mkHex("cube", {0,0,0}, {2,0,0}, {0,2,0}, {0,0,2}));
    r.push_back(mkHex("box", {-1,0,1}, {3,0,0}, {0,1,0}, {0,0,2}));
    r.push_back(mkHex("sheared", {0,0,0}, {2,0,0}, {1,2,0}, {0,1,2}));
    r.push_back(mkHex("sheared2", {0,0,0}, {1,1,0}, {-1,1,0}, {1,0,2}));
    { Body b; b.name = "tet"; b.v = {{0,0,0},{2,0,0},{0,2,0},{0,0,2}}; b.f = {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}; r.push_back(b); }
    { Body b; b.name = "tet2"; b.v = {{0,0,0},{2,0,1},{0,3,0},{1,1,2}}; b.f = {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}; r.push_back(b); }
    { Body b; b.name = "prism"; b.v = {{0,0,0},{2,0,0},{0,2,0},{0,0,2},{2,0,2},{0,2,2}}; b.f = {{2,1,0},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}}; r.push_back(b); }
    { Body b; b.name = "pyramid"; b.v = {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2}}; b.f = {{3,2,1,0},{0,1,4},{1,2,4},{2,3,4},{3,0,4}}; r.push_back(b); }
    { Body b; b.name = "octahedron"; b.v = {{2,0,0},{-2,0,0},{0,2,0},{0,-2,0},{0,0,2},{0,0,-2}}; b.f = {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}; r.push_back(b); }
    { Body b; b.name = "frustum"; b.v = {{0,0,0},{4,0,0},{4,4,0},{0,4,0},{1,1,2},{3,1,2},{3,3,2},{1,3,2}}; b.f = {{3,2,1,0},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}; r.push_back(b); }
    return r;
}

// ---- exact-enough reference for convex bodies: list of faces with double vertices (long double arithmetic) ----
typedef long double LD;
struct V3l { LD x, y, z; };
inline V3l operator-(const V3l& a, const V3l& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3l operator+(const V3l& a, const V3l& b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3l operator*(const V3l& a, LD k) { return {a.x * k, a.y * k, a.z * k}; }
inline LD dot(const V3l& a, const V3l& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3l cross(const V3l& a, const V3l& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD norm(const V3l& a) { return sqrtl(dot(a, a)); }
inline V3l toL(const V3i& a) { return {(LD)a.x, (LD)a.y, (LD)a.z}; }
inline V3l toL(const P3& a) { return {(LD)a.x(), (LD)a.y(), (LD)a.z()}; }
typedef std::vector<std::vector<V3l>> Faces;
inline Faces facesOf(const Body& b) { Faces F; for (auto& f : b.f) { std::vector<V3l> q; for (int i : f) q.push_back(toL(b.v[i])); F.push_back(q); } return F; }
// volume of {x in convex body : n.x <= d}: sum of divergence-theorem pyramids over clipped faces from an apex ON the cut plane
inline std::vector<V3l> clipFaceL(const std::vector<V3l>& q, const V3l& n, LD d) {
    std::vector<V3l> o; int m = q.size();
    for (int i = 0; i < m; ++i) {
        LD a = dot(n, q[i]) - d, b = dot(n, q[(i + 1) % m]) - d;
        if (a <= 0) o.push_back(q[i]);
        if ((a < 0 && b > 0) || (a > 0 && b < 0)) o.push_back(q[i] + (q[(i + 1) % m] - q[i]) * (a / (a - b)));
    }
    return o;
}
inline LD clippedVolume(const Faces& F, const V3l& n, LD d) {
    V3l ap = n * (d / dot(n, n)); // point of the cut plane: the cap contributes nothing
    LD s = 0;
    for (auto& f : F) { auto q = clipFaceL(f, n, d); for (size_t i = 1; i + 1 < q.size(); ++i) s += dot(q[0] - ap, cross(q[i] - ap, q[i + 1] - ap)); }
    return s / 6;
}
inline LD polyAreaL(const std::vector<V3l>& q) { V3l s = {0, 0, 0}; for (size_t i = 1; i + 1 < q.size(); ++i) s = s + cross(q[i] - q[0], q[i + 1] - q[0]); return norm(s) / 2; }

// closedness of a library polyhedron: sum of area vectors is zero and every directed edge is matched (up to tol)
inline bool closedPolyhedron(CGeoPolyhedron<R>& h, double tol, std::string& why) {
    std::vector<std::pair<P3, P3>> e; double sx = 0, sy = 0, sz = 0;
    for (int i = 0; i < h.nbPolygons(); ++i) {
        CGeoPolyline<R>& pl = h.polygon(h.polygonId(i)).polyline(); int n = pl.nbVertices();
        if (n < 4) { why = "face with too few vertices"; return false; }
        if ((pl.vertex(0) - pl.vertex(n - 1)).norm() > tol) { why = "open face"; return false; }
        for (int k = 0; k + 1 < n; ++k) { P3 a = pl.vertex(k), b = pl.vertex(k + 1); if ((a - b).norm() > tol) e.push_back({a, b});
            sx += (a.y() * b.z() - a.z() * b.y()); sy += (a.z() * b.x() - a.x() * b.z()); sz += (a.x() * b.y() - a.y() * b.x()); }
    }
    if (std::fabs(sx) + std::fabs(sy) + std::fabs(sz) > 100 * tol) { why = strf("area vectors sum to (%g %g %g)", sx / 2, sy / 2, sz / 2); return false; }
    std::vector<char> used(e.size(), 0);
    for (size_t i = 0; i < e.size(); ++i) {
        if (used[i]) continue; bool ok = false;
        for (size_t j = 0; j < e.size(); ++j) if (j != i && !used[j] && (e[i].first - e[j].second).norm() <= 10 * tol && (e[i].second - e[j].first).norm() <= 10 * tol) { used[i] = used[j] = 1; ok = true; break; }
        if (!ok) { why = strf("edge (%g %g %g)-(%g %g %g) unmatched", e[i].first.x(), e[i].first.y(), e[i].first.z(), e[i].second.x(), e[i].second.y(), e[i].second.z()); return false; }
    }
    return true;
}
