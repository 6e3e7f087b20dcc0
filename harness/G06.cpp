// Bounding boxes: tightness over shapes and set-theoretic predicates.
#include "geo.hpp"
#include "GeoCircle.hpp"
#include "GeoSphere.hpp"
#include "MshMesh.hpp"
using namespace ENigMA::mesh;
struct IB { V3i lo, hi; };
static std::vector<IB> boxes(int n) { std::vector<IB> r; for (auto& a : lattice(n, n, n)) for (auto& b : lattice(n, n, n)) if (a.x <= b.x && a.y <= b.y && a.z <= b.z) r.push_back({a, b}); return r; }
static bool isBox(CGeoBoundingBox<R>& b, const std::vector<P3>& p, double tol = 0) {
    for (int k = 0; k < 3; ++k) { double lo = 1e300, hi = -1e300; for (auto& q : p) { lo = std::min(lo, q[k]); hi = std::max(hi, q[k]); }
        if (std::fabs(b.min()[k] - lo) > tol || std::fabs(b.max()[k] - hi) > tol) return false; }
    return true;
}
static std::string sb(CGeoBoundingBox<R>& b) { return strf("[%g %g %g | %g %g %g]", b.min().x(), b.min().y(), b.min().z(), b.max().x(), b.max().y(), b.max().z()); }

SECTION("pairs", "every ordered pair of boxes of a 3x3x3 lattice (216^2, degenerate ones included): intersects, contains box, symmetry, tolerances on both sides of the gap") {
    auto B = boxes(2);
    for (size_t i = 0; i < B.size(); ++i) {
        if (!r.next([&] { return "box " + show(std::vector<V3i>{B[i].lo, B[i].hi}) + " against all"; })) continue;
        for (auto& c : B) {
            auto& a = B[i];
            CGeoBoundingBox<R> x(a.lo.x, a.lo.y, a.lo.z, a.hi.x, a.hi.y, a.hi.z), y(c.lo.x, c.lo.y, c.lo.z, c.hi.x, c.hi.y, c.hi.z);
            ll gap = std::max({c.lo.x - a.hi.x, a.lo.x - c.hi.x, c.lo.y - a.hi.y, a.lo.y - c.hi.y, c.lo.z - a.hi.z, a.lo.z - c.hi.z}); // <=0: meet
            for (double t : {0.0, 0.5, 1.0, 1.5, 2.0}) {
                bool want = gap <= t; r.op(2);
                r.expect(x.intersects(y, t) == want, "intersects", "other [%s %s] tol %g want %d", show(std::vector<V3i>{c.lo}).c_str(), show(std::vector<V3i>{c.hi}).c_str(), t, want);
                r.expect(x.intersects(y, t) == y.intersects(x, t), "symmetry");
                bool in = a.lo.x - t <= c.lo.x && a.lo.y - t <= c.lo.y && a.lo.z - t <= c.lo.z && c.hi.x <= a.hi.x + t && c.hi.y <= a.hi.y + t && c.hi.z <= a.hi.z + t;
                r.expect(x.contains(y, t) == in, "contains-box", "other [%s %s] tol %g want %d", show(std::vector<V3i>{c.lo}).c_str(), show(std::vector<V3i>{c.hi}).c_str(), t, in);
                r.outcome(want + 2 * in);
            }
            r.expect(x.intersects(y) == (gap <= 0), "intersects-default"); r.op();
        }
        for (auto& p : lattice(8, 8, 8)) {
            auto& a = B[i]; P3 q(p.x * .5 - 1, p.y * .5 - 1, p.z * .5 - 1); CGeoBoundingBox<R> x(a.lo.x, a.lo.y, a.lo.z, a.hi.x, a.hi.y, a.hi.z);
            for (double t : {0.0, 0.5, 0.75}) { bool in = true; const ll lo[3] = {a.lo.x, a.lo.y, a.lo.z}, hi[3] = {a.hi.x, a.hi.y, a.hi.z}; for (int k = 0; k < 3; ++k) in &= q[k] >= lo[k] - t && q[k] <= hi[k] + t;
                r.expect(x.contains(q, t) == in, "contains-point", "point (%g %g %g) tol %g want %d", q.x(), q.y(), q.z(), t, in); r.op(); r.outcome(in + 8); }
        }
        r.state(Hash().add(i)); r.trace();
    }
}
SECTION("grow-shrink", "every box of the lattice x growths (uniform, per axis) in sequences of depth 3: amounts, restoration, then adding points") {
    auto B = boxes(2); double am[] = {0.5, 2, 0.25};
    for (auto& a : B) sequences(3, 5, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "box " + show(std::vector<V3i>{a.lo, a.hi}) + " ops " + show(s) + " (0 grow .5,1 shrink .25,2 grow(1,0,2),3 grow 2 then shrink 2,4 add point)"; })) return;
        CGeoBoundingBox<R> x(a.lo.x, a.lo.y, a.lo.z, a.hi.x, a.hi.y, a.hi.z); double lo[3] = {(double)a.lo.x, (double)a.lo.y, (double)a.lo.z}, hi[3] = {(double)a.hi.x, (double)a.hi.y, (double)a.hi.z};
        Hash h;
        for (int o : s) {
            switch (o) {
                case 0: x.grow(.5); for (int k = 0; k < 3; ++k) lo[k] -= .5, hi[k] += .5; break;
                case 1: x.shrink(.25); for (int k = 0; k < 3; ++k) lo[k] += .25, hi[k] -= .25; break;
                case 2: x.grow(1, 0, 2); lo[0] -= 1; hi[0] += 1; lo[2] -= 2; hi[2] += 2; break;
                case 3: x.grow(2); x.shrink(2); break;
                case 4: x.addCoordinate(P3(-1, 3, .5)); lo[0] = std::min(lo[0], -1.); hi[0] = std::max(hi[0], -1.); lo[1] = std::min(lo[1], 3.); hi[1] = std::max(hi[1], 3.); lo[2] = std::min(lo[2], .5); hi[2] = std::max(hi[2], .5); break;
            }
            r.op(); bool ok = true; for (int k = 0; k < 3; ++k) ok &= x.min()[k] == lo[k] && x.max()[k] == hi[k];
            r.expect(ok, "box", "got %s", sb(x).c_str());
            CGeoBoundingBox<R> y = x; r.expect(y.intersects(x) == (lo[0] <= hi[0] && lo[1] <= hi[1] && lo[2] <= hi[2]), "self");
            h.add(o); r.state(Hash(h).add(a.lo.x + 3 * a.lo.y + 9 * a.lo.z).add(a.hi.x + 3 * a.hi.y + 9 * a.hi.z)); r.outcome(Hash().addd(lo[0]).addd(hi[2]));
        }
        r.trace();
    });
}
SECTION("add-points", "every sequence of up to 4 points of a 2x2x2 lattice scaled by +/-, starting from a fresh or a reset box") {
    auto L = lattice(1, 1, 1);
    for (int n = 1; n <= 4; ++n) sequences(n, 8, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "points " + show(s); })) return;
        for (int m = 0; m < 3; ++m) {
            double sc = m == 0 ? 1 : m == 1 ? -3 : 0.1; std::vector<P3> p; CGeoBoundingBox<R> b;
            if (m == 1) { b.addCoordinate(P3(100, -100, 7)); b.reset(); }
            for (int i : s) { P3 q(L[i].x * sc + 5 * m, L[i].y * sc - 7, L[i].z * sc * 2); p.push_back(q); b.addCoordinate(q); r.op(); r.expect(isBox(b, p), "tight", "got %s", sb(b).c_str()); for (auto& z : p) r.expect(b.contains(z), "contains-own"); }
        }
        Hash h; for (int i : s) h.add(i); r.state(h); r.trace();
    });
}
// shapes
template <class S> static void boxOf(Run& r, S& s, std::vector<P3> v, const char* tag) {
    s.calculateBoundingBox(); r.op(); r.expect(isBox(s.boundingBox(), v), tag, "got %s", sb(s.boundingBox()).c_str());
    s.calculateBoundingBox(true); r.op(); r.expect(isBox(s.boundingBox(), v), (std::string(tag) + "-again").c_str(), "got %s", sb(s.boundingBox()).c_str());
}
SECTION("segments-triangles", "all ordered pairs and triples of points of a 3x3x3 lattice, moved across the origin; recomputation after the shape was changed") {
    auto L = lattice(2, 2, 2); V3i off(-1, -5, 3);
    for (auto& a : L) for (auto& b : L) {
        if (!r.next([&] { return "points " + show(std::vector<V3i>{a, b}) + " and every third"; })) continue;
        V3i A = a + off, B = b + off;
        CGeoLine<R> l(C(A), C(B)); boxOf(r, l, {C(A), C(B)}, "line");
        l.setEndPoint(C(B * 2)); l.calculateBoundingBox(true); r.expect(isBox(l.boundingBox(), {C(A), C(B * 2)}), "line-moved");
        for (auto& c : L) { V3i Cc = c + off; CGeoTriangle<R> t; t.addVertex(C(A)); t.addVertex(C(B)); t.addVertex(C(Cc)); boxOf(r, t, {C(A), C(B), C(Cc)}, "triangle");
            t.reset(); t.addVertex(C(Cc * 2)); t.addVertex(C(A)); t.addVertex(C(B)); t.calculateBoundingBox(true); r.expect(isBox(t.boundingBox(), {C(Cc * 2), C(A), C(B)}), "triangle-reused"); }
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z)); r.trace();
    }
}
SECTION("quads-tets", "all ordered 4-tuples of a 2x2x2 lattice (stretched and moved) as quadrilateral and tetrahedron") {
    auto L = lattice(1, 1, 1);
    sequences(4, 8, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "vertices " + show(s); })) return;
        std::vector<P3> v; for (int i : s) v.push_back(P3(L[i].x * 3 - 1, L[i].y * -2 + .5, L[i].z - 7)); v[1].x() += .5; v[2].y() -= 4; v[3].z() += 9;
        CGeoQuadrilateral<R> q; CGeoTetrahedron<R> t; for (auto& p : v) { q.addVertex(p); t.addVertex(p); }
        boxOf(r, q, v, "quadrilateral"); boxOf(r, t, v, "tetrahedron"); Hash h; for (int i : s) h.add(i); r.state(h); r.trace();
    });
}
SECTION("polyhedra", "ten bodies x two placements, and every plane-clipped part (27 directions x 9 offsets)") {
    for (auto& b : bodies()) for (int pl = 0; pl < 2; ++pl) for (auto& n : lattice(2, 2, 2)) for (int d = -4; d <= 4; ++d) {
        V3i nn = n - V3i(1, 1, 1); if (nn.n2() == 0) continue;
        if (!r.next([&] { return b.name + strf(" placement %d plane ", pl) + show(std::vector<V3i>{nn}) + strf(" d=%d/2", d); })) continue;
        auto h = mkBody(b, pl ? 1.0 / 3 : 1, P3(pl * 2, -pl, 0)); std::vector<P3> v; for (auto& x : b.v) v.push_back(C(x, pl ? 1.0 / 3 : 1, P3(pl * 2, -pl, 0)));
        boxOf(r, h, v, "polyhedron");
        CGeoPlane<R> P(CGeoNormal<R>(nn.x, nn.y, nn.z), d * .5 / nn.n()); CGeoPolygon<R> cap; auto c = h.clip(cap, 99, P, 1e-9); std::vector<P3> w;
        for (int i = 0; i < c.nbPolygons(); ++i) { auto& g = c.polygon(c.polygonId(i)).polyline(); for (int k = 0; k < g.nbVertices(); ++k) w.push_back(g.vertex(k)); }
        if (w.size()) boxOf(r, c, w, "clipped");
        r.state(Hash().adds(b.name).add(pl).add(nn.x + 5).add(nn.y + 5).add(nn.z + 5).add(d + 9)); r.outcome(w.size()); r.trace();
    }
}
SECTION("round", "circles and spheres: 27 centres x 5 radii, boxes of centre-radius shapes and of shapes through points") {
    for (auto& c : lattice(2, 2, 2)) for (double R0 : {0.0, 0.5, 1.0, 3.0, 10.0}) {
        if (!r.next([&] { return "centre " + show(std::vector<V3i>{c}) + strf(" radius %g", R0); })) continue;
        P3 m(c.x * 2 - 1, c.y - 1, c.z * 3 - 4);
        CGeoCircle<R> k(m, R0); boxOf(r, k, {P3(m.x() - R0, m.y() - R0, m.z()), P3(m.x() + R0, m.y() + R0, m.z())}, "circle");
        CGeoSphere<R> s(m, R0); boxOf(r, s, {P3(m.x() - R0, m.y() - R0, m.z() - R0), P3(m.x() + R0, m.y() + R0, m.z() + R0)}, "sphere");
        if (R0 > 0) {
            CGeoSphere<R> s4(m + P3(R0, 0, 0), m + P3(-R0, 0, 0), m + P3(0, R0, 0), m + P3(0, 0, R0)); s4.calculateBoundingBox();
            r.expect(isBox(s4.boundingBox(), {P3(m.x() - R0, m.y() - R0, m.z() - R0), P3(m.x() + R0, m.y() + R0, m.z() + R0)}, 1e-9), "sphere4");
            CGeoCircle<R> k3(m + P3(R0, 0, 0), m + P3(-R0, 0, 0), m + P3(0, R0, 0)); k3.calculateBoundingBox();
            r.expect(isBox(k3.boundingBox(), {P3(m.x() - R0, m.y() - R0, m.z()), P3(m.x() + R0, m.y() + R0, m.z())}, 1e-9), "circle3"); }
        r.state(Hash().add(c.x + 3 * c.y + 9 * c.z).addd(R0)); r.trace();
    }
}
SECTION("meshes", "every pair of triangles with vertices in a 2x2x2 lattice plus an unused node, arbitrary ids: element boxes and the mesh box") {
    auto L = lattice(1, 1, 1);
    combinations(8, 3, [&](const std::vector<int>& a) { combinations(8, 3, [&](const std::vector<int>& b) {
        if (!r.next([&] { return "triangles " + show(a) + show(b); })) return;
        CMshMesh<R> m; std::vector<P3> all; auto at = [&](int i) { return P3(L[i].x * 4 - 1 + i * .25, L[i].y * 3 - 2 - i * .125, L[i].z * 2 - i); };
        std::set<int> u(a.begin(), a.end()); u.insert(b.begin(), b.end());
        for (int i : u) { CMshNode<R> n(at(i).x(), at(i).y(), at(i).z()); m.addNode(i * 13 + 5, n); all.push_back(at(i)); }
        int eid = 70; for (auto* t : {&a, &b}) { CMshElement<R> e(ET_TRIANGLE); for (int i : *t) e.addNodeId(i * 13 + 5); m.addElement(eid, e); eid = 3; }
        auto bx = m.boundingBox(); r.expect(isBox(bx, all), "mesh", "%s", sb(bx).c_str());
        auto b1 = m.boundingBox(70), b2 = m.boundingBox(3); r.op(3);
        r.expect(isBox(b1, {at(a[0]), at(a[1]), at(a[2])}), "element"); r.expect(isBox(b2, {at(b[0]), at(b[1]), at(b[2])}), "element2");
        Hash h; for (int i : a) h.add(i); for (int i : b) h.add(i); r.state(h); r.trace();
    }); });
}
