#include "geo.hpp"
static std::string sh(const std::vector<V3i>& p) { return show(p); }

SECTION("lines", "all ordered pairs of distinct points of a 3x3x3 lattice x setting order of the two ends x translation; mid points") {
    auto L = lattice(2, 2, 2);
    for (auto& a : L) for (auto& b : L) for (int ord = 0; ord < 4; ++ord) {
        if (a == b) continue;
        if (!r.next([&] { return "line " + sh({a, b}) + strf(" ord=%d", ord); })) continue;
        CGeoLine<R> l;
        if (ord == 0) l = CGeoLine<R>(C(a), C(b));
        else if (ord == 1) { l.setStartPoint(C(a)); l.setEndPoint(C(b)); }
        else if (ord == 2) { l.setEndPoint(C(b)); l.setStartPoint(C(a)); }
        else { l.setStartPoint(C(b)); l.setEndPoint(C(a)); l.setStartPoint(C(a)); l.setEndPoint(C(b)); l.invert(); l.invert(); }
        l.calculateLength(true); r.op(3);
        double len = (b - a).n();
        r.expect(near(l.length(), len, 1e-12), "length", "%g vs %g", l.length(), len);
        V3i d = b - a;
        r.expect(nearV(l.vector(), d.x, d.y, d.z), "vector");
        for (double t : {0.0, 0.25, 0.5, 1.0}) { P3 m = l.midPoint(t); r.expect(nearP(m, a.x + t * d.x, a.y + t * d.y, a.z + t * d.z), "midpoint", "t=%g", t); }
        l.invert(); l.calculateLength(true);
        r.expect(nearP(l.startPoint(), b.x, b.y, b.z) && nearP(l.endPoint(), a.x, a.y, a.z), "invert");
        r.expect(nearV(l.vector(), -d.x, -d.y, -d.z) && near(l.length(), len), "invert-vector");
        // reuse on the same object
        l.reset(); l.setStartPoint(C(b * 3)); l.setEndPoint(C(a)); l.calculateLength(); 
        r.expect(near(l.length(), (b * 3 - a).n()), "reuse-after-reset", "%g", l.length());
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z).add(ord)); r.outcome(Hash().addr(len)); r.trace();
    }
}

static void triCheck(Run& r, CGeoTriangle<R>& t, const V3i& a, const V3i& b, const V3i& c, bool force, const char* tag) {
    V3i n = (b - a).cross(c - a); double nn = n.n();
    t.calculateArea(force); t.calculateNormal(force); t.calculateCentroid(force); r.op(3);
    r.expect(near(t.area(), nn / 2, 1e-12), strf("area-%s", tag).c_str(), "%.17g vs %.17g", t.area(), nn / 2);
    r.expect(nearV(t.normal(), n.x / nn, n.y / nn, n.z / nn), strf("normal-%s", tag).c_str());
    r.expect(nearP(t.centroid(), (a.x + b.x + c.x) / 3.0, (a.y + b.y + c.y) / 3.0, (a.z + b.z + c.z) / 3.0), strf("centroid-%s", tag).c_str());
}
SECTION("triangles", "all ordered non-degenerate vertex triples of a 3x3x3 lattice (all cyclic starts and reversals), translated copies, and reuse of the object for the next triple") {
    auto L = lattice(2, 2, 2); V3i pa(0, 0, 0), pb(5, 0, 0), pc(0, 0, 7);
    for (auto& a : L) for (auto& b : L) for (auto& c : L) {
        if (((b - a).cross(c - a)).n2() == 0) continue;
        if (!r.next([&] { return "triangle " + sh({a, b, c}); })) continue;
        CGeoTriangle<R> t; t.addVertex(C(a)); t.addVertex(C(b)); t.addVertex(C(c));
        triCheck(r, t, a, b, c, false, "fresh");
        triCheck(r, t, a, b, c, true, "again");
        CGeoPlane<R> pl = t.getPlane();
        for (auto& q : {a, b, c}) r.expect(near(pl.distance(C(q)), 0), "plane");
        // reuse: reset and refill with a translated, cyclically shifted copy; then another shape
        V3i s(-3, 4, 1);
        t.reset(); t.addVertex(C(b + s)); t.addVertex(C(c + s)); t.addVertex(C(a + s));
        triCheck(r, t, b + s, c + s, a + s, true, "reuse");
        t.reset(); t.addVertex(C(pa)); t.addVertex(C(pb)); t.addVertex(C(pc));
        triCheck(r, t, pa, pb, pc, true, "reuse2");
        // setVertex / copies
        CGeoTriangle<R> u = t; t.setVertex(1, C(a * 2 + V3i(1, 1, 1)));
        triCheck(r, u, pa, pb, pc, true, "copy");
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z).add(c.x + 3 * c.y + 9 * c.z)); r.outcome(((b - a).cross(c - a)).n2()); r.trace();
    }
}

static void polyCheck(Run& r, CGeoPolygon<R>& g, const std::vector<V3i>& q, bool force, const std::string& tag) {
    V3i s; int n = q.size(); V3i m;
    for (int i = 0; i < n; ++i) { s = s + q[i].cross(q[(i + 1) % n]); m = m + q[i]; }
    double nn = s.n();
    g.calculateArea(force); g.calculateNormal(force); g.calculateCentroid(force); r.op(3);
    r.expect(near(g.area(), nn / 2, 1e-11), ("area-" + tag).c_str(), "%.17g vs %.17g", g.area(), nn / 2);
    r.expect(nearV(g.normal(), s.x / nn, s.y / nn, s.z / nn), ("normal-" + tag).c_str(), "(%g %g %g) vs (%g %g %g)", g.normal().x(), g.normal().y(), g.normal().z(), s.x / nn, s.y / nn, s.z / nn);
    r.expect(nearP(g.centroid(), m.x / (double)n, m.y / (double)n, m.z / (double)n), ("centroid-" + tag).c_str());
}
static void polygons(Run& r, int n, int w, bool straight, int nemb) {
    auto L = lattice(w, w, 0); int k = L.size(); std::vector<V3i> p(n);
    std::vector<int> id(n, 0);
    std::function<void(int)> rec = [&](int d) {
        if (d < n) { for (int i = 0; i < k; ++i) { bool dup = false; for (int j = 0; j < d; ++j) dup |= id[j] == i; if (dup) continue; id[d] = i; p[d] = L[i]; rec(d + 1); } return; }
        if (!simple2(p, straight)) return;
        for (int e = 0; e < nemb; ++e) {
            if (!r.next([&] { return "polygon " + sh(p) + " in " + embeddings()[e].name; })) continue;
            std::vector<V3i> q; for (auto& x : p) q.push_back(embeddings()[e].at(x));
            CGeoPolygon<R> g = mkPoly(q);
            polyCheck(r, g, q, false, "fresh"); polyCheck(r, g, q, true, "again");
            // reversal flips the normal only
            CGeoPolygon<R> h = mkPoly(q); h.invert(); std::vector<V3i> rq(q.rbegin(), q.rend()); polyCheck(r, h, rq, true, "inverted");
            h = mkPoly(q); h.calculateArea(); h.calculateNormal(); P3 nb = P3(h.normal().x(), h.normal().y(), h.normal().z()); h.invert(); 
            r.expect(nearV(h.normal(), -nb.x(), -nb.y(), -nb.z()), "invert-normal");
            // translated copy
            std::vector<V3i> tq; for (auto& x : q) tq.push_back(x + V3i(7, -3, 2));
            // reuse of one object
            CGeoPolyline<R> pl; for (auto& x : tq) pl.addVertex(C(x)); pl.close(); g.reset(); g.setPolyline(pl); polyCheck(r, g, tq, true, "reuse");
            r.expect(g.isClosed(), "closed");
            Hash hh; for (auto& x : q) hh.add(x.x + 100).add(x.y + 100).add(x.z + 100); r.state(hh); r.outcome(Hash().add(area2x2(p)).add(convex2(p))); r.trace();
        }
    };
    rec(0);
}
SECTION("polygons3-5", "all simple lattice polygons with 3..5 vertices (3x3 lattice; every start and both directions, reflex included) x 8 planes") {
    for (int n = 3; n <= 5; ++n) polygons(r, n, 2, n == 5, 8);
}
SECTION("polygons6", "all simple hexagons on the 3x3 lattice, straight corners included, x 2 planes (quick) / 8 planes; thorough adds heptagons") {
    polygons(r, 6, 2, true, r.thorough ? 8 : 2);
    if (r.thorough) polygons(r, 7, 2, true, 3);
}
SECTION("quads", "all planar convex quadrilaterals (ordered vertices, 4x4 lattice) x 8 planes") {
    auto L = lattice(r.thorough ? 3 : 2, r.thorough ? 3 : 2, 0);
    for (auto& a : L) for (auto& b : L) for (auto& c : L) for (auto& d : L) {
        std::vector<V3i> p = {a, b, c, d}; if (a == b || b == c || c == d || a == d || a == c || b == d) continue;
        if (!simple2(p, false)) continue;
        for (auto& e : embeddings()) {
            if (!r.next([&] { return "quad " + sh(p) + " in " + e.name; })) continue;
            std::vector<V3i> q; for (auto& x : p) q.push_back(e.at(x));
            CGeoQuadrilateral<R> g; for (auto& x : q) g.addVertex(C(x));
            for (int round = 0; round < 2; ++round) {
                g.calculateArea(round); g.calculateNormal(round); g.calculateCentroid(round); r.op(3);
                V3i s, m; for (int i = 0; i < 4; ++i) { s = s + q[i].cross(q[(i + 1) % 4]); m = m + q[i]; }
                double nn = s.n();
                r.expect(near(g.area(), nn / 2, 1e-12), round ? "area-reuse" : "area", "%g vs %g", g.area(), nn / 2);
                r.expect(nearV(g.normal(), s.x / nn, s.y / nn, s.z / nn), round ? "normal-reuse" : "normal");
                r.expect(nearP(g.centroid(), m.x / 4.0, m.y / 4.0, m.z / 4.0), round ? "centroid-reuse" : "centroid");
                std::rotate(q.begin(), q.begin() + 1, q.end()); for (auto& x : q) x = x + V3i(2, -5, 3);
                g.reset(); for (auto& x : q) g.addVertex(C(x));
            }
            Hash hh; for (auto& x : q) hh.add(x.x + 100).add(x.y + 100).add(x.z + 100); r.state(hh); r.outcome(area2x2(p)); r.trace();
        }
    }
}
SECTION("tetrahedra", "all ordered non-degenerate quadruples of a 2x2x3 lattice (both orientations): volume, area, centroid, polyhedron conversion, point containment of a probe lattice, reuse") {
    auto L = lattice(1, 1, 2);
    for (auto& a : L) for (auto& b : L) for (auto& c : L) for (auto& d : L) {
        ll dt = det3(b - a, c - a, d - a); if (dt == 0) continue;
        if (!r.next([&] { return "tetrahedron " + sh({a, b, c, d}); })) continue;
        CGeoTetrahedron<R> t; t.addVertex(C(a)); t.addVertex(C(b)); t.addVertex(C(c)); t.addVertex(C(d));
        double sa = ((b - a).cross(c - a).n() + (b - a).cross(d - a).n() + (c - a).cross(d - a).n() + (c - b).cross(d - b).n()) / 2;
        for (int round = 0; round < 2; ++round) {
            t.calculateVolume(round); t.calculateSurfaceArea(round); t.calculateCentroid(round); r.op(3);
            r.expect(near(t.volume(), -dt / 6.0, 1e-12), round ? "volume-reuse" : "volume", "%g vs %g", t.volume(), -dt / 6.0);
            r.expect(near(t.surfaceArea(), sa, 1e-12), round ? "surface-reuse" : "surface", "%g vs %g", t.surfaceArea(), sa);
            V3i m = a + b + c + d; double o = round ? 10 : 0;
            r.expect(nearP(t.centroid(), m.x / 4.0 + o, m.y / 4.0 - o, m.z / 4.0 + o), round ? "centroid-reuse" : "centroid");
            V3i s = round ? V3i(10, -10, 10) : V3i();
            CGeoPolyhedron<R> h(t); h.calculateVolume(); h.calculateSurfaceArea(); r.op(2);
            r.expect(h.nbPolygons() == 4, "faces");
            r.expect(near(h.volume(), -dt / 6.0, 1e-11), "poly-volume", "%g vs %g", h.volume(), -dt / 6.0);
            r.expect(near(h.surfaceArea(), sa, 1e-11), "poly-surface");
            std::string why; bool ok_h = closedPolyhedron(h, 1e-9, why); r.expect(ok_h, "poly-closed", "%s", why.c_str());
            if (dt < 0) for (int x = -1; x <= 3; ++x) for (int y = -1; y <= 3; ++y) for (int z = -1; z <= 5; ++z) { // probes at half-integer lattice
                V3i q(x, y, z); V3i A = a * 2, B = b * 2, Cc = c * 2, D = d * 2;
                ll s0 = -det3(B - q, Cc - q, D - q), s1 = det3(A - q, Cc - q, D - q), s2 = -det3(A - q, B - q, D - q), s3 = det3(A - q, B - q, Cc - q);
                bool in = s0 > 0 && s1 > 0 && s2 > 0 && s3 > 0, out = s0 < 0 || s1 < 0 || s2 < 0 || s3 < 0;
                if (!in && !out) continue; // boundary points: left to rounding
                bool got = t.contains(P3(x / 2.0 + s.x, y / 2.0 + s.y, z / 2.0 + s.z), 1e-12); r.op();
                r.expect(got == in, "contains", "probe (%g %g %g) got %d", x / 2.0, y / 2.0, z / 2.0, got);
            }
            t.reset(); V3i u(10, -10, 10); t.addVertex(C(a + u)); t.addVertex(C(b + u)); t.addVertex(C(c + u)); t.addVertex(C(d + u));
        }
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z).add(c.x + 3 * c.y + 9 * c.z).add(d.x + 3 * d.y + 9 * d.z)); r.outcome(Hash().add(dt + 100).addr(sa)); r.trace();
    }
}
SECTION("prisms-hexahedra", "all parallelepipeds and sheared prisms spanned by three vectors of {-1..1}^3 scaled, both orientations; polyhedron conversion") {
    std::vector<V3i> E; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) E.push_back(V3i(x, y, z));
    for (auto& a : E) for (auto& b : E) for (auto& c : E) {
        ll dt = det3(a, b, c); if (!dt) continue;
        if (!r.next([&] { return "parallelepiped " + sh({a, b, c}); })) continue;
        V3i o(1, -2, 3); V3i A = a * 2, B = b, Cc = c * 3; ll D = 6 * dt;
        CGeoHexahedron<R> h; for (auto& q : {o, o + A, o + A + B, o + B, o + Cc, o + A + Cc, o + A + B + Cc, o + B + Cc}) h.addVertex(C(q));
        h.calculateVolume(); r.op();
        r.expect(near(h.volume(), -D, 1e-12), "hex-volume", "%g vs %lld", h.volume(), -D);
        CGeoPolyhedron<R> p(h); p.calculateVolume(); p.calculateSurfaceArea(); p.calculateCentroid(); r.op(3);
        double sa = 2 * (A.cross(B).n() + A.cross(Cc).n() + B.cross(Cc).n());
        r.expect(near(p.volume(), -D, 1e-11), "hexpoly-volume", "%g vs %lld", p.volume(), -D); r.expect(near(p.surfaceArea(), sa, 1e-11), "hexpoly-surface");
        V3i m = o * 2 + A + B + Cc; r.expect(nearP(p.centroid(), m.x / 2.0, m.y / 2.0, m.z / 2.0), "hexpoly-centroid");
        std::string why; bool ok_p = closedPolyhedron(p, 1e-9, why); r.expect(ok_p, "hexpoly-closed", "%s", why.c_str());
        CGeoTriangularPrism<R> t; for (auto& q : {o, o + A, o + B, o + Cc, o + A + Cc, o + B + Cc}) t.addVertex(C(q));
        t.calculateVolume(); r.op();
        r.expect(near(t.volume(), -D / 2.0, 1e-12), "prism-volume", "%g vs %g", t.volume(), -D / 2.0);
        CGeoPolyhedron<R> s(t); s.calculateVolume(); s.calculateSurfaceArea(); r.op(2);
        double sp = A.cross(B).n() + A.cross(Cc).n() + B.cross(Cc).n() + (B - A).cross(Cc).n();
        r.expect(near(s.volume(), -D / 2.0, 1e-11), "prismpoly-volume"); r.expect(near(s.surfaceArea(), sp, 1e-11), "prismpoly-surface");
        bool ok_s = closedPolyhedron(s, 1e-9, why); r.expect(ok_s, "prismpoly-closed", "%s", why.c_str());
        // copying into another object, then recomputing
        CGeoPolyhedron<R> u; u.set(p); u.calculateVolume(true); r.expect(near(u.volume(), -D, 1e-11) && u.nbPolygons() == 6, "set-copy");
        u.set(s); u.calculateVolume(true); u.calculateSurfaceArea(true); r.expect(near(u.volume(), -D / 2.0, 1e-11) && u.nbPolygons() == 5 && near(u.surfaceArea(), sp, 1e-11), "set-reuse");
        for (int i = 0; i < 5; ++i) r.expect(u.containsPolygon(u.polygonId(i)), "contains-polygon");
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z + 50).add(b.x + 3 * b.y + 9 * b.z + 50).add(c.x + 3 * c.y + 9 * c.z + 50)); r.outcome(Hash().add(dt + 9).addr(sa)); r.trace();
    }
}
SECTION("bodies", "catalogue of convex polyhedra (boxes, sheared boxes, tetrahedra, prism, pyramid, octahedron, frustum) x every order of the first face (face order permuted cyclically) x cyclic start of every face x translation") {
    auto B = bodies();
    for (auto& b : B) for (int rot = 0; rot < 4; ++rot) for (size_t sh0 = 0; sh0 < b.f.size(); ++sh0) for (int tr = 0; tr < 2; ++tr) {
        if (!r.next([&] { return "body " + b.name + strf(" rot=%d first=%d tr=%d", rot, (int)sh0, tr); })) continue;
        Body q = b; std::rotate(q.f.begin(), q.f.begin() + sh0, q.f.end());
        for (auto& f : q.f) std::rotate(f.begin(), f.begin() + rot % f.size(), f.end());
        if (tr) for (auto& v : q.v) v = v + V3i(11, -7, 4);
        CGeoPolyhedron<R> h = mkBody(q); h.calculateVolume(); h.calculateSurfaceArea(); r.op(2);
        double v = vol6(b) / 6.0; LD sa = 0; for (auto& f : facesOf(b)) sa += polyAreaL(f);
        r.expect(near(h.volume(), v, 1e-11), "volume", "%g vs %g", h.volume(), v);
        r.expect(near(h.surfaceArea(), (double)sa, 1e-11), "surface", "%g vs %Lg", h.surfaceArea(), sa);
        for (auto& f : q.f) for (auto& x : f) (void)x;
        Body inv = q; for (auto& f : inv.f) std::reverse(f.begin(), f.end());
        CGeoPolyhedron<R> g = mkBody(inv); g.calculateVolume(); r.expect(near(g.volume(), -v, 1e-11), "reversed-volume"); r.op();
        r.state(Hash().adds(b.name).add(rot).add(sh0).add(tr)); r.outcome(Hash().addr(v).addr((double)sa)); r.trace();
    }
}
