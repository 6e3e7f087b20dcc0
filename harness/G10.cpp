// Circles through three points, spheres through four.
#include "geo.hpp"
#include "GeoCircle.hpp"
#include "GeoSphere.hpp"
static const double PI = std::acos(-1.0);
SECTION("circles", "all ordered non-collinear point triples of a 4x4 lattice, four placements (shift, scale, z offset): centre equidistant, radius, area, containment of every lattice and half-lattice point") {
    auto L = lattice(3, 3, 0);
    for (auto& a : L) for (auto& b : L) for (auto& c : L) {
        ll d = cross2(a, b, c); if (d == 0) continue;
        if (!r.next([&] { return "circle " + show(std::vector<V3i>{a, b, c}); })) continue;
        V3i u = b - a, v = c - a; ll uu = u.n2(), vv = v.n2();
        for (int pl = 0; pl < 4; ++pl) {
            double s = pl == 2 ? 0.1 : pl == 3 ? 250 : 1; P3 t(pl == 1 ? 7 : 0, pl == 1 ? -4 : pl == 2 ? 1.0 / 3 : 0, pl);
            // exact circumcentre relative to a: (vy*uu-uy*vv, ux*vv-vx*uu)/(2d)
            double cx = (a.x + (double)(v.y * uu - u.y * vv) / (2.0 * d)) * s + t.x(), cy = (a.y + (double)(u.x * vv - v.x * uu) / (2.0 * d)) * s + t.y();
            double rad = std::sqrt((double)uu * vv * (c - b).n2()) / (2.0 * std::llabs(d)) * s;
            for (double tol : {0.0, 1e-8}) {
            CGeoCircle<R> k(C(a, s, t), C(b, s, t), C(c, s, t), tol); r.op();
            double ct = 1e-9 * (1 + s + std::fabs(cx) + std::fabs(cy));
            if (!r.expect(near(k.radius(), rad, 1e-9) && std::fabs(k.center().x() - cx) < ct && std::fabs(k.center().y() - cy) < ct && near(k.center().z(), t.z()), "centre", "placement %d: centre (%g %g %g) radius %g want (%g %g) %g", pl, k.center().x(), k.center().y(), k.center().z(), k.radius(), cx, cy, rad)) return;
            for (auto& p : {a, b, c}) r.expect(near((C(p, s, t) - k.center()).norm() / s, k.radius() / s, 1e-9), "equidistant");
            k.calculateArea(); k.calculateCentroid(); k.calculateNormal(); r.op(3);
            r.expect(near(k.area(), PI * rad * rad), "area"); r.expect(near(k.centroid().x(), cx, 1e-8) && near(k.centroid().y(), cy, 1e-8), "centroid");
            r.expect(near(std::fabs(k.normal().z()), 1) && near(k.normal().x(), 0) && near(k.normal().y(), 0), "normal");
            for (int x = -2; x <= 8; ++x) for (int y = -2; y <= 8; ++y) { P3 q(x * .5 * s + t.x(), y * .5 * s + t.y(), t.z()); double e = std::hypot(q.x() - cx, q.y() - cy);
                for (double tl : {0.0, 0.3 * s}) if (std::fabs(e - rad - tl) > 1e-6 * s) { r.expect(k.contains(q, tl) == (e <= rad + tl), "contains", "point (%g %g) tol %g", q.x(), q.y(), tl); r.op(); r.outcome(Hash().add(e <= rad + tl)); } }
            for (auto& p : {a, b, c}) r.expect(k.contains(C(p, s, t), 1e-6 * s), "contains-own");
            }
        }
        r.state(Hash().add(a.x + 4 * a.y).add(b.x + 4 * b.y).add(c.x + 4 * c.y)); r.trace();
    }
}
SECTION("collinear", "all collinear triples of the lattice are reported with zero radius or an infinite one, never a finite circle") {
    auto L = lattice(3, 3, 0);
    for (auto& a : L) for (auto& b : L) for (auto& c : L) {
        if (cross2(a, b, c) != 0) continue;
        if (!r.next([&] { return "collinear " + show(std::vector<V3i>{a, b, c}); })) continue;
        CGeoCircle<R> k(C(a), C(b), C(c)); r.op(); double q = k.radius(); r.expect(q == 0 || !(std::fabs(q) < 1e15), "collinear", "radius %g", q); r.state(Hash().add(a.x + 4 * a.y).add(b.x + 4 * b.y).add(c.x + 4 * c.y)); r.trace();
    }
}
SECTION("spheres", "all non-coplanar point quadruples of a 3x3x3 lattice (unordered x 4 rotations of the list + reversal; thorough: all 24 orders), three placements") {
    auto L = lattice(2, 2, 2); int n = L.size();
    std::vector<std::vector<int>> ords; permutations(4, [&](const std::vector<int>& p) { bool rot = true; for (int i = 0; i < 4; ++i) rot &= p[i] == (p[0] + i) % 4; if (r.thorough || rot || (p[0] == 3 && p[1] == 2 && p[2] == 1)) ords.push_back(p); });
    combinations(n, 4, [&](const std::vector<int>& q) {
        V3i P[4]; for (int i = 0; i < 4; ++i) P[i] = L[q[i]];
        V3i u = P[1] - P[0], v = P[2] - P[0], w = P[3] - P[0]; ll D = det3(u, v, w); if (D == 0) return;
        if (!r.next([&] { return "sphere " + show(std::vector<V3i>{P[0], P[1], P[2], P[3]}); })) return;
        V3i N = v.cross(w) * u.n2() + w.cross(u) * v.n2() + u.cross(v) * w.n2(); double rad0 = N.n() / (2.0 * std::llabs(D));
        for (int pl = 0; pl < 3; ++pl) for (auto& o : ords) {
            double s = pl == 2 ? 0.25 : 1; P3 t(pl == 1 ? 5 : 0, pl == 1 ? -3 : 0, pl == 2 ? .1 : 0);
            double rad = rad0 * s, cx = (P[0].x + N.x / (2.0 * D)) * s + t.x(), cy = (P[0].y + N.y / (2.0 * D)) * s + t.y(), cz = (P[0].z + N.z / (2.0 * D)) * s + t.z();
            CGeoSphere<R> k(C(P[o[0]], s, t), C(P[o[1]], s, t), C(P[o[2]], s, t), C(P[o[3]], s, t), pl == 1 ? 1e-6 : 0.0); r.op();
            if (!r.expect(near(k.radius(), rad, 1e-7) && nearP(k.center(), cx, cy, cz, 1e-7), "centre", "placement %d order %s: (%g %g %g) %g want (%g %g %g) %g", pl, show(o).c_str(), k.center().x(), k.center().y(), k.center().z(), k.radius(), cx, cy, cz, rad)) return;
            if (&o != &ords[0]) continue;
            k.calculateVolume(); k.calculateSurfaceArea(); k.calculateCentroid(); r.op(3);
            r.expect(near(k.volume(), 4.0 / 3 * PI * rad * rad * rad, 1e-6), "volume"); r.expect(near(k.surfaceArea(), 4 * PI * rad * rad, 1e-6), "surface"); r.expect(nearP(k.centroid(), cx, cy, cz, 1e-7), "centroid");
            for (auto& x : L) for (double h : {0.0, 0.5}) { P3 z = C(x, s, t) + P3(h * s, h * s, h * s); double e = (z - P3(cx, cy, cz)).norm(); for (double tl : {0.0, 0.4 * s}) if (std::fabs(e - rad - tl) > 1e-6) { r.expect(k.contains(z, tl) == (e <= rad + tl), "contains"); r.op(); r.outcome(Hash().add(e <= rad + tl)); } }
            for (auto& x : P) r.expect(k.contains(C(x, s, t), 1e-6), "contains-own");
        }
        Hash h; for (int i : q) h.add(i); r.state(h); r.trace();
    });
}
SECTION("given-centre", "circles and spheres given by centre and radius: 27 centres x 4 radii x 125 probes x 3 tolerances, exact classification including touching") {
    for (auto& c : lattice(2, 2, 2)) for (int R0 = 0; R0 < 4; ++R0) {
        if (!r.next([&] { return "centre " + show(std::vector<V3i>{c}) + strf(" radius %d", R0); })) continue;
        P3 m = C(c); CGeoCircle<R> k(m, R0); CGeoSphere<R> s(m, R0);
        r.expect(k.radius() == R0 && s.radius() == R0 && (k.center() - m).norm() == 0 && (s.center() - m).norm() == 0, "data");
        k.calculateArea(); s.calculateVolume(); s.calculateSurfaceArea(); r.expect(near(k.area(), PI * R0 * R0) && near(s.volume(), 4 * PI * R0 * R0 * R0 / 3) && near(s.surfaceArea(), 4 * PI * R0 * R0), "measures");
        for (auto& q : lattice(4, 4, 4)) for (int tl = 0; tl < 3; ++tl) { V3i z = q - V3i(1, 1, 1); bool in = (z - c).n2() <= (R0 + tl) * (R0 + tl); r.expect(s.contains(C(z), tl) == in, "sphere-contains", "probe %s tol %d", show(std::vector<V3i>{z}).c_str(), tl);
            if (z.z == c.z) r.expect(k.contains(C(z), tl) == in, "circle-contains"); r.op(2); r.outcome(in); }
        r.state(Hash().add(c.x + 3 * c.y + 9 * c.z).add(R0)); r.trace();
    }
}
