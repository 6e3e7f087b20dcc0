// Vectors, normals, planes, coordinate systems.
#include "geo.hpp"
#include "GeoVector.hpp"
#include "GeoNormal.hpp"
#include "GeoPlane.hpp"
#include "GeoCoordinateSystem.hpp"
typedef CGeoVector<R> Vv;
static const double PI = std::acos(-1.0);
static Vv V(const V3i& a, double s = 1) { return Vv(a.x * s, a.y * s, a.z * s); }
static std::vector<V3i> dirs(int n) { std::vector<V3i> r; for (auto& p : lattice(2 * n, 2 * n, 2 * n)) r.push_back(p - V3i(n, n, n)); return r; }
SECTION("angles", "all ordered pairs of vectors with components in -2..2 (zero excluded), four scalings: principal range, symmetry, exact cosine, parallel and antiparallel limits; length, normalisation, dot, cross") {
    auto D = dirs(2);
    for (auto& a : D) { if (a.n2() == 0) continue; if (!r.next([&] { return "vector " + show(std::vector<V3i>{a}) + " against all"; })) continue;
        for (auto& b : D) { if (b.n2() == 0) continue;
            for (double s : {1.0, 1e-3, 1e4, 1.0 / 3}) {
                Vv u = V(a, s), v = V(b, 2 * s); double g = u.angle(v), g2 = v.angle(u); r.op(2);
                double want = std::atan2(a.cross(b).n(), (double)a.dot(b));
                r.expect(std::fabs(g - want) < 5e-8 && g >= 0 && g <= PI + 1e-15, "angle", "with %s scale %g: %.12g want %.12g", show(std::vector<V3i>{b}).c_str(), s, g, want);
                r.expect(g == g2 || std::fabs(g - g2) < 1e-7, "symmetric"); r.expect(nearV(u, a.x * s, a.y * s, a.z * s, 1e-15), "operand"); r.outcome(Hash().addr(want, 1e-4));
            }
            Vv u = V(a), v = V(b); V3i c = a.cross(b); r.expect(u.dot(v) == a.dot(b) && nearV(u.cross(v), c.x, c.y, c.z, 1e-15) && nearV(u + v, a.x + b.x, a.y + b.y, a.z + b.z) && nearV(u - v, a.x - b.x, a.y - b.y, a.z - b.z), "algebra"); r.op(4);
        }
        Vv n = V(a, 7); r.expect(near(n.norm(), 7 * a.n(), 1e-14), "norm"); n.normalize(); r.expect(near(n.norm(), 1, 1e-14) && nearV(n, a.x / a.n(), a.y / a.n(), a.z / a.n(), 1e-14), "normalize");
        CGeoNormal<R> m(a.x * 3, a.y * 3, a.z * 3); r.expect(nearV(m, a.x / a.n(), a.y / a.n(), a.z / a.n(), 1e-14), "normal");
        r.op(3); r.state(Hash().add(a.x + 9).add(a.y + 9).add(a.z + 9)); r.trace(); }
}
SECTION("rotation", "all vectors with components in -2..2 x all pairs from 17 angles over +/-2pi: exact rotation about z, length and z preserved, additive composition, inverse") {
    std::vector<double> A; for (int k = -8; k <= 8; ++k) A.push_back(k * PI / 4 + (k % 3 == 0 ? 0 : 0.1)); 
    for (auto& a : dirs(2)) { if (!r.next([&] { return "rotate " + show(std::vector<V3i>{a}); })) continue;
        for (double f : A) { Vv u = V(a); u.rotate(f); r.op(); r.expect(nearV(u, a.x * cos(f) - a.y * sin(f), a.x * sin(f) + a.y * cos(f), a.z, 1e-13), "rotate", "angle %g -> (%g %g %g)", f, u.x(), u.y(), u.z()); r.expect(near(u.norm(), a.n(), 1e-13), "length");
            for (double g : A) { Vv v = V(a), w = V(a); v.rotate(f); v.rotate(g); w.rotate(f + g); r.op(3); r.expect(nearV(v, w.x(), w.y(), w.z(), 1e-12), "compose"); }
            u.rotate(-f); r.expect(nearV(u, a.x, a.y, a.z, 1e-13), "inverse"); r.outcome(Hash().addr(f)); }
        r.state(Hash().add(a.x + 9).add(a.y + 9).add(a.z + 9)); r.trace(); }
}
SECTION("planes", "all planes with normal components in -2..2 and offsets -4..4 against every point of a 5x5x5 lattice: distance, foot point, inversion (also twice), set/setD histories") {
    auto D = dirs(2), L = dirs(2);
    for (auto& n : D) { if (n.n2() == 0) continue; for (int d = -4; d <= 4; ++d) {
        if (!r.next([&] { return "plane " + show(std::vector<V3i>{n}) + strf(" offset %d/2", d); })) continue;
        double len = n.n(), off = d * .5; CGeoNormal<R> nn(n.x, n.y, n.z); CGeoPlane<R> p(nn, off), q; q.set(CGeoNormal<R>(0, 0, 1), 77); q.set(nn, -3); q.setD(off);
        CGeoPlane<R> i = p; i.invert(); CGeoPlane<R> ii = i; ii.invert();
        r.expect(nearV(i.normal(), -n.x / len, -n.y / len, -n.z / len, 1e-14) && near(i.d(), -off) && nearV(ii.normal(), n.x / len, n.y / len, n.z / len, 1e-14) && near(ii.d(), off) && near(q.d(), off), "data");
        for (auto& x : L) { P3 f; double s = n.dot(x) / len - off; r.op(5);
            r.expect(near(p.distance(C(x)), std::fabs(s), 1e-13) && near(i.distance(C(x)), std::fabs(s), 1e-13) && near(q.distance(C(x)), std::fabs(s), 1e-13), "distance", "point %s got %g want %g", show(std::vector<V3i>{x}).c_str(), p.distance(C(x)), std::fabs(s));
            for (auto* z : {&p, &i, &ii}) { double e = z->distance(C(x), f); r.expect(near(e, std::fabs(s), 1e-13) && nearP(f, x.x - s * n.x / len, x.y - s * n.y / len, x.z - s * n.z / len, 1e-12), "foot", "point %s foot (%g %g %g)", show(std::vector<V3i>{x}).c_str(), f.x(), f.y(), f.z()); r.expect(near(z->distance(f), 0, 1e-12), "foot-on-plane"); }
            // signed relation through normal and d
            r.expect(near(P3(p.normal()).dot(C(x)) - p.d(), s, 1e-13) && near(P3(i.normal()).dot(C(x)) - i.d(), -s, 1e-13), "signed"); r.outcome(Hash().add(s > 0).add(s < 0)); }
        r.state(Hash().add(n.x + 9).add(n.y + 9).add(n.z + 9).add(d + 9)); r.trace(); } }
}
SECTION("systems", "coordinate systems: all 24 axis rotations, 24 reflections, and the orthonormal frames of all lattice vector pairs; every lattice point pair: exact components and preserved distances; composition and inverse") {
    std::vector<std::array<Vv, 3>> S; 
    permutations(3, [&](const std::vector<int>& p) { for (int m = 0; m < 8; ++m) { std::array<Vv, 3> s; for (int k = 0; k < 3; ++k) { s[k] = Vv(0, 0, 0); s[k][p[k]] = m >> k & 1 ? -1 : 1; } S.push_back(s); } });
    for (auto& a : dirs(1)) for (auto& b : dirs(1)) { if (a.cross(b).n2() == 0) continue; Vv x = V(a); x.normalize(); Vv z = x.cross(V(b)); z.normalize(); Vv y = z.cross(x); S.push_back({{x, y, z}}); }
    auto L = dirs(1);
    for (size_t k = 0; k < S.size(); ++k) { if (!r.next([&] { return strf("system %d", (int)k); })) continue;
        CGeoCoordinateSystem<R> cs; cs.row(0) << S[k][0].transpose(); cs.row(1) << S[k][1].transpose(); cs.row(2) << S[k][2].transpose();
        CGeoCoordinateSystem<R> inv; inv = cs.transpose();
        for (auto& p : L) { P3 c = C(p); c.transform(cs); r.op(2); Vv v = V(p); r.expect(nearP(c, S[k][0].dot(v), S[k][1].dot(v), S[k][2].dot(v), 1e-13), "components", "point %s", show(std::vector<V3i>{p}).c_str());
            for (auto& q : L) { P3 d = C(q); d.transform(cs); r.op(); r.expect(near((c - d).norm(), (p - q).n(), 1e-12), "distance"); }
            P3 back = c; back.transform(inv); r.expect(nearP(back, p.x, p.y, p.z, 1e-12), "inverse"); 
            // non-orthonormal systems follow their rows too
            CGeoCoordinateSystem<R> sk = cs; sk.row(0) *= 2; sk.row(1) += cs.row(2); P3 e = C(p); e.transform(sk); r.expect(nearP(e, 2 * S[k][0].dot(v), (S[k][1] + S[k][2]).dot(v), S[k][2].dot(v), 1e-12), "skew"); }
        r.state(Hash().add(k)); r.trace(); }
}
