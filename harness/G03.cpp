// Clipping and cutting a convex polyhedron to a volume fraction.
#include "geo.hpp"
#include "GeoPlane.hpp"
#include "FvmFace.hpp"
#include "FvmControlVolume.hpp"
using namespace ENigMA::fvm;
struct Dir { V3i n; LD d; };
static std::vector<V3i> dirs(bool th) {
    std::vector<V3i> r; for (auto& p : lattice(2, 2, 2)) { V3i n = p - V3i(1, 1, 1); if (n.n2()) r.push_back(n); }
    for (V3i n : {V3i(1, 2, 3), V3i(-2, 1, 0), V3i(0, -1, 3), V3i(5, 1, 1), V3i(-1, 7, 2), V3i(1, 0, 100)}) r.push_back(n);
    if (th) for (auto& p : lattice(4, 4, 4)) { V3i n = p - V3i(2, 2, 2); if (n.n2() > 3 && std::max({std::llabs(n.x), std::llabs(n.y), std::llabs(n.z)}) == 2) r.push_back(n); }
    return r;
}
static std::vector<double> fracs(bool th) { std::vector<double> f = {1e-4, 0.01, 0.1, 0.25, 1.0 / 3, 0.5, 0.6, 0.75, 0.9, 0.99, 0.9999}; if (th) for (int i = 1; i < 40; ++i) f.push_back(i / 40.0); std::sort(f.begin(), f.end()); return f; }
static LD volL(CGeoPolyhedron<R>& h) { LD s = 0; for (int i = 0; i < h.nbPolygons(); ++i) { auto& pl = h.polygon(h.polygonId(i)).polyline(); for (int k = 1; k + 1 < pl.nbVertices(); ++k) s += dot(toL(pl.vertex(0)), cross(toL(pl.vertex(k)), toL(pl.vertex(k + 1)))); } return s / 6; }
static std::vector<Body> bodies3() { auto b = bodies(); Body s = mkHex("slab", {0, 0, 0}, {20, 0, 0}, {0, 10, 0}, {0, 0, 1}); b.push_back(s); return b; }

SECTION("clip-fraction", "11 convex polyhedra x 32 directions (thorough 130) x 11 fractions (thorough 50), tolerance 1e-6 and 1e-9, two scales: volume, reported fraction, plane, closedness, kept side, monotone offsets") {
    for (auto& b : bodies3()) for (auto& n : dirs(r.thorough)) for (double tol : {1e-6, 1e-9}) for (double sc : {1.0, 0.01}) {
        if (sc != 1.0 && tol != 1e-9) continue;
        if (!r.next([&] { std::ostringstream o; o << b.name << " direction " << n << " tol " << tol << " scale " << sc; return o.str(); })) continue;
        double L = n.n(); V3l nl = {n.x / L, n.y / L, n.z / L}; LD V = vol6(b) / (LD)6; Faces F = facesOf(b); double prev = -1e300;
        for (double f : fracs(r.thorough)) {
            CGeoPolyhedron<R> h = mkBody(b, sc), before = h; CGeoPolygon<R> np; CGeoPlane<R> pl(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), 0); double act = -1; int it = -1;
            CGeoPolyhedron<R> k = h.clip(np, 999, pl, f, act, it, 200, tol, tol); r.op();
            double vol = (double)(volL(k) / (V * sc * sc * sc)); double slack = 3 * tol / (sc * sc * sc) * 1e-3 + 2 * tol;
            r.expect(std::fabs(vol - f) <= slack && std::fabs(act - f) <= slack && std::fabs(act - vol) <= 1e-6, "fraction", "fraction %g: volume fraction %.9g reported %.9g after %d", f, vol, act, it);
            LD ref = clippedVolume(F, nl, pl.d() / sc) / V; r.expect(std::fabs((double)ref - f) <= slack + 1e-5 * (tol > 1e-7), "offset", "fraction %g: plane offset %g gives %g", f, pl.d(), (double)ref);
            r.expect(near(pl.normal().x(), nl.x) && near(pl.normal().y(), nl.y) && near(pl.normal().z(), nl.z), "normal"); r.expect(pl.d() >= prev - 1e-9, "monotone", "fraction %g offset %g after %g", f, pl.d(), prev); prev = pl.d();
            bool side = true; for (int i = 0; i < k.nbPolygons(); ++i) { auto& q = k.polygon(k.polygonId(i)).polyline(); for (int j = 0; j < q.nbVertices(); ++j) side = side && pl.normal().dot(q.vertex(j)) <= pl.d() + 10 * tol + 1e-9; }
            r.expect(side, "side", "fraction %g", f); double gr = 1; for (auto& v : b.v) { double e = std::fabs(n.dot(v) / L * sc - pl.d()); if (e > 1e-13) gr = std::min(gr, e); } // distance of the plane to the nearest vertex it does not meet
            std::string why; r.expect(closedPolyhedron(k, std::max(tol * 10, 1e-8), why), gr < 2 * tol ? "closed-grazing" : "closed", "fraction %g: %s", f, why.c_str());
            r.expect(k.containsPolygon(999) && np.polyline().nbVertices() >= 4, "cap", "fraction %g", f); r.outcome(Hash().addr(f).add(k.nbPolygons()));
            r.expect((double)std::fabs((double)(volL(h) - volL(before))) < 1e-12 && h.nbPolygons() == before.nbPolygons(), "source-unchanged");
        }
        for (double f : {0.0, 1.0, -0.5, 1.5}) { CGeoPolyhedron<R> h = mkBody(b, sc); CGeoPolygon<R> np; CGeoPlane<R> pl(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), 0); double act = -1; int it = -1; auto k = h.clip(np, 999, pl, f, act, it, 200, tol, tol); r.op(); bool whole = f >= 1; r.expect(act == (whole ? 1.0 : 0.0) && k.nbPolygons() == (whole ? h.nbPolygons() : 0) && (!whole || near((double)volL(k), (double)volL(h))), "limits", "fraction %g: %g with %d faces", f, act, k.nbPolygons()); }
        r.state(Hash().adds(b.name).add(n.x).add(n.y).add(n.z).addd(tol).addd(sc)); r.trace();
    }
}
SECTION("cut", "11 convex polyhedra x 32 directions: cut by planes at 5 offsets and by 5 fractions: the two parts are the two sides and add up to the whole") {
    for (auto& b : bodies3()) for (auto& n : dirs(false)) {
        if (!r.next([&] { std::ostringstream o; o << b.name << " direction " << n; return o.str(); })) continue;
        double L = n.n(); V3l nl = {n.x / L, n.y / L, n.z / L}; LD V = vol6(b) / (LD)6; Faces F = facesOf(b); double lo = 1e300, hi = -1e300; for (auto& v : b.v) { double d = n.dot(v) / L; lo = std::min(lo, d); hi = std::max(hi, d); }
        auto check = [&](CGeoPolyhedron<R>& keep, CGeoPolyhedron<R>& rest, double d, const char* k, double tol) {
            LD w = clippedVolume(F, nl, d); double a = (double)volL(keep), c = (double)volL(rest); std::string why;
            r.expect(near(a, (double)w, tol) && near(c, (double)(V - w), tol), k, "offset %g: parts %g + %g, want %g + %g", d, a, c, (double)w, (double)(V - w));
            r.expect(closedPolyhedron(keep, 1e-5, why) && closedPolyhedron(rest, 1e-5, why), "cut-closed", "%s", why.c_str());
            bool ok = true; for (int i = 0; i < rest.nbPolygons(); ++i) { auto& q = rest.polygon(rest.polygonId(i)).polyline(); for (int j = 0; j < q.nbVertices(); ++j) ok = ok && nl.x * q.vertex(j).x() + nl.y * q.vertex(j).y() + nl.z * q.vertex(j).z() >= d - 1e-5; } r.expect(ok, "cut-side", "offset %g", d); };
        for (double t : {0.1, 0.3, 0.47, 0.8, 0.95}) { double d = lo + t * (hi - lo); CGeoPolyhedron<R> h = mkBody(b), rest; CGeoPolygon<R> np; CGeoPlane<R> pl(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), d); CGeoPolyhedron<R> keep = h.cut(rest, np, 999, pl, 1e-9); r.op(); check(keep, rest, d, "cut-plane", 1e-7); r.expect(near(pl.d(), d) && near(pl.normal().x(), nl.x), "plane-unchanged"); }
        for (double f : {0.01, 0.25, 0.5, 0.6, 0.9}) { CGeoPolyhedron<R> h = mkBody(b), rest; CGeoPolygon<R> np; CGeoPlane<R> pl(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), 0); double act = -1; int it; CGeoPolyhedron<R> keep = h.cut(rest, np, 999, pl, f, act, it, 200, 1e-9, 1e-9); r.op(); check(keep, rest, pl.d(), "cut-fraction", 1e-6); r.expect(std::fabs(act - f) < 1e-7, "cut-reported", "%g for %g", act, f); }
        r.state(Hash().adds(b.name).add(n.x).add(n.y).add(n.z)); r.trace();
    }
}
SECTION("control-volume", "11 convex polyhedra x 26 directions x sequences of two fractions: a finite-volume cell clipped repeatedly always refers to the original cell; original volume, faces and un-clipping") {
    for (auto& b : bodies3()) for (auto& n : dirs(false)) {
        if (!r.next([&] { std::ostringstream o; o << b.name << " direction " << n; return o.str(); })) continue;
        double L = n.n(); LD V = vol6(b) / (LD)6;
        for (double f1 : {0.05, 0.3, 0.5, 0.9}) for (double f2 : {0.1, 0.5, 0.99}) {
            CGeoPolyhedron<R> h = mkBody(b); CFvmControlVolume<R> cv(h); cv.setClippedFaceId(77); cv.calculateOriginalVolume(true); double act; int it;
            for (double f : {f1, f2}) { act = -1; cv.clip(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), f, act, it, 200, 1e-9, 1e-9); cv.calculateVolume(true); r.op(); r.expect(std::fabs(act - f) < 1e-7 && std::fabs(cv.volume() / (double)V - f) < 1e-7, "cell-fraction", "sequence %g %g at %g: reported %g volume fraction %g", f1, f2, f, act, cv.volume() / (double)V);
                r.expect(cv.isClipped() && cv.containsFace(77) && cv.clippedFaceId() == 77, "clipped-face"); LD ar = 0; for (int i = 0; i < cv.nbFaces(); ++i) { cv.calculateFaceArea(cv.faceId(i), true); ar += cv.faceArea(cv.faceId(i)); } cv.calculateSurfaceArea(true); r.expect(near((double)ar, cv.surfaceArea(), 1e-9), "surface");
                cv.calculateFaceArea(77, true); cv.clippedFace().calculateArea(true); r.expect(near(cv.clippedFace().area(), cv.faceArea(77), 1e-9), "clipped-face-area", "%g %g", cv.clippedFace().area(), cv.faceArea(77));
                cv.calculateOriginalVolume(true); r.expect(near(cv.originalVolume(), (double)V), "original"); }
            cv.setClipped(false); cv.calculateVolume(true); r.op(); r.expect(near(cv.volume(), (double)V) && cv.nbFaces() == (int)b.f.size() && !cv.containsFace(77), "unclipped"); }
        r.outcome(Hash().adds(b.name)); r.state(Hash().adds(b.name).add(n.x).add(n.y).add(n.z)); r.trace();
    }
}
