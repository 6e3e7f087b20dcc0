// Clipping histories of one finite-volume cell.
#include "geo.hpp"
#include "FvmFace.hpp"
#include "FvmControlVolume.hpp"
using namespace ENigMA::fvm;
struct Cell { CFvmControlVolume<R> cv; Faces F; LD V; std::vector<int> ids; };
static Cell mkCell(const Body& b, double sc, bool viaFaces) { Cell c; CGeoPolyhedron<R> h = mkBody(b, sc); if (viaFaces) { for (int i = 0; i < h.nbPolygons(); ++i) { int id = h.polygonId(i); CFvmFace<R> f(h.polygon(id)); f.setControlVolumeId(3); c.cv.addFace(id, f); } c.cv.setControlVolumeId(3); } else c.cv = CFvmControlVolume<R>(h); for (int i = 0; i < h.nbPolygons(); ++i) c.ids.push_back(h.polygonId(i)); for (auto& f : b.f) { std::vector<V3l> q; for (int i : f) q.push_back(toL(b.v[i]) * sc); c.F.push_back(q); } c.V = vol6(b) / (LD)6 * sc * sc * sc; std::sort(c.ids.begin(), c.ids.end()); return c; }
static P3 centre(CFvmControlVolume<R>& cv, int fid) { auto d = cv.faceDist(fid); auto c = cv.centroid(); return P3(c.x() + d.x(), c.y() + d.y(), c.z() + d.z()); }
static void inspect(Run& r, Cell& c, const V3i& n, double f, double act, double sc, const char* at) {
    auto& cv = c.cv; double L = n.n(); V3l nl = {n.x / L, n.y / L, n.z / L}; double V = (double)c.V; int cap = cv.clippedFaceId();
    cv.calculateVolume(true); double slack = 1e-7 + 3e-12 / (sc * sc * sc); r.expect(std::fabs(act - f) <= slack && std::fabs(cv.volume() / V - f) <= slack, "fraction", "%s: fraction %g, reported %.9g, volume fraction %.9g", at, f, act, cv.volume() / V);
    cv.calculateOriginalVolume(true); r.expect(near(cv.originalVolume() / V, 1), "original", "%s: %.12g", at, cv.originalVolume() / V); r.expect(near(cv.originalAvFaceDist(cap), std::pow(V, 1 / 3.0) / 2, 1e-9), "original-distance"); r.expect(cv.isClipped(), "clipped");
    if (!r.expect(cv.containsFace(cap), "cap-missing", "%s", at)) return; cv.calculateCentroid(true); V3l sum = {0, 0, 0}; double ar = 0; for (int i = 0; i < cv.nbFaces(); ++i) { int id = cv.faceId(i); cv.calculateFaceArea(id, true); cv.calculateFaceNormal(id, true); cv.calculateFaceCentroid(id, true); auto& m = cv.faceNormal(id); double A = cv.faceArea(id); ar += A; sum = sum + V3l{m.x(), m.y(), m.z()} * A; r.expect(id == cap || std::binary_search(c.ids.begin(), c.ids.end(), id), "face-id"); }
    double S = 0; for (auto& q : c.F) S += (double)polyAreaL(q); r.expect(norm(sum) < 1e-6 * S, "closed", "%s: %g", at, (double)norm(sum)); cv.calculateSurfaceArea(true); r.expect(near(cv.surfaceArea() / S, ar / S), "surface");
    auto& m = cv.faceNormal(cap); r.expect(std::fabs(m.x() - (double)nl.x) + std::fabs(m.y() - (double)nl.y) + std::fabs(m.z() - (double)nl.z) < 1e-5, "cap-normal", "%s: (%g %g %g)", at, m.x(), m.y(), m.z());
    P3 q = centre(cv, cap); double d = (double)dot(nl, toL(q)); r.expect(std::fabs((double)(clippedVolume(c.F, nl, d) / c.V) - f) < 1e-5, "cap-position", "%s: fraction %g at cap", at, (double)(clippedVolume(c.F, nl, d) / c.V)); for (int i = 0; i < cv.nbFaces(); ++i) { P3 w = centre(cv, cv.faceId(i)); r.expect((double)dot(nl, toL(w)) <= d + 1e-6 * sc, "kept-side", "%s face %d", at, cv.faceId(i)); }
    cv.clippedFace().calculateArea(true); r.expect(near(cv.clippedFace().area() / S, cv.faceArea(cap) / S, 1e-9), "clipped-face"); r.outcome(Hash().addr(f).add(cv.nbFaces())); }
static std::vector<V3i> dirs() { return {{1,0,0},{0,-1,0},{0,0,1},{1,1,0},{-1,0,2},{1,-2,3},{-1,-1,-1}}; }
SECTION("sequences", "10 convex cells x every sequence of up to 3 clips over 7 directions x fractions (0.1 0.37 0.5 0.93 in rotation), cell built from a polyhedron or face by face, two sizes; un-clipped and checked after each") {
    auto D = dirs(); double fr[4] = {0.1, 0.37, 0.5, 0.93}; for (auto& b : bodies()) for (int via = 0; via < 2; ++via) for (double sc : {1.0, 0.05}) for (int n = 1; n <= 3; ++n) sequences(n, D.size(), [&](const std::vector<int>& q) {
        if (sc != 1.0 && n > 2) return; if (!r.thorough && n == 3 && (q[0] + q[1] * 2 + q[2]) % 4) return; if (!r.next([&] { return b.name + " directions " + show(q) + strf(" built by %s size %g", via ? "faces" : "polyhedron", sc); })) return;
        Cell c = mkCell(b, sc, via); c.cv.setClippedFaceId(50); for (size_t i = 0; i < q.size(); ++i) { auto& n = D[q[i]]; double L = n.n(), act = -1; int it = -1; double f = fr[(i + q[0] + q.back()) % 4]; c.cv.clip(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), f, act, it, 200, 1e-9, 1e-9 * sc); r.op(); inspect(r, c, n, f, act, sc, strf("clip %zu", i + 1).c_str()); }
        r.expect(c.cv.clippedFaceId() == 50, "cap-id"); c.cv.setClipped(false); c.cv.calculateVolume(true); r.op(); r.expect(near(c.cv.volume() / (double)c.V, 1) && c.cv.nbFaces() == (int)c.ids.size() && !c.cv.containsFace(50) && !c.cv.isClipped(), "unclipped"); c.cv.setClipped(true); c.cv.calculateVolume(true); r.expect(c.cv.containsFace(50), "clipped-again");
        Hash h; for (int i : q) h.add(i); r.state(h.adds(b.name).add(via).addd(sc)); r.trace(); });
}
SECTION("fractions", "10 convex cells x 7 directions x every ordered pair of fractions of a grid of 12 (including 0 and 1 first): the second clip gives its own fraction of the original cell") {
    double fr[12] = {0, 1, 1e-4, 0.02, 0.15, 0.25, 1.0 / 3, 0.5, 0.66, 0.8, 0.95, 0.999}; auto D = dirs(); for (auto& b : bodies()) for (size_t k = 0; k < D.size(); ++k) for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) {
        if (!r.next([&] { return b.name + strf(" direction %zu fractions %g then %g", k, fr[i], fr[j]); })) continue; Cell c = mkCell(b, 1, i & 1); c.cv.setClippedFaceId(70); auto& n = D[k]; double L = n.n(); CGeoNormal<R> nn(n.x / L, n.y / L, n.z / L), opp(-n.x / L, -n.y / L, -n.z / L); double act; int it; c.cv.clip((i + j) % 3 == 0 ? opp : nn, fr[i], act, it, 200, 1e-9, 1e-9); r.expect(std::fabs(act - fr[i]) < 1e-7, "first"); c.cv.clip(nn, fr[j], act, it, 200, 1e-9, 1e-9); r.op(2);
        if (j > 1) inspect(r, c, n, fr[j], act, 1, "second"); else { c.cv.calculateVolume(true); r.expect(act == fr[j] && near(c.cv.volume(), fr[j] * (double)c.V), "whole-or-nothing", "%g %g", act, c.cv.volume()); } r.state(Hash().adds(b.name).add(k).add(i).add(j)); r.trace(); }
}
SECTION("halves", "10 convex cells x 7 directions x 9 fractions: a cell clipped to f along n and a copy clipped to 1-f along -n share the cap and add up; the copy does not affect the first") {
    auto D = dirs(); for (auto& b : bodies()) for (auto& n : D) for (int i = 1; i < 10; ++i) { double f = i / 10.0; if (!r.next([&] { std::ostringstream o; o << b.name << " direction " << n << " fraction " << f; return o.str(); })) continue;
        Cell c = mkCell(b, 1, true), e = c; double L = n.n(), a1, a2; int it; c.cv.setClippedFaceId(70); e.cv.setClippedFaceId(71); c.cv.clip(CGeoNormal<R>(n.x / L, n.y / L, n.z / L), f, a1, it, 200, 1e-9, 1e-9); e.cv.clip(CGeoNormal<R>(-n.x / L, -n.y / L, -n.z / L), 1 - f, a2, it, 200, 1e-9, 1e-9); r.op(2); c.cv.calculateVolume(true); e.cv.calculateVolume(true); r.expect(near((c.cv.volume() + e.cv.volume()) / (double)c.V, 1, 1e-7), "sum"); c.cv.calculateFaceArea(70, true); e.cv.calculateFaceArea(71, true); r.expect(near(c.cv.faceArea(70), e.cv.faceArea(71), 1e-4), "shared-cap", "%g %g", c.cv.faceArea(70), e.cv.faceArea(71)); r.expect(c.cv.containsFace(70) && !c.cv.containsFace(71), "independent"); r.state(Hash().adds(b.name).add(n.x).add(n.y).add(n.z).add(i)); r.outcome(Hash().addr(c.cv.volume())); r.trace(); }
}
SECTION("grow", "10 convex cells x every rotation and both directions of the order of their faces, measured (with recalculation) after every face added and after clipping and un-clipping: values are those of the faces present, and of a cell built at once when complete") {
    for (auto& b : bodies()) { CGeoPolyhedron<R> h = mkBody(b, 1); int n = h.nbPolygons(); for (int s = 0; s < n; ++s) for (int rev = 0; rev < 2; ++rev) for (int mid = 0; mid < 2; ++mid) { if (!r.next([&] { return b.name + strf(" first face %d reversed %d clipped on the way %d", s, rev, mid); })) continue; CFvmControlVolume<R> cv; double want = 0; P3 mean(0, 0, 0);
        for (int k = 0; k < n; ++k) { int id = h.polygonId(((rev ? n - k : k) + s) % n); CFvmFace<R> f(h.polygon(id)); cv.addFace(id, f); CGeoPolygon<R> p = h.polygon(id); p.calculateArea(true); p.calculateCentroid(true); want += p.area(); mean += p.centroid(); cv.calculateSurfaceArea(true); cv.calculateCentroid(true); cv.calculateVolume(true); r.op(); r.expect(cv.nbFaces() == k + 1 && near(cv.surfaceArea(), want), "grown-surface", "%d faces: %g not %g", k + 1, cv.surfaceArea(), want); }
        double V = (double)(vol6(b) / (LD)6); r.expect(near(cv.volume() / V, 1), "grown-volume", "%g not %g", cv.volume(), V); Cell w = mkCell(b, 1, false); w.cv.calculateCentroid(true); auto c = cv.centroid(), d = w.cv.centroid(); r.expect((c - d).norm() < 1e-9, "grown-centroid", "off by %g", (c - d).norm());
        if (mid) { double act; int it; cv.setClippedFaceId(90); cv.clip(CGeoNormal<R>(1, 0, 0), 0.4, act, it, 200, 1e-9, 1e-9); cv.calculateSurfaceArea(true); cv.calculateCentroid(true); cv.calculateVolume(true); cv.setClipped(false); cv.calculateSurfaceArea(true); cv.calculateCentroid(true); cv.calculateVolume(true); r.op(2); c = cv.centroid(); r.expect(near(cv.surfaceArea(), want) && near(cv.volume() / V, 1) && (c - d).norm() < 1e-9, "restored"); }
        r.state(Hash().adds(b.name).add(s).add(rev).add(mid)); r.outcome(Hash().addr(want)); r.trace(); } } }
