// Finite-volume meshes: cells, faces, closedness, identifiers, boundary search.
#include "msh.hpp"
#include "FvmMesh.hpp"
#include "FvmMeshSearch.hpp"
using namespace ENigMA::fvm;
static V3l areaVec(const std::vector<P3>& q) { V3l s = {0, 0, 0}; for (size_t i = 1; i + 1 < q.size(); ++i) s = s + cross(toL(q[i]) - toL(q[0]), toL(q[i + 1]) - toL(q[0])); return s * 0.5L; }
static V3l mean(const std::vector<P3>& q) { V3l s = {0, 0, 0}; for (auto& p : q) s = s + toL(p); return s * (1.0L / q.size()); }
static std::vector<P3> ring(CGeoPolygon<R>& f) { std::vector<P3> v; int n = f.polyline().nbVertices(); for (int i = 0; i + 1 < n; ++i) v.push_back(f.polyline().vertex(i)); return v; }
static void verify(Run& r, CFvmMesh<R>& f, Mesh& m, double h) { // h: size of a cell
    if (!r.expect(f.nbControlVolumes() == m.nbElements(), "cells", "%d want %d", f.nbControlVolumes(), m.nbElements())) return;
    std::map<std::vector<int>, std::vector<int>> side; for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); for (auto& s : sidesOf(e.elementType())) side[cyc(sideNodes(e, s))].push_back(id); }
    if (!r.expect(f.nbFaces() == (int)side.size(), "faces", "%d want %zu", f.nbFaces(), side.size())) return;
    // identify faces with sides by their corner points
    std::map<std::array<ll, 3>, int> node; auto key = [&](const P3& p) { return std::array<ll, 3>{std::llround(p.x() / (1e-5 * h)), std::llround(p.y() / (1e-5 * h)), std::llround(p.z() / (1e-5 * h))}; }; for (int i = 0; i < m.nbNodes(); ++i) node[key(m.node(m.nodeId(i)))] = m.nodeId(i);
    std::map<int, std::vector<int>> sideOfFace; std::set<std::vector<int>> seen;
    for (int i = 0; i < f.nbFaces(); ++i) { int id = f.faceId(i); r.expect(f.faceIndex(id) == i, "face-index"); auto& fc = f.face(id); std::vector<int> n; for (auto& p : ring(fc)) { auto it = node.find(key(p)); n.push_back(it == node.end() ? -1 : it->second); } auto s = side.find(cyc(n)); if (!r.expect(s != side.end() && seen.insert(cyc(n)).second, "face-is-a-side", "face %d", id)) return; sideOfFace[id] = s->first; auto own = s->second; bool pair = own.size() == 2; r.expect(fc.hasPair() == pair, "pair", "face %d", id); int o = fc.controlVolumeId(); r.expect(std::count(own.begin(), own.end(), o) == 1, "owner"); if (pair) { int nb = own[0] == o ? own[1] : own[0]; r.expect(fc.neighborId(o) == nb && fc.neighborId(nb) == o, "neighbour", "face %d: %d/%d want %d/%d", id, fc.neighborId(o), fc.neighborId(nb), nb, o); }
        std::vector<P3> v = ring(fc); V3l a = areaVec(v); fc.calculateArea(); fc.calculateNormal(); r.expect(std::fabs(fc.area() - (double)norm(a)) < 1e-9 * h * h, "face-area"); V3l out = mean(v) - mean(ptsOf(m, m.element(o))); r.expect(dot(a, out) > 0, "face-normal", "face %d of cell %d points inwards", id, o); r.expect(fc.boundaryType() == BT_NONE, "boundary-type"); }
    double tot = 0; std::map<int, int> use;
    for (int i = 0; i < f.nbControlVolumes(); ++i) { int id = f.controlVolumeId(i); if (!r.expect(m.elementIndex(id) == i || true, "x")) return; r.expect(f.controlVolumeIndex(id) == i, "cell-index"); auto& cv = f.controlVolume(id); auto& e = m.element(id); r.expect(cv.controlVolumeId() == id, "cell-id"); if (!r.expect(cv.nbFaces() == (int)sidesOf(e.elementType()).size(), "cell-faces")) return; std::multiset<std::vector<int>> w, g; for (auto& s : sidesOf(e.elementType())) w.insert(cyc(sideNodes(e, s))); V3l sum = {0, 0, 0}; double ar = 0; cv.calculateCentroid(true);
        for (int k = 0; k < cv.nbFaces(); ++k) { int fid = cv.faceId(k); use[fid]++; g.insert(sideOfFace[fid]); r.expect(cv.containsFace(fid), "contains"); auto& fc = f.face(fid); int o = fc.controlVolumeId(); r.expect(fc.controlVolumeId(id) == id || fc.neighborId(o) == id, "cell-of-face"); cv.calculateFaceArea(fid); cv.calculateFaceNormal(fid); cv.calculateFaceCentroid(fid); double A = cv.faceArea(fid); auto& n = cv.faceNormal(fid); ar += A; V3l nv = {n.x(), n.y(), n.z()}; sum = sum + nv * A; V3l fa = areaVec(ring(fc)); LD sg = o == id ? 1 : -1; r.expect(norm(nv * A - fa * sg) < 1e-9 * h * h, "orientation", "cell %d face %d", id, fid); V3l d = toL(P3(cv.faceDist(fid).x(), cv.faceDist(fid).y(), cv.faceDist(fid).z())); r.expect(dot(nv, d) > 0, "outward", "cell %d face %d", id, fid); }
        r.expect(g == w, "cell-sides"); r.expect(norm(sum) < 1e-9 * h * h, "closed", "cell %d: area vectors sum to %g", id, (double)norm(sum)); cv.calculateVolume(); double V = measureOf(m, id); r.expect(std::fabs(cv.volume() - V) < 1e-9 * h * h * h, "volume", "cell %d %.12g want %.12g", id, cv.volume(), V); tot += V; cv.calculateSurfaceArea(true); r.expect(near(cv.surfaceArea(), ar), "surface"); r.expect(!cv.isClipped(), "unclipped"); cv.calculateOriginalVolume(); r.expect(near(cv.originalVolume(), V), "original-volume"); }
    for (auto& u : use) { auto& s = side[sideOfFace[u.first]]; r.expect(u.second == (int)s.size(), "face-use"); } r.expect((int)use.size() == f.nbFaces(), "face-unused"); double v = f.volume(); r.expect(near(v, tot, 1e-9), "total-volume", "%.12g want %.12g", v, tot); r.expect(near(f.volume(), tot, 1e-9), "total-volume-again");
    int nf = f.nextFaceId(), nc = f.nextControlVolumeId(); r.expect(!use.count(nf), "next-face"); bool fr = true; for (int i = 0; i < f.nbControlVolumes(); ++i) fr = fr && f.controlVolumeId(i) != nc; r.expect(fr, "next-cell");
    r.expect(f.mesh().nbElements() == m.nbElements() && f.mesh().nbNodes() == m.nbNodes(), "mesh"); r.outcome(Hash().add(f.nbFaces()).add(f.nbControlVolumes())); }
SECTION("subsets", "every non-empty subset of the cells of 7 small grids (2x2x2 hexahedra, 6 tetrahedra, 4 prisms, hexahedra with prisms, tapered and skewed cells) x 4 numberings: one cell per element, faces shared by exactly the two cells of a side, closed outward cells, exact volumes, identifiers") {
    auto skew = [](MD d) { d.name += "-skew"; for (auto& p : d.p) p = P3(p.x() + 0.3 * p.y(), p.y() - 0.2 * p.z(), p.z() + 0.1 * p.x()) + P3(5, -3, 2); return d; };
    std::vector<MD> ms = {gridHex(2, 2, 2, 1, 0.5, 0.7, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 1, 1, 0.1, 0.3, 0.7, 2), gridHex(3, 1, 1, 1, 1, 2, 3), skew(gridHex(2, 2, 1, 1, 0.5, 0.7, 0)), skew(gridHex(1, 1, 1, 1, 1, 1, 1)), skew(gridHex(3, 1, 1, 0.01, 0.01, 0.02, 3)), gridHex(4, 1, 1, 1.0 / 3, 1, 0.1, 0), gridHex(2, 1, 1, 1, 1, 1, 1)}; std::vector<double> hs = {1, 1, 0.3, 1, 1, 1, 0.01, 0.33, 1};
    for (size_t k = 0; k < ms.size(); ++k) for (int s = 0; s < 4; ++s) for (int sub = 1; sub < (1 << ms[k].e.size()); ++sub) {
        if (!r.thorough && ms[k].e.size() > 6 && sub % (ms[k].e.size() > 8 ? 37 : 2) != s % 2) continue; if (r.thorough && ms[k].e.size() > 8 && sub % 3 != s % 3) continue;
        if (!r.next([&] { return ms[k].name + strf(" numbering %d cells %x", s, sub); })) continue;
        MD d = ms[k]; std::vector<std::pair<EElementType, std::vector<int>>> e; for (size_t i = 0; i < d.e.size(); ++i) if (sub >> i & 1) e.push_back(d.e[i]); d.e = e; Mesh m = mkMeshN(d, s); m.generateFaces(1e-6 * hs[k]); CFvmMesh<R> f(m); r.op(); verify(r, f, m, hs[k]); r.state(Hash().add(k).add(s).add(sub)); r.trace(); }
}
SECTION("again", "every sequence of 1..3 conversions of 5 meshes into one finite-volume mesh (set or reset and set): the last one is as if fresh; copies are independent") {
    std::vector<MD> ms = {gridHex(2, 1, 1, 1, 1, 1, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(1, 1, 1, 1, 1, 1, 2), gridHex(3, 1, 1, 1, 1, 1, 3), gridHex(1, 1, 1, 1, 1, 1, 0)};
    for (int n = 1; n <= 3; ++n) sequences(n, 5, [&](const std::vector<int>& q) { for (int rs = 0; rs < 2; ++rs) {
        if (!r.next([&] { return "meshes " + show(q) + strf(" reset %d", rs); })) continue;
        CFvmMesh<R> f; Mesh m; for (size_t i = 0; i < q.size(); ++i) { m = mkMeshN(ms[q[i]], (q[i] + i) % 4); m.generateFaces(1e-6); if (rs) { f.reset(); r.expect(f.nbFaces() == 0 && f.nbControlVolumes() == 0 && f.volume() == 0 && f.nextFaceId() == 0, "reset"); } f.set(m); r.op(); } verify(r, f, m, 1); CFvmMesh<R> g = f; f.reset(); verify(r, g, m, 1); Hash h; for (int i : q) h.add(i); r.state(h.add(rs)); r.trace(); } });
}
SECTION("identifiers", "every sequence of up to 5 (thorough 6) additions and removals of faces and additions of cells over 3 identifiers: counts, lists, indices and next identifiers agree with a model") {
    int N = r.thorough ? 6 : 5; for (int n = 1; n <= N; ++n) sequences(n, 9, [&](const std::vector<int>& q) {
        if (!r.next([&] { return "operations " + show(q); })) return; int ids[3] = {4, 1, 9}; CFvmMesh<R> f; std::vector<int> F, V; std::map<int, double> val;
        for (size_t i = 0; i < q.size(); ++i) { int id = ids[q[i] % 3]; CFvmFace<R> fc; for (auto p : {P3(0, 0, 0), P3(1.0 + i, 0, 0), P3(0, 2, 0)}) fc.addNode(CFvmNode<R>(p.x(), p.y(), p.z())); fc.close(); CFvmControlVolume<R> cv; cv.setControlVolumeId(id); if (q[i] < 3) { f.addFace(id, fc); if (!std::count(F.begin(), F.end(), id)) F.push_back(id); val[id] = 1.0 + i; } else if (q[i] < 6) { f.removeFace(id); F.erase(std::remove(F.begin(), F.end(), id), F.end()); } else { f.addControlVolume(id, cv); if (!std::count(V.begin(), V.end(), id)) V.push_back(id); } r.op();
            if (!r.expect(f.nbFaces() == (int)F.size() && f.nbControlVolumes() == (int)V.size(), "counts", "%d faces want %zu, %d cells want %zu", f.nbFaces(), F.size(), f.nbControlVolumes(), V.size())) return; std::set<int> g; for (int k = 0; k < f.nbFaces(); ++k) { int x = f.faceId(k); g.insert(x); if (!r.expect(f.faceIndex(x) == k, "face-index", "face %d index %d want %d", x, f.faceIndex(x), k)) return; f.face(x).calculateArea(true); r.expect(near(f.face(x).area(), val[x]), "content"); } r.expect(g == std::set<int>(F.begin(), F.end()), "face-list"); g.clear(); for (int k = 0; k < f.nbControlVolumes(); ++k) { int x = f.controlVolumeId(k); g.insert(x); r.expect(f.controlVolumeIndex(x) == k, "cell-index"); r.expect(f.controlVolume(x).controlVolumeId() == x, "cell"); } r.expect(g == std::set<int>(V.begin(), V.end()), "cell-list"); r.expect(!std::count(F.begin(), F.end(), f.nextFaceId()) && !std::count(V.begin(), V.end(), f.nextControlVolumeId()), "next"); }
        Hash h; for (int i : q) h.add(i); r.state(h); Hash o; for (int i : F) o.add(i); o.add(99); for (int i : V) o.add(i); r.outcome(o); r.trace(); });
}
SECTION("search", "4 grids x every lattice and half-lattice query position x 6 distances: exactly the boundary faces with their centroid closer than the distance; search objects reused") {
    std::vector<MD> ms = {gridHex(2, 2, 1, 1, 1, 1, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 1, 1, 1, 1, 1, 2), gridHex(1, 1, 3, 0.5, 0.5, 0.25, 0)};
    for (size_t k = 0; k < ms.size(); ++k) for (int s = 0; s < 4; ++s) for (auto& p : lattice(6, 6, 4)) {
        if (!r.next([&] { std::ostringstream o; o << ms[k].name << " numbering " << s << " at " << p; return o.str(); })) continue;
        Mesh m = mkMeshN(ms[k], s); m.generateFaces(1e-6); CFvmMesh<R> f(m); P3 x((p.x - 1) * 0.5, (p.y - 1) * 0.5, (p.z - 1) * 0.5); Mesh m0 = mkMeshN(ms[(k + 1) % ms.size()], 1); m0.generateFaces(1e-6); CFvmMesh<R> f0(m0); CFvmMeshSearch<R> q(f0); q.build(); for (int round = 0; round < 2; ++round) { q.set(f); q.build(); for (double d : {0.1, 0.49, 0.8, 1.3, 2.1, 9.0}) { std::vector<Integer> g = {77}; q.findClosestBoundaryFaces(x, d, g); r.op(); std::sort(g.begin(), g.end()); std::vector<Integer> w; bool edge = false; for (int i = 0; i < f.nbFaces(); ++i) { auto& fc = f.face(f.faceId(i)); auto v = ring(fc); LD l = norm(mean(v) - toL(x)); if (!fc.hasPair()) { if (std::fabs((double)l - d) < 1e-9) edge = true; if (l < d) w.push_back(f.faceId(i)); } } std::sort(w.begin(), w.end()); r.outcome(Hash().add(w.size())); if (!edge) r.expect(g == w, "found", "distance %g: %s want %s", d, show(g).c_str(), show(w).c_str()); } }
        r.state(Hash().add(k).add(s).add(p.x).add(p.y).add(p.z)); r.trace(); }
}
