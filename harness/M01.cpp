// Mesh container histories against a map model.
#include "msh.hpp"
struct Nd { static int nb(const Mesh& m) { return m.nbNodes(); } static int id(const Mesh& m, int i) { return m.nodeId(i); } static int index(const Mesh& m, int i) { return m.nodeIndex(i); } static int nextId(const Mesh& m) { return m.nextNodeId(); }
    static void add(Mesh& m, int id, int v) { m.addNode(id, CMshNode<R>(v, -v, v * 0.5)); } static void rem(Mesh& m, int id) { m.removeNode(id); } static bool is(const Mesh& m, int id, int v) { auto& n = m.node(id); return n.x() == v && n.y() == -v && n.z() == v * 0.5; } static void mod(Mesh& m, int id, int v) { auto& n = m.node(id); n.x() = v; n.y() = -v; n.z() = v * 0.5; } };
struct El { static int nb(const Mesh& m) { return m.nbElements(); } static int id(const Mesh& m, int i) { return m.elementId(i); } static int index(const Mesh& m, int i) { return m.elementIndex(i); } static int nextId(const Mesh& m) { return m.nextElementId(); }
    static void add(Mesh& m, int id, int v) { auto e = mkElem(ET_BEAM, {v, v + 1}); e.setThickness(v); e.addFaceId(v * 3); m.addElement(id, e); } static void rem(Mesh& m, int id) { m.removeElement(id); } static bool is(const Mesh& m, int id, int v) { auto& e = m.element(id); return e.elementType() == ET_BEAM && e.nbNodeIds() == 2 && e.nodeId(0) == v && e.nodeId(1) == v + 1 && e.thickness() == v && e.nbFaceIds() == 1 && e.faceId(0) == 3 * v; } static void mod(Mesh& m, int id, int v) { auto& e = m.element(id); e.setNodeId(0, v); e.setNodeId(1, v + 1); e.setThickness(v); e.setFaceId(0, 3 * v); } };
struct Fc { static int nb(const Mesh& m) { return m.nbFaces(); } static int id(const Mesh& m, int i) { return m.faceId(i); } static int index(const Mesh& m, int i) { return m.faceIndex(i); } static int nextId(const Mesh& m) { return m.nextFaceId(); }
    static void add(Mesh& m, int id, int v) { CMshFace<R> f(FT_LINE); f.addNodeId(v); f.addNodeId(v + 1); f.setElementId(v + 2); if (v % 2) f.setPairFaceId(v + 3); m.addFace(id, f); } static void rem(Mesh& m, int id) { m.removeFace(id); } static bool is(const Mesh& m, int id, int v) { auto f = m.face(id); return f.faceType() == FT_LINE && f.nbNodeIds() == 2 && f.nodeId(0) == v && f.nodeId(1) == v + 1 && f.elementId() == v + 2 && (v % 2 ? f.hasPair() && f.pairFaceId() == v + 3 : !f.hasPair()); } static void mod(Mesh& m, int id, int v) { auto& f = m.face(id); f.setNodeId(0, v); f.setNodeId(1, v + 1); f.setElementId(v + 2); if (v % 2) f.setPairFaceId(v + 3); else f.setHasPair(false); } };
typedef std::map<int, int> Model;
template <class K> static bool same(Run& r, const Mesh& m, const Model& w, bool idx, const char* at) {
    std::set<int> ids; int n = K::nb(m); bool ok = r.expect(n == (int)w.size(), "count", "%s: %d entities, want %zu", at, n, w.size());
    for (int i = 0; i < n && ok; ++i) { int id = K::id(m, i); ids.insert(id); ok = r.expect(w.count(id) && K::is(m, id, w.at(id)), "content", "%s: identifier %d at position %d", at, id, i); if (ok && idx) ok = r.expect(K::index(m, id) == i, "index", "%s: identifier %d at position %d has index %d", at, id, i, K::index(m, id)); }
    ok = ok && r.expect(ids.size() == w.size(), "ids", "%s", at); int nx = K::nextId(m); return ok && r.expect(!w.count(nx), "next-id", "%s: %d in use", at, nx);
}
static const int IDS[3] = {4, 0, 9};
// operations: 0-2 add id (replacing), 3-5 remove id (possibly unknown), 6 rebuild indices, 7 copy-construct and change the copy, 8 assign and change the source, 9 reset
template <class K> static void hist(Run& r, int depth) {
    sequences(depth, 10, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "operations " + show(s); })) return;
        Mesh m; Model w; int v = 1; bool dirty = false; Hash h;
        for (int o : s) { r.op(); ++v;
            if (o < 3) { K::add(m, IDS[o], v); w[IDS[o]] = v; }
            else if (o < 6) { if (!w.empty() || true) { K::rem(m, IDS[o - 3]); if (w.erase(IDS[o - 3])) dirty = true; } }
            else if (o == 6) { m.rebuildIndices(); dirty = false; }
            else if (o == 7) { Mesh c(m); if (!same<K>(r, c, w, !dirty, "copy")) return; if (!w.empty()) { int id = w.begin()->first; K::mod(c, id, 50 + v); K::rem(c, w.rbegin()->first); } K::add(c, 77, v); }
            else if (o == 8) { Mesh c; K::add(c, 5, 99); c = m; Model cw = w; if (!w.empty()) { int id = w.begin()->first; K::mod(m, id, 50 + v); w[id] = 50 + v; } if (!same<K>(r, c, cw, !dirty, "assigned")) return; }
            else { m.reset(); w.clear(); dirty = false; }
            if (!same<K>(r, m, w, !dirty, strf("after operation %d", o).c_str())) return;
            h.add(o); r.state(Hash(h)); }
        m.rebuildIndices(); same<K>(r, m, w, true, "rebuilt"); int nx = K::nextId(m); K::add(m, nx, 7); w[nx] = 7; same<K>(r, m, w, true, "next added"); r.outcome(Hash().add(w.size()).add(dirty)); r.trace(); });
}
SECTION("nodes", "every sequence of 5 (thorough 6) operations over three identifiers: add or replace, remove (unknown ones included), rebuild, copy and change the copy, assign and change the source, reset") { hist<Nd>(r, r.thorough ? 6 : 5); }
SECTION("elements", "the same histories for elements with node lists, face lists and thickness") { hist<El>(r, r.thorough ? 6 : 5); }
SECTION("faces", "the same histories for faces with pairs and owners") { hist<Fc>(r, r.thorough ? 6 : 5); }
SECTION("kinds", "every sequence of 6 (thorough 7) operations over all three kinds at once (add, remove, rebuild, copy): the kinds do not interfere; scalar attributes and centroids travel with copies") {
    sequences(r.thorough ? 7 : 6, 8, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "operations " + show(s); })) return;
        Mesh m; Model n, e, f; int v = 1; m.setDx(1.5); m.setDy(-2); m.setDz(0.25); Hash h;
        for (int o : s) { ++v; r.op(); h.add(o); switch (o) { case 0: Nd::add(m, v, v); n[v] = v; break; case 1: El::add(m, v, v); e[v] = v; break; case 2: Fc::add(m, v, v); f[v] = v; break;
            case 3: if (n.size()) { int i = n.begin()->first; Nd::rem(m, i); n.erase(i); } break; case 4: if (e.size()) { int i = e.begin()->first; El::rem(m, i); e.erase(i); } break; case 5: if (f.size()) { int i = f.begin()->first; Fc::rem(m, i); f.erase(i); } break;
            case 6: m.rebuildIndices(); break; case 7: { Mesh c(m); r.expect(c.dx() == 1.5 && c.dy() == -2 && c.dz() == 0.25, "attributes", "copy has (%g %g %g)", c.dx(), c.dy(), c.dz()); m = c; break; } } r.state(Hash(h)); }
        m.rebuildIndices(); same<Nd>(r, m, n, true, "nodes"); same<El>(r, m, e, true, "elements"); same<Fc>(r, m, f, true, "faces"); r.expect(m.dx() == 1.5 && m.dy() == -2 && m.dz() == 0.25, "attributes"); r.outcome(Hash().add(n.size()).add(e.size()).add(f.size())); r.trace(); });
}
SECTION("meshes", "every mesh of the catalogue in 4 numberings: content, copies (with generated faces, centroids and boundary count), then removal of every single entity from the copy") {
    for (auto& d : meshCatalogue()) for (int s = 0; s < 4; ++s) {
        if (!r.next([&] { return d.name + strf(" numbering %d", s); })) continue;
        Mesh m = mkMeshN(d, s); m.generateFaces(1e-9); m.calculateFaceCentroid(); m.calculateElementCentroid(); r.op(3);
        auto eq = [&](Mesh& a, Mesh& b) { bool ok = a.nbNodes() == b.nbNodes() && a.nbElements() == b.nbElements() && a.nbFaces() == b.nbFaces() && a.nbBoundaryFaces() == b.nbBoundaryFaces();
            for (int i = 0; ok && i < a.nbNodes(); ++i) { int id = a.nodeId(i); ok = a.node(id) == b.node(id) && a.nodeIndex(id) == i && b.nodeId(b.nodeIndex(id)) == id; }
            for (int i = 0; ok && i < a.nbElements(); ++i) { int id = a.elementId(i); ok = nodesOf(a.element(id)) == nodesOf(b.element(id)) && a.element(id).elementType() == b.element(id).elementType() && a.elementIndex(id) == i && (a.elementCentroid(id) - b.elementCentroid(id)).norm() == 0; for (int k = 0; ok && k < a.element(id).nbFaceIds(); ++k) ok = a.element(id).faceId(k) == b.element(id).faceId(k); }
            for (int i = 0; ok && i < a.nbFaces(); ++i) { int id = a.faceId(i); ok = nodesOf(a.face(id)) == nodesOf(b.face(id)) && a.face(id).hasPair() == b.face(id).hasPair() && a.face(id).elementId() == b.face(id).elementId() && (!a.face(id).hasPair() || a.face(id).pairFaceId() == b.face(id).pairFaceId()) && (a.faceCentroid(id) - b.faceCentroid(id)).norm() == 0; } return ok; };
        Mesh c(m), o(m); bool thrown = false; try { r.expect(eq(m, c), "copy"); } catch (std::exception& x) { r.expect(false, "copy", "%s", x.what()); }
        Mesh a; a.addNode(3, CMshNode<R>(1, 2, 3)); a = m; try { r.expect(eq(m, a), "assignment"); } catch (std::exception& x) { r.expect(false, "assignment", "%s", x.what()); }
        for (auto& p : d.p) (void)p; for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto v = ptsOf(m, m.element(id)); P3 q(0, 0, 0); for (auto& x : v) q += x; q /= (double)v.size(); r.expect((m.elementCentroid(id) - q).norm() < 1e-12, "element-centroid"); }
        for (int i = 0; i < m.nbFaces(); ++i) { int id = m.faceId(i); P3 q(0, 0, 0); auto v = nodesOf(m.face(id)); for (int x : v) q += m.node(x); q /= (double)v.size(); r.expect((m.faceCentroid(id) - q).norm() < 1e-12, "face-centroid"); }
        while (c.nbElements()) { int id = c.elementId(c.nbElements() / 2); c.removeElement(id); c.rebuildIndices(); r.op(); for (int i = 0; i < c.nbElements(); ++i) if (c.elementIndex(c.elementId(i)) != i) r.expect(false, "drain-index"); } while (c.nbNodes()) { c.removeNode(c.nodeId(c.nbNodes() / 3)); r.op(); } r.expect(c.nbElements() == 0 && c.nbNodes() == 0 && o.nbElements() == (int)d.e.size() && o.nbNodes() == (int)d.p.size(), "drained");
        r.state(Hash().adds(d.name).add(s)); r.outcome(Hash().add(m.nbFaces()).add(m.nbBoundaryFaces())); r.trace(); }
}
