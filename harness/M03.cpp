// Joining, merging, renumbering, cleaning, scaling and inverting meshes.
#include "msh.hpp"
typedef std::vector<std::vector<ll>> Geo; // geometry of the elements as rounded coordinates, in storage order
static std::vector<ll> key(const Mesh& m, const CMshElement<R>& e, double q = 1e-7) { std::vector<ll> k; k.push_back(e.elementType()); for (auto& p : ptsOf(m, e)) for (int c = 0; c < 3; ++c) k.push_back(std::llround(p[c] / q)); return k; }
static std::multiset<std::vector<ll>> geo(const Mesh& m, double q = 1e-7) { std::multiset<std::vector<ll>> g; for (int i = 0; i < m.nbElements(); ++i) g.insert(key(m, m.element(m.elementId(i)), q)); return g; }
static bool indexOk(const Mesh& m) { for (int i = 0; i < m.nbNodes(); ++i) if (m.nodeIndex(m.nodeId(i)) != i) return false; for (int i = 0; i < m.nbElements(); ++i) if (m.elementIndex(m.elementId(i)) != i) return false; for (int i = 0; i < m.nbFaces(); ++i) if (m.faceIndex(m.faceId(i)) != i) return false; return true; }
static bool refsOk(Run& r, Mesh& m, const char* at) { try { for (int i = 0; i < m.nbElements(); ++i) for (int n : nodesOf(m.element(m.elementId(i)))) m.node(n); for (int i = 0; i < m.nbFaces(); ++i) for (int n : nodesOf(m.face(m.faceId(i)))) m.node(n); } catch (std::exception&) { return r.expect(false, "dangling-reference", "%s", at); } return true; }
// face references: owner, pair and element lists agree (used when faces were generated before the operation)
static bool facesOk(Run& r, Mesh& m, const char* at) {
    try { for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); std::multiset<std::vector<int>> w, g; for (auto& s : sidesOf(e.elementType())) w.insert(cyc(sideNodes(e, s))); for (int k = 0; k < e.nbFaceIds(); ++k) { auto& f = m.face(e.faceId(k)); g.insert(cyc(nodesOf(f))); if (!r.expect(f.elementId() == id, "face-owner", "%s: face %d of element %d says %d", at, e.faceId(k), id, f.elementId())) return false; } if (!r.expect(w == g, "face-list", "%s: element %d", at, id)) return false; }
        for (int i = 0; i < m.nbFaces(); ++i) { int id = m.faceId(i); auto& f = m.face(id); if (f.hasPair()) { auto& p = m.face(f.pairFaceId()); if (!r.expect(p.hasPair() && p.pairFaceId() == id && cyc(nodesOf(p)) == cyc(nodesOf(f)), "face-pair", "%s: face %d", at, id)) return false; } } } catch (std::exception&) { return r.expect(false, "face-reference", "%s", at); } return true; }
static MD moved(const MD& d, double x, double y, double z) { MD q = d; for (auto& p : q.p) p += P3(x, y, z); return q; }
static int distinctPts(const std::vector<P3>& v) { std::vector<P3> u; for (auto& p : v) { bool f = false; for (auto& q : u) f |= (p - q).norm() < 1e-6; if (!f) u.push_back(p); } return u.size(); }
SECTION("join", "all ordered pairs of 8 mesh kinds placed side by side, identical or apart x 3x3 numberings x with or without faces generated before x merging tolerance 0 (binary-exact placement) or 1e-6 (moved by 1e-7): geometry, measure, distinct nodes, references, shared sides found afterwards") {
    std::vector<MD> ms = {gridQuad(2, 1, 0.5, 0.25, 0), gridQuad(2, 1, 0.5, 0.25, 1), gridQuad(2, 1, 0.5, 0.25, 2), gridHex(1, 1, 1, 1, 0.5, 0.25, 0), gridHex(1, 1, 1, 1, 0.5, 0.25, 1), gridHex(1, 1, 1, 1, 0.5, 0.25, 2), gridLine(2, 1), gridHex(2, 1, 1, 0.5, 0.5, 0.25, 3)};
    for (size_t a = 0; a < ms.size(); ++a) for (size_t b = 0; b < ms.size(); ++b) for (int pos = 0; pos < 4; ++pos) for (int s = 0; s < 9; ++s) for (int opt = 0; opt < 4; ++opt) {
        if (!r.next([&] { return ms[a].name + " + " + ms[b].name + strf(" placement %d numbering %d,%d faces %d perturbed %d", pos, s / 3 + 1, s % 3 + 1, opt & 1, opt >> 1); })) continue;
        double jit = opt >> 1 ? 1e-7 : 0; MD q = pos == 0 ? moved(ms[b], 1, 0, 0) : pos == 1 ? moved(ms[b], 0, 0.5, 0) : pos == 2 ? moved(ms[b], 3, 3, 3) : moved(ms[b], -1, 0, 0); q = moved(q, jit, -jit, 0);
        Mesh m = mkMeshN(ms[a], s / 3 + 1), o = mkMeshN(q, s % 3 + 1); if (opt & 1) { m.generateFaces(1e-9); o.generateFaces(1e-9); }
        auto ga = geo(m, 1e-5), gb = geo(o, 1e-5); double tot = totalMeasure(m) + totalMeasure(o); int nn = m.nbNodes() + o.nbNodes(), nf = m.nbFaces() + o.nbFaces(); ga.insert(gb.begin(), gb.end());
        m.addMesh(o); r.op(); r.expect(m.nbNodes() == nn && m.nbFaces() == nf && geo(m, 1e-5) == ga && indexOk(m), "joined"); if (opt & 1) facesOk(r, m, "joined"); r.expect(geo(o, 1e-5) == gb && o.nbNodes() == (int)q.p.size(), "source");
        std::vector<P3> all = ms[a].p; all.insert(all.end(), q.p.begin(), q.p.end()); int dist = distinctPts(all);
        m.mergeNodes(jit > 0 ? 1e-6 : 0.0); r.op(); if (!refsOk(r, m, "merged")) continue; r.expect(m.nbNodes() == dist, "distinct", "%d nodes, want %d", m.nbNodes(), dist); r.expect(geo(m, 1e-5) == ga, "geometry"); r.expect(near(totalMeasure(m), tot, 1e-5), "measure"); r.expect(indexOk(m), "index"); if (opt & 1) facesOk(r, m, "merged");
        m.mergeNodes(1e-6); r.expect(m.nbNodes() == dist && geo(m, 1e-5) == ga, "merge-again");
        m.generateFaces(1e-6); int pairs = 0; for (int i = 0; i < m.nbFaces(); ++i) pairs += m.face(m.faceId(i)).hasPair(); std::map<std::vector<int>, int> c; for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); for (auto& sd : sidesOf(e.elementType())) c[cyc(sideNodes(e, sd))]++; } int want = 0; for (auto& x : c) if (x.second == 2) want += 2; r.expect(pairs == want, "pairs-after-merge", "%d want %d", pairs, want);
        m.renumber(); r.op(); r.expect(geo(m, 1e-5) == ga && indexOk(m), "renumbered"); facesOk(r, m, "renumbered"); bool zero = true; for (int i = 0; i < m.nbNodes(); ++i) zero = zero && m.nodeId(i) == i; for (int i = 0; i < m.nbElements(); ++i) zero = zero && m.elementId(i) == i; for (int i = 0; i < m.nbFaces(); ++i) zero = zero && m.faceId(i) == i; r.expect(zero, "identifiers");
        m.addNode(m.nextNodeId(), CMshNode<R>(9, 9, 9)); r.expect(m.nodeIndex(m.nbNodes() - 1) == m.nbNodes() - 1, "add-after");
        r.state(Hash().add(a).add(b).add(pos).add(s).add(opt)); r.outcome(Hash().add(dist).add(want)); r.trace(); }
}
SECTION("coincident", "every assignment of 5 nodes (in every order of their identifiers) to 3 positions, joined by beams between all different positions: every class of coincident nodes becomes one node, exact and within tolerance") {
    sequences(5, 3, [&](const std::vector<int>& pos) { permutations(5, [&](const std::vector<int>& ids) {
        if (!r.next([&] { return "positions " + show(pos) + " ids " + show(ids); })) return;
        for (double jit : {0.0, 1e-5}) { Mesh m; for (int i = 0; i < 5; ++i) m.addNode(ids[i] * 2 + 1, CMshNode<R>(pos[i] * 0.1 + jit * (i % 3), 0.3 * pos[i], pos[i] == 1 ? 0.7 : jit * (i % 2))); int e = 0, valid = 0; for (int i = 0; i < 5; ++i) for (int j = i + 1; j < 5; ++j) { m.addElement(20 - e++, mkElem(ET_BEAM, {ids[i] * 2 + 1, ids[j] * 2 + 1})); if (pos[i] != pos[j]) ++valid; }
            m.mergeNodes(jit == 0 ? 0 : 1e-3); r.op(); if (!refsOk(r, m, "merged")) continue; int want = std::set<int>(pos.begin(), pos.end()).size(); r.expect(m.nbNodes() == want, "nodes", "%d, want %d", m.nbNodes(), want); r.expect(m.nbElements() == valid && indexOk(m), "collapsed-elements", "%d, want %d", m.nbElements(), valid); std::multiset<std::vector<int>> g; for (int i = 0; i < m.nbElements(); ++i) { auto v = ptsOf(m, m.element(m.elementId(i))); int a = std::lround(v[0].x() * 10), b = std::lround(v[1].x() * 10); g.insert({a, b}); } std::multiset<std::vector<int>> w; for (int i = 0; i < 5; ++i) for (int j = i + 1; j < 5; ++j) if (pos[i] != pos[j]) w.insert({pos[i], pos[j]}); r.expect(g == w, "geometry"); }
        Hash h; for (int i : pos) h.add(i); for (int i : ids) h.add(i); r.state(h); r.outcome(Hash().add(std::set<int>(pos.begin(), pos.end()).size())); r.trace(); }); });
}
SECTION("chains", "four nodes spaced by less than the tolerance (so that not all lie within it of each other) plus one apart, in every order of identifiers and of storage: after merging every element refers to existing nodes within reach and nothing else moved") {
    permutations(5, [&](const std::vector<int>& ids) { permutations(5, [&](const std::vector<int>& order) {
        if (!r.next([&] { return "ids " + show(ids) + " stored " + show(order); })) return;
        Mesh m; double x[5] = {0, 0.6, 1.2, 1.8, 50}; for (int k : order) m.addNode(ids[k], CMshNode<R>(x[k], 0, 0)); for (int k = 0; k < 4; ++k) m.addElement(k, mkElem(ET_BEAM, {ids[k], ids[4]})); m.mergeNodes(1.0); r.op(); if (!refsOk(r, m, "merged")) return;
        r.expect(m.nbElements() == 4, "elements"); for (int k = 0; k < 4; ++k) { auto v = ptsOf(m, m.element(k)); r.expect(v[1].x() == 50 && v[0].x() <= 1.8 && v[0].x() >= 0, "reach"); } r.expect(indexOk(m), "index");
        Hash h; for (int i : ids) h.add(i); for (int i : order) h.add(i); r.state(h); r.outcome(m.nbNodes()); r.trace(); }); });
}
SECTION("clean", "every mesh of the catalogue in 4 numberings, with every choice of up to two elements removed and with extra unused nodes: dangling nodes removed exactly, degenerate elements removed exactly, renumbered, scaled, inverted (twice)") {
    for (auto& d : meshCatalogue()) for (int s = 0; s < 4; ++s) {
        if (!r.next([&] { return d.name + strf(" numbering %d", s); })) continue;
        for (int fa = 0; fa < 2; ++fa) for (size_t a = 0; a < d.e.size(); ++a) for (size_t b = a; b < d.e.size(); ++b) { if (a > 2 && (a + b) % 5) continue; Mesh m = mkMeshN(d, s); if (fa) { m.generateFaces(1e-9); } int x = m.elementId(a), y = m.elementId(b); if (fa) { Mesh t = m; t.renumber(); facesOk(r, t, "renumbered"); t.calculateFaceCentroid(); r.op(); }
            else { m.removeElement(x); if (x != y) m.removeElement(y); int e1 = m.nextNodeId(); m.addNode(e1, CMshNode<R>(77, 78, 79)); m.addNode(e1 + 5, CMshNode<R>(0, 0, 0)); auto g = geo(m); std::set<int> used; for (int i = 0; i < m.nbElements(); ++i) for (int n : nodesOf(m.element(m.elementId(i)))) used.insert(n); m.removeDanglingNodes(); m.rebuildIndices(); r.op(); r.expect(m.nbNodes() == (int)used.size() && geo(m) == g && indexOk(m), "dangling", "%d nodes, want %zu", m.nbNodes(), used.size()); for (int i = 0; i < m.nbNodes(); ++i) r.expect(used.count(m.nodeId(i)), "dangling-kept");
                if (m.nbElements()) { int z = m.nextElementId(); auto v = nodesOf(m.element(m.elementId(0))); auto w = v; w.back() = w[0]; m.addElement(z, mkElem(m.element(m.elementId(0)).elementType(), w)); m.removeInvalidElements(); m.rebuildIndices(); r.expect(geo(m) == g && indexOk(m), "invalid"); }
                m.renumber(); r.op(); r.expect(geo(m) == g && indexOk(m), "renumber"); for (int i = 0; i < m.nbNodes(); ++i) r.expect(m.nodeId(i) == i, "identifiers"); double t = totalMeasure(m); m.scale(4); int dim = m.nbElements() ? (m.element(m.elementId(0)).elementType() >= ET_TETRAHEDRON ? 3 : m.element(m.elementId(0)).elementType() >= ET_TRIANGLE ? 2 : 1) : 1; r.expect(near(totalMeasure(m), t * std::pow(4, dim)), "scaled"); m.scale(0.25); r.expect(geo(m) == g, "scale-back"); } }
        Mesh m = mkMeshN(d, s), o = m; m.invert(); r.op(); bool ok = true, sides = true; for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); auto& f = o.element(id); std::multiset<std::vector<int>> w, g; for (auto& q : sidesOf(e.elementType())) { w.insert(cyc(sideNodes(f, q))); g.insert(cyc(sideNodes(e, q))); } sides = sides && w == g; auto A = nodesOf(e), B = nodesOf(f); if (e.elementType() >= ET_TETRAHEDRON) ok = ok && near(measureOf(m, id), -measureOf(o, id)); else { std::reverse(B.begin(), B.end()); ok = ok && (A.size() == 2 ? A == B : rotMin(A) == rotMin(B)); } }
        r.expect(ok, "inverted"); r.expect(sides, "inverted-sides"); m.invert(); r.op(); ok = true; for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); ok = ok && nodesOf(m.element(id)) == nodesOf(o.element(id)); } r.expect(ok, "inverted-twice"); bool same = true; for (int i = 0; i < m.nbNodes(); ++i) same = same && m.node(m.nodeId(i)) == o.node(m.nodeId(i)); r.expect(same, "inverted-nodes");
        r.state(Hash().adds(d.name).add(s)); r.outcome(Hash().add(d.p.size())); r.trace(); }
}
