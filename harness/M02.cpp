// Face generation and boundary extraction.
#include "msh.hpp"
static void check(Run& r, Mesh& m, bool paired2) {
    std::map<std::vector<int>, std::vector<int>> owners; // canonical side -> elements
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); for (auto& s : sidesOf(e.elementType())) owners[cyc(sideNodes(e, s))].push_back(id); }
    size_t nf = 0; int nb = 0; for (auto& o : owners) { nf += o.second.size(); if (o.second.size() == 1) ++nb; }
    r.expect(m.nbFaces() == (int)nf, "face-count", "%d faces, want %zu", m.nbFaces(), nf); r.expect(m.nbBoundaryFaces() == nb, "boundary-count", "%d, want %d", m.nbBoundaryFaces(), nb);
    std::set<int> seen;
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); std::multiset<std::vector<int>> want, got; for (auto& s : sidesOf(e.elementType())) want.insert(cyc(sideNodes(e, s)));
        for (int k = 0; k < e.nbFaceIds(); ++k) { int f = e.faceId(k); auto F = m.face(f); seen.insert(f); got.insert(cyc(nodesOf(F))); r.expect(F.elementId() == id, "owner", "face %d of element %d says %d", f, id, F.elementId()); int n = F.nbNodeIds(); r.expect(F.faceType() == (n == 1 ? FT_POINT : n == 2 ? FT_LINE : n == 3 ? FT_TRIANGLE : FT_QUADRILATERAL), "face-type"); }
        r.expect(want == got, "sides", "element %d", id); }
    r.expect((int)seen.size() == m.nbFaces(), "faces-owned");
    for (int i = 0; i < m.nbFaces(); ++i) { int f = m.faceId(i); auto F = m.face(f); auto& o = owners[cyc(nodesOf(F))]; r.expect(m.faceIndex(f) == i, "face-index");
        if (o.size() == 1) r.expect(!F.hasPair(), "boundary-pair", "face %d has a pair", f);
        else if (o.size() == 2) { if (!r.expect(F.hasPair(), "unpaired", "face %d of element %d", f, F.elementId())) continue; auto G = m.face(F.pairFaceId()); r.expect(F.pairFaceId() != f && G.hasPair() && G.pairFaceId() == f && G.elementId() == (o[0] == F.elementId() ? o[1] : o[0]) && cyc(nodesOf(G)) == cyc(nodesOf(F)), "pair", "face %d pair %d back %d", f, F.pairFaceId(), G.pairFaceId()); } }
}
static void boundary(Run& r, Mesh& m, Mesh& b) {
    std::map<std::vector<int>, int> cnt; std::multiset<std::vector<int>> want, got; bool solid = false;
    for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); if (nbOf(e.elementType()) && e.elementType() >= ET_TETRAHEDRON) solid = true; for (auto& s : sidesOf(e.elementType())) cnt[cyc(sideNodes(e, s))]++; }
    for (auto& c : cnt) if (c.second == 1) want.insert(c.first);
    std::map<std::pair<int, int>, int> edges; LD ax = 0, ay = 0, az = 0;
    for (int i = 0; i < b.nbElements(); ++i) { auto& e = b.element(b.elementId(i)); auto v = nodesOf(e); got.insert(cyc(v)); r.expect(v.size() == 1 || (int)v.size() == nbOf(e.elementType()), "boundary-type", "type %d with %zu nodes", (int)e.elementType(), v.size()); if (v.size() > 2) for (size_t k = 0; k < v.size(); ++k) edges[{v[k], v[(k + 1) % v.size()]}]++; }
    r.expect(want == got, "boundary-sides", "%zu sides, want %zu", got.size(), want.size());
    bool nodes = true; for (int i = 0; i < b.nbElements(); ++i) for (int n : nodesOf(b.element(b.elementId(i)))) { try { nodes = nodes && b.node(n) == m.node(n); } catch (...) { nodes = false; } } r.expect(nodes, "boundary-nodes");
    if (solid) { bool closed = true; for (auto& e : edges) if (e.second != 1 || !edges.count({e.first.second, e.first.first})) closed = false; r.expect(closed, "boundary-closed"); }
}
static std::string dump(Mesh& m) { std::ostringstream o; for (int i = 0; i < m.nbFaces(); ++i) { auto F = m.face(m.faceId(i)); o << m.faceId(i) << ":" << show(nodesOf(F)) << F.elementId() << (F.hasPair() ? strf("p%d", F.pairFaceId()) : "-"); } for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); o << "|"; for (int k = 0; k < e.nbFaceIds(); ++k) o << e.faceId(k) << ","; } return o.str(); }
static void full(Run& r, Mesh& m, bool solidOriented) {
    for (double tol : {0.0, 1e-9, 1e-6}) { m.generateFaces(tol); r.op(); check(r, m, true); auto a = dump(m); m.generateFaces(tol); r.op(); check(r, m, true); r.expect(dump(m) == a, "repeat", "second generation differs, tolerance %g", tol); }
    Mesh b = m.extractBoundary(); r.op(); check(r, m, true); boundary(r, m, b); Mesh b2 = m.extractBoundary(1e-6); boundary(r, m, b2); Mesh b3 = m.extractBoundary(1e-6); boundary(r, m, b3); r.op(2);
    Mesh c(b); bool surf = b.nbElements() && b.element(b.elementId(0)).nbNodeIds() >= 3; if (surf) { c.generateFaces(1e-9); r.op(); check(r, c, true); r.expect(c.nbBoundaryFaces() == 0, "boundary-of-boundary", "%d", c.nbBoundaryFaces()); }
}
SECTION("catalogue", "meshes of every element type and mixtures, regular and skewed, with coordinates that are not exact in binary x 4 numberings x tolerances 0, 1e-9, 1e-6: sides, pairs, owners, boundary count, boundary mesh, repetition") {
    for (auto& d : meshCatalogue()) for (int s = 0; s < 4; ++s) {
        if (!r.next([&] { return d.name + strf(" numbering %d", s); })) continue;
        Mesh m = mkMeshN(d, s); full(r, m, true); r.state(Hash().adds(d.name).add(s)); r.outcome(Hash().add(m.nbFaces()).add(m.nbBoundaryFaces())); r.trace(); }
}
SECTION("subsets", "every non-empty subset of the elements of six small meshes (2x2 quadrilaterals, triangles, mixed; cube of six tetrahedra; prisms; hexahedra): faces and boundary of every sub-mesh") {
    std::vector<MD> ms = {gridQuad(2, 2, 0.1, 0.3, 0), gridQuad(2, 2, 0.1, 0.3, 1), gridQuad(3, 1, 0.1, 0.7, 2), gridHex(1, 1, 1, 0.1, 0.3, 0.7, 1), gridHex(2, 2, 1, 0.1, 0.3, 0.7, 2), gridHex(2, 2, 2, 0.1, 0.3, 0.7, 0), gridHex(3, 1, 1, 0.1, 0.3, 0.7, 3)};
    for (auto& d : ms) for (int mask = 1; mask < (1 << d.e.size()); ++mask) for (int s = 0; s < 4; s += 3) {
        if (!r.next([&] { return d.name + strf(" subset %d numbering %d", mask, s); })) continue;
        MD q = d; q.e.clear(); for (size_t i = 0; i < d.e.size(); ++i) if (mask >> i & 1) q.e.push_back(d.e[i]); Mesh m = mkMeshN(q, s); m.generateFaces(); r.op(); check(r, m, true);
        // grow by the remaining elements and generate again: earlier faces and pairs must not linger
        int id = 5000; std::vector<int> nid; Mesh full = mkMeshN(q, s); for (size_t i = 0; i < d.e.size(); ++i) if (!(mask >> i & 1)) { auto v = d.e[i].second; for (int& k : v) { int found = -1; for (int z = 0; z < m.nbNodes(); ++z) if (m.node(m.nodeId(z)) == d.p[k]) found = m.nodeId(z); k = found; } m.addElement(id++, mkElem(d.e[i].first, v)); }
        m.generateFaces(1e-6); r.op(); check(r, m, true); r.state(Hash().adds(d.name).add(mask).add(s)); r.outcome(Hash().add(m.nbFaces()).add(m.nbBoundaryFaces())); r.trace(); }
}
SECTION("vertex-orders", "two elements glued along a side, every admissible relabelling of the second element's vertices (cyclic for surface elements, all 24 for tetrahedra, rotations and mirror images for prisms and hexahedra): the pair is found for every order") {
    struct S { EElementType t; std::vector<std::vector<int>> perms; MD d; }; std::vector<S> ss;
    auto mk = [&](EElementType t, const MD& d) { S s; s.t = t; s.d = d; int n = nbOf(t); std::set<std::vector<int>> sd; for (auto& q : sidesOf(t)) sd.insert(cyc(q)); if (n <= 6) permutations(n, [&](const std::vector<int>& p) { std::set<std::vector<int>> w; for (auto q : sidesOf(t)) { for (int& i : q) i = p[i]; w.insert(cyc(q)); } if (w == sd) s.perms.push_back(p); });
        else permutations(8, [&](const std::vector<int>& p) { if (s.perms.size() >= 48) return; std::set<std::vector<int>> w; for (auto q : sidesOf(t)) { for (int& i : q) i = p[i]; auto c = cyc(q); if (!sd.count(c)) return; } s.perms.push_back(p); }); ss.push_back(s); };
    mk(ET_TRIANGLE, gridQuad(1, 1, 0.1, 0.3, 1)); mk(ET_QUADRILATERAL, gridQuad(2, 1, 0.1, 0.3, 0)); mk(ET_TETRAHEDRON, gridHex(1, 1, 1, 0.1, 0.3, 0.7, 1)); mk(ET_TRIANGULAR_PRISM, gridHex(1, 1, 1, 0.1, 0.3, 0.7, 2)); mk(ET_HEXAHEDRON, gridHex(2, 1, 1, 0.1, 0.3, 0.7, 0)); mk(ET_BEAM, gridLine(2));
    for (auto& s : ss) for (auto& p : s.perms) for (int sh = 0; sh < 3; ++sh) {
        if (!r.next([&] { return std::string(nameOf(s.t)) + " order " + show(p) + strf(" shift %d", sh); })) continue;
        MD d = s.d; for (auto& x : d.p) x += P3(0.1, 0.7, 1.0 / 3) * (double)sh; for (size_t i = 1; i < d.e.size(); ++i) { auto v = d.e[i].second; for (int k = 0; k < (int)v.size(); ++k) d.e[i].second[k] = v[p[k]]; }
        Mesh m = mkMesh(d); m.generateFaces(); r.op(); check(r, m, true); m.generateFaces(1e-6); r.op(); check(r, m, true); r.state(Hash().adds(nameOf(s.t)).adds(show(p)).add(sh)); r.outcome(m.nbBoundaryFaces()); r.trace(); }
}
SECTION("crossing", "every pair of triangles with corners on a 3x3 lattice, of convex quadrilaterals of every corner order start, and of tetrahedra on those triangles with apexes above or below, overlapping or with sides that share only their centre, both orientations: sides are paired exactly when they have the same nodes") {
    auto L = lattice(2, 2, 0); std::vector<std::vector<int>> T, Q; int N = L.size(); for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) for (int c = b + 1; c < N; ++c) if (cross2(L[a], L[b], L[c])) T.push_back(cross2(L[a], L[b], L[c]) > 0 ? std::vector<int>{a, b, c} : std::vector<int>{a, c, b});
    for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) for (int c = a + 1; c < N; ++c) for (int d = a + 1; d < N; ++d) { int q[4] = {a, b, c, d}; bool ok = true; for (int k = 0; k < 4; ++k) ok &= cross2(L[q[k]], L[q[(k + 1) % 4]], L[q[(k + 2) % 4]]) > 0; if (ok) Q.push_back({a, b, c, d}); }
    auto go = [&](const char* name, EElementType t, std::vector<int> u, std::vector<int> v, int k) { if (!r.next([&] { return strf("%s %s and %s order %d", name, show(u).c_str(), show(v).c_str(), k); })) return; MD d; d.name = name; for (auto& p : L) d.p.push_back(P3(0.1 * p.x, 0.3 * p.y, 0)); d.p.push_back(P3(0.1, 0.2, 0.7)); d.p.push_back(P3(0.1, 0.2, -0.7)); d.e.push_back({t, u}); d.e.push_back({t, v}); Mesh m = mkMeshN(d, k % 4); for (double tol : {0.0, 1e-6}) { m.generateFaces(tol); r.op(); check(r, m, true); } r.state(Hash().adds(name).adds(show(u)).adds(show(v)).add(k)); r.outcome(Hash().add(m.nbBoundaryFaces())); r.trace(); };
    auto turn = [](std::vector<int> v, int k, bool flip) { if (flip) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + k % v.size(), v.end()); return v; };
    for (size_t i = 0; i < T.size(); ++i) for (size_t j = i + 1; j < T.size(); ++j) for (int f = 0; f < 2; ++f) go("triangles", ET_TRIANGLE, turn(T[i], i + j, false), turn(T[j], j, f), i + 2 * j + f);
    for (size_t i = 0; i < Q.size(); ++i) for (size_t j = i + 1; j < Q.size(); ++j) for (int f = 0; f < 2; ++f) go("quadrilaterals", ET_QUADRILATERAL, turn(Q[i], i + j, false), turn(Q[j], j, f), i + 2 * j + f);
    for (size_t i = 0; i < T.size(); ++i) for (size_t j = i; j < T.size(); ++j) for (int s = 0; s < 3; ++s) { auto u = s == 1 ? turn(T[i], j, true) : turn(T[i], j, false), v = s ? turn(T[j], i, true) : turn(T[j], i, false); u.push_back(s == 1 ? N + 1 : N); v.push_back(s ? N + 1 : N); if (i == j && s != 2) continue; go("tetrahedra", ET_TETRAHEDRON, u, v, i + j + s); } }
