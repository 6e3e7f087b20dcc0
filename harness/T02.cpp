// STL connectivity, conversion to a mesh, edge flags.
#include "stl.hpp"
#include <functional>
#include <memory>
static void judgeMesh(Run& r, Stl& u, const TS& s, const std::vector<int>& id) { int n = s.t.size(); Mesh m = u.mesh(); r.op(); std::vector<int> par(3 * n); for (int i = 0; i < 3 * n; ++i) par[i] = i; std::function<int(int)> root = [&](int i) { return par[i] == i ? i : par[i] = root(par[i]); }; for (auto& e : edgesOf(s)) if (e.second.size() == 2) { auto x = e.second[0], y = e.second[1]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (s.t[x.first][a] == s.t[y.first][b] && (s.t[x.first][a] == e.first.first || s.t[x.first][a] == e.first.second)) par[root(3 * x.first + a)] = root(3 * y.first + b); } std::set<int> cls; for (int i = 0; i < 3 * n; ++i) cls.insert(root(i)); r.expect(m.nbNodes() == (int)cls.size(), "node count", "%d instead of %d", (int)m.nbNodes(), (int)cls.size()); bool cnt = m.nbElements() == n; r.expect(cnt, "element count"); if (!cnt) return; std::map<int, int> nodeOf; std::set<int> used; for (int i = 0; i < n; ++i) { r.expect(m.elementId(i) == id[i], "element identifier"); auto& e = m.element(id[i]); bool ok = e.elementType() == ET_TRIANGLE && e.nbNodeIds() == 3; r.expect(ok, "element type"); if (!ok) return; for (int k = 0; k < 3; ++k) { int nd = e.nodeId(k); bool in = nd >= 0 && nd < m.nbNodes(); r.expect(in, "node identifier", "%d", nd); if (!in) return; used.insert(nd); r.expect(atP(m.node(nd), s.p[s.t[i][k]]), "corner", "facet %d corner %d", i, k); int c = root(3 * i + k); if (nodeOf.count(c)) r.expect(nodeOf[c] == nd, "shared corner", "facet %d corner %d", i, k); else nodeOf[c] = nd; } } r.expect((int)used.size() == m.nbNodes(), "unused nodes"); }
static void judgeFlags(Run& r, Stl& u, const TS& s, const std::vector<int>& id, double angle) { u.checkEdges(angle); r.op(); auto nrm = [&](int i) { V3l n = cross(toL(s.p[s.t[i][1]]) - toL(s.p[s.t[i][0]]), toL(s.p[s.t[i][2]]) - toL(s.p[s.t[i][0]])); return n * (1 / norm(n)); }; for (auto& e : edgesOf(s)) for (auto& x : e.second) { auto& g = u.stlFile().facet(id[x.first]).edge(x.second); r.expect(g.naked() == (e.second.size() == 1), "naked", "facet %d edge %d", x.first, x.second); r.expect(atP(g.startPoint(), s.p[s.t[x.first][x.second]]) && atP(g.endPoint(), s.p[s.t[x.first][(x.second + 1) % 3]]), "edge ends"); if (e.second.size() == 1) r.expect(!g.outline(), "naked outline"); if (e.second.size() == 2) { auto y = e.second[0] == x ? e.second[1] : e.second[0]; LD c = dot(nrm(x.first), nrm(y.first)), a = acosl(std::max<LD>(-1, std::min<LD>(1, c))); if (fabsl(a - angle) > 1e-6L) r.expect(g.outline() == (a > angle), "outline", "facet %d edge %d: %Lg", x.first, x.second, a); } } }
static void shuffle(TS& s, int code, unsigned flips) { for (size_t i = 0; i < s.t.size(); ++i) { if (flips >> i & 1) flip(s.t[i]); turn(s.t[i], (code >> i) + i * (code % 5)); } }
SECTION("subsets", "every subset of the facets of a tetrahedron, an octahedron and (thorough; every 4th quick) a box, strips and two bodies together x inverted facets and corner rotations of a list x 3 numberings x 3 tolerances: edges are linked exactly when shared, mutually and with the right opposite vertex; edge flags; mesh of consistently oriented sets") {
    std::vector<TS> S = {tetraTS(), octaTS(), stripTS(6), twoTS(tetraTS(), tetraTS()), ringTS(3), cubeTS()}; for (size_t c = 0; c < S.size(); ++c) { int n = S[c].t.size(); for (unsigned mask = 1; mask < 1u << n; ++mask) { if (n > 8 && !r.thorough && mask % 4 != 3) continue; for (int v = 0; v < 6; ++v) { if (!r.next([&] { return S[c].name + strf(" subset %x variant %d", mask, v); })) continue; r.state(Hash().add(c).add(mask).add(v)); TS s = pick(S[c], mask); unsigned fl = v < 2 ? 0 : v == 2 ? 1 : v == 3 ? 0x555u : v == 4 ? mask * 2654435761u >> 7 : ~0u; shuffle(s, v == 0 ? 0 : mask + v, fl); if (v == 5) std::reverse(s.t.begin(), s.t.end()); auto id = idsFor(s.t.size(), v % 3); Stl u; build(u, s, id); r.expect(u.generateConnectivity(v % 2 ? 1e-9 : v == 2 ? 1e-3 : 0.0), "result"); r.op(); judgeLinks(r, u, s, id); if (fl == 0 || fl == ~0u) judgeMesh(r, u, s, id); judgeFlags(r, u, s, id, v % 2 ? 0.3 : 1.2); u.generateConnectivity(1e-9); judgeLinks(r, u, s, id); r.outcome(Hash().add(edgesOf(s).size())); r.trace(); } } } }
SECTION("pairs", "every ordered pair of triangles of a 3x3 (thorough 3x3x2) lattice, with every rotation of the second: they are linked exactly along the edges they share") {
    std::vector<P3> p; auto L = lattice(2, 2, r.thorough ? 1 : 0); for (auto& a : L) p.push_back(C(a)); std::vector<std::array<int, 3>> T; combinations(p.size(), 3, [&](const std::vector<int>& q) { V3l n = cross(toL(p[q[1]]) - toL(p[q[0]]), toL(p[q[2]]) - toL(p[q[0]])); if (norm(n) > 1e-9L) T.push_back({{q[0], q[1], q[2]}}); }); for (size_t a = 0; a < T.size(); ++a) for (size_t b = 0; b < T.size(); ++b) { if (a == b) continue; if (r.thorough && (a * 31 + b) % 5) continue; for (int k = 0; k < 6; ++k) { if (!r.next([&] { return strf("triangles %d %d turn %d", (int)a, (int)b, k); })) continue; r.state(Hash().add(a).add(b).add(k)); TS s; s.p = p; s.t = {T[a], T[b]}; if (k > 2) flip(s.t[1]); turn(s.t[1], k); auto id = idsFor(2, k % 3); Stl u; build(u, s, id); u.generateConnectivity(k % 2 ? 1e-9 : 0); r.op(); judgeLinks(r, u, s, id); r.outcome(Hash().add(u.stlFile().facet(id[0]).edge(0).neighbor() >= 0)); r.trace(); } } }
SECTION("fans", "umbrellas and open fans of 3..150 facets around one vertex, rings of 3..40, every start facet rotation: one node per vertex") {
    for (int kind = 0; kind < 3; ++kind) for (int n = 3; n <= (kind == 2 ? 40 : 150); ++n) for (int sh = 0; sh < 3; ++sh) { if (!r.next([&] { return strf("kind %d of %d shift %d", kind, n, sh); })) continue; r.state(Hash().add(kind).add(n).add(sh)); TS s = kind == 2 ? ringTS(n) : fanTS(n, kind == 0); std::rotate(s.t.begin(), s.t.begin() + sh * (int)s.t.size() / 3, s.t.end()); for (size_t i = 0; i < s.t.size(); ++i) turn(s.t[i], sh * i); auto id = idsFor(s.t.size(), sh); Stl u; build(u, s, id); u.generateConnectivity(1e-9); r.op(); judgeLinks(r, u, s, id); judgeMesh(r, u, s, id); judgeFlags(r, u, s, id, 0.2); r.outcome(Hash().add(n)); r.trace(); } }
SECTION("from-mesh", "every mesh of the shared catalogue x 4 numberings: the facets built from it are its triangles, in order, under their element identifiers") {
    auto cat = meshCatalogue(); for (size_t c = 0; c < cat.size(); ++c) for (int sch = 0; sch < 4; ++sch) for (int how = 0; how < 2; ++how) { if (!r.next([&] { return cat[c].name + strf(" numbering %d way %d", sch, how); })) continue; r.state(Hash().add(c).add(sch).add(how)); Mesh m = mkMeshN(cat[c], sch); std::unique_ptr<Stl> u; if (how) { u.reset(new Stl()); TS t = tetraTS(); build(*u, t, iota(4)); u->set(m); } else u.reset(new Stl(m)); r.op(); std::vector<int> tri; for (int i = 0; i < m.nbElements(); ++i) if (m.element(m.elementId(i)).elementType() == ET_TRIANGLE) tri.push_back(m.elementId(i)); bool cnt = u->stlFile().nbFacets() == (int)tri.size(); r.expect(cnt, "count"); if (cnt) for (size_t i = 0; i < tri.size(); ++i) { r.expect(u->stlFile().facetId(i) == tri[i], "identifier"); auto& e = m.element(tri[i]); for (int k = 0; k < 3; ++k) r.expect(u->stlFile().facetId(i) == tri[i] && atP(u->stlFile().facet(tri[i]).vertex(k), m.node(e.nodeId(k))), "corner"); } r.outcome(Hash().add(tri.size())); r.trace(); } }
