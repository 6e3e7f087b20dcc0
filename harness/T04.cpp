// Cleaning of facet sets.
#include "stl.hpp"
// catalogue: 0 a triangle, 1 and 2 its rotations, 3 reversed, 4 same centre and area but other corners, 5 another triangle, 6 and 7 degenerate (short edge), 8 point
static const P3 PT[12] = {P3(0, 0, 0), P3(3, 0, 0), P3(0, 3, 0), P3(2, 2, 0), P3(-1, 2, 0), P3(2, -1, 0), P3(5, 5, 1), P3(7, 5, 1), P3(5, 8, 2), P3(5, 5, 1 + 1e-12), P3(0.1, 0.7, 1.0 / 3), P3(1.0 / 7, 0, -1)};
static const int CAT[11][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {3, 4, 5}, {6, 7, 8}, {6, 9, 7}, {7, 8, 8}, {8, 8, 8}, {10, 11, 6}, {6, 10, 11}};
struct Item { int id, kind; };
static double edge(int k) { double m = 1e300; for (int j = 0; j < 3; ++j) m = std::min<double>(m, (PT[CAT[k][j]] - PT[CAT[k][(j + 1) % 3]]).norm()); return m; }
static bool sameTri(int a, int b) { std::array<int, 3> x = {{CAT[a][0], CAT[a][1], CAT[a][2]}}, y = {{CAT[b][0], CAT[b][1], CAT[b][2]}}; auto key = [](int p) { return p == 9 ? 6 : p; }; for (int& p : x) p = key(p); for (int& p : y) p = key(p); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }
static CStlFacet<R> fac(int k) { CStlFacet<R> f; for (int j = 0; j < 3; ++j) { P3 p = PT[CAT[k][j]]; f.addVertex(p); } f.extra[0] = 3; f.extra[1] = k; return f; }
static void judge(Run& r, Stl& u, std::vector<Item>& m) { auto& f = u.stlFile(); std::map<int, int> kinds; for (auto& x : m) kinds[x.id] = x.kind; for (int i = 0; i < f.nbFacets(); ++i) { bool known = kinds.count(f.facetId(i)); r.expect(known, "identifier"); if (!known) continue; auto& c = f.facet(f.facetId(i)); int k = kinds[f.facetId(i)]; for (int j = 0; j < 3; ++j) r.expect(atP(c.vertex(j), PT[CAT[k][j]]), "vertex"); r.expect(c.extra[1] == k && c.extra[0] == 3, "extra"); } }
// operation 0: duplicates, 1: invalid. The model keeps the facets the library kept, after checking that the choice is allowed
static void apply(Run& r, Stl& u, std::vector<Item>& m, int o, double tol) { r.op(); if (o == 0) r.expect(u.removeDuplicateFacets(tol), "result"); else r.expect(u.removeInvalidFacets(tol), "result"); std::vector<Item> kept; std::map<int, int> at; for (size_t i = 0; i < m.size(); ++i) at[m[i].id] = i; int last = -1; for (int i = 0; i < u.stlFile().nbFacets(); ++i) { int id = u.stlFile().facetId(i); bool known = at.count(id); r.expect(known, "identifier"); if (!known) return; r.expect(at[id] > last, "order"); last = at[id]; kept.push_back(m[at[id]]); } if (o == 1) { std::vector<Item> want; for (auto& x : m) if (!(edge(x.kind) < tol)) want.push_back(x); bool ok = want.size() == kept.size(); for (size_t i = 0; ok && i < want.size(); ++i) ok = want[i].id == kept[i].id; r.expect(ok, "invalid", "%d kept instead of %d", (int)kept.size(), (int)want.size()); } else { for (auto& x : m) { int c = 0; for (auto& y : kept) if (sameTri(x.kind, y.kind)) ++c; r.expect(c >= 1, "lost", "kind %d", x.kind); r.expect(c <= 1, "duplicate left", "kind %d", x.kind); } } m = kept; judge(r, u, m); }
SECTION("sequences", "every sequence of 0..4 (thorough 5) facets out of 11 (a triangle, its rotations and reversal, others with the same centre and area, degenerate ones) x operation sequences of length 1..3 x tolerances x numberings: duplicates are removed down to one of each triangle, degenerate facets are removed, nothing else changes") {
    int cnt = 0; for (int n = 0; n <= (r.thorough ? 5 : 4); ++n) sequences(n, 11, [&](const std::vector<int>& q) { ++cnt; for (int ops = 0; ops < 6; ++ops) { if (n >= 4 && (ops + cnt) % (r.thorough && n == 4 ? 2 : 6)) continue; if (!r.next([&] { return "facets " + show(q) + strf(" operations %d", ops); })) continue; r.state(Hash().adds(show(q)).add(ops)); auto id = idsFor(n, (cnt + ops) % 3); Stl u; std::vector<Item> m; for (int i = 0; i < n; ++i) { u.addFacet(id[i], fac(q[i])); m.push_back({id[i], q[i]}); } double tol = (cnt + ops) % 2 ? 1e-9 : 1e-4; static const std::vector<std::vector<int>> O = {{0}, {1}, {0, 0}, {1, 0}, {0, 1, 0}, {1, 1, 0}}; for (int o : O[ops]) { apply(r, u, m, o, tol); if (r.failedNow()) break; } r.outcome(Hash().add(m.size()).add(u.stlFile().nextFacetId())); r.trace(); } }); }
SECTION("isolated", "every subset of the facets of a box, a strip and two bodies: after connecting and checking, exactly the facets without any neighbour are removed as invalid; the rest and their links stay") {
    std::vector<TS> S = {cubeTS(), stripTS(7), twoTS(tetraTS(), stripTS(4)), octaTS()}; for (size_t c = 0; c < S.size(); ++c) { int n = S[c].t.size(); for (unsigned mask = 1; mask < 1u << n; ++mask) for (int v = 0; v < 3; ++v) { if (n > 8 && !r.thorough && (mask + v) % 3) continue; if (!r.next([&] { return S[c].name + strf(" subset %x numbering %d", mask, v); })) continue; r.state(Hash().add(c).add(mask).add(v)); TS s = pick(S[c], mask); int k = s.t.size(); auto id = idsFor(k, v); Stl u; build(u, s, id); u.generateConnectivity(1e-9); u.checkEdges(0.5); u.removeInvalidFacets(1e-9); r.op(); std::vector<int> nb(k, 0); for (auto& e : edgesOf(s)) if (e.second.size() > 1) for (auto& x : e.second) ++nb[x.first]; TS o = s; o.t.clear(); std::vector<int> oid; for (int i = 0; i < k; ++i) if (nb[i]) { o.t.push_back(s.t[i]); oid.push_back(id[i]); } bool cnt = u.stlFile().nbFacets() == (int)oid.size(); r.expect(cnt, "count", "%d instead of %d", (int)u.stlFile().nbFacets(), (int)oid.size()); if (cnt) { for (size_t i = 0; i < oid.size(); ++i) r.expect(u.stlFile().facetId(i) == oid[i], "identifier"); if (!r.failedNow()) judgeLinks(r, u, o, oid); } r.outcome(Hash().add(oid.size())); r.trace(); } } }
