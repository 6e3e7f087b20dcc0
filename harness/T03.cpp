// Orientation repair.
#include "stl.hpp"
#include <functional>
static TS unflip(const TS& s, Stl& u, const std::vector<int>& id, Run& r) { TS o = s; for (size_t i = 0; i < s.t.size(); ++i) { auto& c = u.stlFile().facet(id[i]); for (int k = 0; k < 3; ++k) { int w = -1; for (int q : s.t[i]) if (atP(c.vertex(k), s.p[q])) w = q; r.expect(w >= 0, "moved vertex", "facet %d", (int)i); if (w >= 0) o.t[i][k] = w; } auto a = s.t[i], b = o.t[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); r.expect(a == b, "facet corners", "facet %d", (int)i); } return o; }
static std::vector<int> components(const TS& s) { int n = s.t.size(); std::vector<int> c = iota(n); bool go = true; while (go) { go = false; for (auto& e : edgesOf(s)) for (auto& x : e.second) for (auto& y : e.second) if (c[x.first] > c[y.first]) { c[x.first] = c[y.first]; go = true; } } return c; }
static bool evenTurn(const std::array<int, 3>& a, const std::array<int, 3>& b) { auto x = a; for (int k = 0; k < 3; ++k) { if (x == b) return true; turn(x, 1); } return false; }
static LD vol(const TS& s, const std::vector<int>& comp, int c) { LD v = 0; for (size_t i = 0; i < s.t.size(); ++i) if (comp[i] == c) v += dot(toL(s.p[s.t[i][0]]), cross(toL(s.p[s.t[i][1]]), toL(s.p[s.t[i][2]]))) / 6; return v; }
// truth: the consistently oriented set; s: as given to the library
static void judge(Run& r, Stl& u, const TS& truth, const TS& s, const std::vector<int>& id, int pivot, int wantSign) { TS o = unflip(s, u, id, r); if (r.failedNow()) return; auto comp = components(s); int n = s.t.size(); int sign = 0; bool ok = true; for (int i = 0; i < n; ++i) if (comp[i] == comp[pivot]) { int d = evenTurn(truth.t[i], o.t[i]) ? 1 : -1; if (!sign) sign = d; ok = ok && d == sign; } else r.expect(o.t[i] == s.t[i], "other surface touched", "facet %d", i); r.expect(ok, "inconsistent"); if (wantSign == 0) r.expect(o.t[pivot] == s.t[pivot], "pivot changed"); else if (ok) r.expect(sign == wantSign, "side", "volume %Lg", vol(o, comp, comp[pivot])); judgeLinks(r, u, o, id); }
static std::vector<TS> surfs() { return {tetraTS(), octaTS(), stripTS(5), ringTS(3), fanTS(5, true), twoTS(tetraTS(), stripTS(3)), twoTS(tetraTS(), tetraTS()), cubeTS()}; }
SECTION("pivot", "closed and open surfaces of 3..12 facets (tetrahedron, octahedron, box, strip, ring, umbrella, two bodies) x every subset of inverted facets (box: every 4th quick) x pivots (all, or 3 for the larger ones) x corner rotations and numberings: every facet of the pivot's surface turns consistent with it, nothing else changes, connectivity stays exact, repeating changes nothing") {
    auto S = surfs(); for (size_t c = 0; c < S.size(); ++c) { int n = S[c].t.size(); for (unsigned mask = 0; mask < 1u << n; ++mask) { if (n > 8 && !r.thorough && mask % 4 != 1) continue; for (int pv = 0; pv < n; ++pv) { if (n > 6 && !r.thorough && pv % 4 != (int)(mask % 4)) continue; for (int v = 0; v < 3; ++v) { if (!r.next([&] { return S[c].name + strf(" inverted %x pivot %d variant %d", mask, pv, v); })) continue; r.state(Hash().add(c).add(mask).add(pv).add(v)); TS s = S[c]; for (int i = 0; i < n; ++i) { if (mask >> i & 1) flip(s.t[i]); turn(s.t[i], v ? (mask >> (i / 2)) + i * v : 0); } auto id = idsFor(n, v); Stl u; build(u, s, id); double tol = v ? 1e-9 : 0; u.generateConnectivity(tol); r.expect(u.setOrientation((Integer)id[pv], tol), "result"); r.op(); judge(r, u, S[c], s, id, pv, 0); std::vector<int> before; for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) for (int q : s.t[i]) if (atP(u.stlFile().facet(id[i]).vertex(k), s.p[q])) before.push_back(q); u.setOrientation((Integer)id[pv], tol); r.op(); std::vector<int> after; for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) for (int q : s.t[i]) if (atP(u.stlFile().facet(id[i]).vertex(k), s.p[q])) after.push_back(q); r.expect(before == after, "repeat"); TS o = unflip(s, u, id, r); u.checkEdges(0.001); for (int i = 0; i < n && !r.failedNow(); ++i) { V3l w = cross(toL(o.p[o.t[i][1]]) - toL(o.p[o.t[i][0]]), toL(o.p[o.t[i][2]]) - toL(o.p[o.t[i][0]])); w = w * (1 / norm(w)); auto& nn = u.stlFile().facet(id[i]).normal(); r.expect(std::fabs(nn.x() - w.x) + std::fabs(nn.y() - w.y) + std::fabs(nn.z() - w.z) < 1e-9, "normal", "facet %d", i); } r.outcome(Hash().add(c).add(after[0])); r.trace(); } } } } }
SECTION("outward", "closed surfaces (tetrahedron, octahedron, box, bodies of the catalogue, two bodies) x every subset of inverted facets (larger ones: a list) x outward or inward x rotations and numberings: the surface of the first facet faces the asked side") {
    std::vector<TS> S = {tetraTS(), octaTS(), cubeTS(), twoTS(tetraTS(), octaTS())}; for (auto& b : bodies()) S.push_back(tsOf(b)); for (size_t c = 0; c < S.size(); ++c) { int n = S[c].t.size(); if (!manifold(S[c])) continue; auto comp0 = components(S[c]); if (vol(S[c], comp0, comp0[0]) < 0) for (auto& t : S[c].t) flip(t); unsigned top = n > 12 ? 64 : 1u << n; for (unsigned mk = 0; mk < top; ++mk) { unsigned mask = n > 12 ? mk * 2654435761u >> 3 : mk; if (n == 12 && !r.thorough && mk % 8 != 3) continue; for (int out = 0; out < 2; ++out) for (int v = 0; v < 3; ++v) { if (!r.next([&] { return S[c].name + strf(" inverted %x outward %d variant %d", mask, out, v); })) continue; r.state(Hash().add(c).add(mask).add(out).add(v)); TS s = S[c]; for (int i = 0; i < n; ++i) { if (mask >> i & 1) flip(s.t[i]); turn(s.t[i], v ? (mask >> (i / 2)) + i * v : 0); } for (auto& p : s.p) p = P3(p.x() + 3 * v, p.y() - 5 * v, p.z() + 0.5 * v); auto id = idsFor(n, v); Stl u; for (int i = 0; i < n; ++i) u.addFacet(id[i], facetOf(s, i)); u.generateConnectivity(1e-9); r.expect(u.setOrientation(out == 1, 1e-9), "result"); r.op(); judge(r, u, S[c], s, id, 0, out ? 1 : -1); r.outcome(Hash().add(c).add(out)); r.trace(); } } } }
