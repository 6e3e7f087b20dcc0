// Planar convex hull against exact orientation tests.
#include "geo.hpp"
#include "GeoConvexHull.hpp"
static void checkHull(Run& r, const std::vector<V3i>& p2, const Emb& e, double s, const P3& t, const char* what) {
    std::vector<CGeoCoordinate<R>> v; for (auto& p : p2) v.push_back(C(e.at(p), s, t));
    CGeoConvexHull<R> h(v); r.op(); int n = h.nbVertices(); std::vector<V3i> hv;
    for (int i = 0; i < n; ++i) { bool f = false; for (size_t k = 0; k < v.size() && !f; ++k) if (h.vertex(i) == v[k]) { hv.push_back(p2[k]); f = true; } if (!r.expect(f, "foreign-vertex", "%s: hull vertex %d is no input point", what, i)) return; }
    // exact corners
    std::vector<V3i> q = p2; std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); std::vector<V3i> c(2 * q.size() + 2); int k = 0; int m = q.size();
    for (int i = 0; i < m; ++i) { while (k >= 2 && cross2(c[k - 2], c[k - 1], q[i]) <= 0) --k; c[k++] = q[i]; } for (int i = m - 2, lo = k + 1; i >= 0; --i) { while (k >= lo && cross2(c[k - 2], c[k - 1], q[i]) <= 0) --k; c[k++] = q[i]; } c.resize(k - 1);
    for (auto& x : c) if (!r.expect(std::find(hv.begin(), hv.end(), x) != hv.end(), "missing-corner", "%s: corner (%lld %lld) of %s missing from %s", what, x.x, x.y, show(p2).c_str(), show(hv).c_str())) return;
    ll a2 = area2x2(c), b2 = area2x2(hv); r.expect(std::llabs(a2) == std::llabs(b2), "area", "%s: hull %s of %s", what, show(hv).c_str(), show(p2).c_str());
    // in order round the boundary: each side keeps all points on one side, corners in cyclic order
    int sgn = b2 > 0 ? 1 : -1; int hn = hv.size(); bool ok = true; for (int i = 0; i < hn; ++i) for (auto& x : p2) if (sgn * cross2(hv[i], hv[(i + 1) % hn], x) < 0) ok = false;
    r.expect(ok, "not-convex", "%s: hull %s of %s", what, show(hv).c_str(), show(p2).c_str()); r.outcome(Hash().add(hn).add(std::llabs(a2)));
}
static bool usable(const std::vector<V3i>& p) { return cross2(p[0], p[1], p[2]) != 0; }
SECTION("ordered", "every ordered selection of 3, 4 and 5 points of a 3x3 lattice and 3, 4 of a 4x3 lattice (thorough: 6 of 3x3, 5 of 4x3) whose first three points span the plane, in 3 planes of space: hull vertices are input points, every corner present, convex, exact area") {
    auto run = [&](const std::vector<V3i>& L, int n) { combinations(L.size(), n, [&](const std::vector<int>& c) {
        if (!r.next([&] { std::vector<V3i> q; for (int i : c) q.push_back(L[i]); return "points in every order " + show(q); })) return;
        permutations(n, [&](const std::vector<int>& o) { std::vector<V3i> p; for (int i : o) p.push_back(L[c[i]]); if (!usable(p)) return; for (int e : {0, 3, 6}) checkHull(r, p, embeddings()[e], 1, P3(0, 0, 0), embeddings()[e].name); });
        Hash h; for (int i : c) h.add(i); h.add(L.size()); r.state(h); r.trace(); }); };
    for (int n = 3; n <= (r.thorough ? 6 : 5); ++n) run(lattice(2, 2, 0), n);
    for (int n = 3; n <= (r.thorough ? 5 : 4); ++n) run(lattice(3, 2, 0), n);
}
SECTION("subsets", "every subset of 3..12 points of a 4x3 lattice whose first three points (rotated into front in 3 ways) span the plane, in 8 planes, and scaled by 0.01 / shifted by 100") {
    auto L = lattice(3, 2, 0);
    for (int m = 0; m < (1 << 12); ++m) { int n = __builtin_popcount(m); if (n < 3) continue;
        std::vector<V3i> p; for (int i = 0; i < 12; ++i) if (m >> i & 1) p.push_back(L[(i * 5) % 12]);
        if (!r.next([&] { return "points " + show(p); })) continue;
        for (int rot = 0; rot < std::min(n, 3); ++rot) { std::rotate(p.begin(), p.begin() + 1, p.end()); if (!usable(p)) continue; for (size_t e = 0; e < embeddings().size(); ++e) { checkHull(r, p, embeddings()[e], 1, P3(0, 0, 0), embeddings()[e].name); } checkHull(r, p, embeddings()[0], 0.25, P3(0.5, 1, 2), "scaled"); checkHull(r, p, embeddings()[0], 1, P3(100, -50, 3), "shifted"); }
        r.state(Hash().add(m)); r.trace(); }
}
SECTION("duplicates", "every sequence of 3..6 points of a 2x2 lattice plus centre point with repetition whose first three span the plane; reset and refill") {
    std::vector<V3i> L = {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {1, 1, 0}};
    for (int n = 3; n <= 6; ++n) sequences(n, 5, [&](const std::vector<int>& s) { std::vector<V3i> p; for (int i : s) p.push_back(L[i]); if (!usable(p)) return;
        if (!r.next([&] { return "points " + show(p); })) return; checkHull(r, p, embeddings()[0], 1, P3(0, 0, 0), "xy");
        std::vector<CGeoCoordinate<R>> v; for (auto& q : p) v.push_back(C(q)); CGeoConvexHull<R> a(v), b; P3 junk(9, 9, 9); b.addVertex(junk); b.reset(); b.set(v); r.op(); bool same = a.nbVertices() == b.nbVertices(); for (int i = 0; same && i < a.nbVertices(); ++i) same = a.vertex(i) == b.vertex(i); r.expect(same, "reuse");
        Hash h; for (int i : s) h.add(i); h.add(n); r.state(h); r.trace(); });
}
