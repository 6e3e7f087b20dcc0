// Decomposition into simplices.
#include "geo.hpp"
typedef std::array<V3i, 4> T4;
static int sgn(ll v) { return (v > 0) - (v < 0); }
// interiors disjoint? separating plane among face normals and edge-edge cross products (exact)
static bool disjointTets(const T4& a, const T4& b) {
    std::vector<V3i> ax; auto faces = [&](const T4& t) { int f[4][3] = {{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}}; for (auto& q : f) ax.push_back((t[q[1]] - t[q[0]]).cross(t[q[2]] - t[q[0]])); }; faces(a); faces(b);
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int k = 0; k < 4; ++k) for (int l = k + 1; l < 4; ++l) ax.push_back((a[j] - a[i]).cross(b[l] - b[k]));
    for (auto& n : ax) { if (n.n2() == 0) continue; ll a0 = LLONG_MAX, a1 = LLONG_MIN, b0 = LLONG_MAX, b1 = LLONG_MIN; for (auto& p : a) { a0 = std::min(a0, n.dot(p)); a1 = std::max(a1, n.dot(p)); } for (auto& p : b) { b0 = std::min(b0, n.dot(p)); b1 = std::max(b1, n.dot(p)); } if (a1 <= b0 || b1 <= a0) return true; }
    return false;
}
SECTION("polygon", "every strictly convex lattice polygon with 3..6 corners on a 4x4 lattice (thorough 5x5 up to 8), every starting corner and both directions, in 8 planes: triangles are corner triples, positive, oriented like the polygon, count n-2, areas add up, pairwise disjoint") {
    auto L = r.thorough ? lattice(4, 4, 0) : lattice(3, 3, 0);
    for (int n = 3; n <= (r.thorough ? 7 : 6); ++n) combinations(L.size(), n, [&](const std::vector<int>& cc) {
        std::vector<V3i> p; for (int i : cc) p.push_back(L[i]); // order round the centroid, keep when strictly convex
        V3i s; for (auto& q : p) s = s + q; std::sort(p.begin(), p.end(), [&](const V3i& a, const V3i& b) { return atan2((double)(a.y * n - s.y), (double)(a.x * n - s.x)) < atan2((double)(b.y * n - s.y), (double)(b.x * n - s.x)); });
        for (int i = 0; i < n; ++i) if (cross2(p[i], p[(i + 1) % n], p[(i + 2) % n]) <= 0) return;
        if (!r.next([&] { return "polygon " + show(p); })) return;
        for (int dir = 0; dir < 2; ++dir) for (int st = 0; st < n; ++st) for (auto& e : embeddings()) {
            std::vector<V3i> q; for (int i = 0; i < n; ++i) q.push_back(p[dir ? (st + n - i) % n : (st + i) % n]); std::vector<V3i> w; for (auto& x : q) w.push_back(e.at(x));
            CGeoPolygon<R> g = mkPoly(w); auto t = g.triangulate(); r.op(); if (!r.expect((int)t.size() == n - 2, "count", "%zu triangles", t.size())) continue;
            std::vector<std::array<V3i, 3>> ti; bool ok = true; ll sum = 0; for (auto& x : t) { std::array<V3i, 3> z; for (int k = 0; k < 3; ++k) { int f = -1; for (int i = 0; i < n; ++i) if (x.vertex(k) == C(w[i])) f = i; if (f < 0) { ok = false; break; } z[k] = q[f]; } ok = ok && x.nbVertices() == 3; if (!ok) break; ll a = cross2(z[0], z[1], z[2]); if (dir) a = -a; if (a <= 0) { r.expect(false, "orientation", "plane %s", e.name); } sum += a; ti.push_back(z); }
            if (!r.expect(ok, "corners")) continue; r.expect(sum == std::llabs(area2x2(q)), "area", "sum %lld", sum);
            // disjoint: every inner edge is used once in each direction, every outer edge once
            std::map<std::pair<V3i, V3i>, int> ed; for (auto& z : ti) for (int k = 0; k < 3; ++k) ed[{z[k], z[(k + 1) % 3]}]++; bool m = true; for (auto& x : ed) m = m && x.second == 1; for (int i = 0; i < n; ++i) { if (!ed.count({q[i], q[(i + 1) % n]})) m = false; ed.erase({q[i], q[(i + 1) % n]}); } for (auto& x : ed) m = m && ed.count({x.first.second, x.first.first}); r.expect(m, "edges", "plane %s", e.name); }
        Hash h; for (int i : cc) h.add(i); h.add(n); r.state(h); r.outcome(Hash().add(n).add(area2x2(p))); r.trace(); });
}
SECTION("quadrilateral", "every convex lattice quadrilateral (strict) of a 4x4 lattice from every corner, both directions, 8 planes: two triangles, same orientation, areas add up, share a diagonal; appending to a non-empty list") {
    auto L = lattice(3, 3, 0);
    sequences(4, 16, [&](const std::vector<int>& s) { V3i p[4] = {L[s[0]], L[s[1]], L[s[2]], L[s[3]]}; int o = sgn(cross2(p[0], p[1], p[2])); if (!o) return; for (int i = 1; i < 4; ++i) if (sgn(cross2(p[i], p[(i + 1) % 4], p[(i + 2) % 4])) != o) return;
        if (sgn(cross2(p[0], p[1], p[3])) != o) return;
        if (!r.next([&] { return "quadrilateral " + show(std::vector<V3i>(p, p + 4)); })) return;
        for (auto& e : embeddings()) { CGeoQuadrilateral<R> q; for (auto& x : p) q.addVertex(C(e.at(x))); std::vector<CGeoTriangle<R>> t(1); q.decimate(t); r.op(); if (!r.expect(t.size() == 3, "count")) continue; ll sum = 0; bool ok = true; std::set<int> used; for (int k = 1; k < 3; ++k) { V3i z[3]; for (int j = 0; j < 3; ++j) { int f = -1; for (int i = 0; i < 4; ++i) if (t[k].vertex(j) == C(e.at(p[i]))) f = i; if (f < 0) ok = false; else { z[j] = p[f]; used.insert(f); } } ok = ok && t[k].nbVertices() == 3; if (!ok) break; ll a = cross2(z[0], z[1], z[2]) * o; ok = ok && a > 0; sum += a; }
            ll A = 0; for (int i = 0; i < 4; ++i) A += p[i].x * p[(i + 1) % 4].y - p[(i + 1) % 4].x * p[i].y; r.expect(ok && used.size() == 4 && sum == A * o, "cover", "plane %s", e.name); }
        Hash h; for (int i : s) h.add(i); r.state(h); r.outcome(area2x2(std::vector<V3i>(p, p + 4))); r.trace(); });
}
SECTION("hexahedron", "parallelepipeds over all positive lattice triples with entries -1..1 (thorough: and -1..2), boxes 1..3, frusta, mirrored order: six tetrahedra with the hexahedron's corners, non-zero, one orientation, volumes add up, pairwise disjoint interiors, conforming inner faces") {
    std::vector<std::array<V3i, 8>> H; auto add = [&](V3i o, V3i a, V3i b, V3i c) { H.push_back({{o, o + a, o + a + b, o + b, o + c, o + a + c, o + a + b + c, o + b + c}}); };
    std::vector<V3i> D; for (auto& p : lattice(r.thorough ? 3 : 2, 2, 2)) { V3i d = p - V3i(1, 1, 1); if (d.n2()) D.push_back(d); }
    for (auto& a : D) for (auto& b : D) for (auto& c : D) if (det3(a, b, c)) add({1, -2, 3}, a, b, c);
    for (ll x = 1; x <= 3; ++x) for (ll y = 1; y <= 3; ++y) for (ll z = 1; z <= 3; ++z) { add({0, 0, 0}, {x, 0, 0}, {0, y, 0}, {0, 0, -z}); add({0, 0, 0}, {x, 0, 0}, {0, y, 0}, {0, 0, z}); }
    for (ll m = 0; m < 2; ++m) for (ll k = 1; k <= 3; ++k) { ll z = m ? 2 : -2, a = k; H.push_back({{{0,0,0},{8,0,0},{8,8,0},{0,8,0},{a,a,z},{8-a,a,z},{8-a,8-a,z},{a,8-a,z}}}); H.push_back({{{a,a,0},{8-a,a,0},{8-a,8-a,0},{a,8-a,0},{0,0,z},{8,0,z},{8,8,z},{0,8,z}}}); }
    for (auto& h : H) { if (!r.next([&] { return "hexahedron " + show(std::vector<V3i>(h.begin(), h.end())); })) continue;
        CGeoHexahedron<R> x; for (auto& p : h) x.addVertex(C(p)); std::vector<CGeoTetrahedron<R>> t; x.decimate(t); r.op();
        ll V6 = 0; int F[6][4] = {{3, 2, 1, 0}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}; for (auto& f : F) V6 += det3(h[f[0]], h[f[1]], h[f[2]]) + det3(h[f[0]], h[f[2]], h[f[3]]);
        if (!r.expect(t.size() == 6, "count", "%zu", t.size())) continue; std::vector<T4> ti; std::vector<std::array<int, 4>> ci; bool ok = true; ll sum = 0; int o = 0;
        for (auto& q : t) { T4 z; std::array<int, 4> id; ok = ok && q.nbVertices() == 4; for (int k = 0; ok && k < 4; ++k) { id[k] = -1; for (int i = 0; i < 8; ++i) if (q.vertex(k) == C(h[i])) id[k] = i; if (id[k] < 0) ok = false; else z[k] = h[id[k]]; } if (!ok) break; ll d = det3(z[1] - z[0], z[2] - z[0], z[3] - z[0]); ok = ok && d != 0 && (o == 0 || sgn(d) == o); o = sgn(d); sum += d; ti.push_back(z); ci.push_back(id); CGeoTetrahedron<R> q2 = q; q2.calculateVolume(true); r.expect(near(q2.volume(), -d / 6.0), "tet-volume"); }
        if (!r.expect(ok, "pieces", "a piece is degenerate, inverted or uses a foreign corner")) continue; r.expect(std::llabs(sum) == std::llabs(V6) && sgn(sum) == sgn(V6), "volume", "sum %lld of %lld", sum, V6);
        bool dj = true; for (int i = 0; i < 6; ++i) for (int j = i + 1; j < 6; ++j) dj = dj && disjointTets(ti[i], ti[j]); r.expect(dj, "overlap");
        std::map<std::set<int>, int> fc; for (auto& c : ci) for (int k = 0; k < 4; ++k) { std::set<int> f; for (int j = 0; j < 4; ++j) if (j != k) f.insert(c[j]); fc[f]++; } int outer = 0; bool cf = true; for (auto& f : fc) { cf = cf && f.second <= 2; if (f.second == 1) { ++outer; bool on = false; for (auto& q : F) { std::set<int> s(q, q + 4); on |= std::includes(s.begin(), s.end(), f.first.begin(), f.first.end()); } cf = cf && on; } } r.expect(cf && outer == 12, "conforming", "%d outer faces", outer);
        Hash hh; for (auto& p : h) hh.add(p.x).add(p.y).add(p.z); r.state(hh); r.outcome(Hash().add(V6)); r.trace(); }
}
