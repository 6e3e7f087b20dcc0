// Edge lists, polylines and vertex cleaning.
#include "geo.hpp"
static std::vector<std::vector<V3i>> loops() {
    return {{{0,0,0},{2,0,0},{0,2,0}}, {{0,0,0},{2,0,0},{2,2,0},{0,2,0}}, {{0,0,0},{3,0,0},{1,1,0},{0,3,0}}, {{0,0,0},{2,0,0},{3,2,0},{1,3,0},{-1,1,0}},
            {{0,0,0},{1,0,0},{2,0,1},{1,1,2},{0,1,0}}, {{0,0,0},{1,0,0},{2,0,0},{2,2,0},{1,1,0},{0,2,0}}, {{0,0,0},{100,0,0},{100,1,0},{0,1,0},{-1,0,5}}};
}
static std::set<std::pair<V3i, V3i>> undirected(const std::vector<V3i>& p) { std::set<std::pair<V3i, V3i>> s; for (size_t i = 0; i < p.size(); ++i) { V3i a = p[i], b = p[(i + 1) % p.size()]; s.insert(b < a ? std::make_pair(b, a) : std::make_pair(a, b)); } return s; }
static void checkSorted(Run& r, const std::vector<V3i>& p, CGeoLineList<R>& l, double sc, double jit, const char* what) {
    int n = p.size(); double tol = 1e-9 + 4 * jit; bool chain = l.nbLines() == n; std::multiset<std::pair<V3i, V3i>> got; auto toI = [&](const P3& q) { return V3i(std::llround(q.x() / sc), std::llround(q.y() / sc), std::llround(q.z() / sc)); };
    for (int i = 0; i < l.nbLines(); ++i) { CGeoLine<R>& a = l.line(i); CGeoLine<R>& b = l.line((i + 1) % l.nbLines()); if ((a.endPoint() - b.startPoint()).norm() > tol) chain = false; if ((a.endPoint() - a.startPoint() - a.vector()).norm() > 1e-12) chain = false; V3i x = toI(a.startPoint()), y = toI(a.endPoint()); got.insert(y < x ? std::make_pair(y, x) : std::make_pair(x, y)); }
    r.expect(chain, "chain", "%s: lines are not chained head to tail", what); auto w = undirected(p); r.expect(std::set<std::pair<V3i, V3i>>(got.begin(), got.end()) == w && got.size() == w.size(), "lines-kept", "%s", what);
}
SECTION("sort-loop", "every order and every direction of the sides of 7 closed loops of 3..6 sides (planar and skew; quick: 5 sides complete, 6 sides all orders with 8 direction masks; thorough complete), exact and with end points moved by less than the tolerance, two scales; polyline built from the list, closedness, length") {
    for (auto& p : loops()) { int n = p.size();
        permutations(n, [&](const std::vector<int>& o) {
            if (!r.next([&] { return "loop " + show(p) + " sides in order " + show(o); })) return;
            for (int m = 0; m < (1 << n); ++m) { if (n == 6 && !r.thorough && m % 9) continue;
                for (int v = 0; v < 3; ++v) { double sc = v == 2 ? 0.01 : 1, jit = v == 1 ? 1e-7 : 0; CGeoLineList<R> l;
                    for (int k = 0; k < n; ++k) { int i = o[k]; P3 a = C(p[i], sc, P3(0, 0, 0)), b = C(p[(i + 1) % n], sc, P3(0, 0, 0)); if (jit) { a.x() += jit * (i % 3 - 1); b.y() += jit * ((i + k) % 3 - 1); } if (m >> k & 1) std::swap(a, b); l.addLine(CGeoLine<R>(a, b)); }
                    CGeoLineList<R> l2 = l; double len = 0; for (int i = 0; i < n; ++i) len += sc * (p[(i + 1) % n] - p[i]).n(); l.calculateLength(true); r.expect(near(l.length(), len, 1e-6), "list-length");
                    l.sort(jit ? 1e-6 : 1e-9); r.op(); checkSorted(r, p, l, sc, jit, v == 1 ? "perturbed" : "exact"); l.calculateLength(true); r.expect(near(l.length(), len, 1e-6), "length-kept");
                    CGeoPolyline<R> pl(l2, true, jit ? 1e-6 : 1e-9); r.op(); r.expect(pl.nbVertices() == n + 1 && pl.isClosed(jit ? 1e-5 : 1e-8) && pl.nbLines() == n, "polyline", "%d vertices of %d, closed %d", pl.nbVertices(), n + 1, pl.isClosed(1e-5));
                    pl.calculateLength(true); r.expect(near(pl.length(), len, 1e-5), "polyline-length"); pl.close(1e-5); r.expect(pl.nbVertices() == n + 1, "close-twice");
                    l.invert(); r.op(); checkSorted(r, p, l, sc, jit, "inverted"); } }
            Hash h; for (int i : o) h.add(i); for (auto& q : p) h.add(q.x).add(q.y).add(q.z); r.state(h); r.outcome(Hash().add(n)); r.trace(); }); }
}
SECTION("sort-chain", "every order and direction mask of the other sides of open chains of 2..5 segments when the first segment given is the head of the chain") {
    std::vector<V3i> c = {{0,0,0},{1,0,0},{2,1,0},{2,2,1},{0,3,0},{-1,-1,-1}};
    for (int n = 2; n <= 5; ++n) permutations(n - 1, [&](const std::vector<int>& o) {
        if (!r.next([&] { return strf("chain of %d in order ", n) + show(o); })) return;
        for (int m = 0; m < (1 << (n - 1)); ++m) { CGeoLineList<R> l; l.addLine(CGeoLine<R>(C(c[0]), C(c[1]))); for (int k = 0; k < n - 1; ++k) { int i = o[k] + 1; if (m >> k & 1) l.addLine(CGeoLine<R>(C(c[i + 1]), C(c[i]))); else l.addLine(CGeoLine<R>(C(c[i]), C(c[i + 1]))); }
            CGeoPolyline<R> pl(l, true, 1e-9); r.op(); bool ok = pl.nbVertices() == n + 1; for (int i = 0; ok && i <= n; ++i) ok = nearP(pl.vertex(i), c[i].x, c[i].y, c[i].z); r.expect(ok, "open-chain", "directions %d", m); r.expect(!pl.isClosed(1e-9), "open-closed"); if (n > 1) { pl.close(1e-9); r.expect(pl.isClosed(1e-9) && pl.nbVertices() == n + 2, "close"); } }
        Hash h; h.add(n); for (int i : o) h.add(i); r.state(h); r.outcome(n); r.trace(); });
}
SECTION("clean", "every simple lattice polygon with 3 or 4 corners on a 4x4 lattice and 5 corners on a 3x3 lattice (thorough 5 on 4x3) x every insertion of up to two straight or repeated vertices, in 3 planes and both directions: cleaning keeps the area and exactly the corners") {
    auto run = [&](const std::vector<V3i>& L, int n) { combinations(L.size(), n, [&](const std::vector<int>& cc) { std::vector<int> o(cc.begin() + 1, cc.end());
        do { std::vector<V3i> p = {L[cc[0]]}; for (int i : o) p.push_back(L[i]); if (!simple2(p, false)) continue;
            if (!r.next([&] { return "polygon " + show(p); })) continue;
            for (int e : {0, 3, 6}) for (int i1 = 0; i1 < n; ++i1) for (int k1 = 0; k1 < 3; ++k1) for (int i2 = i1; i2 < n; ++i2) for (int k2 = 0; k2 < 3; ++k2) { // kinds: 0 nothing, 1 point on side i, 2 repeat of vertex i
                std::vector<P3> v; for (int i = 0; i < n; ++i) { P3 a = C(embeddings()[e].at(p[i])), b = C(embeddings()[e].at(p[(i + 1) % n])); v.push_back(a); for (int q = 0; q < 2; ++q) { int ii = q ? i2 : i1, kk = q ? k2 : k1; if (ii != i) continue; if (kk == 2 && v.back() == a) v.push_back(a); if (kk == 1) { double t = q ? 0.75 : 0.25; v.push_back(P3(a + (b - a) * t)); } } }
                CGeoPolyline<R> pl; for (auto& q : v) pl.addVertex(q); pl.close(); pl.removeDuplicates(); r.op(); bool noRep = true; for (int i = 0; i + 1 < pl.nbVertices(); ++i) if (pl.vertex(i) == pl.vertex(i + 1)) noRep = false; r.expect(noRep, "duplicates-left");
                int straight = (k1 == 1) + (k2 == 1); r.expect(pl.nbVertices() == n + 1 + straight, "duplicates-count", "%d", pl.nbVertices());
                pl.removeCollinear(1e-6); r.op(); bool ok = pl.nbVertices() == n + 1; for (int i = 0; ok && i <= n; ++i) { V3i w = embeddings()[e].at(p[i % n]); ok = nearP(pl.vertex(i), w.x, w.y, w.z); }
                r.expect(ok, "collinear", "insertions %d:%d %d:%d leave %d vertices", i1, k1, i2, k2, pl.nbVertices());
                CGeoPolygon<R> g; g.setPolyline(pl); g.calculateArea(); V3i nn = embeddings()[e].e1.cross(embeddings()[e].e2); r.expect(near(g.area(), std::llabs(area2x2(p)) * nn.n() / 2), "area"); }
            r.state(Hash().add(n).add(cc[0]).adds(show(p))); r.outcome(n); r.trace();
        } while (std::next_permutation(o.begin(), o.end())); }); };
    run(lattice(3, 3, 0), 3); run(lattice(3, 3, 0), 4); run(r.thorough ? lattice(3, 2, 0) : lattice(2, 2, 0), 5);
}
SECTION("vertex-list", "every sequence of up to 4 (thorough 5) operations (add, insert front/middle, remove front/back, set, remove duplicates, remove collinear, invert, reset) on a vertex list against a vector model, short lists included") {
    const int K = 10; std::vector<P3> pts = {P3(0, 0, 0), P3(1, 0, 0), P3(2, 0, 0), P3(2, 1, 0)};
    for (int d = 1; d <= (r.thorough ? 5 : 4); ++d) for (int pre = 0; pre <= 4; ++pre) sequences(d, K, [&](const std::vector<int>& s) {
        if (!r.next([&] { return strf("prefix %d ops ", pre) + show(s); })) return;
        CGeoVertexList<R> l; std::vector<P3> m; int c = 0; for (int i = 0; i < pre; ++i) { l.addVertex(pts[i]); m.push_back(pts[i]); }
        for (int o : s) { P3 q = pts[(c * 3) % 4]; r.op();
            switch (o) { case 0: l.addVertex(q); m.push_back(q); ++c; break; case 1: l.insertVertex(0, q); m.insert(m.begin(), q); ++c; break; case 2: if (m.empty()) break; l.insertVertex(m.size() / 2, q); m.insert(m.begin() + m.size() / 2, q); break;
                case 3: if (m.empty()) break; l.removeVertex(0); m.erase(m.begin()); break; case 4: if (m.empty()) break; l.removeVertex(m.size() - 1); m.pop_back(); break; case 5: if (m.empty()) break; l.setVertex(m.size() - 1, q); m.back() = q; break;
                case 6: l.removeDuplicates(); m.erase(std::unique(m.begin(), m.end()), m.end()); break;
                case 7: { bool rep = false; for (size_t i = 0; i + 1 < m.size(); ++i) rep |= m[i] == m[i + 1]; if (rep) break; l.removeCollinear(1e-6); std::vector<P3> w; for (size_t i = 0; i < m.size(); ++i) { if (i > 0 && i + 1 < m.size()) { V3l u = toL(m[i]) - toL(m[i - 1]), v = toL(m[i + 1]) - toL(m[i]); if (norm(cross(u, v)) < 1e-9 && dot(u, v) > 0) continue; } w.push_back(m[i]); } m = w; break; }
                case 8: l.invert(); std::reverse(m.begin(), m.end()); break; case 9: l.reset(); m.clear(); break; }
            bool ok = l.nbVertices() == (int)m.size(); for (int i = 0; ok && i < (int)m.size(); ++i) ok = l.vertex(i) == m[i]; if (!r.expect(ok, "model", "after operation %d: %d vertices, want %zu", o, l.nbVertices(), m.size())) break; }
        Hash h; h.add(pre); for (int i : s) h.add(i); r.state(h); r.outcome(m.size()); r.trace(); });
}
