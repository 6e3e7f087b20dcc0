// Advancing-front meshing of planar domains: exhaustive sets of small lattice domains, sizes, numberings, interior points and
// histories; every successful result must tile the domain exactly.
#include "plane.hpp"
#include "MshQuadrilateralMesher.hpp"
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
typedef CMshTriangleMesher<R> TM; typedef CMshQuadrilateralMesher<R> QM;
static const double SZ[6] = {0.3, 0.5, 0.75, 1.0, 1.4, 3.0};
static std::vector<V3i> grid(int a, int b, int x0 = 0, int y0 = 0) { std::vector<V3i> p; for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) p.push_back({x0 + x, y0 + y, 0}); return p; }
static std::string meshKey(const Mesh& m) { std::string s; for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); for (int k = 0; k < e.nbNodeIds(); ++k) { auto& n = m.node(e.nodeId(k)); s += strf("%.9g,%.9g ", n.x(), n.y()); } s += ";"; } return s; }
static void note(Run& r, const Mesh& m) { r.outcome(Hash().adds(meshKey(m))); r.trace(); }
// faces of the result: every side of an element once, paired exactly with the same side of the neighbour
static bool facesOk(const Mesh& m, std::string& why) {
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); if (e.nbFaceIds() != e.nbNodeIds()) { why = "number of faces"; return false; }
        for (int k = 0; k < e.nbFaceIds(); ++k) { auto& f = m.face(e.faceId(k)); if (f.elementId() != id) { why = "face of another element"; return false; } if (f.hasPair()) { auto& g = m.face(f.pairFaceId()); if (g.nodeId(0) != f.nodeId(1) || g.nodeId(1) != f.nodeId(0)) { why = "pair is another side"; return false; } } } }
    return true;
}
template <class M> static int gen(M& m, const Mesh& e, std::vector<P3> in, double h, double lo, double hi, double tol, int max = 3000) {
    try { return m.generate(e, max, in, h, lo, hi, tol) ? 1 : 0; } catch (std::exception&) { return -1; } catch (...) { return 0; }
}
struct Opt { double lo, hi, tol; };
static const Opt OPT[5] = {{0.1, 10, 1e-3}, {1, 2, 1e-3}, {0, 1e300, 1e-4}, {0.5, 1, 1e-2}, {0.1, 10, 1e-6}};
template <class M> static void domain(Run& r, const Dom& d, double h, const Opt& o, int scheme, const std::vector<P3>& in, bool quads, bool must, double sc = 1, double ox = 0, double oy = 0, int flips = 0) {
    Mesh e = edgeMesh(d, scheme, sc, ox, oy); e.generateFaces(1e-4 * sc); M m; m.remesh(e, h * sc, 1e-4 * sc); Mesh keep = e;
    int ok = gen(m, e, in, h * sc, o.lo * h * sc, o.hi * h * sc, o.tol * sc); r.op(); r.outcome(Hash().add(ok)); if (must) r.expect(ok == 1, "fails", "meshing of a plain domain fails"); if (ok != 1) { r.trace(); return; }
    std::string why; Edges want = edgesOf(e); double area = domArea(d) * sc * sc;
    { bool good_ = tiles(m.mesh(), want, area, why, quads); r.expect(good_, "tiling", "%s", why.c_str()); } { bool good_ = facesOk(m.mesh(), why); r.expect(good_, "faces", "%s", why.c_str()); } r.expect(edgesOf(keep) == want, "input");
    if (!quads) for (auto& p : in) { bool f = false; for (int i = 0; i < m.mesh().nbNodes(); ++i) f |= (m.mesh().node(m.mesh().nodeId(i)) - p).norm() < 1e-9; r.expect(f, "interior point", "(%g, %g) is not a node", p.x(), p.y()); }
    note(r, m.mesh());
    if (flips) { Mesh q = m.mesh(); for (int i = 0; i < flips && !r.failedNow(); ++i) { m.flipEdges(q, o.tol * sc); r.op(); { bool good_ = tiles(q, want, area, why, quads, -1e-9); r.expect(good_, "flipped", "%s", why.c_str()); } m.relaxNodes(q, o.tol * sc); r.op(); { bool good_ = tiles(q, want, area, why, quads); r.expect(good_, "relaxed", "%s", why.c_str()); } { bool good_ = facesOk(q, why); r.expect(good_, "faces", "%s", why.c_str()); } } note(r, q); }
}
SECTION("polygons", "every simple polygon of 3 to 7 corners on a 3 x 3 lattice (straight corners included) x 6 sizes x 4 numberings, triangles must succeed; polygons of 3 to 5 (thorough 6) corners on a 4 x 4 lattice x 6 sizes; then two rounds of flipping and relaxing") {
    for (int k = 3; k <= 7; ++k) polygons(grid(3, 3), k, true, [&](const std::vector<V3i>& p) { for (double h : SZ) for (int s = 0; s < 4; ++s) { Dom d{{p}}; if (!r.next([&] { return show(d) + strf(" size %g numbering %d", h, s); })) continue; r.state(Hash().adds(show(d)).addd(h).add(s)); domain<TM>(r, d, h, OPT[0], s, {}, false, true, 1, 0, 0, 2); } });
    for (int k = 3; k <= (r.thorough ? 6 : 5); ++k) { long n = 0; polygons(grid(4, 4), k, false, [&](const std::vector<V3i>& p) { for (double h : SZ) { ++n; if (!r.thorough && n % 3) continue; Dom d{{p}}; if (!r.next([&] { return show(d) + strf(" size %g", h); })) continue; r.state(Hash().adds(show(d)).addd(h)); domain<TM>(r, d, h, OPT[0], 0, {}, false, false, 1, 0, 0, 1); } }); }
}
SECTION("options", "every polygon of 3 to 6 corners on a 3 x 3 lattice x 6 sizes x 4 other limits and tolerances x 3 scalings and positions") {
    for (int k = 3; k <= 6; ++k) polygons(grid(3, 3), k, false, [&](const std::vector<V3i>& p) { for (double h : SZ) for (int o = 1; o < 5; ++o) for (int t = 0; t < 3; ++t) { Dom d{{p}}; if (!r.next([&] { return show(d) + strf(" size %g options %d placement %d", h, o, t); })) continue; r.state(Hash().adds(show(d)).addd(h).add(o).add(t)); domain<TM>(r, d, h, OPT[o], 0, {}, false, false, t == 2 ? 20 : 1, t ? -7.3 : 0, t ? 3.1 : 0); } });
}
static void holes(Run& r, const std::function<void(const Dom&, double, const std::string&)>& f) {
    for (int k = 3; k <= 7; ++k) polygons(grid(3, 3, 1, 1), k, false, [&](const std::vector<V3i>& p) { auto q = p; std::reverse(q.begin(), q.end()); for (double h : SZ) f(Dom{{{{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}}, q}}, h, "hole"); });
    std::vector<std::vector<V3i>> small; for (int k = 3; k <= 4; ++k) polygons(grid(2, 2), k, false, [&](const std::vector<V3i>& p) { auto q = p; std::reverse(q.begin(), q.end()); small.push_back(q); });
    auto at = [](std::vector<V3i> q, int x, int y) { for (auto& v : q) { v.x += x; v.y += y; } return q; };
    int n = 0; for (auto& a : small) for (auto& b : small) for (int k = 0; k < 6; ++k) for (double h : SZ) if (r.thorough || ++n % 2) f(Dom{{{{0, 0, 0}, {5, 0, 0}, {5, 5, 0}, {0, 5, 0}}, at(a, 1, 1), at(b, k < 3 ? 3 : k - 2, k < 3 ? k + 1 : 3)}}, h, "two holes");
}
SECTION("holes", "a square with every simple polygon of a 3 x 3 lattice as hole, or two small holes in all placements x 6 sizes") {
    holes(r, [&](const Dom& d, double h, const std::string& t) { if (!r.next([&] { return t + " " + show(d) + strf(" size %g", h); })) return; r.state(Hash().adds(show(d)).addd(h)); domain<TM>(r, d, h, OPT[0], 0, {}, false, t == "hole", 1, 0, 0, 1); });
}
static std::vector<P3> insidePoints(const std::vector<V3i>& p) {
    std::vector<P3> c; for (double x = 0.5; x < 2; x += 0.5) for (double y = 0.5; y < 2; y += 0.5) { int w = 0; bool on = false; for (size_t i = 0; i < p.size(); ++i) { auto &a = p[i], &b = p[(i + 1) % p.size()]; double cr = (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x);
        if (std::fabs(cr) < 0.3 && x >= std::min(a.x, b.x) - .1 && x <= std::max(a.x, b.x) + .1 && y >= std::min(a.y, b.y) - .1 && y <= std::max(a.y, b.y) + .1) on = true; if ((a.y <= y) != (b.y <= y) && a.x + (y - a.y) * (b.x - a.x) / (b.y - a.y) > x) w ^= 1; } if (!on && w) c.push_back(P3(x, y, 0)); }
    return c;
}
static void interior(Run& r, int cap, const std::function<void(const Dom&, double, const std::vector<P3>&, int)>& f) {
    for (int k = 3; k <= 7; ++k) polygons(grid(3, 3), k, false, [&](const std::vector<V3i>& p) { auto c = insidePoints(p); for (int m = 1; m < (1 << c.size()); ++m) { if (__builtin_popcount(m) > cap) continue; std::vector<P3> in; for (size_t i = 0; i < c.size(); ++i) if (m >> i & 1) in.push_back(c[i]); for (double h : SZ) f(Dom{{p}}, h, in, m); } });
}
SECTION("interior points", "every polygon of 3 to 7 corners on a 3 x 3 lattice with every set of up to 3 (thorough any number) of the half-lattice points inside x 6 sizes: success, and all points are nodes") {
    interior(r, r.thorough ? 9 : 3, [&](const Dom& d, double h, const std::vector<P3>& in, int m) { if (!r.next([&] { return show(d) + strf(" size %g points %d", h, m); })) return; r.state(Hash().adds(show(d)).addd(h).add(m)); domain<TM>(r, d, h, OPT[0], 0, in, false, true); });
}
SECTION("quadrilaterals", "quadrilateral meshing of every polygon of 3 to 7 corners on a 3 x 3 lattice x 6 sizes x 4 numberings, of 3 to 5 corners on a 4 x 4 lattice, of every hole and of up to 2 (thorough 9) interior points; flipping and relaxing") {
    for (int k = 3; k <= 7; ++k) polygons(grid(3, 3), k, true, [&](const std::vector<V3i>& p) { for (double h : SZ) for (int s = 0; s < 4; ++s) { Dom d{{p}}; if (!r.next([&] { return show(d) + strf(" size %g numbering %d", h, s); })) continue; r.state(Hash().adds(show(d)).addd(h).add(s)); domain<QM>(r, d, h, OPT[0], s, {}, true, false, 1, 0, 0, 2); } });
    for (int k = 3; k <= 5; ++k) { long n = 0; polygons(grid(4, 4), k, false, [&](const std::vector<V3i>& p) { for (double h : SZ) { ++n; if (!r.thorough && n % 2) continue; Dom d{{p}}; if (!r.next([&] { return show(d) + strf(" size %g", h); })) continue; r.state(Hash().adds(show(d)).addd(h)); domain<QM>(r, d, h, OPT[0], 0, {}, true, false, 1, 0, 0, 1); } }); }
    holes(r, [&](const Dom& d, double h, const std::string& t) { if (!r.next([&] { return t + " " + show(d) + strf(" size %g", h); })) return; r.state(Hash().adds(show(d)).addd(h).add(1)); domain<QM>(r, d, h, OPT[0], 0, {}, true, false); });
    interior(r, r.thorough ? 9 : 2, [&](const Dom& d, double h, const std::vector<P3>& in, int m) { if (!r.next([&] { return show(d) + strf(" size %g points %d", h, m); })) return; r.state(Hash().adds(show(d)).addd(h).add(m).add(2)); domain<QM>(r, d, h, OPT[0], 0, in, true, false); });
}
SECTION("subdivision", "boundaries of all polygons of 3 to 7 corners on a 3 x 3 lattice and all holes x every sequence of 1 to 2 subdivisions with 6 sizes x 4 numberings: equal pieces of every edge, in order, linked to their neighbours") {
    std::vector<Dom> ds; for (int k = 3; k <= 7; ++k) polygons(grid(3, 3), k, true, [&](const std::vector<V3i>& p) { ds.push_back(Dom{{p}}); }); polygons(grid(3, 3, 1, 1), 4, false, [&](const std::vector<V3i>& p) { auto q = p; std::reverse(q.begin(), q.end()); ds.push_back(Dom{{{{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}}, q}}); });
    for (auto& d : ds) for (int s = 0; s < 4; ++s) for (int a = 0; a < 6; ++a) for (int b = -1; b < 6; ++b) { if (!r.thorough && (s + a + b) % 3) continue;
        if (!r.next([&] { return show(d) + strf(" numbering %d sizes %g %g", s, SZ[a], b < 0 ? 0 : SZ[b]); })) continue; r.state(Hash().adds(show(d)).add(s).add(a).add(b));
        Mesh e = edgeMesh(d, s); e.generateFaces(1e-4); TM m; auto pieces = [](const Edges& E, double h) { Edges n; for (auto& x : E) { double ax = x.first.first[0] / 1e7, ay = x.first.first[1] / 1e7, bx = x.first.second[0] / 1e7, by = x.first.second[1] / 1e7; int k = std::max(1, (int)std::floor(std::hypot(bx - ax, by - ay) / h + 0.5 + 1e-12)); for (int i = 0; i < k; ++i) addEdge(n, P3(ax + (bx - ax) * i / k, ay + (by - ay) * i / k, 0), P3(ax + (bx - ax) * (i + 1) / k, ay + (by - ay) * (i + 1) / k, 0)); } return n; };
        auto same = [](const Edges& a, const Edges& b) { if (a.size() != b.size()) return false; for (auto& x : a) { bool f = b.count(x.first); if (!f) for (auto& y : b) f |= std::llabs(x.first.first[0] - y.first.first[0]) + std::llabs(x.first.first[1] - y.first.first[1]) + std::llabs(x.first.second[0] - y.first.second[0]) + std::llabs(x.first.second[1] - y.first.second[1]) < 20; if (!f) return false; } return true; };
        Edges want = edgesOf(e); for (int st : {a, b}) { if (st < 0) break; bool res = m.remesh(e, SZ[st], 1e-4); r.op(); want = pieces(want, SZ[st]); r.expect(res && same(edgesOf(e), want), "pieces", "size %g: %zu edges instead of %zu", SZ[st], edgesOf(e).size(), want.size());
            for (int i = 0; i < e.nbElements(); ++i) { int id = e.elementId(i); auto& x = e.element(id); r.expect(x.elementType() == ET_BEAM && x.nbFaceIds() == 2, "faces"); if (x.nbFaceIds() == 2) for (int k = 0; k < 2; ++k) { auto& f = e.face(x.faceId(k)); bool good = f.elementId() == id && f.nodeId(0) == x.nodeId(k) && f.hasPair(); if (good) { auto& g = e.face(f.pairFaceId()); good = g.elementId() != id && g.nodeId(0) == x.nodeId(k) && e.element(g.elementId()).nodeId(1 - k) == x.nodeId(k); } r.expect(good, "links", "edge %d side %d", id, k); } } }
        r.outcome(Hash().add(e.nbElements())); r.trace(); }
}
SECTION("histories", "every sequence of up to 3 (thorough 4) of: mesh one of 4 domains with or without interior points, a failing one, a stopped one, another mesher's domain; on the same mesher object, compared with a fresh one; triangles and quadrilaterals") {
    struct Job { Dom d; double h; std::vector<P3> in; int kind; }; std::vector<Job> js;
    js.push_back({Dom{{{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}}}}, 0.7, {}, 0}); js.push_back({Dom{{{{0, 0, 0}, {3, 0, 0}, {1, 1, 0}, {0, 3, 0}}}}, 0.5, {}, 0}); js.push_back({Dom{{{{0, 0, 0}, {4, 0, 0}, {4, 4, 0}, {0, 4, 0}}, {{1, 1, 0}, {1, 2, 0}, {2, 2, 0}, {2, 1, 0}}}}, 0.9, {}, 0});
    js.push_back({Dom{{{{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}}}}, 0.9, {P3(0.6, 0.6, 0), P3(1.3, 0.8, 0)}, 0}); js.push_back({Dom{{{{0, 0, 0}, {3, 0, 0}, {0, 3, 0}}}}, 0.6, {P3(1, 1, 0)}, 0}); js.push_back({Dom{{{{0, 0, 0}, {3, 0, 0}, {3, 3, 0}, {0, 3, 0}}}}, 0.4, {}, 1}); js.push_back({Dom{{{{0, 0, 0}, {3, 0, 0}, {3, 3, 0}, {0, 3, 0}}}}, 0.8, {P3(1.5, 1.4, 0)}, 2});
    auto run = [&](auto& m, const Job& j, bool quads, std::string& out) { Mesh e = edgeMesh(j.d, 0); e.generateFaces(1e-4); m.remesh(e, j.h, 1e-4); m.onUpdate = nullptr; m.setIntervals(j.kind == 2 ? -1 : 1000000, 100); int calls = 0; if (j.kind == 2) m.onUpdate = [&m, &calls](int) { if (++calls == 7) m.stopMeshing(); return 0; }; int ok = gen(m, e, j.in, j.h, 0.1 * j.h, 10 * j.h, 1e-3, j.kind == 1 ? 5 : 3000); m.onUpdate = nullptr; out = ok == 1 ? meshKey(m.mesh()) : "fails"; std::string why; if (ok == 1) { bool good_ = tiles(m.mesh(), edgesOf(e), domArea(j.d), why, quads); r.expect(good_, "tiling", "%s", why.c_str()); } };
    for (int t = 0; t < 2; ++t) for (int n = 1; n <= (r.thorough ? 4 : 3); ++n) sequences(n, (int)js.size(), [&](const std::vector<int>& q) { if (!r.next([&] { return strf("%s ", t ? "quadrilaterals" : "triangles") + show(q); })) return; r.state(Hash().add(t).adds(show(q)));
        auto go = [&](auto& m, auto& f) { for (size_t i = 0; i < q.size(); ++i) { std::string a, b; run(m, js[q[i]], t, a); r.op(); if (i + 1 == q.size()) { run(f, js[q[i]], t, b); r.expect(a == b, "history", "the same mesher gives another mesh"); r.outcome(Hash().adds(a)); } } };
        if (t) { QM m, f; go(m, f); } else { TM m, f; go(m, f); } r.trace(); });
}
// all triangulations of lattice rectangles using every lattice point, by exploring the flip graph
typedef std::set<std::array<int, 3>> Tri;
static std::array<int, 3> norm3(int a, int b, int c) { std::array<int, 3> t = {a, b, c}; std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end()); return t; }
static std::vector<Tri> triangulations(const std::vector<P3>& p, const Tri& first) {
    auto area = [&](int a, int b, int c) { return (p[b].x() - p[a].x()) * (p[c].y() - p[a].y()) - (p[b].y() - p[a].y()) * (p[c].x() - p[a].x()); };
    std::set<Tri> seen = {first}; std::vector<Tri> todo = {first}; for (size_t i = 0; i < todo.size(); ++i) { Tri t = todo[i]; std::map<std::pair<int, int>, int> ed; for (auto& x : t) for (int k = 0; k < 3; ++k) ed[{x[k], x[(k + 1) % 3]}] = x[(k + 2) % 3];
        for (auto& e : ed) { int a = e.first.first, b = e.first.second; if (a > b || !ed.count({b, a})) continue; int c = e.second, d = ed[{b, a}]; if (area(c, d, b) > 1e-9 && area(d, c, a) > 1e-9) { Tri u = t; u.erase(norm3(a, b, c)); u.erase(norm3(b, a, d)); u.insert(norm3(c, d, b)); u.insert(norm3(d, c, a)); if (seen.insert(u).second) todo.push_back(u); } } }
    return todo;
}
static Tri gridTri(int nx, int ny) { Tri t; for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { int a = y * (nx + 1) + x, b = a + 1, c = b + nx + 1, d = a + nx + 1; t.insert(norm3(a, b, c)); t.insert(norm3(a, c, d)); } return t; }
static Edges rectEdges(int nx, int ny) { Edges w; for (int x = 0; x < nx; ++x) { addEdge(w, P3(x, 0, 0), P3(x + 1, 0, 0)); addEdge(w, P3(x + 1, ny, 0), P3(x, ny, 0)); } for (int y = 0; y < ny; ++y) { addEdge(w, P3(nx, y, 0), P3(nx, y + 1, 0)); addEdge(w, P3(0, y + 1, 0), P3(0, y, 0)); } return w; }
SECTION("triangulations", "every triangulation of 2 x 2, 3 x 2 (thorough 3 x 3) lattice rectangles with an interior point moved to 9 positions (reached by exploring the flip graph) x 4 numberings x every sequence of up to 3 of: flip, relax, subdivide (triangle mesher), flip, relax (quadrilateral mesher)") {
    for (int g = 0; g < (r.thorough ? 3 : 2); ++g) for (int mv = 0; mv < 9; ++mv) { int nx = g ? 3 : 2, ny = g == 2 ? 3 : 2; if (g == 2 && mv % 4) continue; std::vector<P3> p; for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x) p.push_back(P3(x, y, 0)); p[nx + 2] = P3(1 + (mv % 3 - 1) * 0.35, 1 + (mv / 3 - 1) * 0.35, 0); Edges want = rectEdges(nx, ny);
        auto all = triangulations(p, gridTri(nx, ny)); int ti = 0; for (auto& t : all) { ++ti; for (int n = 1; n <= (g == 2 ? 1 : 3); ++n) sequences(n, 5, [&](const std::vector<int>& q) { if (g && n == 3 && (ti + q[0] + q[1]) % (r.thorough ? 2 : 12)) return; if (g == 2 && ti % 8) return;
            if (!r.next([&] { std::string s; for (auto& x : t) s += strf("(%d,%d,%d)", x[0], x[1], x[2]); return s + strf(" point %d operations ", mv) + show(q); })) return; r.state(Hash().add(g).add(mv).add(ti).adds(show(q)));
            MD d; d.p = p; for (auto& x : t) d.e.push_back({ET_TRIANGLE, {x[0], x[1], x[2]}}); Mesh m = mkMeshN(d, (ti + q[0]) % 4); m.generateFaces(1e-6); TM tm; QM qm; std::string why;
            for (int o : q) { if (o == 0) tm.flipEdges(m, 1e-6); else if (o == 1) tm.relaxNodes(m, 1e-6); else if (o == 2) tm.remesh(m, 0.8, 1e-6); else if (o == 3) qm.flipEdges(m, 1e-6); else qm.relaxNodes(m, 1e-6); r.op(); { bool good_ = tiles(m, want, nx * ny, why, false, -1e-9); r.expect(good_, o == 2 ? "subdivided" : o % 3 == 0 ? "flipped" : "relaxed", "%s", why.c_str()); } { bool good_ = facesOk(m, why); r.expect(good_, "faces", "%s", why.c_str()); } if (r.failedNow()) break; }
            if (n <= 2) { std::string key[2]; for (int s = 0; s < 2; ++s) { Mesh c = mkMeshN(d, s); c.generateFaces(1e-6); for (int o : q) { if (o == 0) tm.flipEdges(c, 1e-6); else if (o == 1) tm.relaxNodes(c, 1e-6); else if (o == 2) tm.remesh(c, 0.8, 1e-6); else if (o == 3) qm.flipEdges(c, 1e-6); else qm.relaxNodes(c, 1e-6); r.op(); } key[s] = meshKey(c); } r.expect(key[0] == key[1], "numbers", "the result depends on the numbers of nodes and elements"); }
            note(r, m); }); } }
}
SECTION("mixed meshes", "every division of 2 x 2 and 3 x 2 cells into quadrilaterals and triangles with an interior point moved to 25 positions x flipping or relaxing by either mesher, three times") {
    for (int nx = 2; nx <= 3; ++nx) { int ny = 2, cells = nx * ny, tot = 1; for (int i = 0; i < cells; ++i) tot *= 3; Edges w = rectEdges(nx, ny);
        for (int c = 0; c < tot; ++c) for (int dx = -2; dx <= 2; ++dx) for (int dy = -2; dy <= 2; ++dy) for (int o = 0; o < 4; ++o) {
            MD d; for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x) { double X = x, Y = y; if (x == 1 && y == 1) { X += dx * 0.3; Y += dy * 0.3; } d.p.push_back(P3(X, Y, 0)); } int q = c; for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { int a = y * (nx + 1) + x, b = a + 1, e = b + nx + 1, f = a + nx + 1, t = q % 3; q /= 3; if (t == 0) d.e.push_back({ET_QUADRILATERAL, {a, b, e, f}}); else if (t == 1) { d.e.push_back({ET_TRIANGLE, {a, b, e}}); d.e.push_back({ET_TRIANGLE, {a, e, f}}); } else { d.e.push_back({ET_TRIANGLE, {a, b, f}}); d.e.push_back({ET_TRIANGLE, {b, e, f}}); } }
            Mesh m = mkMeshN(d, (c + o) % 4); std::string why; if (!tiles(m, w, nx * ny, why, true)) continue; if (!r.next([&] { return strf("%d x %d cells %d point %d %d operation %d", nx, ny, c, dx, dy, o); })) continue; r.state(Hash().add(nx).add(c).add(dx).add(dy).add(o)); m.generateFaces(1e-6); TM tm; QM qm;
            for (int i = 0; i < 3; ++i) { if (o == 0) tm.flipEdges(m, 1e-6); else if (o == 1) tm.relaxNodes(m, 1e-6); else if (o == 2) qm.flipEdges(m, 1e-6); else qm.relaxNodes(m, 1e-6); r.op(); { bool good_ = tiles(m, w, nx * ny, why, true, -1e-9); r.expect(good_, o % 2 ? "relaxed" : "flipped", "%s", why.c_str()); } { bool good_ = facesOk(m, why); r.expect(good_, "faces", "%s", why.c_str()); } } note(r, m); } }
}
