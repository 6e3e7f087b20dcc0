// Structured meshers: counts, node lattice, orientation, conformity, measure, reuse.
#include "msh.hpp"
#include "GeoBoundingBox.hpp"
#include "MshBasicMesher.hpp"
typedef CMshBasicMesher<R> BM;
struct Shape { P3 o, u, v, w; const char* name; };
static P3 add(const P3& a, const P3& b) { return P3(a.x() + b.x(), a.y() + b.y(), a.z() + b.z()); }
static P3 at(const Shape& s, double a, double b, double c) { return P3(s.o.x() + a * s.u.x() + b * s.v.x() + c * s.w.x(), s.o.y() + a * s.u.y() + b * s.v.y() + c * s.w.y(), s.o.z() + a * s.u.z() + b * s.v.z() + c * s.w.z()); }
static std::vector<Shape> shapes() { return {
    {{0,0,0},{1,0,0},{0,1,0},{0,0,1},"unit-up"}, {{0,0,0},{1,0,0},{0,1,0},{0,0,-1},"unit-down"}, {{0.3,-2.1,7},{0.7,0,0},{0,0.1,0},{0,0,-3.3},"bar"},
    {{0,0,0},{0,2,0},{0,0,3},{-1.5,0,0},"axes-permuted"}, {{0,0,0},{1,0,0},{0.5,1,0},{0.25,0.3,-0.9},"skew"}, {{5,6,7},{1,1,0.2},{-1,1,0},{0.1,0.2,2},"tilted"}, {{0,0,0},{1e-3,0,0},{0,2e-3,1e-3},{0,-1e-3,-1e-3},"tiny"}, {{-100,50,0},{200,0,0},{0,70,30},{10,0,-90},"large"} }; }
static double lenOf(const P3& p) { return norm(toL(p)); }
// every side used once or twice; sides used once add up to the given boundary measure; interior sides traversed in opposite directions (surface meshes)
static void conform(Run& r, const Mesh& m, int dim, double bnd, double tol) {
    std::map<std::vector<int>, int> c; std::map<std::pair<int, int>, int> dir; std::map<std::vector<int>, std::vector<int>> any;
    for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); for (auto& s : sidesOf(e.elementType())) { auto n = sideNodes(e, s); c[cyc(n)]++; any[cyc(n)] = n; if (dim == 2) dir[{n[0], n[1]}]++; } }
    double tot = 0; for (auto& x : c) { if (!r.expect(x.second <= 2, "side-shared-by-many")) return; if (x.second == 1) { auto& n = any[x.first]; if (dim == 1) tot += 1; else { std::vector<P3> v; for (int k : n) v.push_back(m.node(k)); tot += measure(dim == 2 ? ET_BEAM : v.size() == 3 ? ET_TRIANGLE : ET_QUADRILATERAL, v); } } }
    r.expect(std::fabs(tot - bnd) <= tol, "boundary", "%.12g want %.12g", tot, bnd);
    for (auto& x : dir) if (!r.expect(x.second == 1, "orientation-between-neighbours")) return;
}
static void nodesAre(Run& r, const Mesh& m, std::vector<P3> want, double tol) {
    if (!r.expect(m.nbNodes() == (int)want.size(), "nodes", "%d want %zu", m.nbNodes(), want.size())) return;
    auto key = [&](const P3& p) { return std::array<ll, 3>{std::llround(p.x() / tol), std::llround(p.y() / tol), std::llround(p.z() / tol)}; };
    std::map<std::array<ll, 3>, int> g; for (int i = 0; i < m.nbNodes(); ++i) g[key(m.node(m.nodeId(i)))]++;
    for (auto& p : want) { auto k = key(p); bool f = false; for (int a = -1; a < 2 && !f; ++a) for (int b = -1; b < 2 && !f; ++b) for (int c = -1; c < 2 && !f; ++c) { auto it = g.find({k[0] + a, k[1] + b, k[2] + c}); if (it != g.end()) { f = true; if (--it->second == 0) g.erase(it); } } if (!r.expect(f, "node-position", "no node at (%.12g %.12g %.12g)", p.x(), p.y(), p.z())) return; }
}
static void common(Run& r, const Mesh& m, EElementType t, int n, double whole, double scale) {
    if (!r.expect(m.nbElements() == n, "count", "%d want %d", m.nbElements(), n)) return; double tot = 0; int sg = whole > 0 ? 1 : -1;
    for (int i = 0; i < n; ++i) { int id = m.elementId(i); auto& e = m.element(id); if (!r.expect(e.elementType() == t && e.nbNodeIds() == nbOf(t), "type")) return; auto ns = nodesOf(e); if (!r.expect(std::set<int>(ns.begin(), ns.end()).size() == ns.size(), "repeated-node")) return; double q = measureOf(m, id); if (!r.expect(q * sg > 0, "orientation", "element %d measure %.12g", id, q)) return; tot += q; }
    r.expect(std::fabs(tot - whole) <= 1e-9 * scale, "measure", "%.12g want %.12g", tot, whole); }
static Hash sig(const Mesh& m) { Hash h; h.add(m.nbNodes()).add(m.nbElements()); for (int i = 0; i < m.nbNodes(); ++i) { auto& p = m.node(m.nodeId(i)); h.add(m.nodeId(i)).addd(p.x()).addd(p.y()).addd(p.z()); } for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); h.add(m.elementId(i)).add(e.elementType()); for (int n : nodesOf(e)) h.add(n); } return h; }
static void genLine(BM& b, const Shape& s, int n) { CGeoLine<R> l(s.o, at(s, 1, 0, 0)); b.generate(l, n); }
static void genQuad(BM& b, const Shape& s, int nu, int nv, bool d) { CGeoQuadrilateral<R> q; q.addVertex(s.o); q.addVertex(at(s, 1, 0, 0)); q.addVertex(at(s, 1, 1, 0)); q.addVertex(at(s, 0, 1, 0)); b.generate(q, nu, nv, d); }
static void genHex(BM& b, const Shape& s, int nu, int nv, int nw, bool d) { CGeoHexahedron<R> h; for (int k = 0; k < 2; ++k) { h.addVertex(at(s, 0, 0, k)); h.addVertex(at(s, 1, 0, k)); h.addVertex(at(s, 1, 1, k)); h.addVertex(at(s, 0, 1, k)); } b.generate(h, nu, nv, nw, d); }
SECTION("line-quad", "8 shapes x divisions 1..5 (thorough 1..9) in each direction x with and without splitting into triangles, on fresh meshers") {
    int N = r.thorough ? 9 : 5; int si = 0; for (auto& s : shapes()) { ++si; for (int nu = 1; nu <= N; ++nu) for (int nv = 0; nv <= N; ++nv) for (int d = 0; d < 2; ++d) {
        if (nv == 0 && d) continue; if (!r.next([&] { return strf("%s %dx%d split %d", s.name, nu, nv, d); })) continue;
        BM b; double L = lenOf(s.u) + lenOf(s.v), big = L + lenOf(s.o), tol = 1e-9 * big; r.op(); std::vector<P3> want;
        if (nv == 0) { genLine(b, s, nu); auto& m = b.mesh(); common(r, m, ET_BEAM, nu, lenOf(s.u), big); conform(r, m, 1, 2, 0.1); for (int i = 0; i <= nu; ++i) want.push_back(at(s, double(i) / nu, 0, 0)); nodesAre(r, m, want, tol); r.expect(near(m.dx(), lenOf(s.u) / nu), "spacing"); for (int i = 0; i < m.nbElements(); ++i) { auto v = ptsOf(m, m.element(m.elementId(i))); r.expect(near(norm(toL(v[1]) - toL(v[0])), lenOf(s.u) / nu, 1e-9) && dot(toL(v[1]) - toL(v[0]), toL(s.u)) > 0, "orientation"); } }
        else { genQuad(b, s, nu, nv, d); auto& m = b.mesh(); double A = norm(cross(toL(s.u), toL(s.v))); common(r, m, d ? ET_TRIANGLE : ET_QUADRILATERAL, nu * nv * (1 + d), A, big * big); conform(r, m, 2, 2 * L, 1e-8 * big); for (int j = 0; j <= nv; ++j) for (int i = 0; i <= nu; ++i) want.push_back(at(s, double(i) / nu, double(j) / nv, 0)); nodesAre(r, m, want, tol); r.expect(near(m.dx(), lenOf(s.u) / nu) && near(m.dy(), lenOf(s.v) / nv), "spacing");
            // same side of the plane as the given quadrilateral, and every element of the same size
            for (int i = 0; i < m.nbElements(); ++i) { auto v = ptsOf(m, m.element(m.elementId(i))); auto a = cross(toL(v[1]) - toL(v[0]), toL(v[2]) - toL(v[0])); r.expect(dot(a, cross(toL(s.u), toL(s.v))) > 0, "normal"); r.expect(std::fabs(measureOf(m, m.elementId(i)) - A / (nu * nv * (1 + d))) <= 1e-9 * big * big, "size"); } }
        r.state(Hash().add(si).add(nu).add(nv).add(d)); r.outcome(sig(b.mesh())); r.trace(); } }
}
SECTION("hex", "8 shapes x divisions 1..4 (thorough 1..6) in each direction x with and without splitting into tetrahedra, on fresh meshers") {
    int N = r.thorough ? 6 : 4; int si = 0; for (auto& s : shapes()) { ++si; for (int nu = 1; nu <= N; ++nu) for (int nv = 1; nv <= N; ++nv) for (int nw = 1; nw <= N; ++nw) for (int d = 0; d < 2; ++d) {
        if (!r.next([&] { return strf("%s %dx%dx%d split %d", s.name, nu, nv, nw, d); })) continue;
        BM b; genHex(b, s, nu, nv, nw, d); r.op(); auto& m = b.mesh(); double big = lenOf(s.o) + lenOf(s.u) + lenOf(s.v) + lenOf(s.w); double V = -(double)dot(toL(s.u), cross(toL(s.v), toL(s.w)));
        common(r, m, d ? ET_TETRAHEDRON : ET_HEXAHEDRON, nu * nv * nw * (d ? 6 : 1), V, big * big * big); double B = 2 * (norm(cross(toL(s.u), toL(s.v))) + norm(cross(toL(s.v), toL(s.w))) + norm(cross(toL(s.u), toL(s.w)))); conform(r, m, 3, B, 1e-8 * big * big);
        std::vector<P3> want; for (int k = 0; k <= nw; ++k) for (int j = 0; j <= nv; ++j) for (int i = 0; i <= nu; ++i) want.push_back(at(s, double(i) / nu, double(j) / nv, double(k) / nw)); nodesAre(r, m, want, 1e-9 * big); r.expect(near(m.dx(), lenOf(s.u) / nu) && near(m.dy(), lenOf(s.v) / nv) && near(m.dz(), lenOf(s.w) / nw), "spacing");
        for (int i = 0; i < m.nbElements(); ++i) r.expect(std::fabs(measureOf(m, m.elementId(i)) - V / (nu * nv * nw * (d ? 6 : 1))) <= 1e-9 * big * big * big, "size");
        r.state(Hash().add(si).add(nu).add(nv).add(nw).add(d)); r.outcome(sig(m)); r.trace(); } }
}
SECTION("box", "every box whose sides are 1..5 times the mesh size (mesh sizes 1, 0.5, 0.1, 0.2, 1/3, 0.7, 0.01), at 3 places, with and without splitting: cubes of that size fill the box") {
    double hs[] = {1, 0.5, 0.1, 0.2, 1.0 / 3, 0.7, 0.01}; P3 os[] = {P3(0, 0, 0), P3(-0.3, 0.1, 2), P3(7, -11, 0.4)};
    for (double h : hs) for (int o = 0; o < 3; ++o) for (int a = 1; a <= 5; ++a) for (int b = 1; b <= 5; ++b) for (int c = 1; c <= 5; c += r.thorough ? 1 : 2) for (int d = 0; d < 2; ++d) {
        if (!r.next([&] { return strf("size %.3g place %d %dx%dx%d split %d", h, o, a, b, c, d); })) continue;
        CGeoBoundingBox<R> box(os[o].x(), os[o].y(), os[o].z(), os[o].x() + a * h, os[o].y() + b * h, os[o].z() + c * h); BM bm; bm.generate(box, h, d); r.op(); auto& m = bm.mesh(); int n = a * b * c * (d ? 6 : 1);
        double V = a * b * c * h * h * h, tot = 0, ab = 0; if (!r.expect(m.nbElements() == n, "count", "%d want %d", m.nbElements(), n)) continue; r.expect(m.nbNodes() == (a + 1) * (b + 1) * (c + 1), "nodes"); for (int i = 0; i < n; ++i) { auto& e = m.element(m.elementId(i)); r.expect((EElementType)e.elementType() == (d ? ET_TETRAHEDRON : ET_HEXAHEDRON), "type"); double q = measureOf(m, m.elementId(i)); tot += q; ab += std::fabs(q); }
        r.expect(std::fabs(ab - V) < 1e-9 * (1 + V), "measure", "%.12g want %.12g", ab, V); r.expect(std::fabs(std::fabs(tot) - V) < 1e-9 * (1 + V), "orientation-mixed"); double B = 2 * h * h * (a * b + b * c + a * c); conform(r, m, 3, B, 1e-9 * (1 + B)); std::vector<P3> want; for (int k = 0; k <= c; ++k) for (int j = 0; j <= b; ++j) for (int i = 0; i <= a; ++i) want.push_back(P3(os[o].x() + i * h, os[o].y() + j * h, os[o].z() + k * h)); nodesAre(r, m, want, 1e-9);
        for (double ex : {0.3, 0.6, 0.9}) { BM b2; b2.generate(CGeoBoundingBox<R>(os[o].x(), os[o].y(), os[o].z(), os[o].x() + (a + ex) * h, os[o].y() + (b + ex * ex) * h, os[o].z() + (c + 1 - ex) * h), h, d); r.op(); r.expect((u64)sig(b2.mesh()) == (u64)sig(m), "partial-cells", "extra %.1f", ex); }
        r.state(Hash().addd(h).add(o).add(a).add(b).add(c).add(d)); r.outcome(Hash().add(n)); r.trace(); }
}
SECTION("reuse", "every sequence of 1..3 generations (line, quadrilateral, hexahedron, box; split or not; different divisions) on one mesher, with or without faces generated in between: the last mesh equals that of a fresh mesher") {
    auto sh = shapes(); auto run = [&](BM& b, int k) { switch (k) { case 0: genLine(b, sh[3], 3); break; case 1: genQuad(b, sh[4], 2, 3, false); break; case 2: genQuad(b, sh[5], 1, 2, true); break; case 3: genHex(b, sh[1], 2, 1, 2, false); break; case 4: genHex(b, sh[2], 1, 2, 1, true); break; case 5: { CGeoBoundingBox<R> x(0, 0, 0, 1, 0.5, 1); b.generate(x, 0.5, false); break; } case 6: { CGeoBoundingBox<R> x(0, 0, 0, 1, 0.5, 1); b.generate(x, 0.5, true); break; } } };
    for (int n = 1; n <= 3; ++n) sequences(n, 7, [&](const std::vector<int>& q) { for (int f = 0; f < 2; ++f) {
        if (!r.next([&] { return "generations " + show(q) + strf(" faces %d", f); })) continue;
        BM b; for (int k : q) { run(b, k); r.op(); if (f) b.mesh().generateFaces(1e-9); } BM w; run(w, q.back()); if (f) w.mesh().generateFaces(1e-9); auto& m = b.mesh(); auto& o = w.mesh(); r.expect((u64)sig(m) == (u64)sig(o), "reused"); r.expect(m.nbFaces() == o.nbFaces() && m.nbBoundaryFaces() == o.nbBoundaryFaces(), "reused-faces"); r.expect(m.nextNodeId() == o.nextNodeId() && m.nextElementId() == o.nextElementId(), "next-identifiers"); r.expect(m.dx() == o.dx() && m.dy() == o.dy() && m.dz() == o.dz(), "spacings", "%g %g %g want %g %g %g", m.dx(), m.dy(), m.dz(), o.dx(), o.dy(), o.dz());
        Hash h; for (int k : q) h.add(k); r.state(h.add(f)); r.outcome(sig(m)); r.trace(); } });
}
