// Advancing-front meshing of closed surfaces by tetrahedra: exhaustive sets of lattice bodies, surface diagonals, sizes, numberings,
// interior points and histories; every result must fill the body exactly. Flipping and relaxing must keep it filled.
#include "space.hpp"
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
typedef CMshTetrahedronMesher<R> HM;
static std::string meshKey(const Mesh& m) { std::string s; for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); for (int k = 0; k < e.nbNodeIds(); ++k) { auto& n = m.node(e.nodeId(k)); s += strf("%.9g,%.9g,%.9g ", n.x() + 0.0, n.y() + 0.0, n.z() + 0.0); } } return s; }
static bool facesOk(const Mesh& m, std::string& why) {
    std::map<TriKey, int> cnt; auto key = [&](const CMshFace<R>& f) { TriKey k = {keyOf3(m.node(f.nodeId(0))), keyOf3(m.node(f.nodeId(1))), keyOf3(m.node(f.nodeId(2)))}; std::sort(k.begin(), k.end()); return k; };
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); if (e.nbFaceIds() != 4) { why = "number of faces"; return false; } for (int k = 0; k < 4; ++k) ++cnt[key(m.face(e.faceId(k)))]; }
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); for (int k = 0; k < 4; ++k) { auto& f = m.face(e.faceId(k)); if (f.elementId() != id) { why = "face of another element"; return false; } int n = cnt[key(f)]; if (n > 2) { why = "face of three elements"; return false; } if (f.hasPair() != (n == 2)) { why = "missing or superfluous neighbour"; return false; }
        if (f.hasPair()) { auto& g = m.face(f.pairFaceId()); if (g.elementId() == id || key(g) != key(f)) { why = "neighbour across another face"; return false; } } } }
    return true;
}
static int gen(HM& m, const Mesh& e, std::vector<P3> in, double h, double lo, double hi, double tol, int max = 9999) {
    try { return m.generate(e, max, in, h, lo, hi, tol) ? 1 : 0; } catch (std::exception&) { return -1; } catch (...) { return 0; }
}
static bool hasNode(const Mesh& m, const P3& p) { for (int i = 0; i < m.nbNodes(); ++i) if (keyOf3(m.node(m.nodeId(i))) == keyOf3(p)) return true; return false; }
static double qual(const Mesh& m, int a, int b, int c, int d, double* v = nullptr) { CMshTetrahedron<R> t; t.addVertex(m.node(a)); t.addVertex(m.node(b)); t.addVertex(m.node(c)); t.addVertex(m.node(d)); t.calculateQuality(); if (v) *v = -(double)tetVol(m.node(a), m.node(b), m.node(c), m.node(d)); return t.quality(); }
static double minQual(const Mesh& m) { double q = 1; for (int i = 0; i < m.nbElements(); ++i) { auto& e = m.element(m.elementId(i)); q = std::min(q, qual(m, e.nodeId(0), e.nodeId(1), e.nodeId(2), e.nodeId(3))); } return q; }
// a flip that would raise the least quality of the elements involved, found by enumeration: 2 -> 3 or 3 -> 2
static bool better(const Mesh& m, int op, double lim) {
    std::map<std::array<int, 3>, std::vector<int>> fc; std::map<std::pair<int, int>, std::vector<int>> ed; std::map<int, bool> bnd;
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto& e = m.element(id); for (int a = 0; a < 4; ++a) { std::array<int, 3> k; int n = 0; for (int b = 0; b < 4; ++b) if (b != a) k[n++] = e.nodeId(b); std::sort(k.begin(), k.end()); fc[k].push_back(id); for (int b = a + 1; b < 4; ++b) { int x = e.nodeId(a), y = e.nodeId(b); ed[{std::min(x, y), std::max(x, y)}].push_back(id); } } }
    for (auto& f : fc) if (f.second.size() == 1) for (int k : f.first) bnd[k] = true;
    auto Q = [&](int id) { auto& e = m.element(id); return qual(m, e.nodeId(0), e.nodeId(1), e.nodeId(2), e.nodeId(3)); };
    auto repl = [&](int id, int from, int to, double& v) { int n[4]; for (int k = 0; k < 4; ++k) { n[k] = m.element(id).nodeId(k); if (n[k] == from) n[k] = to; } return qual(m, n[0], n[1], n[2], n[3], &v); };
    auto other = [&](int id, const std::vector<int>& without) { for (int k = 0; k < 4; ++k) { int n = m.element(id).nodeId(k); if (std::find(without.begin(), without.end(), n) == without.end()) return n; } return -1; };
    if (op == 0) for (auto& f : fc) if (f.second.size() == 2) { int a = f.second[0], b = f.second[1]; std::vector<int> t(f.first.begin(), f.first.end()); int q = other(b, t); double q0 = std::min(Q(a), Q(b)), q1 = 1; bool ok = true; for (int n : t) { double v; q1 = std::min(q1, repl(a, n, q, v)); ok = ok && v > lim * 1.01; } if (ok && q1 > q0 + 1e-9) return true; }
    if (op == 1) for (auto& g : ed) if (g.second.size() == 3) { int A = g.first.first, B = g.first.second; if (bnd[A] && bnd[B]) continue; auto& e0 = m.element(g.second[0]); std::vector<int> four; for (int k = 0; k < 4; ++k) four.push_back(e0.nodeId(k)); int five = -1; for (int l = 1; l < 3; ++l) { int o = other(g.second[l], four); if (o >= 0) five = o; } if (five < 0) continue; double v1, v2, q1 = repl(g.second[0], A, five, v1), q2 = repl(g.second[0], B, five, v2); double q0 = std::min(Q(g.second[0]), std::min(Q(g.second[1]), Q(g.second[2]))); if (v1 > lim * 1.01 && v2 > lim * 1.01 && std::min(q1, q2) > q0 + 1e-9) return true; }
    return false;
}
struct Opt { double lo, hi, tol; };
static const Opt OPT[5] = {{0.1, 10, 1e-3}, {0.5, 2, 1e-4}, {0, 1e300, 1e-3}, {0.1, 10, 1e-2}, {0.1, 10, 1e-6}};
static void body(Run& r, const Surf& f, double h, const Opt& o, int scheme, const std::vector<P3>& in, bool must, double sc = 1, double ox = 0) {
    Surf g = f; for (auto& p : g.p) p = P3(p.x() * sc + ox, p.y() * sc - ox / 2, p.z() * sc + ox / 4); std::vector<P3> pts; for (auto& p : in) pts.push_back(P3(p.x() * sc + ox, p.y() * sc - ox / 2, p.z() * sc + ox / 4));
    Mesh e = surfMesh(g, scheme); e.generateFaces(1e-4 * sc); HM m; int ok = gen(m, e, pts, h * sc, o.lo * h * sc, o.hi * h * sc, o.tol * sc); r.op(); r.outcome(Hash().add(ok)); if (must) r.expect(ok == 1, "fails", "meshing of a plain body fails"); if (ok != 1) { r.trace(); return; }
    std::string why; Tris want = trisOf(e); bool good = fills(m.mesh(), want, surfVol(g), why, 1e-12 * sc * sc * sc); r.expect(good, "filling", "%s", why.c_str()); good = facesOk(m.mesh(), why); r.expect(good, "faces", "%s", why.c_str());
    for (auto& p : pts) r.expect(hasNode(m.mesh(), p), "interior", "the interior point (%g, %g, %g) is not a node", p.x(), p.y(), p.z());
    std::set<int> used; for (int i = 0; i < m.mesh().nbElements(); ++i) { auto& t = m.mesh().element(m.mesh().elementId(i)); for (int k = 0; k < 4; ++k) used.insert(t.nodeId(k)); } r.expect((int)used.size() == m.mesh().nbNodes(), "nodes", "%d nodes, %zu used", m.mesh().nbNodes(), used.size());
    r.outcome(Hash().adds(meshKey(m.mesh()))); r.trace();
}
static std::vector<std::vector<V3i>> polycubes(int n) { // all face-connected sets of n cells, up to translation
    std::set<std::vector<std::array<int, 3>>> cur = {{{{0, 0, 0}}}}; for (int k = 1; k < n; ++k) { std::set<std::vector<std::array<int, 3>>> nx; for (auto& s : cur) for (auto& c : s) for (int d = 0; d < 6; ++d) { auto a = c; a[d / 2] += d % 2 ? 1 : -1; if (std::find(s.begin(), s.end(), a) != s.end()) continue; auto t = s; t.push_back(a); std::array<int, 3> lo = t[0]; for (auto& q : t) for (int i = 0; i < 3; ++i) lo[i] = std::min(lo[i], q[i]); for (auto& q : t) for (int i = 0; i < 3; ++i) q[i] -= lo[i]; std::sort(t.begin(), t.end()); nx.insert(t); } cur = nx; }
    std::vector<std::vector<V3i>> out; for (auto& s : cur) { std::vector<V3i> v; for (auto& q : s) v.push_back({q[0], q[1], q[2]}); out.push_back(v); } return out;
}
static std::vector<Surf> latticeTets(int a, int b, int c) { std::vector<Surf> out; std::vector<V3i> p; for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) for (int z = 0; z < c; ++z) p.push_back({x, y, z}); int N = p.size();
    for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) for (int k = j + 1; k < N; ++k) for (int l = k + 1; l < N; ++l) { Surf f; f.p = {C(p[i]), C(p[j]), C(p[k]), C(p[l])}; LD v = tetVol(f.p[0], f.p[1], f.p[2], f.p[3]); if (std::fabs((double)v) < 1e-9) continue; if (v < 0) std::swap(f.p[1], f.p[2]); f.t = {{{0, 2, 1}}, {{0, 1, 3}}, {{1, 2, 3}}, {{0, 3, 2}}}; f.name = strf("tetrahedron %d %d %d %d", i, j, k, l); out.push_back(f); } return out; }
// bipyramids and other convex bodies: double cones over lattice polygons
static std::vector<Surf> cones() { std::vector<Surf> out; std::vector<std::vector<P3>> base = {{P3(0, 0, 0), P3(2, 0, 0), P3(0, 2, 0)}, {P3(0, 0, 0), P3(1, 0, 0), P3(1, 1, 0), P3(0, 1, 0)}, {P3(0, 0, 0), P3(2, 0, 0), P3(1, 1, 0), P3(0, 1, 0)}, {P3(1, 0, 0), P3(2, 1, 0), P3(1, 2, 0), P3(0, 1, 0)}, {P3(1, 0, 0), P3(2, 0, 0), P3(2, 1, 0), P3(1, 2, 0), P3(0, 2, 0), P3(0, 1, 0)}};
    for (size_t b = 0; b < base.size(); ++b) for (int t = 1; t <= 4; ++t) for (int u = 1; u <= 4; ++u) { auto& B = base[b]; int n = B.size(); P3 c(0, 0, 0); for (auto& p : B) c = P3(c.x() + p.x() / n, c.y() + p.y() / n, 0); Surf f; f.p = B; f.p.push_back(P3(c.x(), c.y(), t * 0.5)); f.p.push_back(P3(c.x(), c.y(), -u * 0.5)); for (int k = 0; k < n; ++k) { f.t.push_back({k, (k + 1) % n, n}); f.t.push_back({(k + 1) % n, k, n + 1}); } f.name = strf("bipyramid %zu heights %g %g", b, t * .5, u * .5); out.push_back(f); } return out; }
static P3 quarter(int a) { return P3(a % 3 * .25 + .25, a / 3 % 3 * .25 + .25, a / 9 * .25 + .25); }

SECTION("simple bodies", "every tetrahedron on a 2 x 2 x 3 lattice and 80 bipyramids x 5 sizes x 4 numberings: must succeed and fill the body") {
    const double S[5] = {0.6, 0.8, 1, 1.5, 3}; auto L = latticeTets(2, 2, 3); auto B = cones(); size_t nt = L.size(); L.insert(L.end(), B.begin(), B.end()); for (size_t i = 0; i < L.size(); ++i) for (double h : S) for (int sc = 0; sc < (i < nt || r.thorough ? 4 : 2); ++sc) { auto& f = L[i]; if (!r.next([&] { return strf("%s size %g numbering %d", f.name.c_str(), h, sc); })) continue; body(r, f, h, OPT[0], sc, {}, true); } }
SECTION("diagonals", "one cube with all 64 choices of surface diagonals x 8 sizes x 4 numberings x 5 other limits and tolerances; two cubes with all 1024 x 3 sizes; three with every 7th (thorough: each) of the 16384") {
    const double S[8] = {0.4, 0.5, 0.6, 0.8, 1, 1.5, 2, 3}; for (int d = 0; d < 64; ++d) for (double h : S) for (int sc = 0; sc < 4; ++sc) for (int o = 0; o < (sc ? 1 : 5); ++o) { if (!r.next([&] { return strf("cube diagonals %x size %g numbering %d options %d", d, h, sc, o); })) continue; body(r, polycube({{0, 0, 0}}, d), h, OPT[o], sc, {}, h > 0.45 && o != 3); }
    for (int d = 0; d < 1024; ++d) for (double h : {0.7, 1., 1.6}) { if (!r.next([&] { return strf("two cubes diagonals %x size %g", d, h); })) continue; body(r, polycube({{0, 0, 0}, {1, 0, 0}}, d), h, OPT[0], d & 3, {}, true); }
    for (int d = 0; d < 16384; d += r.thorough ? 1 : 7) { if (!r.next([&] { return strf("three cubes diagonals %x", d); })) continue; body(r, polycube({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, d), 1, OPT[0], d & 3, {}, true); } }
SECTION("polycubes", "every face-connected set of up to 4 (thorough 5) cells with a manifold surface x 4 patterns of diagonals x 3 sizes x numberings; rings, hollow cubes; scaled and moved") {
    for (int n = 1; n <= (r.thorough ? 5 : 4); ++n) for (auto& c : polycubes(n)) for (int pt = 0; pt < 4; ++pt) for (double h : {0.8, 1., 1.5}) { unsigned long long d = pt == 0 ? 0 : pt == 1 ? ~0ull : pt == 2 ? 0x5555555555555555ull : 0x9e3779b97f4a7c15ull; if (!r.next([&] { return strf("%s size %g", polycube(c, d).name.c_str(), h); })) continue; Surf s = polycube(c, d); if (s.t.empty()) continue; body(r, s, h, OPT[0], pt, {}, true); }
    std::vector<V3i> ring, hollow, cube; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) { if (x != 1 || y != 1) ring.push_back({x, y, 0}); for (int z = 0; z < 3; ++z) if (x != 1 || y != 1 || z != 1) hollow.push_back({x, y, z}); } for (int i = 0; i < 8; ++i) cube.push_back({i & 1, i >> 1 & 1, i >> 2});
    for (int w = 0; w < 3; ++w) for (int k = 0; k < (r.thorough ? 64 : 8); ++k) for (double h : {1., 1.5}) { if (!r.next([&] { return strf("%s %d size %g", w == 0 ? "ring" : w == 1 ? "hollow cube" : "2 x 2 x 2", k, h); })) continue; body(r, polycube(w == 0 ? ring : w == 1 ? hollow : cube, k * 0x9e3779b97f4a7c15ull), h, OPT[0], k & 3, {}, true); }
    for (int n = 1; n <= 3; ++n) for (auto& c : polycubes(n)) for (double sc : {0.125, 1., 40.}) for (double ox : {0., 3., -100.}) { if (!r.next([&] { return strf("%s scaled %g moved %g", polycube(c, 0x35).name.c_str(), sc, ox * sc); })) continue; body(r, polycube(c, 0x35), 1, OPT[0], 0, {}, true, sc, ox * sc); } }
SECTION("interior points", "a cube with all 64 (thorough; quick every 3rd) choices of diagonals x each of 27 interior points x 3 sizes: must succeed; x every 5th (thorough: every) pair of them: the points are nodes whenever it succeeds; two cubes with three points") {
    for (int d = 0; d < 64; d += r.thorough ? 1 : 3) for (int a = 0; a < 27; ++a) for (double h : {0.8, 1., 1.5}) { if (!r.next([&] { return strf("cube diagonals %x point %d size %g", d, a, h); })) continue; body(r, polycube({{0, 0, 0}}, d), h, OPT[0], a & 3, {quarter(a)}, true); }
    for (int d = 0; d < 64; d += r.thorough ? 1 : 5) for (int a = 0; a < 27; ++a) for (int b = r.thorough ? 0 : a % 5; b < a; b += r.thorough ? 1 : 5) for (double h : {0.8, 1., 1.5}) { if (!r.next([&] { return strf("cube diagonals %x points %d %d size %g", d, a, b, h); })) continue; body(r, polycube({{0, 0, 0}}, d), h, OPT[0], 0, {quarter(a), quarter(b)}, false); }
    for (int d = 0; d < 1024; d += r.thorough ? 3 : 31) for (int a = 0; a < 27; ++a) { if (!r.next([&] { return strf("two cubes diagonals %x points with %d", d, a); })) continue; P3 q = quarter(a); body(r, polycube({{0, 0, 0}, {1, 0, 0}}, d), 1, OPT[0], 0, {q, P3(q.x() + 1, q.y(), q.z()), P3(1, .5, .5)}, false); } }
SECTION("histories", "every sequence of up to 3 of: mesh one of 3 bodies with or without an interior point, exceed the number of elements, be stopped; on the same mesher object, compared with a fresh one") {
    struct Job { Surf f; double h; std::vector<P3> in; int kind; }; std::vector<Job> J; Surf A = polycube({{0, 0, 0}}, 0), B = polycube({{0, 0, 0}, {1, 0, 0}}, 55), D = polycube({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, 77); J.push_back({A, 1, {}, 0}); J.push_back({A, 0.6, {P3(.3, .4, .5)}, 0}); J.push_back({B, 1, {P3(.5, .5, .5), P3(1.5, .5, .5)}, 0}); J.push_back({D, 0.7, {}, 0}); J.push_back({B, 0.6, {P3(.5, .5, .5), P3(1.5, .4, .5)}, 1}); J.push_back({B, 0.4, {P3(.5, .5, .5), P3(1.5, .6, .5)}, 2}); J.push_back({A, 1, {P3(.5, .5, .5)}, 1});
    auto run = [&](HM& m, const Job& j, std::string& out) { Mesh e = surfMesh(j.f, 0); e.generateFaces(1e-4); int calls = 0; m.setIntervals(j.kind == 2 ? -1 : 1000000, j.kind == 2 ? 0 : 100); m.onUpdate = nullptr; if (j.kind == 2) m.onUpdate = [&m, &calls](bool) { if (++calls == 9) m.stopMeshing(); return false; }; int ok = gen(m, e, j.in, j.h, 0.1 * j.h, 10 * j.h, 1e-3, j.kind == 1 ? 2 : 3000); m.onUpdate = nullptr; out = ok == 1 ? meshKey(m.mesh()) : "fails"; std::string why; if (ok == 1) { bool g = fills(m.mesh(), trisOf(e), surfVol(j.f), why); r.expect(g, "filling", "%s", why.c_str()); } else r.expect(j.kind != 0, "fails", "meshing fails"); };
    int n = J.size(); for (int len = 1; len <= 3; ++len) { int tot = 1; for (int k = 0; k < len; ++k) tot *= n; for (int s = 0; s < tot; ++s) { if (!r.next([&] { std::string q = "jobs"; for (int k = 0, x = s; k < len; ++k, x /= n) q += strf(" %d", x % n); return q; })) continue; HM m; for (int k = 0, x = s; k < len; ++k, x /= n) { std::string got, want; run(m, J[x % n], got); HM f; run(f, J[x % n], want); r.op(); r.outcome(Hash().adds(got)); r.expect(got == want, "history", "job %d gives another mesh than with a fresh mesher", k); if (r.failedNow()) break; } r.trace(); } } }
SECTION("limits", "three bodies x every limit of 1 to 40 elements x every stop after 1 to 12 notifications: a result, if any, fills the body") {
    for (int b = 0; b < 3; ++b) for (int mx = 0; mx <= 40; ++mx) for (int st = 0; st <= 12; ++st) { if (mx && st) continue; if (!r.next([&] { return strf("body %d at most %d elements, stopped at notification %d", b, mx, st); })) continue; Surf f = b == 0 ? polycube({{0, 0, 0}}, 21) : b == 1 ? polycube({{0, 0, 0}, {1, 0, 0}}, 55) : polycube({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, 77); Mesh e = surfMesh(f, 0); e.generateFaces(1e-4); HM m; int calls = 0; m.setIntervals(st ? -1 : 1000000, 0); if (st) m.onUpdate = [&](bool) { if (++calls == st) m.stopMeshing(); return false; };
        int ok = gen(m, e, {}, 0.6, 0.06, 6, 1e-3, mx); std::string why; if (ok == 1) { bool g = fills(m.mesh(), trisOf(e), surfVol(f), why); r.expect(g, "filling", "%s", why.c_str()); } if (!mx && !st) r.expect(ok == 1, "fails", "fails without limits"); if (ok == 1 && mx) r.expect(m.mesh().nbElements() <= mx, "limit", "%d elements, limit %d", m.mesh().nbElements(), mx); if (st && calls < st) r.expect(ok == 1, "fails", "fails without a stop"); r.op(); r.outcome(Hash().add(ok).add(m.mesh().nbElements())); r.trace(); } }
// flips and relaxing
static void improve(Run& r, Mesh x, const Tris& want, double vol, int seq, int len, double tol) {
    std::string why; double lim = tol * tol * tol; for (int k = 0; k < len; ++k, seq /= 3) { int op = seq % 3, n0 = x.nbElements(), nn = x.nbNodes(); double q0 = minQual(x); Mesh y = x; HM m; if (op == 0) m.flipEdges23(x, tol); else if (op == 1) m.flipEdges32(x, tol); else m.relaxNodes(x, 0.5, tol); r.op(); bool g = fills(x, want, vol, why); r.expect(g, "filling", "operation %d (%s): %s", k, op == 0 ? "flip 2-3" : op == 1 ? "flip 3-2" : "relax", why.c_str()); r.expect(minQual(x) >= q0 - 1e-9, "quality", "operation %d lowers the least quality from %g to %g", k, q0, minQual(x)); r.expect(op == 0 ? x.nbElements() >= n0 : op == 1 ? x.nbElements() <= n0 : x.nbElements() == n0, "count", "%d elements become %d", n0, x.nbElements()); r.expect(x.nbNodes() == nn, "nodes", "nodes change"); if (op < 2) { g = facesOk(x, why); r.expect(g, "faces", "%s", why.c_str()); bool can = better(y, op, lim); r.expect(can == (x.nbElements() != n0), "flipped", can ? "a flip that improves the mesh is not made" : "a flip is made that does not improve the mesh"); }
        if (op == 2) { std::map<TriKey, int> c; Tris T = want; std::set<Key3> bd; for (auto& t : T) for (auto& p : t.first) bd.insert(p); for (int i = 0; i < y.nbNodes(); ++i) { int id = y.nodeId(i); auto p = y.node(id), q = x.node(id); double d = (q - p).norm(); if (bd.count(keyOf3(p))) { r.expect(d == 0, "boundary", "relaxing moves the boundary node %d", id); continue; }
            // translation: the same mesh elsewhere is relaxed in the same way
            } Mesh z = y; for (int i = 0; i < z.nbNodes(); ++i) { auto& p = z.node(z.nodeId(i)); p = CMshNode<R>(p.x() + 8, p.y() - 4, p.z() + 2); } m.relaxNodes(z, 0.5, tol); for (int i = 0; i < z.nbNodes(); ++i) { auto &p = z.node(z.nodeId(i)), &q = x.node(z.nodeId(i)); r.expect(std::fabs(p.x() - 8 - q.x()) + std::fabs(p.y() + 4 - q.y()) + std::fabs(p.z() - 2 - q.z()) < 1e-7, "translation", "node %d is relaxed to (%g, %g, %g) in one position and elsewhere to (%g, %g, %g)", z.nodeId(i), q.x(), q.y(), q.z(), p.x() - 8, p.y() + 4, p.z() - 2); if (r.failedNow()) break; } }
        r.state(Hash().adds(meshKey(x))); if (r.failedNow()) break; }
    r.outcome(Hash().adds(meshKey(x))); r.trace();
}
SECTION("improvement", "tetrahedral meshes of one or two cubes (sizes 0.5 to 1.5, up to two interior points) x every sequence of up to 4 of: flip 2-3, flip 3-2, relax") {
    std::tuple<double, int, int> key(0, 0, 0); bool made = false; Mesh base; Tris want; double vol = 0;
    for (double h : {0.5, 0.8, 1.5}) for (int d = 0; d < 64; d += r.thorough ? 1 : 3) for (int v = 0; v < 4; ++v) for (int s = 0; s < 81; ++s) { if (!r.next([&] { return strf("size %g diagonals %x variant %d operations %d", h, d, v, s); })) continue; if (key != std::make_tuple(h, d, v)) { key = std::make_tuple(h, d, v); Surf f = v == 3 ? polycube({{0, 0, 0}, {1, 0, 0}}, d * 17) : polycube({{0, 0, 0}}, d); std::vector<P3> in; if (v == 1) in = {P3(.25, .5, .75)}; if (v == 2) in = {P3(.25, .5, .75), P3(.6, .3, .2)}; if (v == 3) in = {P3(.5, .5, .5), P3(1, .4, .6), P3(1.5, .2, .3)}; Mesh e = surfMesh(f, 0); e.generateFaces(1e-4); HM m; made = gen(m, e, in, h, 0.1 * h, 10 * h, 1e-3) == 1; if (made) { base = m.mesh(); want = trisOf(e); vol = surfVol(f); } } if (!made) { r.outcome(Hash().add(7)); r.trace(); continue; } improve(r, base, want, vol, s, 4, 1e-3); } }
SECTION("flips", "two lattice tetrahedra sharing a face (all on a 3 x 3 x 3 lattice with a fixed face, both numberings) flipped 2-3 then 3-2; a point inside a lattice octahedron or cube with all its cones, moved to all positions of a finer lattice, flipped and relaxed three times") {
    std::vector<V3i> p; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) p.push_back({x, y, z});
    const int F[3][3] = {{0, 9, 3}, {0, 10, 4}, {1, 11, 16}}; for (auto& f : F) for (int a = 0; a < 27; ++a) for (int b = 0; b < 27; ++b) for (int sc = 0; sc < 2; ++sc) { P3 A = C(p[f[0]]), B = C(p[f[1]]), D = C(p[f[2]]), P = C(p[a]), Q = C(p[b]); if (!(tetVol(A, B, D, P) < -1e-9 && tetVol(A, B, D, Q) > 1e-9)) continue; if (!r.next([&] { return strf("face %d %d %d points %d %d numbering %d", f[0], f[1], f[2], a, b, sc * 3); })) continue; MD md; md.p = {A, B, D, P, Q}; md.e.push_back({ET_TETRAHEDRON, {0, 1, 2, 3}}); md.e.push_back({ET_TETRAHEDRON, {2, 1, 0, 4}}); Mesh x = mkMeshN(md, sc * 3); x.generateFaces(1e-4); Tris want; addTri(want, A, B, P, -1); addTri(want, B, D, P, -1); addTri(want, D, A, P, -1); addTri(want, A, B, Q); addTri(want, B, D, Q); addTri(want, D, A, Q); improve(r, x, want, (double)(std::fabs((double)tetVol(A, B, D, P)) + std::fabs((double)tetVol(A, B, D, Q))), 0 + 3 * 1, 2, 1e-3); }
    for (int b = 0; b < 3; ++b) for (int q = 0; q < (r.thorough ? 343 : 125); ++q) for (int s = 0; s < 27; ++s) { int N = r.thorough ? 7 : 5; P3 c((q % N + 1) / (N + 1.0), (q / N % N + 1) / (N + 1.0), (q / N / N + 1) / (N + 1.0)); Surf f; if (b == 0) f = polycube({{0, 0, 0}}, 0x2d); else if (b == 1) { f.p = {P3(0, 0, 0), P3(2, 0, 0), P3(0, 2, 0), P3(0, 0, 2)}; f.t = {{{0, 2, 1}}, {{0, 1, 3}}, {{1, 2, 3}}, {{0, 3, 2}}}; } else { f.p = {P3(-.2, .5, .5), P3(1.2, .5, .5), P3(.5, -.2, .5), P3(.5, 1.2, .5), P3(.5, .5, -.2), P3(.5, .5, 1.2)}; for (int i = 0; i < 8; ++i) { int u = i & 1, v = 2 + (i >> 1 & 1), w = 4 + (i >> 2); bool odd = ((i & 1) + (i >> 1 & 1) + (i >> 2)) & 1; if (odd) f.t.push_back({u, v, w}); else f.t.push_back({v, u, w}); } }
        MD md; md.p = f.p; md.p.push_back(c); int n = f.p.size(); bool in = true; for (auto& t : f.t) { in = in && -tetVol(f.p[t[0]], f.p[t[1]], f.p[t[2]], c) > 1e-6; md.e.push_back({ET_TETRAHEDRON, {t[0], t[1], t[2], n}}); } if (!in) continue; if (!r.next([&] { return strf("cones of body %d to (%g, %g, %g) operations %d", b, c.x(), c.y(), c.z(), s); })) continue; Mesh x = mkMeshN(md, s & 3); x.generateFaces(1e-4); Tris want; for (auto& t : f.t) addTri(want, f.p[t[0]], f.p[t[1]], f.p[t[2]]); improve(r, x, want, surfVol(f), s, 3, 1e-3); } }
