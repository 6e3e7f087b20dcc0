// Boolean operations on closed solids.
// FLAGS: -ftrivial-auto-var-init=uninitialized
#include "geo.hpp"
#include "CsgBoolean.hpp"
#include "CsgCube.hpp"
#include "CsgSphere.hpp"
#include "CsgCylinder.hpp"
#include <functional>
using namespace ENigMA::csg;
typedef std::array<int, 3> I3;
typedef CCsgBoolean<R> Solid;
typedef CGeoPolygon<R> Poly;
typedef std::array<int, 6> Box; // lo x,y,z hi x,y,z

static std::vector<P3> ring(Poly& p) { std::vector<P3> v; int n = p.polyline().nbVertices(); for (int i = 0; i < n; ++i) v.push_back(p.polyline().vertex(i)); if (n > 1 && (v[0] - v[n - 1]).norm() < 1e-12) v.pop_back(); return v; }
static Eigen::Vector3d ev(const P3& p) { return Eigen::Vector3d(p.x(), p.y(), p.z()); }
static Eigen::Vector3d areaVec(const std::vector<P3>& v) { Eigen::Vector3d s(0, 0, 0); for (size_t i = 1; i + 1 < v.size(); ++i) s += (ev(v[i]) - ev(v[0])).cross(ev(v[i + 1]) - ev(v[0])) / 2; return s; }
static std::vector<std::vector<P3>> rings(Solid& s) { std::vector<std::vector<P3>> o; for (int i = 0; i < s.nbPolygons(); ++i) o.push_back(ring(s.polygons()[i])); return o; }
typedef std::vector<std::vector<P3>> Rings;
static double volume(const Rings& f) { double s = 0; for (auto& v : f) for (size_t i = 1; i + 1 < v.size(); ++i) s += ev(v[0]).dot(ev(v[i]).cross(ev(v[i + 1]))) / 6; return s; }
static double area(const Rings& f) { double s = 0; for (auto& v : f) s += areaVec(v).norm(); return s; }
static double winding(const Rings& f, const Eigen::Vector3d& p) {
    double s = 0;
    for (auto& v : f)
        for (size_t i = 1; i + 1 < v.size(); ++i) {
            Eigen::Vector3d a = ev(v[0]) - p, b = ev(v[i]) - p, c = ev(v[i + 1]) - p;
            double A = a.norm(), B = b.norm(), C = c.norm();
            s += 2 * std::atan2(a.dot(b.cross(c)), A * B * C + a.dot(b) * C + b.dot(c) * A + c.dot(a) * B);
        }
    return s / (4 * M_PI);
}
static Solid boxSolid(const Box& b, double s, double o) {
    P3 c(o + s * (b[0] + b[3]) / 2, o + s * (b[1] + b[4]) / 2, o + s * (b[2] + b[5]) / 2);
    CGeoVector<R> h; h.x() = s * (b[3] - b[0]) / 2; h.y() = s * (b[4] - b[1]) / 2; h.z() = s * (b[5] - b[2]) / 2;
    return CCsgCube<R>::create(c, h);
}
static bool inBox(const Box& b, int x, int y, int z) { return x >= b[0] && x < b[3] && y >= b[1] && y < b[4] && z >= b[2] && z < b[5]; }
typedef std::function<bool(int, int, int)> Cells;
static Cells comb(int op, Cells a, Cells b) { return [=](int x, int y, int z) { bool p = a(x, y, z), q = b(x, y, z); return op == 0 ? p || q : op == 1 ? p && !q : p && q; }; }
static Solid apply(int op, Solid& a, Solid& b) { return op == 0 ? a.add(b) : op == 1 ? a.subtract(b) : a.intersect(b); }
static const char* OP[3] = {"union", "difference", "intersection"};
// Exact oracle on the unit lattice 0..N: every unit face is covered outward once when it separates
// inside from outside, and not at all otherwise; nothing else is there (total area)
static void judgeCells(Run& r, const Rings& f, Cells in, int N, double s, double o) {
    double want = 0, vol = 0;
    std::vector<int> pos(3 * (N + 1) * N * N, 0), neg(pos);
    bool shape = true;
    for (auto& v : f) {
        Eigen::Vector3d n = areaVec(v);
        int d = -1; for (int k = 0; k < 3; ++k) if (std::fabs(n[k]) > 0.999 * n.norm()) d = k;
        if (v.size() < 3 || d < 0) { shape = shape && n.norm() < 1e-9 * s * s; continue; }
        int a = (d + 1) % 3, b = (d + 2) % 3;
        double q = (ev(v[0])[d] - o) / s; int k = (int)std::lround(q);
        if (std::fabs(q - k) > 1e-7 || k < 0 || k > N) { shape = false; continue; }
        double sg = n[d] > 0 ? 1 : -1;
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
            double x = i + 0.4, y = j + 0.53; bool inside = true;
            for (size_t m = 0; m < v.size() && inside; ++m) { Eigen::Vector3d u = ev(v[m]), w = ev(v[(m + 1) % v.size()]); double ux = (u[a] - o) / s, uy = (u[b] - o) / s, wx = (w[a] - o) / s, wy = (w[b] - o) / s; inside = sg * ((wx - ux) * (y - uy) - (wy - uy) * (x - ux)) >= 0; }
            if (inside) (sg > 0 ? pos : neg)[((d * (N + 1) + k) * N + i) * N + j]++;
        }
    }
    r.expect(shape, "stray polygon");
    int extra = 0, missing = 0;
    for (int d = 0; d < 3; ++d) for (int k = 0; k <= N; ++k) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        int c[3]; c[(d + 1) % 3] = i; c[(d + 2) % 3] = j;
        c[d] = k - 1; bool lo = k > 0 && in(c[0], c[1], c[2]); c[d] = k; bool hi = k < N && in(c[0], c[1], c[2]);
        int wp = lo && !hi, wn = hi && !lo; want += wp + wn; if (hi) vol += d == 0;
        int p = pos[((d * (N + 1) + k) * N + i) * N + j], m = neg[((d * (N + 1) + k) * N + i) * N + j];
        if (p > wp || m > wn) ++extra; if (p < wp || m < wn) ++missing;
    }
    r.expect(extra == 0, "extra surface", "%d unit faces", extra);
    r.expect(missing == 0, "missing surface", "%d unit faces", missing);
    r.expect(std::fabs(volume(f) - vol * s * s * s) < 1e-6 * s * s * s, "volume", "%g instead of %g", volume(f), vol * s * s * s);
    r.expect(std::fabs(area(f) - want * s * s) < 1e-6 * s * s, "area", "%g instead of %g", area(f), want * s * s);
}
static bool sameFaces(const Rings& a, const Rings& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) if (!(a[i][j].x() == b[i][j].x() && a[i][j].y() == b[i][j].y() && a[i][j].z() == b[i][j].z())) return false; } return true; }

// the intervals of 0..3 that stand in the 13 qualitatively different positions, and all of them
static std::vector<std::array<int, 4>> intervalPairs(bool all) {
    std::vector<std::array<int, 4>> o; std::set<std::array<int, 4>> seen;
    for (int a = 0; a < 3; ++a) for (int b = a + 1; b <= 3; ++b) for (int c = 0; c < 3; ++c) for (int d = c + 1; d <= 3; ++d) {
        auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
        std::array<int, 4> k = {{sg(a - c), sg(a - d), sg(b - c), sg(b - d)}};
        if (all || seen.insert(k).second) o.push_back({{a, b, c, d}});
    }
    return o;
}
SECTION("boxes", "every pair of boxes in the 13 x 13 x 13 relative positions per axis (thorough: every pair of boxes of the 0..3 lattice), 3 operations, exact and scaled coordinates: every unit face is covered outward exactly when it bounds the exact result; volume, area, operands unchanged") {
    auto I = intervalPairs(r.thorough);
    int n = I.size();
    for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z) for (int op = 0; op < 3; ++op) for (int sc = 0; sc < 3; ++sc) {
        if (!r.next([&] { return strf("x %d-%d/%d-%d y %d-%d/%d-%d z %d-%d/%d-%d %s scale %d", I[x][0], I[x][1], I[x][2], I[x][3], I[y][0], I[y][1], I[y][2], I[y][3], I[z][0], I[z][1], I[z][2], I[z][3], OP[op], sc); })) continue;
        r.state(Hash().add(x).add(y).add(z).add(op).add(sc));
        Box A = {{I[x][0], I[y][0], I[z][0], I[x][1], I[y][1], I[z][1]}}, B = {{I[x][2], I[y][2], I[z][2], I[x][3], I[y][3], I[z][3]}};
        double s = sc == 0 ? 1 : sc == 1 ? 0.1 : 37.0 / 3, o = sc == 0 ? 0 : sc == 1 ? -0.17 : 5.3;
        Solid a = boxSolid(A, s, o), b = boxSolid(B, s, o);
        if (sc) { a.setTolerance(1e-9); b.setTolerance(1e-9); }
        Rings fa = rings(a), fb = rings(b);
        Solid c = apply(op, a, b); r.op();
        r.expect(sameFaces(fa, rings(a)) && sameFaces(fb, rings(b)), "operand changed");
        Rings f = rings(c);
        judgeCells(r, f, comb(op, [&](int i, int j, int k) { return inBox(A, i, j, k); }, [&](int i, int j, int k) { return inBox(B, i, j, k); }), 3, s, o);
        r.outcome(Hash().add(f.size())); r.trace();
    }
}
SECTION("chains", "every two operations over 3 boxes out of a list of 9 (equal, nested, touching at faces, edges and corners, overlapping, crossing), grouped left and right, including empty and non-convex intermediate results: exact result") {
    static const Box L[9] = {{{0, 0, 0, 2, 2, 2}}, {{1, 1, 1, 3, 3, 3}}, {{2, 0, 0, 4, 2, 2}}, {{0, 0, 0, 4, 4, 4}}, {{1, 0, 1, 2, 4, 2}}, {{0, 1, 1, 4, 2, 2}}, {{2, 2, 2, 4, 4, 4}}, {{1, 1, 0, 2, 2, 4}}, {{0, 0, 0, 1, 1, 4}}};
    for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) for (int k = 0; k < 9; ++k) for (int o1 = 0; o1 < 3; ++o1) for (int o2 = 0; o2 < 3; ++o2) for (int g = 0; g < 2; ++g) for (int sc = 0; sc < 2; ++sc) {
        if (!r.next([&] { return strf("boxes %d %d %d %s %s grouped %s scale %d", i, j, k, OP[o1], OP[o2], g ? "right" : "left", sc); })) continue;
        r.state(Hash().add(i).add(j).add(k).add(o1).add(o2).add(g).add(sc));
        double s = sc ? 0.7 : 1, o = sc ? 0.3 : 0;
        Solid a = boxSolid(L[i], s, o), b = boxSolid(L[j], s, o), c = boxSolid(L[k], s, o);
        for (Solid* q : {&a, &b, &c}) q->setTolerance(sc ? 1e-9 : 0);
        Cells ca = [&](int x, int y, int z) { return inBox(L[i], x, y, z); }, cb = [&](int x, int y, int z) { return inBox(L[j], x, y, z); }, cc = [&](int x, int y, int z) { return inBox(L[k], x, y, z); };
        Solid m = g ? apply(o2, b, c) : apply(o1, a, b); m.setTolerance(sc ? 1e-9 : 0);
        Rings before = rings(m);
        Solid t = g ? apply(o1, a, m) : apply(o2, m, c); r.op(2);
        r.expect(sameFaces(before, rings(m)), "operand changed");
        Rings f = rings(t);
        judgeCells(r, f, g ? comb(o1, ca, comb(o2, cb, cc)) : comb(o2, comb(o1, ca, cb), cc), 4, s, o);
        r.outcome(Hash().add(f.size())); r.trace();
    }
}
// convex solids of several kinds
struct CBody { std::string name; Solid s; };
static Solid hull(const std::vector<I3>& p, const std::vector<std::vector<int>>& f, double sc, const Eigen::Matrix3d& M, const Eigen::Vector3d& t) {
    std::vector<Poly> ps;
    for (auto& v : f) { Poly q; for (int i : v) { Eigen::Vector3d e = M * Eigen::Vector3d(p[i][0], p[i][1], p[i][2]) * sc + t; P3 c(e[0], e[1], e[2]); q.polyline().addVertex(c); } q.polyline().close(); q.calculateNormal(); ps.push_back(q); }
    return Solid(ps);
}
static Solid make(int kind, const Eigen::Vector3d& t) {
    P3 c(t[0], t[1], t[2]); Eigen::Matrix3d I = Eigen::Matrix3d::Identity(), M = (Eigen::AngleAxisd(0.7, Eigen::Vector3d(1, 2, 3).normalized())).toRotationMatrix();
    static const std::vector<I3> T = {{{0, 0, 0}}, {{3, 0, 0}}, {{0, 3, 0}}, {{0, 0, 3}}}, O = {{{2, 0, 0}}, {{-2, 0, 0}}, {{0, 2, 0}}, {{0, -2, 0}}, {{0, 0, 2}}, {{0, 0, -2}}}, C = {{{-1, -1, -1}}, {{1, -1, -1}}, {{1, 1, -1}}, {{-1, 1, -1}}, {{-1, -1, 1}}, {{1, -1, 1}}, {{1, 1, 1}}, {{-1, 1, 1}}};
    static const std::vector<std::vector<int>> TF = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}, OF = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}, CF = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    switch (kind) {
    case 0: return hull(T, TF, 1, I, t);
    case 1: return hull(O, OF, 1, I, t);
    case 2: return hull(C, CF, 1.2, M, t);
    case 3: { CGeoVector<R> h; h.x() = 1; h.y() = 1.5; h.z() = 0.5; return CCsgCube<R>::create(c, h); }
    case 4: return CCsgSphere<R>::create(c, 1.5, 6, 4);
    case 5: { P3 a(t[0], t[1], t[2] - 1.5), b(t[0], t[1], t[2] + 1.5); return CCsgCylinder<R>::create(a, b, 1.1, 7); }
    case 6: { P3 a(t[0] - 2, t[1] - 1, t[2]), b(t[0] + 2, t[1] + 1, t[2] + 1); return CCsgCylinder<R>::create(a, b, 0.6, 5); }
    default: return hull(T, TF, 1.1, M, t);
    }
}
static bool insideConvex(const Rings& f, const Eigen::Vector3d& p, double& margin) { bool in = true; for (auto& v : f) { Eigen::Vector3d n = areaVec(v).normalized(); double d = n.dot(p - ev(v[0])); margin = std::min(margin, std::fabs(d)); if (d > 0) in = false; } return in; }
static void judgeWinding(Run& r, const Rings& f, std::function<bool(bool, bool)> w, const Rings& fa, const Rings& fb, int N) {
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) {
        Eigen::Vector3d p((i + 0.517) * 5.0 / N - 2.5, (j + 0.463) * 5.0 / N - 2.5, (k + 0.531) * 5.0 / N - 2.5); double m = 1e9;
        bool a = insideConvex(fa, p, m), b = insideConvex(fb, p, m); if (m < 1e-3) continue;
        double g = winding(f, p); int want = w(a, b);
        r.expect(std::fabs(g - want) < 1e-6, "membership", "point %g %g %g: enclosed %g times instead of %d", p[0], p[1], p[2], g, want);
        if (r.failedNow()) return;
    }
}
SECTION("bodies", "every ordered pair of 8 convex solids (tetrahedra, octahedron, rotated cube, box, sphere, cylinders) x a lattice of displacements x 3 operations: every point of a grid is enclosed exactly once when it lies in the exact result and not at all otherwise; inclusion-exclusion; through triangle files too") {
    static const double D[5] = {0, 0.5, 1.25, -0.83, 2.5};
    int cnt = 0, top = r.thorough ? 5 : 4;
    for (int ka = 0; ka < 8; ++ka) for (int kb = 0; kb < 8; ++kb) for (int x = 0; x < top; ++x) for (int y = 0; y < top; ++y) for (int z = 0; z < (r.thorough ? 5 : 3); ++z) {
        ++cnt;
        if (!r.next([&] { return strf("solids %d %d displaced %g %g %g", ka, kb, D[x], D[(y + 1) % 5], D[(z + 3) % 5]); })) continue;
        r.state(Hash().add(ka).add(kb).add(x).add(y).add(z));
        Solid a = make(ka, Eigen::Vector3d(0, 0, 0)), b = make(kb, Eigen::Vector3d(D[x], D[(y + 1) % 5], D[(z + 3) % 5]));
        a.setTolerance(1e-9); b.setTolerance(1e-9);
        Rings fa = rings(a), fb = rings(b); double v[3], scale = volume(fa) + volume(fb);
        if (cnt % 3 == 0) { Solid a2, b2; a2.setTolerance(1e-9); b2.setTolerance(1e-9); auto sa = a.toStl(), sb = b.toStl(); a2.fromSTL(sa); b2.fromSTL(sb); a = a2; b = b2; }
        for (int op = 0; op < 3; ++op) {
            Solid c = apply(op, a, b); r.op();
            Rings f = rings(c); v[op] = volume(f);
            judgeWinding(r, f, [&](bool p, bool q) { return op == 0 ? p || q : op == 1 ? p && !q : p && q; }, fa, fb, r.thorough ? 7 : 5);
            if (op == cnt % 3) { auto st = c.toStl(); Rings g; for (int i = 0; i < st.stlFile().nbFacets(); ++i) { auto& t = st.stlFile().facet(st.stlFile().facetId(i)); g.push_back({t.vertex(0), t.vertex(1), t.vertex(2)}); } r.expect(std::fabs(volume(g) - v[op]) < 1e-9 * scale, "facets volume"); r.expect(std::fabs(area(g) - area(f)) < 1e-8 * area(fa), "facets area"); }
            Eigen::Vector3d s(0, 0, 0); for (auto& q : f) s += areaVec(q); r.expect(s.norm() < 1e-6 * area(fa), "open surface");
        }
        r.expect(std::fabs(v[0] + v[2] - volume(fa) - volume(fb)) < 1e-6 * scale, "inclusion-exclusion", "%g + %g != %g + %g", v[0], v[2], volume(fa), volume(fb));
        r.expect(std::fabs(v[1] + v[2] - volume(fa)) < 1e-6 * scale, "difference volume");
        r.outcome(Hash().add(v[2] > 1e-9).add(v[1] > 1e-9).add(v[1] < volume(fa) - 1e-9)); r.trace();
    }
}
SECTION("shapes", "boxes, spheres and cylinders over radii, subdivisions 3..12 and directions: closed, convex, outward, with every vertex on the shape and the exact volume of the box and the prism") {
    auto convex = [&](const Rings& f, double size) {
        std::map<std::pair<int, int>, int> E; std::vector<Eigen::Vector3d> pts; auto id = [&](const P3& p) { for (size_t i = 0; i < pts.size(); ++i) if ((pts[i] - ev(p)).norm() < 1e-9 * size) return (int)i; pts.push_back(ev(p)); return (int)pts.size() - 1; };
        for (auto& v : f) { std::vector<int> q; for (auto& p : v) q.push_back(id(p)); for (size_t i = 0; i < q.size(); ++i) { int a = q[i], b = q[(i + 1) % q.size()]; if (a != b) E[{a, b}]++; } }
        bool closed = true, out = true; for (auto& e : E) closed = closed && e.second == 1 && E.count({e.first.second, e.first.first});
        for (auto& v : f) { Eigen::Vector3d n = areaVec(v).normalized(); for (auto& p : pts) out = out && n.dot(p - ev(v[0])) < 1e-9 * size; }
        r.expect(closed, "closed"); r.expect(out, "outward");
    };
    static const double S[5] = {1, 0.01, 7.3, 1000, 1.0 / 3}; static const double O[3] = {0, -4.5, 100.25};
    auto normals = [&](Solid& s) { for (int i = 0; i < s.nbPolygons(); ++i) { Eigen::Vector3d n = areaVec(ring(s.polygons()[i])); auto m = s.polygons()[i].normal(); r.expect((Eigen::Vector3d(m.x(), m.y(), m.z()) - n.normalized()).norm() < 1e-6, "normal"); } };
    for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 5; ++z) for (int o = 0; o < 3; ++o) {
        if (!r.next([&] { return strf("box %g %g %g at %g", S[x], S[y], S[z], O[o]); })) continue;
        r.state(Hash().add(x).add(y).add(z).add(o)); double sz = std::max(S[x], std::max(S[y], S[z])); (void)sz;
        P3 c(O[o], O[(o + 1) % 3], -O[o]); CGeoVector<R> h; h.x() = S[x]; h.y() = S[y]; h.z() = S[z]; Solid s = CCsgCube<R>::create(c, h); r.op(); Rings f = rings(s);
        r.expect(f.size() == 6, "faces"); convex(f, std::min(S[x], std::min(S[y], S[z])) + 1e-3 * sz); double v = 8 * S[x] * S[y] * S[z];
        double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}; for (auto& q : f) for (auto& p : q) for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], ev(p)[k]); hi[k] = std::max(hi[k], ev(p)[k]); }
        double C[3] = {O[o], O[(o + 1) % 3], -O[o]}, H[3] = {S[x], S[y], S[z]}; for (int k = 0; k < 3; ++k) r.expect(std::fabs(lo[k] - C[k] + H[k]) < 1e-9 * (1 + sz + 100) && std::fabs(hi[k] - C[k] - H[k]) < 1e-9 * (1 + sz + 100), "extent");
        r.expect(std::fabs(volume(f) - v) < 1e-8 * v * (1 + 100 / S[x]) * 10, "volume"); normals(s);
        r.outcome(Hash().add(f.size())); r.trace();
    }
    for (int ra = 0; ra < 5; ++ra) for (int n = 3; n <= 12; ++n) for (int m = 2; m <= 8; ++m) {
        if (!r.next([&] { return strf("sphere %g slices %d stacks %d", S[ra], n, m); })) continue;
        r.state(Hash().add(1).add(ra).add(n).add(m)); P3 c(0.5, -0.25, 0.125); double R0 = S[ra]; Solid s = CCsgSphere<R>::create(c, R0, n, m); r.op(); Rings f = rings(s);
        r.expect((int)f.size() == n * m, "faces"); convex(f, R0); for (auto& q : f) for (auto& p : q) r.expect(std::fabs((ev(p) - ev(c)).norm() - R0) < 1e-9 * (1 + R0), "radius"); if (R0 > 0.1) normals(s);
        r.outcome(Hash().add(f.size())); r.trace();
    }
    for (int ra = 0; ra < 5; ++ra) for (int n = 3; n <= 12; ++n) for (int d = 0; d < 26; ++d) {
        if (!r.next([&] { return strf("cylinder %g slices %d direction %d", S[ra], n, d); })) continue;
        r.state(Hash().add(2).add(ra).add(n).add(d)); int q = d < 13 ? d : d + 1; Eigen::Vector3d dir(q % 3 - 1, q / 3 % 3 - 1, q / 9 - 1); double L = 1 + d % 3, R0 = S[ra]; dir *= L; P3 a(0.5, 1, -1), b(0.5 + dir[0], 1 + dir[1], -1 + dir[2]);
        Solid s = CCsgCylinder<R>::create(a, b, R0, n); r.op(); Rings f = rings(s);
        r.expect((int)f.size() == 3 * n, "faces"); convex(f, std::max(R0, 1.0) * 1e-2 + R0); double v = n / 2.0 * R0 * R0 * std::sin(2 * M_PI / n) * dir.norm(); r.expect(std::fabs(volume(f) - v) < 1e-8 * v * (1 + 10 / R0), "volume", "%g instead of %g", volume(f), v);
        for (auto& w : f) for (auto& p : w) { Eigen::Vector3d e = ev(p) - ev(a); double t = e.dot(dir) / dir.squaredNorm(), h = (e - t * dir).norm(); r.expect(std::min(std::fabs(t), std::fabs(t - 1)) < 1e-9 * (1 + R0), "end"); r.expect(h < 1e-9 * (1 + R0) || std::fabs(h - R0) < 1e-9 * (1 + R0), "radius"); } if (R0 > 0.1) normals(s);
        r.outcome(Hash().add(f.size())); r.trace();
    }
}
// fills the part of the stack the next calls use, so that reading an object that was never set shows
static void __attribute__((noinline)) dirty(double v) { volatile double b[8192]; for (int i = 0; i < 8192; ++i) b[i] = v; }
SECTION("empty", "every operation between a solid and an empty one (constructed, and the difference or intersection that leaves nothing), both sides, 2 tolerances, over 6 previous contents of memory: union and difference with nothing give the solid, the others nothing") {
    static const double M[6] = {0, -1e300, 1, -1, 1e300, 0.5};
    for (int kind = 0; kind < 4; ++kind) for (int e = 0; e < 3; ++e) for (int op = 0; op < 3; ++op) for (int side = 0; side < 3; ++side) for (int tl = 0; tl < 2; ++tl) for (int m = 0; m < 6; ++m) {
        if (!r.next([&] { return strf("solid %d empty kind %d %s side %d tolerance %d memory %g", kind, e, OP[op], side, tl, M[m]); })) continue;
        r.state(Hash().add(kind).add(e).add(op).add(side).add(tl).add(m));
        double tol = tl ? 1e-9 : 0; Solid a = make(kind, Eigen::Vector3d(0.1, 0.2, 0)), b = make(kind, Eigen::Vector3d(9.5, 0.25, 0)); a.setTolerance(1e-9); b.setTolerance(1e-9);
        Solid n(tol); if (e == 1) n = a.subtract(a); if (e == 2) n = a.intersect(b); n.setTolerance(tol); a.setTolerance(tol);
        r.expect(n.nbPolygons() == 0, "not empty"); Rings fa = rings(a); dirty(M[m]);
        Solid c = side == 0 ? apply(op, a, n) : side == 1 ? apply(op, n, a) : apply(op, n, n); r.op(); Rings f = rings(c);
        bool all = side == 0 ? op < 2 : side == 1 ? op == 0 : false;
        r.expect(std::fabs(volume(f) - (all ? volume(fa) : 0)) < 1e-9, "volume", "%g", volume(f)); r.expect(std::fabs(area(f) - (all ? area(fa) : 0)) < 1e-9, "area");
        r.outcome(Hash().add(f.size())); r.trace();
    }
}
