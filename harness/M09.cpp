// Quality measures of triangles, quadrilaterals, tetrahedra and prisms.
#include "msh.hpp"
#include "MshTriangle.hpp"
#include "MshQuadrilateral.hpp"
#include "MshTetrahedron.hpp"
#include "MshTriangularPrism.hpp"
template <class S> static double qual(S& s, const std::vector<P3>& v) { s.reset(); for (auto& p : v) s.addVertex(p); s.calculateQuality(); return s.quality(); }
template <class S> static double qual(const std::vector<P3>& v) { S s; for (auto& p : v) s.addVertex(p); s.calculateQuality(); return s.quality(); }
static P3 turn(const P3& p, int k) { double x = p.x(), y = p.y(), z = p.z(); for (int i = 0; i < k % 4; ++i) { double t = x; x = -y; y = t; } for (int i = 0; i < (k / 4) % 3; ++i) { double t = x; x = y; y = z; z = t; } return P3(x, y, z); }
// invariance, range, exact zero for flat shapes
template <class S> static void both(Run& r, S& reused, const std::vector<P3>& v, bool flat, const std::vector<std::vector<int>>& relabel, double want) {
    double q = qual<S>(v); r.op(); if (!r.expect(std::isfinite(q), "finite", "%g", q)) return; r.expect(q <= 1 + 1e-9, "above-one", "%.12g", q); if (flat) r.expect(std::fabs(q) < 1e-5, "flat", "%.12g", q); else r.expect(q > 1e-4, "positive", "%.12g", q); if (want >= 0) r.expect(std::fabs(q - want) < 1e-6, "value", "%.12g want %.12g", q, want);
    double tol = flat ? 2e-5 : 1e-6; r.expect(std::fabs(qual(reused, v) - q) < tol, "reused", "%.12g want %.12g", reused.quality(), q);
    for (int k = 1; k < 12; ++k) { std::vector<P3> w; for (auto& p : v) w.push_back(turn(p, k)); r.expect(std::fabs(qual<S>(w) - q) < tol, "rotation", "turn %d: %.12g want %.12g", k, qual<S>(w), q); }
    for (double s : {2.0, 1000.0, 0.001, 0.3}) { std::vector<P3> w; for (auto& p : v) w.push_back(P3(p.x() * s, p.y() * s, p.z() * s)); r.expect(std::fabs(qual<S>(w) - q) < tol, "scale", "scale %g: %.12g want %.12g", s, qual<S>(w), q); }
    for (int t = 0; t < 2; ++t) { std::vector<P3> w; for (auto& p : v) w.push_back(P3(p.x() + (t ? 8 : -3), p.y() + 16, p.z() - (t ? 0 : 5))); r.expect(std::fabs(qual<S>(w) - q) < tol, "translation"); }
    for (auto& l : relabel) { std::vector<P3> w; for (int i : l) w.push_back(v[i]); r.expect(std::fabs(qual<S>(w) - q) < tol, "relabel", "%s: %.12g want %.12g", show(l).c_str(), qual<S>(w), q); }
    r.outcome(Hash().addr(q)); r.trace();
}
static std::vector<std::vector<int>> rot(int n, bool rev) { std::vector<std::vector<int>> o; for (int k = 0; k < n; ++k) for (int d = 0; d < (rev ? 2 : 1); ++d) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(((d ? -i : i) + k + n) % n); o.push_back(v); } return o; }
SECTION("triangle", "every triple of points of the 3x3x3 lattice (first point fixed in quick runs) except wholly coincident ones; exact value 4 A^3-form; reuse of one object; 12 rotations, 4 scales, 2 translations, every relabelling") {
    auto L = lattice(2, 2, 2); CMshTriangle<R> reused; for (size_t a = 0; a < L.size(); a += r.thorough ? 1 : 5) for (size_t b = 0; b < L.size(); ++b) for (size_t c = 0; c < L.size(); ++c) {
        if (a == b && b == c) continue; if (!r.next([&] { std::ostringstream o; o << L[a] << L[b] << L[c]; return o.str(); })) continue;
        V3i u = L[b] - L[a], v = L[c] - L[a], w = L[c] - L[b]; double A2 = u.cross(v).n(), l0 = u.n(), l1 = w.n(), l2 = v.n(); bool flat = A2 == 0; double want = 0; if (!flat) { double sa = A2 / (l0 * l2), sb = A2 / (l0 * l1), sc = A2 / (l1 * l2); want = 4 * sa * sb * sc / (sa + sb + sc); }
        both(r, reused, {C(L[a]), C(L[b]), C(L[c])}, flat, rot(3, true), -1); if (!flat) r.expect(std::fabs(qual<CMshTriangle<R>>({C(L[a]), C(L[b]), C(L[c])}) - want) < 1e-9, "value"); r.state(Hash().add(a).add(b).add(c)); }
}
SECTION("quadrilateral", "every simple quadrilateral and every collapsed one (four points on a line, coincident points) of the 4x3 lattice in 8 planes; squares have quality 1") {
    auto L = lattice(3, 2, 0); CMshQuadrilateral<R> reused; int n = L.size(); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) for (int d = 0; d < n; ++d) {
        std::vector<V3i> p = {L[a], L[b], L[c], L[d]}; ll A = area2x2(p); bool coll = cross2(p[0], p[1], p[2]) == 0 && cross2(p[0], p[1], p[3]) == 0 && cross2(p[0], p[2], p[3]) == 0 && cross2(p[1], p[2], p[3]) == 0; std::set<V3i> u(p.begin(), p.end()); if (u.size() < 2) continue; bool simple = u.size() == 4 && !coll && simple2(p, false); if (!simple && !(coll && u.size() >= 2)) continue; if (!simple && !r.thorough && (a + b + c + d) % 3) continue;
        if (!r.next([&] { std::ostringstream o; for (auto& x : p) o << x; return o.str(); })) continue;
        for (size_t e = 0; e < embeddings().size(); e += 3) { std::vector<P3> v; V3i pp[4]; for (int i = 0; i < 4; ++i) { pp[i] = embeddings()[e].at(p[i]); v.push_back(C(pp[i])); } double s = 0; for (int i = 0; i < 4; ++i) s += (pp[(i + 1) % 4] - pp[i]).n2(); double ar = ((pp[2] - pp[0]).cross(pp[3] - pp[1])).n() / 2; both(r, reused, v, coll, rot(4, true), coll ? 0 : 4 * ar / s); }
        r.state(Hash().add(a).add(b).add(c).add(d).add(A)); }
    if (r.next([&] { return std::string("squares"); })) for (double s : {1.0, 0.01, 50.0}) for (int k = 0; k < 4; ++k) { double c = std::cos(0.3 * k), t = std::sin(0.3 * k); std::vector<P3> v = {P3(0, 0, 0), P3(s * c, s * t, 0), P3(s * (c - t), s * (t + c), 0), P3(-s * t, s * c, 0)}; r.expect(near(qual<CMshQuadrilateral<R>>(v), 1), "ideal"); }
}
SECTION("tetrahedron", "every quadruple of points of the 3x3x2 lattice (non-coincident; flat ones included), ideal tetrahedra, all 24 relabellings for a part, reuse") {
    auto L = lattice(2, 2, 1); CMshTetrahedron<R> reused; int n = L.size(); std::vector<std::vector<int>> rel; permutations(4, [&](const std::vector<int>& p) { rel.push_back(p); });
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) for (int d = c + 1; d < n; ++d) { if (!r.thorough && (a + 2 * b + c + d) % 2) continue;
        if (!r.next([&] { std::ostringstream o; o << L[a] << L[b] << L[c] << L[d]; return o.str(); })) continue;
        V3i P[4] = {L[a], L[b], L[c], L[d]}; double V = std::fabs((double)det3(P[1] - P[0], P[2] - P[0], P[3] - P[0])) / 6, S = 0, ml = 0; int f[4][3] = {{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}}; for (auto& t : f) S += (P[t[1]] - P[t[0]]).cross(P[t[2]] - P[t[0]]).n() / 2; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) ml = std::max(ml, (P[i] - P[j]).n());
        both(r, reused, {C(P[0]), C(P[1]), C(P[2]), C(P[3])}, V == 0, rel, V == 0 ? 0 : 6 * std::sqrt(6.0) * V / (S * ml)); r.state(Hash().add(a).add(b).add(c).add(d)); }
    if (r.next([&] { return std::string("regular"); })) { std::vector<P3> v = {P3(1, 1, 1), P3(1, -1, -1), P3(-1, 1, -1), P3(-1, -1, 1)}; r.expect(near(qual<CMshTetrahedron<R>>(v), 1), "ideal"); r.expect(near(qual<CMshTriangle<R>>({v[0], v[1], v[2]}), 1), "ideal-triangle"); r.expect(near(qual<CMshTriangularPrism<R>>({v[0], v[1], v[2], v[0] * 2.0, v[1] * 2.0, v[2] * 2.0}), 1), "ideal-prism"); }
}
SECTION("prism", "every pair of triangles of the 3x3 lattice as bottom and top: the mean of the two triangles' qualities") {
    auto L = lattice(2, 2, 0); int n = L.size(); CMshTriangularPrism<R> reused; std::vector<std::vector<int>> tr; sequences(3, n, [&](const std::vector<int>& s) { if (s[0] < s[1] && s[1] != s[2] && s[0] != s[2]) tr.push_back(s); });
    for (size_t i = 0; i < tr.size(); i += 1) for (size_t j = 0; j < tr.size(); j += r.thorough ? 1 : 7) { if (!r.next([&] { return show(tr[i]) + show(tr[j]); })) continue;
        std::vector<P3> v; for (int k : tr[i]) v.push_back(C(L[k])); for (int k : tr[j]) v.push_back(P3(L[k].x, L[k].y, 1)); double a = qual<CMshTriangle<R>>({v[0], v[1], v[2]}), b = qual<CMshTriangle<R>>({v[3], v[4], v[5]}); double q = qual<CMshTriangularPrism<R>>(v), q2 = qual(reused, v); r.op(); r.expect(std::fabs(q - (a + b) / 2) < 1e-9, "mean", "%.12g want %.12g", q, (a + b) / 2); r.expect(q == q2, "reused"); r.state(Hash().add(i).add(j)); r.outcome(Hash().addr(q)); r.trace(); }
}
