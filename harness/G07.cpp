// Intersection and distance predicates against exact integer geometry.
#include "geo.hpp"
#include "GeoPlane.hpp"
static int ti(CGeoIntersectionType t) { for (auto e : {IT_NONE, IT_VERTEX, IT_EDGE, IT_INTERNAL, IT_COINCIDENT, IT_SWAP}) if (t == e) return (int)e; return -1; }
static int sg(ll v) { return (v > 0) - (v < 0); }
static int domAxis(const V3i& n) { ll a = std::llabs(n.x), b = std::llabs(n.y), c = std::llabs(n.z); return a >= b && a >= c ? 0 : b >= c ? 1 : 2; }
static V3i drop(const V3i& p, int ax) { return ax == 0 ? V3i(p.y, p.z, 0) : ax == 1 ? V3i(p.z, p.x, 0) : V3i(p.x, p.y, 0); }
static ll orient(const V3i& a, const V3i& b, const V3i& c, const V3i& d) { return det3(b - a, c - a, d - a); }
static bool onSeg(const V3i& a, const V3i& b, const V3i& p) { return (b - a).cross(p - a).n2() == 0 && (p - a).dot(p - b) <= 0; }
enum XT { X_NONE, X_VERTEX, X_INTERNAL, X_COINC };
static const char* TN[] = {"none", "vertex", "internal", "coincident"};
// exact classification of two non-degenerate segments: vertex = touching in a common end point only
static XT segseg(const V3i& a, const V3i& b, const V3i& c, const V3i& d, bool& collinear) {
    collinear = false;
    if ((a == c && b == d) || (a == d && b == c)) { collinear = true; return X_COINC; }
    V3i u = b - a, v = d - c, w = c - a, n = u.cross(v);
    if (n.n2() == 0) {
        if (u.cross(w).n2() != 0) return X_NONE;
        collinear = true; ll l = u.n2(), s = w.dot(u), t = (d - a).dot(u); if (s > t) std::swap(s, t); // [0,l] vs [s,t]
        ll lo = std::max(0LL, s), hi = std::min(l, t); if (lo > hi) return X_NONE; return lo == hi ? X_VERTEX : X_INTERNAL;
    }
    if (w.dot(n) != 0) return X_NONE;
    if (a == c || a == d || b == c || b == d) return X_VERTEX;
    int ax = domAxis(n); return segInt2(drop(a, ax), drop(b, ax), drop(c, ax), drop(d, ax)) ? X_INTERNAL : X_NONE;
}
static XT toX(CGeoIntersectionType t) { return t == IT_NONE ? X_NONE : t == IT_VERTEX ? X_VERTEX : t == IT_INTERNAL ? X_INTERNAL : t == IT_COINCIDENT ? X_COINC : (XT)9; }
static double dseg(const P3& p, const P3& a, const P3& b) { V3l A = toL(a), u = toL(b) - A, w = toL(p) - A; LD s = dot(w, u) / dot(u, u); s = std::max((LD)0, std::min((LD)1, s)); return (double)norm(w - u * s); }

static void segPairs(Run& r, const std::vector<V3i>& L, const char* nm) {
    for (auto& a : L) for (auto& b : L) { if (a == b) continue;
        if (!r.next([&] { return std::string(nm) + " segment " + show(std::vector<V3i>{a, b}) + " against all"; })) continue;
        for (auto& c : L) for (auto& d : L) { if (c == d) continue;
            bool col; XT want = segseg(a, b, c, d, col);
            for (int pl = 0; pl < 3; ++pl) {
                double s = pl == 0 ? 1 : pl == 1 ? 0.1 : 3; P3 t(pl == 1 ? 1.0 / 3 : 0, pl == 2 ? -7 : 0, 0);
                CGeoLine<R> l(C(a, s, t), C(b, s, t)), m(C(c, s, t), C(d, s, t)); CGeoIntersectionType ty; P3 p(9, 9, 9);
                bool got = l.intersects(m, p, ty, 1e-9); r.op();
                if (!r.expect(got == (want != X_NONE) && toX(ty) == want, "classify", "with %s placement %d: got %d type %d want %s", show(std::vector<V3i>{c, d}).c_str(), pl, got, ti(ty), TN[want])) break;
                if (got) r.expect(dseg(p, C(a, s, t), C(b, s, t)) < 1e-7 && dseg(p, C(c, s, t), C(d, s, t)) < 1e-7, "point", "with %s: (%g %g %g)", show(std::vector<V3i>{c, d}).c_str(), p.x(), p.y(), p.z());
                CGeoIntersectionType t2; r.expect(l.intersects(m, t2, 1e-9) == got && ti(t2) == ti(ty) && l.intersects(m, p, 1e-9) == got, "overloads"); r.op(2);
            }
            r.outcome(want * 2 + col);
        }
        Hash h; h.adds(nm).add(a.x + 5 * a.y + 25 * a.z).add(b.x + 5 * b.y + 25 * b.z); r.state(h); r.trace();
    }
}
SECTION("segments-planar", "all ordered pairs of ordered segments of a 4x3 planar lattice (132^2; thorough 4x4) in three placements: classification none/vertex/internal/coincident, intersection point on both, all end-point orders") { segPairs(r, lattice(3, r.thorough ? 3 : 2, 0), "planar"); }
SECTION("segments-space", "all ordered pairs of ordered segments of a 3x3x2 lattice (306^2) in three placements (thorough 3x3x3)") { segPairs(r, lattice(2, 2, r.thorough ? 2 : 1), "space"); }
SECTION("segments-near-miss", "long segments passing close by: collinear-direction segments offset by 1 over lengths 100 and 1000, T and X configurations shifted off by one unit, all end-point orders, 3 axes") {
    for (ll Ln : {100LL, 1000LL}) for (ll off : {0LL, 1LL, 5LL}) for (ll x0 : {-1LL, 0LL, 10LL, Ln / 2, Ln - 1, Ln, Ln + 1}) for (int kind = 0; kind < 3; ++kind) for (int ax = 0; ax < 3; ++ax) for (int o = 0; o < 8; ++o) {
        V3i a(0, 0, 0), b(Ln, 0, 0), c(x0, off, 0), d;
        if (kind == 0) d = V3i(x0 + 20, off, 0); else if (kind == 1) d = V3i(x0 + 3, off + 40, 0); else d = V3i(x0, off - 1 - 50, 0);
        auto rot = [&](V3i p) { return ax == 0 ? p : ax == 1 ? V3i(p.z, p.x, p.y) : V3i(p.y, p.z, p.x); }; a = rot(a); b = rot(b); c = rot(c); d = rot(d);
        if (o & 1) std::swap(a, b); if (o & 2) std::swap(c, d); if (o & 4) { std::swap(a, c); std::swap(b, d); }
        if (!r.next([&] { return "segments " + show(std::vector<V3i>{a, b, c, d}); })) continue;
        bool col; XT want = segseg(a, b, c, d, col); CGeoLine<R> l(C(a), C(b)), m(C(c), C(d)); CGeoIntersectionType ty; P3 p;
        bool got = l.intersects(m, p, ty, 1e-6); r.op(); r.expect(got == (want != X_NONE) && toX(ty) == want, "near-miss", "got %d type %d want %s", got, ti(ty), TN[want]);
        r.state(Hash().add(Ln).add(off).add(x0).add(kind).add(ax).add(o)); r.outcome(want); r.trace();
    }
}
SECTION("point-segment", "all ordered segments of a 3x3x3 lattice x all points of a 9x9x9 half lattice around it: containment class, distance and nearest point; overlong offsets") {
    auto L = lattice(2, 2, 2), Q = lattice(8, 8, r.thorough ? 8 : 4);
    for (auto& a : L) for (auto& b : L) { if (a == b) continue;
        if (!r.next([&] { return "segment " + show(std::vector<V3i>{a, b}); })) continue;
        CGeoLine<R> l(C(a), C(b)); V3i A = a * 2, B = b * 2;
        for (auto& q0 : Q) { V3i q = q0 - V3i(2, 2, 2); P3 p(q.x * .5, q.y * .5, q.z * .5); bool on = onSeg(A, B, q); bool end = q == A || q == B;
            CGeoIntersectionType ty; bool got = l.contains(p, ty, 1e-9); r.op(2);
            r.expect(got == on && (ti(ty) == (int)(on ? end ? IT_VERTEX : IT_INTERNAL : IT_NONE)), "contains", "point (%g %g %g): %d type %d want %d", p.x(), p.y(), p.z(), got, ti(ty), on);
            P3 f; double d; bool ok = l.distance(p, f, d, 1e-9); double w = dseg(p, C(a), C(b)); r.expect(ok && near(d, w, 1e-9) && near((f - p).norm(), w, 1e-9) && dseg(f, C(a), C(b)) < 1e-9, "distance", "point (%g %g %g): %g want %g", p.x(), p.y(), p.z(), d, w); r.outcome(on + 2 * end); }
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z)); r.trace(); }
}
SECTION("segment-distance", "all ordered pairs of non-parallel segments of a 3x3x2 lattice: distance, both nearest points on their segments, order independence") {
    auto L = lattice(2, 2, 1);
    auto exact = [](const V3i& a, const V3i& b, const V3i& c, const V3i& d) { // non-parallel
        V3i u = b - a, v = d - c, w = a - c, n = u.cross(v); double best = std::min(std::min(dseg(C(a), C(c), C(d)), dseg(C(b), C(c), C(d))), std::min(dseg(C(c), C(a), C(b)), dseg(C(d), C(a), C(b))));
        // interior pair: parameters s = det(c-a, v, n)/n2, t = det(c-a, u, n)/n2
        ll n2 = n.n2(), s = det3(c - a, v, n), t = det3(c - a, u, n); if (s >= 0 && s <= n2 && t >= 0 && t <= n2) best = std::min(best, std::fabs((double)w.dot(n)) / std::sqrt((double)n2)); return best; };
    for (auto& a : L) for (auto& b : L) { if (a == b) continue;
        if (!r.next([&] { return "segment " + show(std::vector<V3i>{a, b}) + " against all"; })) continue;
        for (auto& c : L) for (auto& d : L) { if ((b - a).cross(d - c).n2() == 0) continue;
            CGeoLine<R> l(C(a), C(b)), m(C(c), C(d)); P3 p, q; double e = -1; bool ok = l.distance(m, p, q, e, 1e-9); r.op(); double w = exact(a, b, c, d);
            r.expect(ok && near(e, w, 1e-9) && near((p - q).norm(), w, 1e-9) && dseg(p, C(a), C(b)) < 1e-9 && dseg(q, C(c), C(d)) < 1e-9, "segment-distance", "with %s: %g want %g", show(std::vector<V3i>{c, d}).c_str(), e, w); r.outcome(Hash().addr(w)); }
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z)); r.trace(); }
}
SECTION("segment-plane", "all ordered segments of a 3x3x3 lattice x planes with normals in -1..1 (26) and doubled offsets -8..8: hit, kind and point") {
    auto L = lattice(2, 2, 2);
    for (auto& a : L) for (auto& b : L) { if (a == b) continue;
        if (!r.next([&] { return "segment " + show(std::vector<V3i>{a, b}); })) continue;
        CGeoLine<R> l(C(a), C(b)); CGeoPolyline<R> pl; pl.addVertex(C(a)); pl.addVertex(C(b));
        for (auto& n0 : lattice(2, 2, 2)) { V3i n = n0 - V3i(1, 1, 1); if (n.n2() == 0) continue; for (ll d = -8; d <= 8; ++d) {
            CGeoPlane<R> P(CGeoNormal<R>(n.x, n.y, n.z), d / (2.0 * n.n())); ll s = 2 * n.dot(a) - d, t = 2 * n.dot(b) - d;
            P3 p; CGeoIntersectionType ty; bool got = l.intersects(P, p, ty, 1e-9); r.op();
            if (s == t) { r.expect(!got && ty == IT_NONE, "parallel", "plane %s %lld", show(std::vector<V3i>{n}).c_str(), d); continue; }
            bool want = sg(s) * sg(t) <= 0; EIntersectionType wt = !want ? IT_NONE : (s == 0 || t == 0) ? IT_VERTEX : IT_INTERNAL;
            r.expect(got == want && ti(ty) == (int)wt, "hit", "plane %s %lld: %d %d want %d %d", show(std::vector<V3i>{n}).c_str(), d, got, ti(ty), want, (int)wt);
            if (got && want) { double al = (double)s / (double)(s - t); V3i u = b - a; r.expect(nearP(p, a.x + al * u.x, a.y + al * u.y, a.z + al * u.z), "point"); }
            if (s != 0 && t != 0) { r.expect(pl.intersects(P) == want, "polyline"); r.op(); } r.outcome(Hash().add(wt)); } }
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z)); r.trace(); }
}
// ---- triangles
static CGeoTriangle<R> tri(const P3& a, const P3& b, const P3& c) { CGeoTriangle<R> t; t.addVertex(a); t.addVertex(b); t.addVertex(c); return t; }
static int ptTri2(const V3i& a, const V3i& b, const V3i& c, const V3i& p) { // planar: -1 out, 0 boundary, 1 in
    int o = sg(cross2(a, b, c)), x = sg(cross2(a, b, p)) * o, y = sg(cross2(b, c, p)) * o, z = sg(cross2(c, a, p)) * o; if (x < 0 || y < 0 || z < 0) return -1; return x && y && z ? 1 : 0; }
static int ptTri(const V3i& a, const V3i& b, const V3i& c, const V3i& p) { V3i n = (b - a).cross(c - a); if (n.dot(p - a) != 0) return -1; int ax = domAxis(n); return ptTri2(drop(a, ax), drop(b, ax), drop(c, ax), drop(p, ax)); }
static bool segTri(const V3i* T, const V3i& p, const V3i& q) { // closed
    ll sa = orient(T[0], T[1], T[2], p), sb = orient(T[0], T[1], T[2], q);
    if (sg(sa) * sg(sb) > 0) return false;
    if (sa == 0 && sb == 0) { int ax = domAxis((T[1] - T[0]).cross(T[2] - T[0])); V3i A = drop(T[0], ax), B = drop(T[1], ax), Cc = drop(T[2], ax), P = drop(p, ax), Q = drop(q, ax);
        return ptTri2(A, B, Cc, P) >= 0 || ptTri2(A, B, Cc, Q) >= 0 || segInt2(A, B, P, Q) || segInt2(B, Cc, P, Q) || segInt2(Cc, A, P, Q); }
    int x = sg(orient(p, q, T[0], T[1])), y = sg(orient(p, q, T[1], T[2])), z = sg(orient(p, q, T[2], T[0])); return (x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0);
}
static double dTri(const P3& p, const P3& a, const P3& b, const P3& c) {
    V3l A = toL(a), u = toL(b) - A, v = toL(c) - A, w = toL(p) - A, n = cross(u, v); LD nn = dot(n, n), be = dot(cross(w, v), n) / nn, ga = dot(cross(u, w), n) / nn;
    if (be >= 0 && ga >= 0 && be + ga <= 1) return (double)(fabsl(dot(w, n)) / sqrtl(nn)); return std::min({dseg(p, a, b), dseg(p, b, c), dseg(p, c, a)}); }
SECTION("point-triangle", "all ordered non-degenerate triangles of a 3x3x2 lattice x every half-lattice point around: containment with class vertex/edge/inside, distance and nearest point; all vertex orders") {
    auto L = lattice(2, 2, 1), Q = lattice(6, 6, 4);
    for (auto& a : L) for (auto& b : L) for (auto& c : L) { if ((b - a).cross(c - a).n2() == 0) continue;
        if (!r.next([&] { return "triangle " + show(std::vector<V3i>{a, b, c}); })) continue;
        CGeoTriangle<R> t = tri(C(a), C(b), C(c)); V3i A = a * 2, B = b * 2, D = c * 2;
        for (auto& q0 : Q) { V3i q = q0 - V3i(1, 1, 1); P3 p(q.x * .5, q.y * .5, q.z * .5); int in = ptTri(A, B, D, q); bool vx = q == A || q == B || q == D;
            EIntersectionType w = in < 0 ? IT_NONE : vx ? IT_VERTEX : in == 0 ? IT_EDGE : IT_INTERNAL; CGeoIntersectionType ty; bool got = t.contains(p, ty, 1e-9); r.op(2);
            r.expect(got == (in >= 0) && ti(ty) == (int)w, "contains", "point (%g %g %g): %d type %d want %d", p.x(), p.y(), p.z(), got, ti(ty), (int)w);
            P3 f; double d; bool ok = t.distance(p, f, d, 1e-9); double e = dTri(p, C(a), C(b), C(c)); r.expect(ok && near(d, e, 1e-9) && near((f - p).norm(), e, 1e-9) && dTri(f, C(a), C(b), C(c)) < 1e-9, "distance", "point (%g %g %g): %g want %g", p.x(), p.y(), p.z(), d, e); r.outcome(w); }
        r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z).add(c.x + 3 * c.y + 9 * c.z)); r.trace(); }
}
SECTION("segment-triangle", "all ordered segments of a 3x3x3 lattice crossing or touching the plane x all non-degenerate triangles with increasing lattice index (quick: 3x3x2 lattice, thorough 3x3x3), fresh triangle objects: hit exactly when the closed segment meets the closed triangle, point on both") {
    auto L = lattice(2, 2, 2), T = r.thorough ? L : lattice(2, 2, 1);
    for (size_t i = 0; i < T.size(); ++i) for (size_t j = i + 1; j < T.size(); ++j) for (size_t k = j + 1; k < T.size(); ++k) { V3i t[3] = {T[i], T[j], T[k]}; V3i n = (t[1] - t[0]).cross(t[2] - t[0]); if (n.n2() == 0) continue;
        if (!r.next([&] { return "triangle " + show(std::vector<V3i>{t[0], t[1], t[2]}); })) continue;
        for (auto& p : L) for (auto& q : L) { ll sa = n.dot(p - t[0]), sb = n.dot(q - t[0]); if (sa == sb) continue; // parallel segments are reported as not crossing the plane
            CGeoTriangle<R> x = tri(C(t[0]), C(t[1]), C(t[2])); CGeoLine<R> l(C(p), C(q)); P3 z; CGeoIntersectionType ty; bool got = x.intersects(l, z, ty, 1e-9); r.op(); bool want = segTri(t, p, q);
            if (!r.expect(got == want, "hit", "segment %s got %d want %d", show(std::vector<V3i>{p, q}).c_str(), got, want)) break;
            if (got) { r.expect(dTri(z, C(t[0]), C(t[1]), C(t[2])) < 1e-8 && dseg(z, C(p), C(q)) < 1e-8, "point"); r.expect(ty == IT_VERTEX || ty == IT_EDGE || ty == IT_INTERNAL, "type"); } r.outcome(want); }
        r.state(Hash().add(i).add(j).add(k)); r.trace(); }
}
SECTION("triangle-triangle", "all pairs of non-degenerate triangles of a 3x3x2 lattice in both argument orders and orientations, corner orders in rotation (thorough: all 36): intersection is reported exactly when the closed triangles meet; coincident exactly when the vertices agree; vertex/edge contact only when nothing else meets") {
    auto T = lattice(2, 2, 1); std::vector<std::array<V3i, 3>> all;
    for (size_t i = 0; i < T.size(); ++i) for (size_t j = i + 1; j < T.size(); ++j) for (size_t k = j + 1; k < T.size(); ++k) if ((T[j] - T[i]).cross(T[k] - T[i]).n2()) all.push_back({{T[i], T[j], T[k]}});
    for (size_t i = 0; i < all.size(); ++i) {
        if (!r.next([&] { return "triangle " + show(std::vector<V3i>{all[i][0], all[i][1], all[i][2]}) + " against all"; })) continue;
        const V3i* A = all[i].data(); int pair = i;
        for (auto& o : all) { const V3i* B = o.data(); bool want = false; for (int k = 0; k < 3; ++k) want |= segTri(A, B[k], B[(k + 1) % 3]) || segTri(B, A[k], A[(k + 1) % 3]);
            int sh = 0; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) sh += A[k] == B[l];
            ++pair; for (int z = 0; z < (r.thorough ? 36 : 4); ++z) { // orders of the corners of both
            int f = z & 1, h = z >> 1 & 1, ra = r.thorough ? z / 4 % 3 : (pair + z / 3) % 3, rb = r.thorough ? z / 12 : (pair / 3 + z) % 3; auto turn = [&](const V3i* U, int k, int fl) { return fl ? tri(C(U[k]), C(U[(k + 2) % 3]), C(U[(k + 1) % 3])) : tri(C(U[k]), C(U[(k + 1) % 3]), C(U[(k + 2) % 3])); };
            CGeoTriangle<R> x = turn(A, ra, h), y = turn(B, rb, f); CGeoIntersectionType ty; bool got = x.intersects(y, ty, 1e-9); r.op();
            r.expect(got == want, "meet", "other %s flip %d: got %d type %d want %d", show(std::vector<V3i>{B[0], B[1], B[2]}).c_str(), f, got, ti(ty), want);
            if (got && want) { r.expect((ty == IT_COINCIDENT) == (sh == 3), "coincident", "other %s", show(std::vector<V3i>{B[0], B[1], B[2]}).c_str());
                // contact beyond the shared corners?
                if (sh <= 1) { bool more = false; // contact other than the one shared corner
                    if (sh == 0) more = true; else { V3i S; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) if (A[k] == B[l]) S = A[k];
                        // shrink test: the sides opposite to S decide, plus sides through S that run along the other triangle
                        auto opp = [&](const V3i* U, V3i& p, V3i& q) { int n = 0; for (int k = 0; k < 3; ++k) if (!(U[k] == S)) (n++ ? q : p) = U[k]; };
                        V3i a1, a2, b1, b2; opp(A, a1, a2); opp(B, b1, b2);
                        more = segTri(B, a1, a2) || segTri(A, b1, b2);
                        if (!more) { // overlap near S along a common ray: a side through S of one meets the other triangle in more than S, i.e. its direction lies in the other's cone at S
                            auto inCone = [&](const V3i& d, const V3i& e1, const V3i& e2) { V3i n = e1.cross(e2); if (n.dot(d)) return false; return n.dot(e1.cross(d)) >= 0 && n.dot(d.cross(e2)) >= 0; };
                            more = inCone(a1 - S, b1 - S, b2 - S) || inCone(a2 - S, b1 - S, b2 - S) || inCone(b1 - S, a1 - S, a2 - S) || inCone(b2 - S, a1 - S, a2 - S); } }
                    r.expect((ty == IT_INTERNAL) == more && (more || ty == IT_VERTEX), "kind", "other %s flip %d shared %d: type %d, contact beyond the corner %d", show(std::vector<V3i>{B[0], B[1], B[2]}).c_str(), f, sh, ti(ty), more); }
                if (sh == 2) r.expect(ty == IT_EDGE || ty == IT_SWAP || ty == IT_INTERNAL, "kind-edge");
                r.outcome(ti(ty)); } }
        }
        r.state(Hash().add(i)); r.trace();
    }
}
