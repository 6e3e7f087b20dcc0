#include "geo.hpp"
// lattice of plane normals
static std::vector<V3i> normals(int m) { std::vector<V3i> v; for (int x = -m; x <= m; ++x) for (int y = -m; y <= m; ++y) for (int z = -m; z <= m; ++z) {
    if (!x && !y && !z) continue; int g = std::__gcd(std::__gcd(abs(x), abs(y)), abs(z)); if (g == 1) v.push_back(V3i(x, y, z)); } return v; }
// plane n.x = k/4 (integers), normalised
static CGeoPlane<R> plane(const V3i& n, ll k4) { double s = n.n(); CGeoNormal<R> m(n.x, n.y, n.z); return CGeoPlane<R>(m, (k4 / 4.0) / s); }
static const double TOL = 1e-9;

SECTION("lines", "all segments between distinct points of a 3x3x3 lattice against planes with 26+ lattice normals and quarter-integer offsets around the segment (through end points, beyond, between)") {
    auto L = lattice(2, 2, 2); auto N = normals(r.thorough ? 2 : 1);
    for (auto& n : N) for (auto& a : L) for (auto& b : L) {
        if (a == b) continue;
        ll na = n.dot(a), nb = n.dot(b), lo = std::min(na, nb), hi = std::max(na, nb);
        for (ll k = 4 * lo - 2; k <= 4 * hi + 2; ++k) {
            if (!r.next([&] { return "line " + show(std::vector<V3i>{a, b, n}) + strf(" d=%lld/4", k); })) continue;
            CGeoLine<R> l(C(a), C(b)); CGeoPlane<R> p = plane(n, k);
            CGeoLine<R> c = l.clip(p, TOL); c.calculateLength(); r.op();
            // exact kept part: parameter interval where na + t (nb-na) <= k/4
            double t0 = 0, t1 = 1; ll A = 4 * na - k, B = 4 * nb - k;
            if (A <= 0 && B <= 0) { if (A == 0 && B == 0) { continue; } } // wholly in the plane: either answer
            else if (A >= 0 && B >= 0) t0 = t1 = A <= 0 ? 0 : 1;
            else if (A < 0) t1 = (double)-A / (B - A); else t0 = (double)A / (A - B);
            double len = (b - a).n() * (t1 - t0);
            r.expect(near(c.length(), len, 1e-12), "length", "%g vs %g", c.length(), len);
            if (len > 0) {
                V3i d = b - a;
                r.expect(nearP(c.startPoint(), a.x + t0 * d.x, a.y + t0 * d.y, a.z + t0 * d.z) && nearP(c.endPoint(), a.x + t1 * d.x, a.y + t1 * d.y, a.z + t1 * d.z), "points");
            }
            r.expect(nearP(l.startPoint(), a.x, a.y, a.z) && nearP(l.endPoint(), b.x, b.y, b.z), "operand");
            r.state(Hash().add(a.x + 3 * a.y + 9 * a.z).add(b.x + 3 * b.y + 9 * b.z).add(n.x + 5 * n.y + 25 * n.z + 99).add(k)); r.outcome(Hash().addr(t1 - t0)); r.trace();
        }
    }
}

// checks one clipped polygon against the exact part
static void checkPart(Run& r, CGeoPolygon<R>& c, const std::vector<V3l>& whole, const std::vector<std::pair<V3l, LD>>& cuts, const V3i& refN, const char* tag) {
    std::vector<V3l> q = whole; for (auto& h : cuts) q = clipFaceL(q, h.first, h.second);
    double area = q.size() >= 3 ? (double)polyAreaL(q) : 0;
    c.calculateArea(true); r.op();
    int n = c.polyline().nbVertices();
    double got = n >= 3 ? c.area() : 0;
    r.expect(near(got, area, 1e-8), strf("area-%s", tag).c_str(), "%.12g vs %.12g", got, area);
    if (area > 1e-9) {
        r.expect(c.polyline().isClosed(1e-8), strf("closed-%s", tag).c_str());
        c.calculateNormal(true); r.expect(c.normal().x() * refN.x + c.normal().y() * refN.y + c.normal().z() * refN.z > 0, strf("orientation-%s", tag).c_str());
    }
    for (int i = 0; i < n; ++i) { V3l v = toL(c.polyline().vertex(i));
        for (auto& h : cuts) r.expect(dot(h.first, v) - h.second <= 1e-7, strf("side-%s", tag).c_str(), "vertex beyond plane by %Lg", dot(h.first, v) - h.second);
        // inside the original: distance to every side's inner half plane
        V3l nn = toL(refN);
        for (size_t k = 0; k < whole.size(); ++k) { V3l e = whole[(k + 1) % whole.size()] - whole[k]; r.expect(dot(cross(e, v - whole[k]), nn) >= -1e-7, strf("inside-%s", tag).c_str()); }
    }
}
SECTION("polygons", "all convex lattice polygons with 3..4 vertices (3x3 lattice, all starts/directions) in 4 planes, by planes with all 26 lattice normals and quarter offsets; each also by the reversed plane; then every second cut of a short list") {
    auto L = lattice(2, 2, 0); auto N = normals(1);
    std::vector<std::vector<V3i>> S;
    for (int n = 3; n <= (r.thorough ? 5 : 4); ++n) sequences(n, 9, [&](const std::vector<int>& s) {
        std::set<int> u(s.begin(), s.end()); if ((int)u.size() != n) return; std::vector<V3i> p; for (int i : s) p.push_back(L[i]);
        if (!r.thorough && s[0] != *std::min_element(s.begin(), s.end()) && n == 4) return; // quick: one start for quads
        if (simple2(p, false) && convex2(p)) S.push_back(p); });
    int embs[4] = {0, 1, 3, 5};
    for (auto& p : S) for (int e : embs) for (auto& n : N) {
        std::vector<V3i> q; for (auto& x : p) q.push_back(embeddings()[e].at(x));
        ll lo = 1e9, hi = -1e9; for (auto& x : q) { lo = std::min(lo, n.dot(x)); hi = std::max(hi, n.dot(x)); }
        if (lo == hi) continue; // parallel plane: nothing to cut (covered by the polyhedron section)
        for (ll k = 4 * lo - 2; k <= 4 * hi + 2; ++k) {
            if (!r.next([&] { return "polygon " + show(q) + " n=" + show(std::vector<V3i>{n}) + strf(" d=%lld/4", k); })) continue;
            CGeoPolygon<R> g = mkPoly(q); CGeoPlane<R> pl = plane(n, k);
            std::vector<V3l> w; for (auto& x : q) w.push_back(toL(x)); V3i nn; for (size_t i = 0; i < q.size(); ++i) nn = nn + q[i].cross(q[(i + 1) % q.size()]);
            V3l nl = toL(n); LD d = k / 4.0L;
            CGeoPolygon<R> c = g.clip(pl, TOL); r.op();
            checkPart(r, c, w, {{nl, d}}, nn, "cut");
            CGeoPlane<R> ip = pl; ip.invert(); CGeoPolygon<R> c2 = g.clip(ip, TOL); r.op();
            checkPart(r, c2, w, {{nl * -1, -d}}, nn, "reverse");
            if (c.polyline().nbVertices() > 3) for (auto& m : {V3i(1, 0, 0), V3i(0, -1, 1), V3i(1, 1, 1), V3i(-1, 2, 0)}) {
                ll mm = 0; for (auto& x : q) mm += m.dot(x); CGeoPlane<R> p2(CGeoNormal<R>(m.x, m.y, m.z), (double)mm / q.size() / m.n());
                if (m.cross(nn).n2() == 0) continue; // second plane parallel to the polygon
                CGeoPolygon<R> c3 = c.clip(p2, TOL); r.op();
                checkPart(r, c3, w, {{nl, d}, {toL(m), (LD)mm / q.size()}}, nn, "second");
            }
            CGeoPolygon<R> g2 = mkPoly(q); g.calculateArea(true); g2.calculateArea(); r.expect(near(g.area(), g2.area()), "operand");
            Hash h; for (auto& x : q) h.add(x.x + 50).add(x.y + 50).add(x.z + 50); r.state(h.add(n.x + 5 * n.y + 25 * n.z + 99).add(k)); c.calculateArea(true); r.outcome(Hash().addr(c.polyline().nbVertices() >= 3 ? c.area() : 0)); r.trace();
        }
    }
}

static void checkBody(Run& r, CGeoPolyhedron<R>& c, const Faces& F, const std::vector<std::pair<V3l, LD>>& cuts, double expectV, const char* tag) {
    c.calculateVolume(true); r.op();
    r.expect(near(c.volume(), expectV, 1e-8), strf("volume-%s", tag).c_str(), "%.12g vs %.12g", c.volume(), expectV);
    if (expectV > 1e-9) { std::string why; bool okc = closedPolyhedron(c, 1e-7, why); r.expect(okc, strf("closed-%s", tag).c_str(), "%s", why.c_str()); }
    for (int i = 0; i < c.nbPolygons(); ++i) { CGeoPolyline<R>& pl = c.polygon(c.polygonId(i)).polyline();
        for (int k = 0; k < pl.nbVertices(); ++k) { V3l v = toL(pl.vertex(k));
            for (auto& h : cuts) r.expect(dot(h.first, v) - h.second <= 1e-6, strf("side-%s", tag).c_str());
            for (auto& f : F) r.expect(dot(cross(f[1] - f[0], f[2] - f[0]), v - f[0]) <= 1e-6, strf("inside-%s", tag).c_str()); } }
}
static Faces cutFaces(const Faces& F, const V3l& n, LD d) { // exact clipped body incl. cap, for volumes of repeated cuts
    Faces G; std::vector<V3l> cap;
    for (auto& f : F) { auto q = clipFaceL(f, n, d); if (q.size() >= 3) G.push_back(q); }
    return G;
}
SECTION("bodies", "10 convex polyhedra (two placements: lattice, and scaled by 1/3 plus an irrational-looking shift) by planes with lattice normals and offsets at eighths of the extent including through every vertex, edge and face, beyond both ends; the reversed plane; then each of 6 second cuts and 3 third cuts") {
    auto N = normals(r.thorough ? 2 : 1); auto B = bodies();
    for (auto& b : B) for (int place = 0; place < 2; ++place) for (auto& n : N) {
        double sc = place ? 1.0 / 3 : 1; P3 sh = place ? P3(0.1, -0.7, 0.3) : P3(0, 0, 0);
        std::vector<double> D; ll lo = 1e9, hi = -1e9; std::set<ll> levels;
        for (auto& v : b.v) { ll x = n.dot(v); lo = std::min(lo, x); hi = std::max(hi, x); levels.insert(x); }
        std::set<double> ds; for (ll x : levels) ds.insert((double)x); for (int i = -1; i <= 9; ++i) ds.insert(lo + (hi - lo) * i / 8.0);
        for (double dd : ds) {
            if (!r.next([&] { return "body " + b.name + strf(" place=%d n=(%lld %lld %lld) d=%g", place, n.x, n.y, n.z, dd); })) continue;
            CGeoPolyhedron<R> h = mkBody(b, sc, sh); double nn = n.n();
            double off = (dd * sc + n.x * sh.x() + n.y * sh.y() + n.z * sh.z());
            CGeoPlane<R> pl(CGeoNormal<R>(n.x, n.y, n.z), off / nn);
            Faces F; for (auto& f : b.f) { std::vector<V3l> q; for (int i : f) q.push_back(toL(C(b.v[i], sc, sh))); F.push_back(q); }
            Faces F0 = facesOf(b); V3l nl = toL(n); double v = (double)clippedVolume(F0, nl, dd) * sc * sc * sc, V = vol6(b) / 6.0 * sc * sc * sc;
            CGeoPolygon<R> np; CGeoPolyhedron<R> c = h.clip(np, 99, pl, TOL); r.op();
            checkBody(r, c, F, {{nl, (LD)off}}, v, "cut");
            CGeoPlane<R> ip = pl; ip.invert(); CGeoPolygon<R> np2; CGeoPolyhedron<R> c2 = h.clip(np2, 7, ip, TOL); r.op();
            checkBody(r, c2, F, {{nl * -1, (LD)-off}}, V - v, "reverse");
            if (v > 1e-9 && v < V - 1e-9) { // section polygon: lies in the plane, outward normal = plane normal
                np.calculateArea(true); np.calculateNormal(true);
                r.expect(np.normal().dot(pl.normal()) > 1 - 1e-6, "cap-normal", "%g", (double)np.normal().dot(pl.normal()));
                for (int k = 0; k < np.polyline().nbVertices(); ++k) r.expect(pl.distance(np.polyline().vertex(k)) < 1e-7, "cap-in-plane");
                r.expect(c.containsPolygon(99), "cap-id");
            }
            // repeated cuts: exact volume by inclusion in long double
            if (v > 1e-6) for (auto& m : {V3i(1, 0, 0), V3i(0, -1, 1), V3i(1, 1, 1), V3i(-1, 2, 0), V3i(0, 0, -1), V3i(2, -1, 1)}) {
                if (m.cross(n).n2() == 0) continue;
                V3l mid = {0, 0, 0}; for (auto& x : b.v) mid = mid + toL(x); mid = mid * (1.0L / b.v.size());
                LD d2 = dot(toL(m), mid) + 0.171875L; // generic offset near the middle
                double off2 = (double)(d2 * sc + m.x * sh.x() + m.y * sh.y() + m.z * sh.z());
                CGeoPlane<R> p2(CGeoNormal<R>(m.x, m.y, m.z), off2 / m.n()); CGeoPolygon<R> n3;
                CGeoPolyhedron<R> c3 = c.clip(n3, 15, p2, TOL); r.op();
                // exact: clip body by (n,dd) with apex trick twice is awkward; use vol(A∩B) via faces of clipped body plus cap
                Faces G; { std::vector<V3l> cap; for (auto& f : F0) { auto q = clipFaceL(f, nl, dd); if (q.size() >= 3) G.push_back(q); for (auto& x : q) if (fabsl(dot(nl, x) - dd) < 1e-12L) cap.push_back(x); }
                    // order the cap points around their mean
                    if (cap.size() >= 3) { V3l o = {0, 0, 0}; for (auto& x : cap) o = o + x; o = o * (1.0L / cap.size()); V3l u = {0, 0, 0}; for (auto& x : cap) if (norm(x - o) > 1e-9L) { u = x - o; break; } V3l w = cross(nl, u); w = w * (norm(u) / norm(w));
                        std::sort(cap.begin(), cap.end(), [&](const V3l& s, const V3l& t) { return atan2l(dot(s - o, w), dot(s - o, u)) < atan2l(dot(t - o, w), dot(t - o, u)); });
                        bool faceInPlane = false; for (auto& f : F0) { bool all = true; for (auto& x : f) all &= fabsl(dot(nl, x) - dd) < 1e-12L; faceInPlane |= all; }
                        if (!faceInPlane) G.push_back(cap); } }
                double v3 = (double)clippedVolume(G, toL(m), d2) * sc * sc * sc;
                checkBody(r, c3, F, {{nl, (LD)off}, {toL(m), (LD)off2}}, v3, "second");
            }
            CGeoPolyhedron<R> h2 = mkBody(b, sc, sh); h.calculateVolume(true); h2.calculateVolume(); r.expect(near(h.volume(), h2.volume()) && h.nbPolygons() == h2.nbPolygons(), "operand");
            r.state(Hash().adds(b.name).add(place).add(n.x + 5 * n.y + 25 * n.z + 99).addd(dd)); r.outcome(Hash().addr(v)); r.trace();
        }
    }
}
