// Point indexes: hash grid and octree against brute force.
#include "geo.hpp"
#include "GeoHashGrid.hpp"
#include "GeoOctree.hpp"
struct Pt { P3 p; int id; };
typedef std::vector<Pt> Set;
static const double T2 = 1.0 / 3;
// query positions derived from the lattice
static std::vector<P3> queryPos(double s) {
    std::vector<P3> q; for (int x = 0; x <= 4; ++x) for (int y = 0; y <= 4; ++y) for (int z = 0; z <= 2; ++z) q.push_back(P3((x * .5 - .0) * s, (y * .5) * s, (z * 1.0 - 0.5) * s));
    q.push_back(P3(-50, 3, 1)); q.push_back(P3(1e9, -1e9, 0)); q.push_back(P3(50, 50, 50)); return q;
}
template <class T> static void checkGrid(Run& r, T& g, const Set& S, const std::vector<P3>& Q, const std::vector<double>& tols, const char* tag) {
    auto one = [&](const P3& q, double tol) {
        std::vector<int> got; g.find(got, q, tol); r.op();
        std::vector<int> want; bool border = false;
        for (auto& e : S) { LD dx = (LD)e.p.x() - q.x(), dy = (LD)e.p.y() - q.y(), dz = (LD)e.p.z() - q.z(); LD d = sqrtl(dx * dx + dy * dy + dz * dz); if (fabsl(d - tol) < 1e-13 * (1 + tol) && d != tol && tol > 0) border = true; if (d <= tol) want.push_back(e.id); }
        if (border) return; // the exact distance is within rounding of the tolerance
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        r.expect(got == want, tag, "query (%g %g %g) tol %g got %s want %s", q.x(), q.y(), q.z(), tol, show(got).c_str(), show(want).c_str());
        r.outcome(Hash().add(want.size()).add(S.size()));
    };
    for (auto& q : Q) for (double t : tols) one(q, t);
    std::set<std::array<double, 3>> seen;
    for (auto& e : S) { if (!seen.insert(std::array<double, 3>{{e.p.x(), e.p.y(), e.p.z()}}).second) continue; for (double t : {0.0, 1e-9, 1e-6, 0.1}) one(e.p, t); one(P3(e.p.x() + 1e-7, e.p.y() - 1e-7, e.p.z() + 1e-7), 1e-6); one(P3(e.p.x() - 1e-7, e.p.y() + 1e-7, e.p.z() - 1e-7), 1e-6); }
}
template <class T> static void checkTree(Run& r, T& g, const Set& S, const char* tag) {
    for (auto& e : S) {
        std::vector<int> got; g.find(got, e.p, 0.0); r.op(); std::sort(got.begin(), got.end());
        std::vector<int> want; for (auto& f : S) if ((f.p - e.p).norm() == 0) want.push_back(f.id); std::sort(want.begin(), want.end());
        r.expect(got == want, tag, "position (%g %g %g) got %d ids (first %d) want %d", e.p.x(), e.p.y(), e.p.z(), (int)got.size(), got.size() ? got[0] : -1, (int)want.size());
        got.clear(); g.find(got, e.p, 1e-9); std::sort(got.begin(), got.end()); r.expect(got == want, (std::string(tag) + "-tol").c_str(), "got %d want %d", (int)got.size(), (int)want.size());
        r.outcome(want.size());
    }
}
static void fill(CGeoHashGrid<R>& g, const Set& S) { for (auto& e : S) g.addGeometricObject(e.id, e.p); g.build(); }
static void fill(CGeoOctree<R>& g, const Set& S) { for (auto& e : S) g.addGeometricObject(e.id, e.p); g.build(); }
static int rid(int k) { return (k * 37 + 11) % 1009; }

// all subsets of small lattices
static void subsets(Run& r, bool hash) {
    struct L { const char* n; std::vector<V3i> v; double s; P3 t; };
    std::vector<L> ls = { {"3x3x1", lattice(2, 2, 0), 1, P3(0, 0, 0)}, {"2x2x2", lattice(1, 1, 1), 2, P3(0, 0, 0)}, {"3x1x3 shifted by thirds", lattice(2, 0, 2), T2, P3(10 + T2, -7, 1e-3)}, {"1x9x1 line", lattice(0, 8, 0), 0.1, P3(5, 0, 5)}, {"3x3x1 large offset", lattice(2, 2, 0), 1e-3, P3(1e5, 1e5, -1e5)} };
    std::vector<double> tols = {0, 1e-6, 0.3, 0.5, 1, 1.2, 3, 1e6};
    for (auto& l : ls) { int n = l.v.size(); for (int m = 0; m < (1 << n); ++m) {
        if (!r.next([&] { return std::string("subset of ") + l.n + strf(" mask %d", m); })) continue;
        Set S; for (int i = 0; i < n; ++i) if (m >> i & 1) S.push_back({C(l.v[i], l.s, l.t), rid(i)});
        std::vector<P3> Q; for (auto& q : queryPos(l.s)) Q.push_back(P3(q.x() + l.t.x(), q.y() + l.t.y(), q.z() + l.t.z()));
        if (hash) { CGeoHashGrid<R> g; fill(g, S); checkGrid(r, g, S, Q, tols, "grid"); }
        else if (S.size()) { CGeoOctree<R> g; fill(g, S); checkTree(r, g, S, "octree"); }
        r.state(Hash().adds(l.n).add(m)); r.trace();
    } }
}
SECTION("hashgrid-subsets", "every subset of 3x3x1, 2x2x2, 3x1x3, 1x9x1 point lattices (several scales/offsets) x 78 query positions x 8 tolerances + every stored point") { subsets(r, true); }
SECTION("octree-subsets", "every non-empty subset of the same lattices, queried at every stored position") { subsets(r, false); }

static void multi(Run& r, bool hash) {
    // repeated points: every multiset with multiplicities 0..3 on 5 points
    std::vector<V3i> v = {{0,0,0},{1,0,0},{0,2,0},{1,1,1},{-1,0,2}};
    sequences(5, 4, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "multiplicities " + show(s); })) return;
        Set S; int k = 0; for (int rep = 0; rep < 3; ++rep) for (int i = 0; i < 5; ++i) if (s[i] > rep) S.push_back({C(v[i]), rid(k++)});
        if (hash) { CGeoHashGrid<R> g; fill(g, S); checkGrid(r, g, S, queryPos(1), {0, 0.5, 1, 10}, "grid-multi"); }
        else if (S.size()) { CGeoOctree<R> g; fill(g, S); checkTree(r, g, S, "octree-multi"); }
        Hash h; for (int x : s) h.add(x); r.state(h); r.trace();
    });
}
SECTION("hashgrid-multisets", "all 4^5 multisets of five points (coincident points, single point, empty)") { multi(r, true); }
SECTION("octree-multisets", "all 4^5 multisets of five points") { multi(r, false); }

// histories: add / build / reset / query over several rounds
static Set family(int f, int n, int base) {
    Set S; for (int i = 0; i < n; ++i) { int k = i; P3 p;
        if (f == 0) p = P3(k % 3, k / 3 % 3, k / 9 % 3);
        else if (f == 1) p = P3(100 + (k % 5) * .25, -40 + (k / 5) * .25, 7);
        else if (f == 2) p = P3(-3, k * .01, 0);
        else p = P3(1, 1, 1);
        S.push_back({p, rid(base + i)}); }
    return S;
}
template <class T> static void hist(Run& r, int depth, bool hash) {
    // ops: 0..3 add family f; 4 build+check; 5 reset
    sequences(depth, 6, [&](const std::vector<int>& s) {
        if (!r.next([&] { return "history " + show(s) + " (0-3 add family, 4 build and check, 5 reset), then build and check"; })) return;
        T g; Set S; int k = 0;
        std::vector<P3> Q = queryPos(1); Q.push_back(P3(100.25, -40, 7)); Q.push_back(P3(101, -39.5, 7)); Q.push_back(P3(-3, .02, 0));
        std::vector<int> t = s; t.push_back(4);
        Hash h;
        for (int o : t) {
            if (o < 4) { for (auto& e : family(o, o == 0 ? 12 : 7, k)) { g.addGeometricObject(e.id, e.p); S.push_back(e); ++k; } r.op(); }
            else if (o == 5) { g.reset(); S.clear(); r.op(); }
            else { g.build(); r.op(); if (hash) checkGrid(r, *(CGeoHashGrid<R>*)(void*)&g, S, Q, {0, 0.25, 1, 200}, "grid-history"); else if (S.size()) checkTree(r, *(CGeoOctree<R>*)(void*)&g, S, "octree-history"); }
            h.add(o); r.state(h);
        }
        r.trace();
    });
}
SECTION("hashgrid-histories", "every sequence of depth 4 (thorough 6) over add-family(4)/build-and-check/reset, then build and check") { hist<CGeoHashGrid<R>>(r, r.thorough ? 6 : 4, true); }
SECTION("octree-histories", "every sequence of depth 4 (thorough 6) over add-family(4)/build-and-check/reset, then build and check") { hist<CGeoOctree<R>>(r, r.thorough ? 6 : 4, false); }

// large sets: the octree divides above 1000 points per cell, the grid grows with the cube root
static void large(Run& r, bool hash) {
    std::vector<std::vector<int>> cfg; // clusters: multiplicity per level
    for (int a : {1, 999, 1000, 1001, 1500}) for (int b : {0, 1, 1001, 1002}) for (int c : {0, 1, 1001}) for (int oct = 0; oct < 8; ++oct) cfg.push_back({a, b, c, oct});
    for (auto& c : cfg) {
        if (hash && c[3] > 1) continue;
        if (!r.next([&] { return "clusters (multiplicity inner, middle, outer, octant) " + show(c); })) continue;
        V3i o(c[3] & 1, c[3] >> 1 & 1, c[3] >> 2 & 1); Set S; int k = 0;
        auto at = [&](double t) { return P3(o.x ? 1 - t : t, o.y ? 1 - t : t, o.z ? 1 - t : t); };
        S.push_back({at(1), k++}); S.push_back({at(0), k++});
        for (int i = 0; i < c[0]; ++i) S.push_back({at(0.01), k++});                // innermost cluster
        for (int i = 0; i < c[1]; ++i) S.push_back({at(0.13 + 0.00001 * (i % 7)), k++});
        for (int i = 0; i < c[2]; ++i) S.push_back({P3(o.x ? 0.7 : 0.3, o.y ? 0.2 : 0.8, o.z ? 0.9 : 0.1), k++});
        for (int i = 0; i < 27; ++i) S.push_back({P3(i % 3 * .5, i / 3 % 3 * .5, i / 9 * .5), k++}); // on the dividing planes
        if (hash) { CGeoHashGrid<R> g; fill(g, S); checkGrid(r, g, S, {at(0.01), at(0.13), P3(.5, .5, .5), P3(.3, .8, .1)}, {0, 1e-4, 0.05, 0.3, 4}, "grid-large"); }
        else { CGeoOctree<R> g; fill(g, S); // query each distinct position once
            std::map<std::array<double, 3>, std::vector<int>> by; for (auto& e : S) by[{{e.p.x(), e.p.y(), e.p.z()}}].push_back(e.id);
            for (auto& e : by) { std::vector<int> got; P3 q(e.first[0], e.first[1], e.first[2]); g.find(got, q, 0.0); r.op(); std::sort(got.begin(), got.end()); std::sort(e.second.begin(), e.second.end());
                r.expect(got == e.second, "octree-large", "position (%g %g %g): got %d want %d", q.x(), q.y(), q.z(), (int)got.size(), (int)e.second.size()); r.outcome(got.size()); } }
        Hash h; for (int x : c) h.add(x); r.state(h); r.trace();
    }
}
SECTION("octree-large", "480 cluster configurations around the 1000-point split threshold: inner/middle/outer multiplicities x 8 octants, with points on the dividing planes") { large(r, false); }
SECTION("hashgrid-large", "the same configurations (2 octants) for the hash grid") { large(r, true); }
// complete lattices of growing size (cell counts 1..6 per axis)
SECTION("hashgrid-sizes", "complete n x m x k lattices, n,m,k in 1..6, three spacings: every stored point and every cell centre queried at tolerances around the spacing") {
    for (int n = 1; n <= 6; ++n) for (int m = 1; m <= 6; ++m) for (int k = 1; k <= (r.thorough ? 6 : 4); ++k) for (double s : {1.0, 0.1, 1.0 / 3}) {
        if (!r.next([&] { return strf("lattice %dx%dx%d spacing %g", n, m, k, s); })) continue;
        Set S; int id = 0; for (int z = 0; z < k; ++z) for (int y = 0; y < m; ++y) for (int x = 0; x < n; ++x) S.push_back({P3(x * s - 1, y * s, z * s + 2), rid(id++)});
        std::vector<P3> Q; for (int z = 0; z <= k; ++z) for (int y = 0; y <= m; ++y) for (int x = 0; x <= n; ++x) Q.push_back(P3((x - .5) * s - 1, (y - .5) * s, (z - .5) * s + 2));
        CGeoHashGrid<R> g; fill(g, S); checkGrid(r, g, S, Q, {0, 0.6 * s, 0.9 * s, 1.3 * s, 2.6 * s}, "grid-sizes"); r.state(Hash().add(n).add(m).add(k).addd(s)); r.trace();
    }
}
