// Box indexes: R-tree (insert/remove) and alternating digital tree (insert/remove) against a plain map.
#include "geo.hpp"
#include "GeoRtree.hpp"
#include "GeoAdtree.hpp"
typedef std::array<double, 6> BX; // min xyz, max xyz
static CGeoBoundingBox<R> bb(const BX& b) { return CGeoBoundingBox<R>(b[0], b[1], b[2], b[3], b[4], b[5]); }
static bool hit(const BX& a, const BX& b) { for (int k = 0; k < 3; ++k) if (a[3 + k] < b[k] || a[k] > b[3 + k]) return false; return true; }
static std::string sb(const BX& b) { return strf("[%g %g %g|%g %g %g]", b[0], b[1], b[2], b[3], b[4], b[5]); }
static std::vector<std::pair<int,int>> ivals(int n) { std::vector<std::pair<int,int>> v; for (int a = 0; a <= n; ++a) for (int b = a; b <= n; ++b) v.push_back({a, b}); return v; }
// deterministic family: every axis interval combination is visited as k runs
static BX fam(int f, int k) {
    static auto I = ivals(6); int m = I.size(); // 28
    if (f == 0) { int a = k % m, b = (k * 5 + k / m) % m, c = (k * 9 + 3 + k / (m * m)) % m; return BX{{(double)I[a].first - 2, (double)I[b].first - 2, (double)I[c].first - 2, (double)I[a].second - 2, (double)I[b].second - 2, (double)I[c].second - 2}}; }
    if (f == 1) { double x = k % 7 - 2, y = (k / 7) % 7 - 2, z = (k / 49) % 7 - 2; return BX{{x, y, z, x, y, z}}; }                  // points
    if (f == 2) { double x = k % 7 - 2, y = (k / 7) % 7 - 2, z = (k / 49) % 7 - 2; return BX{{x, y, z, x + (k % 3 == 0) * .5, y + (k % 3 == 1) * .5, z + (k % 3 == 2) * .5}}; } // needles
    if (f == 3) { double s = 0.25 * (k % 9), t = (k / 9) % 4 * .5; return BX{{-s, -s, -s + t, s, s, s + t}}; }                        // nested, many equal
    double x = (k * 3) % 5 - 2, y = (k * 2) % 5 - 2; return BX{{x, y, 0, x + 1, y + 1, 0}};                                            // flat tiling, many equal
}
static const int NF = 5;
static const std::vector<BX>& queries() {
    static std::vector<BX> q;
    if (q.empty()) {
        q.push_back(BX{{-10, -10, -10, 10, 10, 10}}); q.push_back(BX{{20, 20, 20, 30, 30, 30}}); q.push_back(BX{{-10, -10, -10, -2, 10, 10}}); q.push_back(BX{{-10, -10, 4, 10, 10, 10}});
        for (int k = 0; k < 28; ++k) { BX b = fam(0, k * 11); q.push_back(b); }
        for (int k = 0; k < 12; ++k) { BX b = fam(1, k * 29); q.push_back(b); for (int j = 0; j < 6; ++j) b[j] += .25; q.push_back(b); }
    }
    return q;
}
typedef std::map<int, BX> Mod;
template <class T> static void verify(Run& r, T& t, const Mod& m, const char* tag) {
    for (auto& q : queries()) {
        std::vector<int> got; got.push_back(77777); // find() replaces earlier content
        t.find(got, bb(q)); r.op();
        std::vector<int> want; for (auto& e : m) if (hit(e.second, q)) want.push_back(e.first);
        std::sort(got.begin(), got.end()); got.erase(std::remove(got.begin(), got.end(), 77777), got.end());
        if (!r.expect(got == want, (std::string("query-") + tag).c_str(), "query %s got %s want %s", sb(q).c_str(), show(got).c_str(), show(want).c_str())) return;
        r.outcome(Hash().add(got.size()).add(m.size()));
    }
}
static u64 mh(const Mod& m) { Hash h; for (auto& e : m) { h.add(e.first); for (double d : e.second) h.addd(d); } return h; }

template <class T> static void initTree(T&) {}
static void initTree(CGeoAdtree<R>& t) { CGeoBoundingBox<R> b(-10, -10, -10, 10, 10, 10); t.set(b); }
static void del(CGeoRtree<R>& t, int id, const BX& b) { t.removeGeometricObject(id, bb(b)); }
static void del(CGeoAdtree<R>& t, int id, const BX&) { t.removeGeometricObject(id); }

template <class T> static void single(Run& r) {
    auto I = ivals(2); int m = I.size();
    for (int a = 0; a < m * m * m; ++a) {
        auto mk = [&](int k) { auto x = I[k % m], y = I[k / m % m], z = I[k / m / m]; return BX{{(double)x.first, (double)y.first, (double)z.first, (double)x.second, (double)y.second, (double)z.second}}; };
        BX A = mk(a);
        if (!r.next([&] { return "one box " + sb(A); })) continue;
        T t; initTree(t); t.addGeometricObject(5, bb(A)); t.build();
        for (int q = 0; q < m * m * m; ++q) {
            BX Q = mk(q); for (double e : {0.0, 0.25}) { BX Q2 = Q; for (int k = 0; k < 6; ++k) Q2[k] += e;
                std::vector<int> g; t.find(g, bb(Q2)); r.op();
                r.expect((g == std::vector<int>{5}) == hit(A, Q2) && g.size() <= 1, "single", "query %s got %d", sb(Q2).c_str(), (int)g.size()); r.outcome(g.size()); }
        }
        r.state(Hash().add(a)); r.trace();
    }
}
SECTION("rtree-single", "every box of the 3x3x3 lattice (degenerate ones included) against every query box, on and off the lattice") { single<CGeoRtree<R>>(r); }
SECTION("adtree-single", "as rtree-single for the alternating digital tree") { single<CGeoAdtree<R>>(r); }

// operation histories behind a preload
template <class T> static void histories(Run& r, int depth, bool reset) {
    int pre[] = {0, 7, 8, 9, 16, 40, 65};
    int nops = reset ? 7 : 6;
    for (int f = 0; f < NF; ++f) for (int p : pre) for (int d = 0; d <= depth; ++d) sequences(d, nops, [&](const std::vector<int>& s) {
        if (!r.next([&] { return strf("family %d preload %d ops ", f, p) + show(s) + " (0 insert next,1 insert next of other family,2 re-insert a removed box,3 remove oldest,4 remove newest,5 remove middle,6 reset)"; })) return;
        T t; initTree(t); Mod m; int k = 0; std::vector<int> order; auto id = [](int k) { return (k * 7) % 1009; };
        std::vector<BX> gone;
        auto ins = [&](const BX& b) { t.addGeometricObject(id(k), bb(b)); m[id(k)] = b; order.push_back(id(k)); ++k; r.op(); };
        auto rem = [&](size_t i) { if (order.empty()) return; int x = order[i]; del(t, x, m[x]); gone.push_back(m[x]); m.erase(x); order.erase(order.begin() + i); r.op(); };
        for (int i = 0; i < p; ++i) ins(fam(f, i));
        for (int o : s) switch (o) {
            case 0: ins(fam(f, k)); break;
            case 1: ins(fam((f + 1) % NF, k * 3)); break;
            case 2: if (gone.size()) { BX b = gone.back(); gone.pop_back(); ins(b); } break;
            case 3: rem(0); break;
            case 4: rem(order.size() - 1); break;
            case 5: rem(order.size() / 2); break;
            case 6: t.reset(); m.clear(); order.clear(); r.op(); break;
        }
        t.build();
        verify(r, t, m, "history"); verify(r, t, m, "repeat");
        r.state(Hash().add(mh(m)).add(p).add(d)); r.trace();
    });
}
SECTION("rtree-histories", "5 box families x preloads 0..65 (1-3 tree levels) x every operation sequence up to depth 4 (thorough 5) over 7 operations") { histories<CGeoRtree<R>>(r, r.thorough ? 5 : 4, true); }
SECTION("adtree-histories", "5 box families x preloads 0..65 x every operation sequence up to depth 4 (thorough 5) over 7 operations") { histories<CGeoAdtree<R>>(r, r.thorough ? 5 : 4, true); }

// fill to n, then drain completely in a fixed pattern, checking after every removal
template <class T> static void drain(Run& r, bool thorough) {
    std::vector<int> ns; for (int n = 1; n <= (thorough ? 80 : 24); ++n) ns.push_back(n);
    for (int n : {33, 64, 65, 73, 130}) ns.push_back(n); if (thorough) ns.push_back(600);
    for (int f = 0; f < NF; ++f) for (int n : ns) for (int step : {1, 2, 3, 5, 7, -1}) {
        if (!r.next([&] { return strf("family %d fill %d drain with stride %d", f, n, step); })) continue;
        T t; initTree(t); Mod m; std::vector<int> order;
        for (int i = 0; i < n; ++i) { t.addGeometricObject(1000 - i, bb(fam(f, i))); m[1000 - i] = fam(f, i); order.push_back(1000 - i); r.op(); }
        verify(r, t, m, "full"); r.state(mh(m));
        size_t pos = 0; int left = n;
        while (!order.empty()) {
            pos = step == -1 ? order.size() - 1 : (pos + step - 1) % order.size();
            int x = order[pos]; del(t, x, m[x]); m.erase(x); order.erase(order.begin() + pos); r.op(); --left;
            if (left < 30 || left % 7 == 0) verify(r, t, m, "drain"); r.state(mh(m));
            if (r.failedNow()) break;
        }
        // refill after the drain
        for (int i = 0; i < std::min(n, 20); ++i) { t.addGeometricObject(i, bb(fam(f, i + 3))); m[i] = fam(f, i + 3); }
        verify(r, t, m, "refill"); r.trace();
    }
}
SECTION("rtree-drain", "5 families x fill sizes (1..24, 33, 64, 65, 73, 130; thorough 1..80 and 600) x 6 removal orders, checked along the way, then refilled") { drain<CGeoRtree<R>>(r, r.thorough); }
SECTION("adtree-drain", "as rtree-drain for the alternating digital tree") { drain<CGeoAdtree<R>>(r, r.thorough); }

SECTION("rtree-orders", "every insertion order of 9 boxes (first fixed in quick: 8!; thorough 9!), forcing one node split, then removal of every box in insertion order") {
    permutations(9, [&](const std::vector<int>& p) {
        if (!r.thorough && p[0] != 0) return;
        if (!r.next([&] { return "order " + show(p); })) return;
        CGeoRtree<R> t; Mod m; for (int k : p) { BX b = fam(k % 2 ? 2 : 0, k * 17); t.addGeometricObject(k, bb(b)); m[k] = b; r.op(); }
        verify(r, t, m, "order"); for (int k : {p[0], p[4], p[8]}) { t.removeGeometricObject(k, bb(m[k])); m.erase(k); r.op(); }
        verify(r, t, m, "order-removed"); Hash h; for (int k : p) h.add(k); r.state(h); r.trace();
    });
}
