// Finite-difference operators on every small line grid.
#include "pde.hpp"
#include "MshBasicMesher.hpp"
static Field fdField(int n, double dx, ESimulationType st) { MD d = gridLine(n - 1, dx * (n - 1)); Mesh m = mkMesh(d); m.setDx(dx); return mkField(m, DM_FDM, st); }
static void fix(Field& T, int mask, int n, const std::function<double(int)>& v) { for (int i = 0; i < n; ++i) if (mask >> i & 1) T.setFixedValue(i, v(i)); }
static double pw(double x, int k) { return k <= 0 ? (k == 0) : std::pow(x, k); }
static const double DX[] = {1, 0.1, 0.25, 3, 1e-3, 40};
static bool shape(Run& r, const Sys& s, int n) { MX A = denseOf(s); return r.expect(A.rows() == n && A.cols() == n && s.vectorB.size() == n && A.allFinite() && s.vectorB.allFinite() && s.matrixType == MT_SPARSE, "shape", "%d x %d, right side %d", (int)A.rows(), (int)A.cols(), (int)s.vectorB.size()); }
SECTION("polynomials", "lines of 2..12 nodes x 6 spacings x generic and thermal x every set of fixed ends plus one fixed interior node x monomials 1 x x2 x3 about two origins: every interior row of the second derivative (to degree 3) and of the first derivative (to degree 2) is exact and carries no right-hand side, the second derivative annihilates constants in every row") {
    for (int n = 2; n <= 12; ++n) for (double dx : DX) for (int th = 0; th < 2; ++th) for (int ends = 0; ends < 8; ++ends) for (int k = 0; k < 4; ++k) for (double x0 : {0.0, -2.7}) {
        if (n < 3 && (ends & 4)) continue; if (!r.next([&] { return strf("%d nodes spacing %g %s fixed %d degree %d origin %g", n, dx, th ? "thermal" : "generic", ends, k, x0); })) continue;
        Field T = fdField(n, dx, th ? ST_THERMAL : ST_GENERIC); int mask = (ends & 1 ? 1 : 0) | (ends & 2 ? 1 << (n - 1) : 0) | (ends & 4 ? 1 << (n / 2) : 0); auto p = [&](int i) { return pw(x0 + i, k); }; fix(T, mask, n, p); VX u(n); for (int i = 0; i < n; ++i) u(i) = p(i); T.u = u;
        Sys L = laplacian<R>(T), D = divergence<R>(T); r.op(2); if (!shape(r, L, n) || !shape(r, D, n)) continue; VX lu = (denseOf(L) * u - L.vectorB) * dx * dx, du = (denseOf(D) * u - D.vectorB) * dx; double sc = 1 + u.cwiseAbs().maxCoeff();
        for (int i = 1; i < n - 1; ++i) { double x = x0 + i; r.expect(std::fabs(lu(i) - k * (k - 1) * pw(x, k - 2)) < 1e-9 * sc, "second-derivative", "node %d: %.12g", i, lu(i)); if (k < 3) r.expect(std::fabs(du(i) - k * pw(x, k - 1)) < 1e-9 * sc, "first-derivative", "node %d: %.12g", i, du(i)); r.expect(L.vectorB(i) == 0 && D.vectorB(i) == 0, "interior-right-side"); }
        if (k == 0) for (int i = 0; i < n; ++i) r.expect(std::fabs(lu(i)) < 1e-9, "constant", "node %d: %.12g", i, lu(i));
        r.expect(T.u == u && (int)T.uFixed.size() == __builtin_popcount(mask), "field-changed"); Sys L2 = laplacian<R>(T), D2 = divergence<R>(T); r.expect(denseOf(L2) == denseOf(L) && L2.vectorB == L.vectorB && denseOf(D2) == denseOf(D) && D2.vectorB == D.vectorB, "repeat");
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (std::abs(i - j) > 1) r.expect(denseOf(L)(i, j) == 0 && denseOf(D)(i, j) == 0, "stencil");
        r.state(Hash().add(n).addd(dx).add(th).add(ends).add(k).addd(x0)); Hash h; for (int i = 0; i < n; ++i) h.addr(lu(i)); r.outcome(h); r.trace(); }
}
SECTION("ends", "the end rows: a free end mirrors its neighbour, a fixed end sees its value one spacing outside; both simulation types, every pair of end states, every pattern of 3 values for lines of 2..5 nodes") {
    for (int n = 2; n <= 5; ++n) for (int th = 0; th < 2; ++th) for (int mask = 0; mask < 4; ++mask) for (double dx : {0.5, 0.1}) sequences(n, 3, [&](const std::vector<int>& q) { if (!r.next([&] { return strf("%d nodes %d fixed %d spacing %g values ", n, th, mask, dx) + show(q); })) return;
        Field T = fdField(n, dx, th ? ST_THERMAL : ST_GENERIC); double v[3] = {0, 1, -2.5}; VX u(n); for (int i = 0; i < n; ++i) u(i) = v[q[i]]; T.u = u; double f0 = 4, f1 = -3; if (mask & 1) T.setFixedValue(0, f0); if (mask & 2) T.setFixedValue(n - 1, f1); Sys L = laplacian<R>(T); r.op(); if (!shape(r, L, n)) return; VX lu = (denseOf(L) * u - L.vectorB) * dx * dx;
        double w0 = u(1) - u(0) + (mask & 1 ? f0 - u(0) : 0), w1 = u(n - 2) - u(n - 1) + (mask & 2 ? f1 - u(n - 1) : 0); r.expect(near(lu(0), w0) && near(lu(n - 1), w1), "end-row", "%.12g %.12g instead of %.12g %.12g", lu(0), lu(n - 1), w0, w1); r.state(Hash().add(n).add(th).add(mask).addd(dx).adds(show(q))); r.trace(); });
}
SECTION("time", "lines of 2..6 nodes x both types x every set of fixed nodes x 3 value patterns: the time operator is the difference between new and old value, the old value of a fixed node being its fixed value") {
    for (int n = 2; n <= 6; ++n) for (int th = 0; th < 2; ++th) for (int mask = 0; mask < (1 << n); ++mask) for (int w = 0; w < 3; ++w) for (double dx : {1.0, 0.01}) { if (!r.next([&] { return strf("%d nodes %d fixed %x values %d spacing %g", n, th, mask, w, dx); })) continue;
        Field T = fdField(n, dx, th ? ST_THERMAL : ST_GENERIC); VX u(n), o(n), nw(n); for (int i = 0; i < n; ++i) { u(i) = w == 0 ? 0 : w == 1 ? i - 1.5 : (i * 7 % 5) * 1e3; nw(i) = 2.5 - i * i; o(i) = mask >> i & 1 ? 10 + i : u(i); } T.u = u; fix(T, mask, n, [&](int i) { return 10.0 + i; }); Sys s = ddt<R>(T); r.op(); if (!shape(r, s, n)) continue; VX d = denseOf(s) * nw - s.vectorB; for (int i = 0; i < n; ++i) r.expect(near(d(i), nw(i) - o(i), 1e-12), "difference", "node %d: %.12g", i, d(i)); r.expect(T.u == u, "field-changed"); r.state(Hash().add(n).add(th).add(mask).add(w).addd(dx)); r.trace(); }
}
SECTION("mesher", "grids generated on lines of 6 directions x 1..20 cells x 4 lengths: spacing is the distance of neighbouring nodes, steady conduction between fixed ends is linear and an implicit step equals the dense solution") {
    for (auto& d : std::vector<V3i>{{1, 0, 0}, {0, 1, 0}, {0, 0, -1}, {1, 1, 0}, {-1, 2, 2}, {3, 0, -4}}) for (int nc = 1; nc <= 20; ++nc) for (double len : {1.0, 0.01, 7.0, 250.0}) for (int th = 0; th < 2; ++th) { if (!r.next([&] { return strf("direction %d %d %d, %d cells, length %g, %d", (int)d.x, (int)d.y, (int)d.z, nc, len, th); })) continue;
        double L = d.n(); CGeoCoordinate<R> a(0.3, -2, 1), b(0.3 + len * d.x / L, -2 + len * d.y / L, 1 + len * d.z / L); CGeoLine<R> ln(a, b); ENigMA::mesh::CMshBasicMesher<R> bm; bm.generate(ln, nc); Mesh m = bm.mesh(); int n = m.nbNodes(); if (!r.expect(n == nc + 1, "nodes")) continue; Field T = mkField(m, DM_FDM, th ? ST_THERMAL : ST_GENERIC); double h = len / nc; for (int i = 0; i + 1 < n; ++i) r.expect(near(norm(toL(P3(m.node(m.nodeId(i + 1)))) - toL(P3(m.node(m.nodeId(i)))) ) / h, 1, 1e-9) , "order"); r.expect(near(m.dx() / h, 1, 1e-9), "spacing");
        VX u(n); for (int i = 0; i < n; ++i) { u(i) = (i * 37 % 11) - 4; } T.u = u; T.setFixedValue(0, 2.0); T.setFixedValue(n - 1, -1.0); double c = 3 / (h * h); CPdeEquation<R> e((R)c * ddt<R>(T) - laplacian<R>(T) = 0); MX A = denseOf(e.system()); VX bb = e.system().vectorB; double pf = 1e6 * c; for (int i : {0, n - 1}) { A.row(i)(i) = pf; bb(i) = pf * (i ? -1.0 : 2.0); } e.setPenaltyFactor(T, pf); e.solve(T); VX x = A.fullPivLu().solve(bb); for (int i = 0; i < n; ++i) r.expect(std::fabs(T.u(i) - x(i)) < 1e-5, "implicit-step", "node %d: %.10g instead of %.10g", i, T.u(i), x(i));
        for (int i = 0; i < n; ++i) { double g = 2 - 3.0 * i / nc; T.u(i) = g; } CPdeEquation<R> e2(laplacian<R>(T) = 0); e2.setPenaltyFactor(T, 1e7 / (h * h)); T.u.setZero(); e2.solve(T); for (int i = 0; i < n; ++i) r.expect(std::fabs(T.u(i) - (2 - 3.0 * i / nc)) < 2e-4, "steady-linear", "node %d: %.10g instead of %.10g", i, T.u(i), 2 - 3.0 * i / nc); r.op(3); r.state(Hash().add(d.x).add(d.y).add(d.z).add(nc).addd(len).add(th)); r.outcome(Hash().addr(x(n / 2))); r.trace(); }
}
