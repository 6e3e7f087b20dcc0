// Fixed values, sources and their order on small meshes.
#include "pde.hpp"
static std::vector<std::pair<MD, int>> meshes() { // mesh and numbering scheme
    std::vector<std::pair<MD, int>> r; for (int n = 1; n <= 5; ++n) for (int s = 0; s < 4; s += n == 3 ? 1 : 3) r.push_back({gridLine(n, 0.5 + n), s});
    MD b = gridLine(4); b.name = "uneven line"; double x[5] = {0, 0.1, 0.5, 0.6, 2}; for (int i = 0; i < 5; ++i) b.p[i] = P3(x[i], 2 * x[i], -x[i]); r.push_back({b, 0}); r.push_back({b, 3});
    for (int s : {0, 2, 3}) { r.push_back({gridQuad(2, 1, 1, 0.5, 1), s}); r.push_back({gridQuad(2, 1, 1, 0.5, 0), s}); r.push_back({gridQuad(2, 1, 0.3, 0.5, 2), s}); r.push_back({gridHex(1, 1, 1, 1, 2, 0.5, 0), s}); r.push_back({gridHex(1, 1, 1, 1, 1, 1, 1), s}); }
    r.push_back({gridHex(1, 1, 1, 1, 1, 1, 2), 0});
    return r; }
static double valueAt(int w, int i) { return w == 0 ? 0 : w == 1 ? 1 + 2.5 * i : w == 2 ? (i & 1 ? -4 : 3) : 1; }
struct Case { int mesh, eq, mask, val, src, mode, order; };
static Sys system_(Field& T, int eq) { if (eq == 0) return laplacian<R>(T) = 0; if (eq == 1) return (R)7.5 * ddt<R>(T) - laplacian<R>(T) = 0; if (eq == 2) return laplacian<R>(T) = source<R>(T, 3.0); Sys k = (R)-2.0 * laplacian<R>(T); return k; }
// imposes the conditions in the given order; returns the solved field
static void go(Field& T, CPdeEquation<R>& e, int mode, int order, const std::vector<std::pair<int, double>>& fix, const std::vector<std::pair<int, double>>& src, double pf) {
    auto fx = [&](bool rev) { for (size_t k = 0; k < fix.size(); ++k) { auto& p = fix[rev ? fix.size() - 1 - k : k]; if (order == 3) { T.setFixedValue(p.first, 99.0); } T.setFixedValue(p.first, p.second); } };
    auto sx = [&](bool rev) { for (size_t k = 0; k < src.size(); ++k) { auto& p = src[rev ? src.size() - 1 - k : k]; if (order == 3) T.setSource(p.first, -77.0); T.setSource(p.first, p.second); } };
    auto imp = [&] { if (mode == 0) e.setElimination(T); else e.setPenaltyFactor(T, pf); };
    if (order == 0) { fx(false); sx(false); e.setSources(T); imp(); } else if (order == 1) { sx(true); fx(true); imp(); e.setSources(T); } else if (order == 2) { fx(true); imp(); sx(true); e.setSources(T); } else { sx(false); e.setSources(T); fx(true); imp(); }
    e.solve(T);
}
static void decide(Run& r, const Mesh& m, EDiscretMethod dm, ESimulationType st, const Case& c) {
    int n = m.nbNodes(); Field T = mkField(m, dm, st); for (int i = 0; i < n; ++i) T.u(i) = 0.5 * i - 1; std::vector<std::pair<int, double>> fix, src; std::vector<char> isF(n, 0); VX v = VX::Zero(n), s = VX::Zero(n);
    for (int i = 0; i < n; ++i) if (c.mask >> i & 1) { fix.push_back({i, valueAt(c.val, i)}); isF[i] = 1; v(i) = valueAt(c.val, i); }
    for (int i = 0; i < n; ++i) if (c.src == n + 1 || c.src == i + 1) { src.push_back({i, 1.5 - i}); s(i) = 1.5 - i; }
    Sys sy = system_(T, c.eq); CPdeEquation<R> e(sy); MX A = denseOf(sy); VX b = sy.vectorB + s; double pf = c.mode == 1 ? 1e3 : c.mode == 2 ? 1e6 : 1e9; pf *= std::max(1.0, maxAbs(A)); if (!r.expect(A.rows() == n && b.size() == n && A.cwiseAbs().minCoeff() >= 0 && b.allFinite(), "system")) return;
    go(T, e, c.mode, c.order, fix, src, pf); r.op(3 + fix.size() + src.size()); if (!r.expect(T.u.size() == n, "field-size", "%d of %d", (int)T.u.size(), n)) return;
    for (int i = 0; i < n; ++i) if (isF[i]) r.expect(T.u(i) == v(i), "fixed-value", "node %d: %.12g instead of %.12g", i, T.u(i), v(i));
    // reference: exact reduction
    std::vector<int> fr; for (int i = 0; i < n; ++i) if (!isF[i]) fr.push_back(i); int k = fr.size(); Hash h; if (k) { MX K(k, k); VX g(k); for (int i = 0; i < k; ++i) { g(i) = b(fr[i]); for (int j = 0; j < n; ++j) if (isF[j]) g(i) -= A(fr[i], j) * v(j); for (int j = 0; j < k; ++j) K(i, j) = A(fr[i], fr[j]); }
        VX x = K.fullPivLu().solve(g); double sc = 1 + x.cwiseAbs().maxCoeff() + v.cwiseAbs().maxCoeff(); double cond = maxAbs(K) * k * maxAbs(K.inverse()); double err = c.mode == 0 ? 0 : maxAbs(A) * n * (sc + maxAbs(b) / std::max(maxAbs(A), 1e-300)) / pf * (1 + cond) * 2;
        if (c.mode) { double full = std::max(1.0, maxAbs(A)); (void)full; }
        for (int i = 0; i < k; ++i) { r.expect(std::fabs(T.u(fr[i]) - x(i)) <= 1e-6 * sc + err, "free-value", "node %d: %.12g instead of %.12g (allowed penalty error %g)", fr[i], T.u(fr[i]), x(i), err); h.addr(x(i)); } }
    r.outcome(h); r.trace();
}
static void all(Run& r, EDiscretMethod dm, ESimulationType st, int neq, bool elim) {
    auto L = meshes(); for (size_t mi = 0; mi < L.size(); ++mi) { if (dm == DM_FDM && (L[mi].first.e[0].first != ET_BEAM || L[mi].second || L[mi].first.name == "uneven line")) continue; Mesh m = mkMeshN(L[mi].first, L[mi].second); if (dm == DM_FDM) m.setDx(L[mi].first.p[1].x()); int n = m.nbNodes();
        for (int eq = 0; eq < neq; ++eq) for (int mask = eq == 1 ? 0 : 1; mask < (1 << n); ++mask) for (int val = 0; val < 4; ++val) for (int src = 0; src <= n + 1; ++src) for (int mode = elim ? 0 : 1; mode < 4; ++mode) for (int order = 0; order < 4; ++order) {
            if (n > 4 && !r.thorough) { if ((val + src + mask) % 3) continue; if (n > 6 && (val + order + (mask >> 1) + mode) % 4) continue; }
            if (!r.next([&] { return L[mi].first.name + strf(" numbering %d equation %d fixed nodes %x values %d source %d mode %d order %d", L[mi].second, eq, mask, val, src, mode, order); })) continue;
            r.state(Hash().add(mi).add(eq).add(mask).add(val).add(src).add(mode).add(order)); decide(r, m, dm, st, {(int)mi, eq, mask, val, src, mode, order}); } } }
SECTION("elements", "finite elements, generic simulation: 24 mesh/numbering combinations (2..8 nodes) x 3 equations x every non-empty set of fixed nodes (all nodes included) x 4 value patterns x every source placement (none, one node, all) x elimination and three penalties x 4 orders of setting (thirds and twelfths of the larger meshes in quick)") { all(r, DM_FEM, ST_GENERIC, 4, true); }
SECTION("differences", "finite differences on lines of 2..6 nodes: the same with penalties") { all(r, DM_FDM, ST_GENERIC, 1, false); }
