// Two-phase flow: bounded fractions, uniform and still states, phase balance, and the flow step of the fraction-weighted mixture.
#include "piso.hpp"
#include "FvmVofSolver.hpp"
typedef CFvmVofSolver<R> Solver;
static Side wall(double u = 0, double v = 0, double w = 0) { return {BT_WALL_NO_SLIP, {u, v, w}, 0}; }
static Side inlet(double u, double v, double w) { return {BT_INLET_FLOW, {u, v, w}, 0}; }
static Side outlet() { return {BT_OUTLET, {0, 0, 0}, 0}; }
static Side pressure(double p) { return {BT_INLET_PRESSURE, {0, 0, 0}, p}; }
struct Fluids { double r0, m0, r1, m1; };
static const Fluids FL[3] = {{1, 0.02, 1, 0.02}, {1.2, 0.05, 3, 0.01}, {4, 0.02, 0.5, 0.3}};
static std::vector<std::vector<Side>> boundaries() {
    std::vector<std::vector<Side>> b(6, std::vector<Side>(6, wall()));
    b[1][3] = wall(0.8, 0, 0.2); b[2][0] = inlet(0.6, 0, 0); b[2][1] = outlet(); b[3][2] = inlet(0, 0.3, 0); b[3][1] = outlet(); b[3][0] = wall(0, -0.3, 0.1); b[4][4] = pressure(0.4); b[4][5] = outlet(); b[5][1] = inlet(-0.5, 0, 0); b[5][0] = pressure(0.1); return b;
}
struct Case { Mesh m; std::unique_ptr<CFvmMesh<R>> f; std::unique_ptr<Solver> s; Piso w; Fluids fl; };
static void start(Case& c, const MD& d, int scheme, const std::vector<Side>& sides, const Fluids& fl, const double* g, const std::vector<double>& s0, const double* sf, bool late) {
    c.m = mkMeshN(d, scheme); c.m.generateFaces(1e-6); c.f.reset(new CFvmMesh<R>(c.m)); c.s.reset(new Solver(*c.f)); c.w = pisoModel(c.m, *c.f); c.fl = fl;
    if (!late) c.s->setMaterialProperties(fl.r0, fl.m0, fl.r1, fl.m1);
    for (size_t i = 0; i < c.w.C.size(); ++i) c.s->setInitialGamma(c.w.C[i].id, s0[i % s0.size()]);
    if (late) c.s->setMaterialProperties(fl.r0, fl.m0, fl.r1, fl.m1);
    c.s->setGravity(g[0], g[1], g[2]); for (int k = 0; k < 3; ++k) c.w.g[k] = g[k]; pisoSides(c.w, *c.s, sides);
    for (int k = 0; k < 6; ++k) { std::vector<Integer> ids; for (auto& a : c.w.F) if (a.side == k) ids.push_back(a.id); if (k % 2) c.s->setBoundaryGamma(ids, (EBoundaryType)sides[k].type, sf[k]); else for (Integer i : ids) c.s->setBoundaryGamma(i, (EBoundaryType)sides[k].type, sf[k]); }
}
static void stepAndCheck(Run& r, Case& c, double dt, const double* sf, int step) {
    std::vector<double> s0; double before = 0, after = 0, through = 0, scale = 0; bool inside = true;
    for (auto& x : c.w.C) { double s = c.s->s(x.id); s0.push_back(s); before += s * x.vol; scale += x.vol; x.rho = (1 - s) * c.fl.r0 + s * c.fl.r1; x.mu = (1 - s) * c.fl.m0 + s * c.fl.m1; }
    c.w.dt = dt; c.w.step(); c.s->iterate(dt); r.op(); pisoCompare(r, *c.s, c.w, step, 1e-6);
    double want = 0, got = -1, a, b, d, p; size_t i = 0;
    for (auto& x : c.w.C) { double s = c.s->s(x.id); r.expect(s >= 0 && s <= 1, "bounded", "step %d cell %d: fraction %g", step, x.id, s); after += s * x.vol; if (s <= 1e-9 || s >= 1 - 1e-9) inside = false; want += (s - s0[i]) * (s - s0[i]); ++i; }
    for (auto& f : c.w.F) if (f.n < 0) { through -= dt * f.flux * sf[f.side]; r.expect(c.s->sf(f.id) == sf[f.side], "face"); }
    if (inside) r.expect(std::fabs(after - before - through) <= 1e-7 * scale, "phase-balance", "step %d: %g in the box instead of %g", step, after, before + through);
    c.s->residual(a, b, d, p, got); r.expect(std::fabs(got - want) <= 1e-9 + 1e-6 * want, "residual", "%g instead of %g", got, want);
    for (size_t k = 0; k < c.w.C.size(); ++k) { double q[3]; c.w.grad(k, [&](int j) { return c.s->s(c.w.C[j].id); }, [&](int f) { return sf[c.w.F[f].side]; }, q); auto v = c.s->grads(c.w.C[k].id); r.expect(std::fabs(v.x() - q[0]) + std::fabs(v.y() - q[1]) + std::fabs(v.z() - q[2]) <= 1e-8 * (1 + std::fabs(q[0]) + std::fabs(q[1]) + std::fabs(q[2])), "gradient", "cell %d", c.w.C[k].id); }
}
static void note(Run& r, Case& c) { Hash h; for (auto& x : c.w.C) h.addr(c.s->s(x.id)); r.outcome(h); r.trace(); }

SECTION("fractions", "every assignment of fractions 0, 1/2, 1 to the cells of 3 x 1 x 1, 2 x 2 x 1, prism and tetrahedral grids x 6 boundary cases x 3 pairs of fluids x 2 gravities, 3 (thorough 6) steps") {
    std::vector<MD> ms = {gridHex(3, 1, 1, 0.4, 0.5, 0.3, 0), gridHex(2, 2, 1, 0.5, 0.4, 0.3, 0), gridHex(2, 1, 1, 0.5, 0.5, 0.5, 2), gridHex(1, 1, 1, 1, 1, 1, 1)}; if (r.thorough) ms.push_back(gridHex(2, 1, 3, 0.4, 0.4, 0.4, 0));
    auto bs = boundaries(); double V[3] = {0, 0.5, 1};
    for (size_t k = 0; k < ms.size(); ++k) sequences(ms[k].e.size(), 3, [&](const std::vector<int>& q) {
        for (int b = 0; b < 6; ++b) for (int fl = 0; fl < 3; ++fl) for (int gv = 0; gv < 2; ++gv) {
            if (!r.thorough && ms[k].e.size() > 4 && (b + fl + gv + q[0] + q[1]) % 3) continue;
            if (!r.next([&] { return ms[k].name + " fractions " + show(q) + strf(" boundary %d fluids %d gravity %d", b, fl, gv); })) continue;
            r.state(Hash().add(k).adds(show(q)).add(b).add(fl).add(gv)); Case c; std::vector<double> s0; for (int i : q) s0.push_back(V[i]); double g[3] = {0.1 * gv, -0.5 * gv, 0.2 * gv}, sf[6] = {1, 0, 0.5, 0, 1, 0.25};
            start(c, ms[k], (q[0] + b) % 4, bs[b], FL[fl], g, s0, sf, fl % 2); for (int i = 1; i <= (r.thorough ? 6 : 3) && !r.failedNow(); ++i) stepAndCheck(r, c, i % 2 ? 0.05 : 0.02, sf, i); note(r, c); } });
}
SECTION("mixed", "every assignment of fractions 0.45, 0.5, 0.55 to the cells of 3 x 1 x 1, 2 x 2 x 1 and 2 x 1 x 2 grids x 6 boundary cases x 3 pairs of fluids: the amount of each phase changes by what crosses the boundary") {
    std::vector<MD> ms = {gridHex(3, 1, 1, 0.4, 0.5, 0.3, 0), gridHex(2, 2, 1, 0.5, 0.4, 0.3, 0), gridHex(2, 1, 2, 0.5, 0.5, 0.5, 0)}; auto bs = boundaries(); double V[3] = {0.45, 0.5, 0.55};
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) sequences(ms[k].e.size(), 3, [&](const std::vector<int>& q) {
        for (int b = 0; b < 6; ++b) for (int fl = 0; fl < 3; ++fl) {
            if (!r.thorough && (n + b + fl + q[0] + q[1]) % 2) continue;
            if (!r.next([&] { return ms[k].name + strf(" numbering %d", n) + " fractions " + show(q) + strf(" boundary %d fluids %d", b, fl); })) continue;
            r.state(Hash().add(k).add(n).adds(show(q)).add(b).add(fl)); Case c; std::vector<double> s0; for (int i : q) s0.push_back(V[i]); double g[3] = {0.05, 0, 0.1}, sf[6] = {0.5, 0.5, 0.55, 0.45, 0.5, 0.5};
            start(c, ms[k], n, bs[b], FL[fl], g, s0, sf, true); for (int i = 1; i <= (r.thorough ? 5 : 2) && !r.failedNow(); ++i) stepAndCheck(r, c, 0.02, sf, i); note(r, c); } });
}
SECTION("uniform", "5 grids x 4 numberings x 6 boundary cases x 3 pairs of fluids x fractions 0, 0.3, 0.5, 1: the same fraction everywhere and at the boundary stays as it is") {
    std::vector<MD> ms = {gridHex(3, 2, 1, 0.4, 0.5, 0.3, 0), gridHex(2, 2, 2, 0.5, 0.4, 0.3, 0), gridHex(2, 1, 1, 0.5, 0.5, 0.5, 2), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(1, 4, 1, 0.2, 0.2, 0.2, 0)}; auto bs = boundaries();
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) for (int b = 0; b < 6; ++b) for (int fl = 0; fl < 3; ++fl) for (double v : {0.0, 0.3, 0.5, 1.0}) {
        if (!r.next([&] { return ms[k].name + strf(" numbering %d boundary %d fluids %d fraction %g", n, b, fl, v); })) continue;
        r.state(Hash().add(k).add(n).add(b).add(fl).addd(v)); Case c; double g[3] = {0.1, -0.3, 0}, sf[6] = {v, v, v, v, v, v}; start(c, ms[k], n, bs[b], FL[fl], g, std::vector<double>(1, v), sf, false);
        for (int i = 1; i <= (r.thorough ? 8 : 4) && !r.failedNow(); ++i) { stepAndCheck(r, c, 0.03, sf, i); for (auto& x : c.w.C) r.expect(std::fabs(c.s->s(x.id) - v) < 1e-7, "uniform", "step %d cell %d: %.12g instead of %g", i, x.id, c.s->s(x.id), v); } note(r, c); }
}
SECTION("still", "every assignment of fractions 0, 0.3, 1 to the cells of 3 x 1 x 1, 2 x 2 x 1 and prism grids x 3 pairs of fluids, without forces: nothing changes") {
    std::vector<MD> ms = {gridHex(3, 1, 1, 0.4, 0.5, 0.3, 0), gridHex(2, 2, 1, 0.5, 0.4, 0.3, 0), gridHex(2, 1, 1, 0.5, 0.5, 0.5, 2)}; double V[3] = {0, 0.3, 1};
    for (size_t k = 0; k < ms.size(); ++k) sequences(ms[k].e.size(), 3, [&](const std::vector<int>& q) { for (int fl = 0; fl < 3; ++fl) for (int n = 0; n < 4; ++n) {
        if (!r.next([&] { return ms[k].name + " fractions " + show(q) + strf(" fluids %d numbering %d", fl, n); })) continue;
        r.state(Hash().add(k).adds(show(q)).add(fl).add(n)); Case c; std::vector<double> s0; for (int i : q) s0.push_back(V[i]); double g[3] = {0, 0, 0}, sf[6] = {1, 0, 0.5, 0, 1, 0}; start(c, ms[k], n, std::vector<Side>(6, wall()), FL[fl], g, s0, sf, false);
        for (int i = 1; i <= 3; ++i) { stepAndCheck(r, c, 0.1, sf, i); size_t j = 0; for (auto& x : c.w.C) { r.expect(std::fabs(c.s->s(x.id) - s0[j]) < 1e-12, "fraction"); r.expect(std::fabs(c.s->u(x.id)) + std::fabs(c.s->v(x.id)) + std::fabs(c.s->w(x.id)) < 1e-12, "velocity"); ++j; } } note(r, c); } });
}
