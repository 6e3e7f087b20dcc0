// Incompressible flow: every step against an independent dense model of the projection scheme; mass balance, rest, hydrostatics.
#include "piso.hpp"
typedef CFvmPisoSolver<R> Solver;
static Side wall(double u = 0, double v = 0, double w = 0) { return {BT_WALL_NO_SLIP, {u, v, w}, 0}; }
static Side inlet(double u, double v, double w) { return {BT_INLET_FLOW, {u, v, w}, 0}; }
static Side outlet() { return {BT_OUTLET, {0, 0, 0}, 0}; }
static Side pressure(double p) { return {BT_INLET_PRESSURE, {0, 0, 0}, p}; }
static Side along(int k, double v, double t) { double n[3] = {t, t, t}; n[k / 2] = v; return inlet(n[0], n[1], n[2]); } // side k: normal velocity v, tangential t
static Side moving(int k, double t, double s) { double n[3] = {t, s, t}; n[k / 2] = 0; return wall(n[0], n[1], n[2]); }
static bool solvable(const std::vector<Side>& s) { bool in = false, open = false; for (auto& q : s) { in |= q.type == BT_INLET_FLOW; open |= q.type == BT_OUTLET || q.type == BT_INLET_PRESSURE; } return open || !in; }
static std::string names(const std::vector<Side>& s) { std::string t; for (auto& q : s) t += " " + sideName(q); return t; }
static MD shift(MD d) { for (auto& p : d.p) p = P3(p.x() - 0.4, p.y() + 1.5, p.z() + 0.25); d.name += "-shift"; return d; }

static void play(Run& r, const MD& d, int scheme, const std::vector<Side>& sides, double rho, double mu, double dt, const double* g, int steps, double tol = 1e-6) {
    Mesh m = mkMeshN(d, scheme); m.generateFaces(1e-6); CFvmMesh<R> f(m); Solver s(f); Piso w = pisoModel(m, f);
    s.setMaterialProperties(rho, mu); s.setGravity(g[0], g[1], g[2]); for (auto& c : w.C) { c.rho = rho; c.mu = mu; } for (int k = 0; k < 3; ++k) w.g[k] = g[k];
    pisoSides(w, s, sides); w.dt = dt; Hash h;
    for (int q = 1; q <= steps && !r.failedNow(); ++q) { s.iterate(dt); w.step(); r.op(); pisoCompare(r, s, w, q, tol);
        double ru = -1, rv = -1, rw = -1, rp = -1, wu = 0; s.residual(ru, rv, rw, rp); for (auto& c : w.C) wu += (c.u[0] - c.u0[0]) * (c.u[0] - c.u0[0]); r.expect(std::fabs(ru - wu) <= 1e-6 + 1e-4 * wu, "residual", "%g instead of %g", ru, wu); }
    for (auto& c : w.C) h.addr(c.u[0]).addr(c.u[1]).addr(c.p); r.outcome(h); r.trace();
}

SECTION("assignments", "every assignment of wall, moving wall, inlet, outlet, prescribed pressure to the six sides of a 2 x 1 x 1 and a 2 x 2 x 1 box, with an outlet where there is an inlet, 3 steps (thorough 8)") {
    for (int b = 0; b < 2; ++b) { MD d = shift(b ? gridHex(2, 2, 1, 0.5, 0.4, 0.3, 0) : gridHex(2, 1, 1, 0.5, 0.4, 0.3, 0));
    sequences(6, 5, [&](const std::vector<int>& q) {
        std::vector<Side> s; for (int k = 0; k < 6; ++k) s.push_back(q[k] == 0 ? wall() : q[k] == 1 ? moving(k, 0.2 + 0.1 * k, -0.1) : q[k] == 2 ? along(k, k % 2 ? -0.3 - 0.1 * k : 0.5 + 0.1 * k, 0.05) : q[k] == 3 ? outlet() : pressure(0.3 * (k + 1)));
        if (!solvable(s)) return; if (!r.next([&] { return d.name + names(s); })) return;
        r.state(Hash().add(b).adds(show(q))); double g[3] = {0.1, -0.3, 0.2}; play(r, d, (q[0] + q[3] + q[5]) % 4, s, 1.2, 0.03, 0.05, g, r.thorough ? 8 : 3); }); }
}
SECTION("grids", "14 grids (rows, plates, blocks of hexahedra, tetrahedra, prisms, mixed cells) x 4 numberings x 7 boundary cases x 2 fluids x 2 time steps x 2 gravities, 3 steps (thorough 8)") {
    std::vector<MD> ms = {gridHex(1, 1, 1, 1, 1, 1, 0), gridHex(3, 1, 1, 0.4, 0.5, 0.6, 0), gridHex(1, 4, 1, 0.4, 0.5, 0.6, 0), gridHex(1, 1, 3, 0.4, 0.5, 0.3, 0), gridHex(2, 2, 1, 0.5, 0.5, 0.5, 0), gridHex(3, 2, 1, 0.5, 0.3, 0.7, 0), gridHex(2, 2, 2, 0.5, 0.4, 0.3, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 1, 1, 0.6, 0.5, 0.4, 1), gridHex(2, 1, 1, 0.5, 0.5, 0.5, 2), gridHex(2, 2, 1, 0.5, 0.6, 0.7, 2), gridHex(3, 1, 1, 0.5, 0.5, 0.5, 3), gridHex(3, 3, 1, 0.3, 0.3, 0.3, 0), gridHex(2, 3, 2, 0.3, 0.3, 0.4, 0)};
    std::vector<std::vector<Side>> bs; for (int k = 0; k < 7; ++k) bs.push_back(std::vector<Side>(6, wall()));
    bs[1][3] = wall(1, 0, 0.3); bs[2][1] = wall(0, 0.5, 0); bs[2][0] = wall(0, -0.5, 0); bs[3][0] = inlet(0.5, 0, 0); bs[3][1] = outlet(); bs[4][4] = pressure(0.7); bs[4][5] = outlet(); bs[5][2] = inlet(0.1, 0.4, 0); bs[5][1] = outlet(); bs[5][4] = outlet(); bs[6][0] = pressure(2); bs[6][3] = pressure(1); bs[6][5] = inlet(0, 0, -0.2);
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) for (int b = 0; b < 7; ++b) for (int fl = 0; fl < 2; ++fl) for (int t = 0; t < 2; ++t) for (int gv = 0; gv < 2; ++gv) {
        MD d = k % 2 ? shift(ms[k]) : ms[k]; if (!r.next([&] { return d.name + strf(" numbering %d boundary %d fluid %d step %d gravity %d", n, b, fl, t, gv); })) continue;
        r.state(Hash().add(k).add(n).add(b).add(fl).add(t).add(gv)); double g[3] = {0.5 * gv, -1.0 * gv, 0.25 * gv}; play(r, d, n, bs[b], fl ? 1.1 : 3, fl ? 0.5 : 0.02, t ? 0.1 : 0.02, g, r.thorough ? 8 : 3); }
}
SECTION("histories", "every sequence of up to 5 (thorough 6) of: short step, long step, turn gravity, other fluid, move a wall, open or close a side, on a 2 x 1 x 2 and a prism grid, with a step at the end") {
    for (int b = 0; b < 2; ++b) for (int n = 1; n <= (r.thorough ? 6 : 5); ++n) sequences(n, 7, [&](const std::vector<int>& q) {
        if (!r.next([&] { return strf("grid %d operations ", b) + show(q); })) return; r.state(Hash().add(b).adds(show(q)));
        MD d = b ? gridHex(1, 1, 1, 0.5, 0.6, 0.7, 2) : gridHex(2, 1, 2, 0.5, 0.4, 0.3, 0); Mesh m = mkMeshN(d, (q[0] + n) % 4); m.generateFaces(1e-6); CFvmMesh<R> f(m); Solver s(f); Piso w = pisoModel(m, f);
        std::vector<Side> sd(6, wall()); sd[1] = wall(0, 0.1, 0.2); pisoSides(w, s, sd); double rho = 1.5, mu = 0.1; s.setMaterialProperties(rho, mu); int G = 0, fl = 0, step = 0; bool open = false; double wv = 0.1;
        for (auto& c : w.C) { c.rho = rho; c.mu = mu; }
        auto setSide = [&](int k, Side x) { std::vector<Integer> ids; for (auto& a : w.F) if (a.side == k) { ids.push_back(a.id); a.type = x.type; if (x.type == BT_OUTLET || x.type == BT_INLET_PRESSURE) a.pf = x.p; else for (int i = 0; i < 3; ++i) a.uf[i] = x.v[i]; } if (x.type == BT_OUTLET || x.type == BT_INLET_PRESSURE) s.setBoundaryPressure(ids, (EBoundaryType)x.type, x.p); else s.setBoundaryVelocity(ids, (EBoundaryType)x.type, x.v[0], x.v[1], x.v[2]); };
        std::vector<int> ops = q; ops.push_back(0);
        for (int o : ops) { r.op();
            if (o < 2) { w.dt = o ? 0.1 : 0.02; s.iterate(w.dt); w.step(); pisoCompare(r, s, w, ++step, 1e-6); if (r.failedNow()) break; }
            else if (o == 2) { G = (G + 1) % 4; w.g[0] = G == 1 ? 0.5 : 0; w.g[1] = G == 2 ? -0.4 : 0; w.g[2] = G == 3 ? 0.3 : 0; s.setGravity(w.g[0], w.g[1], w.g[2]); }
            else if (o == 3) { fl ^= 1; rho = fl ? 4 : 1.5; mu = fl ? 0.02 : 0.1; s.setMaterialProperties(rho, mu); for (auto& c : w.C) { c.rho = rho; c.mu = mu; } }
            else if (o == 4) { wv = -wv - 0.1; setSide(2, wall(wv, 0, -wv)); }
            else if (o == 5) { open = !open; setSide(4, open ? pressure(0.2) : wall(0, 0, 0)); }
            else setSide(5, open ? inlet(0, 0.1, -0.2) : wall(0.3, 0, 0)); if (!open && o == 5) setSide(5, wall(0, 0.2, 0)); }
        Hash h; for (auto& c : w.C) h.addr(c.u[0]).addr(c.u[1]).addr(c.p); r.outcome(h); r.trace(); });
}
SECTION("rest", "5 grids x 4 numberings x every assignment of wall, outlet, zero pressure, still inlet to pairs of opposite sides x 2 fluids: without forces nothing moves") {
    std::vector<MD> ms = {gridHex(2, 2, 2, 0.5, 0.4, 0.3, 0), gridHex(3, 1, 1, 1, 1, 1, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 1, 1, 1, 1, 1, 2), gridHex(1, 3, 2, 1, 1, 1, 0)};
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int c = 0; c < 4; ++c) for (int fl = 0; fl < 2; ++fl) {
        if (!r.next([&] { return ms[k].name + strf(" numbering %d sides %d %d %d fluid %d", n, a, b, c, fl); })) continue;
        r.state(Hash().add(k).add(n).add(a).add(b).add(c).add(fl)); Mesh m = mkMeshN(ms[k], n); m.generateFaces(1e-6); CFvmMesh<R> f(m); Solver s(f); Piso w = pisoModel(m, f); std::vector<Side> sd; for (int q : {a, b, c}) for (int i = 0; i < 2; ++i) sd.push_back(q == 0 ? wall() : q == 1 ? outlet() : q == 2 ? pressure(0) : inlet(0, 0, 0));
        s.setMaterialProperties(fl ? 1000 : 1, fl ? 0 : 0.1); s.setGravity(0, 0, 0); pisoSides(w, s, sd);
        for (int q = 0; q < 3; ++q) { s.iterate(0.1); r.op(); } for (auto& x : w.C) r.expect(std::fabs(s.u(x.id)) < 1e-12 && std::fabs(s.v(x.id)) < 1e-12 && std::fabs(s.w(x.id)) < 1e-12 && std::fabs(s.p(x.id)) < 1e-10, "rest", "cell %d moves at %g %g %g", x.id, s.u(x.id), s.v(x.id), s.w(x.id)); for (auto& x : w.F) r.expect(std::fabs(s.flux(x.id)) < 1e-12, "flux"); r.trace(); }
}
SECTION("hydrostatic", "6 box grids x 4 numberings x 26 directions of gravity x 3 densities x closed or open at one of six sides: after a step of the inviscid fluid pressures differ by density times gravity times distance and nothing flows through any face") {
    std::vector<MD> ms = {gridHex(2, 2, 2, 0.5, 0.4, 0.3, 0), gridHex(3, 1, 1, 1, 1, 1, 0), gridHex(1, 4, 1, 0.2, 0.2, 0.2, 0), gridHex(1, 3, 2, 1, 1, 1, 0), gridHex(3, 3, 1, 0.1, 0.2, 0.3, 0), gridHex(1, 1, 2, 10, 10, 10, 0)};
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) for (auto& v : lattice(3, 3, 3)) for (double rho : {0.8, 1.0, 1000.0}) for (int o = -1; o < 6; ++o) {
        if (v.x == 1 && v.y == 1 && v.z == 1) continue; double g[3] = {9.8 * (v.x - 1), 9.8 * (v.y - 1), 9.8 * (v.z - 1)};
        if (o >= 0) { bool ok = true; for (int i = 0; i < 3; ++i) if (i != o / 2 && g[i] != 0) ok = false; if (!ok) continue; } // an open side is level
        if (!r.next([&] { return ms[k].name + strf(" numbering %d gravity %g %g %g density %g open side %d", n, g[0], g[1], g[2], rho, o); })) continue;
        r.state(Hash().add(k).add(n).add(v.x).add(v.y).add(v.z).addd(rho).add(o + 1)); Mesh m = mkMeshN(ms[k], n); m.generateFaces(1e-6); CFvmMesh<R> f(m); Solver s(f); Piso w = pisoModel(m, f); std::vector<Side> sd(6, wall()); if (o >= 0) sd[o] = outlet();
        s.setMaterialProperties(rho, 0); s.setGravity(g[0], g[1], g[2]); pisoSides(w, s, sd); s.iterate(0.01); r.op();
        double sc = rho * 9.8 * 10, lev = 1e300; for (auto& a : w.F) { r.expect(std::fabs(s.flux(a.id)) < 1e-8 * a.area, "flux", "%g through face %d", s.flux(a.id), a.id);
            if (a.n >= 0) { V3l e = w.C[a.n].c - w.C[a.o].c; double want = rho * (g[0] * (double)e.x + g[1] * (double)e.y + g[2] * (double)e.z), got = s.p(w.C[a.n].id) - s.p(w.C[a.o].id); r.expect(std::fabs(want - got) < 1e-7 * sc, "pressure", "%g instead of %g", got, want); }
            else if (a.side == o) { V3l e = a.c - w.C[a.o].c; double want = -rho * (g[0] * (double)e.x + g[1] * (double)e.y + g[2] * (double)e.z); r.expect(std::fabs(s.p(w.C[a.o].id) - want) < 1e-7 * sc, "level", "%g instead of %g", s.p(w.C[a.o].id), want); } }
        for (auto& c : w.C) lev = std::min(lev, s.p(c.id)); if (o < 0) r.expect(std::fabs(lev) < 1e-9 * sc, "lowest", "%g", lev); r.outcome(Hash().addr(s.p(w.C[0].id))); r.trace(); }
}
