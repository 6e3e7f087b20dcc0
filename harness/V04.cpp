// Temperature solver: every step against an independent dense model of upwind convection and conduction on the fluxes of the
// flow; maximum principle, uniform and linear states.
#include "piso.hpp"
#include "FvmTemperatureSolver.hpp"
typedef CFvmTemperatureSolver<R> Solver;
struct Heat { Piso w; std::vector<double> T, Tf; double k, c; };
static void heatStep(Heat& h) {
    Piso& w = h.w; w.step(); int N = w.C.size(); DM A = DM::Zero(N, N); DV b = DV::Zero(N);
    for (size_t f = 0; f < w.F.size(); ++f) { PFace& a = w.F[f]; double D = h.k * a.area / a.dist, q = h.c * a.flux * w.C[a.o].rho; int o = a.o, n = a.n;
        if (n >= 0) { A(o, o) += D; A(o, n) -= D; A(n, n) += D; A(n, o) -= D; int up = q > 0 ? o : n; A(o, up) += q; A(n, up) -= q; }
        else { A(o, o) += D; b[o] += D * h.Tf[f]; if (q > 0) A(o, o) += q; else b[o] -= q * h.Tf[f]; } }
    for (int c = 0; c < N; ++c) if (w.dt > 0) { double m = w.C[c].vol * h.c * w.C[c].rho / w.dt; A(c, c) += m; b[c] += m * h.T[c]; }
    DV t = A.fullPivLu().solve(b); for (int c = 0; c < N; ++c) h.T[c] = t[c];
}
static Side wall(double u = 0, double v = 0, double w = 0) { return {BT_WALL_NO_SLIP, {u, v, w}, 0}; }
static Side outlet() { return {BT_OUTLET, {0, 0, 0}, 0}; }
static Side pressure(double p) { return {BT_INLET_PRESSURE, {0, 0, 0}, p}; }
static Side along(int k, double v) { double n[3] = {0.03, 0.03, 0.03}; n[k / 2] = v; return {BT_INLET_FLOW, {n[0], n[1], n[2]}, 0}; }
static Side moving(int k, double t, double s) { double n[3] = {t, s, t}; n[k / 2] = 0; return wall(n[0], n[1], n[2]); }
static bool solvable(const std::vector<Side>& s) { bool in = false, open = false; for (auto& q : s) { in |= q.type == BT_INLET_FLOW; open |= q.type == BT_OUTLET || q.type == BT_INLET_PRESSURE; } return open || !in; }
static MD shift(MD d) { for (auto& p : d.p) p = P3(p.x() - 0.4, p.y() + 1.5, p.z() + 0.25); d.name += "-shift"; return d; }

struct Case { Mesh m; std::unique_ptr<CFvmMesh<R>> f; std::unique_ptr<Solver> s; Heat h; };
static void start(Case& c, const MD& d, int scheme, const std::vector<Side>& sides, const double* Ts, double rho, double mu, double k, double cp, const double* g) {
    c.m = mkMeshN(d, scheme); c.m.generateFaces(1e-6); c.f.reset(new CFvmMesh<R>(c.m)); c.s.reset(new Solver(*c.f)); c.h.w = pisoModel(c.m, *c.f); Piso& w = c.h.w; c.h.k = k; c.h.c = cp; c.h.T.assign(w.C.size(), 0); c.h.Tf.assign(w.F.size(), 0);
    c.s->setMaterialProperties(rho, mu, k, cp); for (auto& x : w.C) { x.rho = rho; x.mu = mu; } c.s->setGravity(g[0], g[1], g[2]); for (int i = 0; i < 3; ++i) w.g[i] = g[i];
    pisoSides(w, *c.s, sides);
    for (int i = 0; i < 6; ++i) { std::vector<Integer> ids; for (size_t f = 0; f < w.F.size(); ++f) if (w.F[f].side == i) { ids.push_back(w.F[f].id); c.h.Tf[f] = Ts[i]; } c.s->setBoundaryTemperature(ids, (EBoundaryType)sides[i].type, Ts[i]); }
}
static void stepAndCheck(Run& r, Case& c, double dt, int step, double tol = 1e-6) {
    double lo = 0, hi = 0; for (size_t f = 0; f < c.h.w.F.size(); ++f) if (c.h.w.F[f].n < 0) { lo = std::min(lo, c.h.Tf[f]); hi = std::max(hi, c.h.Tf[f]); } for (double t : c.h.T) { lo = std::min(lo, t); hi = std::max(hi, t); }
    std::vector<double> old = c.h.T; c.h.w.dt = dt; c.s->iterate(dt); heatStep(c.h); r.op(); double sc = std::max(1e-3, std::max(std::fabs(lo), std::fabs(hi))), want = 0;
    for (size_t i = 0; i < c.h.T.size(); ++i) { double t = c.s->T(c.h.w.C[i].id); r.expect(std::fabs(t - c.h.T[i]) <= tol * sc, "temperature", "step %d cell %d: %.12g instead of %.12g", step, c.h.w.C[i].id, t, c.h.T[i]);
        r.expect(t >= lo - 1e-6 * sc && t <= hi + 1e-6 * sc, "range", "step %d cell %d: %g outside [%g, %g]", step, c.h.w.C[i].id, t, lo, hi); want += (c.h.T[i] - old[i]) * (c.h.T[i] - old[i]); }
    for (size_t f = 0; f < c.h.w.F.size(); ++f) if (c.h.w.F[f].n < 0) r.expect(c.s->Tf(c.h.w.F[f].id) == c.h.Tf[f], "face");
    double a, b, d, p, T = -1; c.s->residual(a, b, d, p, T); r.expect(std::fabs(T - want) <= 1e-6 * sc * sc + 1e-4 * want, "residual", "%g instead of %g", T, want);
    for (size_t i = 0; i < c.h.T.size(); ++i) { double q[3]; c.h.w.grad(i, [&](int j) { return c.h.T[j]; }, [&](int f) { return c.h.Tf[f]; }, q); auto v = c.s->gradT(c.h.w.C[i].id); double e = std::fabs(v.x() - q[0]) + std::fabs(v.y() - q[1]) + std::fabs(v.z() - q[2]), s = std::fabs(q[0]) + std::fabs(q[1]) + std::fabs(q[2]); r.expect(e <= 1e-5 * (s + sc), "gradient", "cell %d", c.h.w.C[i].id); }
}
static void note(Run& r, Case& c) { Hash h; for (double t : c.h.T) h.addr(t); r.outcome(h); r.trace(); }
static const double G0[3] = {0, 0, 0}, TS[6] = {3, -1, 2, 5, 0.5, 1};

SECTION("assignments", "every assignment of wall, moving wall, inlet, outlet, prescribed pressure to the six sides of a 2 x 1 x 1 and a 2 x 2 x 1 box (outlets where there are inlets), different temperatures on the sides, 2 (thorough 6) steps") {
    for (int b = 0; b < 2; ++b) { MD d = shift(b ? gridHex(2, 2, 1, 0.5, 0.4, 0.3, 0) : gridHex(2, 1, 1, 0.5, 0.4, 0.3, 0));
    sequences(6, 5, [&](const std::vector<int>& q) {
        std::vector<Side> s; for (int k = 0; k < 6; ++k) s.push_back(q[k] == 0 ? wall() : q[k] == 1 ? moving(k, 0.2 + 0.1 * k, -0.1) : q[k] == 2 ? along(k, k % 2 ? -0.3 - 0.1 * k : 0.5 + 0.1 * k) : q[k] == 3 ? outlet() : pressure(0.3 * (k + 1)));
        if (!solvable(s)) return; if (!r.next([&] { return d.name + " sides " + show(q); })) return;
        r.state(Hash().add(b).adds(show(q))); Case c; double g[3] = {0.1, -0.3, 0.2}; start(c, d, (q[0] + q[3] + q[5]) % 4, s, TS, 1.2, 0.03, 0.4, 2.5, g); for (int i = 1; i <= (r.thorough ? 6 : 2) && !r.failedNow(); ++i) stepAndCheck(r, c, 0.05, i); note(r, c); }); }
}
SECTION("grids", "14 grids x 4 numberings x 5 boundary cases x 3 conductivities x 2 specific heats x 2 time steps, 3 (thorough 8) steps") {
    std::vector<MD> ms = {gridHex(1, 1, 1, 1, 1, 1, 0), gridHex(3, 1, 1, 0.4, 0.5, 0.6, 0), gridHex(1, 4, 1, 0.4, 0.5, 0.6, 0), gridHex(1, 1, 3, 0.4, 0.5, 0.3, 0), gridHex(2, 2, 1, 0.5, 0.5, 0.5, 0), gridHex(3, 2, 1, 0.5, 0.3, 0.7, 0), gridHex(2, 2, 2, 0.5, 0.4, 0.3, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 1, 1, 0.6, 0.5, 0.4, 1), gridHex(2, 1, 1, 0.5, 0.5, 0.5, 2), gridHex(2, 2, 1, 0.5, 0.6, 0.7, 2), gridHex(3, 1, 1, 0.5, 0.5, 0.5, 3), gridHex(3, 3, 1, 0.3, 0.3, 0.3, 0), gridHex(2, 3, 2, 0.3, 0.3, 0.4, 0)};
    std::vector<std::vector<Side>> bs(5, std::vector<Side>(6, wall())); bs[1][3] = wall(1, 0, 0.3); bs[2][0] = along(0, 0.5); bs[2][1] = outlet(); bs[3][4] = pressure(0.7); bs[3][5] = outlet(); bs[4][2] = along(2, 0.4); bs[4][1] = outlet(); bs[4][4] = pressure(0.2);
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) for (int b = 0; b < 5; ++b) for (double kc : {0.0, 0.05, 20.0}) for (double cp : {0.5, 1000.0}) for (double dt : {0.01, 0.1}) {
        if (!r.next([&] { return ms[k].name + strf(" numbering %d boundary %d conductivity %g specific heat %g step %g", n, b, kc, cp, dt); })) continue;
        r.state(Hash().add(k).add(n).add(b).addd(kc).addd(cp).addd(dt)); Case c; start(c, k % 2 ? shift(ms[k]) : ms[k], n, bs[b], TS, 1.5, 0.2, kc, cp, G0); for (int i = 1; i <= (r.thorough ? 8 : 3) && !r.failedNow(); ++i) stepAndCheck(r, c, dt, i); note(r, c); }
}
SECTION("histories", "every sequence of up to 4 (thorough 5) of: short step, long step, change one side's temperature, other material, gravity, move a wall, on a 2 x 1 x 2 grid, with a step at the end") {
    for (int n = 1; n <= (r.thorough ? 5 : 4); ++n) sequences(n, 7, [&](const std::vector<int>& q) {
        if (!r.next([&] { return "operations " + show(q); })) return; r.state(Hash().adds(show(q))); Case c; std::vector<Side> sd(6, wall()); sd[1] = wall(0, 0.3, 0); start(c, gridHex(2, 1, 2, 0.5, 0.4, 0.3, 0), n % 4, sd, TS, 1.5, 0.1, 0.3, 2, G0);
        int ma = 0, st = 0, gr = 0; double t = 3, wv = 0.3; std::vector<int> ops = q; ops.push_back(0); Piso& w = c.h.w;
        for (int o : ops) { r.op();
            if (o < 2) { stepAndCheck(r, c, o ? 0.5 : 0.02, ++st); if (r.failedNow()) break; }
            else if (o == 2 || o == 3) { int side = o == 2 ? 0 : 5; t = -t + 1; std::vector<Integer> ids; for (size_t f = 0; f < w.F.size(); ++f) if (w.F[f].side == side) { ids.push_back(w.F[f].id); c.h.Tf[f] = t; } c.s->setBoundaryTemperature(ids, BT_WALL_NO_SLIP, t); }
            else if (o == 4) { ma ^= 1; c.s->setMaterialProperties(ma ? 3 : 1.5, ma ? 0.05 : 0.1, ma ? 0.9 : 0.3, ma ? 0.7 : 2); for (auto& x : w.C) { x.rho = ma ? 3 : 1.5; x.mu = ma ? 0.05 : 0.1; } c.h.k = ma ? 0.9 : 0.3; c.h.c = ma ? 0.7 : 2; }
            else if (o == 5) { gr ^= 1; w.g[1] = gr ? -0.5 : 0; c.s->setGravity(0, w.g[1], 0); }
            else { wv = -wv; std::vector<Integer> ids; for (auto& a : w.F) if (a.side == 1) { ids.push_back(a.id); a.uf[0] = 0; a.uf[1] = wv; a.uf[2] = 0; } c.s->setBoundaryVelocity(ids, BT_WALL_NO_SLIP, 0, wv, 0); } }
        note(r, c); });
}
SECTION("linear", "8 box grids of unequal cells x 4 numberings x 27 lattice gradients x 2 offsets x 3 conductivities x steady, one huge step or many steps: fluid at rest with linear boundary temperatures takes on exactly the linear (or uniform) field") {
    std::vector<MD> ms = {gridHex(1, 1, 1, 1, 1, 1, 0), gridHex(4, 1, 1, 0.1, 1, 1, 0), gridHex(2, 2, 1, 0.5, 0.3, 0.7, 0), gridHex(2, 2, 2, 0.1, 0.2, 0.4, 0), gridHex(3, 2, 1, 2, 3, 5, 0), gridHex(1, 3, 3, 0.01, 0.02, 0.03, 0), gridHex(1, 1, 5, 100, 50, 20, 0), gridHex(3, 3, 2, 1, 1, 1, 0)};
    for (size_t k = 0; k < ms.size(); ++k) for (int n = 0; n < 4; ++n) for (auto& v : lattice(3, 3, 3)) for (double off : {0.0, -4.5}) for (double kc : {0.02, 1.0, 400.0}) for (int how = 0; how < 3; ++how) {
        if (!r.thorough && (n + v.x + v.y + how) % 2) continue;
        if (!r.next([&] { return ms[k].name + strf(" numbering %d gradient %d %d %d offset %g conductivity %g mode %d", n, v.x - 1, v.y - 1, v.z - 1, off, kc, how); })) continue;
        r.state(Hash().add(k).add(n).add(v.x).add(v.y).add(v.z).addd(off).addd(kc).add(how)); Case c; std::vector<Side> sd(6, wall()); start(c, shift(ms[k]), n, sd, TS, 2, 0.5, kc, 3, G0); Piso& w = c.h.w;
        double L = 0; for (int i = 0; i < 3; ++i) L = std::max(L, w.hi[i] - w.lo[i]); auto field = [&](const V3l& p) { return off + ((v.x - 1) * (double)p.x + (v.y - 1) * (double)p.y + (v.z - 1) * (double)p.z); };
        double sc = 1e-6; for (size_t f = 0; f < w.F.size(); ++f) if (w.F[f].n < 0) { c.h.Tf[f] = field(w.F[f].c); sc = std::max(sc, std::fabs(c.h.Tf[f])); std::vector<Integer> one(1, w.F[f].id); c.s->setBoundaryTemperature(one, BT_WALL_NO_SLIP, c.h.Tf[f]); }
        double tau = L * L * 6 / kc; if (how == 0) c.s->iterate(0); else if (how == 1) c.s->iterate(1e9 * tau); else for (int i = 0; i < 12; ++i) c.s->iterate(20 * tau); r.op();
        for (auto& x : w.C) { double t = c.s->T(x.id), want = field(x.c); r.expect(std::fabs(t - want) <= 1e-6 * sc, "linear", "cell %d: %.9g instead of %.9g", x.id, t, want); auto gr = c.s->gradT(x.id); (void)gr; }
        note(r, c); }
}
