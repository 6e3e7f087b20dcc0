// Fractional-step finite-element flow: every step against an independent dense model of the splitting; rest, hydrostatics, similarity.
#include "pde.hpp"
#include "fem.hpp"
#include "FemCbsSolver.hpp"
using namespace ENigMA::fem;
template <int D> struct Api;
template <> struct Api<2> { typedef CFemCbsSolver<R, 2> S; static void gravity(S& s, const double* g) { s.setGravity(g[0], g[1]); } static Field& c(S& s, int k) { return k ? s.v() : s.u(); } };
template <> struct Api<3> { typedef CFemCbsSolver<R, 3> S; static void gravity(S& s, const double* g) { s.setGravity(g[0], g[1], g[2]); } static Field& c(S& s, int k) { return k == 0 ? s.u() : k == 1 ? s.v() : s.w(); } };
// The splitting on linear simplices: (M/dt + nu K + W(u)) u* = M (u/dt + g); K p = -rho/dt div u*; M u = M u* - dt/rho grad p. Components in turn, fixed values in every stage.
struct Model {
    int D, N; std::vector<P3> x; std::vector<std::vector<int>> e; struct El { double m; MX G, M; }; std::vector<El> q; MX M, K, G[3]; VX c[3], p; std::map<int, double> fc[3], fp; double rho = 1, mu = 1, g[3] = {0, 0, 0};
    Model(const Mesh& m, int d) : D(d), N(m.nbNodes()) { for (int i = 0; i < N; ++i) x.push_back(m.node(m.nodeId(i))); M = K = MX::Zero(N, N); for (int k = 0; k < 3; ++k) { G[k] = MX::Zero(N, N); c[k] = VX::Zero(N); } p = VX::Zero(N);
        for (int i = 0; i < m.nbElements(); ++i) { std::vector<int> v; for (int id : nodesOf(m.element(m.elementId(i)))) for (int k = 0; k < N; ++k) if (m.nodeId(k) == id) v.push_back(k); e.push_back(v); int n = d + 1; MX A(n, n); for (int j = 0; j < n; ++j) { A(0, j) = 1; A(1, j) = x[v[j]].x(); A(2, j) = x[v[j]].y(); if (d == 3) A(3, j) = x[v[j]].z(); }
            El t; t.m = std::fabs(A.determinant()) / (d == 2 ? 2 : 6); t.G = A.inverse().rightCols(d).transpose(); t.M = (MX::Ones(n, n) + MX::Identity(n, n)) * t.m / ((d + 1) * (d + 2)); q.push_back(t);
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { M(v[a], v[b]) += t.M(a, b); K(v[a], v[b]) += t.m * t.G.col(a).dot(t.G.col(b)); for (int k = 0; k < d; ++k) G[k](v[a], v[b]) += t.m / n * t.G(k, b); } } }
    MX convection(double dt) const { MX W = MX::Zero(N, N); for (size_t i = 0; i < e.size(); ++i) { int n = D + 1; MX U(D, n); for (int a = 0; a < n; ++a) for (int k = 0; k < D; ++k) U(k, a) = c[k](e[i][a]); VX s = q[i].G.transpose() * U.rowwise().mean(); MX C = q[i].M * (U.transpose() * q[i].G) - 0.5 * dt * q[i].m * s * s.transpose(); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) W(e[i][a], e[i][b]) += C(a, b); } return W; }
    double worst = 0; // conditioning of the stages: errors of the solves grow with it
    VX solve(MX A, VX b, const std::map<int, double>& f) { for (auto& w : f) { A.row(w.first).setZero(); A(w.first, w.first) = 1; b(w.first) = w.second; } Eigen::PartialPivLU<MX> lu(A); worst = std::max(worst, maxA(lu.inverse()) * maxA(A)); return lu.solve(b); }
    void step(double dt) { VX one = VX::Ones(N); for (int k = 0; k < D; ++k) c[k] = solve(M / dt + mu / rho * K + convection(dt), M * (c[k] / dt + g[k] * one), fc[k]); VX d = VX::Zero(N); for (int k = 0; k < D; ++k) d += G[k] * c[k]; p = solve(-K, rho / dt * d, fp); for (int k = 0; k < D; ++k) c[k] = solve(M, M * c[k] - dt / rho * (G[k] * p), fc[k]); }
    double speed() const { double s = 0; for (int k = 0; k < D; ++k) s = std::max(s, maxA(c[k])); return s; } };
static MD box(int D, const int* n, const double* L, double taper) { MD d = D == 2 ? gridQuad(n[0], n[1], L[0] / n[0], L[1] / n[1], 1) : gridHex(n[0], n[1], n[2], L[0] / n[0], L[1] / n[1], L[2] / n[2], 1); if (taper) for (auto& p : d.p) { double t = p.y() / L[1]; p.x() += taper * p.x() * (L[0] - p.x()) / L[0]; p.y() += taper * 0.5 * t * (L[1] - p.y()); } return d; }
enum Kind { NOSLIP, SLIP, DRIVEN, OPEN };
template <int D> static void fix(Run& r, typename Api<D>::S& s, Model& w, const double* L, const std::vector<int>& side, double speed) {
    bool open = false; for (size_t k = 0; k < side.size(); ++k) for (int i = 0; i < w.N; ++i) { int a = k / 2; double X = w.x[i](a); if (std::fabs(X - (k % 2 ? L[a] : 0)) > 1e-9) continue; auto set = [&](int c, double v) { Api<D>::c(s, c).setFixedValue(i, v); w.fc[c][i] = v; };
        if (side[k] == NOSLIP) for (int c = 0; c < D; ++c) set(c, 0); else if (side[k] == SLIP) set(a, 0); else if (side[k] == DRIVEN) for (int c = 0; c < D; ++c) set(c, c == (a + 1) % D ? speed : c == a ? (k % 2 ? 0.25 : 0.5) * speed : 0); else { s.p().setFixedValue(i, 0); w.fp[i] = 0; open = true; } }
    if (!open) { s.p().setFixedValue(w.N - 1, 0.75); w.fp[w.N - 1] = 0.75; } }
template <int D> static void start(typename Api<D>::S& s, Model& w, int kind, double v) { for (int i = 0; i < w.N; ++i) { for (int c = 0; c < D; ++c) { double a = w.x[i]((c + 1) % D), b = kind == 0 ? 0 : kind == 1 ? v : kind == 2 ? v * a : v * (c % 2 ? -1 : 1) * (a - 0.4); Api<D>::c(s, c).setValue(i, b); w.c[c](i) = b; } s.p().setValue(i, 0); } }
template <int D> static void compare(Run& r, typename Api<D>::S& s, const Model& w, int q, double dt) { double S = 1e-9, T = 1e-6; for (int k = 0; k < D; ++k) S = std::max(S, maxA(w.c[k])); for (int k = 0; k < D; ++k) { const VX& u = Api<D>::c(s, k).u; if (!r.expect(u.size() == w.N && u.allFinite(), "finite", "step %d", q)) return; r.expect(maxA(u - w.c[k]) <= T * S, "velocity", "step %d component %d: off by %g of %g", q, k, maxA(u - w.c[k]), S); for (auto& f : w.fc[k]) r.expect(std::fabs(u(f.first) - f.second) <= 1e-9 * (S + 1), "fixed-velocity", "step %d", q); }
    const VX& p = s.p().u; r.expect(p.size() == w.N && p.allFinite() && maxA(p - w.p) <= T * maxA(w.p) + 1e-9 * w.rho * S / dt, "pressure", "step %d: off by %g of %g", q, maxA(p - w.p), maxA(w.p)); for (auto& f : w.fp) r.expect(std::fabs(p(f.first) - f.second) <= 1e-9 * (1 + maxA(w.p)), "fixed-pressure", "step %d", q); }
struct Mat { double rho, mu; }; static const Mat MT[4] = {{1, 0.1}, {1000, 0.1}, {0.5, 2}, {20, 20}};
static const double DTS[3] = {1e-3, 0.02, 0.1};
template <int D> static void play(Run& r, const MD& d, int scheme, const double* L, const std::vector<int>& side, const Mat& t, double dt, const double* g, int kind, int steps) {
    Mesh m = mkMeshN(d, scheme); typename Api<D>::S s(m); Model w(m, D); w.rho = t.rho; w.mu = t.mu; for (int k = 0; k < D; ++k) w.g[k] = g[k]; s.setMaterialProperties(t.rho, t.mu); Api<D>::gravity(s, g); start<D>(s, w, kind, 0.5); fix<D>(r, s, w, L, side, 0.5); Hash h;
    for (int q = 1; q <= steps && !r.failedNow(); ++q) { s.iterate(dt, q == 1); w.step(dt); r.op(); if (w.worst > 1e6 || w.speed() > 50) break; compare<D>(r, s, w, q, dt); }
    h.addr(w.c[0](w.N / 2)).addr(w.p(0)); r.outcome(h); r.trace(); }
static const double GR[5][3] = {{0, 0, 0}, {0, -9.8, 0}, {3, 0, 0.5}, {-2, 4, -1}, {0, 0, -9.8}};
static const int N2[6][3] = {{2, 2, 0}, {3, 2, 0}, {1, 1, 0}, {2, 3, 0}, {3, 3, 0}, {4, 3, 0}}, N3[4][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {2, 2, 2}};
static const double L2[2][3] = {{1, 1, 0}, {2, 0.5, 0}}, L3[2][3] = {{1, 1, 1}, {1, 2, 0.5}};
static std::string kinds(const std::vector<int>& s) { std::string t; for (int k : s) t += "wsdo"[k]; return t; }
SECTION("plane", "every assignment of no-slip, slip, driven and open to the four sides of a rectangle x 5 triangle grids (thorough: 6), straight and tapered, 4 numberings x 4 materials x 3 time steps x 4 gravities x 4 starts in rotation (thorough: more of the product), 3 steps: velocities and pressure equal a dense model of the splitting") {
    int reps = r.thorough ? 60 : 10; for (int a = 0; a < 256; ++a) for (int k = 0; k < reps; ++k) { std::vector<int> s = {a & 3, a >> 2 & 3, a >> 4 & 3, a >> 6}; int z = a * 7 + k * 5 + a / 16, n = k % (r.thorough ? 6 : 5); const double* L = L2[(z / 3) % 2]; double taper = (z / 2) % 2 ? 0.15 : 0; int sc = (z + k) % 4, mt = (z / 5 + k) % 4, dt = (z + k / 3) % 3, g = (k + a / 3) % 4, st = (k / 2 + a) % 4;
        if (!r.next([&] { return strf("%dx%d L %g taper %g numbering %d sides %s material %d dt %g gravity %d start %d", N2[n][0], N2[n][1], L[0], taper, sc, kinds(s).c_str(), mt, DTS[dt], g, st); })) continue; r.state(Hash().add(a).add(n).add(z % 1000).add(k)); play<2>(r, box(2, N2[n], L, taper), sc, L, s, MT[mt], DTS[dt], GR[g], st, 3); } }
SECTION("space", "every assignment of no-slip, slip, driven and open to three sides of a box, two settings of the others x 3 tetrahedral grids (thorough: 4, all numberings), 4 materials x 3 time steps x 5 gravities x 4 starts in rotation, 2 steps: as plane") {
    int reps = r.thorough ? 24 : 3; for (int a = 0; a < 128; ++a) for (int k = 0; k < reps; ++k) { int o = a >> 6; std::vector<int> s = {a & 3, o ? SLIP : NOSLIP, a >> 2 & 3, o ? OPEN : SLIP, a >> 4 & 3, o ? NOSLIP : SLIP}; int z = a * 5 + k * 3 + a / 8, n = k % (r.thorough ? 4 : 3); const double* L = L3[z % 2]; int sc = z / 2 % 4, mt = (z / 3) % 4, dt = (z + k) % 3, g = (k + a) % 5, st = (a / 4 + k) % 4;
        if (!r.next([&] { return strf("%dx%dx%d L %g numbering %d sides %s material %d dt %g gravity %d start %d", N3[n][0], N3[n][1], N3[n][2], L[1], sc, kinds(s).c_str(), mt, DTS[dt], g, st); })) continue; r.state(Hash().add(a).add(n).add(k)); play<3>(r, box(3, N3[n], L, 0), sc, L, s, MT[mt], DTS[dt], GR[g], st, 2); } }
template <int D> static void still(Run& r, const MD& d, int scheme, const double* L, int mode) { Mesh m = mkMeshN(d, scheme); { std::vector<double> junk(4096, 1e30); r.op(junk.size() > 0); } auto* s = new typename Api<D>::S(m); int N = m.nbNodes(); s->setMaterialProperties(2, 0.5); if (mode) { double g[3] = {0, 0, 0}; Api<D>::gravity(*s, g); }
    for (int i = 0; i < N; ++i) { P3 x = m.node(m.nodeId(i)); if (mode < 2) for (int c = 0; c < D; ++c) Api<D>::c(*s, c).setValue(i, 0); bool edge = false; for (int c = 0; c < D; ++c) edge |= x(c) < 1e-9 || x(c) > L[c] - 1e-9; if (edge) for (int c = 0; c < D; ++c) Api<D>::c(*s, c).setFixedValue(i, 0); } s->p().setFixedValue(0, 0);
    for (int q = 0; q < 3; ++q) { s->iterate(0.05); r.op(); for (int c = 0; c < D; ++c) r.expect(maxA(Api<D>::c(*s, c).u) <= 1e-12, "rest", "step %d: speed %g", q, maxA(Api<D>::c(*s, c).u)); r.expect(maxA(s->p().u) <= 1e-9, "rest-pressure"); } delete s; r.outcome(Hash().add(N)); r.trace(); }
SECTION("rest", "closed box of fluid at rest, 6 plane and 4 solid grids x 4 numberings x gravity not set, set to zero, or nothing set but the walls: stays at rest") {
    for (int n = 0; n < 6; ++n) for (int sc = 0; sc < 4; ++sc) for (int md = 0; md < 3; ++md) { if (!r.next([&] { return strf("plane %dx%d numbering %d mode %d", N2[n][0], N2[n][1], sc, md); })) continue; r.state(Hash().add(n).add(sc).add(md)); still<2>(r, box(2, N2[n], L2[0], 0), sc, L2[0], md); }
    for (int n = 0; n < 4; ++n) for (int sc = 0; sc < 4; ++sc) for (int md = 0; md < 3; ++md) { if (!r.next([&] { return strf("space %dx%dx%d numbering %d mode %d", N3[n][0], N3[n][1], N3[n][2], sc, md); })) continue; r.state(Hash().add(9 + n).add(sc).add(md)); still<3>(r, box(3, N3[n], L3[0], 0), sc, L3[0], md); } }
// Tank with a free surface: gravity along any axis either way, slip walls; the pressure is that of the fluid above, up to one cell.
template <int D> static void tank(Run& r, const MD& d, int scheme, const double* L, double h, int axis, int up, const Mat& t, double G) { Mesh m = mkMeshN(d, scheme); typename Api<D>::S s(m); double g[3] = {0, 0, 0}; g[axis] = up ? -G : G; Api<D>::gravity(s, g); s.setMaterialProperties(t.rho, t.mu); int N = m.nbNodes(); double H = L[axis];
    auto depth = [&](int i) { P3 x = m.node(m.nodeId(i)); return up ? H - x(axis) : x(axis); };
    for (int i = 0; i < N; ++i) { P3 x = m.node(m.nodeId(i)); for (int c = 0; c < D; ++c) { Api<D>::c(s, c).setValue(i, 0); if (x(c) < 1e-9 || x(c) > L[c] - 1e-9) if (c != axis || depth(i) > 1e-9) Api<D>::c(s, c).setFixedValue(i, 0); } if (depth(i) < 1e-9) { s.p().setFixedValue(i, 0); Api<D>::c(s, axis).setFixedValue(i, 0); } s.p().setValue(i, 0); }
    s.iterate(1e-4); r.op(); double w = t.rho * G; for (int i = 0; i < N; ++i) { double e = w * depth(i); r.expect(s.p().value(i) <= e + 0.55 * w * h && s.p().value(i) >= e - 1.1 * w * h, "hydrostatic", "depth %g: %g, not %g (cell %g)", depth(i), s.p().value(i), e, h); } r.outcome(Hash().addr(s.p().value(N - 1))); r.trace(); }
SECTION("tank", "tank of fluid x gravity along and against every axis x 6 plane and 4 solid grids x 2 numberings x 4 densities x 2 strengths: pressure is density times gravity times depth up to one cell") {
    const double RH[4] = {1, 1000, 0.1, 13}; for (int n = 0; n < 6; ++n) for (int l = 0; l < 2; ++l) for (int ax = 0; ax < 2; ++ax) for (int up = 0; up < 2; ++up) for (int z = 0; z < 16; ++z) { if (!r.next([&] { return strf("plane %dx%d L %g axis %d up %d density %g strength %d numbering %d", N2[n][0], N2[n][1], L2[l][0], ax, up, RH[z % 4], z / 4 % 2, z / 8); })) continue; r.state(Hash().add(n).add(l).add(ax).add(up).add(z)); int k[3] = {N2[n][0] * 2, N2[n][1] * 2, 0}; tank<2>(r, box(2, k, L2[l], 0), z / 8, L2[l], L2[l][ax] / k[ax], ax, up, {RH[z % 4], 1e-3 * RH[z % 4]}, z / 4 % 2 ? 9.8 : 0.5); }
    for (int n = 0; n < 4; ++n) for (int l = 0; l < 2; ++l) for (int ax = 0; ax < 3; ++ax) for (int up = 0; up < 2; ++up) for (int z = 0; z < 16; ++z) { if (!r.next([&] { return strf("space %dx%dx%d L %g axis %d up %d density %g strength %d numbering %d", N3[n][0], N3[n][1], N3[n][2], L3[l][1], ax, up, RH[z % 4], z / 4 % 2, z / 8); })) continue; r.state(Hash().add(20 + n).add(l).add(ax).add(up).add(z)); int k[3] = {N3[n][0] * 2, N3[n][1] * 2, N3[n][2] * 2}; tank<3>(r, box(3, k, L3[l], 0), z / 8, L3[l], L3[l][ax] / k[ax], ax, up, {RH[z % 4], 1e-3 * RH[z % 4]}, z / 4 % 2 ? 9.8 : 0.5); } }
SECTION("similarity", "every assignment of side kinds (64 plane cases) x 3 density factors x 4 starts: density and viscosity together scale the pressure only; two solvers do not affect each other; a solver continued in two halves equals one run") {
    for (int a = 0; a < 256; a += 4) for (int f = 0; f < 3; ++f) for (int st = 0; st < 4; ++st) { std::vector<int> sd = {a >> 2 & 3, a >> 4 & 3, a >> 6, (a >> 2) % 4 == OPEN ? SLIP : OPEN}; if (!r.next([&] { return strf("sides %s factor %d start %d", kinds(sd).c_str(), f, st); })) continue; r.state(Hash().add(a).add(f).add(st)); const double F[3] = {10, 0.01, 1000}; Mesh m = mkMeshN(box(2, N2[1], L2[0], 0), st); Model w(m, 2), w2(m, 2); CFemCbsSolver<R, 2> s(m), t(m); double g[3] = {1, -2, 0}; for (auto* q : {&s, &t}) { q->setGravity(g[0], g[1]); start<2>(*q, w, st, 0.3); fix<2>(r, *q, w, L2[0], sd, 0.3); } s.setMaterialProperties(1, 0.1); t.setMaterialProperties(F[f], 0.1 * F[f]); w.rho = 1; w.mu = 0.1; w.g[0] = 1; w.g[1] = -2; bool pin = std::find(sd.begin(), sd.end(), OPEN) == sd.end();
        for (int q = 0; q < 3 && !r.failedNow(); ++q) { s.iterate(0.01); t.iterate(0.01); w.step(0.01); r.op(2); if (w.worst > 1e6 || w.speed() > 50) break; double S = 1e-9 + w.speed(); for (int c = 0; c < 2; ++c) r.expect(maxA(Api<2>::c(s, c).u - Api<2>::c(t, c).u) <= 1e-6 * S, "similar-velocity", "step %d: %g", q, maxA(Api<2>::c(s, c).u - Api<2>::c(t, c).u)); if (!pin) r.expect(maxA(s.p().u * F[f] - t.p().u) <= 1e-6 * F[f] * (1e-9 + maxA(s.p().u)), "similar-pressure", "step %d", q); } r.outcome(Hash().addr(w.p(0))); r.trace(); } }
