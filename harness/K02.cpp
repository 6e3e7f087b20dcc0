// Smoothed-particle stepping: density, motion, heat exchange.
#include "pde.hpp"
#include <memory>
#include "SphParticles.hpp"
using namespace ENigMA::sph;
static const double SUP[5] = {3, 2, 2, 1, 2};
static const char* KN[5] = {"Gaussian", "quintic", "convex", "spiky", "cubic spline"};
static std::unique_ptr<CSphKernel<R>> make(int k, int d) { std::unique_ptr<CSphKernel<R>> p; switch (k) { case 0: p.reset(new CSphGaussian<R>(d)); break; case 1: p.reset(new CSphQuintic<R>(d)); break; case 2: p.reset(new CSphConvex<R>(d)); break; case 3: p.reset(new CSphSpiky<R>(d)); break; default: p.reset(new CSphCubicSpline<R>(d)); } return p; }
struct Cfg { std::vector<P3> p; std::vector<int> id; double mass, diff, h, dt; P3 v; int kernel, dim; };
static Mesh cloud(const Cfg& c) { Mesh m; for (size_t i = 0; i < c.p.size(); ++i) m.addNode(c.id[i], CMshNode<R>(c.p[i].x(), c.p[i].y(), c.p[i].z())); return m; }
struct Sim { Field T; std::unique_ptr<CSphKernel<R>> k; std::unique_ptr<CSphParticles<R>> s; };
static void start(Sim& S, const Cfg& c, const std::vector<double>& u, const std::map<int, double>& fix, bool cyclic = false) { Mesh m = cloud(c); S.T = mkField(m, DM_SPH, ST_GENERIC); for (size_t i = 0; i < u.size(); ++i) S.T.u(i) = u[i]; for (auto& f : fix) S.T.setFixedValue(f.first, f.second); S.k = make(c.kernel, c.dim); S.s.reset(new CSphParticles<R>(*S.k)); S.s->init(S.T, c.mass, c.diff, c.h, c.dt, cyclic); S.s->setInitialVelocity(S.T, CGeoVector<R>(c.v.x(), c.v.y(), c.v.z())); }
static CGeoVector<R> diff(const P3& a, const P3& b) { return CGeoVector<R>(a.x() - b.x(), a.y() - b.y(), a.z() - b.z()); }
static P3 posOf(Field& T, int i) { auto& n = T.mesh().node(T.mesh().nodeId(i)); return P3(n.x(), n.y(), n.z()); }
// one step from the present state, by the definition: pairwise sums over the given radius
struct Step { std::vector<double> rho, u; std::vector<P3> p; };
static Step reference(const Cfg& c, const std::vector<P3>& p, const std::vector<double>& u, const std::map<int, double>& fix, CSphKernel<R>& k, double radius) { Step s; int n = p.size(); s.rho.assign(n, 0); s.u = u; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { auto r = diff(p[j], p[i]); if (r.norm() <= radius) s.rho[i] += c.mass * k.W(r, c.h); } for (int i = 0; i < n; ++i) s.p.push_back(P3(p[i].x() + c.v.x() * c.dt, p[i].y() + c.v.y() * c.dt, p[i].z() + c.v.z() * c.dt));
    for (int i = 0; i < n; ++i) { auto f = fix.find(i); if (f != fix.end()) { s.u[i] = f->second; continue; } double q = 0; for (int j = 0; j < n; ++j) { auto r = diff(p[j], p[i]); if (j != i && r.norm() <= radius) q += (u[j] - u[i]) * c.mass / s.rho[j] * k.laplacianW(r, c.h); } s.u[i] = u[i] + c.diff * c.dt * q; } return s; }
static bool border(const std::vector<P3>& p, double r) { for (auto& a : p) for (auto& b : p) { double d = (a - b).norm(); if (std::fabs(d - r) < 1e-6 * r) return true; } return false; }
static void run(Run& r, const Cfg& c, int steps, int fixMask) {
    int n = c.p.size(); std::vector<double> u; std::map<int, double> fix; for (int i = 0; i < n; ++i) { u.push_back(20 + 7 * (i * 3 % 5) - i); if (fixMask >> i & 1) fix[i] = 50 + i; } Sim S; start(S, c, u, fix); std::vector<P3> p = c.p; auto K = make(c.kernel, c.dim); double full = SUP[c.kernel] * c.h;
    for (int s = 0; s < steps; ++s) { Step w = reference(c, p, u, fix, *K, full), cut = reference(c, p, u, fix, *K, c.h); bool ambiguous = border(p, c.h); S.s->solve(S.T); r.op(); double rd = 0, rc = 0, ud = 0, uc = 0, pd = 0, sc = 0, us = 1; for (int i = 0; i < n; ++i) { rd = std::max(rd, std::fabs(S.s->density(i) - w.rho[i])); rc = std::max(rc, std::fabs(S.s->density(i) - cut.rho[i])); sc = std::max(sc, w.rho[i]); ud = std::max(ud, std::fabs(S.T.u(i) - w.u[i])); uc = std::max(uc, std::fabs(S.T.u(i) - cut.u[i])); us = std::max(us, std::max(std::fabs(w.u[i]), std::fabs(cut.u[i]))); pd = std::max(pd, (double)(posOf(S.T, i) - w.p[i]).norm()); }
        r.expect(pd <= 1e-12 * (1 + std::fabs(c.v.x()) + std::fabs(c.v.y()) + std::fabs(c.v.z())) * (s + 1), "motion", "step %d: off by %g", s, pd);
        bool trunc = SUP[c.kernel] > 1 && !(rd <= 1e-10 * sc) ; if (rd > 1e-10 * sc) r.expect(false, trunc && (rc <= 1e-10 * sc || ambiguous) ? "truncated-support" : "density", "step %d: off by %g of %g", s, rd, sc); if (ud > 1e-9 * us) r.expect(false, SUP[c.kernel] > 1 && (uc <= 1e-9 * us || ambiguous) ? "truncated-support" : "heat", "step %d: off by %g of %g", s, ud, us);
        for (auto& f : fix) r.expect(S.T.u(f.first) == f.second, "fixed"); for (int i = 0; i < n; ++i) { u[i] = S.T.u(i); p[i] = posOf(S.T, i); } }
    r.outcome(Hash().addr(S.s->density(0)).addr(S.T.u(n - 1))); r.trace(); }
static const P3 VEL[4] = {P3(0, 0, 0), P3(1, 2, 3), P3(-0.5, 0, 4), P3(0, -7, 0.25)};
SECTION("clouds", "every set of 1..3 (thorough 4) particles of a 3x3x2 lattice and every pair with a coincident third x 5 kernels x 3 dimensions (spiky) or 3 (others) x smoothing lengths x 4 velocities, masses and numberings, two steps: density, motion and temperature equal the pairwise sums") {
    auto L = lattice(2, 2, 1); int N = L.size(); const double HH[3] = {1.05, 0.6, 2.2}, MM[3] = {1, 0.25, 8}; int cnt = 0; int maxn = r.thorough ? 4 : 3;
    for (int n = 1; n <= maxn; ++n) combinations(N, n, [&](const std::vector<int>& q) { for (int k = 0; k < 5; ++k) for (int hv = 0; hv < 3; ++hv) { ++cnt; if (!r.thorough && n == 3 && k != 3 && (cnt % 4)) continue; int d = 3 - (cnt + hv) % 3 * (k == 3 ? 1 : 0); Cfg c; for (int i : q) c.p.push_back(P3(0.5 * L[i].x, 0.5 * L[i].y, 0.5 * L[i].z)); if (cnt % 7 == 0) c.p.push_back(c.p[0]); int m = c.p.size(); int sch = cnt % 3; c.id = sch == 0 ? iota(m) : sch == 1 ? iota(m, 20, -4) : iota(m, 5, 3); c.mass = MM[cnt % 3]; c.diff = 0.5; c.h = HH[hv]; c.dt = cnt % 2 ? 0.01 : 0.125; c.v = VEL[(cnt + hv) % 4]; c.kernel = k; c.dim = d; int fm = cnt % 5 == 0 ? 1 : 0;
        if (!r.next([&] { return std::string(KN[k]) + " particles " + show(q) + strf(" length %g dimension %d variant %d", c.h, d, cnt); })) continue; r.state(Hash().adds(show(q)).add(k).add(hv)); run(r, c, 2, fm); } }); }
SECTION("order", "every permutation of the storage of 4 particles (3 clouds) x 3 numberings x 4 velocities: same densities, positions and temperatures") {
    std::vector<std::vector<P3>> C = {{P3(0, 0, 0), P3(0.4, 0, 0), P3(0.9, 0.1, 0), P3(0.3, 0.5, 0)}, {P3(0, 0, 0), P3(0.5, 0.5, 0.5), P3(0.2, 0.7, 0.1), P3(0.2, 0.7, 0.6)}, {P3(0, 0, 0), P3(0.1, 0, 0), P3(3, 0, 0), P3(3.2, 0, 0)}}; double U[4] = {10, 40, -5, 0};
    for (size_t ci = 0; ci < C.size(); ++ci) for (int v = 0; v < 4; ++v) for (int sch = 0; sch < 3; ++sch) { std::vector<int> q = iota(4); do { if (!r.next([&] { return strf("cloud %d velocity %d numbering %d order ", (int)ci, v, sch) + show(q); })) continue; r.state(Hash().add(ci).add(v).add(sch).adds(show(q))); auto go = [&](const std::vector<int>& o, int sc, Sim& S) { Cfg c; std::vector<double> u; for (int i : o) { c.p.push_back(C[ci][i]); u.push_back(U[i]); } c.id = sc == 0 ? iota(4) : sc == 1 ? iota(4, 30, -7) : iota(4, 2, 5); c.mass = 2; c.diff = 1; c.h = 1.05; c.dt = 0.02; c.v = VEL[v]; c.kernel = 3; c.dim = 2; start(S, c, u, {}); for (int i = 0; i < 3; ++i) S.s->solve(S.T); };
        Sim A, B; go(iota(4), 0, A); go(q, sch, B); r.op(6); for (int i = 0; i < 4; ++i) { r.expect(std::fabs(A.s->density(q[i]) - B.s->density(i)) <= 1e-11 * A.s->density(q[i]), "density"); r.expect((posOf(A.T, q[i]) - posOf(B.T, i)).norm() <= 1e-11, "position"); r.expect(std::fabs(A.T.u(q[i]) - B.T.u(i)) <= 1e-9 * 50, "temperature", "%g and %g", A.T.u(q[i]), B.T.u(i)); } r.outcome(Hash().addr(B.T.u(0))); r.trace(); } while (std::next_permutation(q.begin(), q.end())); } }
SECTION("uniform", "uniform temperature stays uniform and the range of temperatures never widens for small steps; scaling all masses changes densities in proportion and nothing else; moving the whole cloud changes nothing: line, square and cube lattices x 5 kernels x 4 velocities") {
    for (int g = 1; g <= 3; ++g) for (int k = 0; k < 5; ++k) for (int v = 0; v < 4; ++v) for (int t = 0; t < 4; ++t) { if (!r.next([&] { return std::string(KN[k]) + strf(" lattice %d velocity %d variant %d", g, v, t); })) continue; r.state(Hash().add(g).add(k).add(v).add(t)); Cfg c; auto L = lattice(3, g > 1 ? 3 : 0, g > 2 ? 2 : 0); for (auto& a : L) c.p.push_back(P3(0.25 * a.x, 0.25 * a.y, 0.25 * a.z)); int n = L.size(); c.id = iota(n, 3, 2); c.mass = 1; c.diff = 1; c.h = 0.6; c.dt = 1e-3; c.v = P3(0, 0, 0); c.kernel = k; c.dim = g; std::vector<double> u; for (int i = 0; i < n; ++i) u.push_back(t == 0 ? 37.5 : (i * 7 % 11) * 3.0); Sim A, B; start(A, c, u, {}); Cfg d = c; d.v = VEL[v]; d.mass = t == 2 ? 13.5 : 1; start(B, d, u, {}); double lo = *std::min_element(u.begin(), u.end()), hi = *std::max_element(u.begin(), u.end());
        for (int s = 0; s < 4; ++s) { A.s->solve(A.T); B.s->solve(B.T); r.op(2); for (int i = 0; i < n; ++i) { r.expect(B.T.u(i) >= lo - 1e-9 && B.T.u(i) <= hi + 1e-9, "range", "%g outside %g..%g", B.T.u(i), lo, hi); r.expect(std::fabs(A.T.u(i) - B.T.u(i)) <= 1e-8 * (1 + hi), "moving", "%g and %g", A.T.u(i), B.T.u(i)); r.expect(std::fabs(A.s->density(i) * d.mass - B.s->density(i)) <= 1e-8 * B.s->density(i), "mass"); } } r.outcome(Hash().addr(B.T.u(0))); r.trace(); } }
SECTION("cyclic", "one to three particles in a box with cyclic boundary x every velocity sign pattern along the axes x starting points near each side: particles move by their velocity or re-enter at the opposite side, and stay in the box") {
    for (int sx = -1; sx <= 1; ++sx) for (int sy = -1; sy <= 1; ++sy) for (int sz = -1; sz <= 1; ++sz) for (int at = 0; at < 27; ++at) { if (!r.next([&] { return strf("velocity %d %d %d start %d", sx, sy, sz, at); })) continue; r.state(Hash().add(sx).add(sy).add(sz).add(at)); Cfg c; double f[3] = {0.05, 0.5, 0.95}; double B[3] = {2, 1, 3}; P3 a(B[0] * f[at % 3], B[1] * f[at / 3 % 3], B[2] * f[at / 9]); c.p = {a, P3(1, 0.5, 1.5), P3(0.4, 0.25, 2)}; c.id = {4, 9, 2}; c.mass = 1; c.diff = 0.1; c.h = 0.5; c.dt = 0.1; c.v = P3(2.0 * sx, 1.5 * sy, 3.5 * sz); c.kernel = 3; c.dim = 3; Sim S; start(S, c, {1, 2, 3}, {}, true); CGeoBoundingBox<R> bb; bb.addCoordinate(CGeoCoordinate<R>(0, 0, 0)); bb.addCoordinate(CGeoCoordinate<R>(B[0], B[1], B[2])); S.s->setBoundary(bb);
        std::vector<P3> p = c.p; for (int s = 0; s < 6; ++s) { S.s->solve(S.T); r.op(); for (int i = 0; i < 3; ++i) { P3 q = posOf(S.T, i); double o[3] = {p[i].x(), p[i].y(), p[i].z()}, v[3] = {c.v.x(), c.v.y(), c.v.z()}, g[3] = {q.x(), q.y(), q.z()}; for (int k = 0; k < 3; ++k) { double w = o[k] + v[k] * c.dt; bool out = w >= B[k] - 1e-12 || w <= 1e-12; bool moved = std::fabs(g[k] - w) < 1e-12, wrapped = w >= B[k] - 1e-12 ? g[k] < B[k] / 2 && g[k] >= -1e-12 : g[k] > B[k] / 2 && g[k] <= B[k] + 1e-12; r.expect(out ? wrapped || (moved && (std::fabs(w) < 1e-9 || std::fabs(w - B[k]) < 1e-9)) : moved, "wrap", "axis %d: from %g by %g to %g", k, o[k], v[k] * c.dt, g[k]); } p[i] = q; } } r.outcome(Hash().addr(p[0].x())); r.trace(); } }
