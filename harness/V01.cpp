// Lattice-Boltzmann cavity, against an independent model of the D2Q9 scheme.
#include "vk.hpp"
#include "LbmLidDrivenSolver.hpp"
#include <vector>
#include <string>
#include <cmath>
using namespace vk;
typedef double R;
typedef ENigMA::lbm::CLbmLidDrivenSolver<R, 2, 9> Lbm;

// The model: distributions indexed by their velocity (-1..1, -1..1), written from the definition of
// the scheme: relax towards equilibrium while streaming into the inner nodes, reverse every
// distribution at marked nodes, non-equilibrium extrapolation at the lid row.
struct Model {
    int nx, ny; std::vector<double> f, rho, u, v; std::vector<int> wall;
    Model(int a, int b) : nx(a), ny(b), f((a + 1) * (b + 1) * 9), rho((a + 1) * (b + 1)), u(rho), v(rho), wall((a + 1) * (b + 1), 0) {}
    int at(int i, int j) const { return i * (ny + 1) + j; }
    static double weight(int x, int y) { int q = x * x + y * y; return q == 0 ? 4.0 / 9 : q == 1 ? 1.0 / 9 : 1.0 / 36; }
    static double eq(int x, int y, double r, double u, double v) { double c = 3 * (x * u + y * v); return weight(x, y) * r * (1 + c + c * c / 2 - 1.5 * (u * u + v * v)); }
    double& d(std::vector<double>& g, int n, int x, int y) { return g[n * 9 + (x + 1) * 3 + y + 1]; }
    void init() { for (size_t n = 0; n < rho.size(); ++n) { rho[n] = 1; u[n] = v[n] = 0; for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) d(f, n, x, y) = weight(x, y); } }
    void step(double tau) {
        std::vector<double> g = f;
        for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) {
            int n = at(i, j); std::vector<double> in(9);
            for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) { int m = at(i - x, j - y); double o = d(f, m, x, y); in[(x + 1) * 3 + y + 1] = o + (eq(x, y, rho[m], u[m], v[m]) - o) / tau; }
            for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) d(g, n, x, y) = wall[n] ? in[(1 - x) * 3 + 1 - y] : in[(x + 1) * 3 + y + 1];
        }
        f = g;
        for (int i = 1; i < nx; ++i) for (int j = 1; j < ny; ++j) { int n = at(i, j); double r = 0, a = 0, b = 0; for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) { double q = d(f, n, x, y); r += q; a += x * q; b += y * q; } rho[n] = r; u[n] = a / r; v[n] = b / r; }
        for (int i = 0; i <= nx; ++i) { int t = at(i, ny), b = at(i, ny - 1); rho[t] = rho[b]; for (int x = -1; x < 2; ++x) for (int y = -1; y < 2; ++y) d(f, t, x, y) = eq(x, y, rho[t], u[t], v[t]) + d(f, b, x, y) - eq(x, y, rho[b], u[b], v[b]); }
    }
};
static void compare(Run& r, Lbm& s, Model& m, int step) { for (int i = 0; i <= m.nx; ++i) for (int j = 0; j <= m.ny; ++j) { double a = s.getVelocity(i, j, 0), b = s.getVelocity(i, j, 1); r.expect(std::fabs(a - m.u[m.at(i, j)]) < 1e-10 && std::fabs(b - m.v[m.at(i, j)]) < 1e-10, "velocity", "step %d node %d %d: %g %g instead of %g %g", step, i, j, a, b, m.u[m.at(i, j)], m.v[m.at(i, j)]); if (r.failedNow()) return; } }
static const double TAU[4] = {0.6, 0.8, 1, 1.7};
SECTION("masks", "cavities of 2x2..4x4 cells x every set of wall nodes among the inner ones (thorough: 5x4) x lid velocities x relaxation times x up to 6 steps (thorough 15): every velocity equals that of the scheme") {
    std::vector<std::pair<int, int>> S = {{2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 3}, {3, 4}, {4, 4}}; if (r.thorough) { S.push_back({5, 4}); S.push_back({4, 5}); }
    int cnt = 0;
    for (auto& s : S) { int n = (s.first - 1) * (s.second - 1); for (unsigned mask = 0; mask < 1u << n; ++mask) for (int l = 0; l < 3; ++l) for (int t = 0; t < 4; ++t) {
        ++cnt; if (n > 6 && !r.thorough && (mask + l + t) % 2) continue;
        if (!r.next([&] { return strf("%d x %d walls %x lid %d relaxation %g", s.first, s.second, mask, l, TAU[t]); })) continue;
        r.state(Hash().add(s.first).add(s.second).add(mask).add(l).add(t));
        Lbm b(s.first, s.second, 0); Model m(s.first, s.second); b.init(); m.init(); int k = 0;
        for (int i = 1; i < s.first; ++i) for (int j = 1; j < s.second; ++j, ++k) if (mask >> k & 1) { b.setBoundary(i, j, 1); m.wall[m.at(i, j)] = 1; r.expect(b.getBoundary(i, j) == 1, "boundary"); } else r.expect(b.getBoundary(i, j) == 0, "boundary");
        for (int i = l == 2; i <= s.first; ++i) { double u = l == 0 ? 0.1 : l == 1 ? -0.05 : 0.02 * i; b.setVelocity(i, s.second, 0, u); m.u[m.at(i, s.second)] = u; if (l == 2) { b.setVelocity(i, s.second, 1, -0.01 * i); m.v[m.at(i, s.second)] = -0.01 * i; } }
        for (int q = 1; q <= (r.thorough ? 15 : 6); ++q) { b.evolve(TAU[t]); m.step(TAU[t]); r.op(); compare(r, b, m, q); if (r.failedNow()) break; }
        r.outcome(Hash().add(std::lround(1e6 * b.getVelocity(1, 1, 0)))); r.trace();
    } }
}
SECTION("histories", "every sequence of up to 5 (thorough 6) of: step with relaxation 1 or 0.7, move the lid right or left, mark or clear a wall node, change a density, set an inner velocity, initialise again: every velocity equals that of the scheme") {
    for (int n = 1; n <= (r.thorough ? 6 : 5); ++n) sequences(n, 9, [&](const std::vector<int>& q) {
        if (n == 5 && !r.thorough && q[0] > 3) return;
        if (!r.next([&] { return show(q); })) return;
        r.state(Hash().adds(show(q)));
        Lbm b(4, 3, 0); Model m(4, 3); b.init(); m.init(); int c = 0;
        for (int o : q) { r.op(); ++c;
            if (o < 2) { b.evolve(o ? 0.7 : 1); m.step(o ? 0.7 : 1); }
            else if (o < 4) for (int i = 0; i <= 4; ++i) { double u = o == 2 ? 0.08 : -0.12; b.setVelocity(i, 3, 0, u); m.u[m.at(i, 3)] = u; }
            else if (o < 6) { b.setBoundary(2, 2, o == 4); m.wall[m.at(2, 2)] = o == 4; r.expect(b.getBoundary(2, 2) == (o == 4), "boundary"); }
            else if (o == 6) { b.setDensity(1, 2, 1.05); m.rho[m.at(1, 2)] = 1.05; }
            else if (o == 7) { b.setVelocity(3, 1, 1, 0.03); m.v[m.at(3, 1)] = 0.03; }
            else { b.init(); m.init(); }
            compare(r, b, m, c); if (r.failedNow()) break; }
        for (int k = 0; k < 2 && !r.failedNow(); ++k) { b.evolve(0.9); m.step(0.9); compare(r, b, m, 100 + k); }
        r.outcome(Hash().add(std::lround(1e6 * b.getVelocity(2, 2, 0)))); r.trace(); });
}
SECTION("symmetry", "cavities of 2..9 x 2..9 cells with symmetric walls x relaxation times, many steps: at rest they stay at rest, reversing the lid mirrors the flow, velocities stay below the lid's") {
    for (int nx = 2; nx <= 9; ++nx) for (int ny = 2; ny <= 9; ++ny) for (int t = 0; t < 4; ++t) for (int w = 0; w < 3; ++w) {
        if (!r.next([&] { return strf("%d x %d relaxation %g walls %d", nx, ny, TAU[t], w); })) continue;
        r.state(Hash().add(nx).add(ny).add(t).add(w)); Lbm a(nx, ny, 0), b(nx, ny, 0), z(nx, ny, 0);
        for (Lbm* s : {&a, &b, &z}) { s->init(); for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) if (w && (i <= w - 1 || i >= nx - w + 1 || j <= w - 1)) s->setBoundary(i, j, 1); }
        for (int i = 0; i <= nx; ++i) { a.setVelocity(i, ny, 0, 0.1); b.setVelocity(i, ny, 0, -0.1); }
        int N = r.thorough ? 300 : 40; double top = 0;
        for (int q = 0; q < N; ++q) { a.evolve(TAU[t]); b.evolve(TAU[t]); z.evolve(TAU[t]); r.op(3); }
        for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) {
            r.expect(std::fabs(z.getVelocity(i, j, 0)) < 1e-13 && std::fabs(z.getVelocity(i, j, 1)) < 1e-13, "rest");
            r.expect(std::fabs(a.getVelocity(i, j, 0) + b.getVelocity(nx - i, j, 0)) < 1e-10 && std::fabs(a.getVelocity(i, j, 1) - b.getVelocity(nx - i, j, 1)) < 1e-10, "mirror");
            double s = std::hypot(a.getVelocity(i, j, 0), a.getVelocity(i, j, 1)); top = std::max(top, s); r.expect(s == s && s < 0.2, "bounded", "%g", s); }
        r.outcome(Hash().add(std::lround(1e6 * a.getVelocity(1, ny - 1, 0)))); r.trace();
    }
}
