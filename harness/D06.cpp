// Flow element matrices against the integrals they stand for.
#include "pde.hpp"
#include "fem.hpp"
#include "FemFlowTriangle.hpp"
#include "FemFlowTetrahedron.hpp"
using namespace ENigMA::fem;
using namespace ENigMA::fem::flow;
typedef std::vector<P3> Pts;
typedef CFemFlowTriangle<R, 3, 1, 1> Tri;
typedef CFemFlowTetrahedron<R, 4, 1, 1> Tet;
static std::string sh(const Pts& p) { std::string s; for (auto& q : p) s += strf("(%g %g %g)", q.x(), q.y(), q.z()); return s; }
static void verts(Tri& e, const Pts& p) { for (auto& q : p) { CGeoCoordinate<R> v(q.x(), q.y(), q.z()); e.addVertex(v); } e.calculateArea(); }
static void verts(Tet& e, const Pts& p) { for (auto& q : p) { CGeoCoordinate<R> v(q.x(), q.y(), q.z()); e.addVertex(v); } e.calculateVolume(); }
static void thick(Tri& e, double t) { e.setThickness(t); }
static void thick(Tet&, double) {}
static void convect(Tri& e, MX& U) { R u[3], v[3]; for (int i = 0; i < 3; ++i) { u[i] = U(0, i); v[i] = U(1, i); } e.calculateConvectiveTerm(u, v); }
static void convect(Tet& e, MX& U) { R u[4], v[4], w[4]; for (int i = 0; i < 4; ++i) { u[i] = U(0, i); v[i] = U(1, i); w[i] = U(2, i); } e.calculateConvectiveTerm(u, v, w); }
struct Ref { double m; MX G, M, K; }; // measure, d x n gradients of the shape functions, NiNj, grad.grad
static Ref reference(const Pts& p, int d) { int n = d + 1; MX A(n, n); for (int i = 0; i < n; ++i) { A(0, i) = 1; A(1, i) = p[i].x(); A(2, i) = p[i].y(); if (d == 3) A(3, i) = p[i].z(); } MX I = A.inverse(); Ref r; r.m = std::fabs(A.determinant()) / (d == 2 ? 2 : 6); r.G = I.rightCols(d).transpose(); r.M = (MX::Ones(n, n) + MX::Identity(n, n)) * r.m / ((d + 1) * (d + 2)); r.K = r.m * r.G.transpose() * r.G; return r; }
static MX convection(const Ref& q, const MX& U, double dt) { VX mean = U.rowwise().mean(); MX adv = U.transpose() * q.G; /* n x n: velocity at node k times grad Nj */ MX C = q.M * adv; VX s = q.G.transpose() * mean; return C - 0.5 * dt * q.m * s * s.transpose(); }
template <class E> static void decide(Run& r, const Pts& p, double dt, double th, bool pairs, double vel) {
    int n = p.size(), d = n - 1; Ref q = reference(p, d); const double T = 1e-8; auto close = [&](const MX& a, const MX& b, double s, const char* k, int i) { if (!r.expect(a.rows() == n && a.cols() == n && a.allFinite(), "shape", "%s", k)) return; r.expect(maxA(a - b) <= T * s, k, "term %d: off by %g of %g", i, maxA(a - b), s); };
    E e; verts(e, p); thick(e, th); e.setDt(dt); e.calculateTransientTerm(); r.op(); double f = th / (dt > 0 ? dt : 1); close(e.ddt, f * q.M, f * maxA(q.M), "capacity", 0);
    e.calculateDiffusiveTerm(); r.op(); close(e.laplacian, -th * q.K, th * maxA(q.K), "diffusion", 0);
    for (int c = 0; c < d; ++c) { e.calculateGradientTerm(c); r.op(); MX G(n, n); for (int i = 0; i < n; ++i) G.row(i) = th * q.m / n * q.G.row(c); close(e.gradient, G, th * q.m * maxA(q.G), "gradient", c); }
    auto conv = [&](MX& U, int id) { convect(e, U); r.op(); MX W = th * convection(q, U, dt); double s = th * q.m * maxA(q.G) * maxA(U) * (1 + dt * maxA(q.G) * maxA(U)); close(e.divergence, W, s, "convection", id); VX c = e.divergence * VX::Ones(n); r.expect(maxA(c) <= T * s, "constants"); };
    int N = n * d; for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) { if (!pairs && j != i && (i + j) % 3) continue; MX U = MX::Zero(d, n); U(i / n, i % n) += vel; U(j / n, j % n) += j == i ? 0 : -0.5 * vel; conv(U, i * N + j); }
    MX Z = MX::Zero(d, n); conv(Z, -1); for (int c = 0; c < d; ++c) { MX U = MX::Zero(d, n); U.row(c).setConstant(vel); conv(U, -2 - c); }
    r.outcome(Hash().addr(e.divergence(0, 0) / th).addr(q.m)); r.trace(); }
static const double DT[5] = {1, 0.1, 25, 0, 1e-3}, TH[4] = {1, 0.02, 5, 1}, SC[3] = {1, 1e-2, 10}, VE[3] = {1, 30, 0.01};
SECTION("triangles", "every anticlockwise ordered triangle of a 3x3 (thorough: 5x5) lattice in planes z = 0, 2 and -0.5 x 5 time steps x 4 thicknesses, scales and speeds; every pair of nodal velocity components") {
    int side = r.thorough ? 4 : 2; auto L = lattice(side, side, 0); for (auto& a : L) for (auto& b : L) for (auto& c : L) { int det = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); if (det <= 0) continue; for (int t = 0; t < 5; ++t) for (int v = 0; v < 4; ++v) { double s = SC[(t + v) % 3], z = v % 3 == 0 ? 0 : v % 3 == 1 ? 2 : -0.5; Pts p = {P3(a.x * s, a.y * s, z), P3(b.x * s, b.y * s, z), P3(c.x * s, c.y * s, z)}; if (!r.next([&] { return sh(p) + strf(" time step %g thickness %g", DT[t], TH[v]); })) continue; r.state(Hash().adds(sh(p)).add(t).add(v)); decide<Tri>(r, p, DT[t], TH[v], true, VE[(t + 2 * v) % 3]); } } }
SECTION("tetrahedra", "every positive tetrahedron of a 2x2x2 lattice in every order x 5 time steps x 3 scales, and of a 3x3x3 lattice with its first corner fixed (thorough: every) x 5 rigid motions; every pair of nodal velocity components") {
    auto go = [&](const std::vector<V3i>& L, bool fix, bool all) { int N = L.size(); for (int a = 0; a < (fix ? 1 : N); ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) for (int d = 0; d < N; ++d) { int det = det3(L[b] - L[a], L[c] - L[a], L[d] - L[a]); if (det >= 0) continue; for (int i = 0; i < (all ? 5 : 1); ++i) { int t = all ? i : (a + b + 2 * c + d) % 5, m = (b + c + 3 * d) % 3, k = all ? i : (2 * b + c + d) % 5; double s = SC[m]; Pts p; for (int x : {a, b, c, d}) p.push_back(rigid(P3(L[x].x * s, L[x].y * s, L[x].z * s), k)); if (!r.next([&] { return sh(p) + strf(" time step %g", DT[t]); })) continue; r.state(Hash().adds(sh(p)).add(t)); decide<Tet>(r, p, DT[t], 1, all || r.thorough, VE[(t + m) % 3]); } } };
    go(lattice(1, 1, 1), false, true); go(lattice(2, 2, 2), !r.thorough, false); }
SECTION("linear-pressure", "hydrostatic balance: for every triangle and tetrahedron of the smallest lattices and every linear field, the gradient matrix returns its slope times the nodal share of the measure") {
    auto L2 = lattice(2, 2, 0); for (auto& a : L2) for (auto& b : L2) for (auto& c : L2) { int det = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); if (det <= 0) continue; for (int g = 0; g < 3; ++g) { Pts p = {P3(a.x, a.y, 1), P3(b.x, b.y, 1), P3(c.x, c.y, 1)}; if (!r.next([&] { return sh(p) + strf(" field %d", g); })) continue; r.state(Hash().adds(sh(p)).add(g)); Tri e; verts(e, p); VX f(3); for (int i = 0; i < 3; ++i) f(i) = g == 2 ? 7 : g ? p[i].y() : p[i].x(); for (int k = 0; k < 2; ++k) { e.calculateGradientTerm(k); r.op(); VX y = e.gradient * f; for (int i = 0; i < 3; ++i) r.expect(std::fabs(y(i) - (k == g ? det / 6.0 : 0)) < 1e-11, "slope"); } r.trace(); } }
    auto L3 = lattice(1, 1, 1); int N = L3.size(); for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) for (int d = 0; d < N; ++d) { int det = det3(L3[b] - L3[a], L3[c] - L3[a], L3[d] - L3[a]); if (det >= 0) continue; for (int g = 0; g < 4; ++g) { Pts p; for (int x : {a, b, c, d}) p.push_back(P3(L3[x].x, L3[x].y, L3[x].z)); if (!r.next([&] { return sh(p) + strf(" field %d", g); })) continue; r.state(Hash().adds(sh(p)).add(g)); Tet e; verts(e, p); VX f(4); for (int i = 0; i < 4; ++i) f(i) = g == 3 ? 7 : g == 2 ? p[i].z() : g ? p[i].y() : p[i].x(); for (int k = 0; k < 3; ++k) { e.calculateGradientTerm(k); r.op(); VX y = e.gradient * f; for (int i = 0; i < 4; ++i) r.expect(std::fabs(y(i) - (k == g ? -det / 24.0 : 0)) < 1e-11, "slope"); } r.trace(); } } }
// Operators assembled over a mesh: sums of the element integrals, each argument in its place.
static void assembled(Run& r, const MD& d, int D, int scheme, int vel, double dt) { Mesh m = mkMeshN(d, scheme); int N = m.nbNodes(); VX u[3]; Field F[3]; for (int k = 0; k < 3; ++k) { u[k].resize(N); for (int i = 0; i < N; ++i) { P3 x = m.node(m.nodeId(i)); u[k](i) = vel == 0 ? k + 1.0 : vel == 1 ? (k + 1) * x.x() - 2 * x.y() + (3 - k) * x.z() : std::sin(3 * i + 1.7 * k + 0.3) * (k + 0.5); } F[k] = mkField(m, DM_FEM, ST_FLOW); F[k].u = u[k]; }
    MX M = MX::Zero(N, N), K = M, W = M, G[3] = {M, M, M}; for (int e = 0; e < m.nbElements(); ++e) { auto ids = nodesOf(m.element(m.elementId(e))); Pts p; std::vector<int> v; for (int id : ids) { p.push_back(m.node(id)); v.push_back(m.nodeIndex(id)); } int n = D + 1; Ref q = reference(p, D); MX U(D, n); for (int a = 0; a < n; ++a) for (int k = 0; k < D; ++k) U(k, a) = u[k](v[a]); MX C = convection(q, U, dt); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { M(v[a], v[b]) += q.M(a, b); K(v[a], v[b]) -= q.K(a, b); W(v[a], v[b]) += C(a, b); for (int k = 0; k < D; ++k) G[k](v[a], v[b]) += q.m / n * q.G(k, b); } }
    auto is = [&](Sys s, const MX& A, const VX& b, const char* k) { r.op(); MX X = denseOf(s); if (!r.expect(X.rows() == N && X.cols() == N && s.vectorB.size() == N, "assembled-shape", "%s", k)) return; r.expect(maxA(X - A) <= 1e-9 * maxA(A) && maxA(s.vectorB - b) <= 1e-9 * (maxA(A) + maxA(b)), k, "off by %g of %g", maxA(X - A), maxA(A)); VX x = VX::LinSpaced(N, 1, 2); VX y = s.matrixA * x; r.expect(maxA(y - A * x) <= 1e-8 * maxA(A) * N, "assembled-product", "%s", k); };
    VX Z = VX::Zero(N); for (int k = 0; k < D; ++k) { is(ddt<R>(F[k]), M, M * u[k], "assembled-capacity"); is(laplacian<R>(F[k]), K, Z, "assembled-diffusion"); is(gradient<R>(F[k], k == 0 ? CP_X : k == 1 ? CP_Y : CP_Z), G[k], Z, "assembled-gradient"); }
    is(D == 2 ? divergence<R>(F[0], F[1], dt) : divergence<R>(F[0], F[1], F[2], dt), W, Z, "assembled-convection"); for (int k = 0; k < 3; ++k) r.expect(F[k].u == u[k], "fields-kept"); r.state(Hash().adds(d.name).add(scheme).add(vel).addr(dt)); r.outcome(Hash().addr(W(0, 0))); r.trace(); }
SECTION("assembled", "triangle grids of 1x1 to 3x2 cells (straight and tapered) and tetrahedral grids of 1 to 4 cubes x 4 numberings x 3 velocity fields x 4 time steps: capacity, diffusion, every gradient component and convection by two or three velocities assembled over the mesh equal the sums of the integrals; fields unchanged") {
    std::vector<std::pair<MD, int>> ms; auto bend = [](MD d) { for (auto& p : d.p) { p.x() += 0.2 * p.x() * p.y(); p.y() += 0.1 * p.x() * p.x(); } d.name += "-bent"; return d; }; for (auto& g : {gridQuad(1, 1, 1, 1, 1), gridQuad(2, 1, 0.5, 2, 1), gridQuad(2, 2, 1, 1, 1), gridQuad(3, 2, 0.1, 0.3, 1)}) { ms.push_back({g, 2}); ms.push_back({bend(g), 2}); } for (auto& g : {gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 1, 1, 0.5, 1, 2, 1), gridHex(1, 2, 2, 1, 0.3, 0.1, 1)}) { ms.push_back({g, 3}); ms.push_back({bend(g), 3}); }
    for (auto& m : ms) for (int sc = 0; sc < 4; ++sc) for (int v = 0; v < 3; ++v) for (double dt : {1.0, 1e-3, 0.0, 20.0}) { if (!r.next([&] { return m.first.name + strf(" numbering %d velocity %d dt %g", sc, v, dt); })) continue; assembled(r, m.first, m.second, sc, v, dt); } }
