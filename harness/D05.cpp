// Constant-strain structural elements against the exact linear elastic energy.
#include "fem.hpp"
#include "FemConstantStrainTriangle.hpp"
#include "FemConstantStrainTetrahedron.hpp"
using namespace ENigMA::fem;
using namespace ENigMA::fem::structural;
typedef std::vector<P3> Pts;
typedef CFemConstantStrainTriangle<R, 3, 2, 1> Tri;
typedef CFemConstantStrainTetrahedron<R, 4, 3, 1> Tet;
static void verts(Tri& e, const Pts& p) { for (auto& q : p) { CGeoCoordinate<R> v(q.x(), q.y(), q.z()); e.addVertex(v); } e.calculateArea(); }
static void verts(Tet& e, const Pts& p) { for (auto& q : p) { CGeoCoordinate<R> v(q.x(), q.y(), q.z()); e.addVertex(v); } e.calculateVolume(); }
static void thick(Tri& e, double t) { e.setThickness(t); }
static void thick(Tet&, double) {}
template <class E> static MX stiff(const Pts& p, double Em, double nu, double th, int times) { E e; verts(e, p); thick(e, th); e.setElasticModulus(Em); e.setCoeffPoisson(nu); for (int i = 0; i < times; ++i) e.update(); return e.laplacian; }
static const double EM[4] = {1, 210e9, 0.5, 3e6}, NU[5] = {0, 0.3, 0.49, -0.4, 0.2}, TH[4] = {1, 0.02, 5, 1};
static std::string sh(const Pts& p) { std::string s; for (auto& q : p) s += strf("(%g %g %g)", q.x(), q.y(), q.z()); return s; }
// stress of a strain tensor: plane stress in two dimensions
static MX stress(const MX& e, double E, double nu) { int d = e.rows(); MX I = MX::Identity(d, d); double mu = E / (2 * (1 + nu)), la = d == 2 ? E * nu / (1 - nu * nu) : E * nu / ((1 + nu) * (1 - 2 * nu)); return 2 * mu * e + la * e.trace() * I; }
static void decide(Run& r, const MX& K, const Pts& p, int d, double measure, double E, double nu) {
    int n = p.size(), N = n * d; if (!r.expect(K.rows() == N && K.cols() == N && K.allFinite(), "shape")) return;
    double s = maxA(K); const double T = 2e-8; r.expect(s > 0 && maxA(K - K.transpose()) <= T * s, "symmetric");
    MX X(n, d); for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) X(i, k) = k == 0 ? p[i].x() : k == 1 ? p[i].y() : p[i].z(); MX Xc = X.rowwise() - X.colwise().mean(); double L = maxA(Xc);
    int rigid = d == 2 ? 3 : 6; Eigen::SelfAdjointEigenSolver<MX> es(MX(0.5 * (K + K.transpose()))); auto ev = es.eigenvalues(); double top = ev(N - 1); r.expect(ev(0) > -2e-8 * top, "semi-definite", "%g of %g", ev(0), top); r.expect(std::fabs(ev(rigid - 1)) < 2e-8 * top && ev(rigid) > 1e-6 * top, "rigid-modes", "%g %g of %g", ev(rigid - 1), ev(rigid), top);
    // translations and uniform displacement gradients (rotations are their antisymmetric combinations)
    std::vector<MX> G; std::vector<VX> U; for (int k = 0; k < d; ++k) { VX u = VX::Zero(N); for (int i = 0; i < n; ++i) u(i * d + k) = 1; r.expect(maxA(K * u) <= T * s, "translation", "%d", k); }
    for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) { MX g = MX::Zero(d, d); g(a, b) = 1; VX u = VX::Zero(N); for (int i = 0; i < n; ++i) u(i * d + a) = Xc(i, b); G.push_back(g); U.push_back(u); }
    for (int a = 0; a < d; ++a) for (int b = 0; b < a; ++b) { VX f = K * (U[a * d + b] - U[b * d + a]); r.expect(maxA(f) <= T * s * L, "rotation", "force %g", maxA(f)); }
    double scale = E * measure * 2 / ((1 + nu) * (1 - 2 * nu)); for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < G.size(); ++j) { MX ei = 0.5 * (G[i] + G[i].transpose()), ej = 0.5 * (G[j] + G[j].transpose()); double want = measure * (ei.cwiseProduct(stress(ej, E, nu))).sum(), got = U[i].dot(K * U[j]); r.expect(std::fabs(want - got) <= T * scale * 10, "energy", "gradients %d %d: %g instead of %g", (int)i, (int)j, got, want); }
    r.outcome(Hash().addr(K(0, 0) / E).addr(K(0, 1) / E)); r.trace();
}
static double scaleOf(int v) { return v == 2 ? 1e-3 : v == 3 ? 40 : 1; }
// relabelling: permuting the corners (keeping the orientation) permutes the matrix
template <class E> static void relabel(Run& r, const MX& K, const Pts& p, int d, double Em, double nu, double th, const std::vector<std::vector<int>>& perms) { int n = p.size(); for (auto& q : perms) { Pts t(n); for (int i = 0; i < n; ++i) t[i] = p[q[i]]; MX H = stiff<E>(t, Em, nu, th, 1); double w = 0; for (int i = 0; i < n * d; ++i) for (int j = 0; j < n * d; ++j) w = std::max(w, std::fabs(H(i, j) - K(q[i / d] * d + i % d, q[j / d] * d + j % d))); r.expect(w <= 1e-7 * maxA(K), "relabelling", "%g", w); r.op(); } }
SECTION("triangles", "every non-degenerate ordered triangle of a 3x3 (thorough: 4x4) lattice, both directions, in planes z = 0, 2 and -0.5 x 4 moduli, thicknesses and scales x 5 Poisson ratios") {
    int side = r.thorough ? 3 : 2; auto L = lattice(side, side, 0); for (auto& a : L) for (auto& b : L) for (auto& c : L) { int det = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); if (!det) continue; for (int v = 0; v < 4; ++v) for (int m = 0; m < 5; ++m) { double s = scaleOf(v), z = m % 3 == 0 ? 0 : m % 3 == 1 ? 2 : -0.5; Pts p = {P3(a.x * s, a.y * s, z), P3(b.x * s, b.y * s, z), P3(c.x * s, c.y * s, z)}; if (!r.next([&] { return sh(p) + strf(" modulus %g Poisson %g thickness %g", EM[v], NU[m], TH[v]); })) continue; r.state(Hash().adds(sh(p)).add(v).add(m)); MX K = stiff<Tri>(p, EM[v], NU[m], TH[v], v == 1 ? 2 : 1); r.op(); decide(r, K, p, 2, std::fabs(det) * 0.5 * s * s * TH[v], EM[v], NU[m]); if (K.rows() == 6) relabel<Tri>(r, K, p, 2, EM[v], NU[m], TH[v], {{1, 2, 0}, {2, 0, 1}, {1, 0, 2}}); } } }
SECTION("tetrahedra", "every positive tetrahedron of a 2x2x2 lattice in every order, of a 3x3x3 lattice with its first corner fixed (thorough: every) x 5 rigid motions x 4 moduli and scales x 5 Poisson ratios") {
    auto go = [&](const std::vector<V3i>& L, bool fix, bool all) { int N = L.size(); for (int a = 0; a < (fix ? 1 : N); ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) for (int d = 0; d < N; ++d) { int det = det3(L[b] - L[a], L[c] - L[a], L[d] - L[a]); if (det >= 0) continue; for (int i = 0; i < (all ? 20 : 1); ++i) { int v = all ? i % 4 : (a + b + 2 * c + d) % 4, m = all ? i % 5 : (b + c + 3 * d) % 5, k = all ? (i + i / 5) % 5 : (2 * b + c + d) % 5; double s = scaleOf(v); Pts p; for (int x : {a, b, c, d}) p.push_back(rigid(P3(L[x].x * s, L[x].y * s, L[x].z * s), k)); if (!r.next([&] { return sh(p) + strf(" modulus %g Poisson %g", EM[v], NU[m]); })) continue; r.state(Hash().adds(sh(p)).add(v).add(m)); MX K = stiff<Tet>(p, EM[v], NU[m], 1, v == 1 ? 2 : 1); r.op(); decide(r, K, p, 3, -det / 6.0 * s * s * s, EM[v], NU[m]); if (K.rows() == 12) relabel<Tet>(r, K, p, 3, EM[v], NU[m], 1, {{1, 2, 0, 3}, {1, 0, 3, 2}, {3, 0, 2, 1}}); } } };
    go(lattice(1, 1, 1), false, true); go(lattice(2, 2, 2), !r.thorough, false); }
