// Finite-element matrices of single elements against reference integrals.
#include "fem.hpp"
#include "FemBeam.hpp"
#include "FemTriangle.hpp"
#include "FemQuadrilateral.hpp"
#include "FemTetrahedron.hpp"
#include "FemTriangularPrism.hpp"
#include "FemHexahedron.hpp"
using namespace ENigMA::fem;
struct Out { MX M, K, M0; VX S; };
typedef std::vector<P3> Pts;
struct BeamX : CFemBeam<R, 2, 1, 1> { void section(double a) { this->m_sectionArea = a; } };
static void verts(BeamX& e, const Pts& p) { e.setStartPoint(p[0]); e.setEndPoint(p[1]); e.calculateLength(); }
template <class E> static void vs(E& e, const Pts& p) { for (auto& q : p) { CGeoCoordinate<R> v(q.x(), q.y(), q.z()); e.addVertex(v); } }
static void verts(CFemTriangle<R, 3, 1, 1>& e, const Pts& p) { vs(e, p); e.calculateArea(); }
static void verts(CFemQuadrilateral<R, 4, 1, 1>& e, const Pts& p) { vs(e, p); e.calculateArea(); }
template <class E> static void verts(E& e, const Pts& p) { vs(e, p); e.calculateVolume(); }
static void extra(BeamX& e, double c, double) { e.setDiffusionCoefficient(c); }
static void extra(CFemTriangle<R, 3, 1, 1>& e, double, double t) { e.setThickness(t); }
static void extra(CFemQuadrilateral<R, 4, 1, 1>& e, double, double t) { e.setThickness(t); }
template <class E> static void extra(E&, double, double) {}
template <class E> static Out runE(const Pts& p, double dt, double coef, double th, bool twice) { E e; verts(e, p); extra(e, coef, th); e.setDt(dt); e.setTransient(true); e.update(); if (twice) e.update(); Out o; o.M = e.ddt; o.K = -e.laplacian; o.S = e.source; return o; }
static Out element(EElementType t, const Pts& p, double dt = 1, double coef = 1, double th = 1, bool twice = false) {
    switch (t) { case ET_BEAM: return runE<BeamX>(p, dt, coef, th, twice); case ET_TRIANGLE: return runE<CFemTriangle<R, 3, 1, 1>>(p, dt, coef, th, twice); case ET_QUADRILATERAL: return runE<CFemQuadrilateral<R, 4, 1, 1>>(p, dt, coef, th, twice); case ET_TETRAHEDRON: return runE<CFemTetrahedron<R, 4, 1, 1>>(p, dt, coef, th, twice); case ET_TRIANGULAR_PRISM: return runE<CFemTriangularPrism<R, 6, 1, 1>>(p, dt, coef, th, twice); default: return runE<CFemHexahedron<R, 8, 1, 1>>(p, dt, coef, th, twice); } }
static const double TOL = 3e-8; // the tables carry ten digits
static bool sameK(const Out& o, const RefEl& q, double c, double sM, double& dM, double& dK) { dM = maxA(o.M - sM * q.M) / (sM * maxA(q.M)); dK = maxA(o.K - c * q.K) / (c * maxA(q.K)); return dM < TOL && dK < TOL; }
// exact: compare entry by entry; otherwise the identities only
static void decide(Run& r, EElementType t, const Pts& p, bool exact, double dt, double coef, double th, bool twice = false) {
    Out o = element(t, p, dt, coef, th, twice); r.op(); int n = nbOf(t); if (!r.expect(o.M.rows() == n && o.M.cols() == n && o.K.rows() == n && o.K.cols() == n && o.S.size() == n && o.M.allFinite() && o.K.allFinite() && o.S.isZero(0), "shape")) return;
    RefEl q = refElement(t, p); double f = dimOf(t) == 2 ? th : 1, c = (t == ET_BEAM ? coef : 1) * f, m = f / (dt > 0 ? dt : 1);
    bool prism = t == ET_TRIANGULAR_PRISM; bool ok = true; char w[300] = ""; auto bad = [&](const char* k, double v) { if (ok) snprintf(w, sizeof w, "%s (%g)", k, v); ok = false; };
    double sM = m * maxA(q.M), sK = c * maxA(q.K), d; // identities
    if ((d = maxA(o.M - o.M.transpose()) / sM) > TOL) bad("capacity symmetric", d); if ((d = std::fabs(o.M.sum() - m * q.measure) / (m * q.measure)) > TOL) bad("capacity total", d);
    if ((d = maxA(o.K - o.K.transpose()) / sK) > TOL) bad("diffusion symmetric", d); if ((d = maxA(o.K * VX::Ones(n)) / sK) > TOL) bad("diffusion of constants", d);
    Eigen::SelfAdjointEigenSolver<MX> es(MX(0.5 * (o.K + o.K.transpose()))), em(MX(0.5 * (o.M + o.M.transpose()))); if ((d = es.eigenvalues()(0)) < -TOL * sK) bad("diffusion semi-definite", d); if (n > 1 && (d = es.eigenvalues()(1)) < 1e-6 * sK) bad("diffusion rank", d); if ((d = em.eigenvalues()(0)) < 1e-6 * sM) bad("capacity definite", d);
    MX X(n, 3); for (int i = 0; i < n; ++i) X.row(i) << p[i].x(), p[i].y(), p[i].z(); MX F = o.K * X, RF = c * q.K * X, E = X.transpose() * F, RE = X.transpose() * RF; double sF = sK * (1 + maxA(X)); if ((d = maxA(F - RF) / sF) > TOL) bad("flux of linear fields", d); if ((d = maxA(E - RE) / (sF * (1 + maxA(X)))) > TOL) bad("energy of linear fields", d);
    if (exact) { double dM, dK; if (!sameK(o, q, c, m, dM, dK)) bad("entries", std::max(dM, dK)); }
    if (!ok && prism) { RefEl b = refElement(t, p, brokenPrismRule()); double dM, dK; if (sameK(o, b, c, m, dM, dK)) { r.expect(false, "six-point-prism", "%s", w); r.trace(); return; } }
    r.expect(ok, "identity", "%s", w); Hash h; h.addr(q.measure).addr(o.K(0, 0)); r.outcome(h); r.trace();
}
static const double DT[4] = {1, 0.1, 250, 0};
static std::string sh(const Pts& p) { std::string s; for (auto& q : p) s += strf("(%g %g %g)", q.x(), q.y(), q.z()); return s; }
static Pts moved(Pts p, int k, double s = 1) { for (auto& q : p) { q = rigid(P3(q.x() * s, q.y() * s, q.z() * s), k); } return p; }
SECTION("beams", "every ordered pair of points of a 3x3x3 lattice x 4 time steps x 3 coefficients x 2 scales") { auto L = lattice(2, 2, 2); const double C[3] = {1, 0.04, 50}; for (auto& a : L) for (auto& b : L) if (a != b) for (int dt = 0; dt < 4; ++dt) for (int c = 0; c < 3; ++c) for (int s = 0; s < 2; ++s) { Pts p = {P3(a.x, a.y, a.z), P3(b.x, b.y, b.z)}; if (s) p = moved(p, 0, 1e-3); if (!r.next([&] { return sh(p) + strf(" dt %g coefficient %g", DT[dt], C[c]); })) continue; r.state(Hash().adds(sh(p)).add(dt).add(c)); decide(r, ET_BEAM, p, true, DT[dt], C[c], 1); } }
static int convex(const Pts& p) { int pos = 0, neg = 0; int n = p.size(); for (int i = 0; i < n; ++i) { P3 a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n]; double x = (b.x() - a.x()) * (c.y() - b.y()) - (b.y() - a.y()) * (c.x() - b.x()); if (x > 0) pos++; else if (x < 0) neg++; } return pos == n ? 1 : neg == n ? -1 : 0; }
static void planar(Run& r, EElementType t, int side) { auto L = lattice(side, side, 0); int n = nbOf(t); int N = L.size(); sequences(n, N, [&](const std::vector<int>& q) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (q[i] == q[j]) return; Pts b; for (int i : q) b.push_back(P3(L[i].x, L[i].y, 0)); int o = convex(b); if (!o) return; for (int k = 0; k < 5; ++k) for (int v = 0; v < 4; ++v) { if (!r.thorough && n == 4 && (k + v + q[0]) % 3) continue; if (!r.next([&] { return std::string(nameOf(t)) + sh(b) + strf(" motion %d variant %d", k, v); })) continue; const double TH[4] = {1, 0.02, 1, 3}; Pts p = moved(b, k, v == 2 ? 1e-3 : 1); r.state(Hash().adds(sh(b)).add(k).add(v)); decide(r, t, p, t == ET_TRIANGLE, DT[v], 1, TH[v], v == 1);
    if (t == ET_QUADRILATERAL) { Out e = element(t, p, DT[v], 1, TH[v]); RefEl x = refElement(t, p); double m = TH[v] / (DT[v] > 0 ? DT[v] : 1); r.expect(maxA(e.M - m * x.M) < TOL * m * maxA(x.M), "capacity-entries", "difference %g of %g", maxA(e.M - m * x.M), m * maxA(x.M)); bool par = (b[0] - b[1] + b[2] - b[3]).norm() == 0; if (par) r.expect(maxA(e.K - TH[v] * x.K) < TOL * TH[v] * maxA(x.K), "diffusion-entries"); } } }); }
SECTION("triangles", "every non-degenerate ordered triangle of a 3x3 (thorough: 4x4) lattice, both directions x 5 rigid motions x 4 variants of time step, thickness and scale: entry by entry") { planar(r, ET_TRIANGLE, r.thorough ? 3 : 2); }
SECTION("quadrilaterals", "every strictly convex ordered quadrilateral of a 3x3 (thorough: 4x4) lattice, both directions and all starting corners x 5 rigid motions x 4 variants (a third in quick)") { planar(r, ET_QUADRILATERAL, r.thorough ? 3 : 2); }
SECTION("tetrahedra", "every positive tetrahedron of a 2x2x2 lattice in every order and of a 3x3x3 lattice with its first corner fixed (thorough: every) x 5 rigid motions x variants") {
    auto go = [&](const std::vector<V3i>& L, bool fix, int step) { int N = L.size(); for (int a = 0; a < (fix ? 1 : N); ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) for (int d = 0; d < N; ++d) { if (det3(L[b] - L[a], L[c] - L[a], L[d] - L[a]) >= 0) continue; Pts q = {P3(L[a].x, L[a].y, L[a].z), P3(L[b].x, L[b].y, L[b].z), P3(L[c].x, L[c].y, L[c].z), P3(L[d].x, L[d].y, L[d].z)}; int k = (b + c + d) % 5; for (int kk = 0; kk < 5; kk += step) { int k2 = (k + kk) % 5, v = (b + 2 * c + kk) % 4; if (!r.next([&] { return "tetrahedron" + sh(q) + strf(" motion %d variant %d", k2, v); })) continue; r.state(Hash().adds(sh(q)).add(k2).add(v)); decide(r, ET_TETRAHEDRON, moved(q, k2, v == 2 ? 1e-3 : 1), true, DT[v], 1, 1, v == 1); } } };
    go(lattice(1, 1, 1), false, 1); go(lattice(2, 2, 2), !r.thorough, 5); }
// affine maps of the reference corner positions and single or double corner displacements
static Pts corners(EElementType t) { if (t == ET_TRIANGULAR_PRISM) return {P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0), P3(0, 0, 1), P3(1, 0, 1), P3(0, 1, 1)}; return {P3(0, 0, 0), P3(1, 0, 0), P3(1, 1, 0), P3(0, 1, 0), P3(0, 0, 1), P3(1, 0, 1), P3(1, 1, 1), P3(0, 1, 1)}; }
template <class F> static void solids(Run& r, EElementType t, F f) {
    const int A[8][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {2, 0, 0, 0, 1, 0, 0, 0, 3}, {1, 1, 0, 0, 1, 0, 0, 0, 1}, {1, 0, 1, 0, 1, 0, 0, 0, 2}, {1, 0, 0, 1, 2, 0, 1, 0, 1}, {1, 2, 0, 0, 1, 1, 1, 0, 1}, {1, 0, 0, 0, 1, 0, 0, 0, -1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}};
    Pts C = corners(t); int n = C.size(); auto map = [&](const Pts& q, int a) { Pts p; for (auto& c : q) p.push_back(P3(A[a][0] * c.x() + A[a][1] * c.y() + A[a][2] * c.z(), A[a][3] * c.x() + A[a][4] * c.y() + A[a][5] * c.z(), A[a][6] * c.x() + A[a][7] * c.y() + A[a][8] * c.z())); return p; };
    for (int a = 0; a < 8; ++a) for (int k = 0; k < 5; ++k) for (int v = 0; v < 4; ++v) { if (!r.next([&] { return std::string(nameOf(t)) + strf(" affine %d motion %d variant %d", a, k, v); })) continue; r.state(Hash().add(a).add(k).add(v)); f(moved(map(C, a), k, v == 2 ? 1e-3 : 1), true, v); }
    std::vector<P3> D = {P3(0.25, 0, 0), P3(0, 0.25, 0), P3(0, 0, 0.25), P3(-0.25, 0, 0), P3(0, -0.25, 0), P3(0, 0, -0.25), P3(0.25, 0.25, -0.25)};
    for (int i = 0; i < n; ++i) for (size_t x = 0; x < D.size(); ++x) for (int j = i; j < n; ++j) for (size_t y = 0; y < D.size(); ++y) { if (j == i && y) continue; if (!r.thorough && j != i && (i + x + j + y) % 4) continue; int a = (i + j + x + y) % 8, k = (x + 2 * y) % 5, v = (i + y) % 4; if (!r.next([&] { return std::string(nameOf(t)) + strf(" corners %d by %d, %d by %d; affine %d motion %d variant %d", i, (int)x, j, (int)y, a, k, v); })) continue; Pts q = C; q[i] = P3(q[i].x() + D[x].x(), q[i].y() + D[x].y(), q[i].z() + D[x].z()); if (j != i) q[j] = P3(q[j].x() + D[y].x(), q[j].y() + D[y].y(), q[j].z() + D[y].z()); Pts p = moved(map(q, a), k, v == 2 ? 1e-3 : 1); if (!refElement(t, p).proper) continue; r.state(Hash().add(i).add(x).add(j).add(y)); f(p, false, v); }
    // frusta and twisted forms
    for (int s = 0; s < 6; ++s) for (int k = 0; k < 5; ++k) { if (!r.next([&] { return std::string(nameOf(t)) + strf(" frustum %d motion %d", s, k); })) continue; Pts q = C; for (auto& p : q) if (p.z() == 1) { double u = p.x() - 0.4, w = p.y() - 0.3; if (s < 3) { double c = s == 0 ? 0.5 : s == 1 ? 1.7 : 0.8; p = P3(0.4 + c * u + (s == 2 ? 0.3 : 0), 0.3 + c * w, 1); } else { double g = 0.15 * (s - 2); p = P3(0.4 + std::cos(g) * u - std::sin(g) * w, 0.3 + std::sin(g) * u + std::cos(g) * w, s == 5 ? 2 : 1); } } r.state(Hash().add(1000 + s).add(k)); f(moved(q, k), false, s % 4); } }
SECTION("prisms", "unit prism under 8 affine maps (one mirrored) x 5 rigid motions x 4 variants entry by entry; every corner displaced by 7 vectors, every pair of corners by pairs of them (a quarter in quick), frusta and twisted prisms: identities") { solids(r, ET_TRIANGULAR_PRISM, [&](const Pts& p, bool ex, int v) { decide(r, ET_TRIANGULAR_PRISM, p, ex, DT[v], 1, 1, v == 1); }); }
// hexahedra: the element class takes its corners row by row (0,1,3,2,...) although it documents the cyclic order
static const int LEX[8] = {0, 1, 3, 2, 4, 5, 7, 6};
SECTION("hexahedra", "the same for hexahedra with corners given row by row") { solids(r, ET_HEXAHEDRON, [&](const Pts& p, bool ex, int v) { Pts q(8); for (int i = 0; i < 8; ++i) q[i] = p[LEX[i]];
    Out o = element(ET_HEXAHEDRON, q, DT[v], 1, 1, v == 1); r.op(); if (!r.expect(o.M.rows() == 8 && o.K.rows() == 8 && o.M.allFinite() && o.K.allFinite() && o.S.isZero(0), "shape")) return; RefEl x = refElement(ET_HEXAHEDRON, p); MX M(8, 8), K(8, 8), X(8, 3); for (int i = 0; i < 8; ++i) { X.row(i) << p[i].x(), p[i].y(), p[i].z(); for (int j = 0; j < 8; ++j) { M(LEX[i], LEX[j]) = o.M(i, j); K(LEX[i], LEX[j]) = o.K(i, j); } } double m = 1 / (DT[v] > 0 ? DT[v] : 1), sM = m * maxA(x.M), sK = maxA(x.K);
    r.expect(maxA(M - M.transpose()) < TOL * sM && std::fabs(M.sum() - m * x.measure) < TOL * m * x.measure, "capacity"); r.expect(maxA(K - K.transpose()) < TOL * sK && maxA(K * VX::Ones(8)) < TOL * sK, "diffusion"); Eigen::SelfAdjointEigenSolver<MX> es(K), em(M); r.expect(es.eigenvalues()(0) > -TOL * sK && es.eigenvalues()(1) > 1e-6 * sK && em.eigenvalues()(0) > 1e-6 * sM, "definite"); r.expect(maxA(K * X - x.K * X) < TOL * sK * (1 + maxA(X)), "linear-flux", "%g", maxA(K * X - x.K * X)); if (ex) r.expect(maxA(M - m * x.M) < TOL * sM && maxA(K - x.K) < TOL * sK, "entries"); r.outcome(Hash().addr(K(0, 0))); r.trace(); }); }
SECTION("hexahedra-documented", "hexahedra with corners in the documented cyclic order, affine shapes") { solids(r, ET_HEXAHEDRON, [&](const Pts& p, bool ex, int v) { if (!ex) return; Out o = element(ET_HEXAHEDRON, p, DT[v], 1, 1); r.op(); RefEl x = refElement(ET_HEXAHEDRON, p); double m = 1 / (DT[v] > 0 ? DT[v] : 1), a, b; if (sameK(o, x, 1, m, a, b)) { r.trace(); return; }
    // equal to the twisted element obtained by reading the corners row by row?
    auto g = legendre(2); std::vector<QP> rule; for (auto& i : g) for (auto& j : g) for (auto& k : g) rule.push_back({{i.first, j.first, k.first}, i.second * j.second * k.second}); Pts q(8); for (int i = 0; i < 8; ++i) q[LEX[i]] = p[i]; RefEl t = refElement(ET_HEXAHEDRON, q, rule); MX M(8, 8), K(8, 8); for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) { M(i, j) = t.M(LEX[i], LEX[j]); K(i, j) = t.K(LEX[i], LEX[j]); }
    bool known = maxA(o.M - m * M) < 1e-7 * m * maxA(M) && maxA(o.K - K) < 1e-7 * maxA(K); r.expect(false, known ? "corner-order" : "other", "capacity off by %g, diffusion by %g", a, b); r.trace(); }); }
static void onEdge(CFemTriangle<R, 3, 1, 1>& e, int i, double v) { e.setSourceOnEdge(i, v); }
static void onEdge(CFemQuadrilateral<R, 4, 1, 1>& e, int i, double v) { e.setSourceOnEdge(i, v); }
template <class E> static void onEdge(E&, int, double) {}
template <class E> static void sourcesOf(Run& r, EElementType t, bool edges) { int n = nbOf(t), k = n + (edges ? n : 0) + 1; sequences(3, k, [&](const std::vector<int>& q) { if (!r.next([&] { return std::string(nameOf(t)) + show(q); })) return; E e; VX s = VX::Zero(n); for (int i = 0; i < 3; ++i) { double v = 1.5 - 2 * i; if (q[i] < n) { e.setSourceOnNode(q[i], v); s(q[i]) += v; } else if (q[i] < k - 1) { onEdge(e, q[i] - n, v); s(q[i] - n) += v / 2; s((q[i] - n + 1) % n) += v / 2; } r.op(); } VX o = e.source; r.expect(o.size() == n && maxA(o - s) < 1e-12, "source"); r.state(Hash().add(t).adds(show(q))); r.trace(); }); }
SECTION("sources", "every sequence of three settings on nodes (all elements) and edges (triangles, quadrilaterals): totals arrive at the right nodes") { sourcesOf<BeamX>(r, ET_BEAM, false); sourcesOf<CFemTriangle<R, 3, 1, 1>>(r, ET_TRIANGLE, true); sourcesOf<CFemQuadrilateral<R, 4, 1, 1>>(r, ET_QUADRILATERAL, true); sourcesOf<CFemTetrahedron<R, 4, 1, 1>>(r, ET_TETRAHEDRON, false); sourcesOf<CFemTriangularPrism<R, 6, 1, 1>>(r, ET_TRIANGULAR_PRISM, false); sourcesOf<CFemHexahedron<R, 8, 1, 1>>(r, ET_HEXAHEDRON, false); }
