// Convective and linearised radiative conditions on the edges of thermal elements.
#include "pde.hpp"
#include "fem.hpp"
#include "FemLinearTemperatureBeam.hpp"
#include "FemLinearTemperatureTriangle.hpp"
#include "FemLinearTemperatureQuadrilateral.hpp"
using namespace ENigMA::fem;
using namespace ENigMA::fem::thermal;
typedef std::vector<P3> Pts;
static std::string sh(const Pts& p) { std::string s; for (auto& q : p) s += strf("(%g %g %g)", q.x(), q.y(), q.z()); return s; }
struct Beam : CFemLinearTemperatureBeam<R, 2, 1, 1> { void around(double p) { this->m_perimeter = p; } };
typedef CFemLinearTemperatureTriangle<R, 3, 1, 1> Tri;
typedef CFemLinearTemperatureQuadrilateral<R, 4, 1, 1> Quad;
template <class E> static void vs(E& e, const Pts& p, double th) { for (auto& q : p) { CGeoCoordinate<R> v(q.x(), q.y(), q.z()); e.addVertex(v); } e.calculateArea(); e.setThickness(th); }
static void verts(Beam& e, const Pts& p, double th) { CGeoCoordinate<R> a(p[0].x(), p[0].y(), p[0].z()), b(p[1].x(), p[1].y(), p[1].z()); e.setStartPoint(a); e.setEndPoint(b); e.calculateLength(); e.around(th); }
static void verts(Tri& e, const Pts& p, double th) { vs(e, p, th); }
static void verts(Quad& e, const Pts& p, double th) { vs(e, p, th); }
static void conv(Beam& e, int, double h, double T) { e.setConvectionOnEdge(h, T); }
static void conv(Tri& e, int i, double h, double T) { e.setConvectionOnEdge(i, h, T); }
static void conv(Quad& e, int i, double h, double T) { e.setConvectionOnEdge(i, h, T); }
static void rad(Beam& e, int, double a, double b, double T) { e.setConvectionOnEdge(a, b, T); }
static void rad(Tri& e, int i, double a, double b, double T) { e.setConvectionOnEdge(i, a, b, T); }
static void rad(Quad& e, int i, double a, double b, double T) { e.setConvectionOnEdge(i, a, b, T); }
struct Cond { int edge; double h, T; };
// what a set of edge conditions adds: surface integrals of h Ni Nj and h T Ni
static void addRef(MX& L, VX& S, const Pts& p, const Cond& c, double width, const std::vector<int>& at) { int n = p.size(), a = c.edge % n, b = (c.edge + 1) % n; double l = (p[a] - p[b]).norm() * width; a = at[a]; b = at[b]; L(a, a) -= c.h * l / 3; L(b, b) -= c.h * l / 3; L(a, b) -= c.h * l / 6; L(b, a) -= c.h * l / 6; S(a) -= c.h * c.T * l / 2; S(b) -= c.h * c.T * l / 2; }
static const double HH[5] = {10, 0, 1e4, 0.5, 3}, TT[5] = {20, -40, 300, 0, 1};
template <class E> static void decide(Run& r, const Pts& p, int k, double width) { // every sequence of one or two conditions on edges
    int n = p.size(), edges = n == 2 ? 1 : n; E bare; verts(bare, p, width); bare.update(); MX K0 = bare.laplacian; VX S0 = bare.source; std::vector<int> id = iota(n);
    for (int a = 0; a < edges; ++a) for (int b = -1; b < edges; ++b) for (int kind = 0; kind < 3; ++kind) {
        if (!r.next([&] { return sh(p) + strf(" edges %d %d kind %d values %d width %g", a, b, kind, k, width); })) continue; r.state(Hash().adds(sh(p)).add(a).add(b).add(kind).add(k));
        E e; verts(e, p, width); e.update(); MX L = K0; VX S = S0; double sc = 0; for (int q = 0; q < 2; ++q) { int i = q ? b : a; if (i < 0) continue; double h = HH[(k + q) % 5], T = TT[(k + 2 * q) % 5]; if (kind == 1 || (kind == 2 && q)) { double em = 0.1 + 0.2 * k, th = 1e7 * h; rad(e, i, em, th, T); h = 5.6704e-8 * em * th; } else conv(e, i, h, T); r.op(); addRef(L, S, p, {i, h, T}, width, id); sc += std::fabs(h) * (1 + std::fabs(T)); }
        double len = 0; for (int i = 0; i < n; ++i) len = std::max(len, (double)(p[i] - p[(i + 1) % n]).norm()); double s = maxA(K0) + sc * len * width; if (!r.expect(e.laplacian.rows() == n && e.source.size() == n, "shape")) continue;
        r.expect(maxA(e.laplacian - L) < 1e-4 * 0.1 * sc * len * width + 1e-11 * s, "matrix", "off by %g of %g", maxA(e.laplacian - L), s); r.expect(maxA(e.source - S) < 1e-5 * sc * len * width + 1e-11 * s, "source", "off by %g", maxA(e.source - S));
        // balance: an element at the ambient temperature receives nothing
        if (b < 0) { double T = kind ? TT[k % 5] : TT[k % 5]; VX f = (e.laplacian - K0) * VX::Constant(n, T) - (e.source - S0); r.expect(maxA(f) < 1e-10 * s * (1 + std::fabs(T)), "balance", "%g", maxA(f)); }
        // nodes off the edges keep their rows
        for (int i = 0; i < n; ++i) { bool on = false; for (int q : {a, b}) if (q >= 0 && (i == q % n || i == (q + 1) % n)) on = true; if (!on) r.expect(maxA(e.laplacian.row(i) - K0.row(i)) <= 1e-13 * s && std::fabs(e.source(i) - S0(i)) <= 1e-13 * s, "locality"); }
        r.outcome(Hash().addr(e.laplacian(0, 0)).addr(e.source(0))); r.trace(); } }
static Pts moved(Pts p, int k, double s = 1) { for (auto& q : p) q = rigid(P3(q.x() * s, q.y() * s, q.z() * s), k); return p; }
SECTION("beams", "every ordered pair of points of a 3x3x3 lattice x 5 coefficients and ambient temperatures x 2 perimeters; convective and radiative") { auto L = lattice(2, 2, 2); for (auto& a : L) for (auto& b : L) if (a != b) for (int k = 0; k < 5; ++k) for (double w : {1.0, 0.04}) decide<Beam>(r, {P3(a.x, a.y, a.z), P3(b.x, b.y, b.z)}, k, w); }
static int convex(const Pts& p) { int pos = 0, neg = 0; int n = p.size(); for (int i = 0; i < n; ++i) { P3 a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n]; double x = (b.x() - a.x()) * (c.y() - b.y()) - (b.y() - a.y()) * (c.x() - b.x()); if (x > 0) pos++; else if (x < 0) neg++; } return pos == n ? 1 : neg == n ? -1 : 0; }
template <class E> static void planar(Run& r, int n, int side) { auto L = lattice(side, side, 0); int N = L.size(); sequences(n, N, [&](const std::vector<int>& q) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (q[i] == q[j]) return; if (n == 4 && !r.thorough && q[0] > 2) return; Pts b; for (int i : q) b.push_back(P3(L[i].x, L[i].y, 0)); if (!convex(b)) return; int s = 0; for (int i : q) s = s * 3 + i; for (int k = 0; k < 5; ++k) { if (!r.thorough && n == 4 && (k + s) % 5) continue; decide<E>(r, moved(b, (k + s) % 5, k == 2 ? 1e-2 : 1), k, k == 1 ? 0.02 : k == 3 ? 4 : 1); } }); }
SECTION("triangles", "every non-degenerate ordered triangle of a 3x3 (thorough: 4x4) lattice, moved rigidly, x every edge and ordered pair of edges (repeats included) x convective, radiative, mixed x 5 sets of values") { planar<Tri>(r, 3, r.thorough ? 3 : 2); }
SECTION("quadrilaterals", "every strictly convex ordered quadrilateral of a 3x3 (thorough: 4x4) lattice, moved rigidly, x every edge and ordered pair of edges x convective, radiative, mixed x sets of values") { planar<Quad>(r, 4, r.thorough ? 3 : 2); }
// conditions given to a field reach exactly the equations of the edge's nodes, whatever the numbering
static void bc(Field& T, int id, int edge, double h, double Ta, bool conv = true) { CPdeBoundaryCondition<R> c(conv ? BT_HEAT_CONVECTIVE : BT_GENERIC_ZERO_GRADIENT); c.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, h); c.addCondition(CT_HEAT_INFINITESIMAL_TEMPERATURE, Ta); T.addBCElement(id, edge, c); }
SECTION("operator", "thermal Laplacian over 9 line, triangle, quadrilateral and mixed meshes x 4 numberings x every single element edge, every pair of them and all at once") {
    std::vector<MD> C; for (int n = 1; n <= 3; ++n) C.push_back(gridLine(n, n + 0.5)); for (int s = 0; s < 3; ++s) { C.push_back(gridQuad(2, 1, 0.7, 0.4, s)); C.push_back(gridQuad(2, 2, 1, 3, s)); }
    for (size_t m = 0; m < C.size(); ++m) for (int num = 0; num < 4; ++num) { Mesh M = mkMeshN(C[m], num); int n = M.nbNodes(); std::vector<std::pair<int, int>> slots; for (int e = 0; e < M.nbElements(); ++e) { CMshElement<R> el = M.element(M.elementId(e)); int k = el.nbNodeIds(); for (int i = 0; i < (k == 2 ? 1 : k); ++i) slots.push_back({(int)M.elementId(e), i}); }
        Field T0 = mkField(M, DM_FEM, ST_THERMAL); Sys s0 = laplacian<R>(T0); MX A0 = denseOf(s0); VX b0 = s0.vectorB; int S = slots.size();
        std::vector<std::vector<int>> sets; sets.push_back(iota(S)); sets.push_back({}); for (int i = 0; i < S; ++i) { sets.push_back({i}); for (int j = 0; j < i; ++j) if (r.thorough || S < 16 || (i + j) % 3 == 0) sets.push_back({i, j}); }
        for (size_t q = 0; q < sets.size(); ++q) { if (!r.next([&] { return C[m].name + strf(" numbering %d edges ", num) + show(sets[q]); })) continue; r.state(Hash().add(m).add(num).add(q));
            Field T = mkField(M, DM_FEM, ST_THERMAL); MX A = A0; VX b = b0; for (int i : sets[q]) { int id = slots[i].first, ed = slots[i].second; double h = HH[i % 5], Ta = TT[(i + 1) % 5]; if (i % 4 == 1) bc(T, id, ed, 77, 5); bc(T, id, ed, h, Ta, i % 7 != 6); if (i % 7 == 6) continue; CMshElement<R> el = M.element(id); Pts p; std::vector<int> at; for (int v = 0; v < el.nbNodeIds(); ++v) { auto& nd = M.node(el.nodeId(v)); p.push_back(P3(nd.x(), nd.y(), nd.z())); at.push_back(M.nodeIndex(el.nodeId(v))); } addRef(A, b, p, {ed, h, Ta}, 1, at); }
            Sys s = laplacian<R>(T); r.op(); MX G = denseOf(s); if (!r.expect(G.rows() == n && s.vectorB.size() == n, "size")) continue; double sc = maxA(A) + maxA(b); r.expect(maxA(G - A) < 1e-10 * sc, "matrix", "off by %g of %g", maxA(G - A), sc); r.expect(maxA(s.vectorB - b) < 1e-10 * sc, "vector", "off by %g of %g", maxA(s.vectorB - b), sc); r.outcome(Hash().addr(maxA(G)).addr(maxA(s.vectorB))); r.trace(); } } }
SECTION("steady", "heat loss through one convective end edge of a strip: linear temperature between a fixed end and the film, for quadrilateral and triangle strips of 1..4 cells x 3 film coefficients x 3 ambient temperatures x 4 numberings") {
    const double H[3] = {0.5, 2, 100}, TA[3] = {0, 25, -10}; for (int nx = 1; nx <= 4; ++nx) for (int split = 0; split < 2; ++split) for (int num = 0; num < 4; ++num) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { MD d = gridQuad(nx, 2, 0.5, 0.3, split); if (!r.next([&] { return d.name + strf(" numbering %d film %g ambient %g", num, H[i], TA[j]); })) continue; r.state(Hash().adds(d.name).add(num).add(i).add(j)); Mesh M = mkMeshN(d, num); Field T = mkField(M, DM_FEM, ST_THERMAL); double L = 0.5 * nx, T0 = 100;
        for (int e = 0; e < M.nbElements(); ++e) { int id = M.elementId(e); CMshElement<R> el = M.element(id); int k = el.nbNodeIds(); for (int v = 0; v < k; ++v) if (std::fabs(M.node(el.nodeId(v)).x() - L) < 1e-9 && std::fabs(M.node(el.nodeId((v + 1) % k)).x() - L) < 1e-9) bc(T, id, v, H[i], TA[j]); }
        for (int v = 0; v < M.nbNodes(); ++v) if (std::fabs(M.node(M.nodeId(v)).x()) < 1e-9) T.setFixedValue(v, T0); Sys s = laplacian<R>(T); CPdeEquation<R> e(s); e.setElimination(T); e.solve(T); r.op(4); double TL = (T0 / L + H[i] * TA[j]) / (1 / L + H[i]); for (int v = 0; v < M.nbNodes(); ++v) { double x = M.node(M.nodeId(v)).x(), want = T0 + (TL - T0) * x / L; r.expect(std::fabs(T.u(v) - want) < 1e-5 * (1 + std::fabs(T0)), "temperature", "at %g: %g instead of %g", x, T.u(v), want); } r.outcome(Hash().addr(TL)); r.trace(); } }
