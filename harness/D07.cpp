// Every tabulated quadrature rule against every monomial.
#include "geo.hpp"
#include "IntBeam.hpp"
#include "IntTriangle.hpp"
#include "IntQuadrilateral.hpp"
#include "IntTetrahedron.hpp"
#include "IntTriangularPrism.hpp"
#include "IntHexahedron.hpp"
using namespace ENigMA::integration;
typedef std::vector<std::array<double, 4>> Rule; // coordinates and weight
struct B : CIntBeam<R> { Rule get(int n) { m_integPoints = n; setGaussPoints(); Rule r; for (size_t i = 0; i < m_xi.size(); ++i) r.push_back({m_xi[i], 0, 0, m_wxi[i]}); return r; } };
struct Tr : CIntTriangle<R> { Rule get(int n) { m_integPoints = n; setBarycentricGaussPoints(); Rule r; for (size_t i = 0; i < m_beta1.size(); ++i) r.push_back({m_beta1[i], m_beta2[i], m_beta3[i], m_wbeta[i]}); return r; } };
struct Q : CIntQuadrilateral<R> { Rule get(int n) { m_integPoints = n; setGaussPoints(); Rule r; for (size_t i = 0; i < m_xi.size(); ++i) r.push_back({m_xi[i], m_eta[i], 0, m_wxi[i] * m_weta[i]}); return r; } };
struct Pr : CIntTriangularPrism<R> { Rule get(int n) { m_integPoints = n; setGaussPoints(); Rule r; for (size_t i = 0; i < m_xi.size(); ++i) r.push_back({m_xi[i], m_eta[i], m_zeta[i], m_wxi[i] * m_weta[i] * m_wzeta[i]}); return r; } };
struct H : CIntHexahedron<R> { Rule get(int n) { m_integPoints = n; setGaussPoints(); Rule r; for (size_t i = 0; i < m_xi.size(); ++i) r.push_back({m_xi[i], m_eta[i], m_zeta[i], m_wxi[i] * m_weta[i] * m_wzeta[i]}); return r; } };
static double fact(int n) { double f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
static double line(int n) { return n & 1 ? 0 : 2.0 / (n + 1); }
static double tri(int a, int b, int c) { return fact(a) * fact(b) * fact(c) / fact(a + b + c + 2); }
static double integ(const Rule& q, int a, int b, int c) { LD s = 0; for (auto& p : q) s += (LD)p[3] * std::pow((LD)p[0], a) * std::pow((LD)p[1], b) * std::pow((LD)p[2], c); return (double)s; }
template <class C> static Rule rule(C& c, int n, int again) { for (int k = 0; k < again; ++k) c.get(k == 0 ? n : 1); return c.get(n); } // the same object used for other rules first
static void mono(Run& r, const char* shape, const Rule& q, int n, int a, int b, int c, double want, double tol) {
    if (!r.expect((int)q.size() == n, "points", "%d points instead of %d", (int)q.size(), n)) return;
    double g = integ(q, a, b, c); r.op(n); r.state(Hash().adds(shape).add(n).add(a).add(b).add(c)); r.outcome(Hash().addr(want)); r.expect(std::fabs(g - want) <= tol, "integral", "%s rule of %d points, monomial %d %d %d: %.12g instead of %.12g", shape, n, a, b, c, g, want); r.trace(); }
#define CASE(...) if (!r.next([&] { return strf(__VA_ARGS__); })) continue
SECTION("line", "rules of 1, 2, 3, 4 and 6 points x every power up to degree 2n-1 x three histories of the same object") { int N[] = {1, 2, 3, 4, 6}; for (int n : N) for (int a = 0; a <= 2 * n - 1; ++a) for (int h = 0; h < 3; ++h) { CASE("line %d points power %d history %d", n, a, h); B c; Rule q = rule(c, n, h); for (auto& p : q) r.expect(std::fabs(p[0]) < 1 && p[3] > 0, "outside", "%g weight %g", p[0], p[3]); mono(r, "line", q, n, a, 0, 0, line(a), 1e-8); } }
SECTION("triangle", "barycentric rules of 1, 3, 6, 7, 12, 16, 17 and 20 points x every barycentric monomial up to the rule's degree (1 2 4 5 6 8 8 9) x three histories") { int N[][2] = {{1, 1}, {3, 2}, {6, 4}, {7, 5}, {12, 6}, {16, 8}, {17, 8}, {20, 9}}; for (auto& n : N) for (int a = 0; a <= n[1]; ++a) for (int b = 0; a + b <= n[1]; ++b) for (int c = 0; a + b + c <= n[1]; ++c) for (int h = 0; h < 3; ++h) { CASE("triangle %d points monomial %d %d %d history %d", n[0], a, b, c, h); Tr t; Rule q = rule(t, n[0], h); for (auto& p : q) r.expect(p[0] >= 0 && p[1] >= 0 && p[2] >= 0 && std::fabs(p[0] + p[1] + p[2] - 1) < 1e-12 && p[3] > 0, "outside", "%g %g %g weight %g", p[0], p[1], p[2], p[3]); mono(r, "triangle", q, n[0], a, b, c, tri(a, b, c), 2e-9); } }
SECTION("quadrilateral", "rules of 1, 4 and 8 points x every monomial with total degree up to 1, 3 and 5 (4 points: each power up to 3) x three histories") { int N[][3] = {{1, 1, 1}, {4, 6, 3}, {8, 5, 5}}; for (auto& n : N) for (int a = 0; a <= n[2]; ++a) for (int b = 0; b <= n[2] && a + b <= n[1]; ++b) for (int h = 0; h < 3; ++h) { CASE("quadrilateral %d points monomial %d %d history %d", n[0], a, b, h); Q t; Rule q = rule(t, n[0], h); for (auto& p : q) r.expect(std::fabs(p[0]) < 1 && std::fabs(p[1]) < 1 && p[3] > 0, "outside", "%g %g", p[0], p[1]); mono(r, "quadrilateral", q, n[0], a, b, 0, line(a) * line(b), 1e-8); } }
// the rule recorded as a known finding (an existing test pins its results): points (1/6,1/6) (1/3,1/6) (1/6,1/3) at -+1/sqrt(3), weight 1/8 each
static double tabulatedSix(int a, int b, int c) { double s = 0, p[3][2] = {{1 / 6.0, 1 / 6.0}, {1 / 3.0, 1 / 6.0}, {1 / 6.0, 1 / 3.0}}; for (auto& q : p) for (int z = -1; z < 2; z += 2) s += 0.125 * std::pow(q[0], a) * std::pow(q[1], b) * std::pow(z / std::sqrt(3.0), c); return s; }
SECTION("prism", "rules of 1, 6 and 9 points x every monomial up to degree 1, 2, 2 over the triangle and 1, 3, 5 along the axis x three histories") { int N[][3] = {{1, 1, 1}, {6, 2, 3}, {9, 2, 5}}; for (auto& n : N) for (int a = 0; a <= n[1]; ++a) for (int b = 0; a + b <= n[1]; ++b) for (int c = 0; c <= n[2]; ++c) for (int h = 0; h < 3; ++h) { CASE("prism %d points monomial %d %d %d history %d", n[0], a, b, c, h); Pr t; Rule q = rule(t, n[0], h); for (auto& p : q) r.expect(p[0] > 0 && p[1] > 0 && p[0] + p[1] < 1 && std::fabs(p[2]) < 1 && p[3] > 0, "outside", "%g %g %g", p[0], p[1], p[2]); double want = tri(a, b, 0) * line(c); if (n[0] == 6 && std::fabs(integ(q, a, b, c) - want) > 1e-8 && std::fabs(integ(q, a, b, c) - tabulatedSix(a, b, c)) < 1e-12) { r.expect(false, "six-point-prism", "%.6g instead of %.6g", integ(q, a, b, c), want); continue; } mono(r, "prism", q, n[0], a, b, c, want, 1e-8); } }
SECTION("hexahedron", "rules of 1, 8 and 27 points x every monomial with each power up to 1, 3, 5 x three histories") { int N[][2] = {{1, 1}, {8, 3}, {27, 5}}; for (auto& n : N) for (int a = 0; a <= n[1]; ++a) for (int b = 0; b <= n[1]; ++b) for (int c = 0; c <= n[1]; ++c) for (int h = 0; h < 3; ++h) { CASE("hexahedron %d points monomial %d %d %d history %d", n[0], a, b, c, h); H t; Rule q = rule(t, n[0], h); for (auto& p : q) r.expect(std::fabs(p[0]) < 1 && std::fabs(p[1]) < 1 && std::fabs(p[2]) < 1 && p[3] > 0, "outside", "%g %g %g", p[0], p[1], p[2]); mono(r, "hexahedron", q, n[0], a, b, c, line(a) * line(b) * line(c), 2e-8); } }
