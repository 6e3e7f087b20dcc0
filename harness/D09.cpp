// Boundary-element influence coefficients and system.
#include "pde.hpp"
#include "BemTriangle.hpp"
using namespace ENigMA::bem;
typedef CBemTriangle<R> BT;
typedef std::array<P3, 3> Tri;
static BT panel(const Tri& t) { BT b; for (auto& p : t) b.addVertex(p); return b; }
static V3l cen(const Tri& t) { return (toL(t[0]) + toL(t[1]) + toL(t[2])) * (1.0L / 3); }
static LD area(const Tri& t) { return norm(cross(toL(t[1]) - toL(t[0]), toL(t[2]) - toL(t[0]))) / 2; }
static LD size(const Tri& t) { return std::max(norm(toL(t[1]) - toL(t[0])), std::max(norm(toL(t[2]) - toL(t[1])), norm(toL(t[0]) - toL(t[2])))); }
// signed solid angle of the triangle seen from p: positive when p lies behind its normal
static LD solid(const V3l& p, const Tri& t) { V3l a = toL(t[0]) - p, b = toL(t[1]) - p, c = toL(t[2]) - p; LD x = norm(a), y = norm(b), z = norm(c); return 2 * atan2l(dot(a, cross(b, c)), x * y * z + dot(a, b) * z + dot(b, c) * x + dot(c, a) * y); }
// integral of 1/r over the triangle
static LD potential(const V3l& p, const Tri& t) { V3l n = cross(toL(t[1]) - toL(t[0]), toL(t[2]) - toL(t[0])); n = n * (1 / norm(n)); LD w = dot(p - toL(t[0]), n), s = 0; for (int i = 0; i < 3; ++i) { V3l a = toL(t[i]), b = toL(t[(i + 1) % 3]), e = (b - a) * (1 / norm(b - a)), m = cross(e, n); LD d = dot(a - p, m), s0 = dot(a - p, e), s1 = dot(b - p, e), q = d * d + w * w; if (q < 1e-24L) continue; s += d * (asinhl(s1 / sqrtl(q)) - asinhl(s0 / sqrtl(q))); } return s - fabsl(w) * fabsl(solid(p, t)); }
static LD distTo(const V3l& p, const Tri& t) { // by dense barycentric scan, good enough to grade the tolerance
    LD best = 1e300L; const int N = 12; for (int i = 0; i <= N; ++i) for (int j = 0; i + j <= N; ++j) { V3l q = toL(t[0]) * ((LD)i / N) + toL(t[1]) * ((LD)j / N) + toL(t[2]) * ((LD)(N - i - j) / N); best = std::min(best, norm(p - q)); } return best; }
static const LD PI4 = 4 * acosl(-1.0L);
static int grade(LD rho) { return rho < 0.15 ? 0 : rho < 0.25 ? 1 : rho < 0.4 ? 2 : rho < 0.7 ? 3 : rho < 1.2 ? 4 : rho < 2.5 ? 5 : 6; }
static const double TG[7] = {-1, 0.012, 0.002, 2e-4, 5e-6, 4e-8, 1e-8}, TH[7] = {-1, 0.03, 0.008, 1e-3, 4e-5, 3e-7, 1e-7};
static double hScale(const V3l& p, const Tri& t) { LD d = distTo(p, t); return (double)(area(t) / (d * d) / PI4); }
// influence of panel b at the centroid of a, against the exact integrals; returns the tolerance on h (negative: too close for the rule)
static double judge(Run& r, const Tri& a, const Tri& b, double h, double g, const char* what) { V3l p = cen(a); LD rho = distTo(p, b) / size(b); int q = grade(rho); if (q == 0) return -1; double hs = -(double)(solid(p, b) / PI4), gs = (double)(potential(p, b) / PI4), hn = hScale(p, b); r.expect(std::fabs(g - gs) <= TG[q] * gs, (std::string(what) + "-potential").c_str(), "%.9g instead of %.9g at %.2Lf", g, gs, rho); r.expect(std::fabs(h - hs) <= TH[q] * hn, (std::string(what) + "-angle").c_str(), "%.9g instead of %.9g at %.2Lf", h, hs, rho); return TH[q] * hn; }
static double judgeSelf(Run& r, const Tri& a, double h, double g) { double gs = (double)(potential(cen(a), a) / PI4); r.expect(h == 0 || std::fabs(h) < 1e-14, "self-angle", "%g", h); r.expect(near(g, gs, 1e-11 * gs), "self-potential", "%.12g instead of %.12g", g, gs); return gs; }
static std::vector<Tri> panels(int n) { std::vector<Tri> T; auto L = lattice(n, 1, 1); for (auto& a : L) for (auto& b : L) for (auto& c : L) { Tri t = {C(a), C(b), C(c)}; if (area(t) > 1e-9L) T.push_back(t); } return T; }
SECTION("panels", "every ordered triangle of the 2x2x2 (thorough 3x2x2) lattice as panel x every point of a grid of half steps around it as the centre of the other panel: h is minus the solid angle over 4 pi and g the integral of 1/r over 4 pi, to the accuracy of the rule at that distance") {
    auto T = panels(r.thorough ? 2 : 1); int N = r.thorough ? 8 : 6; for (size_t j = 0; j < T.size(); ++j) for (int q = 0; q < N * N * N; ++q) { if (!r.next([&] { return strf("panel %d point %d", (int)j, q); })) continue; r.state(Hash().add(j).add(q)); P3 o(-1 + 0.55 * (q % N), -1 + 0.55 * (q / N % N), -1 + 0.55 * (q / N / N)); Tri a = {o, P3(o.x() + 0.3, o.y(), o.z()), P3(o.x(), o.y() + 0.3, o.z() + 0.15)}; BT x = panel(a), y = panel(T[j]); double h, g, h2, g2; x.laplacianCoeff(0, 1, y, h, g); judge(r, a, T[j], h, g, "pair"); x.laplacianCoeff(7, 3, y, h2, g2); r.op(2); r.expect(h == h2 && g == g2, "repeat"); r.outcome(Hash().addr(h, 1e-6).addr(g, 1e-6)); r.trace(); } }
SECTION("self", "every ordered triangle of the 3x2x2 (thorough 4x2x2) lattice x 4 sizes x 3 places: the self influence is exactly the in-plane integral, 0 for h") {
    auto T = panels(r.thorough ? 3 : 2); const double S[4] = {1, 0.01, 37.5, 1000}; for (size_t j = 0; j < T.size(); ++j) for (int s = 0; s < 4; ++s) for (int m = 0; m < 3; ++m) { if (!r.next([&] { return strf("panel %d size %g place %d", (int)j, S[s], m); })) continue; r.state(Hash().add(j).add(s).add(m)); Tri a; for (int k = 0; k < 3; ++k) a[k] = P3(S[s] * (T[j][k].x() + 2 * m), S[s] * (T[j][k].y() - m), S[s] * (T[j][k].z() + m)); BT x = panel(a), y = panel(a); double h, g; x.laplacianCoeff(m, m, m == 1 ? x : y, h, g); r.op(); r.outcome(Hash().addr(judgeSelf(r, a, h, g), 1e-9)); r.trace(); } }
struct Surf { std::string name; std::vector<P3> p; std::vector<std::vector<int>> t; P3 inside; };
static Surf refine(const Surf& s) { Surf o; o.name = s.name + " refined"; o.inside = s.inside; o.p = s.p; std::map<std::pair<int, int>, int> M; auto mid = [&](int a, int b) { auto k = std::make_pair(std::min(a, b), std::max(a, b)); if (M.count(k)) return M[k]; o.p.push_back(P3((s.p[a].x() + s.p[b].x()) / 2, (s.p[a].y() + s.p[b].y()) / 2, (s.p[a].z() + s.p[b].z()) / 2)); return M[k] = (int)o.p.size() - 1; }; for (auto& t : s.t) { int a = mid(t[0], t[1]), b = mid(t[1], t[2]), c = mid(t[2], t[0]); o.t.push_back({t[0], a, c}); o.t.push_back({a, t[1], b}); o.t.push_back({c, b, t[2]}); o.t.push_back({a, b, c}); } return o; }
static std::vector<Surf> surfaces() { std::vector<Surf> v; for (auto& b : bodies()) { Surf s; s.name = b.name; LD x = 0, y = 0, z = 0; for (auto& p : b.v) { s.p.push_back(C(p)); x += p.x; y += p.y; z += p.z; } s.inside = P3(x / b.v.size(), y / b.v.size(), z / b.v.size()); for (auto& f : b.f) for (size_t i = 1; i + 1 < f.size(); ++i) s.t.push_back({f[0], f[i], f[i + 1]}); v.push_back(s); } int n = v.size(); for (int i = 0; i < n; ++i) v.push_back(refine(v[i])); return v; }
static Tri triOf(const Surf& s, int i) { return {s.p[s.t[i][0]], s.p[s.t[i][1]], s.p[s.t[i][2]]}; }
static Mesh meshOf(const Surf& s, bool flip, int scheme) { int n = s.t.size(); std::vector<int> nid = scheme == 0 ? iota(s.p.size()) : scheme == 1 ? iota(s.p.size(), 50, 3) : iota(s.p.size(), 90, -1), eid = scheme == 0 ? iota(n) : scheme == 1 ? iota(n, 7, 5) : iota(n, n + 4, -1); Mesh m; for (size_t i = 0; i < s.p.size(); ++i) m.addNode(nid[i], CMshNode<R>(s.p[i].x(), s.p[i].y(), s.p[i].z())); for (int i = 0; i < n; ++i) { std::vector<int> q; for (int k : s.t[i]) q.push_back(nid[k]); if (flip) std::swap(q[1], q[2]); m.addElement(eid[i], mkElem(ET_TRIANGLE, q)); } return m; }
SECTION("identity", "every closed surface of the catalogue of bodies, plain and refined x its panels x every point of a grid: the influences of the panels sum to one half at panel centres, one inside and zero outside") {
    auto S = surfaces(); for (size_t c = 0; c < S.size(); ++c) { Surf& s = S[c]; int n = s.t.size(); for (int i = 0; i < n + 8; ++i) { if (!r.next([&] { return s.name + strf(" point %d", i); })) continue; r.state(Hash().add(c).add(i)); Tri a; if (i < n) a = triOf(s, i); else { P3 o = s.inside; if (i > n) o = P3(s.inside.x() + ((i - n) & 1 ? 9 : -7), s.inside.y() + ((i - n) & 2 ? 8 : -9), s.inside.z() + ((i - n) & 4 ? 11 : -6)); a = {P3(o.x() - 0.05, o.y(), o.z()), P3(o.x() + 0.05, o.y() - 0.05, o.z()), P3(o.x(), o.y() + 0.05, o.z())}; } BT x = panel(a); double H = 0, tol = 1e-9; bool ok = true; for (int j = 0; j < n; ++j) { Tri b = triOf(s, j); BT y = panel(b); double h, g; x.laplacianCoeff(i, j, y, h, g); r.op(); if (i == j) { judgeSelf(r, a, h, g); } else { double t = judge(r, a, b, h, g, "surface"); if (t < 0) ok = false; else tol += t; } H += h; } double want = i < n ? -0.5 : i == n ? -1 : 0; if (ok) r.expect(std::fabs(H - want) <= tol, "sum", "%g instead of %g within %g", H, want, tol); r.outcome(Hash().addr(H, 1e-3)); r.trace(); } } }
SECTION("system", "every closed surface x both orientations x 3 numberings x every pattern of prescribed panels of a list: matrix and right-hand side are made of the coefficients row by row, and the solution of prescribed equal values is that value everywhere") {
    auto S = surfaces(); for (size_t c = 0; c < S.size(); ++c) { Surf& s = S[c]; int n = s.t.size(); if (n > (r.thorough ? 60 : 30)) continue; for (int flip = 0; flip < 2; ++flip) for (int sch = 0; sch < 3; ++sch) for (int pat = 0; pat < 5; ++pat) { if (!r.next([&] { return s.name + strf(" flip %d numbering %d pattern %d", flip, sch, pat); })) continue; r.state(Hash().add(c).add(flip).add(sch).add(pat)); Mesh m = meshOf(s, flip, sch); Field T = mkField(m, DM_BEM, ST_THERMAL, DL_ELEMENT_CENTER); std::map<int, double> fix; for (int i = 0; i < n; ++i) if (pat == 1 ? i == n - 1 : pat == 2 ? i % 2 == 0 : pat == 3 ? true : pat == 4 ? i % 3 == 1 : false) { fix[i] = pat == 2 ? 40.0 : 10 + i; T.setFixedValue(i, fix[i]); } Sys sys = laplacian<R>(T); r.op();
        bool size = sys.matrixA.rows() == n && sys.matrixA.cols() == n && sys.vectorB.size() == n; r.expect(size, "size"); if (!size) { r.trace(); continue; } MX A = denseOf(sys); double worst = 0, wb = 0; for (int i = 0; i < n; ++i) { double bi = 0; for (int j = 0; j < n; ++j) { Tri a = triOf(s, i), b = triOf(s, j); if (flip) { std::swap(a[1], a[2]); std::swap(b[1], b[2]); } BT x = panel(a), y = panel(b); double h, g; x.laplacianCoeff(i == j ? 1 : 0, 1, y, h, g); double w = h - (i == j ? 0.5 : 0); if (fix.count(j)) { w -= g / (double)area(b); bi -= g / (double)area(b) * fix[j]; } worst = std::max(worst, std::fabs(A(i, j) - w)); } wb = std::max(wb, std::fabs(sys.vectorB[i] - bi)); } r.expect(worst <= 1e-12 * (1 + maxAbs(A)), "matrix", "off by %g", worst); r.expect(wb <= 1e-10 * (1 + sys.vectorB.cwiseAbs().maxCoeff()), "right-hand side", "off by %g", wb);
        if (pat == 2 && flip && n >= 12) { VX u = A.fullPivLu().solve(sys.vectorB); double d = 0; for (int i = 0; i < n; ++i) d = std::max(d, std::fabs(u[i] - 40)); r.expect(d <= 4, "constant", "off by %g of 40", d); } r.outcome(Hash().addr(A(0, n - 1), 1e-9)); r.trace(); } } }
