// Isoparametric reference matrices, independent of the library: own shape functions, own quadrature.
#pragma once
#include "msh.hpp"
#include <Eigen/Dense>
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
struct QP { double c[3]; double w; };
inline std::vector<std::pair<double, double>> legendre(int n) { std::vector<std::pair<double, double>> r; for (int i = 0; i < n; ++i) { double x = std::cos(M_PI * (i + 0.75) / (n + 0.5)), dp = 1; for (int it = 0; it < 100; ++it) { double p0 = 1, p1 = x; for (int k = 2; k <= n; ++k) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } dp = n == 1 ? 1 : n * (x * p1 - p0) / (x * x - 1); double f = n == 1 ? x : p1; double dx = f / dp; x -= dx; if (std::fabs(dx) < 1e-16) break; } r.push_back({x, n == 1 ? 2 : 2 / ((1 - x * x) * dp * dp)}); } return r; }
inline int dimOf(EElementType t) { return t == ET_BEAM ? 1 : t == ET_TRIANGLE || t == ET_QUADRILATERAL ? 2 : 3; }
// reference rules of high order: line/quad/hex on [-1,1], triangle/tetrahedron on the unit simplex, prism triangle x [-1,1]
inline std::vector<QP> refRule(EElementType t, int n = 5) {
    auto g = legendre(n); std::vector<QP> r; auto u = [](double x) { return 0.5 * (x + 1); };
    for (auto& a : g) { if (t == ET_BEAM) { r.push_back({{a.first, 0, 0}, a.second}); continue; } for (auto& b : g) { if (t == ET_QUADRILATERAL) { r.push_back({{a.first, b.first, 0}, a.second * b.second}); continue; }
        double x = u(a.first), y = u(b.first), wt = a.second * b.second / 4; if (t == ET_TRIANGLE) { r.push_back({{x, y * (1 - x), 0}, wt * (1 - x)}); continue; }
        for (auto& c : g) { if (t == ET_HEXAHEDRON) r.push_back({{a.first, b.first, c.first}, a.second * b.second * c.second}); else if (t == ET_TRIANGULAR_PRISM) r.push_back({{x, y * (1 - x), c.first}, wt * (1 - x) * c.second}); else { double z = u(c.first); r.push_back({{x, y * (1 - x), z * (1 - x) * (1 - y)}, wt * c.second / 2 * (1 - x) * (1 - x) * (1 - y)}); } } } }
    return r; }
// values and reference derivatives of the shape functions; node order as the library documents it
inline void shape(EElementType t, const double* c, VX& N, MX& D) {
    double x = c[0], y = c[1], z = c[2]; int n = nbOf(t), d = dimOf(t); N.resize(n); D.setZero(d, n);
    auto corner = [&](int i, std::initializer_list<int> s) { double v[3] = {x, y, z}; std::vector<int> q(s); double f = 1; for (int k = 0; k < d; ++k) f *= 0.5 * (1 + q[k] * v[k]); N(i) = f; for (int k = 0; k < d; ++k) { double g = 0.5 * q[k]; for (int l = 0; l < d; ++l) if (l != k) g *= 0.5 * (1 + q[l] * v[l]); D(k, i) = g; } };
    switch (t) {
    case ET_BEAM: corner(0, {-1}); corner(1, {1}); break;
    case ET_QUADRILATERAL: corner(0, {-1, -1}); corner(1, {1, -1}); corner(2, {1, 1}); corner(3, {-1, 1}); break;
    case ET_HEXAHEDRON: corner(0, {-1, -1, -1}); corner(1, {1, -1, -1}); corner(2, {1, 1, -1}); corner(3, {-1, 1, -1}); corner(4, {-1, -1, 1}); corner(5, {1, -1, 1}); corner(6, {1, 1, 1}); corner(7, {-1, 1, 1}); break;
    case ET_TRIANGLE: N << 1 - x - y, x, y; D << -1, 1, 0, -1, 0, 1; break;
    case ET_TETRAHEDRON: N << 1 - x - y - z, x, y, z; D << -1, 1, 0, 0, -1, 0, 1, 0, -1, 0, 0, 1; break;
    case ET_TRIANGULAR_PRISM: { double L[3] = {1 - x - y, x, y}, dx[3] = {-1, 1, 0}, dy[3] = {-1, 0, 1}; for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) { double h = 0.5 * (1 + (k ? z : -z)); N(3 * k + i) = L[i] * h; D(0, 3 * k + i) = dx[i] * h; D(1, 3 * k + i) = dy[i] * h; D(2, 3 * k + i) = L[i] * (k ? 0.5 : -0.5); } break; }
    default: break; } }
struct RefEl { MX M, K; VX S; double measure; bool proper; }; // int NiNj, int grad.grad, int Ni
inline RefEl refElement(EElementType t, const std::vector<P3>& p, const std::vector<QP>& rule) {
    int n = nbOf(t), d = dimOf(t); RefEl r; r.M = MX::Zero(n, n); r.K = r.M; r.S = VX::Zero(n); r.measure = 0; r.proper = true; MX X(n, 3); for (int i = 0; i < n; ++i) X.row(i) << p[i].x(), p[i].y(), p[i].z(); VX N; MX D; double sgn = 0;
    for (auto& q : rule) { shape(t, q.c, N, D); MX J = D * X; MX G = J * J.transpose(); double det = G.determinant(); double dv = std::sqrt(std::max(det, 0.0)); if (d == 3) { double s = J.determinant(); if (sgn == 0) sgn = s; if (s * sgn <= 0) r.proper = false; } if (!(dv > 0)) { r.proper = false; continue; } r.M += q.w * dv * N * N.transpose(); r.K += q.w * dv * D.transpose() * G.inverse() * D; r.S += q.w * dv * N; r.measure += q.w * dv; }
    return r; }
inline RefEl refElement(EElementType t, const std::vector<P3>& p) { return refElement(t, p, refRule(t)); }
inline double maxA(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
// the six-point prism rule as tabulated in the library (known finding of D07)
inline std::vector<QP> brokenPrismRule() { std::vector<QP> r; double a = 1.0 / 6, b = 1.0 / 3, g = 1 / std::sqrt(3.0), c[3][2] = {{a, a}, {b, a}, {a, b}}; for (int k = 0; k < 2; ++k) for (auto& q : c) r.push_back({{q[0], q[1], k ? g : -g}, 0.125}); return r; }
// rigid motions used throughout
inline P3 rigid(const P3& p, int k) {
    if (k == 0) return p; if (k == 1) return P3(p.x() + 5, p.y() - 3, p.z() + 0.5); double x = p.x(), y = p.y(), z = p.z();
    if (k == 2) return P3(0.6 * x - 0.8 * y, 0.8 * x + 0.6 * y, z); if (k == 3) return P3(z, x, y); double a = 2.0 / 3, b = 1.0 / 3; return P3(a * x - b * y + a * z - 1, a * x + a * y - b * z + 2, -b * x + a * y + a * z + 7); }
