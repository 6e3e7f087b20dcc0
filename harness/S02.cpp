// Solving: every small system of each declared kind.
#include "vk.hpp"
#include <Eigen/Dense>
#include "CmnTypes.hpp"
#include "SleSystem.hpp"
using namespace vk;
using namespace ENigMA::sle;
typedef CSleSystem<double> Sys;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
static void solveCheck(Run& r, const M& A, const V& b, EMatrixType kind, int pattern, double tol) {
    int n = b.size(); Sys s; s.matrixType = kind; s.matrixA.resize(n, n); s.vectorB = b;
    for (int i = n - 1; i >= 0; --i) for (int j = 0; j < n; ++j) if (A(i, j) != 0 || (pattern & 1)) s.matrixA.coeffRef(i, j) = A(i, j);
    if (pattern & 2) s.matrixA.makeCompressed();
    V x = s.solve(); r.op();
    if (!r.expect(x.size() == n, "size", "%d", (int)x.size())) return;
    double sc = A.cwiseAbs().maxCoeff() * n * std::max(x.cwiseAbs().maxCoeff(), 1e-300) + b.cwiseAbs().maxCoeff(); double res = (A * x - b).cwiseAbs().maxCoeff();
    r.expect(res <= tol * sc, "residual", "residual %g scale %g", res, sc);
    r.expect(s.matrixType == kind && M(s.matrixA) == A && s.vectorB == b, "system-changed");
    V y = s.solve(); r.op(); r.expect(y.size() == n && (A * y - b).cwiseAbs().maxCoeff() <= tol * sc && (x - y).cwiseAbs().maxCoeff() <= 1e-9 * (1 + x.cwiseAbs().maxCoeff()), "repeat");
    Sys t = s; t.vectorB = 3 * b; V z = t.solve(); r.op(); r.expect(z.size() == n && (A * z - 3 * b).cwiseAbs().maxCoeff() <= 3 * tol * sc, "new-right-side");
    Hash h; for (int i = 0; i < n; ++i) h.addr(x[i]); r.outcome(h); r.trace();
}
static V rhs(int n, int w) { V b(n); for (int i = 0; i < n; ++i) b[i] = w == 0 ? (i == 0) : w == 1 ? 0 : w == 2 ? i + 1 : (i & 1 ? -7 : 3) + i * i; return b; }
template <class F> static void matrices(int n, const std::vector<int>& vals, F f) { sequences(n * n, vals.size(), [&](const std::vector<int>& q) { M A(n, n); for (int i = 0; i < n * n; ++i) A(i / n, i % n) = vals[q[i]]; f(A, q); }); }
static std::string showM(const M& A) { std::ostringstream o; o << "["; for (int i = 0; i < A.rows(); ++i) { for (int j = 0; j < A.cols(); ++j) o << A(i, j) << " "; o << "; "; } o << "]"; return o.str(); }
static ll idet(const M& A) { int n = A.rows(); if (n == 1) return llround(A(0, 0)); ll s = 0; for (int j = 0; j < n; ++j) { if (A(0, j) == 0) continue; M B(n - 1, n - 1); for (int i = 1; i < n; ++i) for (int k = 0, c = 0; k < n; ++k) if (k != j) B(i - 1, c++) = A(i, k); s += (j & 1 ? -1 : 1) * llround(A(0, j)) * idet(B); } return s; }
static u64 hashM(const M& A, int w, int p) { Hash h; h.add(A.rows()).add(w).add(p); for (int i = 0; i < A.size(); ++i) h.addd(A.data()[i]); return h; }
static void dense(Run& r, int n, const std::vector<int>& vals, int nb) {
    matrices(n, vals, [&](const M& A, const std::vector<int>& q) { if (idet(A) == 0) return; for (int w = 0; w < nb; ++w) { int p = (q[0] + q.back() + w) & 3; if (!r.next([&] { return "dense " + showM(A) + strf(" right side %d storage %d", w, p); })) continue; r.state(hashM(A, w, p)); solveCheck(r, A, rhs(n, w == 1 && nb == 2 ? 2 : w), MT_DENSE, p, 1e-10); } });
}
SECTION("dense", "every non-singular matrix: 1x1 and 2x2 with entries -4..4, 3x3 with entries -1..1 (thorough also -1,0,2 and every 0/1 matrix of size 4), four right-hand sides, four storage patterns in rotation") { dense(r, 1, {-4, -3, -2, -1, 1, 2, 3, 4}, 4); dense(r, 2, {-4, -3, -2, -1, 0, 1, 2, 3, 4}, 4); dense(r, 3, {-1, 0, 1}, 4); if (r.thorough) { dense(r, 3, {-1, 0, 2, 3}, 2); dense(r, 4, {0, 1}, 2); } }
static void dominant(Run& r, int n, const std::vector<int>& vals) {
    // strictly diagonally dominant: off-diagonal pattern enumerated, diagonal sign and excess enumerated
    sequences(n * (n - 1), vals.size(), [&](const std::vector<int>& q) { for (int sg = 0; sg < (1 << n); ++sg) for (int ex = 1; ex <= 2; ++ex) for (int w = 0; w < 4; ++w) {
        M A = M::Zero(n, n); int k = 0; for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) if (j != i) { A(i, j) = vals[q[k++]]; s += std::fabs(A(i, j)); } A(i, i) = (sg >> i & 1 ? -1 : 1) * (s + ex); }
        int p = (q[0] + w) & 3; if (!r.next([&] { return "sparse " + showM(A) + strf(" right side %d storage %d", w, p); })) continue; r.state(hashM(A, w, p)); solveCheck(r, A, rhs(n, w), MT_SPARSE, p, 1e-7); } });
}
SECTION("sparse", "every strictly diagonally dominant matrix: 2x2 with off-diagonal entries -3..3, 3x3 with -1..1 (thorough also -2..2 and 4x4 one-directional), every sign of the diagonal, two excesses, four right-hand sides") { dominant(r, 2, {-3, -2, -1, 0, 1, 2, 3}); dominant(r, 3, {-1, 0, 1}); if (r.thorough) { dominant(r, 3, {-2, 0, 1, 3}); dominant(r, 4, {0, -1}); }
    for (int i = -4; i <= 4; ++i) if (i) for (int w = 0; w < 4; ++w) { if (!r.next([&] { return strf("sparse 1x1 %d", i); })) continue; M A(1, 1); A(0, 0) = i; r.state(hashM(A, w, 0)); solveCheck(r, A, rhs(1, w), MT_SPARSE, 0, 1e-9); } }
static void spd(Run& r, int n, int lo, int hi, int dlo, int dhi) {
    int no = n * (n - 1) / 2; sequences(no, hi - lo + 1, [&](const std::vector<int>& q) { sequences(n, dhi - dlo + 1, [&](const std::vector<int>& d) { M A(n, n); int k = 0; for (int i = 0; i < n; ++i) { A(i, i) = dlo + d[i]; for (int j = i + 1; j < n; ++j) A(i, j) = A(j, i) = lo + q[k++]; }
        for (int m = 1; m <= n; ++m) if (idet(A.topLeftCorner(m, m)) <= 0) return;
        for (int w = 0; w < 4; ++w) { int p = (d[0] + w) & 3; if (!r.next([&] { return "positive definite " + showM(A) + strf(" right side %d storage %d", w, p); })) continue; r.state(hashM(A, w, p)); solveCheck(r, A, rhs(n, w), MT_SPARSE_SYMMETRIC, p, 1e-7); } }); });
}
SECTION("symmetric", "every symmetric positive definite matrix: 1x1 1..6, 2x2 with entries -3..3 and diagonal 1..5, 3x3 with entries -2..2 and diagonal 1..4 (thorough 4x4 with entries -1..1, diagonal 1..3), four right-hand sides") { spd(r, 1, 0, 0, 1, 6); spd(r, 2, -3, 3, 1, 5); spd(r, 3, -2, 2, 1, 4); if (r.thorough) spd(r, 4, -1, 1, 1, 3); }
SECTION("scaled", "the 1-D Laplace and convection-diffusion matrices of size 1..24 over scales 1e-6..1e6 in every kind they qualify for") {
    for (int n = 1; n <= 24; ++n) for (int ke = -6; ke <= 6; ke += 3) for (int conv = 0; conv < 2; ++conv) for (int kind = 0; kind < 3; ++kind) for (int w = 0; w < 4; ++w) { if (kind == 0 && conv) continue;
        if (!r.next([&] { return strf("size %d scale 1e%d convection %d kind %d right side %d", n, ke, conv, kind, w); })) continue; double k = std::pow(10.0, ke); M A = M::Zero(n, n); for (int i = 0; i < n; ++i) { A(i, i) = (2 + (conv ? 0.5 : 0) + (kind == 1 ? 0.05 : 0)) * k; if (i) A(i, i - 1) = -(conv ? 1.5 : 1) * k; if (i < n - 1) A(i, i + 1) = -(conv ? 0.5 : 1) * k; } r.state(hashM(A, w, kind)); solveCheck(r, A, rhs(n, w), (EMatrixType)kind, w, 1e-6); }
}
