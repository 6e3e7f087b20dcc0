// Linear-system algebra: every expression up to a depth against a dense reference.
#include "vk.hpp"
#include <Eigen/Dense>
#include "CmnTypes.hpp"
#include "SleSystem.hpp"
using namespace vk;
using namespace ENigMA::sle;
typedef double R;
typedef CSleSystem<R> Sys;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
struct Ref { M A; V b; int kind; };
struct Pair { Sys s; Ref d; };

// small integer systems; kind 0 symmetric, 1 general, 2 dense; variant changes pattern (holes on the diagonal, empty rows)
static Pair mk(int n, int kind, int variant) {
    Pair p; p.d.A = M::Zero(n, n); p.d.b = V::Zero(n); p.d.kind = kind;
    for (int i = 0; i < n; ++i) { p.d.b[i] = (i * 5 + variant * 3) % 7 - 3; for (int j = 0; j < n; ++j) {
        int a = kind == 0 ? std::min(i, j) : i, b = kind == 0 ? std::max(i, j) : j;
        p.d.A(i, j) = (a * 3 + b * 5 + variant * 2 + a * b) % 6 - 2; if (variant == 1 && i == j) p.d.A(i, j) = 0; if (variant == 2 && kind && i == n - 1) p.d.A(i, j) = 0; } }
    p.s.matrixType = (EMatrixType)kind; p.s.matrixA.resize(n, n); p.s.vectorB = p.d.b;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (p.d.A(i, j) != 0) p.s.matrixA.insert(i, j) = p.d.A(i, j);
    if (variant != 1) p.s.matrixA.makeCompressed();
    return p;
}
static bool sameSys(const Sys& a, const Ref& d) {
    if (a.matrixA.rows() != d.A.rows() || a.matrixA.cols() != d.A.cols() || a.vectorB.size() != d.b.size()) return false;
    double s = 1 + d.A.cwiseAbs().maxCoeff() + d.b.cwiseAbs().maxCoeff();
    return (M(a.matrixA) - d.A).cwiseAbs().maxCoeff() <= 1e-12 * s && (a.vectorB - d.b).cwiseAbs().maxCoeff() <= 1e-12 * s;
}
static Ref mkRef(M A, V b) { Ref r; r.A = A; r.b = b; r.kind = 1; return r; }
static V vec(int n, int w) { V v(n); for (int i = 0; i < n; ++i) v[i] = w == 0 ? i + 1 : w == 1 ? (i & 1 ? -2 : 0.5) : 3; return v; }
enum { NOPS = 21 };
static const char* opName[NOPS] = {"C+3", "C-2", "C+(-0.5)", "C+X", "C-X", "X-C", "X+C", "C+Y", "C-Y", "Y-C", "C+C", "C-C", "2.5*C", "-1*C", "0*C", "v0*C", "v1*C", "v2*C", "C=4", "C=v1", "3*X-v0*C"};
static V vecOf(int n, double k) { return V::Constant(n, k); }
static void apply(int o, Sys& c, Ref& d, const Pair& X, const Pair& Y) {
    int n = d.b.size(); M I = M::Identity(n, n);
    switch (o) {
    case 0: c = Sys(c + 3.0); d = mkRef(d.A + 3 * I, d.b + vecOf(n, 3)); break;
    case 1: c = Sys(c - 2.0); d = mkRef(d.A - 2 * I, d.b - vecOf(n, 2)); break;
    case 2: c = Sys(c + -0.5); d = mkRef(d.A - 0.5 * I, d.b - vecOf(n, 0.5)); break;
    case 3: c = c + X.s; d = mkRef(d.A + X.d.A, d.b + X.d.b); break;
    case 4: c = c - X.s; d = mkRef(d.A - X.d.A, d.b - X.d.b); break;
    case 5: c = X.s - c; d = mkRef(X.d.A - d.A, X.d.b - d.b); break;
    case 6: c = X.s + c; d = mkRef(X.d.A + d.A, X.d.b + d.b); break;
    case 7: c = c + Y.s; d = mkRef(d.A + Y.d.A, d.b + Y.d.b); break;
    case 8: c = c - Y.s; d = mkRef(d.A - Y.d.A, d.b - Y.d.b); break;
    case 9: c = Y.s - c; d = mkRef(Y.d.A - d.A, Y.d.b - d.b); break;
    case 10: c = c + c; d = mkRef(2 * d.A, 2 * d.b); break;
    case 11: c = c - c; d = mkRef(0 * d.A, 0 * d.b); break;
    case 12: c = 2.5 * c; d = mkRef(2.5 * d.A, 2.5 * d.b); break;
    case 13: c = -1.0 * c; d = mkRef(-d.A, -d.b); break;
    case 14: c = 0.0 * c; d = mkRef(0 * d.A, 0 * d.b); break;
    case 15: case 16: case 17: { V v = vec(n, o - 15); c = v * c; d = mkRef(v.asDiagonal() * d.A, v.cwiseProduct(d.b)); break; }
    case 18: c = 4.0; d.b += vecOf(n, 4); break;
    case 19: c = vec(n, 1); d.b += vec(n, 1); break;
    case 20: { V v = vec(n, 0); c = 3.0 * X.s - v * c; d = mkRef(3 * X.d.A - M(v.asDiagonal() * d.A), 3 * X.d.b - v.cwiseProduct(d.b)); break; }
    }
}
SECTION("expressions", "every sequence of up to 4 operations (quick: 3) of an alphabet of 21 on systems of size 1..3, every declared kind and 3 sparsity patterns of the accumulated system and of the second operand: matrix, right-hand side and declared kind after every operation, operands unchanged") {
    for (int n = 1; n <= 3; ++n) for (int kc = 0; kc < 3; ++kc) for (int var = 0; var < 3; ++var) for (int ky = 1; ky < 3; ++ky) for (int len = 1; len <= (r.thorough ? 4 : 3); ++len) sequences(len, NOPS, [&](const std::vector<int>& q) {
        if (len == 4 && (var + kc + ky) % 3) return;
        if (!r.next([&] { std::string s; for (int o : q) s += std::string(opName[o]) + "; "; return strf("size %d kind %d pattern %d, Y kind %d: ", n, kc, var, ky) + s; })) return;
        Pair C = mk(n, kc, var), X = mk(n, 0, (var + 1) % 3), Y = mk(n, ky, (var + 2) % 3); Ref d = C.d; Sys c = C.s; Hash h; h.add(n).add(kc).add(var).add(ky); bool denseSeen = kc == 2;
        for (int o : q) {
            Sys before = c; const Sys keep = c; Ref was = d; apply(o, c, d, X, Y); r.op(); h.add(o); r.state(h);
            r.expect(sameSys(c, d), "algebra", "after %s", opName[o]);
            r.expect(sameSys(keep, was) && sameSys(before, was), "copy-changed", "%s", opName[o]);
            r.expect(sameSys(X.s, X.d) && sameSys(Y.s, Y.d) && X.s.matrixType == 0 && Y.s.matrixType == ky, "operand-changed", "%s", opName[o]);
            if ((o >= 7 && o <= 9) && ky == 2) denseSeen = true;
            bool sym = (d.A - d.A.transpose()).cwiseAbs().maxCoeff() == 0;
            r.expect(c.matrixType != MT_UNKNOWN, "kind-lost", "%s", opName[o]);
            r.expect(c.matrixType != MT_SPARSE_SYMMETRIC || sym, "false-symmetry", "after %s the unsymmetric result is declared symmetric", opName[o]);
            r.expect(!denseSeen || c.matrixType == MT_DENSE, "dense-kind", "%s", opName[o]);
        }
        Hash w; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w.addr(d.A(i, j)); r.outcome(w); r.trace();
    });
}
SECTION("laws", "every triple of 9 systems per size 1..4: commutativity, associativity, distributivity, cancellation, and operands aliasing the result") {
    for (int n = 1; n <= 4; ++n) for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c) {
        if (!r.next([&] { return strf("size %d systems %d %d %d", n, a, b, c); })) continue;
        Pair A = mk(n, a % 3, a / 3), B = mk(n, b % 3, b / 3), C = mk(n, c % 3, c / 3); V v = vec(n, a % 3); auto ref = [](const Sys& s) { return mkRef(M(s.matrixA), s.vectorB); };
        r.expect(sameSys(A.s + B.s, ref(B.s + A.s)), "commute"); r.expect(sameSys((A.s + B.s) + C.s, ref(A.s + (B.s + C.s))), "associate"); r.expect(sameSys(2.0 * (A.s - B.s), ref(2.0 * A.s - 2.0 * B.s)), "distribute"); r.expect(sameSys(v * (A.s + B.s), ref(v * A.s + v * B.s)), "distribute-vector"); r.expect(sameSys((A.s + B.s) - B.s, A.d), "cancel"); r.expect(sameSys((A.s + 1.5) - 1.5, A.d), "cancel-number");
        r.expect(sameSys(C.s - (A.s - B.s), ref(C.s - A.s + B.s)), "nested"); r.expect((A.s + B.s).matrixType == std::max(A.s.matrixType, B.s.matrixType) && (A.s - B.s).matrixType == std::max(A.s.matrixType, B.s.matrixType), "kind"); r.expect(sameSys(A.s, A.d) && sameSys(B.s, B.d) && sameSys(C.s, C.d), "operands");
        Sys s = A.s; s = s + s; r.expect(sameSys(s, mkRef(2 * A.d.A, 2 * A.d.b)), "alias"); (s = 2.0) = v; r.expect(sameSys(s, mkRef(2 * A.d.A, 2 * A.d.b + vecOf(n, 2) + v)), "assignment-chain"); r.op(16); r.state(Hash().add(n).add(a).add(b).add(c)); r.trace(); }
}
