// Smoothing kernels: value, support, normalisation, gradient and Laplacian.
#include "geo.hpp"
#include <memory>
#include "SphConvex.hpp"
#include "SphCubicSpline.hpp"
#include "SphGaussian.hpp"
#include "SphQuintic.hpp"
#include "SphSpiky.hpp"
using namespace ENigMA::sph;
static const char* KN[5] = {"Gaussian", "quintic", "convex", "spiky", "cubic spline"};
static const double SUP[5] = {3, 2, 2, 1, 2};
static std::unique_ptr<CSphKernel<R>> make(int k, int dim, bool late) { std::unique_ptr<CSphKernel<R>> p; int d = late ? 1 + dim % 3 : dim; switch (k) { case 0: p.reset(new CSphGaussian<R>(d)); break; case 1: p.reset(new CSphQuintic<R>(d)); break; case 2: p.reset(new CSphConvex<R>(d)); break; case 3: p.reset(new CSphSpiky<R>(d)); break; default: p.reset(new CSphCubicSpline<R>(d)); } if (late) p->setDimension(dim); return p; }
// directions admissible in the kernel's dimension
static std::vector<P3> dirs(int dim) { std::vector<P3> r = {P3(1, 0, 0), P3(-1, 0, 0)}; if (dim > 1) { r.push_back(P3(0, 1, 0)); r.push_back(P3(0.6, -0.8, 0)); } if (dim > 2) { r.push_back(P3(0, 0, -1)); r.push_back(P3(2.0 / 3, -1.0 / 3, 2.0 / 3)); } return r; }
static CGeoVector<R> vec(const P3& d, double s) { return CGeoVector<R>(d.x() * s, d.y() * s, d.z() * s); }
static std::vector<double> HS(bool th) { std::vector<double> h = {1, 0.5, 2, 1.45, 0.01, 30}; if (th) for (double x : {1e-4, 0.1, 0.7, 3.3, 1e3}) h.push_back(x); return h; }
SECTION("values", "5 kernels x 3 dimensions x smoothing lengths 0.01..30 (thorough 1e-4..1e3) x dimension set at or after construction x directions x 257 (thorough 2049) radii from 0 to 1.5 supports, borders included: non-negative, decreasing, isotropic, zero outside, scaling with the smoothing length") {
    int N = r.thorough ? 2048 : 256; auto H = HS(r.thorough); for (int k = 0; k < 5; ++k) for (int d = 1; d <= 3; ++d) for (double h : H) for (int late = 0; late < 2; ++late) { auto K = make(k, d, late), U = make(k, d, false); auto D = dirs(d); for (size_t di = 0; di < D.size(); ++di) { if (!r.next([&] { return std::string(KN[k]) + strf(" dimension %d length %g direction %d late %d", d, h, (int)di, late); })) continue; r.state(Hash().add(k).add(d).addr(h).add(di).add(late)); double top = K->W(vec(D[di], 0), h), prev = top; if (!r.expect(std::isfinite(top) && top > 0, "centre", "%g", top)) continue;
        for (int i = 1; i <= N; ++i) { double q = 1.5 * SUP[k] * i / N; double w = K->W(vec(D[di], q * h), h), w0 = U->W(vec(D[0], q), 1.0); r.op(); r.expect(w >= -1e-13 * top && w <= prev + 1e-13 * top, "decreasing", "q %g: %g after %g", q, w, prev); prev = w; if (q > SUP[k] * (1 + 1e-9)) r.expect(w == 0, "support", "q %g: %g", q, w); else if (q < SUP[k] * (1 - 1e-9)) { r.expect(w > 0 || q > 0.999 * SUP[k], "inside", "q %g: %g", q, w); r.expect(std::fabs(w * std::pow(h, d) - w0) <= 1e-10 * U->W(vec(D[0], 0), 1.0), "scaling", "q %g: %g and %g", q, w * std::pow(h, d), w0); } }
        r.outcome(Hash().addr(top * std::pow(h, d))); r.trace(); } } }
// composite Simpson over the radius, exact enough for piecewise quintics and the Gaussian
static double integral(CSphKernel<R>& K, int k, int dim, double h) { int N = 4000; double s = 0, top = SUP[k] * h * (1 - 1e-12), dr = top / N; for (int i = 0; i <= N; ++i) { double x = i * dr, c = i == 0 || i == N ? 1 : i % 2 ? 4 : 2, shell = dim == 1 ? 2 : dim == 2 ? 2 * M_PI * x : 4 * M_PI * x * x; s += c * shell * K.W(CGeoVector<R>(dim == 2 ? 0 : x, dim == 2 ? x : 0, 0), h); } return s * dr / 3; }
SECTION("normalised", "the same kernels, dimensions and smoothing lengths: the integral over the support is one (Gaussian: up to its truncation at three lengths)") { auto H = HS(true); for (int k = 0; k < 5; ++k) for (int d = 1; d <= 3; ++d) for (double h : H) { if (!r.next([&] { return std::string(KN[k]) + strf(" dimension %d length %g", d, h); })) continue; r.state(Hash().add(k).add(d).addr(h)); auto K = make(k, d, false); double I = integral(*K, k, d, h); r.op(4001); double want = 1; if (k == 0) want = d == 1 ? std::erf(3) : d == 2 ? 1 - std::exp(-9) : std::erf(3) - 6 / std::sqrt(M_PI) * std::exp(-9); double tol = k == 0 ? 1e-3 : 1e-6; r.expect(std::fabs(I - want) < tol, "integral", "%g instead of %g", I, want); r.outcome(Hash().addr(I)); r.trace(); } }
SECTION("derivatives", "the same kernels, dimensions, smoothing lengths and directions x 97 (thorough 1025) radii inside the support: gradientW = -h^2 grad W and laplacianW = h (dim W - r.grad W), with W differentiated numerically; zero outside; zero gradient at the centre when a tolerance is given") {
    int N = r.thorough ? 1024 : 96; auto H = HS(r.thorough); for (int k = 0; k < 5; ++k) for (int d = 1; d <= 3; ++d) for (double h : H) { auto K = make(k, d, false); auto D = dirs(d); double top = K->W(vec(D[0], 0), h); for (size_t di = 0; di < D.size(); ++di) { if (!r.next([&] { return std::string(KN[k]) + strf(" dimension %d length %g direction %d", d, h, (int)di); })) continue; r.state(Hash().add(k).add(d).addr(h).add(di)); auto W = [&](double q) { return K->W(vec(D[di], q * h), h); };
        CGeoVector<R> z = K->gradientW(vec(D[di], 0), h, 1e-8); r.expect(z.norm() == 0, "centre", "%g", z.norm()); for (double q : {1.0000001, 1.01, 1.7, 40.0}) { r.expect(K->gradientW(vec(D[di], q * SUP[k] * h), h).norm() == 0 && K->gradientW(vec(D[di], q * SUP[k] * h), h, 1e-8).norm() == 0, "gradient-support"); r.expect(K->laplacianW(vec(D[di], q * SUP[k] * h), h) == 0, "laplacian-support"); }
        for (int i = 1; i < N; ++i) { double q = SUP[k] * i / N, e = 1e-3; if (q < 3 * e || q > SUP[k] - 3 * e) continue; double dw = (8 * (W(q + e) - W(q - e)) - (W(q + 2 * e) - W(q - 2 * e))) / (12 * e); // dW/dq
            for (double tol : {0.0, 1e-8}) { CGeoVector<R> g = K->gradientW(vec(D[di], q * h), h, tol); r.op(); CGeoVector<R> want = vec(D[di], -dw * h); r.expect((g - want).norm() <= 2e-5 * top * h, "gradient", "q %g: %g instead of %g", q, g.norm(), std::fabs(dw) * h); }
            double l = K->laplacianW(vec(D[di], q * h), h), wl = h * (d * W(q) - q * dw); r.op(); double dk = k == 2 ? top * 0.125 * (std::pow(2 - q, 1.5) - 3 * (2 - q) * (2 - q) * (0.5 * q + 1)) : dw; /* derivative as tabulated in the library, known finding */ bool right = std::fabs(l - wl) <= 1e-4 * top * h; r.expect(right, k == 2 && std::fabs(l - h * (d * W(q) - q * dk)) <= 1e-9 * top * h ? "convex-laplacian" : "laplacian", "q %g: %g instead of %g", q, l, wl); }
        r.outcome(Hash().addr(K->laplacianW(vec(D[di], 0.3 * h), h) * std::pow(h, d - 1))); r.trace(); } } }
