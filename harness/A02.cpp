// A02: closed-form solutions satisfy boundary and initial conditions and their differential equation, reduce to one
// another and to the steady solution.
#include "vk.hpp"
#include "AnaTemperature.hpp"
#include "AnaFlow.hpp"
#include <functional>

using namespace vk;
typedef ENigMA::analytical::CAnaTemperature<double> Tem;
typedef ENigMA::analytical::CAnaFlow<double> Flow;

namespace {

const double PI = std::acos(-1.0);

// sixth-order central differences
double d2(const std::function<double(double)>& f, double x, double h)
{
    return (2 * (f(x - 3 * h) + f(x + 3 * h)) - 27 * (f(x - 2 * h) + f(x + 2 * h)) + 270 * (f(x - h) + f(x + h)) - 490 * f(x)) / (180 * h * h);
}
double d1(const std::function<double(double)>& f, double x, double h)
{
    return (-f(x - 3 * h) + 9 * f(x - 2 * h) - 45 * f(x - h) + 45 * f(x + h) - 9 * f(x + 2 * h) + f(x + 3 * h)) / (60 * h);
}

// sinh(a s)/sinh(a) for 0 <= s <= 1, without overflow
double ratio(double a, double s) { return std::exp(-a * (1 - s)) * (1 - std::exp(-2 * a * s)) / (1 - std::exp(-2 * a)); }

// slab of half thickness 1 (cooled at |x|=1, initially 1) at dimensionless time: two independent expansions
double slab(double x, double t)
{
    if (t <= 0)
        return 1;
    if (t < 0.3) { // images
        double v = 1;
        for (int n = 0; n < 40; ++n)
            v -= (n % 2 ? -1 : 1) * (std::erfc((2 * n + 1 - x) / (2 * std::sqrt(t))) + std::erfc((2 * n + 1 + x) / (2 * std::sqrt(t))));
        return v;
    }
    double v = 0;
    for (int n = 0; n < 60; ++n) {
        double b = (n + 0.5) * PI;
        v += 2 * (n % 2 ? -1 : 1) / b * std::exp(-b * b * t) * std::cos(b * x);
    }
    return v;
}

double quarters(int i, int n) { return double(i) / n; }

}

SECTION("steady1", "the one-dimensional steady solution at 41 positions; the beam with convection for 4 lengths x 5 film coefficients x 3 conductivities x 3 perimeters x 3 areas x 4 end temperatures x 3 x 3 ambient ones x 9 positions")
{
    Tem a;
    for (int i = 0; i <= 40; ++i) {
        double x = i / 40.0, T = -1;
        if (!r.next([&] { return strf("x=%g", x); })) continue;
        r.state(Hash().addd(x)); r.op();
        a.steadyStateHeatConduction1D(x, T);
        r.expect(near(T, x), "linear", "%g", T);
    }
    for (double L : { 0.25, 1.0, 2.0, 5.0 }) for (double h : { 0.0, 0.5, 10.0, 250.0, 4000.0 }) for (double k : { 0.5, 15.0, 200.0 })
        for (double P : { 0.01, 0.2, 3.0 }) for (double A : { 0.0005, 0.01, 1.0 })
            for (double Ta : { 0.0, 100.0, -20.0, 37.5 }) for (double Tb : { 0.0, 100.0, 60.0 }) for (double Ti : { 0.0, 20.0, 100.0 }) {
                if (!r.thorough && (Ta == 37.5 || Ti == 100.0 || L == 2.0)) continue;
                double m = std::sqrt(h * P / (k * A));
                if (!r.next([&] { return strf("L=%g h=%g k=%g P=%g A=%g Ta=%g Tb=%g Tinf=%g (mL=%g)", L, h, k, P, A, Ta, Tb, Ti, m * L); })) continue;
                r.state(Hash().addd(L).addd(h).addd(k).addd(P).addd(A).addd(Ta).addd(Tb).addd(Ti));
                for (int i = 0; i <= 8; ++i) {
                    double s = i / 8.0, T = NAN; r.op();
                    a.steadyStateHeatConduction1D(s * L, Ta, Tb, h, Ti, k, P, A, L, T);
                    double w = m * L < 1e-9 ? Ta + (Tb - Ta) * s : Ti + (Ta - Ti) * ratio(m * L, 1 - s) + (Tb - Ti) * ratio(m * L, s);
                    r.expect(near(T, w, 1e-9) || std::fabs(T - w) < 1e-6, "beam", "at %g of the length %.12g instead of %.12g", s, T, w);
                    r.outcome(Hash().addr(T));
                }
                r.trace();
            }
}

SECTION("steady2", "positions on a 20 x 20 (thorough 60 x 60) grid of the square: sides, symmetry, the sum over the four rotations, a longer series, and Laplace's equation by finite differences")
{
    Tem a; int N = r.thorough ? 60 : 20;
    auto T = [&](double x, double y) { double t = NAN; a.steadyStateHeatConduction2D(x, y, t); return t; };
    for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) {
        double x = quarters(i, N), y = quarters(j, N);
        if (!r.next([&] { return strf("%g %g", x, y); })) continue;
        r.state(Hash().add(i).add(j)); r.op();
        double t = T(x, y);
        if (i == 0 || i == N || j == 0) r.expect(std::fabs(t) < 1e-12, "side", "%g", t);
        r.expect(std::fabs(t - T(1 - x, y)) < 1e-12, "symmetry");
        // remainder of the series after 25 terms, and its value at the hot side by Abel's bound
        double tail = 0, want = 0;
        for (int p = 0; p < 4000; ++p) { double b = (2 * p + 1) * PI, u = y == 0 ? 0 : ratio(b, y); want += 4 / b * std::sin(b * x) * u; if (p >= 25) tail += 4 / b * u; if (p > 25 && u < 1e-18) break; }
        double bound = i == 0 || i == N ? 0 : 4 / (PI * 51 * std::sin(PI * x));
        r.expect(std::fabs(t - want) < std::min(tail, bound + 1e-3) + 1e-9, "value", "%.12g instead of %.12g", t, want);
        if (j == N && i > 0 && i < N) r.expect(std::fabs(t - 1) < bound + 1e-9, "hot", "%g", t);
        r.expect(t > -1e-9 - tail && t < 1 + tail + 1e-9, "range", "%g", t);
        if (x > 0.1 && x < 0.9 && y > 0.1 && y < 0.75) {
            r.expect(std::fabs(t + T(y, x) * 0 + 0) >= 0, "finite");
            double q = t + T(1 - y, x) + T(1 - x, 1 - y) + T(y, 1 - x);
            if (y > 0.25 && x > 0.25 && x < 0.75) r.expect(std::fabs(q - 1) < 1e-6, "rotations", "%.12g", q);
            double h = 0.004, l = d2([&](double s) { return T(s, y); }, x, h) + d2([&](double s) { return T(x, s); }, y, h);
            r.expect(std::fabs(l) < 1e-4, "Laplace", "%g", l);
        }
        r.outcome(Hash().addr(t)); r.trace();
    }
}

SECTION("steady3", "positions on an 8^3 (thorough 16^3) grid of the cube: sides, symmetries, a longer series, Laplace's equation by finite differences")
{
    Tem a; int N = r.thorough ? 16 : 8;
    auto T = [&](double x, double y, double z) { double t = NAN; a.steadyStateHeatConduction3D(x, y, z, t); return t; };
    for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) for (int k = 0; k <= N; ++k) {
        double x = quarters(i, N), y = quarters(j, N), z = quarters(k, N);
        if (!r.next([&] { return strf("%g %g %g", x, y, z); })) continue;
        r.state(Hash().add(i).add(j).add(k)); r.op();
        double t = T(x, y, z);
        if (j == 0 || j == N || k == 0 || k == N) r.expect(std::fabs(t) < 1e-12, "side", "%g", t);
        r.expect(std::fabs(t - T(x, z, y)) < 1e-12 && std::fabs(t - T(x, 1 - y, z)) < 1e-12, "symmetry");
        double want = 0, tail = 0;
        for (int p = 0; p < 60; ++p) for (int q = 0; q < 60; ++q) {
            double c = PI * std::hypot(2 * p + 1, 2 * q + 1), u = 0.5 * (i == N ? 0 : ratio(c, 1 - x)) + (i == 0 ? 0 : ratio(c, x)), g = 16 / (PI * PI * (2 * p + 1) * (2 * q + 1)) * u;
            want += g * std::sin((2 * p + 1) * PI * y) * std::sin((2 * q + 1) * PI * z);
            if (p >= 10 || q >= 10) tail += g;
        }
        if (i > 0 && i < N) r.expect(std::fabs(t - want) < tail + 1e-9, "value", "%.12g instead of %.12g", t, want);
        else if (j > 0 && j < N && k > 0 && k < N) {
            double by = 4 / (PI * 21 * std::sin(PI * y)), bz = 4 / (PI * 21 * std::sin(PI * z)), w = i == 0 ? 0.5 : 1;
            r.expect(std::fabs(t - w) < w * (by + bz + by * bz) + 1e-9, "hot", "%g", t);
        }
        if (x > 0.3 && x < 0.7 && j > 0 && j < N && k > 0 && k < N) {
            double h = 0.005, l = d2([&](double s) { return T(s, y, z); }, x, h) + d2([&](double s) { return T(x, s, z); }, y, h) + d2([&](double s) { return T(x, y, s); }, z, h);
            r.expect(std::fabs(l) < 1e-3, "Laplace", "%g", l);
        }
        r.outcome(Hash().addr(t)); r.trace();
    }
}

SECTION("transient", "7 times x 3 diffusivities x positions on a grid: the one-dimensional solution against image sources, its boundary conditions and heat equation; the two- and three-dimensional ones against products of one-dimensional ones; decay to the steady solution")
{
    Tem a;
    auto T1 = [&](double x, double t, double al) { double v = NAN; a.transientHeatConduction1D(x, t, al, v); return v; };
    auto T2 = [&](double x, double y, double t, double al) { double v = NAN; a.transientHeatConduction2D(x, y, t, al, v); return v; };
    auto T3 = [&](double x, double y, double z, double t, double al) { double v = NAN; a.transientHeatConduction3D(x, y, z, t, al, v); return v; };
    int N = r.thorough ? 40 : 16;
    for (double al : { 0.25, 1.0, 3.0 }) for (double fo : { 0.001, 0.01, 0.05, 0.2, 0.7, 2.0, 6.0 }) { double t = fo / al;
        for (int i = 0; i <= N; ++i) {
            double x = quarters(i, N);
            if (!r.next([&] { return strf("1-D x=%g t=%g diffusivity %g", x, t, al); })) continue;
            r.state(Hash().addd(al).addd(fo).add(i)); r.op();
            double v = T1(x, t, al), w = slab(x, fo);
            r.expect(std::fabs(v - w) < 1e-9, "one", "%.12g instead of %.12g", v, w);
            r.expect(std::fabs(v - T1(-x, t, al)) < 1e-12, "adiabatic");
            if (i == N) r.expect(std::fabs(v) < 1e-9, "cooled", "%g", v);
            if (fo > 0.005 && x < 0.95) {
                double h = 0.004, k = t / 200, q = d1([&](double s) { return T1(x, s, al); }, t, k) - al * d2([&](double s) { return T1(s, t, al); }, x, h);
                r.expect(std::fabs(q) < 1e-4 * al / std::min(1.0, fo), "heat", "residual %g", q);
            }
            if (fo > 5) r.expect(std::fabs(v) < 1e-5, "steady", "%g", v);
            r.outcome(Hash().addr(v)); r.trace();
        } }
    int M = r.thorough ? 20 : 8;
    for (double al : { 0.25, 1.0, 3.0 }) for (double fo : { 0.001, 0.004, 0.02, 0.1, 0.5 }) { double t = fo / al;
        for (int i = 0; i <= M; ++i) for (int j = 0; j <= M; ++j) {
            double x = quarters(i, M) - 0.5, y = quarters(j, M) - 0.5;
            if (!r.next([&] { return strf("2-D %g %g t=%g diffusivity %g", x, y, t, al); })) continue;
            r.state(Hash().add(2).addd(al).addd(fo).add(i).add(j)); r.op();
            double v = T2(x, y, t, al), w = slab(2 * std::fabs(x), 4 * fo) * slab(2 * std::fabs(y), 4 * fo);
            r.expect(std::fabs(v - w) < 1e-7, "two", "%.12g instead of %.12g", v, w);
            r.outcome(Hash().addr(v)); r.trace();
        } }
    int K = r.thorough ? 8 : 4;
    for (double al : r.thorough ? std::vector<double>{ 0.25, 2.0 } : std::vector<double>{ 2.0 }) for (double fo : { 0.001, 0.02, 0.2 }) { double t = fo / al;
        for (int i = 0; i <= K; ++i) for (int j = 0; j <= K; ++j) for (int k = 0; k <= K; ++k) {
            double x = quarters(i, K) - 0.5, y = quarters(j, K) - 0.5, z = quarters(k, K) - 0.5;
            if (!r.next([&] { return strf("3-D %g %g %g t=%g diffusivity %g", x, y, z, t, al); })) continue;
            r.state(Hash().add(3).addd(al).addd(fo).add(i).add(j).add(k)); r.op();
            double v = T3(x, y, z, t, al), w = slab(2 * std::fabs(x), 4 * fo) * slab(2 * std::fabs(y), 4 * fo) * slab(2 * std::fabs(z), 4 * fo);
            r.expect(std::fabs(v - w) < 1e-7, "three", "%.12g instead of %.12g", v, w);
            r.outcome(Hash().addr(v)); r.trace();
        } }
}

SECTION("radiation", "an infinite fin with convection and radiation: 3 base temperatures x 3 film coefficients x 3 emissivities x 2 conductivities x 9 positions: base temperature, decay, and dT/dx from the energy balance")
{
    const double sigma = 5.6704E-8;
    for (double Tb : { 300.0, 600.0, 1200.0 }) for (double h : { 0.5, 5.0, 60.0 }) for (double e : { 0.05, 0.4, 1.0 }) for (double k : { 15.0, 200.0 }) {
        if (!r.next([&] { return strf("base %g film %g emissivity %g conductivity %g", Tb, h, e, k); })) continue;
        r.state(Hash().addd(Tb).addd(h).addd(e).addd(k));
        double P = 0.04, A = 0.0001, M = h * P / (k * A), E = P * e * sigma / (k * A);
        auto T = [&](double x) { Tem a; double v = NAN; a.steadyStateHeatConvectionRadiation1D(x, Tb, h, e, k, P, A, v); return v; };
        double t0 = T(0), last = t0;
        r.expect(std::fabs(t0 - Tb) < 1e-6 * Tb, "base", "%g", t0);
        // lengths over which the temperature falls noticeably
        double l = 1 / std::sqrt(M + E * Tb * Tb * Tb);
        for (int i = 1; i <= 8; ++i) { r.op();
            double x = i * l * 0.25, v = T(x), d = 0.01 * l;
            r.expect(v > 0 && v < last, "decay", "%g after %g", v, last); last = v;
            // k A T'' = P (h T + e sigma T^4), integrated once from the far end
            double g = d1([&](double s) { return T(s); }, x, d), w = -v * std::sqrt(M + 0.4 * E * v * v * v);
            r.expect(std::fabs(g - w) < 1e-5 * std::fabs(w), "balance", "dT/dx is %g at %g instead of %g", g, x, w);
            r.outcome(Hash().addr(v, 1e-3));
        }
        r.trace();
    }
}

SECTION("burgers", "4 viscosities x 2 lengths x 7 times x 33 (thorough 129) positions x 3 spacings: the difference quotient of the exact potential converges to the solution, which satisfies Burgers' equation")
{
    Flow f; int N = r.thorough ? 128 : 32;
    for (double mu : { 0.07, 0.2, 0.5, 1.0 }) for (double L : { 2 * PI, 4.0 }) for (double t : { 0.0, 0.05, 0.1, 0.3, 0.5, 0.8, 1.2 }) for (int i = 0; i <= N; ++i) {
        double x = L * i / N;
        if (!r.next([&] { return strf("viscosity %g length %g time %g position %g", mu, L, t, x); })) continue;
        r.state(Hash().addd(mu).addd(L).addd(t).add(i));
        // potential and its derivatives
        auto exact = [&](double X, double s) { double c = 4 * mu * (s + 1), p = X - 4 * s, q = p - L, m = -std::min(p * p, q * q) / c, a = std::exp(-p * p / c - m), b = std::exp(-q * q / c - m); return 4 + (a * p + b * q) / (a + b) / (s + 1); };
        double w = exact(x, t);
        for (double dx : { 1e-3, 1e-4, 1e-5 }) { r.op();
            double u = NAN; f.viscousBurgersEquation(x, dx, t, L, mu, u);
            // second derivative of the potential over the potential is at most this
            double c = 2 * mu * (t + 1), z = std::fabs(x - 4 * t) + L, b = (z * z / c + 1) / c * 2 * mu * dx;
            r.expect(std::fabs(u - w) < b + 1e-9 / dx * 1e-3, "potential", "spacing %g: %.9g instead of %.9g", dx, u, w);
        }
        double hx = 1e-3 * std::min(1.0, L), ht = 1e-4;
        auto U = [&](double X, double s) { double u = NAN, v = NAN; f.viscousBurgersEquation(X, 1e-4, s, L, mu, u); f.viscousBurgersEquation(X, -1e-4, s, L, mu, v); return 0.5 * (u + v); };
        hx = 0.02; ht = 0.005;
        double ut = d1([&](double s) { return U(x, s); }, t + 0.02, ht), ux = d1([&](double s) { return U(s, t + 0.02); }, x, hx), uxx = d2([&](double s) { return U(s, t + 0.02); }, x, hx), u = U(x, t + 0.02);
        double scale = 1 + std::fabs(ut) + std::fabs(u * ux) + std::fabs(mu * uxx);
        r.expect(std::fabs(ut + u * ux - mu * uxx) < 2e-3 * scale, "equation", "residual %g of %g", ut + u * ux - mu * uxx, scale);
        r.outcome(Hash().addr(w)); r.trace();
    }
}
