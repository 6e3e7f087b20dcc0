// A01: expressions evaluate to their mathematical value under every history of definitions; bracketed roots are roots.
#include "vk.hpp"
#include "AnaFunction.hpp"

#include <functional>
#include <limits>

using namespace vk;
typedef ENigMA::analytical::CAnaFunction<double> Fun;

namespace {

const double NaN = std::numeric_limits<double>::quiet_NaN();

bool same(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (a == b)
        return true;
    return std::fabs(a - b) <= 1e-12 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

// ---- expressions ------------------------------------------------------------------------------------------

struct Ex {
    std::string full; // fully parenthesised
    std::string lean; // only the parentheses that precedence demands
    int prec;         // 3 atom, 2 product, 1 sum
    std::function<double(double, double)> f;
};

std::string wrap(const Ex& e, int need) { return e.prec >= need ? e.lean : "(" + e.lean + ")"; }

std::vector<Ex> leaves()
{
    std::vector<Ex> v;
    v.push_back({ "x", "x", 3, [](double x, double) { return x; } });
    v.push_back({ "y", "y", 3, [](double, double y) { return y; } });
    v.push_back({ "2", "2", 3, [](double, double) { return 2.0; } });
    v.push_back({ "0.25", "0.25", 3, [](double, double) { return 0.25; } });
    v.push_back({ "pi", "pi", 3, [](double, double) { return std::acos(-1.0); } });
    return v;
}

Ex unary(int k, const Ex& a)
{
    static const char* n[] = { "sin", "cos", "exp", "abs", "sqrt", "-" };
    Ex e;
    auto g = a.f;
    e.full = std::string(n[k]) + "(" + a.full + ")";
    e.lean = std::string(n[k]) + "(" + a.lean + ")";
    e.prec = k == 5 ? 1 : 3;
    switch (k) {
    case 0: e.f = [g](double x, double y) { return std::sin(g(x, y)); }; break;
    case 1: e.f = [g](double x, double y) { return std::cos(g(x, y)); }; break;
    case 2: e.f = [g](double x, double y) { return std::exp(g(x, y)); }; break;
    case 3: e.f = [g](double x, double y) { return std::fabs(g(x, y)); }; break;
    case 4: e.f = [g](double x, double y) { return std::sqrt(g(x, y)); }; break;
    default: e.f = [g](double x, double y) { return -g(x, y); };
    }
    return e;
}

Ex binary(int k, const Ex& a, const Ex& b)
{
    static const char* n[] = { "+", "-", "*", "/", "^" };
    Ex e;
    auto g = a.f, h = b.f;
    e.full = "((" + a.full + ") " + n[k] + " (" + b.full + "))";
    if (k < 2) {
        e.lean = wrap(a, 1) + n[k] + wrap(b, 2);
        e.prec = 1;
    } else if (k < 4) {
        e.lean = wrap(a, 2) + n[k] + wrap(b, 3);
        e.prec = 2;
    } else {
        e.lean = "(" + a.lean + ")^(" + b.lean + ")";
        e.prec = 2;
    }
    switch (k) {
    case 0: e.f = [g, h](double x, double y) { return g(x, y) + h(x, y); }; break;
    case 1: e.f = [g, h](double x, double y) { return g(x, y) - h(x, y); }; break;
    case 2: e.f = [g, h](double x, double y) { return g(x, y) * h(x, y); }; break;
    case 3: e.f = [g, h](double x, double y) { return g(x, y) / h(x, y); }; break;
    default: e.f = [g, h](double x, double y) { return std::pow(g(x, y), h(x, y)); };
    }
    return e;
}

// undefined results, and results so large that rounding of an intermediate decides them, are left out
bool tame(double v) { return std::fabs(v) < 1e6; }

SECTION("expressions", "every expression of depth 1 and those of depth 2 built of one depth-1 part (thorough: two) over x, y, 2, 1/4, pi with + - * / ^, minus, sin, cos, exp, abs, sqrt, written with all and with only the necessary parentheses, at 6 values of the variables")
{
    std::vector<Ex> l0 = leaves(), l1;
    for (auto& a : l0)
        for (int k = 0; k < 6; k++)
            l1.push_back(unary(k, a));
    for (auto& a : l0)
        for (auto& b : l0)
            for (int k = 0; k < 5; k++)
                l1.push_back(binary(k, a, b));
    std::vector<Ex> all = l0;
    all.insert(all.end(), l1.begin(), l1.end());

    const double xs[] = { -1.5, 0.0, 2.0 };
    const double ys[] = { -1.0, 0.75 };

    auto check = [&](const Ex& e) {
        for (int form = 0; form < 2; form++) {
            const std::string& t = form == 0 ? e.full : e.lean;
            if (!r.next([&] { return "expression " + t; }))
                continue;
            r.state(Hash().adds(t));
            r.trace();
            double x = 0, y = 0;
            Fun f(t);
            f.defineVariable("x", x);
            f.defineVariable("y", y);
            for (double vx : xs)
                for (double vy : ys) {
                    x = vx;
                    y = vy;
                    r.op(1);
                    double want = e.f(vx, vy);
                    if (!tame(want))
                        continue;
                    double got = f.evaluate();
                    r.outcome(Hash().addd(got));
                    r.expect(same(got, want), "value", "%s at x=%g y=%g gives %.17g, expected %.17g", t.c_str(), vx, vy, got, want);
                    if (form == 1 && !r.thorough)
                        break;
                }
        }
    };
    for (auto& e : all)
        check(e);
    for (auto& a : l1)
        for (int k = 0; k < 5; k++)
            check(unary(k, a));
    for (auto& a : l1)
        for (auto& b : r.thorough ? all : l0)
            for (int k = 0; k < 5; k++) {
                check(binary(k, a, b));
            }
    for (auto& a : l0)
        for (auto& b : l1)
            for (int k = 0; k < 5; k++)
                check(binary(k, a, b));
}

// ---- histories of definitions ----------------------------------------------------------------------------

struct Mod {
    int x, y;   // slot or -1
    int text;   // expression number, -1 none
    bool constant;
    double value;
};

const char* TEXT[] = { "x + 2*y", "x*x - 3", "x + * 2", "5" };

double eval(const Mod& m, bool hx, double x, bool hy, double y)
{
    if (m.constant)
        return m.value;
    switch (m.text) {
    case 0: return hx && hy ? x + 2 * y : NaN;
    case 1: return hx ? x * x - 3 : NaN;
    case 2: return NaN;
    case 3: return 5;
    default: return NaN;
    }
}

const char* OPN[] = { "define x=s0", "define x=s1", "define y=s0", "define y=s1", "undefine x", "undefine y", "remove all", "set x+2y", "set x*x-3", "set invalid", "set 5", "set constant 7", "change s0", "change s1", "evaluate(x)", "evaluate(y)", "evaluate(x,y)", "evaluate(y,x)", "root over x" };
const int NOP = 19;

SECTION("histories", "every sequence of up to 3 (thorough 4) of 19 operations - define x or y as one of two numbers, undefine, remove all, set three valid and an invalid text or a constant, change a number, evaluate with explicit variables, search a root - from a fresh function and from one with defined variables, against a model of the bindings")
{
    auto play = [&](const std::vector<int>& ops, bool check) {
        Fun f;
        double s[2] = { 1.5, -4 };
        double v = 3, w = 0.5;
        Mod m = { -1, -1, -1, false, 0 };
        for (size_t i = 0; i < ops.size() && !r.failedNow(); i++) {
            r.op(1);
            int o = ops[i];
            bool last = i + 1 == ops.size();
            switch (o) {
            case 0: case 1: f.defineVariable("x", s[o]); m.x = o; break;
            case 2: case 3: f.defineVariable("y", s[o - 2]); m.y = o - 2; break;
            case 4: f.undefineVariable("x"); m.x = -1; break;
            case 5: f.undefineVariable("y"); m.y = -1; break;
            case 6: f.removeAllVariables(); m.x = m.y = -1; break;
            case 7: case 8: case 9: case 10: f.set(std::string(TEXT[o - 7])); m.text = o - 7; m.constant = false; break;
            case 11: f.set(7.0); m.constant = true; m.value = 7; break;
            case 12: s[0] += 1; break;
            case 13: s[1] += 0.5; break;
            default: {
                bool hx = m.x >= 0, hy = m.y >= 0;
                double x = hx ? s[m.x] : 0, y = hy ? s[m.y] : 0;
                double got = 0, want = 0;
                if (o == 14) {
                    got = f.evaluate("x", v);
                    want = eval(m, true, v, hy, y);
                } else if (o == 15) {
                    got = f.evaluate("y", v);
                    want = eval(m, hx, x, true, v);
                } else if (o == 16) {
                    got = f.evaluate("x", v, "y", w);
                    want = eval(m, true, v, true, w);
                } else if (o == 17) {
                    got = f.evaluate("y", v, "x", w);
                    want = eval(m, true, w, true, v);
                } else {
                    // x^2 - 3 between 0 and 3, or x + 2y between -100 and 100
                    bool sq = !m.constant && m.text == 1, lin = !m.constant && m.text == 0 && hy;
                    if (!sq && !lin)
                        break;
                    Integer n = -1;
                    got = f.root("x", sq ? 0 : -100, sq ? 3 : 100, n, 200, 1e-13);
                    want = sq ? std::sqrt(3.0) : -2 * y;
                }
                if (check && last)
                    r.expect(o == 18 ? std::fabs(got - want) < 1e-9 : same(got, want), "explicit", "%s gives %.17g, expected %.17g", OPN[o], got, want);
            }
            }
            if (check && last) {
                r.trace();
                bool hx = m.x >= 0, hy = m.y >= 0;
                double want = eval(m, hx, hx ? s[m.x] : 0, hy, hy ? s[m.y] : 0);
                double got = f.evaluate();
                r.state(Hash().add(m.x).add(m.y).add(m.text).add(m.constant).addd(s[0]).addd(s[1]));
                r.outcome(Hash().addd(got));
                r.expect(same(got, want), "evaluate", "after %s evaluate() gives %.17g, expected %.17g", OPN[o], got, want);
            }
        }
    };
    auto text = [&](const std::vector<int>& ops) {
        std::string t;
        for (int o : ops)
            t += std::string(t.empty() ? "" : "; ") + OPN[o];
        return t;
    };
    int depth = r.thorough ? 4 : 3;
    // started from nothing, and from a function whose two variables are defined
    const std::vector<std::vector<int>> pre = { {}, { 7, 0, 3 } };
    for (auto& p : pre)
        for (int n = 1; n <= depth; n++)
            sequences(n, NOP, [&](const std::vector<int>& q) {
                std::vector<int> ops = p;
                ops.insert(ops.end(), q.begin(), q.end());
                if (!r.next([&] { return text(ops); }))
                    return;
                play(ops, true);
            });
}

// ---- roots -------------------------------------------------------------------------------------------------

struct Fn {
    const char* text;
    std::function<double(double)> f;
    std::vector<double> roots; // all sign changes in [-8, 8]
};

std::vector<Fn> functions()
{
    const double pi = std::acos(-1.0);
    std::vector<Fn> v;
    v.push_back({ "2*x-6", [](double x) { return 2 * x - 6; }, { 3 } });
    v.push_back({ "6-2*x", [](double x) { return 6 - 2 * x; }, { 3 } });
    v.push_back({ "x", [](double x) { return x; }, { 0 } });
    v.push_back({ "-x", [](double x) { return -x; }, { 0 } });
    v.push_back({ "x^3", [](double x) { return x * x * x; }, { 0 } });
    v.push_back({ "x^3-x", [](double x) { return x * x * x - x; }, { -1, 0, 1 } });
    v.push_back({ "x^2-2", [](double x) { return x * x - 2; }, { -std::sqrt(2.0), std::sqrt(2.0) } });
    v.push_back({ "2-x^2", [](double x) { return 2 - x * x; }, { -std::sqrt(2.0), std::sqrt(2.0) } });
    v.push_back({ "exp(x)-3", [](double x) { return std::exp(x) - 3; }, { std::log(3.0) } });
    v.push_back({ "3-exp(-x)", [](double x) { return 3 - std::exp(-x); }, { -std::log(3.0) } });
    v.push_back({ "sin(x)", [](double x) { return std::sin(x); }, { -2 * pi, -pi, 0, pi, 2 * pi } });
    v.push_back({ "(x-1)*(x-4)*(x+5)", [](double x) { return (x - 1) * (x - 4) * (x + 5); }, { -5, 1, 4 } });
    v.push_back({ "x^5-0.001", [](double x) { return x * x * x * x * x - 0.001; }, { std::pow(0.001, 0.2) } });
    v.push_back({ "1000*(x-2.5)", [](double x) { return 1000 * (x - 2.5); }, { 2.5 } });
    v.push_back({ "0.001*(x-2.5)", [](double x) { return 0.001 * (x - 2.5); }, { 2.5 } });
    v.push_back({ "atan(x-0.3)", [](double x) { return std::atan(x - 0.3); }, { 0.3 } });
    return v;
}

SECTION("roots", "16 functions with known sign changes x every bracket over 18 (thorough 30) points x 3 tolerances x 3 iteration limits x bisection, brent, root")
{
    static const char* M[] = { "bisection", "brent", "root" };
    std::vector<double> pts;
    for (int i = -7; i <= 7; i++)
        pts.push_back(i);
    pts.push_back(0.5);
    pts.push_back(-2.25);
    pts.push_back(2.125);
    if (r.thorough)
        for (int i = -6; i < 6; i++)
            pts.push_back(i + 0.375);
    std::sort(pts.begin(), pts.end());
    std::vector<double> tols = { 1e-2, 1e-6, 1e-12 };
    std::vector<int> caps = { 500, 1, 4 };
    for (auto& q : functions()) {
        for (size_t i = 0; i < pts.size(); i++)
            for (size_t j = i + 1; j < pts.size(); j++) {
                double a = pts[i], b = pts[j];
                double fa = q.f(a), fb = q.f(b);
                if (fa * fb > 0)
                    continue;
                for (double tol : tols)
                    for (int cap : caps) {
                        if (!r.next([&] { return strf("%s in [%g,%g] tolerance %g, at most %d iterations", q.text, a, b, tol, cap); }))
                            continue;
                        r.trace();
                        for (int k = 0; k < 3; k++) {
                            r.op(1);
                            Fun f((std::string(q.text)));
                            Integer n = -77;
                            double x = k == 0 ? f.bisection("x", a, b, n, cap, tol) : k == 1 ? f.brent("x", a, b, n, cap, tol) : f.root("x", a, b, n, cap, tol);
                            r.outcome(Hash().add(k).addd(x));
                            r.state(Hash().adds(q.text).addd(a).addd(b).addd(tol).add(cap).add(k));
                            r.expect(x >= a && x <= b, "bracket", "%s returned %.17g outside [%g,%g]", M[k], x, a, b);
                            r.expect(n >= 0 && n <= cap + 1, "iterations", "%s reports %d iterations with at most %d allowed", M[k], (int)n, cap);
                            if (cap < 500)
                                continue;
                            double d = std::numeric_limits<double>::max();
                            for (double z : q.roots)
                                d = std::min(d, std::fabs(x - z));
                            r.expect(d <= tol * (1 + 1e-9) + 1e-13, "root", "%s returned %.17g, %g away from the nearest root", M[k], x, d);
                            r.expect(n < 500, "converged", "%s did not converge", M[k]);
                        }
                    }
            }
    }
}

}
