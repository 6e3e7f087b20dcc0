// A03: material properties and boundary conditions return what was last given for that property, and nothing else.
#include "vk.hpp"
#include "MatMaterial.hpp"
#include "PdeBoundaryCondition.hpp"
#include <functional>
#include <memory>

using namespace vk;
using namespace ENigMA::material;
using namespace ENigMA::pde;
typedef ENigMA::analytical::CAnaFunction<double> Fun;
typedef CMatMaterial<double> Mat;
typedef CPdeBoundaryCondition<double> Bc;

namespace {

const EPropertyType P[] = { PT_DENSITY, PT_VISCOSITY, PT_THERMAL_CONDUCTIVITY, PT_SPECIFIC_HEAT, PT_ELASTIC_MODULUS, PT_POISSON_COEFFICIENT };
const EConditionType C[] = { CT_GENERIC_FIXED_VALUE, CT_GENERIC_ZERO_GRADIENT, CT_HEAT_TRANSFER_COEFFICIENT, CT_HEAT_INFINITESIMAL_TEMPERATURE };
const double V[] = { 1.25, -3e6 };
// 0: T*2+1   1: T*T - u   2: constant 9
double fval(int k, double t, double u) { return k == 0 ? t * 2 + 1 : k == 1 ? t * t - u : 9; }
void give(Fun& f, int k) { if (k == 0) f.set(std::string("T*2+1")); else if (k == 1) f.set(std::string("T*T - u")); else f.set(9.0); }

struct Model { double v[6]; int f[6]; Model() { for (int i = 0; i < 6; ++i) { v[i] = 0; f[i] = -1; } } };

}

SECTION("material", "every sequence of up to 2 (of neighbouring properties 3; thorough 3, for five pairs 4) operations on a material and a copy of it - set one of two numbers or one of three functions for one of two properties, copy, turn to the other - for 15 pairs of properties; every property of both is read by value, with one and with two variables")
{
    // op = property(2) x kind(5), copy to other, swap roles
    const int N = 12;
    int D = r.thorough ? 4 : 3;
    for (int a = 0; a < 6; ++a) for (int b = a + 1; b < 6; ++b)
        for (int n = 1; n <= D; ++n) sequences(n, N, [&](const std::vector<int>& q) {
            if (n == D && D > 3 && (a + b) % 3) return; // the longest histories for five of the pairs
            if (n == D && D == 3 && b != a + 1) return;
            if (!r.next([&] { return strf("properties %d %d ", a, b) + show(q); })) return;
            r.state(Hash().add(a).add(b).adds(show(q)));
            Mat m[2]; Model w[2]; int cur = 0;
            for (int o : q) { r.op();
                if (o < 10) { int p = o % 2 ? b : a, k = o / 2;
                    if (k < 2) { m[cur].addProperty(P[p], V[k]); w[cur].v[p] = V[k]; }
                    else { Fun f; give(f, k - 2); m[cur].addProperty(P[p], f); w[cur].f[p] = k - 2; } }
                else if (o == 10) { m[1 - cur] = m[cur]; w[1 - cur] = w[cur]; }
                else cur = 1 - cur; }
            for (int s = 0; s < 2; ++s) for (int p = 0; p < 6; ++p) {
                double g = m[s].propertyValue(P[p]); r.expect(g == w[s].v[p], "value", "material %d property %d is %g, expected %g", s, p, g, w[s].v[p]);
                if ((p == a || p == b) && w[s].f[p] >= 0) {
                    double t = 2.5, u = -4;
                    if (w[s].f[p] != 1) { g = m[s].propertyValue(P[p], "T", t); r.expect(near(g, fval(w[s].f[p], t, u)), "one", "material %d property %d is %g", s, p, g); }
                    g = m[s].propertyValue(P[p], "T", t, "u", u); r.expect(near(g, fval(w[s].f[p], t, u)), "two", "material %d property %d is %g", s, p, g);
                    g = m[s].propertyValue(P[p], "u", u, "T", t); r.expect(near(g, fval(w[s].f[p], t, u)), "two", "material %d property %d is %g with the variables swapped", s, p, g);
                    r.outcome(Hash().addd(g).add(p));
                }
                r.expect(m[s].propertyValue(P[p]) == w[s].v[p], "kept", "reading changed property %d", p);
            }
            r.trace();
        });
}

SECTION("conditions", "every sequence of up to 2 (of neighbouring conditions 3; thorough 3 and 4) operations on a boundary condition - its type (4), location (3), one of two numbers or three functions for one of two conditions - for 6 pairs of conditions and 5 ways of creating it")
{
    const int N = 17;
    const EBoundaryConditionType T[] = { BT_GENERIC_FIXED_VALUE, BT_GENERIC_ZERO_GRADIENT, BT_GENERIC_CYCLIC, BT_HEAT_CONVECTIVE };
    const EBoundaryLocation L[] = { BL_NODE, BL_EDGE, BL_FACE };
    int D = r.thorough ? 4 : 3;
    for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b) for (int t0 = -1; t0 < 4; ++t0)
        for (int n = 0; n <= D; ++n) sequences(n, N, [&](const std::vector<int>& q) {
            if (n == D && (b != a + 1 || t0 > 0)) return;
            if (!r.next([&] { return strf("conditions %d %d created as %d ", a, b, t0) + show(q); })) return;
            r.state(Hash().add(a).add(b).add(t0 + 1).adds(show(q)));
            std::unique_ptr<Bc> c(t0 < 0 ? new Bc() : new Bc(T[t0])); Model w; int ty = t0 < 0 ? 0 : t0, lo = 0;
            for (int o : q) { r.op();
                if (o < 10) { int p = o % 2 ? b : a, k = o / 2;
                    if (k < 2) { c->addCondition(C[p], V[k]); w.v[p] = V[k]; } else { Fun f; give(f, k - 2); c->addCondition(C[p], f); w.f[p] = k - 2; } }
                else if (o < 14) { c->setBoundaryConditionType(T[o - 10]); ty = o - 10; }
                else { c->setLocation(L[o - 14]); lo = o - 14; } }
            r.expect(c->boundaryConditionType() == T[ty], "type"); r.expect(c->location() == L[lo], "location");
            for (int p = 0; p < 4; ++p) { double g = c->conditionValue(C[p]); r.expect(g == w.v[p], "value", "condition %d is %g, expected %g", p, g, w.v[p]);
                if (w.f[p] == 0 || w.f[p] == 2) { double t = -1.5; g = c->conditionValue(C[p], "T", t); r.expect(near(g, fval(w.f[p], t, 0)), "one", "condition %d is %g", p, g); r.outcome(Hash().addd(g).add(p)); } }
            r.trace();
        });
}
