// Independent dense model of the semi-implicit projection step on a cell-centred mesh, and the set-up shared by the
// flow, temperature and two-phase checks.
#pragma once
#include "msh.hpp"
#include "FvmMesh.hpp"
#include "SleSystem.hpp"
#include "FvmPisoSolver.hpp"
#include <functional>
#include <memory>
using namespace ENigMA::fvm;

struct PCell { int id; double vol; V3l c; std::vector<int> faces; double rho, mu, u[3], u0[3], p, ap, H[3]; };
struct PFace { int id, o, n; double area; V3l nrm, c; double dist; int type; double uf[3], pf, flux; int side; }; // normal outward of o, n = -1 at the boundary, side of the box 0..5

typedef Eigen::MatrixXd DM;
typedef Eigen::VectorXd DV;

struct Piso {
    std::vector<PCell> C; std::vector<PFace> F; double g[3]; double dt; bool closed; double lo[3], hi[3];
    double out(int f, int c) const { return F[f].o == c ? F[f].flux : -F[f].flux; }
    V3l nout(int f, int c) const { return F[f].o == c ? F[f].nrm : F[f].nrm * -1.0L; }
    int other(int f, int c) const { return F[f].o == c ? F[f].n : F[f].o; }
    void grad(int c, const std::function<double(int)>& in, const std::function<double(int)>& bd, double* r) const {
        r[0] = r[1] = r[2] = 0;
        for (int f : C[c].faces) { V3l n = nout(f, c); double v = F[f].n >= 0 ? 0.5 * (in(c) + in(other(f, c))) : bd(f); r[0] += v * F[f].area * (double)n.x; r[1] += v * F[f].area * (double)n.y; r[2] += v * F[f].area * (double)n.z; }
        for (int k = 0; k < 3; ++k) r[k] /= C[c].vol;
    }
    void gradp(int c, double* r) const { grad(c, [&](int i) { return C[i].p; }, [&](int f) { return F[f].pf; }, r); }
    void step() {
        int N = C.size(); DM A = DM::Zero(N, N); std::vector<DV> b(3, DV::Zero(N)), us(3);
        for (int c = 0; c < N; ++c) {
            for (int k = 0; k < 3; ++k) C[c].u0[k] = C[c].u[k];
            double V = C[c].vol, gp[3]; gradp(c, gp);
            for (int f : C[c].faces) { double q = out(f, c), D = F[f].area / F[f].dist;
                if (F[f].n >= 0) { int o = other(f, c); double r = 0.5 * (C[c].rho + C[o].rho), m = 0.5 * (C[c].mu + C[o].mu); A(c, c) += (0.5 * r * q + m * D) / V; A(c, o) += (0.5 * r * q - m * D) / V; }
                else { A(c, c) += C[c].mu * D / V; for (int k = 0; k < 3; ++k) b[k][c] += (C[c].mu * D - C[c].rho * q) * F[f].uf[k] / V; } }
            double in = dt > 0 ? C[c].rho / dt : 0; A(c, c) += in;
            for (int k = 0; k < 3; ++k) b[k][c] += C[c].rho * g[k] - gp[k] + in * C[c].u0[k];
        }
        Eigen::FullPivLU<DM> lu(A);
        for (int k = 0; k < 3; ++k) us[k] = lu.solve(b[k]);
        for (int c = 0; c < N; ++c) { double gp[3]; gradp(c, gp); C[c].ap = A(c, c); for (int k = 0; k < 3; ++k) { double h = b[k][c] + gp[k]; for (int o = 0; o < N; ++o) if (o != c) h -= A(c, o) * us[k][o]; C[c].H[k] = h; } }
        // pressure
        DM P = DM::Zero(N, N); DV q = DV::Zero(N); bool fixed = false;
        for (size_t f = 0; f < F.size(); ++f) { PFace& a = F[f]; int o = a.o; double nx = (double)a.nrm.x, ny = (double)a.nrm.y, nz = (double)a.nrm.z;
            if (a.n >= 0) { PCell &x = C[o], &y = C[a.n]; double ap = 0.5 * (x.ap + y.ap); a.flux = 0.5 * ((x.H[0] + y.H[0]) * nx + (x.H[1] + y.H[1]) * ny + (x.H[2] + y.H[2]) * nz) / ap * a.area;
                double w = a.area / (ap * a.dist); P(o, o) += w; P(o, a.n) -= w; P(a.n, a.n) += w; P(a.n, o) -= w; q[o] -= a.flux; q[a.n] += a.flux; }
            else if (a.type == BT_INLET_FLOW) { a.flux = (a.uf[0] * nx + a.uf[1] * ny + a.uf[2] * nz) * a.area; q[o] -= a.flux; }
            else if (a.type == BT_WALL_NO_SLIP) a.flux = 0;
            else { double w = a.area / (C[o].ap * a.dist); if (a.type == BT_OUTLET) a.pf = 0; a.flux = (C[o].H[0] * nx + C[o].H[1] * ny + C[o].H[2] * nz) / C[o].ap * a.area; P(o, o) += w; q[o] += w * a.pf - a.flux; fixed = true; } }
        if (!fixed) { P.row(0).setZero(); P(0, 0) = 1; q[0] = 0; }
        DV p = P.fullPivLu().solve(q); closed = !fixed;
        for (int c = 0; c < N; ++c) C[c].p = p[c];
        for (auto& a : F) { if (a.n >= 0) a.flux -= a.area / (0.5 * (C[a.o].ap + C[a.n].ap) * a.dist) * (C[a.n].p - C[a.o].p);
            else if (a.type == BT_WALL_NO_SLIP || a.type == BT_INLET_FLOW) a.pf = C[a.o].p;
            else { a.flux -= a.area / (C[a.o].ap * a.dist) * (a.pf - C[a.o].p); a.uf[0] = a.flux / a.area * (double)a.nrm.x; a.uf[1] = a.flux / a.area * (double)a.nrm.y; a.uf[2] = a.flux / a.area * (double)a.nrm.z; } }
        for (int c = 0; c < N; ++c) { double gp[3]; gradp(c, gp); for (int k = 0; k < 3; ++k) C[c].u[k] = (C[c].H[k] - gp[k]) / C[c].ap; }
        if (!fixed) { double m = 1e300; for (auto& c : C) m = std::min(m, c.p); for (auto& c : C) c.p -= m; for (auto& f : F) f.pf -= m; }
    }
};

inline V3l pisoArea(const std::vector<P3>& q) { V3l s = {0, 0, 0}; for (size_t i = 1; i + 1 < q.size(); ++i) s = s + cross(toL(q[i]) - toL(q[0]), toL(q[i + 1]) - toL(q[0])); return s * 0.5L; }
inline V3l pisoMean(const std::vector<P3>& q) { V3l s = {0, 0, 0}; for (auto& p : q) s = s + toL(p); return s * (1.0L / q.size()); }

// Geometry from the mesh itself; only the identifiers of the finite-volume faces are taken from the library, matched by
// their corner points. Valid for parallelepipeds, tetrahedra and right prisms.
inline Piso pisoModel(Mesh& m, CFvmMesh<R>& f) {
    Piso s; s.dt = 0; s.closed = true; s.g[0] = s.g[1] = s.g[2] = 0; std::map<int, int> cell;
    for (int k = 0; k < 3; ++k) { s.lo[k] = 1e300; s.hi[k] = -1e300; }
    for (int i = 0; i < m.nbNodes(); ++i) { auto& p = m.node(m.nodeId(i)); double x[3] = {p.x(), p.y(), p.z()}; for (int k = 0; k < 3; ++k) { s.lo[k] = std::min(s.lo[k], x[k]); s.hi[k] = std::max(s.hi[k], x[k]); } }
    for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); PCell c; c.id = id; c.vol = measureOf(m, id); c.c = pisoMean(ptsOf(m, m.element(id))); c.p = 0; c.rho = 1; c.mu = 0; for (int k = 0; k < 3; ++k) c.u[k] = c.u0[k] = 0; cell[id] = s.C.size(); s.C.push_back(c); }
    for (int i = 0; i < f.nbFaces(); ++i) { PFace a; a.id = f.faceId(i); auto& fc = f.face(a.id); std::vector<P3> q; int n = fc.polyline().nbVertices(); for (int k = 0; k + 1 < n; ++k) q.push_back(fc.polyline().vertex(k));
        a.o = cell.at(fc.controlVolumeId()); a.n = fc.hasPair() ? cell.at(fc.neighborId(fc.controlVolumeId())) : -1; V3l v = pisoArea(q); a.area = (double)norm(v); a.nrm = v * (1.0L / norm(v)); a.c = pisoMean(q);
        if (dot(a.nrm, a.c - s.C[a.o].c) < 0) a.nrm = a.nrm * -1.0L;
        a.dist = (double)norm(a.c - s.C[a.o].c) + (a.n >= 0 ? (double)norm(a.c - s.C[a.n].c) : 0.0); a.type = BT_WALL_NO_SLIP; a.pf = a.flux = 0; a.uf[0] = a.uf[1] = a.uf[2] = 0; a.side = -1;
        if (a.n < 0) { double x[3] = {(double)a.c.x, (double)a.c.y, (double)a.c.z}; for (int k = 0; k < 3; ++k) { double h = s.hi[k] - s.lo[k]; if (std::fabs(x[k] - s.lo[k]) < 1e-6 * h) a.side = 2 * k; if (std::fabs(x[k] - s.hi[k]) < 1e-6 * h) a.side = 2 * k + 1; } }
        int w = s.F.size(); s.C[a.o].faces.push_back(w); if (a.n >= 0) s.C[a.n].faces.push_back(w); s.F.push_back(a); }
    return s;
}

// what a side of the box is
struct Side { int type; double v[3]; double p; };
inline std::string sideName(const Side& s) { static const std::map<int, const char*> N = {{BT_WALL_NO_SLIP, "wall"}, {BT_INLET_FLOW, "inlet"}, {BT_INLET_PRESSURE, "pressure"}, {BT_OUTLET, "outlet"}}; return strf("%s(%g %g %g|%g)", N.at(s.type), s.v[0], s.v[1], s.v[2], s.p); }
template <class S> void pisoSides(Piso& m, S& solver, const std::vector<Side>& sides) {
    for (int k = 0; k < 6; ++k) { std::vector<int> ids; for (auto& a : m.F) if (a.side == k) { ids.push_back(a.id); a.type = sides[k].type; for (int i = 0; i < 3; ++i) a.uf[i] = sides[k].v[i]; a.pf = sides[k].p; }
        std::vector<Integer> q(ids.begin(), ids.end()); EBoundaryType t = (EBoundaryType)sides[k].type;
        if (t == BT_INLET_PRESSURE || t == BT_OUTLET) { solver.setBoundaryPressure(q, t, sides[k].p); for (auto& a : m.F) if (a.side == k) a.uf[0] = a.uf[1] = a.uf[2] = 0; }
        else { solver.setBoundaryVelocity(q, t, sides[k].v[0], sides[k].v[1], sides[k].v[2]); for (auto& a : m.F) if (a.side == k) a.pf = 0; } }
}
template <class S> void pisoCompare(Run& r, S& s, Piso& m, int step, double tol) {
    double su = 1e-3, sp = 1e-3, sq = 1e-6; for (auto& c : m.C) { for (int k = 0; k < 3; ++k) su = std::max(su, std::fabs(c.u[k])); sp = std::max(sp, std::fabs(c.p)); } for (auto& f : m.F) { sq = std::max(sq, std::fabs(f.flux)); sp = std::max(sp, std::fabs(f.pf)); for (int k = 0; k < 3; ++k) su = std::max(su, std::fabs(f.uf[k])); }
    for (auto& c : m.C) {
        r.expect(std::fabs(s.u(c.id) - c.u[0]) <= tol * su && std::fabs(s.v(c.id) - c.u[1]) <= tol * su && std::fabs(s.w(c.id) - c.u[2]) <= tol * su, "velocity", "step %d cell %d: %g %g %g instead of %g %g %g", step, c.id, s.u(c.id), s.v(c.id), s.w(c.id), c.u[0], c.u[1], c.u[2]);
        r.expect(std::fabs(s.p(c.id) - c.p) <= tol * sp, "pressure", "step %d cell %d: %.12g instead of %.12g", step, c.id, s.p(c.id), c.p);
    }
    for (auto& f : m.F) {
        r.expect(std::fabs(s.flux(f.id) - f.flux) <= tol * sq, "flux", "step %d face %d of cell %d: %g instead of %g", step, f.id, m.C[f.o].id, s.flux(f.id), f.flux);
        if (f.n < 0) { r.expect(std::fabs(s.uf(f.id) - f.uf[0]) <= tol * su && std::fabs(s.vf(f.id) - f.uf[1]) <= tol * su && std::fabs(s.wf(f.id) - f.uf[2]) <= tol * su, "face-velocity", "step %d face %d: %g %g %g instead of %g %g %g", step, f.id, s.uf(f.id), s.vf(f.id), s.wf(f.id), f.uf[0], f.uf[1], f.uf[2]);
            r.expect(std::fabs(s.pf(f.id) - f.pf) <= tol * sp, "face-pressure", "step %d face %d: %g instead of %g", step, f.id, s.pf(f.id), f.pf); }
    }
    // every cell balances, from the reported fluxes and from the solver's own check
    double err = -1, e = 0; s.checkMassConservation(err);
    for (auto& c : m.C) { double q = 0; for (int f : c.faces) q += (m.C[m.F[f].o].id == c.id ? 1 : -1) * s.flux(m.F[f].id); e += std::fabs(q); r.expect(std::fabs(q) <= tol * sq, "balance", "step %d cell %d: fluxes sum to %g", step, c.id, q);
        r.expect(std::fabs(s.massError(c.id) - q) <= 1e-12 + 1e-9 * sq, "mass-error", "cell %d", c.id); }
    r.expect(std::fabs(err - e / m.C.size()) <= 1e-12 + 1e-9 * sq, "mass-total");
}
