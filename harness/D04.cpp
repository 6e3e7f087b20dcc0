// Assembled operators under renumbering, and as sums of element contributions.
#include "pde.hpp"
#include "fem.hpp"
typedef std::vector<int> VI;
struct Num { VI nid, eid, no, eo; };
struct Res { MX A; VX b; bool ok; };
// operators: simulation type and which operator
enum Op { G_DDT, G_LAP, G_DIV, G_SRC, T_DDT, T_LAP, T_DIV, F_DDT, F_LAP, F_CONV2, F_CONV3, F_GX, F_GY, F_GZ, S_LAP2, S_LAP3, NOPS };
static const char* opName[NOPS] = {"generic ddt", "generic laplacian", "generic divergence", "generic source", "thermal ddt", "thermal laplacian", "thermal divergence", "flow ddt", "flow laplacian", "flow convection 2d", "flow convection 3d", "flow gradient x", "flow gradient y", "flow gradient z", "structural laplacian 2d", "structural laplacian 3d"};
static bool takes(int op, EElementType t) { bool tri = t == ET_TRIANGLE, tet = t == ET_TETRAHEDRON; if (op == S_LAP2 || op == F_CONV2) return tri; if (op == S_LAP3 || op == F_CONV3 || op == F_GZ) return tet; if (op >= F_DDT) return tri || tet; if (op == G_DIV || op == T_DIV) return t == ET_BEAM; return true; }
static int dofs(int op) { return op == S_LAP2 ? 2 : op == S_LAP3 ? 3 : 1; }
static Field field(const Mesh& m, ESimulationType st, int nd, const VX& u) { Field f; f.setMesh(m); f.setDiscretMethod(DM_FEM); f.setDiscretOrder(DO_LINEAR); f.setDiscretLocation(DL_NODE); f.setSimulationType(st); f.setNbDofs(nd); ENigMA::material::CMatMaterial<R> mat; mat.addProperty(ENigMA::material::PT_ELASTIC_MODULUS, 200.0); mat.addProperty(ENigMA::material::PT_POISSON_COEFFICIENT, 0.3); mat.addProperty(ENigMA::material::PT_DENSITY, 2.0); mat.addProperty(ENigMA::material::PT_VISCOSITY, 0.5); f.setMaterial(mat); f.init(); f.u = u; return f; }
static Res apply(int op, const Mesh& m, const MX& val) { // val: nodal values by index, three columns
    int n = m.nbNodes(), nd = dofs(op); ESimulationType st = op < T_DDT ? ST_GENERIC : op < F_DDT ? ST_THERMAL : op < S_LAP2 ? ST_FLOW : ST_STRUCTURAL; VX u = val.col(0); if (nd > 1) { u.resize(n * nd); for (int i = 0; i < n * nd; ++i) u(i) = val(i / nd, i % nd); } Field f = field(m, st, nd, u); Sys s; Res r; r.ok = true; VX v = val.col(1), w = val.col(2);
    if (op == G_SRC) { r.A = MX::Zero(n, n); r.b = source<R>(f, 2.5); r.ok = r.b.size() == n; return r; }
    if (op == G_DDT || op == T_DDT || op == F_DDT) s = ddt<R>(f); else if (op == G_LAP || op == T_LAP || op == F_LAP || op == S_LAP2 || op == S_LAP3) s = laplacian<R>(f); else if (op == G_DIV || op == T_DIV) s = divergence<R>(f);
    else if (op == F_CONV2) { Field g = field(m, st, 1, v); s = divergence<R>(f, g, 0.2); } else if (op == F_CONV3) { Field g = field(m, st, 1, v), h = field(m, st, 1, w); s = divergence<R>(f, g, h, 0.2); } else s = gradient<R>(f, op == F_GX ? CP_X : op == F_GY ? CP_Y : CP_Z);
    r.A = denseOf(s); r.b = s.vectorB; r.ok = r.A.rows() == n * nd && r.A.cols() == n * nd && r.b.size() == n * nd && r.A.allFinite() && r.b.allFinite(); return r; }
static double thickOf(int e) { return 1 + 0.25 * (e % 3); }
static Mesh build(const MD& d, const Num& k) { Mesh m = mkMesh(d, k.nid, k.eid, k.no, k.eo); for (size_t e = 0; e < d.e.size(); ++e) m.element(k.eid[e]).setThickness(thickOf(e)); return m; }
static MX values(int n) { MX v(n, 3); for (int i = 0; i < n; ++i) v.row(i) << 1 + (i * 5 % 7) * 0.5, -2 + (i * 3 % 5), 0.25 * i - 1; return v; }
// sum over elements of the operator assembled on that element alone
static Res sumOf(int op, const MD& d) { int n = d.p.size(), nd = dofs(op); Res r; r.ok = true; r.A = MX::Zero(n * nd, n * nd); r.b = VX::Zero(n * nd); MX v = values(n); for (size_t e = 0; e < d.e.size(); ++e) { MD q; auto& c = d.e[e].second; int k = c.size(); MX w(k, 3); VI loc = iota(k); for (int i = 0; i < k; ++i) { q.p.push_back(d.p[c[i]]); w.row(i) = v.row(c[i]); } q.e.push_back({d.e[e].first, loc}); Mesh m = mkMesh(q); m.element(0).setThickness(thickOf(e)); Res x = apply(op, m, w); if (!x.ok) { r.ok = false; return r; } for (int i = 0; i < k * nd; ++i) { r.b(c[i / nd] * nd + i % nd) += x.b(i); for (int j = 0; j < k * nd; ++j) r.A(c[i / nd] * nd + i % nd, c[j / nd] * nd + j % nd) += x.A(i, j); } } return r; }
static void compare(Run& r, int op, const MD& d, const Num& k, const Res& want) {
    int n = d.p.size(), nd = dofs(op); Mesh m = build(d, k); MX v = values(n), w(n, 3); for (int i = 0; i < n; ++i) w.row(m.nodeIndex(k.nid[i])) = v.row(i); Res g = apply(op, m, w); r.op(); if (!r.expect(g.ok && want.ok, "shape", "%s", opName[op])) return; double s = maxAbs(want.A) + maxAbs(want.b) + 1e-300, wa = 0, wb = 0; for (int i = 0; i < n * nd; ++i) { int a = m.nodeIndex(k.nid[i / nd]) * nd + i % nd; wb = std::max(wb, std::fabs(g.b(a) - want.b(i))); for (int j = 0; j < n * nd; ++j) wa = std::max(wa, std::fabs(g.A(a, m.nodeIndex(k.nid[j / nd]) * nd + j % nd) - want.A(i, j))); }
    r.expect(wa <= 1e-10 * s, "matrix", "%s: off by %g of %g", opName[op], wa, s); r.expect(wb <= 1e-10 * s, "vector", "%s: off by %g of %g", opName[op], wb, s); r.outcome(Hash().addr(maxAbs(g.A)).addr(maxAbs(g.b))); r.trace(); }
static bool fits(int op, const MD& d) { for (auto& e : d.e) if (!takes(op, e.first)) return false; return true; }
static MD small(int w) { MD d; auto P = [&](std::initializer_list<P3> l) { d.p.assign(l); }; if (w == 0) { d.name = "three beams"; P({P3(0, 0, 0), P3(1, 0, 0), P3(1, 2, 0), P3(1.5, 2, 3)}); d.e = {{ET_BEAM, {0, 1}}, {ET_BEAM, {2, 1}}, {ET_BEAM, {2, 3}}}; } else if (w == 1) { d.name = "three triangles"; P({P3(0, 0, 0), P3(1, 0.1, 0), P3(1.2, 1, 0), P3(0, 0.8, 0), P3(2, 0.3, 0)}); d.e = {{ET_TRIANGLE, {0, 1, 2}}, {ET_TRIANGLE, {2, 3, 0}}, {ET_TRIANGLE, {1, 4, 2}}}; } else if (w == 2) { d.name = "quadrilateral and triangle"; P({P3(0, 0, 0), P3(1, 0.1, 0), P3(1.2, 1, 0), P3(0, 0.8, 0), P3(2, 0.3, 0)}); d.e = {{ET_QUADRILATERAL, {3, 0, 1, 2}}, {ET_TRIANGLE, {4, 2, 1}}}; }
    else if (w == 3) { d.name = "two tetrahedra"; P({P3(0, 0, 0), P3(1, 0, 0.1), P3(0.2, 1, 0), P3(0.1, 0.2, 1), P3(1, 1, 1)}); d.e = {{ET_TETRAHEDRON, {0, 2, 1, 3}}, {ET_TETRAHEDRON, {1, 2, 4, 3}}}; } else if (w == 4) { d.name = "beam on a triangle"; P({P3(0, 0, 0), P3(1, 0, 0), P3(0.2, 1, 0), P3(2, 2, 1)}); d.e = {{ET_TRIANGLE, {0, 1, 2}}, {ET_BEAM, {2, 3}}}; } else if (w == 5) { d.name = "prism"; P({P3(0, 0, 1), P3(1, 0, 1), P3(0, 1, 1.2), P3(0, 0, 0), P3(1, 0.1, 0), P3(0, 1, 0)}); d.e = {{ET_TRIANGULAR_PRISM, {0, 1, 2, 3, 4, 5}}}; }
    else { d.name = "tetrahedron under a triangle"; P({P3(0, 0, 0), P3(1, 0, 0), P3(0.2, 1, 0), P3(0.1, 0.2, 1), P3(-1, 0.5, 0)}); d.e = {{ET_TETRAHEDRON, {0, 2, 1, 3}}, {ET_TRIANGLE, {0, 2, 4}}}; }
    return d; }
SECTION("renumbering", "7 small meshes (4..6 nodes, every element type but hexahedra) x every permutation of node storage x every permutation of element storage (elements with two or more) x 3 identifier assignments (indices, reversed, scattered) x every finite-element operator that takes the mesh") {
    for (int w = 0; w < 7; ++w) { MD d = small(w); int n = d.p.size(), m = d.e.size(); std::vector<Res> want; for (int op = 0; op < NOPS; ++op) want.push_back(fits(op, d) ? sumOf(op, d) : Res()); VI no = iota(n); int pi = 0; do { VI eo = iota(m); int pe = 0; do { for (int id = 0; id < 3; ++id) { if (!r.thorough && n > 5 && (pi + pe + id) % 3) continue; Num k; k.no = no; k.eo = eo; k.nid = id == 0 ? iota(n) : id == 1 ? iota(n, n - 1, -1) : iota(n); k.eid = id == 0 ? iota(m) : id == 1 ? iota(m, m + 4, -1) : iota(m); if (id == 2) { for (int i = 0; i < n; ++i) k.nid[i] = (i * 5 + 2) % 7 * 11 + 1; for (int i = 0; i < m; ++i) k.eid[i] = (i * 2 + 1) % 5 * 9; }
        for (int op = 0; op < NOPS; ++op) { if (!fits(op, d)) continue; if (!r.next([&] { return d.name + " " + opName[op] + " nodes " + show(no) + " elements " + show(eo) + strf(" identifiers %d", id); })) continue; r.state(Hash().add(w).add(op).add(pi).add(pe).add(id)); compare(r, op, d, k, want[op]); } } ++pe; } while (std::next_permutation(eo.begin(), eo.end())); ++pi; } while (std::next_permutation(no.begin(), no.end())); } }
SECTION("catalogue", "42 structured meshes of every element type, plain and sheared and rotated, x 4 numberings x every operator that takes the mesh; operators that skip a type are compared on meshes of the types they take") {
    auto C = meshCatalogue(); for (size_t c = 0; c < C.size(); ++c) for (int op = 0; op < NOPS; ++op) { if (!fits(op, C[c])) continue; Res want = sumOf(op, C[c]); int n = C[c].p.size(), m = C[c].e.size(); for (int s = 0; s < 4; ++s) { if (!r.next([&] { return C[c].name + " " + opName[op] + strf(" numbering %d", s); })) continue; r.state(Hash().add(c).add(op).add(s)); Num k; k.nid = iota(n); k.eid = iota(m); k.no = iota(n); k.eo = iota(m); auto mix = [](VI& v, int q) { int n = v.size(); for (int i = 0; i < n; ++i) std::swap(v[i], v[(i * 7 + q) % n]); }; if (s == 1) { k.nid = iota(n, 10, 3); k.eid = iota(m, 100, 2); } if (s == 2) { k.nid = iota(n, 3 * n, -1); k.eid = iota(m, 2 * m, -2); } if (s == 3) { mix(k.nid, 3); mix(k.eid, 5); for (int& i : k.nid) i = 5 * i + 2; for (int& i : k.eid) i = 4 * i + 7; mix(k.no, 2); mix(k.eo, 1); } compare(r, op, C[c], k, want); } } }
SECTION("reference", "generic and thermal time derivative, Laplacian and beam divergence over meshes of beams, triangles and tetrahedra, and structural and flow ones: equal to sums of reference integrals, time derivative's right side is the matrix times the field") {
    auto C = meshCatalogue(); for (int w : {0, 1, 3, 4}) C.push_back(small(w)); for (size_t c = 0; c < C.size(); ++c) { const MD& d = C[c]; bool simple = true; for (auto& e : d.e) if (e.first != ET_BEAM && e.first != ET_TRIANGLE && e.first != ET_TETRAHEDRON) simple = false; if (!simple) continue; int n = d.p.size();
        for (int op : {(int)G_DDT, (int)G_LAP, (int)G_DIV, (int)G_SRC, (int)T_DDT, (int)T_LAP, (int)T_DIV, (int)F_DDT, (int)F_LAP}) { if (!fits(op, d)) continue; if (!r.next([&] { return d.name + " " + opName[op]; })) continue; r.state(Hash().add(c).add(op)); Num k; k.nid = iota(n); k.eid = iota(d.e.size()); k.no = k.nid; k.eo = k.eid; MX A = MX::Zero(n, n); VX b = VX::Zero(n); for (size_t e = 0; e < d.e.size(); ++e) { auto& q = d.e[e].second; std::vector<P3> p; for (int i : q) p.push_back(d.p[i]); RefEl x = refElement(d.e[e].first, p); double th = op >= F_DDT && d.e[e].first == ET_TRIANGLE ? thickOf(e) : 1; int nn = q.size(); MX E = op == G_DDT || op == T_DDT || op == F_DDT ? MX(th * x.M) : op == G_LAP || op == T_LAP || op == F_LAP ? MX(-th * x.K) : MX(MX::Zero(nn, nn)); if (op == G_DIV || op == T_DIV) E << -0.5, 0.5, -0.5, 0.5; for (int i = 0; i < nn; ++i) { if (op == G_SRC) b(q[i]) += 2.5; for (int j = 0; j < nn; ++j) A(q[i], q[j]) += E(i, j); } }
            if (op == G_DDT || op == T_DDT || op == F_DDT) b = A * values(n).col(0); Res want; want.ok = true; want.A = A; want.b = b; compare(r, op, d, k, want); } } }
static bool volumes(const MD& d) { for (auto& e : d.e) if (dimOf(e.first) != 3) return false; return true; }
SECTION("finite-volume", "every structured solid mesh of the catalogue x 4 numberings x time derivative, Laplacian and divergence x 3 simulation types x free, fixed-value and mixed boundaries: same operator by cell") {
    auto C = meshCatalogue(); const ESimulationType ST[3] = {ST_GENERIC, ST_THERMAL, ST_FLOW}; for (size_t c = 0; c < C.size(); ++c) { const MD& d = C[c]; if (!volumes(d)) continue; int n = d.e.size(), nn = d.p.size(); for (int st = 0; st < 3; ++st) for (int bp = 0; bp < 3; ++bp) { MX ref[3]; VX rb[3]; for (int s = 0; s < 4; ++s) { if (!r.next([&] { return d.name + strf(" numbering %d simulation %d boundary %d", s, st, bp); })) continue; r.state(Hash().add(c).add(s).add(st).add(bp)); VI nid = iota(nn), eid = iota(n), no = iota(nn), eo = iota(n); if (s == 1) { nid = iota(nn, 10, 3); eid = iota(n, 100, 2); std::reverse(no.begin(), no.end()); } if (s == 2) { nid = iota(nn, 3 * nn, -1); eid = iota(n, 2 * n, -2); std::reverse(eo.begin(), eo.end()); } if (s == 3) { auto mix = [](VI& v, int q) { int n = v.size(); for (int i = 0; i < n; ++i) std::swap(v[i], v[(i * 7 + q) % n]); }; mix(nid, 3); mix(eid, 5); mix(no, 2); mix(eo, 1); }
        auto one = [&](const VI& ni, const VI& ei, const VI& no, const VI& eo, MX* A, VX* b) { Mesh m = mkMesh(d, ni, ei, no, eo); m.generateFaces(1e-12); m.calculateFaceCentroid(); m.calculateElementCentroid(); Field T = mkField(m, DM_FVM, ST[st], DL_ELEMENT_CENTER); VI back(nn); std::map<int, int> inv; for (int i = 0; i < nn; ++i) inv[ni[i]] = i; for (int i = 0; bp && i < m.nbFaces(); ++i) { int id = m.faceId(i); if (m.face(id).hasPair()) continue; int sum = 0; for (int q : nodesOf(m.face(id))) sum += inv[q] * (inv[q] + 3); if (bp == 2 && sum % 2) continue; CPdeBoundaryCondition<R> bc(BT_GENERIC_FIXED_VALUE); bc.addCondition(CT_GENERIC_FIXED_VALUE, 1 + sum % 5); T.addBCFace(id, bc); } T.u.resize(n); for (int e = 0; e < n; ++e) T.u(m.elementIndex(ei[e])) = 1 + (e * 3 % 5); Sys S[3] = {ddt<R>(T), laplacian<R>(T), divergence<R>(T)}; r.op(3); for (int o = 0; o < 3; ++o) { MX X = denseOf(S[o]); if (X.rows() != n || S[o].vectorB.size() != n) return false; A[o].resize(n, n); b[o].resize(n); for (int i = 0; i < n; ++i) { b[o](i) = S[o].vectorB(m.elementIndex(ei[i])); for (int j = 0; j < n; ++j) A[o](i, j) = X(m.elementIndex(ei[i]), m.elementIndex(ei[j])); } } return true; };
        if (ref[0].size() == 0 && !r.expect(one(iota(nn), iota(n), iota(nn), iota(n), ref, rb), "shape")) continue; MX A[3]; VX b[3]; if (!r.expect(one(nid, eid, no, eo, A, b), "shape")) continue; for (int o = 0; o < 3; ++o) { double q = maxAbs(ref[o]) + maxAbs(rb[o]); r.expect(maxAbs(A[o] - ref[o]) <= 1e-9 * q && maxAbs(b[o] - rb[o]) <= 1e-9 * q, "operator", "%d: matrix off by %g, vector by %g of %g", o, maxAbs(A[o] - ref[o]), maxAbs(b[o] - rb[o]), q); } r.outcome(Hash().addr(maxAbs(A[1])).addr(maxAbs(b[1]))); r.trace(); } } } }
