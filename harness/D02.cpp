// Finite-volume operators against a reference built from the geometry alone.
#include "pde.hpp"
struct Ref { int n; MX L, D; VX lb, db; std::vector<double> V; };
struct Bc { int el; std::vector<int> key; double value; };
static P3 avg(const std::vector<P3>& v) { P3 c(0, 0, 0); for (auto& p : v) c = P3(c.x() + p.x() / v.size(), c.y() + p.y() / v.size(), c.z() + p.z() / v.size()); return c; }
static V3l areaVec(const std::vector<P3>& q) { V3l s = {0, 0, 0}; for (size_t i = 1; i + 1 < q.size(); ++i) s = s + cross(toL(q[i]) - toL(q[0]), toL(q[i + 1]) - toL(q[0])) * 0.5L; return s; }
// row i belongs to mesh element with index i
static Ref reference(const Mesh& m, const std::map<std::vector<int>, std::pair<int, double>>& bc) { // bc: face key -> (type, value)
    Ref r; r.n = m.nbElements(); r.L = MX::Zero(r.n, r.n); r.D = r.L; r.lb = VX::Zero(r.n); r.db = r.lb; std::map<std::vector<int>, std::vector<int>> own; std::vector<P3> cen;
    for (int i = 0; i < r.n; ++i) { const CMshElement<R>& e = m.element(m.elementId(i)); r.V.push_back(std::fabs(measureOf(m, m.elementId(i)))); cen.push_back(avg(ptsOf(m, e))); for (auto& s : sidesOf(e.elementType())) { auto k = sideNodes(e, s); std::sort(k.begin(), k.end()); own[k].push_back(i); } }
    for (int i = 0; i < r.n; ++i) { const CMshElement<R>& e = m.element(m.elementId(i)); for (auto& s : sidesOf(e.elementType())) { auto k = sideNodes(e, s); std::vector<P3> q; for (int id : k) q.push_back(m.node(id)); std::vector<P3> o; for (int id : sideNodes(e, s)) o.push_back(m.node(id)); std::sort(k.begin(), k.end()); V3l a = areaVec(o); P3 fc = avg(o); if (dot(a, toL(fc) - toL(cen[i])) < 0) a = a * -1.0L; double Af = (double)norm(a), sx = (double)(a.x + a.y + a.z); auto& w = own[k];
        if (w.size() == 2) { int j = w[0] == i ? w[1] : w[0]; double d = (double)norm(toL(cen[j]) - toL(cen[i])); r.L(i, i) -= Af / d / r.V[i]; r.L(i, j) += Af / d / r.V[i]; r.D(i, i) += 0.5 * sx / r.V[i]; r.D(i, j) += 0.5 * sx / r.V[i]; }
        else { auto b = bc.find(k); if (b != bc.end() && b->second.first == 1) { double d = (double)norm(toL(fc) - toL(cen[i])); r.L(i, i) -= Af / d / r.V[i]; r.lb(i) -= Af / d / r.V[i] * b->second.second; r.db(i) -= sx / r.V[i] * b->second.second; } } } }
    return r; }
static Mesh facesOf(Mesh m) { m.generateFaces(1E-12); m.calculateFaceCentroid(); m.calculateElementCentroid(); return m; }
static void apply(Field& T, const std::map<std::vector<int>, std::pair<int, double>>& bc) { Mesh& m = T.mesh(); for (int i = 0; i < m.nbFaces(); ++i) { int id = m.faceId(i); auto k = nodesOf(m.face(id)); std::sort(k.begin(), k.end()); auto b = bc.find(k); if (b == bc.end() || b->second.first == 0) continue; CPdeBoundaryCondition<R> c(b->second.first == 1 ? BT_GENERIC_FIXED_VALUE : BT_GENERIC_ZERO_GRADIENT); c.addCondition(b->second.first == 1 ? CT_GENERIC_FIXED_VALUE : CT_GENERIC_ZERO_GRADIENT, b->second.second); T.addBCFace(id, c); } }
static const ESimulationType ST[3] = {ST_GENERIC, ST_THERMAL, ST_FLOW};
static void compare(Run& r, const Mesh& m0, int st, const std::map<std::vector<int>, std::pair<int, double>>& bc, bool ortho) {
    Mesh m = facesOf(m0); Field T = mkField(m, DM_FVM, ST[st], DL_ELEMENT_CENTER); apply(T, bc); Ref q = reference(m, bc); int n = q.n; VX u(n); for (int i = 0; i < n; ++i) u(i) = 1.5 + (i * 5 % 7) - 0.25 * i; T.u = u;
    Sys L = laplacian<R>(T), D = divergence<R>(T), t = ddt<R>(T); r.op(3); MX A = denseOf(L), B = denseOf(D), C = denseOf(t); if (!r.expect(A.rows() == n && A.cols() == n && B.rows() == n && C.rows() == n && L.vectorB.size() == n, "shape")) return;
    double s = 1e-12 + maxAbs(q.L), sd = 1e-12 + maxAbs(q.D); r.expect(maxAbs(A - q.L) < 1e-9 * s, "laplacian-matrix", "difference %g of %g", maxAbs(A - q.L), s); r.expect(maxAbs(L.vectorB - q.lb) < 1e-9 * s * 10, "laplacian-right-side", "difference %g", maxAbs(L.vectorB - q.lb));
    MX DR = q.D; VX dbr = q.db; if (st == 2) for (int i = 0; i < n; ++i) { DR.row(i) *= u(i); dbr(i) *= u(i); } r.expect(maxAbs(B - DR) < 1e-8 * sd * 5, "divergence-matrix", "difference %g of %g", maxAbs(B - DR), sd); r.expect(maxAbs(D.vectorB - dbr) < 1e-8 * (sd + maxAbs(dbr)) * 10, "divergence-right-side", "difference %g", maxAbs(D.vectorB - dbr));
    r.expect(C.isIdentity(0) && t.vectorB == u, "time");
    // exchange is equal and opposite, nothing but boundary terms remains in a row or (weighted) column sum
    for (int i = 0; i < n; ++i) { double rs = 0, cs = 0; for (int j = 0; j < n; ++j) { rs += A(i, j); cs += q.V[j] * A(j, i); r.expect(std::fabs(q.V[i] * A(i, j) - q.V[j] * A(j, i)) < 1e-9 * s * q.V[i], "exchange"); } double fixedPart = 0; (void)fixedPart; bool hasFixed = q.lb(i) != 0 || std::fabs(q.L.row(i).sum()) > 1e-9 * s; if (!hasFixed) r.expect(std::fabs(rs) < 1e-8 * s && std::fabs(cs) < 1e-8 * s * q.V[i], "conservation", "row %g column %g", rs, cs); }
    Hash h; for (int i = 0; i < n; ++i) h.addr(A(i, i)); r.outcome(h); r.trace(); r.expect(T.u == u, "field-changed"); (void)ortho;
}
static MD uneven(MD d, int w) { double X[4] = {0, 0.3, 1.0, 1.2}, Y[4] = {0, 1, 1.1, 3}, Z[4] = {0, 0.02, 0.5, 2}; if (w) for (auto& p : d.p) p = P3(X[(int)lround(p.x())] * (w == 2 ? 0.01 : 1), Y[(int)lround(p.y())] * (w == 2 ? 0.01 : 1), Z[(int)lround(p.z())] * (w == 2 ? 0.01 : 1)); if (w) d.name += strf("-uneven%d", w); return d; }
static MD subset(const MD& d, int mask) { MD q = d; q.e.clear(); for (size_t i = 0; i < d.e.size(); ++i) if (mask >> i & 1) q.e.push_back(d.e[i]); return q; }
static bool connected(const MD& d) { int n = d.e.size(); if (n < 2) return n == 1; auto keys = [&](int i) { std::set<std::vector<int>> s; for (auto& f : sidesOf(d.e[i].first)) { std::vector<int> k; for (int j : f) k.push_back(d.e[i].second[j]); std::sort(k.begin(), k.end()); s.insert(k); } return s; }; std::vector<char> v(n, 0); std::vector<int> st = {0}; v[0] = 1; int c = 1; while (!st.empty()) { int a = st.back(); st.pop_back(); auto ka = keys(a); for (int b = 0; b < n; ++b) if (!v[b]) for (auto& k : keys(b)) if (ka.count(k)) { v[b] = 1; ++c; st.push_back(b); break; } } return c == n; }
static std::vector<std::vector<int>> boundary(const Mesh& m) { std::map<std::vector<int>, int> c; for (int i = 0; i < m.nbElements(); ++i) { const CMshElement<R>& e = m.element(m.elementId(i)); for (auto& s : sidesOf(e.elementType())) { auto k = sideNodes(e, s); std::sort(k.begin(), k.end()); c[k]++; } } std::vector<std::vector<int>> r; for (auto& p : c) if (p.second == 1) r.push_back(p.first); return r; }
SECTION("shapes", "every face-connected subset of the cells of 2x2x2 and 3x2x1 hexahedra, 2x2x1 prisms, 1x1x1 and 2x1x1 tetrahedra and mixed hexahedra/prisms x even, uneven and small uneven spacing x 4 numberings x 3 simulation types x 3 boundary patterns") {
    std::vector<MD> G = {gridHex(2, 2, 2, 1, 1, 1, 0), gridHex(3, 2, 1, 1, 1, 1, 0), gridHex(2, 1, 2, 1, 1, 1, 2), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(3, 1, 1, 1, 1, 1, 3)}; if (r.thorough) G.push_back(gridHex(2, 1, 1, 1, 1, 1, 1));
    for (auto& g : G) for (int w = 0; w < 3; ++w) { MD d = uneven(g, w); int ne = d.e.size(); for (int mask = 1; mask < (1 << ne); ++mask) { MD s = subset(d, mask); if (!connected(s)) continue; for (int sch = 0; sch < 4; ++sch) for (int st = 0; st < 3; ++st) for (int bp = 0; bp < 3; ++bp) {
        if (!r.thorough && (sch + st + bp + w) % 2) continue; if (!r.next([&] { return d.name + strf(" cells %x numbering %d simulation %d boundary %d", mask, sch, st, bp); })) continue; Mesh m = mkMeshN(s, sch); std::map<std::vector<int>, std::pair<int, double>> bc; int k = 0; if (bp) for (auto& f : boundary(m)) { int t = bp == 1 ? 1 : (k % 3); if (t) bc[f] = {t, 1.0 + k * 0.5}; ++k; } r.state(Hash().adds(d.name).add(mask).add(sch).add(st).add(bp)); compare(r, m, st, bc, true); } } } }
SECTION("boundaries", "every assignment of {free, fixed value, zero gradient} to the boundary faces of one cell, of {free, fixed} to those of two cells and to the ends and sides of a row of three and an L of three, hexahedra and prisms, 2 numberings; a condition on an interior face has no effect") {
    struct It { MD d; int states; }; MD h2 = uneven(gridHex(2, 1, 1, 1, 1, 1, 0), 1), p1 = uneven(gridHex(1, 1, 1, 1, 1, 1, 2), 1), L3 = subset(uneven(gridHex(2, 2, 1, 1, 1, 1, 0), 1), 7), r3 = uneven(gridHex(3, 1, 1, 1, 1, 1, 0), 1); std::vector<It> I = {{uneven(gridHex(1, 1, 1, 1, 1, 1, 0), 1), 3}, {h2, 2}, {p1, 2}, {subset(p1, 1), 3}}; if (r.thorough) { I.push_back({r3, 2}); I.push_back({L3, 2}); I.push_back({p1, 3}); }
    for (auto& it : I) for (int sch : {0, 3}) { Mesh m = mkMeshN(it.d, sch); auto B = boundary(m); sequences(B.size(), it.states, [&](const std::vector<int>& q) { for (int st = 0; st < 2; ++st) { if (!r.next([&] { return it.d.name + strf(" numbering %d simulation %d faces ", sch, st) + show(q); })) continue; std::map<std::vector<int>, std::pair<int, double>> bc; for (size_t i = 0; i < B.size(); ++i) if (q[i]) bc[B[i]] = {q[i], i % 3 ? 2.0 + i : -1.5 * (double)i}; if ((q[0] + q.back()) % 2) { for (int i = 0; i < m.nbElements(); ++i) for (auto& s : sidesOf(m.element(m.elementId(i)).elementType())) { auto k = sideNodes(m.element(m.elementId(i)), s); std::sort(k.begin(), k.end()); if (!std::binary_search(B.begin(), B.end(), k)) bc[k] = {1, 55.0}; } } r.state(Hash().adds(it.d.name).add(sch).add(st).adds(show(q)).add(it.states)); compare(r, m, st, bc, true); } }); } }
SECTION("linear", "every linear field a+bx+cy+dz of a basis on every connected subset of uneven 2x2x2 and 3x2x1 hexahedra: cells whose faces are interior or carry the field's value are balanced to rounding; steady conduction reproduces the field, and an implicit step equals the dense solution") {
    double F[6][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {2, -1, 3, 0.5}, {-4, 0.2, 0, -2}};
    for (auto& g : {gridHex(2, 2, 2, 1, 1, 1, 0), gridHex(3, 2, 1, 1, 1, 1, 0)}) for (int w = 0; w < 3; ++w) { MD d = uneven(g, w); for (int mask = 1; mask < (1 << (int)d.e.size()); ++mask) { MD s = subset(d, mask); if (!connected(s)) continue; for (int f = 0; f < 6; ++f) for (int sch : {0, 3}) for (int st = 0; st < 2; ++st) {
        if (!r.next([&] { return d.name + strf(" cells %x field %d numbering %d simulation %d", mask, f, sch, st); })) continue; Mesh m = facesOf(mkMeshN(s, sch)); auto val = [&](const P3& p) { return F[f][0] + F[f][1] * p.x() + F[f][2] * p.y() + F[f][3] * p.z(); }; std::map<std::vector<int>, std::pair<int, double>> bc; for (auto& k : boundary(m)) { std::vector<P3> q; for (int id : k) q.push_back(m.node(id)); bc[k] = {1, val(avg(q))}; }
        Field T = mkField(m, DM_FVM, ST[st], DL_ELEMENT_CENTER); apply(T, bc); int n = m.nbElements(); VX u(n); for (int i = 0; i < n; ++i) u(i) = val(avg(ptsOf(m, m.element(m.elementId(i))))); T.u = u; Sys L = laplacian<R>(T); VX res = denseOf(L) * u - L.vectorB; double sc = maxAbs(denseOf(L)) * (1 + maxAbs(u)); r.expect(maxAbs(res) < 1e-10 * sc, "balance", "residual %g of %g", maxAbs(res), sc);
        T.u.setZero(); CPdeEquation<R> e(laplacian<R>(T) = 0); e.solve(T); r.op(3); for (int i = 0; i < n; ++i) r.expect(std::fabs(T.u(i) - u(i)) < 1e-6 * (1 + maxAbs(u)), "steady", "cell %d: %.10g instead of %.10g", i, T.u(i), u(i));
        VX o(n); for (int i = 0; i < n; ++i) o(i) = (i * 3 % 5) - 2.0; T.u = o; double c = 0.7 * maxAbs(denseOf(L)); MX A = c * MX::Identity(n, n) - denseOf(L); VX x = A.fullPivLu().solve(VX(c * o - L.vectorB)); CPdeEquation<R> e2((R)c * ddt<R>(T) - laplacian<R>(T) = 0); e2.solve(T); for (int i = 0; i < n; ++i) r.expect(std::fabs(T.u(i) - x(i)) < 1e-6 * (1 + maxAbs(x)), "implicit-step", "cell %d: %.10g instead of %.10g", i, T.u(i), x(i));
        T.u = u; CPdeEquation<R> e3((R)c * ddt<R>(T) - laplacian<R>(T) = 0); e3.solve(T); for (int i = 0; i < n; ++i) r.expect(std::fabs(T.u(i) - u(i)) < 1e-6 * (1 + maxAbs(u)), "steady-is-kept"); r.state(Hash().adds(d.name).add(mask).add(f).add(sch).add(st)); r.outcome(Hash().addr(u(0))); r.trace(); } } } }
SECTION("fixed-cells", "flow simulation: every set of fixed cells of a row of four: the old value of a fixed cell is its fixed value") { Mesh m = facesOf(mkMeshN(gridHex(4, 1, 1, 1, 1, 1, 0), 0)); for (int mask = 0; mask < 16; ++mask) for (int w = 0; w < 3; ++w) { if (!r.next([&] { return strf("fixed %x values %d", mask, w); })) continue; Field T = mkField(m, DM_FVM, ST_FLOW, DL_ELEMENT_CENTER); VX u(4), o(4); for (int i = 0; i < 4; ++i) { u(i) = w * i - 1.0; o(i) = mask >> i & 1 ? 7.0 - i : u(i); if (mask >> i & 1) T.setFixedValue(i, 7.0 - i); } T.u = u; Sys s = ddt<R>(T); r.op(); r.expect(denseOf(s).isIdentity(0) && s.vectorB == o, "fixed-old-value"); r.state(Hash().add(mask).add(w)); r.trace(); } }
