// Extrusion of planar surface meshes, layer by layer.
#include "msh.hpp"
#include "MshMeshQuery.hpp"
#include "MshExtrudedMesher.hpp"
static int distinctPts(const std::vector<P3>& v, double tol) { std::map<std::array<ll, 3>, int> c; for (auto& p : v) c[{std::llround(p.x() / tol), std::llround(p.y() / tol), std::llround(p.z() / tol)}]++; return c.size(); }
static std::vector<MD> surfaces() {
    std::vector<MD> r; for (int s = 0; s < 3; ++s) for (int nx = 1; nx <= 3; ++nx) for (int ny = 1; ny <= 2; ++ny) r.push_back(gridQuad(nx, ny, 1, 0.5, s));
    { MD d; d.name = "Lshape"; d.p = {P3(0,0,0),P3(1,0,0),P3(2,0,0),P3(0,1,0),P3(1,1,0),P3(2,1,0),P3(0,2,0),P3(1,2,0)}; d.e = {{ET_QUADRILATERAL,{0,1,4,3}},{ET_TRIANGLE,{1,2,5}},{ET_TRIANGLE,{1,5,4}},{ET_QUADRILATERAL,{4,7,6,3}}}; r.push_back(d); }
    { MD d; d.name = "fan"; d.p = {P3(0,0,0),P3(1,0,0),P3(0.5,1,0),P3(-0.7,0.8,0),P3(-1,-0.5,0),P3(0.2,-1,0)}; for (int i = 1; i <= 5; ++i) d.e.push_back({ET_TRIANGLE,{0,i,i%5+1}}); r.push_back(d); }
    { MD d; d.name = "skewquad"; d.p = {P3(0,0,0),P3(2,0,0),P3(2.5,1,0),P3(0.25,1.5,0),P3(3.5,0,0)}; d.e = {{ET_QUADRILATERAL,{1,2,3,0}},{ET_TRIANGLE,{4,2,1}}}; r.push_back(d); }
    return r; }
SECTION("extrude", "21 planar surface meshes x 4 numberings x 8 planes (rigidly moved) x both orientations x 1..3 (thorough 5) layers x constant or varying thickness: counts, types, positions, volume, conformity after merging, order of the elements' nodes, moved surface") {
    auto sf = surfaces(); for (size_t q = 0; q < sf.size(); ++q) for (int s = 0; s < 4; ++s) for (int pl = 0; pl < 8; ++pl) for (int inv = 0; inv < 2; ++inv) for (int L = 1; L <= (r.thorough ? 5 : 3); ++L) for (int th = 0; th < 3; ++th) {
        if (!r.next([&] { return sf[q].name + strf(" numbering %d plane %d inverted %d layers %d thickness %d", s, pl, inv, L, th); })) continue;
        MD d = sf[q]; double a = pl >= 4 ? 0.6 : 1, b = pl >= 4 ? 0.8 : 0; for (auto& p : d.p) { P3 o(p.x() * (pl == 7 ? 0.01 : 1), p.y() * (pl == 7 ? 0.01 : 1), 0); P3 t(o.x(), a * o.y(), b * o.y()); if (pl % 4 == 1) t = P3(t.y(), t.z(), t.x()); if (pl % 4 == 2) t = P3(t.z(), t.x(), t.y()); if (pl % 4 == 3) t = P3(-t.x(), t.y() + 3, -t.z() - 2); p = t; }
        if (inv) for (auto& e : d.e) std::reverse(e.second.begin(), e.second.end());
        Mesh m = mkMeshN(d, s), m0 = m; double area = 0; for (int i = 0; i < m.nbElements(); ++i) area += measureOf(m, m.elementId(i)); double sc = pl == 7 ? 0.01 : 1; auto n0 = [&] { auto v = ptsOf(m, m.element(m.elementId(0))); auto c = cross(toL(v[1]) - toL(v[0]), toL(v[2]) - toL(v[0])); double l = norm(c); return P3(c.x / l, c.y / l, c.z / l); }();
        CMshExtrudedMesher<R> x; double H = 0; std::vector<double> hs; for (int l = 0; l < L; ++l) { double h = sc * (th == 0 ? 0.5 : th == 1 ? 0.1 * (l + 1) : 2.0 / (l + 1)); hs.push_back(h); H += h; Mesh before = m; r.expect(x.generate(m, h, 1e-6 * sc), "reported"); r.op(); for (int i = 0; i < m.nbNodes(); ++i) { int id = m.nodeId(i); P3 p = before.node(id), g = m.node(id); r.expect(std::fabs((g - p).norm() - h) < 1e-12 && std::fabs(std::fabs((g - p).dot(n0)) - h) < 1e-12 && (g - p).dot(n0) < 0, "moved-surface"); } }
        for (int i = 0; i < m.nbNodes(); ++i) { int id = m.nodeId(i); r.expect(((m.node(id) - m0.node(id)) + n0 * H).norm() < 1e-11, "moved-surface-total"); } r.expect(m.nbElements() == m0.nbElements() && m.nbNodes() == m0.nbNodes(), "surface");
        Mesh& v = x.mesh(); int nt = 0, nq = 0; for (int i = 0; i < m.nbElements(); ++i) (m.element(m.elementId(i)).elementType() == ET_TRIANGLE ? nt : nq)++; int gp = 0, gh = 0; double vol = 0; bool pos = true; for (int i = 0; i < v.nbElements(); ++i) { auto& e = v.element(v.elementId(i)); bool tp = e.elementType() == ET_TRIANGULAR_PRISM; (tp ? gp : gh)++; r.expect(tp || e.elementType() == ET_HEXAHEDRON, "type"); double w = measureOf(v, v.elementId(i)); pos = pos && w > 0; vol += w; auto P = ptsOf(v, e); int h = P.size() / 2; for (int k = 0; k < h; ++k) { auto g = P[k + h] - P[k]; r.expect(g.norm() > 1e-6 * sc && std::fabs(std::fabs(g.dot(n0)) - g.norm()) < 1e-9 * sc, "above", "element %d corner %d", v.elementId(i), k); } r.expect(e.thickness() == 1, "thickness"); }
        r.expect(gp == nt * L && gh == nq * L, "count", "%d prisms %d hexahedra", gp, gh); r.expect(pos, "orientation"); r.expect(std::fabs(vol - area * H) < 1e-9 * sc * sc * sc, "volume", "%.12g want %.12g", vol, area * H);
        v.mergeNodes(1e-6 * sc); r.op(); r.expect(v.nbNodes() == m.nbNodes() * (L + 1), "nodes", "%d want %d", v.nbNodes(), m.nbNodes() * (L + 1)); r.expect(v.nbElements() == (nt + nq) * L, "merged-elements"); std::vector<P3> want; for (int i = 0; i < m0.nbNodes(); ++i) { P3 p = m0.node(m0.nodeId(i)); want.push_back(p); for (double h : hs) { p += n0 * (-h); want.push_back(p); } } bool all = true; for (auto& w : want) { bool f = false; for (int i = 0; i < v.nbNodes() && !f; ++i) f = (v.node(v.nodeId(i)) - w).norm() < 1e-9; all = all && f; } r.expect(all, "positions");
        double v2 = 0; for (int i = 0; i < v.nbElements(); ++i) v2 += measureOf(v, v.elementId(i)); r.expect(std::fabs(v2 - area * H) < 1e-9 * sc * sc * sc, "merged-volume"); std::map<std::vector<int>, int> c; for (int i = 0; i < v.nbElements(); ++i) { auto& e = v.element(v.elementId(i)); for (auto& sd : sidesOf(e.elementType())) c[cyc(sideNodes(e, sd))]++; } int once = 0; bool two = true; for (auto& k : c) { once += k.second == 1; two = two && k.second <= 2; } std::map<std::vector<int>, int> se; for (auto& e : d.e) for (auto& sd : sidesOf(e.first)) { std::vector<int> k; for (int i : sd) k.push_back(e.second[i]); se[cyc(k)]++; } int be = 0; for (auto& k : se) be += k.second == 1; r.expect(two && once == 2 * (nt + nq) + be * L, "conformity", "%d boundary sides want %d", once, 2 * (nt + nq) + be * L);
        r.state(Hash().add(q).add(s).add(pl).add(inv).add(L).add(th)); r.outcome(Hash().add(gp).add(gh).add(v.nbNodes())); r.trace(); }
}
