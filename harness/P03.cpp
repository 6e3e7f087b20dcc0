// QuickMesh files and Gnuplot tables.
#include "io.hpp"
#include "PosQuickMesh.hpp"
#include "PosGnuplot.hpp"
using namespace ENigMA::post;
static const int TETS[7][4] = {{0, 2, 1, 4}, {1, 2, 3, 4}, {4, 6, 5, 1}, {7, 6, 5, 4}, {0, 1, 2, 7}, {3, 2, 7, 6}, {5, 0, 3, 6}};
static MD tets(const std::vector<int>& q, int variant) { MD d = cubeWith({}, variant); for (int k : q) d.e.push_back({ET_TETRAHEDRON, {TETS[k][0], TETS[k][1], TETS[k][2], TETS[k][3]}}); return d; }
SECTION("quickmesh", "every sequence of 0..4 (thorough 5) tetrahedra out of 7 on eight nodes x 4 numberings x coordinates including extreme values: the file holds exactly the mesh, and loading it, into an empty or used field, gives it back") {
    Scratch S; int top = r.thorough ? 5 : 4, cnt = 0; for (int n = 0; n <= top; ++n) sequences(n, 7, [&](const std::vector<int>& q) { for (int sch = 0; sch < 4; ++sch) { ++cnt; if (!r.next([&] { return "tetrahedra " + show(q) + strf(" numbering %d", sch); })) continue; r.state(Hash().adds(show(q)).add(sch)); Field f; f.setMesh(mkMeshN(tets(q, cnt % 4), sch)); Mesh before = f.mesh(); std::string p = S.f("q"); CPosQuickMesh<R> g; r.expect(g.save(f, p), "save"); r.op(2); std::string why; bool same = sameMesh(before, f.mesh(), true, why); r.expect(same, "saving changed the mesh", "%s", why.c_str());
        auto T = tokens(slurp(p)); int nc = 0, nt = 0, pn = -1, tn = -1; for (auto& l : T) { if (l.empty()) continue; if (l[0] == "P" && l.size() == 2) pn = atoi(l[1].c_str()); else if (l[0] == "T" && l.size() == 2) tn = atoi(l[1].c_str()); else if (l[0] == "C" && l.size() == 5) { auto& a = before.node(before.nodeId(nc)); double x[3] = {0, 0, 0}; bool ok = atoi(l[1].c_str()) == nc + 1; for (int k = 0; k < 3; ++k) ok = ok && num(l[2 + k], x[k]); r.expect(ok && sameV(x[0], a.x()) && sameV(x[1], a.y()) && sameV(x[2], a.z()), "node line", "%d", nc); ++nc; if (nc > before.nbNodes()) break; } else if (l[0] == "t" && l.size() >= 6) { if (nt >= n) { ++nt; break; } auto& e = before.element(before.elementId(nt)); bool ok = atoi(l[1].c_str()) == nt + 1; for (int k = 0; k < 4; ++k) ok = ok && atoi(l[2 + k].c_str()) == before.nodeIndex(e.nodeId(k)) + 1; r.expect(ok, "element line", "%d", nt); ++nt; } else r.expect(false, "unknown line"); } r.expect(pn == 8 && tn == n && nc == 8 && nt == n, "counts", "%d %d %d %d", pn, tn, nc, nt);
        Field b; if (cnt & 1) b.setMesh(mkMeshN(tets({5, 6, 1, 0, 3}, 0), 1)); CPosQuickMesh<R> h; r.expect(h.load(b, p), "load"); bool ok = sameMesh(before, b.mesh(), false, why); r.expect(ok, "loaded mesh", "%s", why.c_str()); r.expect(!h.load(b, S.f("none")), "missing accepted"); bool keep = sameMesh(before, b.mesh(), false, why); r.expect(keep || !ok, "missing file changed the mesh"); r.outcome(Hash().add(nt)); r.trace(); } }); }
SECTION("gnuplot", "every sequence of 0..2 (thorough 3) elements out of 9 on eight nodes x 4 numberings x node or element values x coordinates including extreme values, and the shared mesh catalogue: one row per node or element with its position and value") {
    Scratch S; int cnt = 0; auto one = [&](const MD& d, const std::string& nm, int sch, int loc) { if (!r.next([&] { return nm + strf(" numbering %d %s values", sch, loc ? "element" : "node"); })) return; r.state(Hash().adds(nm).add(sch).add(loc)); Field f = fieldOn(mkMeshN(d, sch), loc ? DL_ELEMENT_CENTER : DL_NODE, 1, cnt); f.mesh().calculateElementCentroid(); Mesh before = f.mesh(); std::string p = S.f("g"); CPosGnuplot<R> g; r.expect(g.save(f, p), "save"); r.op(); auto T = tokens(slurp(p)); std::vector<std::vector<std::string>> rows; for (auto& l : T) if (!l.empty() && l[0][0] != '#') rows.push_back(l); Mesh& m = f.mesh(); int K = loc ? m.nbElements() : m.nbNodes(); r.expect((int)rows.size() == K, "rows", "%d", (int)rows.size()); if ((int)rows.size() != K) { r.trace(); return; } for (int i = 0; i < K; ++i) { double x[5] = {0, 0, 0, 0, 0}; bool ok = rows[i].size() == 5; for (int k = 0; ok && k < 5; ++k) ok = num(rows[i][k], x[k]); r.expect(ok, "row format", "%d", i); if (!ok) break; double w[3]; if (loc) { auto& c = m.elementCentroid(m.elementId(i)); w[0] = c.x(); w[1] = c.y(); w[2] = c.z(); } else { auto& c = m.node(m.nodeId(i)); w[0] = c.x(); w[1] = c.y(); w[2] = c.z(); } r.expect(sameV(x[1], w[0]) && sameV(x[2], w[1]) && sameV(x[3], w[2]), "position", "row %d", i); r.expect(sameV(x[4], f.u(i)), "value", "row %d: %.17g", i, x[4]); } std::string why; bool same = sameMesh(before, m, true, why); r.expect(same, "saving changed the mesh"); r.outcome(Hash().add(K)); r.trace(); };
    for (int n = 0; n <= (r.thorough ? 3 : 2); ++n) sequences(n, 9, [&](const std::vector<int>& q) { if (n > 0) for (int k : q) if (k == 6) return; for (int sch = 0; sch < 4; ++sch) for (int loc = 0; loc < 2; ++loc) { ++cnt; one(cubeWith(q, cnt % 3), "elements " + show(q), sch, loc); } if (n == 1) one(cubeWith(q, 3), "extreme", q[0] % 4, 0); }); for (auto& d : meshCatalogue()) for (int sch = 0; sch < 4; ++sch) for (int loc = 0; loc < 2; ++loc) one(d, d.name, sch, loc); }
