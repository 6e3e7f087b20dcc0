// VTK legacy files, checked by an independent strict reader.
#include "io.hpp"
#include "PosVtk.hpp"
using namespace ENigMA::post;
struct VFile { std::vector<std::array<double, 3>> p; std::vector<std::vector<int>> cells; std::vector<int> types; std::map<std::string, std::vector<double>> pdata, cdata; std::string error; };
static VFile readVtk(const std::string& text) { VFile v; std::istringstream f(text); std::string l; if (!std::getline(f, l) || l.find("# vtk DataFile Version") != 0) { v.error = "header"; return v; } if (!std::getline(f, l) || l.size() > 255) { v.error = "title"; return v; } if (!std::getline(f, l) || l != "ASCII") { v.error = "ASCII"; return v; }
    std::vector<std::string> T; std::string w; while (f >> w) T.push_back(w); size_t i = 0; auto bad = [&](const std::string& m) { if (v.error.empty()) v.error = m + strf(" at item %d", (int)i); }; auto I = [&]() { double x = 0; if (i >= T.size() || !num(T[i], x) || x != (int)x) { bad("integer expected"); return 0; } ++i; return (int)x; }; auto D = [&]() { double x = 0; if (i >= T.size() || !num(T[i], x)) { bad("number expected"); return 0.0; } ++i; return x; };
    if (T.size() < 2 || T[0] != "DATASET" || T[1] != "UNSTRUCTURED_GRID") { v.error = "dataset"; return v; } i = 2; int where = 0, count = 0; while (i < T.size() && v.error.empty()) { std::string s = T[i++];
        if (s == "POINTS") { int n = I(); if (i < T.size()) ++i; for (int k = 0; k < n && v.error.empty(); ++k) { double x = D(), y = D(), z = D(); v.p.push_back({{x, y, z}}); } }
        else if (s == "CELLS") { int n = I(), size = I(), used = 0; for (int k = 0; k < n && v.error.empty(); ++k) { int m = I(); std::vector<int> c; for (int q = 0; q < m && v.error.empty(); ++q) c.push_back(I()); used += m + 1; v.cells.push_back(c); } if (v.error.empty() && used != size) bad(strf("cell list size %d declared %d", used, size)); }
        else if (s == "CELL_TYPES") { int n = I(); for (int k = 0; k < n; ++k) v.types.push_back(I()); }
        else if (s == "POINT_DATA") { where = 1; count = I(); if (count != (int)v.p.size()) bad("point data count"); }
        else if (s == "CELL_DATA") { where = 2; count = I(); if (count != (int)v.cells.size()) bad("cell data count"); }
        else if (s == "SCALARS" && where) { if (i + 1 >= T.size()) { bad("scalars"); break; } std::string nm = T[i++]; ++i; int comps = 1; if (i < T.size() && T[i] != "LOOKUP_TABLE") comps = I(); if (i + 1 >= T.size() || T[i] != "LOOKUP_TABLE") { bad("lookup table"); break; } i += 2; auto& d = (where == 1 ? v.pdata : v.cdata)[nm]; for (int k = 0; k < count * comps && v.error.empty(); ++k) d.push_back(D()); }
        else if (s == "VECTORS" && where) { if (i + 1 >= T.size()) { bad("vectors"); break; } std::string nm = T[i++]; ++i; auto& d = (where == 1 ? v.pdata : v.cdata)[nm]; for (int k = 0; k < count * 3 && v.error.empty(); ++k) d.push_back(D()); }
        else { --i; bad("unknown keyword " + s); } }
    if (v.error.empty() && v.types.size() != v.cells.size()) v.error = "number of cell types"; for (size_t k = 0; v.error.empty() && k < v.cells.size(); ++k) { int need = v.types[k] == 1 ? 1 : v.types[k] == 3 ? 2 : v.types[k] == 5 ? 3 : v.types[k] == 9 ? 4 : v.types[k] == 10 ? 4 : v.types[k] == 12 ? 8 : v.types[k] == 13 ? 6 : -1; if (need < 0) v.error = strf("cell type %d", v.types[k]); else if ((int)v.cells[k].size() != need) v.error = strf("cell %d has %d points", (int)k, (int)v.cells[k].size()); else for (int q : v.cells[k]) if (q < 0 || q >= (int)v.p.size()) v.error = "point index"; }
    return v; }
static int vtkType(EElementType t) { switch (t) { case ET_NODE: return 1; case ET_BEAM: return 3; case ET_TRIANGLE: return 5; case ET_QUADRILATERAL: return 9; case ET_TETRAHEDRON: return 10; case ET_HEXAHEDRON: return 12; case ET_TRIANGULAR_PRISM: return 13; default: return 0; } }
static void judge(Run& r, const std::string& text, Field& f) { VFile v = readVtk(text); r.expect(v.error.empty(), "format", "%s", v.error.c_str()); if (!v.error.empty()) return; Mesh& m = f.mesh(); int N = m.nbNodes(), M = m.nbElements(); bool cnt = (int)v.p.size() == N && (int)v.cells.size() == M; r.expect(cnt, "counts"); if (!cnt) return; for (int i = 0; i < N; ++i) { auto& p = m.node(m.nodeId(i)); r.expect(sameV(v.p[i][0], p.x()) && sameV(v.p[i][1], p.y()) && sameV(v.p[i][2], p.z()), "coordinates", "point %d: %.17g %.17g %.17g", i, v.p[i][0], v.p[i][1], v.p[i][2]); }
    for (int i = 0; i < M; ++i) { auto& e = m.element(m.elementId(i)); r.expect(v.types[i] == vtkType(e.elementType()), "type", "cell %d", i); std::vector<int> n; for (int k = 0; k < e.nbNodeIds(); ++k) n.push_back(m.nodeIndex(e.nodeId(k))); if (e.elementType() == ET_TETRAHEDRON) std::swap(n[1], n[2]); r.expect(n == v.cells[i], "cell", "cell %d: ", i); }
    if (f.u.size() && f.discretLocation() == DL_NODE && f.nbDofs() == 1) { bool one = v.pdata.size() == 1 && v.pdata.begin()->second.size() == (size_t)N; r.expect(one, "point values"); if (one) for (int i = 0; i < N; ++i) r.expect(sameV(v.pdata.begin()->second[i], f.u(i)), "value", "node %d: %.17g instead of %.17g", i, v.pdata.begin()->second[i], (double)f.u(i)); } else if (f.u.size() == 0) r.expect(v.pdata.empty() && v.cdata.empty(), "no values"); }
SECTION("content", "every sequence of 0..3 (thorough 4) elements out of 9 (every type) on eight nodes x 4 numberings x coordinates including extreme values x node, element or no values x 1..3 components: the file is well formed, declared counts match, and points, cells, cell types and node values are exactly those of the mesh and field") {
    Scratch S; int cnt = 0, top = r.thorough ? 4 : 3; for (int n = 0; n <= top; ++n) sequences(n, 9, [&](const std::vector<int>& q) { for (int sch = 0; sch < 4; ++sch) { ++cnt; int reps = n < 3 ? 9 : 3; for (int rep = 0; rep < reps; ++rep) { int w = reps == 3 ? (cnt + rep * 4) % 9 : rep; if (!r.next([&] { return "elements " + show(q) + strf(" numbering %d variant %d", sch, w); })) continue; r.state(Hash().adds(show(q)).add(sch).add(w)); MD d = cubeWith(q, (cnt + w) % 4); Field f = fieldOn(mkMeshN(d, sch), w % 3 == 1 ? DL_ELEMENT_CENTER : DL_NODE, 1 + w / 3, cnt, w % 9 != 2); Mesh before = f.mesh(); std::string p = S.f("a.vtk"); CPosVtk<R> g; r.expect(g.save(f, p), "save"); r.op(); std::string t = slurp(p); judge(r, t, f); std::string why; bool same = sameMesh(before, f.mesh(), true, why); r.expect(same, "saving changed the mesh", "%s", why.c_str()); r.expect(g.save(f, p) && slurp(p) == t, "saving twice differs"); r.outcome(Hash().add(t.size())); r.trace(); } } }); }
SECTION("meshes", "every mesh of the shared catalogue (grids of every element type, mixed, single elements) x 4 numberings: the file describes it") {
    Scratch S; auto cat = meshCatalogue(); for (size_t c = 0; c < cat.size(); ++c) for (int sch = 0; sch < 4; ++sch) { if (!r.next([&] { return cat[c].name + strf(" numbering %d", sch); })) continue; r.state(Hash().add(c).add(sch)); Field f = fieldOn(mkMeshN(cat[c], sch), DL_NODE, 1, sch); std::string p = S.f("a.vtk"); CPosVtk<R> g; r.expect(g.save(f, p), "save"); r.op(); std::string t = slurp(p); judge(r, t, f); VFile v = readVtk(t); if (v.error.empty()) for (size_t i = 0; i < v.cells.size(); ++i) if (v.types[i] == 10) { auto P = [&](int k) { auto& a = v.p[v.cells[i][k]]; return P3(a[0], a[1], a[2]); }; double lib = -tetVol(f.mesh().node(f.mesh().element(f.mesh().elementId(i)).nodeId(0)), f.mesh().node(f.mesh().element(f.mesh().elementId(i)).nodeId(1)), f.mesh().node(f.mesh().element(f.mesh().elementId(i)).nodeId(2)), f.mesh().node(f.mesh().element(f.mesh().elementId(i)).nodeId(3))); double vtk = tetVol(P(0), P(1), P(2), P(3)); r.expect(near(lib, vtk, 1e-9 * (1 + std::fabs(lib))), "orientation", "%g %g", lib, vtk); } r.outcome(Hash().add(t.size())); r.trace(); } }
SECTION("overwrite", "every sequence of up to 4 saves of 4 different fields to two files, plus an impossible path: each file always holds the last field saved to it") {
    Scratch S; std::vector<Field> F; F.push_back(fieldOn(mkMeshN(cubeWith({3, 1}, 1), 1), DL_NODE, 1, 3)); F.push_back(fieldOn(mkMeshN(cubeWith({5, 6, 2, 4}, 2), 3), DL_NODE, 1, 5)); F.push_back(fieldOn(mkMeshN(cubeWith({}, 0), 0), DL_ELEMENT_CENTER, 1, 1)); F.push_back(fieldOn(mkMeshN(cubeWith({2}, 3), 2), DL_NODE, 1, 0, false)); for (int n = 1; n <= 4; ++n) sequences(n, 9, [&](const std::vector<int>& q) { if (!r.next([&] { return show(q); })) return; r.state(Hash().adds(show(q))); int last[2] = {-1, -1}; unlink(S.f("0").c_str()); unlink(S.f("1").c_str()); CPosVtk<R> g; for (int o : q) { r.op(); if (o == 8) { r.expect(!g.save(F[0], S.f("no/such/dir")), "impossible path accepted"); continue; } r.expect(g.save(F[o % 4], S.f(o / 4 ? "1" : "0")), "save"); last[o / 4] = o % 4; } for (int k = 0; k < 2; ++k) { std::string p = S.f(k ? "1" : "0"); r.expect(exists(p) == (last[k] >= 0), "existence"); if (last[k] >= 0) judge(r, slurp(p), F[last[k]]); } r.outcome(Hash().add(last[0]).add(last[1])); r.trace(); }); }
