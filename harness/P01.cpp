// Gmsh files: what is written, what is read back, histories of both.
#include "io.hpp"
#include "PosGmsh.hpp"
using namespace ENigMA::post;
struct GNode { int id; double x[3]; }; struct GElem { int id, type; std::vector<int> n; }; struct GData { std::string kind, name; int comps, count; std::vector<std::pair<int, std::vector<double>>> v; };
struct GFile { std::vector<GNode> nodes; std::vector<GElem> elems; std::vector<GData> data; std::string error; };
static int gmshNodes(int t) { switch (t) { case 15: return 1; case 1: return 2; case 2: return 3; case 3: return 4; case 4: return 4; case 5: return 8; case 6: return 6; } return -1; }
// strict reader of the published 2.2 text format
static GFile readGmsh(const std::string& text) { GFile g; auto T = tokens(text); size_t i = 0; auto bad = [&](const char* w) { if (g.error.empty()) g.error = std::string(w) + strf(" at line %d", (int)i + 1); }; auto I = [&](const std::string& s) { double x = 0; if (!num(s, x) || x != (int)x) bad("integer expected"); return (int)x; };
    auto line = [&](size_t n) -> const std::vector<std::string>* { if (i >= T.size()) { bad("end of file"); return 0; } if (n && T[i].size() != n) { bad("wrong number of items"); return 0; } return &T[i++]; };
    while (i < T.size() && g.error.empty()) { if (T[i].empty()) { ++i; continue; } if (T[i].size() != 1) { bad("section expected"); break; } std::string s = T[i++][0];
        if (s == "$MeshFormat") { auto l = line(3); if (l && (*l)[0].substr(0, 2) != "2.") bad("version"); }
        else if (s == "$Nodes") { auto c = line(1); if (!c) break; int n = I((*c)[0]); for (int k = 0; k < n; ++k) { auto l = line(4); if (!l) break; GNode q; q.id = I((*l)[0]); for (int d = 0; d < 3; ++d) if (!num((*l)[1 + d], q.x[d])) bad("number"); g.nodes.push_back(q); } }
        else if (s == "$Elements") { auto c = line(1); if (!c) break; int n = I((*c)[0]); for (int k = 0; k < n; ++k) { auto l = line(0); if (!l) break; if (l->size() < 3) { bad("short element"); break; } GElem e; e.id = I((*l)[0]); e.type = I((*l)[1]); int tags = I((*l)[2]), nn = gmshNodes(e.type); if (nn < 0) { bad("element type"); break; } if ((int)l->size() != 3 + tags + nn) { bad("element length"); break; } for (int d = 0; d < nn; ++d) e.n.push_back(I((*l)[3 + tags + d])); g.elems.push_back(e); } }
        else if (s == "$NodeData" || s == "$ElementData") { GData d; d.kind = s.substr(1); auto c = line(1); if (!c) break; int ns = I((*c)[0]); for (int k = 0; k < ns; ++k) { auto l = line(0); if (!l) break; std::string nm; for (size_t q = 0; q < l->size(); ++q) nm += (q ? " " : "") + (*l)[q]; if (nm.size() < 2 || nm[0] != '"' || nm.back() != '"') { bad("view name is not quoted"); break; } if (k == 0) d.name = nm.substr(1, nm.size() - 2); } c = line(1); if (!c) break; int nr = I((*c)[0]); for (int k = 0; k < nr; ++k) { auto l = line(1); double x; if (l && !num((*l)[0], x)) bad("real tag"); } c = line(1); if (!c) break; int ni = I((*c)[0]); std::vector<int> it; for (int k = 0; k < ni; ++k) { auto l = line(1); if (!l) break; it.push_back(I((*l)[0])); } if (it.size() < 3) { bad("integer tags"); break; } d.comps = it[1]; d.count = it[2]; for (int k = 0; k < d.count; ++k) { auto l = line(1 + d.comps); if (!l) break; std::vector<double> v; for (int q = 0; q < d.comps; ++q) { double x = 0; if (!num((*l)[1 + q], x)) bad("value"); v.push_back(x); } d.v.push_back({I((*l)[0]), v}); } g.data.push_back(d); }
        else { bad("unknown section"); break; }
        if (!g.error.empty()) break; if (i >= T.size() || T[i].size() != 1 || T[i][0] != "$End" + s.substr(1)) bad("section end"); else ++i; }
    return g; }
static int gmshType(EElementType t) { switch (t) { case ET_NODE: return 15; case ET_BEAM: return 1; case ET_TRIANGLE: return 2; case ET_QUADRILATERAL: return 3; case ET_TETRAHEDRON: return 4; case ET_HEXAHEDRON: return 5; case ET_TRIANGULAR_PRISM: return 6; default: return 0; } }
static void judgeFile(Run& r, const std::string& text, Field& f, const std::string& name) { GFile g = readGmsh(text); r.expect(g.error.empty(), "format", "%s", g.error.c_str()); if (!g.error.empty()) return; Mesh& m = f.mesh(); int N = m.nbNodes(), M = m.nbElements(); bool cnt = (int)g.nodes.size() == N && (int)g.elems.size() == M; r.expect(cnt, "counts", "%d %d", (int)g.nodes.size(), (int)g.elems.size()); if (!cnt) return; std::map<int, int> ni, ei; for (int i = 0; i < N; ++i) { r.expect(g.nodes[i].id > 0 && ni.emplace(g.nodes[i].id, i).second, "node numbers"); auto& p = m.node(m.nodeId(i)); r.expect(sameV(g.nodes[i].x[0], p.x()) && sameV(g.nodes[i].x[1], p.y()) && sameV(g.nodes[i].x[2], p.z()), "coordinates", "node %d: %.17g %.17g %.17g", i, g.nodes[i].x[0], g.nodes[i].x[1], g.nodes[i].x[2]); }
    for (int i = 0; i < M; ++i) { auto& e = m.element(m.elementId(i)); auto& q = g.elems[i]; r.expect(q.id > 0 && ei.emplace(q.id, i).second, "element numbers"); r.expect(q.type == gmshType(e.elementType()), "type", "element %d", i); bool ok = (int)q.n.size() == (int)e.nbNodeIds(); for (int k = 0; ok && k < e.nbNodeIds(); ++k) ok = ni.count(q.n[k]) && ni[q.n[k]] == m.nodeIndex(e.nodeId(k)); r.expect(ok, "connectivity", "element %d", i); }
    bool nodal = f.discretLocation() == DL_NODE; if (f.u.size() == 0) { r.expect(g.data.empty(), "no values"); return; } r.expect(g.data.size() == 1, "data sections"); if (g.data.size() != 1) return; GData& d = g.data[0]; int D = f.nbDofs(), K = nodal ? N : M; r.expect(d.kind == (nodal ? "NodeData" : "ElementData") && d.name == name && d.comps == D && (int)d.v.size() == K, "data header", "%s '%s' %d components %d entries", d.kind.c_str(), d.name.c_str(), d.comps, (int)d.v.size()); if (d.comps != D) return; std::set<int> seen; for (auto& v : d.v) { auto& mp = nodal ? ni : ei; bool has = mp.count(v.first); r.expect(has && seen.insert(v.first).second, "value owner", "%d", v.first); if (!has) continue; for (int q = 0; q < D; ++q) r.expect(sameV(v.second[q], f.u(mp[v.first] * D + q)), "value", "%s %d: %.17g instead of %.17g", nodal ? "node" : "element", mp[v.first], v.second[q], (double)f.u(mp[v.first] * D + q)); } }
SECTION("round", "every sequence of 0..3 (thorough 4) elements out of 9 (every type) on eight nodes x 4 numberings x coordinates including extreme values x node, element or no values x 1..3 components: the file is well formed and holds exactly the mesh and values; loading it gives the mesh, and saving that gives the same file") {
    Scratch S; int cnt = 0, top = r.thorough ? 4 : 3; for (int n = 0; n <= top; ++n) sequences(n, 9, [&](const std::vector<int>& q) { for (int sch = 0; sch < 4; ++sch) { ++cnt; int reps = n < 3 ? 9 : 1; for (int rep = 0; rep < reps; ++rep) { int w = reps == 1 ? cnt % 9 : rep; if (!r.next([&] { return "elements " + show(q) + strf(" numbering %d variant %d", sch, w); })) continue; r.state(Hash().adds(show(q)).add(sch).add(w)); MD d = cubeWith(q, (cnt + w) % 4); Field f = fieldOn(mkMeshN(d, sch), w % 3 == 1 ? DL_ELEMENT_CENTER : DL_NODE, 1 + w / 3, cnt, w % 9 != 2); std::string p = S.f("a.msh"), p2 = S.f("b.msh"), nm = w & 1 ? "heat flow" : "T"; CPosGmsh<R> g; Mesh before = f.mesh(); r.expect(g.save(f, p, nm), "save"); r.op(3); std::string text = slurp(p); judgeFile(r, text, f, nm); Field b; CPosGmsh<R> g2; r.expect(g2.load(b, p), "load"); std::string why; bool ok = sameMesh(before, b.mesh(), false, why); r.expect(ok, "loaded mesh", "%s", why.c_str()); bool same = sameMesh(before, f.mesh(), true, why); r.expect(same, "saving changed the mesh", "%s", why.c_str());
        if (ok) { b.setDiscretLocation(f.discretLocation()); b.setNbDofs(f.nbDofs()); b.u = f.u; r.expect(g2.save(b, p2, nm), "save again"); GFile x = readGmsh(text), y = readGmsh(slurp(p2)); bool eq = x.nodes.size() == y.nodes.size() && x.elems.size() == y.elems.size(); for (size_t i = 0; eq && i < x.nodes.size(); ++i) eq = x.nodes[i].id == y.nodes[i].id && sameV(x.nodes[i].x[0], y.nodes[i].x[0]) && sameV(x.nodes[i].x[1], y.nodes[i].x[1]) && sameV(x.nodes[i].x[2], y.nodes[i].x[2]); for (size_t i = 0; eq && i < x.elems.size(); ++i) eq = x.elems[i].id == y.elems[i].id && x.elems[i].type == y.elems[i].type && x.elems[i].n == y.elems[i].n; r.expect(eq, "second file"); } r.outcome(Hash().add(text.size())); r.trace(); } } }); }
SECTION("histories", "every sequence of up to 5 (thorough 6) of: take mesh A, take mesh B, save to file 1, save to file 2, load file 1, load file 2 (missing files included), load a missing file: field and files are those of the history") {
    Scratch S; MD da = cubeWith({3, 1}, 1), db = cubeWith({5, 6, 0, 4}, 2); Mesh A = mkMeshN(da, 1), B = mkMeshN(db, 3); int top = r.thorough ? 6 : 5; for (int n = 1; n <= top; ++n) sequences(n, 7, [&](const std::vector<int>& q) { if (!r.next([&] { return show(q); })) return; r.state(Hash().adds(show(q))); unlink(S.f("1").c_str()); unlink(S.f("2").c_str()); Field f; CPosGmsh<R> g; int cur = -1; bool known = false; int file[2] = {-2, -2}; // -2 missing, -1 empty mesh, 0 A, 1 B
        for (int o : q) { r.op(); std::string p = S.f(o == 2 || o == 4 ? "1" : "2"); int k = o == 2 || o == 4 ? 0 : 1; if (o < 2) { f = fieldOn(o ? B : A, DL_NODE, 1, 3); cur = o; known = true; } else if (o < 4) { bool ok = g.save(f, p, "x"); r.expect(ok, "save"); file[k] = cur; } else if (o < 6) { bool ok = g.load(f, p); r.expect(ok == (file[k] != -2), "load result"); if (file[k] != -2) { cur = file[k]; known = false; f.u.resize(0); } } else r.expect(!g.load(f, S.f("none")), "missing accepted");
            std::string why; Mesh E; Mesh& want = cur < 0 ? E : cur ? B : A; bool ok = sameMesh(want, f.mesh(), known, why); r.expect(ok, "mesh", "%s", why.c_str()); for (int w = 0; w < 2; ++w) if (file[w] > -2) { GFile x = readGmsh(slurp(S.f(w ? "2" : "1"))); Mesh& m = file[w] < 0 ? E : file[w] ? B : A; r.expect(x.error.empty() && (int)x.nodes.size() == m.nbNodes() && (int)x.elems.size() == m.nbElements(), "file", "%d: %s", w + 1, x.error.c_str()); } else r.expect(!exists(S.f(w ? "2" : "1")), "file appeared"); } r.outcome(Hash().add(cur).add(file[0]).add(file[1])); r.trace(); }); }
static std::string gmshText(const MD& d, int tags, int layout, std::vector<int>* keepNode = 0) { std::ostringstream o; o.precision(17); if (layout != 1) o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n"; if (layout == 2) o << "$PhysicalNames\n1\n2 1 \"wall\"\n$EndPhysicalNames\n"; if (layout == 1) o << "$MeshFormat\n2.1 0 8\n$EndMeshFormat\n\n"; o << "$Nodes\n" << d.p.size() << "\n"; for (size_t i = 0; i < d.p.size(); ++i) o << 3 * i + 2 << " " << d.p[i].x() << " " << d.p[i].y() << " " << d.p[i].z() << (layout == 3 ? " \n" : "\n"); o << "$EndNodes\n$Elements\n" << d.e.size() + (layout == 2 ? 2 : 0) << "\n"; if (layout == 2) o << "1 8 " << tags << (tags ? " 4" : "") << (tags > 1 ? " 9" : "") << (tags > 2 ? " 9" : "") << " 2 5 8\n"; for (size_t i = 0; i < d.e.size(); ++i) { o << 2 * i + 11 << " " << gmshType(d.e[i].first) << " " << tags; for (int t = 0; t < tags; ++t) o << " " << 7 + t; for (int k : d.e[i].second) o << " " << 3 * k + 2; o << "\n"; } if (layout == 2) o << "2 7 0 2 5 8 11 14\n"; o << "$EndElements\n"; if (layout == 3) o << "$NodeData\n1\n\"p\"\n1\n0.0\n3\n0\n1\n1\n2 5.5\n$EndNodeData\n"; return o.str(); }
SECTION("foreign", "every sequence of 0..3 elements x 0..5 or 8 tags x 4 layouts of files written by others (extra sections, unsupported elements, values, spacing), loaded into an empty or used field: identifiers, coordinates, types and connectivity are those of the file") {
    Scratch S; int cnt = 0; for (int n = 0; n <= 3; ++n) sequences(n, 9, [&](const std::vector<int>& q) { for (int tags : {0, 1, 2, 3, 4, 5, 8}) for (int lay = 0; lay < 4; ++lay) { ++cnt; if (n == 3 && !r.thorough && cnt % 5) continue; if (!r.next([&] { return "elements " + show(q) + strf(" tags %d layout %d", tags, lay); })) continue; r.state(Hash().adds(show(q)).add(tags).add(lay)); MD d = cubeWith(q, cnt % 4); std::string p = S.f("f.msh"); spit(p, gmshText(d, tags, lay)); Field f; if (cnt & 1) f = fieldOn(mkMeshN(cubeWith({1, 5}, 0), 1), DL_NODE, 1, 0); CPosGmsh<R> g; r.expect(g.load(f, p), "load"); r.op(); Mesh want = mkMesh(d, iota(8, 1, 3), iota(n, 10, 2), iota(8), iota(n)); std::string why; bool ok = sameMesh(want, f.mesh(), true, why); r.expect(ok, "mesh", "%s", why.c_str()); r.outcome(Hash().add(f.mesh().nbElements())); r.trace(); } }); }
SECTION("truncated", "every prefix of the files of every sequence of 1..2 elements: a file holding fewer nodes or elements than it declares is reported, never read as if complete") {
    Scratch S; for (int n = 1; n <= 2; ++n) sequences(n, 9, [&](const std::vector<int>& q) { if (n == 2 && !r.thorough && q[0] * 2 != q[1] && q[1] != 6) return; MD d = cubeWith(q, 0); std::string t = gmshText(d, 1, 0); size_t nd = t.find("$Nodes\n") + 7, el = t.find("$Elements\n") + 10; int needE = 0; for (auto& e : d.e) needE += 4 + e.second.size(); auto count = [&](size_t from, size_t to) { std::istringstream s(t.substr(from, to - from)); std::string w; int c = 0; while (s >> w) ++c; return c; };
        for (size_t cut = nd; cut < t.size(); ++cut) { if (!r.next([&] { return "elements " + show(q) + strf(" cut at %d", (int)cut); })) continue; r.state(Hash().adds(show(q)).add(cut)); std::string p = S.f("t.msh"); spit(p, t.substr(0, cut)); Field f; CPosGmsh<R> g; bool ok = g.load(f, p); r.op(); bool shortNodes = cut > t.find('\n', nd) && count(nd, std::min(cut, el - 20)) < 1 + 4 * 8 && cut < el - 20, shortElems = cut > t.find('\n', el) && count(el, cut) < 1 + needE; if (shortNodes || shortElems) r.expect(!ok, shortNodes ? "nodes missing" : "elements missing"); if (ok && cut > el + 3) { r.expect(f.mesh().nbNodes() == 8, "node count"); r.expect(f.mesh().nbElements() == n, "element count"); } r.outcome(Hash().add(ok).add(f.mesh().nbNodes())); r.trace(); } }); }
