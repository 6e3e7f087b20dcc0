// Node-to-element queries against a brute-force scan.
#include "msh.hpp"
#include "MshMeshQuery.hpp"
static void ask(Run& r, Mesh& m, bool pairs) {
    CMshMeshQuery<R> q(m); auto ref = [&](int a, int b) { std::vector<int> v; for (int i = 0; i < m.nbElements(); ++i) { int id = m.elementId(i); auto n = nodesOf(m.element(id)); bool A = std::count(n.begin(), n.end(), a), B = b < 0 || std::count(n.begin(), n.end(), b); if (A && B) v.push_back(id); } std::sort(v.begin(), v.end()); return v; };
    std::vector<Integer> g; for (int round = 0; round < 2; ++round) for (int i = 0; i < m.nbNodes(); ++i) { int a = m.nodeId(i); q.elementsSharingNode(a, g); r.op(); std::sort(g.begin(), g.end()); r.expect(g == ref(a, -1), "node", "node %d: %s want %s", a, show(g).c_str(), show(ref(a, -1)).c_str()); if (pairs) for (int j = 0; j < m.nbNodes(); ++j) { int b = m.nodeId(j); q.elementsSharingNodes(a, b, g); r.op(); std::sort(g.begin(), g.end()); if (!r.expect(g == ref(a, b), "pair", "nodes %d,%d: %s want %s", a, b, show(g).c_str(), show(ref(a, b)).c_str())) return; } }
    q.elementsSharingNode(99999, g); r.expect(g.empty(), "unknown-node"); q.elementsSharingNodes(99999, m.nodeId(0), g); r.expect(g.empty(), "unknown-pair"); q.elementsSharingNodes(m.nodeId(0), 99999, g); r.expect(g.empty(), "unknown-pair");
}
SECTION("subsets", "every non-empty subset of the elements of 10 small meshes (up to 8 elements) x 4 numberings: every node and every ordered pair of nodes, asked twice, unknown nodes") {
    std::vector<MD> ms = {gridLine(5), gridQuad(2, 2, 1, 1, 0), gridQuad(2, 1, 1, 1, 1), gridQuad(2, 2, 1, 1, 2), gridQuad(2, 2, 1, 1, 1), gridHex(2, 2, 1, 1, 1, 1, 0), gridHex(1, 1, 1, 1, 1, 1, 1), gridHex(2, 2, 1, 1, 1, 1, 2), gridHex(2, 1, 1, 1, 1, 1, 3), gridHex(2, 2, 2, 1, 1, 1, 0)};
    for (size_t k = 0; k < ms.size(); ++k) for (int s = 0; s < 4; ++s) for (int sub = 1; sub < (1 << ms[k].e.size()); ++sub) {
        if (!r.thorough && ms[k].e.size() == 8 && sub % 3) continue;
        if (!r.next([&] { return ms[k].name + strf(" numbering %d elements %x", s, sub); })) continue;
        Mesh m = mkMeshN(ms[k], s); std::vector<int> rm; for (int i = 0; i < m.nbElements(); ++i) if (!(sub >> i & 1)) rm.push_back(m.elementId(i)); for (int e : rm) m.removeElement(e); ask(r, m, true); r.state(Hash().add(k).add(s).add(sub)); r.outcome(Hash().add(m.nbElements())); r.trace(); }
}
SECTION("orders", "a strip of 4 triangles round one node: every order of element identifiers x every storage order (and, for three of them, an element that names the same node twice)") {
    MD d; d.p = {P3(0,0,0),P3(1,0,0),P3(0,1,0),P3(-1,0,0),P3(0,-1,0)}; for (int i = 1; i <= 4; ++i) d.e.push_back({ET_TRIANGLE,{0,i,i%4+1}});
    permutations(4, [&](const std::vector<int>& id) { permutations(4, [&](const std::vector<int>& st) { for (int dup = 0; dup < 3; ++dup) {
        if (!r.next([&] { return "ids " + show(id) + " stored " + show(st) + strf(" repeated node %d", dup); })) continue;
        MD q = d; if (dup) q.e[dup].second[2] = q.e[dup].second[dup - 1]; std::vector<int> eid; for (int i : id) eid.push_back(i * 3 - 2); Mesh m = mkMesh(q, {4, 2, 9, 0, 7}, eid, {3, 1, 0, 4, 2}, st); ask(r, m, true); Hash h; for (int i : id) h.add(i); for (int i : st) h.add(i); r.state(h.add(dup)); r.outcome(Hash().add(dup)); r.trace(); } }); });
}
