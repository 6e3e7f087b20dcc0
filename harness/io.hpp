// Scratch files and small field catalogue for the file drivers.
#pragma once
#include "pde.hpp"
#include <fstream>
#include <sstream>
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/vk-io-XXXXXX"; dir = mkdtemp(t); } ~Scratch() { if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((dir + "/" + n).c_str()); } closedir(d); } rmdir(dir.c_str()); } std::string f(const std::string& n) const { return dir + "/" + n; } };
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << t; }
inline bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
inline std::vector<std::vector<std::string>> tokens(const std::string& t) { std::vector<std::vector<std::string>> v; std::istringstream f(t); std::string l; while (std::getline(f, l)) { std::istringstream g(l); std::vector<std::string> w; std::string s; while (g >> s) w.push_back(s); v.push_back(w); } return v; }
inline bool num(const std::string& s, double& x) { char* e = 0; x = strtod(s.c_str(), &e); return !s.empty() && *e == 0; }
inline bool sameV(double a, double b) { return a == b || std::fabs(a - b) <= 1e-14 * std::max(std::fabs(a), std::fabs(b)) || (std::fabs(a) < 1e-300 && std::fabs(b) < 1e-300); }
static const double EXT[14] = {0, 1, -1, 1.0 / 3, 1e-300, 1e300, -123456.789012345, 0.1 + 0.2, 1e-17, 3.14159265358979, -2.5e8, 1e16 + 2, 7, -0.0};
inline std::vector<std::pair<EElementType, std::vector<int>>> elementChoices() { return {{ET_BEAM, {0, 5}}, {ET_TRIANGLE, {2, 0, 7}}, {ET_QUADRILATERAL, {3, 2, 6, 7}}, {ET_TETRAHEDRON, {0, 2, 1, 4}}, {ET_TRIANGULAR_PRISM, {0, 1, 3, 4, 5, 7}}, {ET_HEXAHEDRON, {0, 1, 2, 3, 4, 5, 6, 7}}, {ET_NODE, {6}}, {ET_TRIANGLE, {7, 6, 5}}, {ET_BEAM, {1, 0}}}; }
inline MD cubeWith(const std::vector<int>& q, int variant) { MD d; static const int X[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (int i = 0; i < 8; ++i) if (variant == 3) d.p.push_back(P3(EXT[(i * 3) % 14], EXT[(i * 5 + 1) % 14], EXT[(i * 4 + 2) % 14])); else d.p.push_back(P3(X[i][0] * 1.5 + (variant ? 1.0 / 3 : 0), X[i][1] * (variant == 2 ? 1e-5 : 0.7), X[i][2] - (variant ? 1e4 / 7 : 0))); auto E = elementChoices(); for (int k : q) d.e.push_back(E[k]); return d; }
inline Field fieldOn(const Mesh& m, EDiscretLocation loc, int dofs, int seed, bool values = true) { Field f; f.setMesh(m); f.setDiscretMethod(DM_FEM); f.setDiscretLocation(loc); f.setNbDofs(dofs); if (values) { f.init(); for (int i = 0; i < f.u.size(); ++i) f.u(i) = EXT[(seed + i * 5) % 14] * (1 + (i / 14)); } return f; }
inline bool sameMesh(Mesh& a, Mesh& b, bool ids, std::string& why) { // b's node and element k correspond to those of a in storage order
    if (a.nbNodes() != b.nbNodes() || a.nbElements() != b.nbElements()) { why = strf("%d nodes %d elements instead of %d and %d", (int)b.nbNodes(), (int)b.nbElements(), (int)a.nbNodes(), (int)a.nbElements()); return false; }
    for (int i = 0; i < a.nbNodes(); ++i) { auto &p = a.node(a.nodeId(i)), &q = b.node(b.nodeId(i)); if (ids && a.nodeId(i) != b.nodeId(i)) { why = "node identifiers"; return false; } if (!sameV(p.x(), q.x()) || !sameV(p.y(), q.y()) || !sameV(p.z(), q.z())) { why = strf("node %d", i); return false; } }
    for (int i = 0; i < a.nbElements(); ++i) { auto &p = a.element(a.elementId(i)), &q = b.element(b.elementId(i)); if (ids && a.elementId(i) != b.elementId(i)) { why = "element identifiers"; return false; } if (p.elementType() != q.elementType() || p.nbNodeIds() != q.nbNodeIds()) { why = strf("element %d type", i); return false; } for (int k = 0; k < p.nbNodeIds(); ++k) if (a.nodeIndex(p.nodeId(k)) != b.nodeIndex(q.nodeId(k))) { why = strf("element %d nodes", i); return false; } }
    return true; }
