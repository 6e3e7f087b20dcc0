// STL files: facet table, text and binary round trips, histories, damaged files.
#include "io.hpp"
#include "StlUtils.hpp"
using namespace ENigMA::stl;
struct F { double n[3], v[3][3]; char e[2]; };
static const F K[5] = {{{0, 0, 1}, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {0, 0}}, {{1.0 / 3, -2.0 / 3, 2.0 / 3}, {{-1.5, 1.0 / 3, 1e-8}, {2e5, -7.25, 3}, {0.1, 0.2, -0.3}}, {5, -3}}, {{0, 0, 0}, {{1e6 + 1.0 / 7, 0, 1}, {0, -1e-3, 0}, {12345.678, 9, 1e10}}, {'?', 'c'}}, {{-1, 0, 0}, {{3, 3, 3}, {3, 4, 3}, {3, 3, 5}}, {127, 10}}, {{0.6, 0.8, 0}, {{0, 0, -1}, {-0.0, 2, 2}, {1e-30, 1e-12, 4}}, {32, 13}}};
static CStlFacet<R> facet(const F& f) { CStlFacet<R> c; for (int i = 0; i < 3; ++i) { P3 p(f.v[i][0], f.v[i][1], f.v[i][2]); c.addVertex(p); } c.normal().x() = f.n[0]; c.normal().y() = f.n[1]; c.normal().z() = f.n[2]; c.extra[0] = f.e[0]; c.extra[1] = f.e[1]; return c; }
static F text(F f) { for (double* p = f.n; p < f.n + 12; ++p) { char b[40]; snprintf(b, 40, "%.8e", *p); *p = strtod(b, 0); } f.e[0] = f.e[1] = 0; return f; }
static F bin(F f) { for (double* p = f.n; p < f.n + 12; ++p) *p = (float)*p; return f; }
static bool close(double a, double b) { return std::fabs(a - b) <= 2e-8 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }
static bool same(CStlFacet<R>& c, const F& f, bool extra) { if (c.nbVertices() != 3) return false; bool ok = close(c.normal().x(), f.n[0]) && close(c.normal().y(), f.n[1]) && close(c.normal().z(), f.n[2]); for (int i = 0; i < 3; ++i) ok = ok && close(c.vertex(i).x(), f.v[i][0]) && close(c.vertex(i).y(), f.v[i][1]) && close(c.vertex(i).z(), f.v[i][2]); return ok && (!extra || (c.extra[0] == f.e[0] && c.extra[1] == f.e[1])); }
typedef std::vector<std::pair<int, F>> Set;
static void judge(Run& r, CStlUtils<R>& s, const Set& m, bool extra) { auto& f = s.stlFile(); bool cnt = f.nbFacets() == (int)m.size(); r.expect(cnt, "count", "%d instead of %d", (int)f.nbFacets(), (int)m.size()); if (!cnt) return; int top = -1; for (size_t i = 0; i < m.size(); ++i) { r.expect(f.facetId(i) == m[i].first, "identifier", "place %d: %d", (int)i, (int)f.facetId(i)); top = std::max(top, m[i].first); if (f.facetId(i) == m[i].first) r.expect(same(f.facet(m[i].first), m[i].second, extra), "facet", "place %d", (int)i); } r.expect(f.nextFacetId() == top + 1, "next identifier"); }
static void box(Run& r, CStlUtils<R>& s, const Set& m) { if (m.empty()) return; double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (auto& f : m) for (int i = 0; i < 3; ++i) { lo[k] = std::min(lo[k], f.second.v[i][k]); hi[k] = std::max(hi[k], f.second.v[i][k]); } } auto& t = s.stlFile().stats; r.expect(close(t.min.x(), lo[0]) && close(t.min.y(), lo[1]) && close(t.min.z(), lo[2]), "lower corner"); r.expect(close(t.max.x(), hi[0]) && close(t.max.y(), hi[1]) && close(t.max.z(), hi[2]), "upper corner"); r.expect(close(t.size.x(), hi[0] - lo[0]) && close(t.size.y(), hi[1] - lo[1]) && close(t.size.z(), hi[2] - lo[2]), "size"); }
static Set plain(const std::vector<int>& q, F (*w)(F) = 0, int base = 0, int step = 1) { Set m; for (size_t i = 0; i < q.size(); ++i) m.push_back({base + step * (int)i, w ? w(K[q[i]]) : K[q[i]]}); return m; }
static void fill(CStlUtils<R>& s, const Set& m) { for (auto& f : m) s.addFacet(f.first, facet(f.second)); }
static bool strictText(const std::string& t, int n) { auto T = tokens(t); if ((int)T.size() != 2 + 7 * n || T.empty() || T[0].empty() || T[0][0] != "solid" || T.back().empty() || T.back()[0] != "endsolid") return false; for (int i = 0; i < n; ++i) { auto* l = &T[1 + 7 * i]; double x; if (l[0].size() != 5 || l[0][0] != "facet" || l[0][1] != "normal" || l[1].size() != 2 || l[1][0] != "outer" || l[1][1] != "loop" || l[5].size() != 1 || l[5][0] != "endloop" || l[6].size() != 1 || l[6][0] != "endfacet") return false; for (int k = 2; k < 5; ++k) { if (l[k].size() != 4 || l[k][0] != "vertex") return false; for (int j = 1; j < 4; ++j) if (!num(l[k][j], x)) return false; } } return true; }
static bool strictBinary(const std::string& t, int n) { if ((int)t.size() != 84 + 50 * n) return false; int c; memcpy(&c, t.data() + 80, 4); return c == n && t.compare(0, 5, "solid") != 0; }
SECTION("round", "every sequence of 0..4 (thorough 5) facets out of 5 with extreme coordinates, and longer ones, text and binary x 2 identifier patterns x target empty or used: the file is well formed, and loading it yields the same facets in order, counts and bounding box") {
    Scratch S; auto one = [&](const std::vector<int>& q, int fmt, int idp, int used) { if (!r.next([&] { return "facets " + show(q) + strf(" format %d identifiers %d used %d", fmt, idp, used); })) return; r.state(Hash().adds(show(q)).add(fmt).add(idp).add(used)); Set m = plain(q, 0, idp ? 40 : 0, idp ? -3 : 1); if (idp) for (auto& f : m) f.first += 3 * (int)q.size(); CStlUtils<R> s; fill(s, m); s.stlFile().stats.type = fmt ? FT_BINARY : FT_ASCII; std::string p = S.f("a.stl"); r.expect(s.save(p), "save"); r.op(2); judge(r, s, m, true); s.calculateStatistics(); box(r, s, m); std::string t = slurp(p); r.expect(fmt ? strictBinary(t, q.size()) : strictText(t, q.size()), "format"); CStlUtils<R> b; Set old = used ? plain({3, 1, 4}) : Set(); fill(b, old); bool ok = b.load(p); if (q.empty()) { r.expect(!ok, "empty accepted"); judge(r, b, old, true); } else { r.expect(ok, "load"); Set w = plain(q, fmt ? bin : text); judge(r, b, w, fmt); box(r, b, w); r.expect(b.stlFile().stats.type == (fmt ? FT_BINARY : FT_ASCII), "detected type"); if (ok) { r.expect(b.save(S.f("b.stl")), "save again"); r.expect(slurp(S.f("b.stl")) == t, "second file differs"); } } r.outcome(Hash().add(t.size())); r.trace(); };
    for (int n = 0; n <= (r.thorough ? 5 : 4); ++n) sequences(n, 5, [&](const std::vector<int>& q) { for (int fmt = 0; fmt < 2; ++fmt) for (int idp = 0; idp < 2; ++idp) for (int u = 0; u < 2; ++u) one(q, fmt, idp, u); }); for (int n = 5; n < 40; ++n) for (int s = 0; s < 5; ++s) { std::vector<int> q; for (int i = 0; i < n; ++i) q.push_back((i * (s + 1) + s) % 5); for (int fmt = 0; fmt < 2; ++fmt) one(q, fmt, n % 2, s % 2); } }
SECTION("table", "every sequence of up to 6 (thorough 7) of: add a facet under identifiers 0, 3, 7 (again replaces it), add under the next one, remove 0, 3 or 7 when present, reset: facets, order and counts are those of the history") {
    sequences(1, 1, [](const std::vector<int>&) {}); int top = r.thorough ? 7 : 6; for (int n = 1; n <= top; ++n) sequences(n, 8, [&](const std::vector<int>& q) { if (n == 6 && !r.thorough && q[0] > 3) return; if (!r.next([&] { return show(q); })) return; r.state(Hash().adds(show(q))); CStlUtils<R> s; Set m; int c = 0; static const int ID[3] = {0, 3, 7}; auto find = [&](int id) { for (size_t i = 0; i < m.size(); ++i) if (m[i].first == id) return (int)i; return -1; }; for (int o : q) { r.op(); ++c; if (o < 3) { const F& f = K[c % 5]; int k = find(ID[o]); if (k < 0) m.push_back({ID[o], f}); else m[k].second = f; s.addFacet(ID[o], facet(f)); } else if (o == 3) { int id = s.stlFile().nextFacetId(); m.push_back({id, K[c % 5]}); s.addFacet(id, facet(K[c % 5])); } else if (o < 7) { int k = find(ID[o - 4]); if (k >= 0) { m.erase(m.begin() + k); s.removeFacet(ID[o - 4]); } } else { m.clear(); s.stlFile().reset(); } judge(r, s, m, true); } r.outcome(Hash().add(m.size())); r.trace(); }); }
SECTION("histories", "every sequence of up to 5 (thorough 6) of: add a facet, remove the first, reset, save text or binary to file 1, save binary to file 2, load file 1, load file 2, append the content of file 1, load a missing file, save to an impossible path: object and files are those of the history") {
    Scratch S; int top = r.thorough ? 6 : 5; for (int n = 1; n <= top; ++n) sequences(n, 11, [&](const std::vector<int>& q) { if (n >= 5 && !r.thorough && (q[0] > 0)) return; if (!r.next([&] { return show(q); })) return; r.state(Hash().adds(show(q))); CStlUtils<R> s; Set m; std::vector<F> file[2]; int fm[2] = {-1, -1}; unlink(S.f("1").c_str()); unlink(S.f("2").c_str()); int c = 0; bool extra = true; for (int o : q) { r.op(); ++c; if (o == 0) { int id = s.stlFile().nextFacetId(); s.addFacet(id, facet(K[c % 5])); m.push_back({id, K[c % 5]}); } else if (o == 1) { if (!m.empty()) { s.removeFacet(m[0].first); m.erase(m.begin()); } } else if (o == 2) { s.stlFile().reset(); m.clear(); } else if (o < 6) { int k = o == 5, fmt = o > 3; s.stlFile().stats.type = fmt ? FT_BINARY : FT_ASCII; r.expect(s.save(S.f(k ? "2" : "1")), "save"); file[k].clear(); for (auto& f : m) file[k].push_back(fmt ? bin(f.second) : text(f.second)); fm[k] = fmt; } else if (o < 8) { int k = o - 6; bool ok = s.load(S.f(k ? "2" : "1")); bool want = fm[k] >= 0 && !file[k].empty(); r.expect(ok == want, "load result"); if (want) { m.clear(); for (auto& f : file[k]) m.push_back({(int)m.size(), f}); } } else if (o == 8) { CStlUtils<R> t; bool ok = t.load(S.f("1")); if (ok) { s.add(t); for (auto& f : file[0]) { int id = 0; for (auto& g : m) id = std::max(id, g.first + 1); m.push_back({id, f}); } box(r, s, m); } } else if (o == 9) r.expect(!s.load(S.f("none")), "missing accepted"); else r.expect(!s.save(S.f("no/such/dir")), "impossible path accepted"); judge(r, s, m, extra); if (r.failedNow()) break; } r.outcome(Hash().add(m.size()).add(fm[0]).add(fm[1])); r.trace(); }); }
SECTION("damaged", "every prefix of text and binary files of 1..7 facets (thorough 12), except text prefixes that are indistinguishable from a binary file (no vertex after its header, and a binary file's size): the file is rejected, or every facet read is one of the file's own, in order") {
    Scratch S; for (int n = 1; n <= (r.thorough ? 12 : 7); ++n) for (int fmt = 0; fmt < 2; ++fmt) { std::vector<int> q; for (int i = 0; i < n; ++i) q.push_back((i * 2 + n) % 5); CStlUtils<R> s; fill(s, plain(q)); s.stlFile().stats.type = fmt ? FT_BINARY : FT_ASCII; std::string p = S.f("a.stl"); s.save(p); std::string t = slurp(p); Set w = plain(q, fmt ? bin : text); for (size_t cut = 0; cut < t.size(); ++cut) { if (!fmt && cut >= 134 && (cut - 84) % 50 == 0 && t.substr(84, cut - 84).find("vertex") == std::string::npos) continue; if (!r.next([&] { return strf("%d facets format %d cut at %d", n, fmt, (int)cut); })) continue; r.state(Hash().add(n).add(fmt).add(cut)); spit(S.f("c.stl"), t.substr(0, cut)); CStlUtils<R> b; bool ok = b.load(S.f("c.stl")); r.op(); if (ok) { int k = b.stlFile().nbFacets(); r.expect(k <= n, "invented"); for (int i = 0; i < k && i < n; ++i) r.expect(same(b.stlFile().facet(b.stlFile().facetId(i)), w[i].second, fmt), "facet", "%d of %d", i, k); } r.outcome(Hash().add(ok)); r.trace(); } } }
