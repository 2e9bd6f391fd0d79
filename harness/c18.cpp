// C18: topological queries against an independent reconstruction of the connectivity.
#include "jobgen.h"
#include "oracle.h"
#include "zoo.h"

static int ncases(const std::string &t) { return t == "thorough" ? 9000 : 900; }

struct Q {
  Mmg &g; Msh &m; Result &r; std::string K; Rng &rg; bool ran;
  bool bad(const std::string &key, const std::string &d) { r.viol(K + ":" + key, d + " " + r.sample); return false; }
  bool tets();
  bool tris();
  bool nonBdy(bool opn);
};
// ---- tetrahedra
bool Q::tets() {
  std::map<F3, std::vector<std::pair<int, int>>> fm;
  for (size_t e = 0; e < m.tet.size(); e++) for (int i = 0; i < 4; i++) { auto &v = m.tet[e].v; fm[sf(v[TETFACE[i][0]], v[TETFACE[i][1]], v[TETFACE[i][2]])].push_back({(int)e, i}); }
  for (size_t e = 0; e < m.tet.size(); e++) {
    MMG5_int ad[4] = {-9, -9, -9, -9};
    if (MMG3D_Get_adjaTet(g.mesh, e + 1, ad) != 1) return bad("adjacency-refused", strf("tetrahedron %zu", e + 1));
    for (int i = 0; i < 4; i++) {
      auto &v = m.tet[e].v;
      auto &l = fm[sf(v[TETFACE[i][0]], v[TETFACE[i][1]], v[TETFACE[i][2]])];
      int want = 0;
      for (auto &x : l) if (x.first != (int)e) want = x.first + 1;
      if (l.size() > 2) continue;
      if (ad[i] != want) return bad("adjacent-tetrahedron", strf("tetrahedron %zu: neighbour %d is %d instead of %d", e + 1, i, (int)ad[i], want));
      r.cnt["adjacencies"]++;
    }
  }
  if (!ran) return true;
  std::set<F3> prf;
  for (auto &p : m.pri) { prf.insert(sf(p.v[0], p.v[1], p.v[2])); prf.insert(sf(p.v[3], p.v[4], p.v[5])); }
  for (size_t t = 0; t < m.tri.size(); t++) {
    F3 f = sf(m.tri[t].v[0], m.tri[t].v[1], m.tri[t].v[2]);
    auto it = fm.find(f);
    MMG5_int k1 = 0, k2[2] = {0, 0}; int f1 = -1, f2[2] = {-1, -1};
    if (it == fm.end()) continue;   // face of a prism only
    bool both = rg.chance(.5);
    auto one = [&](MMG5_int k, int i) { for (auto &x : it->second) if (x.first + 1 == k && x.second == i) return true; return false; };
    if (MMG3D_Get_tetFromTria(g.mesh, t + 1, &k1, &f1) != 1) return bad("tetrahedron-of-triangle", strf("triangle %zu: refused", t + 1));
    if (!one(k1, f1)) return bad("tetrahedron-of-triangle", strf("triangle %zu is not face %d of tetrahedron %d", t + 1, f1, (int)k1));
    if (both) {
      if (MMG3D_Get_tetsFromTria(g.mesh, t + 1, k2, f2) != 1) return bad("tetrahedra-of-triangle", strf("triangle %zu: refused", t + 1));
      if (!one(k2[0], f2[0])) return bad("tetrahedra-of-triangle", strf("triangle %zu is not face %d of tetrahedron %d", t + 1, f2[0], (int)k2[0]));
      if (it->second.size() == 1 && k2[1] != 0) return bad("tetrahedra-of-triangle", strf("triangle %zu has one tetrahedron but a second one (%d) is returned", t + 1, (int)k2[1]));
      if (it->second.size() == 2 && (k2[1] == k2[0] || !one(k2[1], f2[1]))) return bad("tetrahedra-of-triangle", strf("triangle %zu is not face %d of tetrahedron %d", t + 1, f2[1], (int)k2[1]));
    }
    r.cnt["triangle-to-tetrahedron"]++;
  }
  return true;
}
// ---- triangles of a surface or planar mesh
bool Q::tris() {
  bool two = g.k == K2D;
  std::map<E2, std::vector<std::pair<int, int>>> em;
  std::vector<std::vector<int>> ball(m.v.size());
  for (size_t e = 0; e < m.tri.size(); e++) for (int i = 0; i < 3; i++) { auto &v = m.tri[e].v; em[se(v[(i + 1) % 3], v[(i + 2) % 3])].push_back({(int)e, i}); ball[v[i]].push_back(e); }
  auto adja = [&](int e, MMG5_int *ad) { return two ? MMG2D_Get_adjaTri(g.mesh, e + 1, ad) : MMGS_Get_adjaTri(g.mesh, e + 1, ad); };
  for (size_t e = 0; e < m.tri.size(); e++) {
    MMG5_int ad[3] = {-9, -9, -9};
    if (adja(e, ad) != 1) return bad("adjacency-refused", strf("triangle %zu", e + 1));
    for (int i = 0; i < 3; i++) {
      auto &v = m.tri[e].v;
      auto &l = em[se(v[(i + 1) % 3], v[(i + 2) % 3])];
      if (l.size() > 2) { bool ok = ad[i] == 0; for (auto &x : l) ok |= x.first + 1 == ad[i]; if (!ok) return bad("adjacent-triangle", strf("triangle %zu: neighbour %d is %d, which does not share the edge", e + 1, i, (int)ad[i])); continue; }
      int want = 0;
      for (auto &x : l) if (x.first != (int)e) want = x.first + 1;
      if (ad[i] != want) return bad("adjacent-triangle", strf("triangle %zu: neighbour %d is %d instead of %d", e + 1, i, (int)ad[i], want));
      r.cnt["adjacencies"]++;
    }
  }
  // balls
  static MMG5_int li[MMG2D_LMAX > MMGS_LMAX ? MMG2D_LMAX : MMGS_LMAX];
  for (size_t p = 0; p < m.v.size(); p++) {
    auto &b = ball[p];
    if (b.empty() || !(m.v.size() < 400 || rg.chance(.3))) continue;
    std::set<int> want;
    bool man = true;
    int bd = 0;
    for (int e : b) for (int i = 0; i < 3; i++) if (m.tri[e].v[i] == (int)p) for (int q = 1; q < 3; q++) { int o = m.tri[e].v[(i + q) % 3]; want.insert(o + 1); size_t n = em[se(p, o)].size(); if (n > 2) man = false; }
    for (int o : want) bd += em[se(p, o - 1)].size() == 1;
    if (bd > 2 || !man) continue;     // several fans
    // one fan only: walk
    { std::set<int> seen{b[0]}; std::vector<int> st{b[0]}; while (st.size()) { int e = st.back(); st.pop_back(); for (int i = 0; i < 3; i++) { int o = m.tri[e].v[i]; if (o == (int)p) continue; for (auto &x : em[se(p, o)]) if (seen.insert(x.first).second) st.push_back(x.first); } } if (seen.size() != b.size()) continue; }
    // consistently oriented fan
    { bool ok = true; std::set<E2> dir; for (int e : b) for (int i = 0; i < 3; i++) if (!dir.insert(E2{m.tri[e].v[i], m.tri[e].v[(i + 1) % 3]}).second) ok = false; if (!ok) continue; }
    for (int how = two ? 0 : 1; how < 2; how++) {
      int start = rg.pick(b) + 1;
      int n = how == 0 ? MMG2D_Get_adjaVertices(g.mesh, p + 1, li) : two ? MMG2D_Get_adjaVerticesFast(g.mesh, p + 1, start, li) : MMGS_Get_adjaVerticesFast(g.mesh, p + 1, start, li);
      std::set<int> got; for (int i = 0; i < n; i++) got.insert(li[i]);
      if (n != (int)want.size() || got != want) return bad("ball-of-vertex", strf("vertex %zu (from triangle %d, %s): %d neighbours returned, %zu distinct, instead of %zu", p + 1, start, how ? "fast" : "search", n, got.size(), want.size()));
      r.cnt["balls"]++;
    }
  }
  if (two && ran) for (size_t t = 0; t < m.edg.size(); t++) {
    auto it = em.find(se(m.edg[t].a, m.edg[t].b));
    if (it == em.end()) return bad("edge-not-in-mesh", strf("edge %zu", t + 1));
    MMG5_int k1 = 0, k2[2] = {0, 0}; int f1 = -1, f2[2] = {-1, -1};
    auto one = [&](MMG5_int k, int i) { for (auto &x : it->second) if (x.first + 1 == k && x.second == i) return true; return false; };
    if (MMG2D_Get_triFromEdge(g.mesh, t + 1, &k1, &f1) != 1) return bad("triangle-of-edge", strf("edge %zu: refused", t + 1));
    if (!one(k1, f1)) return bad("triangle-of-edge", strf("edge %zu is not edge %d of triangle %d", t + 1, f1, (int)k1));
    if (MMG2D_Get_trisFromEdge(g.mesh, t + 1, k2, f2) != 1) return bad("triangles-of-edge", strf("edge %zu: refused", t + 1));
    if (!one(k2[0], f2[0])) return bad("triangles-of-edge", strf("edge %zu is not edge %d of triangle %d", t + 1, f2[0], (int)k2[0]));
    if (it->second.size() == 1 && k2[1] != 0) return bad("triangles-of-edge", strf("edge %zu has one triangle but a second one (%d) is returned", t + 1, (int)k2[1]));
    if (it->second.size() == 2 && (k2[1] == k2[0] || !one(k2[1], f2[1]))) return bad("triangles-of-edge", strf("edge %zu is not edge %d of triangle %d", t + 1, f2[1], (int)k2[1]));
    r.cnt["edge-to-triangle"]++;
  }
  return true;
}
// ---- entities that are not on the boundary
bool Q::nonBdy(bool opn) {
  if (g.k == K3D) {
    std::map<F3, std::vector<int>> fm;
    for (size_t e = 0; e < m.tet.size(); e++) for (int i = 0; i < 4; i++) { auto &v = m.tet[e].v; fm[sf(v[TETFACE[i][0]], v[TETFACE[i][1]], v[TETFACE[i][2]])].push_back(m.tet[e].ref); }
    std::map<F3, int> pf;
    for (auto &p : m.pri) { pf[sf(p.v[0], p.v[1], p.v[2])]++; pf[sf(p.v[3], p.v[4], p.v[5])]++; }
    std::set<F3> listed; for (auto &t : m.tri) listed.insert(sf(t.v[0], t.v[1], t.v[2]));
    std::set<F3> must, may;
    for (auto &x : fm) if (x.second.size() == 2 && x.second[0] == x.second[1]) { if (opn && listed.count(x.first)) continue; must.insert(x.first); }
    may = must; for (auto &x : pf) if (!listed.count(x.first)) may.insert(x.first);
    MMG5_int nb = -1;
    for (int rep = 0; rep < 2; rep++) {
      if (MMG3D_Get_numberOfNonBdyTriangles(g.mesh, &nb) != 1) return bad("non-boundary-refused", "");
      std::set<F3> got;
      for (int i = 1; i <= nb; i++) {
        MMG5_int a = 0, b = 0, c = 0, rf = 0;
        if (MMG3D_Get_nonBdyTriangle(g.mesh, &a, &b, &c, &rf, i) != 1) return bad("non-boundary-refused", strf("triangle %d of %d", i, (int)nb));
        F3 f = sf(a - 1, b - 1, c - 1);
        if (!may.count(f)) return bad("non-boundary-triangle", strf("triangle %d (%d %d %d) is not an internal face between elements of the same reference", i, (int)a, (int)b, (int)c));
        if (!got.insert(f).second) return bad("non-boundary-triangle", strf("triangle %d (%d %d %d) is listed twice", i, (int)a, (int)b, (int)c));
      }
      for (auto &f : must) if (!got.count(f)) return bad("non-boundary-triangle", strf("the internal face %d %d %d is not listed (%d listed, %zu expected)", f[0] + 1, f[1] + 1, f[2] + 1, (int)nb, must.size()));
      r.cnt["non-boundary-entities"] += nb;
    }
    return true;
  }
  std::map<E2, std::vector<int>> em;
  for (auto &t : m.tri) for (int i = 0; i < 3; i++) em[se(t.v[i], t.v[(i + 1) % 3])].push_back(t.ref);
  std::set<E2> listed; for (auto &e : m.edg) listed.insert(se(e.a, e.b));
  std::set<E2> must, may;
  for (auto &x : em) if (x.second.size() >= 2) { may.insert(x.first); if (x.second.size() == 2 && x.second[0] == x.second[1] && !listed.count(x.first)) must.insert(x.first); if (x.second.size() == 2 && x.second[0] != x.second[1]) may.erase(x.first); }
  // the edges of required triangles are required
  for (auto &t : m.tri) if (t.req) for (int i = 0; i < 3; i++) must.erase(se(t.v[i], t.v[(i + 1) % 3]));
  for (auto &e : m.edg) if ((e.ridge || e.req) && ran && em[se(e.a, e.b)].size() == 2) may.erase(se(e.a, e.b));
  for (int rep = 0; rep < 2; rep++) {
    MMG5_int nb = -1;
    if ((g.k == KS ? MMGS_Get_numberOfNonBdyEdges(g.mesh, &nb) : MMG2D_Get_numberOfNonBdyEdges(g.mesh, &nb)) != 1) return bad("non-boundary-refused", "");
    std::set<E2> got;
    for (int i = 1; i <= nb; i++) {
      MMG5_int a = 0, b = 0, rf = 0;
      if ((g.k == KS ? MMGS_Get_nonBdyEdge(g.mesh, &a, &b, &rf, i) : MMG2D_Get_nonBdyEdge(g.mesh, &a, &b, &rf, i)) != 1) return bad("non-boundary-refused", strf("edge %d of %d", i, (int)nb));
      E2 e = se(a - 1, b - 1);
      if (!may.count(e)) { std::string x; for (int q : em[e]) x += strf(" %d", q); for (auto &q : m.edg) if (se(q.a, q.b) == e) x += strf(" listed ref %d ridge %d req %d", q.ref, q.ridge, q.req); return bad("non-boundary-edge", strf("edge %d (%d %d) is not an internal edge between triangles of the same reference (references of its triangles:%s)", i, (int)a, (int)b, x.c_str())); }
      if (!got.insert(e).second && em[e].size() == 2) return bad("non-boundary-edge", strf("edge %d (%d %d) is listed twice", i, (int)a, (int)b));
    }
    for (auto &e : must) if (!got.count(e)) return bad("non-boundary-edge", strf("the internal edge %d %d is not listed (%d listed, %zu expected)", e[0] + 1, e[1] + 1, (int)nb, must.size()));
    r.cnt["non-boundary-entities"] += nb;
  }
  return true;
}
static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1818);
  Kind k = (Kind)(c.idx % 3);
  JobCfg cf; JobInfo info;
  cf.gen.maxCells = g.chance(.3) ? 60 : 20;
  if (g.chance(.3)) cf.mode = M_LS; else cf.mode = M_REMESH;
  cf.prisms = true;
  Job j = genJob(g, k, cf, info);
  bool before = g.chance(.5);
  r.sample = (before ? "before: " : "after: ") + describe(j);
  Mmg m(k);
  if (!m.setup(j)) { r.viol("setup-refused", m.err + " " + r.sample); m.freeAll(); return; }
  bool ran = false;
  if (!before) {
    int ret = m.run(j);
    r.cnt["runs"] = 1;
    if (ret == MMG5_STRONGFAILURE) { m.freeAll(); r.cnt["failed"] = 1; return; }
    ran = true;
  }
  Msh o;
  if (!m.getMesh(o)) { r.viol("getters-failed", m.err + r.sample); m.freeAll(); return; }
  o.kind = k;
  r.nontrivial = true;
  Q q{m, o, r, KNAME[k], g, ran};
  bool ok = k == K3D ? q.tets() : q.tris();
  if (ok && g.chance(.7) && ran && k == K3D) ok = q.tets();
  if (ok) ok = q.nonBdy(j.has("opnbdy"));
  // the queries do not disturb each other
  if (ok && k != K3D && ran) ok = q.tris();
  // the edges of a 3D mesh file? connectivity is unchanged
  if (ok && ran) { Msh o2; m.getMesh(o2); bool same = o2.v.size() == o.v.size() && o2.tet.size() == o.tet.size() && o2.tri.size() == o.tri.size() && o2.edg.size() == o.edg.size();
    for (size_t i = 0; same && i < o.tet.size(); i++) same = o.tet[i].v == o2.tet[i].v && o.tet[i].ref == o2.tet[i].ref;
    for (size_t i = 0; same && i < o.tri.size(); i++) same = o.tri[i].v == o2.tri[i].v && o.tri[i].ref == o2.tri[i].ref;
    if (!same) r.viol(std::string(KNAME[k]) + ":queries-change-mesh", r.sample); }
  m.freeAll();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
