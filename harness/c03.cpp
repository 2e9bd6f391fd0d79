// C03: entities marked as required are never modified (remeshing mode).
#include "jobgen.h"
#include "match.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 12000 : 1100; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 303);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.mode = M_REMESH; cf.weird = true; cf.req = false; cf.prisms = true;
  cf.gen.nonmanifold = g.chance(.1);
  Job j = genJob(g, k, cf, info);
  for (size_t i = 0; i < j.opts.size();) if (j.opts[i].name == "nsd") j.opts.erase(j.opts.begin() + i); else i++;
  bool nosurf = k != KS && j.has("nosurf");
  double p = g.pick(std::vector<double>{.03, .1, .3, .7, 1});
  int what = g.below(6);
  genAttributes(g, j.in, what == 0 || what == 5 ? p : 0, what == 1 || what == 5 ? p : 0, what == 2 || what == 5 ? p : 0, what == 3 || what == 5 ? p : 0);
  if (what == 4) { if (k == KS) { for (auto &v : j.in.v) if (g.chance(p)) v.corner = true; } else if (!nosurf) { j.set("nosurf", 1); nosurf = true; } }
  r.sample = describe(j) + strf(" required=%s p=%g", (const char *[]){"vertices", "edges", "triangles", "tetrahedra", "surface/corners", "all"}[what], p);
  fprintf(stderr, "%s\n", r.sample.c_str());
  bool nonmani = j.desc.find("+interfaces") != std::string::npos;
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS) r.cnt["failed"] = 1;
  if (o.ret == MMG5_STRONGFAILURE) return;
  if (!o.got) { r.viol("getters-failed", o.err + " " + r.sample); return; }
  std::string K = KNAME[k];
  double tol = posTol(j.in);
  Matcher M(o.m, tol);
  std::vector<int> id(j.in.v.size(), -2);
  auto map = [&](int i) { if (id[i] == -2) id[i] = M.find(j.in.v[i].c, tol); return id[i]; };
  // --- vertices
  for (size_t i = 0; i < j.in.v.size(); i++) {
    auto &v = j.in.v[i];
    if (!v.req && !v.corner) continue;
    r.cnt[v.req ? "required-vertices" : "corners"]++;
    int a = map(i);
    if (a < 0) { r.viol(K + ":required-vertex-moved", strf("vertex %d (%.17g %.17g %.17g) is not in the output ", (int)i, v.c[0], v.c[1], v.c[2]) + r.sample); return; }
    if (v.req && !o.m.v[a].req) { r.viol(K + ":required-vertex-flag-lost", strf("vertex %d ", (int)i) + r.sample); return; }
    if (v.ref != o.m.v[a].ref) r.cnt["vertex-ref-changed"]++;
  }
  // --- edges
  std::map<E2, const Edg *> oe;
  for (auto &e : o.m.edg) oe[se(e.a, e.b)] = &e;
  for (auto &e : j.in.edg) {
    if (!e.req) continue;
    r.cnt["required-edges"]++;
    int a = map(e.a), b = map(e.b);
    auto it = a < 0 || b < 0 ? oe.end() : oe.find(se(a, b));
    if (it == oe.end()) { r.viol(K + ":required-edge-lost", strf("edge %d %d (%s) ", e.a, e.b, a < 0 || b < 0 ? "an end moved" : "not in the edge list") + r.sample); return; }
    if (!it->second->req) { r.viol(K + ":required-edge-flag-lost", strf("edge %d %d ", e.a, e.b) + r.sample); return; }
    if (it->second->ref != e.ref) { r.viol(K + ":required-edge-reference", strf("edge %d %d ref %d -> %d ", e.a, e.b, e.ref, it->second->ref) + r.sample); return; }
  }
  // --- triangles
  std::map<F3, const Tri *> ot;
  for (auto &t : o.m.tri) ot[sf(t.v[0], t.v[1], t.v[2])] = &t;
  std::map<F3, int> given;
  for (auto &t : j.in.tri) {
    if (!t.req) continue;
    r.cnt["required-triangles"]++;
    int a[3];
    bool ok = true;
    for (int i = 0; i < 3; i++) { a[i] = map(t.v[i]); ok &= a[i] >= 0; }
    auto it = ok ? ot.find(sf(a[0], a[1], a[2])) : ot.end();
    if (it == ot.end()) { r.viol(K + ":required-triangle-lost", strf("triangle %d %d %d ", t.v[0], t.v[1], t.v[2]) + r.sample); return; }
    if (!it->second->req) { r.viol(K + ":required-triangle-flag-lost", strf("triangle %d %d %d ", t.v[0], t.v[1], t.v[2]) + r.sample); return; }
    if (it->second->ref != t.ref) { r.viol(K + ":required-triangle-reference", strf("triangle %d %d %d ref %d -> %d ", t.v[0], t.v[1], t.v[2], t.ref, it->second->ref) + r.sample); return; }
  }
  // --- tetrahedra
  if (k == K3D) {
    std::map<std::array<int, 4>, const Tet *> ok4;
    bool any = false;
    for (auto &t : j.in.tet) any |= t.req;
    if (any) for (auto &t : o.m.tet) { auto s = t.v; std::sort(s.begin(), s.end()); ok4[s] = &t; }
    for (auto &t : j.in.tet) {
      if (!t.req) continue;
      r.cnt["required-tetrahedra"]++;
      std::array<int, 4> s;
      bool ok = true;
      for (int i = 0; i < 4; i++) { s[i] = map(t.v[i]); ok &= s[i] >= 0; }
      std::sort(s.begin(), s.end());
      auto it = ok ? ok4.find(s) : ok4.end();
      if (it == ok4.end()) { r.viol(K + ":required-tetra-lost", strf("tetra %d %d %d %d ", t.v[0], t.v[1], t.v[2], t.v[3]) + r.sample); return; }
      if (!it->second->req) { r.viol(K + ":required-tetra-flag-lost", r.sample); return; }
      if (it->second->ref != t.ref) { r.viol(K + ":required-tetra-reference", strf("ref %d -> %d ", t.ref, it->second->ref) + r.sample); return; }
    }
  }
  // --- surface
  if (nosurf && !nonmani) {
    size_t n = 0, no = 0;
    if (k == K3D) {
      std::set<F3> in, out;
      for (auto &b : boundaryFaces(j.in)) {
        F3 f = sf(map(b.f[0]), map(b.f[1]), map(b.f[2]));
        if (f[0] < 0) { r.viol(K + ":frozen-surface-vertex-moved", strf("face %d %d %d ", b.f[0], b.f[1], b.f[2]) + r.sample); return; }
        in.insert(f);
      }
      for (auto &b : boundaryFaces(o.m)) out.insert(b.f);
      if (in != out) { r.viol(K + ":frozen-surface-changed", strf("%d faces -> %d ", (int)in.size(), (int)out.size()) + r.sample); return; }
      n = in.size(); no = out.size();
      std::map<F3, int> rf;
      for (auto &t : o.m.tri) rf[sf(t.v[0], t.v[1], t.v[2])] = t.ref;
      for (auto &t : j.in.tri) {
        auto it = rf.find(sf(map(t.v[0]), map(t.v[1]), map(t.v[2])));
        if (it != rf.end() && it->second != t.ref) { r.viol(K + ":frozen-surface-reference", strf("triangle ref %d -> %d ", t.ref, it->second) + r.sample); return; }
      }
    } else {
      std::set<E2> in, out;
      for (auto &b : boundaryEdges(j.in)) {
        E2 e = se(map(b.e[0]), map(b.e[1]));
        if (e[0] < 0) { r.viol(K + ":frozen-boundary-vertex-moved", strf("edge %d %d ", b.e[0], b.e[1]) + r.sample); return; }
        in.insert(e);
      }
      for (auto &b : boundaryEdges(o.m)) out.insert(b.e);
      if (in != out) { r.viol(K + ":frozen-boundary-changed", strf("%d edges -> %d ", (int)in.size(), (int)out.size()) + r.sample); return; }
      n = in.size(); no = out.size();
    }
    r.cnt["frozen-surface-entities"] = n;
    (void)no;
  }
  // --- prisms and quadrilaterals
  if (j.in.pri.size()) {
    std::map<std::array<int, 6>, int> a, b;
    for (auto &x : o.m.pri) a[x.v] = x.ref;
    for (auto &x : j.in.pri) {
      std::array<int, 6> s;
      for (int i = 0; i < 6; i++) s[i] = map(x.v[i]);
      auto it = a.find(s);
      if (it == a.end()) { r.viol("prism-changed", r.sample); return; }
      if (it->second != x.ref) { r.viol("prism-reference", r.sample); return; }
    }
    if (a.size() != j.in.pri.size() || o.m.pri.size() != j.in.pri.size()) { r.viol("prism-count", r.sample); return; }
    std::map<std::array<int, 4>, int> qa;
    for (auto &x : o.m.qua) { auto s = x.v; std::sort(s.begin(), s.end()); qa[s] = x.ref; }
    for (auto &x : j.in.qua) {
      std::array<int, 4> s;
      for (int i = 0; i < 4; i++) s[i] = map(x.v[i]);
      std::sort(s.begin(), s.end());
      auto it = qa.find(s);
      if (it == qa.end()) { r.viol("quadrilateral-lost", r.sample); return; }
      if (it->second != x.ref) { r.viol("quadrilateral-reference", r.sample); return; }
    }
    r.cnt["prisms"] = a.size();
    r.cnt["quadrilaterals"] = qa.size();
  }
  double n = 0;
  for (auto &x : r.cnt) if (x.first.find("required") == 0 || x.first == "corners" || x.first == "frozen-surface-entities" || x.first == "prisms") n += x.second;
  r.nontrivial = n > 0;
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
