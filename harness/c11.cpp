// C11: no invalid memory access, use of uninitialised memory or undefined behaviour (runs on sanitized builds).
#include "gen2d.h"
#include "zoo.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

static int ncases(const std::string &t) { const char *q = getenv("C11_N"); int n = q ? atoi(q) : 420; return t == "thorough" ? 8 * n : n; }
template <class T> static bool uninit(const std::vector<T> &v) {
#ifdef MSAN
  return !v.empty() && __msan_test_shadow(v.data(), v.size() * sizeof(T)) >= 0;
#else
  return false;
#endif
}
// what the getters hand back must be initialised
static std::string uninitOut(Mmg &g) {
#ifdef MSAN
  Kind k = g.k;
  MMG5_int np = 0, ne = 0, npr = 0, nt = 0, nq = 0, na = 0;
  if (k == K3D) MMG3D_Get_meshSize(g.mesh, &np, &ne, &npr, &nt, &nq, &na);
  else if (k == KS) MMGS_Get_meshSize(g.mesh, &np, &nt, &na);
  else MMG2D_Get_meshSize(g.mesh, &np, &nt, &nq, &na);
  int d = k == K2D ? 2 : 3;
  { std::vector<double> c(d * np); std::vector<MMG5_int> rf(np); std::vector<int> a(np), b(np);
    if (ZBY(k, Get_vertices, g.mesh, c.data(), rf.data(), a.data(), b.data()) == 1) {
      if (uninit(c)) return "vertex-coordinates"; if (uninit(rf)) return "vertex-references"; if (uninit(a)) return "corner-flags"; if (uninit(b)) return "required-vertex-flags"; } }
  if (nt) { std::vector<MMG5_int> e(3 * nt), rf(nt); std::vector<int> a(nt);
    if (ZBY(k, Get_triangles, g.mesh, e.data(), rf.data(), a.data()) == 1) { if (uninit(e)) return "triangles"; if (uninit(rf)) return "triangle-references"; if (uninit(a)) return "required-triangle-flags"; } }
  if (na) { std::vector<MMG5_int> e(2 * na), rf(na); std::vector<int> a(na), b(na);
    if (ZBY(k, Get_edges, g.mesh, e.data(), rf.data(), a.data(), b.data()) == 1) { if (uninit(e)) return "edges"; if (uninit(rf)) return "edge-references"; if (uninit(a)) return "ridge-flags"; if (uninit(b)) return "required-edge-flags"; } }
  if (ne) { std::vector<MMG5_int> e(4 * ne), rf(ne); std::vector<int> a(ne);
    if (MMG3D_Get_tetrahedra(g.mesh, e.data(), rf.data(), a.data()) == 1) { if (uninit(e)) return "tetrahedra"; if (uninit(rf)) return "tetrahedron-references"; if (uninit(a)) return "required-tetrahedron-flags"; } }
  if (g.met && g.met->m && g.met->np == np && np) {
    int te, ts; MMG5_int n2;
    if (ZBY(k, Get_solSize, g.mesh, g.met, &te, &n2, &ts) == 1) {
      std::vector<double> m((ts == MMG5_Scalar ? 1 : k == K2D ? 3 : 6) * np);
      int ok = ts == MMG5_Scalar ? ZBY(k, Get_scalarSols, g.met, m.data()) : ZBY(k, Get_tensorSols, g.met, m.data());
      if (ok == 1 && uninit(m)) return "metric";
    }
  }
#endif
  return "";
}

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1111);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.weird = true; cf.prisms = true;
  cf.gen.maxCells = c.thorough() ? 50 : 24;
  cf.gen.nonmanifold = g.chance(.3);
  Job j; Pslg P;
  if (k == K2D && g.chance(.2)) j = genGenJob(g, info, P, 20);
  else j = genJob(g, k, cf, info);
#ifdef MSAN
  for (size_t i = 0; i < j.opts.size(); i++) if (j.opts[i].name == "renum") j.opts.erase(j.opts.begin() + i--);  // built without Scotch
#endif
  // ridge metrics of an anisotropic result are in an internal form (finding of C06): not legal inputs
  bool rerun = k == K2D || (j.met.size <= 1 && !j.has("anisosize"));
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  Mmg m(k);
  if (!m.setup(j)) { r.viol("setup-refused", m.err + " " + r.sample); m.freeAll(); return; }
  r.cnt["runs"] = 1;
  if (g.chance(.3)) r.cnt["queries"] += zooQuery(m, g, false);
  if (g.chance(.2)) r.cnt["files"] += zooFiles(m, g, c.scratch, false);
  int ret = m.run(j);
  r.cnt[strf("%s:%s:ret%d", KNAME[k], j.mode == M_LS ? "ls" : "remesh", ret)] = 1;
  if (ret != MMG5_STRONGFAILURE) {
    std::string u = uninitOut(m);
    if (!u.empty()) r.viol("uninitialised-output:" + u, r.sample);
    Msh o; Sol s;
    m.getMesh(o, j.arrays);
    m.getSol(m.met, s, j.arrays);
    r.cnt["elements"] = k == K3D ? o.tet.size() : o.tri.size();
    r.nontrivial = true;
    bool again = ret == MMG5_SUCCESS && rerun && g.chance(.5) && j.mode == M_REMESH;
    r.cnt["queries"] += zooQuery(m, g, !again);
    if (g.chance(.6)) r.cnt["files"] += zooFiles(m, g, c.scratch, !again);
    // adapt the result again with the same structures
    if (again) {
      if (g.chance(.5)) m.setOpt("hgrad", 1.3);
      int r2 = m.run(j);
      r.cnt[strf("rerun:ret%d", r2)] = 1;
      if (r2 != MMG5_STRONGFAILURE) m.getMesh(o, !j.arrays);
    }
  }
  m.freeAll();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
