// C01: every mesh handed back is a valid conforming mesh.
#include "jobgen.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 12000 : 1300; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 101);
  // 2D cases are much cheaper than 3D ones
  int q = c.idx % 8;
  Kind k = q < 2 ? K3D : q < 4 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.weird = true; cf.prisms = true;
  cf.gen.nonmanifold = g.chance(.25);
  Job j = genJob(g, k, cf, info);
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  bool nonmani = j.desc.find("+interfaces") != std::string::npos;
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  r.cnt[strf("%s:%s:ret%d", KNAME[k], j.mode == M_LS ? "ls" : "remesh", o.ret)] = 1;
  if (o.ret != MMG5_SUCCESS) r.cnt["failed"] = 1;
  if (o.ret != MMG5_SUCCESS && o.ret != MMG5_LOWFAILURE && o.ret != MMG5_STRONGFAILURE) { r.viol("bad-return-code", strf("%d ", o.ret) + r.sample); return; }
  if (o.ret == MMG5_STRONGFAILURE) return;
  if (!o.got) { r.viol("getters-failed", o.err + " " + r.sample); return; }
  int ne = k == K3D ? o.m.tet.size() : o.m.tri.size();
  r.cnt["elements"] = ne;
  r.cnt["vertices"] = o.m.v.size();
  if (!ne) { if (!j.has("nsd") && !j.has("rmc") && j.br.empty()) r.viol("empty-mesh", r.sample); return; }
  r.nontrivial = true;
  ValidOpt vo;
  vo.opnbdy = j.has("opnbdy") || j.has("isosurf");
  vo.orphans = false;
  // surface edges are listed only when they are ridges, references or required: open and
  // non-manifold ones are ridges unless the angle detection is off
  vo.closedEdges = true;
  std::string key, det;
  if (!checkValid(o.m, vo, key, det)) {
    // on non-manifold surfaces an edge met by several pairs of faces is listed once per pair
    if (nonmani && key == "duplicate-edge") { r.cnt["nonmanifold-duplicate-edge"] = 1; return; }
    r.viol(std::string(KNAME[k]) + ":" + key, det + " [" + r.sample + "]");
    return;
  }
  if (!o.met.empty() && o.met.d.size() != (size_t)o.met.size * o.m.v.size()) { r.viol("metric-size", r.sample); return; }
  for (double x : o.met.d) if (!std::isfinite(x)) { r.viol(std::string(KNAME[k]) + ":non-finite-metric", r.sample); return; }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
