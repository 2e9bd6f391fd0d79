// C05: each switched-off mesh operator is really off (remeshing mode).
// Every input vertex carries its own reference, which identifies it in the output.
#include "jobgen.h"
#include "match.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 12000 : 1200; }
template <size_t N> static std::array<int, N> srt(std::array<int, N> a) { std::sort(a.begin(), a.end()); return a; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 505);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.mode = M_REMESH; cf.weird = true; cf.opts = false;
  cf.gen.nonmanifold = false;
  Job j = genJob(g, k, cf, info);
  for (size_t i = 0; i < j.opts.size();) if (j.opts[i].name == "nsd" || j.opts[i].name == "nosurf" || j.opts[i].name == "xreg" || j.opts[i].name == "xregval") j.opts.erase(j.opts.begin() + i); else i++;
  int m = c.idx / 8 % 7 + 1;
  if (m & 1) j.set("noinsert", 1);
  if (m & 2) j.set("noswap", 1);
  if (m & 4) j.set("nomove", 1);
  bool noins = m & 1, nosw = m & 2, nomv = m & 4;
  if (k != KS && g.chance(.15)) j.set("nosurf", 1);
  if (k != KS && g.chance(.1)) j.set("opnbdy", 1);
  // pure refinement: almost nothing to collapse, hence input vertices (and without swaps input
  // edges) must survive
  bool refine = !noins && (nomv || nosw) && g.chance(.6);
  if (refine) {
    j.met = Sol(); j.metType = 0; j.lpar.clear();
    for (size_t i = 0; i < j.opts.size();) { auto &s = j.opts[i].name; if (s == "hmin" || s == "hmax" || s == "optim" || s == "optimLES" || s == "anisosize" || s == "hgrad" || s == "hgradreq") j.opts.erase(j.opts.begin() + i); else i++; }
    double lmin = 1e300;
    for (auto &t : j.in.tri) for (int a = 0; a < 3; a++) lmin = std::min(lmin, norm(j.in.v[t.v[a]].c - j.in.v[t.v[(a + 1) % 3]].c));
    for (auto &t : j.in.tet) for (auto &e : TETEDGE) { double l = norm(j.in.v[t.v[e[0]]].c - j.in.v[t.v[e[1]]].c); lmin = std::min(lmin, l); }
    j.set("hsiz", std::max(lmin * .7, info.geo.h0 * (k == K3D ? .45 : .3)));
  }
  for (size_t i = 0; i < j.in.v.size(); i++) j.in.v[i].ref = i + 1;
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS) r.cnt["failed"] = 1;
  if (o.ret == MMG5_STRONGFAILURE) return;
  if (!o.got) { r.viol("getters-failed", o.err + " " + r.sample); return; }
  std::string K = KNAME[k];
  size_t n = j.in.v.size();
  double tol = posTol(j.in);
  std::vector<int> used(n, 0);
  for (auto &t : j.in.tet) for (int v : t.v) used[v] = 1;
  if (k != K3D) for (auto &t : j.in.tri) for (int v : t.v) used[v] = 1;
  size_t nused = 0;
  for (int u : used) nused += u;
  // output vertex -> input vertex
  std::vector<int> id(o.m.v.size(), -1), back(n, -1);
  size_t fresh = 0;
  for (size_t i = 0; i < o.m.v.size(); i++) {
    int rf = o.m.v[i].ref;
    if (rf < 1 || rf > (int)n) { fresh++; continue; }
    if (back[rf - 1] >= 0) { r.cnt["dup-ref"]++; fresh++; continue; }
    id[i] = rf - 1; back[rf - 1] = i;
  }
  r.cnt["survivors"] = o.m.v.size() - fresh;
  r.cnt["fresh"] = fresh;
  if (noins) {
    r.cnt["check:noinsert"] = 1;
    if (o.m.v.size() != nused || fresh) { r.viol(K + ":noinsert-vertex-set-changed", strf("%d vertices -> %d (%d new) ", (int)nused, (int)o.m.v.size(), (int)fresh) + r.sample); return; }
  }
  if (nomv && noins) {
    r.cnt["check:nomove"] = 1;
    for (size_t i = 0; i < o.m.v.size(); i++) if (id[i] >= 0) {
      double d = norm(o.m.v[i].c - j.in.v[id[i]].c);
      r.cnt["max:drift"] = std::max(r.cnt["max:drift"], d / tol);
      if (d > tol) { r.viol(K + ":nomove-vertex-moved", strf("vertex %d moved by %g ", id[i], d) + r.sample); return; }
    }
  }
  if (!noins) {
    // new vertices may inherit a reference: look the input vertices up by position. Vertices may
    // still be collapsed, so only the fraction that stays in place is judged, over all cases.
    Matcher M(o.m, tol);
    std::set<int> bd;
    if (k == K3D) for (auto &f : boundaryFaces(j.in)) for (int x : f.f) bd.insert(x);
    else if (k == K2D) for (auto &f : boundaryEdges(j.in)) for (int x : f.e) bd.insert(x);
    for (size_t i = 0; i < n; i++) if (used[i] && !j.in.v[i].req) {
      std::string w = std::string(refine && nomv ? "nomove-refine:" : refine ? "move-refine:" : nomv ? "nomove-insert:" : "move-insert:") + K + (bd.count(i) ? ":boundary" : ":interior");
      r.cnt[w]++; r.cnt[w + "-lost"] += M.find(j.in.v[i].c, tol) < 0;
    }
  }
  if (refine && k != K3D && info.geo.flat) {
    // input edges (feature or not) that are still unions of output edges: their middle lies on an output edge
    std::set<E2> ie, oe;
    for (auto &t : j.in.tri) for (int a = 0; a < 3; a++) ie.insert(se(t.v[a], t.v[(a + 1) % 3]));
    for (auto &t : o.m.tri) for (int a = 0; a < 3; a++) oe.insert(se(t.v[a], t.v[(a + 1) % 3]));
    std::string w = std::string(nosw ? "noswap-refine:" : "swap-refine:") + K;
    if (nomv) for (auto &e : ie) {
      V3 a = j.in.v[e[0]].c, b = j.in.v[e[1]].c;
      bool on = true;
      for (double t : {.27, .73}) { V3 x = (1 - t) * a + t * b; double d = 1e300; for (auto &f : oe) { d = std::min(d, distPointSeg(x, o.m.v[f[0]].c, o.m.v[f[1]].c)); if (d < 1e-9 * info.geo.L) break; } on &= d < 1e-9 * info.geo.L; }
      r.cnt[w + ":edges"]++; r.cnt[w + ":edges-lost"] += !on;
    }
  }
  if (noins && nosw) {
    r.cnt["check:noinsert+noswap"] = 1;
    if (k == K3D) {
      std::multiset<std::pair<std::array<int, 4>, int>> a, b;
      for (auto &t : j.in.tet) a.insert({srt(t.v), t.ref});
      for (auto &t : o.m.tet) b.insert({srt(std::array<int, 4>{id[t.v[0]], id[t.v[1]], id[t.v[2]], id[t.v[3]]}), t.ref});
      if (a != b) { r.viol(K + ":noswap-elements-changed", strf("%d tetra -> %d ", (int)a.size(), (int)b.size()) + r.sample); return; }
    } else {
      std::multiset<std::pair<F3, int>> a, b;
      for (auto &t : j.in.tri) a.insert({sf(t.v[0], t.v[1], t.v[2]), t.ref});
      for (auto &t : o.m.tri) b.insert({sf(id[t.v[0]], id[t.v[1]], id[t.v[2]]), t.ref});
      if (a != b) { r.viol(K + ":noswap-elements-changed", strf("%d triangles -> %d ", (int)a.size(), (int)b.size()) + r.sample); return; }
    }
    // references of the listed boundary entities
    if (k == K3D) {
      std::map<F3, int> a;
      for (auto &t : o.m.tri) a[sf(id[t.v[0]], id[t.v[1]], id[t.v[2]])] = t.ref;
      std::set<F3> bd;
      for (auto &b : boundaryFaces(j.in)) bd.insert(b.f);
      for (auto &t : j.in.tri) {
        F3 f = sf(t.v[0], t.v[1], t.v[2]);
        if (!bd.count(f)) continue;
        auto it = a.find(f);
        if (it == a.end() || it->second != t.ref) { r.viol(K + ":boundary-triangle-changed", strf("triangle %d %d %d ref %d ", f[0], f[1], f[2], t.ref) + r.sample); return; }
      }
    }
    std::map<E2, int> a;
    for (auto &t : o.m.edg) a[se(id[t.a], id[t.b])] = t.ref;
    std::set<E2> bd;
    if (k == K2D) {
      for (auto &b : boundaryEdges(j.in)) bd.insert(b.e);
      for (auto &t : j.in.edg) {
        E2 f = se(t.a, t.b);
        if (!bd.count(f)) continue;
        auto it = a.find(f);
        if (it == a.end() || it->second != t.ref) { r.viol(K + ":boundary-edge-changed", strf("edge %d %d ref %d ", f[0], f[1], t.ref) + r.sample); return; }
      }
    }
  }
  if (j.has("nosurf")) {
    r.cnt["check:nosurf"] = 1;
    Matcher M(o.m, tol);
    auto map = [&](int i) { return M.find(j.in.v[i].c, tol); };
    if (k == K3D) {
      std::set<F3> in, out;
      for (auto &b : boundaryFaces(j.in)) in.insert(sf(map(b.f[0]), map(b.f[1]), map(b.f[2])));
      for (auto &b : boundaryFaces(o.m)) out.insert(b.f);
      if (in != out) { r.viol(K + ":nosurf-boundary-changed", strf("%d faces -> %d ", (int)in.size(), (int)out.size()) + r.sample); return; }
    } else {
      std::set<E2> in, out;
      for (auto &b : boundaryEdges(j.in)) in.insert(se(map(b.e[0]), map(b.e[1])));
      for (auto &b : boundaryEdges(o.m)) out.insert(b.e);
      if (in != out) { r.viol(K + ":nosurf-boundary-changed", strf("%d edges -> %d ", (int)in.size(), (int)out.size()) + r.sample); return; }
    }
  }
  r.nontrivial = noins || nomv || j.has("nosurf");
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
