// C15: scale invariance by powers of two, and parameters left as given.
#include "gen2d.h"
#include <cstddef>

static int ncases(const std::string &t) { const char *q = getenv("C15_N"); int n = q ? atoi(q) : 600; return t == "thorough" ? 12 * n : n; }
// everything the user may have set, as stored in the public structure
struct Par { std::vector<std::pair<std::string, double>> v; };
static Par snap(const Mmg &m) {
  Par p; const MMG5_Info &f = m.mesh->info;
#define S(x) p.v.push_back({#x, (double)f.x})
  S(dhd); S(hmin); S(hmax); S(hsiz); S(hgrad); S(hgradreq); S(hausd); S(ls); S(lxreg); S(rmc); S(isoref); S(nsd); S(mem); S(npar); S(npari); S(nbr); S(nbri);
  S(opnbdy); S(renum); S(PROctree); S(nmat); S(imprim); S(nreg); S(xreg); S(ddebug); S(iso); S(isosurf); S(setfem); S(parTyp); S(sethmin); S(sethmax);
  S(optim); S(optimLES); S(noinsert); S(noswap); S(nomove); S(nosurf); S(nosizreq);
  for (int i = 0; i < f.npar; i++) { auto &q = f.par[i]; std::string n = strf("local-parameter-%d-", i); p.v.push_back({n + "hmin", q.hmin}); p.v.push_back({n + "hmax", q.hmax}); p.v.push_back({n + "hausd", q.hausd}); p.v.push_back({n + "ref", (double)q.ref}); p.v.push_back({n + "type", (double)q.elt}); }
  for (int i = 0; i < f.nbr; i++) p.v.push_back({strf("base-reference-%d", i), (double)f.br[i]});
  for (int i = 0; i < f.nmat && f.mat; i++) { auto &q = f.mat[i]; std::string n = strf("material-%d-", i); p.v.push_back({n + "ref", (double)q.ref}); p.v.push_back({n + "split", (double)q.dospl}); p.v.push_back({n + "in", (double)q.rin}); p.v.push_back({n + "out", (double)q.rex}); }
  return p;
}
static void cmpPar(const Par &a, const Par &b, const char *when, Kind k, Result &r) {
  // mmgs and mmg2d consume the materials during the level-set split
  if (k != K3D && a.v.size() > b.v.size()) { Par c = a; c.v.clear(); for (auto &x : a.v) if (x.first.compare(0, 9, "material-")) c.v.push_back(x); if (c.v.size() == b.v.size()) { r.cnt["materials-consumed"]++; cmpPar(c, b, when, k, r); return; } }
  if (a.v.size() != b.v.size()) { r.viol(strf("%s:parameters-count", KNAME[k]), strf("%zu parameters then %zu (%s) ", a.v.size(), b.v.size(), when) + r.sample); return; }
  for (size_t i = 0; i < a.v.size(); i++) {
    double x = a.v[i].second, y = b.v[i].second;
    r.cnt["parameters-compared"]++;
    if (x == y || std::fabs(x - y) <= 1e-12 * std::fabs(x)) continue;
    if (std::isnan(x) && std::isnan(y)) continue;
    std::string n = a.v[i].first; for (char &ch : n) if (isdigit(ch)) ch = 'N';
    r.viol(strf("%s:parameter-changed:%s", KNAME[k], n.c_str()), strf("%s: %.17g then %.17g (%s) ", a.v[i].first.c_str(), x, y, when) + r.sample);
    return;
  }
}
static bool sameD(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1515);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.weird = true; cf.prisms = true;
  cf.gen.maxCells = c.thorough() ? 40 : 20;
  cf.gen.nonmanifold = g.chance(.2);
  Job j;
  if (k == K2D && g.chance(.15)) { Pslg P; j = genGenJob(g, info, P, 20); }
  else j = genJob(g, k, cf, info);
  // the default xreg / hausd values are absolute: always given here (genJob gives hausd)
  r.sample = describe(j);
  int e = g.chance(.5) ? g.range(1, 30) : -g.range(1, 30);
  double s = std::ldexp(1., e);
  Job js = j;
  for (auto &v : js.in.v) for (double &x : v.c) x *= s;
  int ms = j.met.size;
  for (double &x : js.met.d) x *= ms == 1 ? s : 1 / (s * s);
  for (double &x : js.ls.d) x *= s;
  for (auto &o : js.opts) if (o.name == "hmin" || o.name == "hmax" || o.name == "hsiz" || o.name == "hausd" || o.name == "ls") o.val *= s;
  for (auto &l : js.lpar) { l.hmin *= s; l.hmax *= s; l.hausd *= s; }
  Mmg a(k), b(k);
  if (!a.setup(j) || !b.setup(js)) { r.viol("setup-refused", a.err + b.err + r.sample); a.freeAll(); b.freeAll(); return; }
  Par pa = snap(a), pb = snap(b);
  int ra = a.run(j), rb = b.run(js);
  r.cnt[strf("%s:ret%d", KNAME[k], ra)] = 1;
  std::string at = strf(" [scale 2^%d] ", e) + r.sample;
  if (ra != rb) r.viol(strf("%s:scaled-status", KNAME[k]), strf("status %d at scale one, %d scaled", ra, rb) + at);
  if (ra != MMG5_STRONGFAILURE) {
    cmpPar(pa, snap(a), "after the run", k, r);
    cmpPar(pb, snap(b), "after the scaled run", k, r);
  } else r.cnt["failed"]++;
  if (ra == rb && ra != MMG5_STRONGFAILURE) {
    Msh x, y; Sol sx, sy;
    a.getMesh(x, j.arrays); b.getMesh(y, j.arrays); a.getSol(a.met, sx, j.arrays); b.getSol(b.met, sy, j.arrays);
    r.nontrivial = true; r.cnt["scaled-pairs"]++; r.cnt["vertices-compared"] += x.v.size();
    std::string d;
    if (x.v.size() != y.v.size() || x.tet.size() != y.tet.size() || x.tri.size() != y.tri.size() || x.edg.size() != y.edg.size() || x.pri.size() != y.pri.size() || x.qua.size() != y.qua.size())
      d = strf("counts %zu %zu %zu %zu then %zu %zu %zu %zu", x.v.size(), x.tet.size(), x.tri.size(), x.edg.size(), y.v.size(), y.tet.size(), y.tri.size(), y.edg.size());
    std::string key = d.empty() ? "" : "counts";
    if (d.empty()) {
      for (size_t i = 0; i < x.v.size() && d.empty(); i++) { for (int q2 = 0; q2 < x.dim(); q2++) if (!sameD(x.v[i].c[q2] * s, y.v[i].c[q2])) { d = strf("vertex %zu coordinate %d: %.17g * 2^%d != %.17g", i, q2, x.v[i].c[q2], e, y.v[i].c[q2]); key = "coordinates"; break; }
        if (x.v[i].ref != y.v[i].ref || x.v[i].corner != y.v[i].corner || x.v[i].req != y.v[i].req) { d = strf("attributes of vertex %zu", i); key = "vertex-attributes"; } }
      for (size_t i = 0; i < x.tet.size() && d.empty(); i++) if (x.tet[i].v != y.tet[i].v || x.tet[i].ref != y.tet[i].ref || x.tet[i].req != y.tet[i].req) { d = strf("tetrahedron %zu", i); key = "tetrahedra"; }
      for (size_t i = 0; i < x.tri.size() && d.empty(); i++) if (x.tri[i].v != y.tri[i].v || x.tri[i].ref != y.tri[i].ref || x.tri[i].req != y.tri[i].req) { d = strf("triangle %zu", i); key = "triangles"; }
      for (size_t i = 0; i < x.edg.size() && d.empty(); i++) if (x.edg[i].a != y.edg[i].a || x.edg[i].b != y.edg[i].b || x.edg[i].ref != y.edg[i].ref || x.edg[i].ridge != y.edg[i].ridge || x.edg[i].req != y.edg[i].req) { d = strf("edge %zu", i); key = "edges"; }
      if (d.empty() && sx.d.size() != sy.d.size()) { d = "number of sizes"; key = "size-map"; }
      for (size_t i = 0; i < sx.d.size() && d.empty(); i++) if (!sameD(sx.size == 1 ? sx.d[i] * s : sx.d[i] / s / s, sy.d[i])) { d = strf("size map entry %zu: %.17g then %.17g", i, sx.d[i], sy.d[i]); key = "size-map"; }
    }
    if (!d.empty()) r.viol(strf("%s:scaled-result:%s", KNAME[k], key.c_str()), d + at);
  }
  a.freeAll(); b.freeAll();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
