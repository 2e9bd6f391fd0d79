// C07: the adapted mesh conforms to the requested sizes.
#include "jobgen.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 2500 : 400; }
static double metLen(const Msh &m, const Sol &s, int a, int b) {
  V3 u = m.v[b].c - m.v[a].c;
  if (s.size == 1) { double ha = s.d[a], hb = s.d[b], l = norm(u); if (std::fabs(ha - hb) < 1e-6 * ha) return l / ha; return l * std::log(hb / ha) / (hb - ha); }
  auto q = [&](int v) { const double *d = &s.d[s.size * v]; return s.size == 3 ? d[0] * u[0] * u[0] + 2 * d[1] * u[0] * u[1] + d[2] * u[1] * u[1] : d[0] * u[0] * u[0] + d[3] * u[1] * u[1] + d[5] * u[2] * u[2] + 2 * (d[1] * u[0] * u[1] + d[2] * u[0] * u[2] + d[4] * u[1] * u[2]); };
  double la = std::sqrt(q(a)), lb = std::sqrt(q(b));
  return 2. / 3. * (la * la + la * lb + lb * lb) / (la + lb);
}
// expected number of unit elements
static double complexity(const Msh &m, const Sol &s) {
  double c = 0;
  auto den = [&](int v) { const double *d = &s.d[s.size * v]; int dim = m.kind == K3D ? 3 : 2; if (s.size == 1) return std::pow(d[0], -dim);
    if (s.size == 3) return std::sqrt(d[0] * d[2] - d[1] * d[1]);
    return std::sqrt(d[0] * (d[3] * d[5] - d[4] * d[4]) - d[1] * (d[1] * d[5] - d[2] * d[4]) + d[2] * (d[1] * d[4] - d[2] * d[3])); };
  if (m.kind == K3D) for (auto &t : m.tet) { double x = 0; for (int v : t.v) x += den(v) / 4; c += x * tetvol(m, t); }
  else for (auto &t : m.tri) { double x = 0; for (int v : t.v) x += den(v) / 3; c += x * triarea(m, t.v); }
  return c / (m.kind == K3D ? std::sqrt(2.) / 12 : std::sqrt(3.) / 4);
}
static void lengths(const Msh &m, const Sol &s, std::vector<double> &l) {
  std::set<E2> e;
  for (auto &t : m.tet) for (auto &x : TETEDGE) e.insert(se(t.v[x[0]], t.v[x[1]]));
  if (m.kind != K3D) for (auto &t : m.tri) for (int i = 0; i < 3; i++) e.insert(se(t.v[i], t.v[(i + 1) % 3]));
  l.clear();
  for (auto &x : e) l.push_back(metLen(m, s, x[0], x[1]));
}
static int nelem(const Msh &m) { return m.kind == K3D ? m.tet.size() : m.tri.size(); }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 707);
  int qk = c.idx % 6;
  Kind k = qk < 1 ? K3D : qk < 3 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.mode = M_REMESH; cf.opts = cf.req = cf.lpar = false;
  cf.gen.nonmanifold = false; cf.gen.curved = false; cf.gen.maxStretch = 1.4; cf.gen.maxCells = 18;
  Job j = genJob(g, k, cf, info);
  j.met = Sol(); j.metType = 0; j.opts.clear();
  double h0 = info.geo.h0, L = info.geo.L;
  int how = g.below(3);            // constant, isotropic map, anisotropic map
  if (how == 2 && k == KS) how = 1;
  double top = k == K3D ? .6 : .35, h = h0 * g.uni(top * .75, top);
  if (how == 0) j.set("hsiz", h);
  else j.met = genMetric(g, j.in, info.geo, how == 2, top * .6, top);
  if (how && g.chance(.6)) j.set("hgrad", g.chance(.5) ? -1 : g.uni(1.2, 2));
  if (how) { j.set("hmin", .05 * h0); j.set("hmax", 5 * h0); }
  j.set("hausd", .1 * L);
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS || !o.got) { r.cnt["failed"] = 1; return; }
  if (o.met.d.size() != o.met.size * o.m.v.size() || !o.met.size) { r.viol("no-metric", r.sample); return; }
  r.nontrivial = true;
  if (k != K2D && how == 2) {
    // tensors of ridge vertices are handed back in a compact form (known finding of C06): use the request, constant per case only
    bool ok = true;
    for (size_t i = 6; i < j.met.d.size(); i++) if (std::fabs(j.met.d[i] - j.met.d[i % 6]) > 1e-12 * std::fabs(j.met.d[0])) ok = false;
    if (!ok) { r.cnt["aniso-variable"] = 1; r.nontrivial = false; return; }
    Sol s; s.size = 6;
    for (size_t v = 0; v < o.m.v.size(); v++) for (int i = 0; i < 6; i++) s.d.push_back(j.met.d[i]);
    o.met = s;
  }
  std::vector<double> l;
  lengths(o.m, o.met, l);
  int in = 0; double mx = 0, av = 0, mn = 1e300;
  for (double x : l) { if (x > .6 && x < 1.6) in++; mx = std::max(mx, x); mn = std::min(mn, x); av += x; }
  av /= l.size();
  double frac = (double)in / l.size(), cx = nelem(o.m) / complexity(o.m, o.met);
  std::string pre = strf("%s:%s", KNAME[k], how == 0 ? "const" : how == 1 ? "iso" : "aniso");
  if (getenv("C22DBG")) fprintf(stderr, "STAT %s n=%d in=%.3f max=%.3f min=%.3f avg=%.3f complexity=%.3f\n", pre.c_str(), nelem(o.m), frac, mx, mn, av, cx);
  r.cnt["min:inside-" + pre] = frac; r.cnt["max:longest-" + pre] = mx; r.cnt["min:cx-" + pre] = cx; r.cnt["max:cx-" + pre] = cx;
  r.cnt["edges"] = l.size();
  r.cnt["edges:" + pre] = l.size(); r.cnt["outside:" + pre] = (int)l.size() - in;
  bool A3 = k == K3D && how == 2;
  auto lim = [&](const char *key, double x, double lo, double hi) { if (!(x >= lo && x <= hi)) r.viol(pre + ":" + key, strf("%g outside of [%g,%g] [", x, lo, hi) + r.sample + "]"); };
  lim("edges-inside", frac, A3 ? .3 : how == 2 ? .75 : .85, 1);
  lim("longest-edge", mx, 0, how == 0 ? 3.5 : 4.5);
  if (k == K3D) lim("element-count", cx, .9, A3 ? 25 : 2.8); else lim("element-count", cx, .6, 2.3);
  // same request again on the result
  if (how == 0 || (how == 1)) {
    Job j2 = j;
    j2.in = o.m;
    if (how) j2.met = o.met;
    Out o2 = runJob(j2);
    if (o2.ret == MMG5_SUCCESS && o2.got) {
      double ra = (double)nelem(o2.m) / nelem(o.m);
      if (getenv("C22DBG")) fprintf(stderr, "STAT again %s ratio=%.3f n=%d\n", pre.c_str(), ra, nelem(o.m));
      lim("size-again", ra, how == 0 ? .65 : .5, how == 0 ? 1.2 : 1.3);
      r.cnt["min:again-" + pre] = ra; r.cnt["max:again-" + pre] = ra;
    } else r.cnt["failed"] = 1;
  }
  if (how == 0) {
    Job j2 = j;
    j2.set("hsiz", h / 2);
    Out o2 = runJob(j2);
    if (o2.ret == MMG5_SUCCESS && o2.got) {
      double ra = (double)nelem(o2.m) / nelem(o.m) / (k == K3D ? 8 : 4);
      if (getenv("C22DBG")) fprintf(stderr, "STAT half %s ratio=%.3f n=%d\n", pre.c_str(), ra, nelem(o.m));
      lim("size-halved", ra, .55, 1.35);
      r.cnt["min:half-" + pre] = ra; r.cnt["max:half-" + pre] = ra;
    } else r.cnt["failed"] = 1;
  }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
