// C22: qualities returned by the library are the shape measure, optimisation does not degrade the mesh.
#include "jobgen.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 7000 : 700; }
typedef std::array<double, 6> M6;
static double q2(const V3 &u, const M6 &m) { return m[0] * u[0] * u[0] + m[3] * u[1] * u[1] + m[5] * u[2] * u[2] + 2 * (m[1] * u[0] * u[1] + m[2] * u[0] * u[2] + m[4] * u[1] * u[2]); }
static double qb(const V3 &u, const V3 &v, const M6 &m) { return m[0] * u[0] * v[0] + m[3] * u[1] * v[1] + m[5] * u[2] * v[2] + m[1] * (u[0] * v[1] + u[1] * v[0]) + m[2] * (u[0] * v[2] + u[2] * v[0]) + m[4] * (u[1] * v[2] + u[2] * v[1]); }
// shape measure in the metric m: one for the equilateral simplex of m, zero for a flat one
static double shape(const std::vector<V3> &p, const M6 &m, bool oriented) {
  double s = 0;
  for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) s += q2(p[j] - p[i], m);
  if (p.size() == 4) {
    double det = m[0] * (m[3] * m[5] - m[4] * m[4]) - m[1] * (m[1] * m[5] - m[2] * m[4]) + m[2] * (m[1] * m[4] - m[2] * m[3]);
    double v = vol6(p[0], p[1], p[2], p[3]) * std::sqrt(det);
    return v <= 0 ? 0 : 12 * std::sqrt(3.) * v / std::pow(s, 1.5);
  }
  V3 u = p[1] - p[0], v = p[2] - p[0];
  double g = q2(u, m) * q2(v, m) - qb(u, v, m) * qb(u, v, m);
  double a = g > 0 ? std::sqrt(g) : 0;
  if (oriented && u[0] * v[1] - u[1] * v[0] <= 0) a = 0;
  return 2 * std::sqrt(3.) * a / s;
}
static const M6 ID = {1, 0, 0, 1, 0, 1};
static void quals(const Msh &m, std::vector<double> &q, const Sol *met = nullptr) {
  q.clear();
  auto one = [&](const std::vector<int> &v) {
    std::vector<V3> p;
    M6 mm = {0, 0, 0, 0, 0, 0};
    for (int x : v) {
      p.push_back(m.v[x].c);
      if (met && met->size == 6) for (int i = 0; i < 6; i++) mm[i] += met->d[6 * x + i] / v.size();
      if (met && met->size == 3) { mm[0] += met->d[3 * x] / v.size(); mm[1] += met->d[3 * x + 1] / v.size(); mm[3] += met->d[3 * x + 2] / v.size(); }
    }
    if (met && met->size == 3) mm[5] = 1;
    q.push_back(shape(p, met && met->size > 1 ? mm : ID, m.kind == K2D));
  };
  if (m.kind == K3D) for (auto &t : m.tet) one({t.v[0], t.v[1], t.v[2], t.v[3]});
  else for (auto &t : m.tri) one({t.v[0], t.v[1], t.v[2]});
}
static void stats(const std::vector<double> &q, double &mn, double &av) { mn = 1e300; av = 0; for (double x : q) { mn = std::min(mn, x); av += x; } av /= q.size(); }

static double apiQual(Mmg &m, int k) {
  if (m.k == K3D) return MMG3D_Get_tetrahedronQuality(m.mesh, m.met, k);
  if (m.k == KS) return MMGS_Get_triangleQuality(m.mesh, m.met, k);
  return MMG2D_Get_triangleQuality(m.mesh, m.met, k);
}
// random displacement of the interior vertices, elements stay positive
static void spoil(Rng &g, Msh &m, double amp) {
  std::vector<char> bd(m.v.size(), 0);
  if (m.kind == K3D) { for (auto &f : boundaryFaces(m)) for (int v : f.f) bd[v] = 1; }
  else for (auto &e : boundaryEdges(m)) for (int v : e.e) bd[v] = 1;
  for (auto &t : m.tri) if (m.kind == K3D) for (int v : t.v) bd[v] = 1;
  for (auto &e : m.edg) bd[e.a] = bd[e.b] = 1;
  std::vector<std::vector<int>> ball(m.v.size());
  int ne = m.kind == K3D ? m.tet.size() : m.tri.size();
  for (int i = 0; i < ne; i++) { if (m.kind == K3D) for (int v : m.tet[i].v) ball[v].push_back(i); else for (int v : m.tri[i].v) ball[v].push_back(i); }
  auto meas = [&](int i) { return m.kind == K3D ? tetvol(m, m.tet[i]) : area2d(m, m.tri[i].v); };
  for (size_t v = 0; v < m.v.size(); v++) if (!bd[v] && ball[v].size()) {
    V3 o = m.v[v].c;
    std::vector<double> old;
    for (int e : ball[v]) old.push_back(meas(e));
    double h = m.kind == K3D ? std::cbrt(6 * old[0]) : std::sqrt(2 * old[0]);
    V3 d{g.uni(-1, 1), g.uni(-1, 1), m.kind == K3D ? g.uni(-1, 1) : 0.};
    for (double a = amp; a > amp / 40; a /= 2) {
      m.v[v].c = o + a * h * d;
      bool ok = true;
      for (size_t i = 0; i < ball[v].size() && ok; i++) ok = meas(ball[v][i]) > .03 * old[i];
      if (ok) break;
      m.v[v].c = o;
    }
  }
}

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 2222);
  int qk = c.idx % 8;
  Kind k = qk < 3 ? K3D : qk < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.gen.maxStretch = 1.5;
  bool query = g.chance(.4);
  if (query) {
    // qualities of a mesh given as it is
    cf.gen.maxStretch = 5;
    Msh in = genMesh(g, k, cf.gen, info.geo);
    Sol s;
    int mk = g.below(4);
    if (mk == 1) s = genMetric(g, in, info.geo, false, .1, 4);
    if (mk >= 2) s = genMetric(g, in, info.geo, true, .1, 4);
    if (k == KS && mk >= 2) for (size_t i = 6; i < s.d.size(); i++) s.d[i] = s.d[i % 6];
    r.sample = strf("query %s [%s] np=%d metric=%d", KNAME[k], info.geo.desc.c_str(), (int)in.v.size(), s.size);
    fprintf(stderr, "%s\n", r.sample.c_str());
    Mmg m(k);
    m.init(false);
    m.setOpt("verbose", -1);
    if (!m.setMesh(in, g.chance(.5))) { r.viol("setup-refused", r.sample); return; }
    if (s.size && !m.setMet(s, 0, in.v.size(), g.chance(.5))) { r.viol("setup-refused", r.sample); return; }
    Msh back;
    if (!m.getMesh(back)) { r.viol("getters-failed", r.sample); return; }
    std::vector<double> q;
    quals(back, q, &s);
    for (size_t i = 0; i < q.size(); i++) {
      double a = apiQual(m, i + 1);
      // the sum of squares of surface triangles is computed by another formula
      if (!(std::fabs(a - q[i]) <= 1e-9 + 1e-7 * q[i])) { r.viol(std::string(KNAME[k]) + strf(":quality-value-%s", s.size > 1 ? "ani" : "iso"), strf("element %d: %.15g returned, shape measure %.15g [", (int)i, a, q[i]) + r.sample + "]"); break; }
      if (!(a >= 0 && a <= 1 + 1e-10)) { r.viol(std::string(KNAME[k]) + ":quality-range", r.sample); break; }
      r.cnt["qualities"]++;
    }
    if (r.status == "ok" && (apiQual(m, 0) != 0 || apiQual(m, (int)q.size() + 1) != 0)) r.viol(std::string(KNAME[k]) + ":quality-position", r.sample);
    m.freeAll();
    r.nontrivial = true;
    return;
  }
  // optimisation
  cf.mode = M_REMESH; cf.opts = cf.req = cf.lpar = false; cf.aniso = false;
  cf.gen.nonmanifold = false; cf.gen.open = true;
  Job j = genJob(g, k, cf, info);
  j.met = Sol(); j.opts.clear(); j.metType = 0;
  bool poor = k != KS && g.chance(.6);
  if (poor) spoil(g, j.in, g.uni(.5, 1.5));
  int how = g.below(3);
  if (how < 2) j.set("optim", 1);
  j.set("hausd", info.geo.L * (info.geo.flat ? .01 : g.uni(.01, .05)));
  if (how == 2) { j.set("hsiz", info.geo.h0 * g.uni(.4, .8)); }
  if (how == 1) j.set("noinsert", 1);
  // elements with all their vertices on the boundary are otherwise cut for the needs of finite elements
  if (k != KS) j.set("nofem", 1);
  bool cut = false;
  r.sample = strf("%s how=%d ", poor ? "poor" : "plain", how) + describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS || !o.got) { r.cnt["failed"] = 1; return; }
  (void)cut;
  r.nontrivial = true;
  std::vector<double> qi, qo;
  double mi, ai, mo, ao;
  quals(j.in, qi); quals(o.m, qo);
  stats(qi, mi, ai); stats(qo, mo, ao);
  std::string pre = strf("%s:%s:%s", KNAME[k], how == 2 ? "adapt" : how == 1 ? "noinsert" : "optim", info.geo.flat ? "flat" : "curved");
  if (getenv("C22DBG")) fprintf(stderr, "STAT %s min %.4f -> %.4f avg %.4f -> %.4f n %d -> %d\n", pre.c_str(), mi, mo, ai, ao, (int)qi.size(), (int)qo.size());
  int low = 0;
  for (double x : qo) low += x < .3;
  r.cnt["runs:" + pre] = 1;
  r.cnt["elements:" + pre] = qo.size();
  r.cnt["low:" + pre] = low;
  if (mo < .6 * mi && mo < .4) r.cnt["worse:" + pre] = 1;
  r.cnt[strf("runs:%s", KNAME[k])] = 1;
  if (ao < ai - .03) r.cnt[strf("average-worse:%s", KNAME[k])] = 1;
  if (mo < .6 * mi && mo < .4) r.cnt[strf("worse:%s", KNAME[k])] = 1;
  if (ao < ai - .03) r.cnt["average-worse:" + pre] = 1;
  if (poor && ai < .65 && how < 2) { r.cnt[strf("poor:%s", KNAME[k])] = 1; if (ao < ai + .02) r.cnt[strf("poor-not-improved:%s", KNAME[k])] = 1; }
  if (poor && ai < .65) { r.cnt["poor:" + pre] = 1; if (ao < ai + .02) r.cnt["poor-not-improved:" + pre] = 1; }
  r.cnt["min:worst-" + pre] = mo;
  r.cnt["min:ratio-" + pre] = mo / mi;
  r.cnt["min:gain-" + pre] = ao - ai;
  r.detail = strf("min %.4f -> %.4f, average %.4f -> %.4f", mi, mo, ai, ao);
  double lim = k == K2D ? .4 : k == KS ? .12 : .02, wlim = k == K2D ? .15 : k == KS ? .06 : .004;
  if (mo < lim * mi && mo < .3) r.viol(std::string(KNAME[k]) + ":worst-element-degraded", r.detail + " [" + r.sample + "]");
  else if (mo < wlim && mo < mi) r.viol(std::string(KNAME[k]) + ":degenerate-element", r.detail + " [" + r.sample + "]");
  else if (ao < ai - (k == K2D ? .05 : k == KS ? .2 : .25)) r.viol(std::string(KNAME[k]) + ":average-degraded", r.detail + " [" + r.sample + "]");
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
