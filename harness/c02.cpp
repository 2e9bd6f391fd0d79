// C02: the domain, its subdomains and their references are preserved (remeshing mode).
#include "jobgen.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 10000 : 1000; }

static std::string mapDiff(const std::map<std::string, double> &a, const std::map<std::string, double> &b, double tol, double &worst) {
  std::string s;
  std::set<std::string> ks;
  for (auto &x : a) ks.insert(x.first);
  for (auto &x : b) ks.insert(x.first);
  for (auto &k : ks) {
    auto i = a.find(k); auto j = b.find(k);
    double u = i == a.end() ? 0 : i->second, v = j == b.end() ? 0 : j->second;
    double e = std::fabs(u - v);
    worst = std::max(worst, e);
    if (!(e <= tol)) s += strf("[%s: %.12g -> %.12g] ", k.c_str(), u, v);
  }
  return s;
}

// Measure of the boundary / interface pieces. Key: references of the two sides, reference of the
// piece ("*" for pieces made of faces that the user did not list: Mmg chooses the reference).
static std::map<std::string, double> pieces(const Msh &m, bool withRef) {
  std::map<std::string, double> r;
  if (m.kind == K3D) {
    std::map<F3, int> tr;
    for (auto &t : m.tri) tr[sf(t.v[0], t.v[1], t.v[2])] = t.ref;
    for (auto &b : boundaryFaces(m)) {
      int x = m.tet[b.t1].ref, y = b.t2 < 0 ? -1 : m.tet[b.t2].ref;
      if (b.t2 >= 0 && x > y) std::swap(x, y);
      auto it = tr.find(b.f);
      std::string k = strf("faces between %d and %d", x, y);
      if (withRef && it != tr.end()) k += strf(" ref %d", it->second);
      r[k] += area3d(m, {b.f[0], b.f[1], b.f[2]});
    }
  } else {
    std::map<E2, int> er;
    for (auto &e : m.edg) er[se(e.a, e.b)] = e.ref;
    for (auto &b : boundaryEdges(m)) {
      std::vector<int> q;
      for (int t : b.t) q.push_back(m.tri[t].ref);
      std::sort(q.begin(), q.end());
      std::string k = "edges between";
      for (int x : q) k += strf(" %d", x);
      auto it = er.find(b.e);
      if (withRef && it != er.end()) k += strf(" ref %d", it->second);
      r[k] += norm(m.v[b.e[0]].c - m.v[b.e[1]].c);
    }
  }
  return r;
}

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 202);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.mode = M_REMESH; cf.weird = true;
  cf.gen.nonmanifold = g.chance(.15);
  cf.gen.curved = g.chance(.25);
  cf.gen.maxStretch = 2;
  Job j = genJob(g, k, cf, info);
  // quantities below are exact up to rounding only when nothing may deviate from flat pieces
  bool flat = info.geo.flat && !j.has("angle");  // without ridge detection the geometry is a smooth one
  if (k == KS) { double hl = info.geo.L * .004; if (j.get("hausd", 1) > hl) j.set("hausd", hl); for (auto &l : j.lpar) l.hausd = std::min(l.hausd, hl); }
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  bool nonmani = j.desc.find("+interfaces") != std::string::npos;
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS) r.cnt["failed"] = 1;
  if (o.ret == MMG5_STRONGFAILURE) return;
  if (!o.got) { r.viol("getters-failed", o.err + " " + r.sample); return; }
  r.nontrivial = true;
  r.cnt["elements"] = k == K3D ? o.m.tet.size() : o.m.tri.size();
  std::string K = KNAME[k];
  Msh in = j.in;
  if (j.has("nsd")) {
    // only the requested subdomain remains
    int nsd = (int)j.get("nsd", 0);
    if (k == K3D) {
      std::vector<Tet> t;
      for (auto &x : in.tet) if (x.ref == nsd) t.push_back(x);
      in.tet = t;
      std::set<F3> fs;
      for (auto &x : in.tet) for (auto &f : TETFACE) fs.insert(sf(x.v[f[0]], x.v[f[1]], x.v[f[2]]));
      std::vector<Tri> tt;
      for (auto &x : in.tri) if (fs.count(sf(x.v[0], x.v[1], x.v[2]))) tt.push_back(x);
      in.tri = tt;
    } else {
      std::vector<Tri> t;
      for (auto &x : in.tri) if (x.ref == nsd) t.push_back(x);
      in.tri = t;
      std::set<E2> es;
      for (auto &x : in.tri) for (int i = 0; i < 3; i++) es.insert(se(x.v[i], x.v[(i + 1) % 3]));
      std::vector<Edg> ee;
      for (auto &x : in.edg) if (es.count(se(x.a, x.b))) ee.push_back(x);
      in.edg = ee;
    }
    r.cnt["subdomain-selections"] = 1;
  }
  // --- references
  std::set<int> re, ro, te, to;
  if (k == K3D) { for (auto &t : in.tet) re.insert(t.ref); for (auto &t : o.m.tet) ro.insert(t.ref); }
  else { for (auto &t : in.tri) re.insert(t.ref); for (auto &t : o.m.tri) ro.insert(t.ref); }
  if (re != ro) {
    std::string s;
    for (int x : re) s += strf("%d ", x);
    s += "->";
    for (int x : ro) s += strf(" %d", x);
    r.viol(K + ":element-references", s + " " + r.sample);
    return;
  }
  // --- topology of every subdomain
  if (!nonmani) {
    auto A = topoByRef(in), B = topoByRef(o.m);
    if (!(A == B)) {
      std::string s;
      for (auto &x : A) s += strf("[ref %d: components %d euler %d boundaries %d -> %d %d %d] ", x.first, x.second.comps, x.second.euler, x.second.bcomps, B[x.first].comps, B[x.first].euler, B[x.first].bcomps);
      r.viol(K + ":topology", s + r.sample);
      return;
    }
    Topo a = topoAll(in), b = topoAll(o.m);
    if (!(a == b)) { r.viol(K + ":topology-of-domain", strf("components %d euler %d boundaries %d -> %d %d %d ", a.comps, a.euler, a.bcomps, b.comps, b.euler, b.bcomps) + r.sample); return; }
    r.cnt["topologies-compared"] = A.size();
  }
  if (!flat) return;
  // --- measures
  double tol = k == KS ? 2e-2 : 1e-6;
  auto va = volByRef(in), vb = volByRef(o.m);
  double tot = 0;
  std::map<std::string, double> sa, sb;
  for (auto &x : va) { tot += x.second; sa[strf("ref %d", x.first)] = x.second; }
  for (auto &x : vb) sb[strf("ref %d", x.first)] = x.second;
  double w = 0;
  std::string d = mapDiff(sa, sb, tol * tot, w);
  r.cnt["max:" + K + ":measure-error"] = w / tot;
  if (!d.empty()) { r.viol(K + ":measure", d + r.sample); return; }
  // --- pieces of the boundary and of the interfaces
  if (nonmani) return;
  bool allGiven = true;
  {
    auto bd = pieces(in, true);
    for (auto &x : bd) if (x.first.find("ref") == std::string::npos) allGiven = false;
  }
  auto pa = pieces(in, allGiven), pb = pieces(o.m, allGiven);
  double per = 0;
  for (auto &x : pa) per += x.second;
  w = 0;
  d = mapDiff(pa, pb, (k == KS ? 2e-2 : 1e-6) * per, w);
  r.cnt["max:" + K + ":boundary-error"] = per > 0 ? w / per : 0;
  if (!d.empty()) { r.viol(K + ":boundary-pieces", d + r.sample); return; }
  r.cnt["boundary-pieces-compared"] = pa.size();
  if (k != K2D) {
    // lines with a reference
    std::map<std::string, double> la, lb;
    for (auto &e : in.edg) if (e.ref) la[strf("lines ref %d", e.ref)] += norm(in.v[e.a].c - in.v[e.b].c);
    for (auto &e : o.m.edg) if (e.ref) lb[strf("lines ref %d", e.ref)] += norm(o.m.v[e.a].c - o.m.v[e.b].c);
    double len = 0;
    for (auto &x : la) len += x.second;
    w = 0;
    if (!j.has("nsd")) {
      d = mapDiff(la, lb, (k == KS ? 2e-2 : 1e-6) * std::max(len, 1e-300), w);
      if (!d.empty()) { r.viol(K + ":line-references", d + r.sample); return; }
      if (len > 0) r.cnt["lines-compared"] = la.size();
    }
  }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
