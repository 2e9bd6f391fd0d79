// C19: 2D mesh generation from edges.
#include "gen2d.h"
#include "match.h"

static int ncases(const std::string &t) { const char *q = getenv("C19_N"); int n = q ? atoi(q) : 5000; return t == "thorough" ? 12 * n : n; }
static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1919);
  JobInfo info; Pslg P;
  Job j = genGenJob(g, info, P, c.thorough() ? 60 : 30);
  r.sample = describe(j);
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + r.sample); return; }
  r.cnt["runs"] = 1; r.cnt[strf("ret%d", o.ret)] = 1;
  if (o.ret != MMG5_SUCCESS) { r.cnt["failed"] = 1; return; }
  if (!o.got) { r.viol("getters-failed", o.err + r.sample); return; }
  r.nontrivial = true;
  const Msh &m = o.m;
  std::string key, det; ValidOpt vo; vo.opnbdy = true; vo.orphans = false;
  if (!checkValid(m, vo, key, det)) { r.viol("invalid:" + key, det + r.sample); return; }
  double hausd = j.get("hausd", .01 * info.geo.L), L = info.geo.L;
  bool exact = P.flat || j.has("nosurf");
  double emax = 0; for (auto &e : j.in.edg) emax = std::max(emax, norm(j.in.v[e.a].c - j.in.v[e.b].c));
  double tol = exact ? 1e-9 * L : 3 * hausd + .6 * emax;
  bool nsd = j.has("nsd");
  // ---- edges
  std::map<int, double> li, lo;
  for (auto &e : j.in.edg) li[e.ref] += norm(j.in.v[e.a].c - j.in.v[e.b].c);
  for (auto &e : m.edg) {
    lo[e.ref] += norm(m.v[e.a].c - m.v[e.b].c);
    double best[3] = {1e300, 1e300, 1e300}, cov = 1e300; V3 mid = .5 * (m.v[e.a].c + m.v[e.b].c);
    for (auto &f : j.in.edg) if (f.ref == e.ref) {
      double d[3] = {distPointSeg(m.v[e.a].c, j.in.v[f.a].c, j.in.v[f.b].c), distPointSeg(m.v[e.b].c, j.in.v[f.a].c, j.in.v[f.b].c), distPointSeg(mid, j.in.v[f.a].c, j.in.v[f.b].c)};
      for (int q = 0; q < 3; q++) best[q] = std::min(best[q], d[q]);
      cov = std::min(cov, std::max(d[0], d[1]));
    }
    double w = std::max({best[0], best[1], best[2]});
    r.cnt["edges-located"]++; if (!exact) r.cnt["max:smooth-edge-distance/hausd"] = std::max(r.cnt["max:smooth-edge-distance/hausd"], w / hausd);
    r.cnt["max:edge-distance/tol"] = std::max(r.cnt["max:edge-distance/tol"], w / tol);
    if (w > tol) { r.viol(exact ? "edge-off-the-given-lines" : "smooth-edge-off-the-given-lines", strf("edge of reference %d is at %g of the given edges of this reference (tolerance %g) ", e.ref, w, tol) + r.sample); return; }
    if (j.has("nosurf") && cov > tol) { r.viol("nosurf-edge-changed", r.sample); return; }
  }
  if (!nsd) for (auto &x : li) {
    double rel = std::fabs(lo[x.first] - x.second) / x.second;
    if (rel > (exact ? 1e-8 : .15 + 3 * hausd / info.geo.h0)) { r.viol("edge-length-of-reference", strf("reference %d: %g given, %g returned ", x.first, x.second, lo[x.first]) + r.sample); return; }
  }
  if (nsd && exact) for (auto &x : lo) if (x.second > li[x.first] * (1 + 1e-8)) { r.viol("edge-length-of-reference", strf("reference %d: %g given, %g returned ", x.first, li[x.first], x.second) + r.sample); return; }
  // each given edge is covered (its points are on returned edges of its reference)
  if (!nsd) for (auto &e : j.in.edg) for (int q = 0; q <= 4; q++) {
    V3 p = (1 - q * .25) * j.in.v[e.a].c + (q * .25) * j.in.v[e.b].c; double d = 1e300;
    for (auto &f : m.edg) if (f.ref == e.ref) d = std::min(d, distPointSeg(p, m.v[f.a].c, m.v[f.b].c));
    r.cnt["given-points-checked"]++;
    if (d > tol) { r.viol("given-edge-lost", strf("a point of a given edge of reference %d is at %g of the returned ones (tolerance %g) ", e.ref, d, tol) + r.sample); return; }
  }
  // ---- regions: components of the triangles across the edges that are not listed
  std::set<E2> le; for (auto &e : m.edg) le.insert(se(e.a, e.b));
  std::map<E2, std::vector<int>> em;
  for (size_t t = 0; t < m.tri.size(); t++) for (int i = 0; i < 3; i++) em[se(m.tri[t].v[i], m.tri[t].v[(i + 1) % 3])].push_back(t);
  std::vector<int> uf(m.tri.size()); for (size_t i = 0; i < uf.size(); i++) uf[i] = i;
  std::function<int(int)> fd = [&](int x) { return uf[x] == x ? x : uf[x] = fd(uf[x]); };
  for (auto &e : em) {
    if (e.second.size() == 1 && !le.count(e.first)) { r.viol("boundary-edge-not-given", r.sample); return; }
    if (e.second.size() == 2 && !le.count(e.first)) uf[fd(e.second[0])] = fd(e.second[1]);
  }
  std::map<int, double> ca; std::map<int, std::set<int>> cr, rc;
  double tot = 0;
  for (size_t t = 0; t < m.tri.size(); t++) { double a = area2d(m, m.tri[t].v); ca[fd(t)] += a; tot += a; cr[fd(t)].insert(m.tri[t].ref); rc[m.tri[t].ref].insert(fd(t)); }
  for (auto &x : cr) if (x.second.size() != 1) { r.viol("region-with-several-references", r.sample); return; }
  for (auto &x : rc) if (x.second.size() != 1) { r.viol("reference-on-several-regions", strf("reference %d on %zu regions ", x.first, x.second.size()) + r.sample); return; }
  r.cnt["regions"] += ca.size();
  double per = 0; for (auto &x : li) per += x.second;
  double at = exact ? 1e-9 * P.area : (3 * hausd + .1 * emax) * per;
  if (nsd) {
    if (ca.size() != 1) { r.viol("nsd-regions", strf("%zu regions ", ca.size()) + r.sample); return; }
    double best = 1e300; for (double x : P.regions) best = std::min(best, std::fabs(x - tot));
    if (best > at) { r.viol("nsd-area", strf("area %g is not that of a region ", tot) + r.sample); return; }
    r.cnt["nsd"]++;
  } else {
    if (ca.size() != P.regions.size()) { r.viol("number-of-regions", strf("%zu regions instead of %zu ", ca.size(), P.regions.size()) + r.sample); return; }
    if (std::fabs(tot - P.area) > at) { r.viol("area", strf("area %.12g instead of %.12g ", tot, P.area) + r.sample); return; }
    std::vector<double> x, y = P.regions; for (auto &q : ca) x.push_back(q.second); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    for (size_t i = 0; i < x.size(); i++) if (std::fabs(x[i] - y[i]) > at) { r.viol("region-area", strf("%.12g instead of %.12g ", x[i], y[i]) + r.sample); return; }
  }
  // ---- required vertices and edges
  if (!nsd) {
    Matcher M(m, posTol(j.in));
    std::vector<char> onE(j.in.v.size(), 0); for (auto &e : j.in.edg) onE[e.a] = onE[e.b] = 1;
    std::vector<int> at2(j.in.v.size(), -1);
    for (size_t i = 0; i < j.in.v.size(); i++) { at2[i] = M.find(j.in.v[i].c, posTol(j.in)); if (j.in.v[i].req) { r.cnt["required-vertices"]++; if (at2[i] < 0) { r.viol(onE[i] ? "required-vertex-lost" : "required-interior-vertex-lost", r.sample); return; } if (!m.v[at2[i]].req) { r.viol("required-flag-lost", r.sample); return; } } }
    std::map<E2, const Edg *> oe; for (auto &e : m.edg) oe[se(e.a, e.b)] = &e;
    for (auto &e : j.in.edg) if (e.req) { r.cnt["required-edges"]++; auto f = at2[e.a] >= 0 && at2[e.b] >= 0 ? oe.find(se(at2[e.a], at2[e.b])) : oe.end(); if (f == oe.end() || f->second->ref != e.ref || !f->second->req) { r.viol("required-edge-lost", r.sample); return; } }
  }
  // ---- sizes
  double h = j.get("hsiz", 0);
  if (h > 0 && P.flat && h < .6 * info.geo.h0 && !j.has("noinsert") && !j.has("nosurf") && !j.has("noswap") && !j.has("nomove")) {
    bool req = false; for (auto &e : j.in.edg) req |= e.req; for (auto &v : j.in.v) req |= v.req;
    if (!req) for (auto &e : em) { double l = norm(m.v[e.first[0]].c - m.v[e.first[1]].c) / h; r.cnt["sized-edges"]++; if (l > 2) r.cnt["sized-long"]++; if (l < .5) r.cnt["sized-short"]++; r.cnt["max:edge/hsiz"] = std::max(r.cnt["max:edge/hsiz"], l); }
  }
  if (j.has("hmax") && !j.has("noinsert") && !j.has("nosurf")) {
    bool req = false; for (auto &e : j.in.edg) req |= e.req;
    if (!req) for (auto &e : em) { double l = norm(m.v[e.first[0]].c - m.v[e.first[1]].c) / j.get("hmax", 1); r.cnt["bounded-edges"]++; if (l > 2) r.cnt["bounded-long"]++; r.cnt["max:edge/hmax"] = std::max(r.cnt["max:edge/hmax"], l); }
  }
  if (!o.met.empty()) for (double x : o.met.d) if (!std::isfinite(x)) { r.viol("size-not-finite", r.sample); return; }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
