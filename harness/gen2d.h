// Random planar straight-line graphs for the 2D mesh generation mode.
#pragma once
#include "jobgen.h"
#include "oracle.h"

struct Pslg { double area = 0; std::vector<double> regions; bool flat = true; bool nsd = false; std::string desc; };
static inline double shoelace(const std::vector<V3> &p) { double a = 0; for (size_t i = 0; i < p.size(); i++) { auto &x = p[i], &y = p[(i + 1) % p.size()]; a += x[0] * y[1] - x[1] * y[0]; } return .5 * a; }

static inline Msh pslgFromMesh(Rng &r, Pslg &P, Geo &g, int maxCells) {
  GenCfg gc; gc.maxCells = maxCells; gc.curved = true; gc.given = true; gc.renumber = false; gc.maxScale = 30;
  Msh ref = gen2(r, gc, g);
  P.flat = g.flat;
  std::map<E2, int> er; for (auto &e : ref.edg) er[se(e.a, e.b)] = e.ref;
  bool itf = r.chance(.7);
  std::map<E2, std::vector<int>> em;
  for (size_t t = 0; t < ref.tri.size(); t++) for (int i = 0; i < 3; i++) em[se(ref.tri[t].v[i], ref.tri[t].v[(i + 1) % 3])].push_back(t);
  std::map<E2, int> keep;
  for (auto &e : em) {
    bool bd = e.second.size() == 1, it = !bd && ref.tri[e.second[0]].ref != ref.tri[e.second[1]].ref;
    if (bd || (it && itf)) { auto f = er.find(e.first); keep[e.first] = f == er.end() ? (it ? 40 : 0) : f->second; }
  }
  // regions
  std::vector<int> uf(ref.tri.size()); for (size_t i = 0; i < uf.size(); i++) uf[i] = i;
  std::function<int(int)> fd = [&](int x) { return uf[x] == x ? x : uf[x] = fd(uf[x]); };
  for (auto &e : em) if (e.second.size() == 2 && !keep.count(e.first)) uf[fd(e.second[0])] = fd(e.second[1]);
  std::map<int, double> ra; for (size_t t = 0; t < ref.tri.size(); t++) ra[fd(t)] += area2d(ref, ref.tri[t].v);
  for (auto &x : ra) P.regions.push_back(x.second);
  // boundary loops
  std::map<int, int> nx;
  for (auto &t : ref.tri) for (int i = 0; i < 3; i++) { int a = t.v[i], b = t.v[(i + 1) % 3]; if (em[se(a, b)].size() == 1) nx[a] = b; }
  std::set<int> seen;
  for (auto &p : nx) if (!seen.count(p.first)) { std::vector<V3> L; int x = p.first; while (!seen.count(x)) { seen.insert(x); L.push_back(ref.v[x].c); x = nx[x]; } double a = shoelace(L); if (a > 0) P.area += a; else P.regions.push_back(-a); }
  Msh m; m.kind = K2D; m.v = ref.v;
  for (auto &e : keep) { Edg x; x.a = e.first[0]; x.b = e.first[1]; x.ref = e.second; m.edg.push_back(x); }
  // join aligned edges
  double pj = r.chance(.5) ? r.uni(.2, 1) : 0;
  std::vector<char> drop(m.v.size(), 0);
  for (size_t v = 0; v < m.v.size() && pj > 0; v++) {
    std::vector<int> inc; for (size_t e = 0; e < m.edg.size(); e++) if (m.edg[e].a == (int)v || m.edg[e].b == (int)v) inc.push_back(e);
    if (inc.size() != 2 || m.edg[inc[0]].ref != m.edg[inc[1]].ref || !r.chance(pj)) continue;
    Edg &a = m.edg[inc[0]], &b = m.edg[inc[1]];
    int x = a.a == (int)v ? a.b : a.a, y = b.a == (int)v ? b.b : b.a;
    V3 u = m.v[v].c - m.v[x].c, w = m.v[y].c - m.v[v].c;
    if (std::fabs(u[0] * w[1] - u[1] * w[0]) > 1e-10 * norm(u) * norm(w) || dot(u, w) < 0) continue;
    a.a = x; a.b = y; m.edg.erase(m.edg.begin() + inc[1]); drop[v] = 1;
  }
  bool inner = r.chance(.4);
  std::vector<char> used(m.v.size(), inner); for (auto &e : m.edg) used[e.a] = used[e.b] = 1;
  std::vector<int> nb(m.v.size(), -1); std::vector<Vtx> nv;
  for (size_t i = 0; i < m.v.size(); i++) if (used[i] && !drop[i]) { nb[i] = nv.size(); nv.push_back(m.v[i]); }
  m.v = nv; for (auto &e : m.edg) { e.a = nb[e.a]; e.b = nb[e.b]; }
  P.desc = g.desc + (itf ? " lines" : "") + (pj > 0 ? " joined" : "") + (inner ? " inner-points" : "");
  return m;
}
static inline Msh pslgStars(Rng &r, Pslg &P, Geo &g) {
  Msh m; m.kind = K2D; P.flat = false;
  int n = r.range(1, 3); double sc = std::exp(r.uni(-3, 3)), ox = r.uni(-5, 5) * sc, oy = r.uni(-5, 5) * sc;
  g = Geo(); g.flat = false;
  auto star = [&](double cx, double cy, double lo, double hi) {
    int k = r.range(3, 24); double ph = r.uni(0, 6.28); std::vector<V3> L; int b = m.v.size(), rf = r.range(0, 4);
    for (int i = 0; i < k; i++) { double th = ph + 2 * M_PI * (i + r.uni(-.2, .2)) / k, R = r.uni(lo, hi); Vtx v; v.c = {ox + sc * (cx + R * cos(th)), oy + sc * (cy + R * sin(th)), 0}; m.v.push_back(v); L.push_back(v.c); }
    for (int i = 0; i < k; i++) { Edg e; e.a = b + i; e.b = b + (i + 1) % k; e.ref = rf; m.edg.push_back(e); }
    return shoelace(L);
  };
  for (int i = 0; i < n; i++) {
    double cx = 2.3 * i, cy = r.uni(-1, 1), A = star(cx, cy, .6, 1); P.area += A;
    // the inscribed disc of a star polygon with few vertices may be small: keep inner loops tiny then
    int nest = r.below(3); double R = .28 * (m.edg.size() && r.chance(.5) ? 1 : .6);
    int k0 = 0; (void)k0;
    double mn = 1e300; // distance of the centre to the edges of the loop just made
    V3 c = {ox + sc * cx, oy + sc * cy, 0};
    for (auto &e : m.edg) mn = std::min(mn, distPointSeg(c, m.v[e.a].c, m.v[e.b].c));
    R = std::min(R, .7 * mn / sc);
    if (P.area <= 0 || R < .05) nest = 0;
    // is the centre inside?
    double w = 0; for (size_t e = 0; e < m.edg.size(); e++) { V3 a = m.v[m.edg[e].a].c - c, b = m.v[m.edg[e].b].c - c; w += std::atan2(a[0] * b[1] - a[1] * b[0], dot(a, b)); }
    if (std::fabs(w) < 1) nest = 0;
    for (int q = 0; q < nest; q++) {
      size_t e0 = m.edg.size();
      double B = star(cx, cy, R * .6, R); P.regions.push_back(A - B); A = B;
      double mi = 1e300, wi = 0;
      for (size_t e = e0; e < m.edg.size(); e++) { mi = std::min(mi, distPointSeg(c, m.v[m.edg[e].a].c, m.v[m.edg[e].b].c)); V3 a = m.v[m.edg[e].a].c - c, b = m.v[m.edg[e].b].c - c; wi += std::atan2(a[0] * b[1] - a[1] * b[0], dot(a, b)); }
      R = std::min(R * .25, .7 * mi / sc);
      if (R < .02 || std::fabs(wi) < 1) break;
    }
    P.regions.push_back(A);
    if (nest == 0 && r.chance(.4) && mn > .2 * sc && std::fabs(w) > 1) { int b = m.v.size(); for (int q = 0; q < 3; q++) { Vtx v; v.c = {c[0] + mn * r.uni(-.5, .5), c[1] + mn * r.uni(-.5, .5), 0}; m.v.push_back(v); } bool line = r.chance(.5); if (line) { Edg e; e.a = b; e.b = b + 1; e.ref = 9; m.edg.push_back(e); P.desc += " line"; } else P.desc += " points"; }
  }
  double l = 0; for (auto &e : m.edg) l += norm(m.v[e.a].c - m.v[e.b].c);
  g.h0 = l / m.edg.size(); g.L = bboxsize(m);
  P.desc = strf("%d stars", n) + P.desc;
  return m;
}
static inline Job genGenJob(Rng &r, JobInfo &info, Pslg &P, int maxCells = 30) {
  Job j; j.mode = M_GEN; Geo &g = info.geo;
  bool stars = r.chance(.35);
  j.in = stars ? pslgStars(r, P, g) : pslgFromMesh(r, P, g, maxCells);
  if (r.chance(.3)) for (auto &v : j.in.v) if (r.chance(.2)) v.req = true;
  if (r.chance(.2)) for (auto &e : j.in.edg) if (r.chance(.2)) e.req = true;
  if (r.chance(.5)) { for (size_t i = j.in.edg.size(); i-- > 1;) std::swap(j.in.edg[i], j.in.edg[r.below(i + 1)]); for (auto &e : j.in.edg) if (r.chance(.5)) std::swap(e.a, e.b);
    std::vector<int> p(j.in.v.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[r.below(i + 1)]);
    std::vector<Vtx> nv(p.size()); for (size_t i = 0; i < p.size(); i++) nv[p[i]] = j.in.v[i]; j.in.v = nv; for (auto &e : j.in.edg) { e.a = p[e.a]; e.b = p[e.b]; } }
  j.desc = P.desc;
  double h0 = g.h0; int mk = r.below(6);
  double hs = h0 * r.uni(.25, 1.2);
  if (mk == 1) j.set("hsiz", hs);
  if (mk == 2) { if (r.chance(.6)) j.set("hmax", h0 * r.uni(.3, 1.5)); if (r.chance(.6)) { double le = j.get("hmax", 1e300); for (auto &e : j.in.edg) le = std::min(le, norm(j.in.v[e.a].c - j.in.v[e.b].c)); j.set("hmin", le * r.uni(.1, .5)); } }
  if (mk == 3 && !stars) j.met = genMetric(r, j.in, g, r.chance(.4), .3, 1.5);
  j.set("hausd", std::min(g.L * std::exp(r.uni(std::log(.002), std::log(.03))), stars ? .02 * g.h0 : 1e30));
  if (r.chance(.2)) j.set("hgrad", r.chance(.3) ? -1 : r.uni(1.1, 2.5));
  if (j.desc.find(" line") != std::string::npos && stars) j.set("opnbdy", 1);
  if (r.chance(.15)) j.set("nosurf", 1);
  if (r.chance(.1)) j.set("noinsert", 1);
  if (r.chance(.1)) j.set("noswap", 1);
  if (r.chance(.1)) j.set("nomove", 1);
  if (r.chance(.1)) { j.set("nsd", r.range(2, (int)P.regions.size() + 1)); P.nsd = true; }
  if (r.chance(.1)) j.set("ar", r.uni(20, 80));
  j.arrays = r.chance(.5);
  return j;
}
