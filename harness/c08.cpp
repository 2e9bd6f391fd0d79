// C08: level-set discretization follows the piecewise-linear zero set exactly.
#include "jobgen.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 9000 : 700; }
static const double EPS = 1e-6;
struct Simp { std::vector<int> v; int ref; bool split = true; int rin = 3, rex = 2; };   // element (or boundary piece) of the input
struct Pt { V3 c; double f; };

static double measure(const std::vector<Pt> &p, int dim) {
  if (p.size() == 4) return std::fabs(vol6(p[0].c, p[1].c, p[2].c, p[3].c)) / 6.;
  if (p.size() == 3) return .5 * norm(cross(p[1].c - p[0].c, p[2].c - p[0].c));
  return norm(p[1].c - p[0].c);
}
// measures of the parts where the linear interpolant is negative / positive: bisection along sign-changing edges
static void clip(const std::vector<Pt> &p, int dim, double &neg, double &pos) {
  int n = p.size();
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((p[i].f < 0 && p[j].f > 0) || (p[i].f > 0 && p[j].f < 0)) {
    double t = p[i].f / (p[i].f - p[j].f);
    Pt q; q.c = p[i].c + t * (p[j].c - p[i].c); q.f = 0;
    auto a = p, b = p;
    a[j] = q; b[i] = q;
    clip(a, dim, neg, pos); clip(b, dim, neg, pos);
    return;
  }
  double m = measure(p, dim);
  bool minus = false;
  for (auto &x : p) if (x.f < 0) minus = true;
  (minus ? neg : pos) += m;
}
static std::vector<Pt> pts(const Msh &m, const std::vector<double> &f, const Simp &s) { std::vector<Pt> p; for (int v : s.v) p.push_back({m.v[v].c, f[v]}); return p; }

// barycentric coordinates of the orthogonal projection; returns the distance to the supporting plane / line
static double bary(const Msh &m, const std::vector<int> &v, const V3 &p, std::vector<double> &l) {
  int n = v.size();
  l.assign(n, 0);
  const V3 &a = m.v[v[0]].c;
  if (n == 4) {
    double V = vol6(a, m.v[v[1]].c, m.v[v[2]].c, m.v[v[3]].c);
    l[1] = vol6(a, p, m.v[v[2]].c, m.v[v[3]].c) / V;
    l[2] = vol6(a, m.v[v[1]].c, p, m.v[v[3]].c) / V;
    l[3] = vol6(a, m.v[v[1]].c, m.v[v[2]].c, p) / V;
    l[0] = 1 - l[1] - l[2] - l[3];
    return 0;
  }
  V3 e1 = m.v[v[1]].c - a, d = p - a;
  if (n == 2) { l[1] = dot(d, e1) / dot(e1, e1); l[0] = 1 - l[1]; return norm(d - l[1] * e1); }
  V3 e2 = m.v[v[2]].c - a;
  double g11 = dot(e1, e1), g12 = dot(e1, e2), g22 = dot(e2, e2), D = g11 * g22 - g12 * g12;
  l[1] = (g22 * dot(d, e1) - g12 * dot(d, e2)) / D;
  l[2] = (g11 * dot(d, e2) - g12 * dot(d, e1)) / D;
  l[0] = 1 - l[1] - l[2];
  return norm(d - l[1] * e1 - l[2] * e2);
}
struct Locator {
  const Msh &m; const std::vector<Simp> &s; double tol;
  int find(const V3 &p, std::vector<double> &l) const {
    int best = -1; double bv = -1e300;
    std::vector<double> q;
    for (size_t i = 0; i < s.size(); i++) {
      // bounding box
      bool in = true;
      for (int d = 0; d < 3 && in; d++) { double lo = 1e300, hi = -1e300; for (int v : s[i].v) { lo = std::min(lo, m.v[v].c[d]); hi = std::max(hi, m.v[v].c[d]); } in = p[d] >= lo - tol && p[d] <= hi + tol; }
      if (!in) continue;
      if (bary(m, s[i].v, p, q) > tol) continue;
      double mn = *std::min_element(q.begin(), q.end());
      if (mn > bv) { bv = mn; best = i; l = q; }
    }
    return bv < -1e-7 ? -1 : best;
  }
};

// connected components of the parts of one sign, through the faces (edges) that contain a vertex of this sign
struct Comp { std::vector<int> el; double vol = 0; };
static std::vector<Comp> components(const Msh &m, const std::vector<Simp> &s, const std::vector<double> &f, int sign, int dim) {
  std::map<std::vector<int>, std::vector<int>> faces;
  for (size_t i = 0; i < s.size(); i++) for (size_t q = 0; q < s[i].v.size(); q++) {
    std::vector<int> fc;
    for (size_t w = 0; w < s[i].v.size(); w++) if (w != q) fc.push_back(s[i].v[w]);
    std::sort(fc.begin(), fc.end());
    faces[fc].push_back(i);
  }
  std::vector<std::vector<int>> adj(s.size());
  auto has = [&](const std::vector<int> &v) { for (int x : v) if (sign * f[x] > 0) return true; return false; };
  for (auto &x : faces) if (x.second.size() == 2 && has(x.first)) { adj[x.second[0]].push_back(x.second[1]); adj[x.second[1]].push_back(x.second[0]); }
  std::vector<char> seen(s.size(), 0);
  std::vector<Comp> out;
  for (size_t i = 0; i < s.size(); i++) if (!seen[i] && has(s[i].v)) {
    Comp c;
    std::vector<int> st{(int)i};
    seen[i] = 1;
    while (st.size()) { int e = st.back(); st.pop_back(); c.el.push_back(e); double n = 0, p = 0; clip(pts(m, f, s[e]), dim, n, p); c.vol += sign > 0 ? p : n; for (int a : adj[e]) if (!seen[a]) { seen[a] = 1; st.push_back(a); } }
    out.push_back(c);
  }
  return out;
}

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 808);
  int q = c.idx % 9;
  Kind k = q < 4 ? K3D : q < 6 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.mode = M_LS; cf.opts = cf.req = cf.lpar = cf.surfls = false;
  cf.gen.nonmanifold = false;
  bool remesh = g.chance(.15);
  if (remesh) { cf.gen.curved = false; cf.gen.maxStretch = 1.5; cf.gen.maxCells = 30; }
  Job j = genJob(g, k, cf, info);
  bool surf = k != KS && info.lsKind != 4 && !remesh && g.chance(.12);
  if (surf && k == K2D && boundaryEdges(j.in).size() != j.in.edg.size()) surf = false;
  std::vector<Opt> keep;
  for (auto &o : j.opts) if (o.name != "isoref" && o.name != "angle" && o.name != "ar" && !(remesh && o.name == "rmc") && !(surf && (o.name == "rmc" || o.name == "iso"))) keep.push_back(o);
  j.opts = keep;
  if (remesh || surf) j.br.clear();
  if (surf) { j.set("isosurf", 1); j.mats.clear(); }
  double lsv = j.get("ls", 0), h0 = info.geo.h0, L = bboxsize(j.in);
  std::vector<double> f;
  bool zeros = false;
  // several small pieces of one side
  bool multi = !remesh && !surf && info.lsKind != 4 && j.in.v.size() > 20 && g.chance(.45);
  if (multi) {
    int nb = g.range(2, 5), sg = g.chance(.6) ? 1 : -1;
    std::vector<std::pair<V3, double>> ball;
    for (int i = 0; i < nb; i++) ball.push_back({j.in.v[g.range(0, (int)j.in.v.size() - 1)].c, g.uni(.8, 2.5) * h0});
    for (size_t i = 0; i < j.in.v.size() && i < j.ls.d.size(); i++) { double b = 1e300; for (auto &x : ball) b = std::min(b, norm(j.in.v[i].c - x.first) - x.second); j.ls.d[i] = sg * b + lsv; }
    if (!j.has("rmc")) { j.set("rmc", 1e-3); }
  }
  for (double &x : j.ls.d) {
    double v = x - lsv;
    // rounding of the level-set value must not create nearly null values
    if (!remesh && std::fabs(v) > 1e-9 * L && std::fabs(v) < .03 * h0) v = v < 0 ? -.03 * h0 : .03 * h0;
    if (std::fabs(v) <= 1e-9 * L) { v = 0; zeros = true; }
    x = v + lsv;
    f.push_back(v);
  }
  if (remesh && (info.lsKind != 0 || zeros)) remesh = false;
  if (!remesh) { j.set("noinsert", 1); j.set("noswap", 1); j.set("nomove", 1); }
  // a reference for the interface that nothing else uses
  std::set<int> used;
  for (auto &t : j.in.tri) used.insert(t.ref);
  for (auto &e : j.in.edg) used.insert(e.ref);
  for (auto &t : j.in.tet) used.insert(t.ref);
  int isoref = g.chance(.5) ? 10 : g.range(11, 90);
  while (used.count(isoref)) isoref++;
  if (isoref != 10) j.set("isoref", isoref);
  j.arrays = g.chance(.5);
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());

  int dim = k == K3D ? 3 : 2;
  std::vector<Simp> s;            // volume elements
  if (k == K3D) for (auto &t : j.in.tet) s.push_back({{t.v[0], t.v[1], t.v[2], t.v[3]}, t.ref});
  else for (auto &t : j.in.tri) s.push_back({{t.v[0], t.v[1], t.v[2]}, t.ref});
  std::map<int, Mat> mats;
  for (auto &m : j.mats) mats[m.ref] = m;
  for (auto &x : s) if (j.mats.size()) { auto &m = mats[x.ref]; x.split = m.split; x.rin = m.split ? m.rin : x.ref; x.rex = m.split ? m.rex : x.ref; }
  // an element whose values all vanish has no side
  for (auto &x : s) { bool nz = false; for (int v : x.v) if (f[v] != 0) nz = true; if (!nz && x.split) { r.cnt["flat-element"] = 1; return; } }
  double tot = 0;
  for (auto &x : s) tot += measure(pts(j.in, f, x), dim);

  // removal of small components and of components that are not attached to a base reference
  if (multi && j.br.empty() && g.chance(.4)) {
    std::vector<int> rf;
    if (k == K3D) for (auto &t : j.in.tri) rf.push_back(t.ref); else for (auto &e : j.in.edg) rf.push_back(e.ref);
    if (rf.size()) { j.br.push_back(rf[g.range(0, (int)rf.size() - 1)]); r.sample = describe(j); fprintf(stderr, "%s\n", r.sample.c_str()); r.cnt["base-reference"]++; }
  }
  int flipped = 0;
  bool ambiguous = false;
  // half of the time the threshold is close to the size of one of the components
  if (j.has("rmc") && j.get("rmc", 0) > 0 && !surf && (multi || g.chance(.6))) {
    std::vector<double> fr;
    for (int sg : {1, -1}) for (auto &cp : components(j.in, s, f, sg, dim)) fr.push_back(cp.vol / tot);
    if (fr.size()) { double q = fr[g.range(0, (int)fr.size() - 1)]; if (q > 1e-4 && q < .3) { j.set("rmc", q * (g.chance(.5) ? g.uni(.6, .93) : g.uni(1.08, 1.7))); r.sample = describe(j); fprintf(stderr, "%s\n", r.sample.c_str()); r.cnt["threshold-near-component"]++; } }
  }
  double rmc = j.has("rmc") ? (j.get("rmc", 0) == 0 ? 1e-5 : j.get("rmc", 0)) : 0;
  if (rmc > 0 && !surf) {
    std::vector<double> nf = f;
    for (auto &cp : components(j.in, s, f, 1, dim)) {
      if (cp.vol > .95 * rmc * tot && cp.vol < 1.05 * rmc * tot) ambiguous = true;
      if (cp.vol < rmc * tot) { flipped++; for (int e : cp.el) for (int v : s[e].v) if (f[v] > 0) nf[v] = -100 * EPS * L; }
    }
    f = nf;
    auto neg = components(j.in, s, f, -1, dim);
    std::set<std::vector<int>> bb;
    bool br = j.br.size() > 0;
    if (br) {
      std::set<int> bs(j.br.begin(), j.br.end());
      if (k == K3D) { for (auto &t : j.in.tri) if (bs.count(t.ref)) { F3 x = sf(t.v[0], t.v[1], t.v[2]); bb.insert({x[0], x[1], x[2]}); } }
      else for (auto &e : j.in.edg) if (bs.count(e.ref)) { E2 x = se(e.a, e.b); bb.insert({x[0], x[1]}); }
    }
    std::map<std::vector<int>, int> nfc;
    for (auto &x : s) for (size_t w = 0; w < x.v.size(); w++) { std::vector<int> fc; for (size_t u = 0; u < x.v.size(); u++) if (u != w) fc.push_back(x.v[u]); std::sort(fc.begin(), fc.end()); nfc[fc]++; }
    for (auto &cp : neg) {
      bool rm = cp.vol < rmc * tot;
      if (cp.vol > .95 * rmc * tot && cp.vol < 1.05 * rmc * tot) ambiguous = true;
      if (rm) r.cnt["small-negative-removed"]++;
      if (!rm && br) {
        bool full = false, touch = false;   // a face of base reference with a vertex in the component
        for (int e : cp.el) {
          auto &x = s[e];
          for (size_t w = 0; w < x.v.size(); w++) {
            std::vector<int> fc;
            int nn = 0;
            for (size_t u = 0; u < x.v.size(); u++) if (u != w) { fc.push_back(x.v[u]); nn += f[x.v[u]] < 0; }
            std::sort(fc.begin(), fc.end());
            if (!bb.count(fc)) continue;
            if (nn) touch = true;
            if (nn == (int)fc.size()) full = true;
          }
        }
        // a base line of a plane mesh counts through its vertices too: contact by a single vertex is ambiguous
        if (!full && !touch) { for (int e : cp.el) for (int v : s[e].v) if (f[v] < 0) for (auto &b : bb) for (int bv : b) if (bv == v) touch = true; }
        if (!full && touch) ambiguous = true;
        if (!full && !touch) { rm = true; r.cnt["detached-removed"]++; }
      }
      if (rm) { flipped++; for (int e : cp.el) for (int v : s[e].v) if (f[v] < 0) nf[v] = 100 * EPS * L; }
    }
    f = nf;
    r.cnt["components"] += 1;
  }
  if (ambiguous) { r.cnt["ambiguous"] = 1; return; }
  Out o = runJob(j);
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS) { r.cnt["failed"] = 1; r.cnt[strf("failed:%s", KNAME[k])] = 1; return; }
  if (!o.got) { r.viol("getters-failed", o.err + " " + r.sample); return; }
  r.nontrivial = true;
  r.cnt[strf("%s%s%s%s", KNAME[k], remesh ? ":remesh" : "", surf ? ":surf" : "", j.mats.size() ? ":mats" : "")] = 1;
  if (flipped) r.cnt["with-removal"] = 1;
  std::string pre = std::string(KNAME[k]) + ":";
  auto bad = [&](const char *key, const std::string &d) { r.viol(pre + key, d + " [" + r.sample + "]"); };
  bool fuzzy = zeros || flipped;
  double ftol = fuzzy ? 3e-4 * L : 1e-8 * L, mtol = fuzzy ? 2e-3 : 1e-8;
  if (remesh) { ftol = 1e-6 * L; mtol = 1e-5; }

  if (surf) {
    // only the boundary is split: volume references and measures are untouched, boundary pieces are cut
    std::vector<Simp> b;
    std::vector<Simp> outb;
    if (k == K3D) { for (auto &x : boundaryFaces(j.in)) b.push_back({{x.f[0], x.f[1], x.f[2]}, 0}); for (auto &t : o.m.tri) outb.push_back({{t.v[0], t.v[1], t.v[2]}, t.ref}); }
    else { for (auto &x : boundaryEdges(j.in)) b.push_back({{x.e[0], x.e[1]}, 0}); for (auto &e : o.m.edg) outb.push_back({{e.a, e.b}, e.ref}); }
    auto vi = volByRef(j.in), vo = volByRef(o.m);
    for (auto &x : vi) if (std::fabs(x.second - vo[x.first]) > 1e-8 * tot) { bad("surface-mode-changed-volume", strf("reference %d measure %.12g became %.12g", x.first, x.second, vo[x.first])); return; }
    if (vo.size() != vi.size()) { bad("surface-mode-changed-volume", "new element reference"); return; }
    double en = 0, ep = 0, got[2] = {0, 0}, bt = 0;
    for (auto &x : b) clip(pts(j.in, f, x), dim - 1, en, ep);
    bt = en + ep;
    std::vector<double> zf(o.m.v.size(), 1);
    for (auto &x : outb) { double a = measure(pts(o.m, zf, x), dim - 1); if (x.ref == 3) got[0] += a; else if (x.ref == 2) got[1] += a; }
    if (std::fabs(got[0] - en) > mtol * bt || std::fabs(got[1] - ep) > mtol * bt) { bad("surface-mode-measures", strf("inside %.12g expected %.12g, outside %.12g expected %.12g", got[0], en, got[1], ep)); return; }
    return;
  }

  // measures per output reference
  std::map<int, double> ex, got = volByRef(o.m);
  for (auto &x : s) {
    double n = 0, p = 0;
    clip(pts(j.in, f, x), dim, n, p);
    if (!x.split) ex[x.ref] += n + p; else { ex[x.rin] += n; ex[x.rex] += p; }
  }
  for (auto &x : got) if (!ex.count(x.first)) { bad("unexpected-reference", strf("elements of reference %d", x.first)); return; }
  for (auto &x : ex) if (std::fabs(x.second - got[x.first]) > mtol * tot) { bad("side-measure", strf("reference %d measure %.12g, the interpolant gives %.12g (total %g)", x.first, got[x.first], x.second, tot)); return; }
  r.cnt["measures"] = ex.size();
  // side of every element
  Locator loc{j.in, s, 1e-7 * L};
  std::vector<Simp> out;
  if (k == K3D) for (auto &t : o.m.tet) out.push_back({{t.v[0], t.v[1], t.v[2], t.v[3]}, t.ref});
  else for (auto &t : o.m.tri) out.push_back({{t.v[0], t.v[1], t.v[2]}, t.ref});
  size_t step = out.size() > 4000 ? out.size() / 4000 + 1 : 1;
  auto ev = [&](const V3 &p, int &e, double &val) { std::vector<double> l; e = loc.find(p, l); if (e < 0) return false; val = 0; for (size_t i = 0; i < l.size(); i++) val += l[i] * f[s[e].v[i]]; return true; };
  for (size_t i = 0; i < out.size(); i += step) {
    V3 b{0, 0, 0};
    for (int v : out[i].v) b = b + (1. / out[i].v.size()) * o.m.v[v].c;
    int e; double val;
    if (!ev(b, e, val)) { if (k == KS && remesh) { r.cnt["unlocated"]++; continue; } bad("element-outside", strf("element %d", (int)i)); return; }
    r.cnt["located"]++;
    // two input elements of different materials may both contain a barycentre lying on their common face
    const Simp &x = s[e];
    if (!x.split) { if (out[i].ref != x.ref) { bad("unsplit-reference", strf("element %d has reference %d inside of material %d", (int)i, out[i].ref, x.ref)); return; } continue; }
    if (std::fabs(val) < ftol) { r.cnt["near-interface"]++; continue; }
    int want = val < 0 ? x.rin : x.rex;
    if (out[i].ref != want) { bad("wrong-side", strf("element %d (level-set %g, material %d) has reference %d instead of %d", (int)i, val, x.ref, out[i].ref, want)); return; }
  }
  // interface
  std::set<int> ins, exs;
  if (j.mats.empty()) { ins.insert(3); exs.insert(2); }
  for (auto &m : j.mats) if (m.split) { ins.insert(m.rin); exs.insert(m.rex); }
  std::map<std::vector<int>, int> listed;
  if (k == K3D) for (auto &t : o.m.tri) { F3 x = sf(t.v[0], t.v[1], t.v[2]); listed[{x[0], x[1], x[2]}] = t.ref; }
  else for (auto &e : o.m.edg) { E2 x = se(e.a, e.b); listed[{x[0], x[1]}] = e.ref; }
  std::map<std::vector<int>, std::vector<int>> fe;
  for (auto &x : out) for (size_t w = 0; w < x.v.size(); w++) { std::vector<int> fc; for (size_t u = 0; u < x.v.size(); u++) if (u != w) fc.push_back(x.v[u]); std::sort(fc.begin(), fc.end()); fe[fc].push_back(x.ref); }
  int nint = 0;
  std::set<int> dm;
  for (auto &x : s) dm.insert(x.ref);
  int vdoms = dm.size();
  for (auto &x : fe) {
    if (x.second.size() != 2) continue;
    int a = x.second[0], b = x.second[1];
    bool itf = (ins.count(a) && exs.count(b)) || (ins.count(b) && exs.count(a));
    auto it = listed.find(x.first);
    if (itf) {
      nint++;
      if (it == listed.end()) { bad("interface-not-listed", strf("between references %d and %d", a, b)); return; }
      // the user's own interface between two materials keeps its reference
      bool same = j.mats.empty() && (!zeros || vdoms == 1);
      for (auto &m : j.mats) same |= m.split && ((a == m.rin && b == m.rex) || (b == m.rin && a == m.rex));
      if (!same) { r.cnt["interface-between-materials"]++; continue; }
      if (it->second != isoref) { bad("interface-reference", strf("reference %d instead of %d between references %d and %d", it->second, isoref, a, b)); return; }
      for (int v : x.first) { int e; double val; if (ev(o.m.v[v].c, e, val) && std::fabs(val) > std::max(ftol, 1e-7 * L)) { bad("interface-off-zero-set", strf("vertex %d has level-set %g", v, val)); return; } }
    }
    else if (it != listed.end() && it->second == isoref && !(zeros && j.mats.size())) { bad("interface-reference-elsewhere", strf("between references %d and %d", a, b)); return; }
  }
  for (auto &x : listed) if (x.second == isoref && !zeros) { auto it = fe.find(x.first); if (it == fe.end() || it->second.size() != 2) { bad("interface-reference-on-boundary", ""); return; } }
  r.cnt["interface-entities"] = nint;
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
