// C06: the size map respects bounds, local sizes, user sizes and gradation.
// With every operator off the mesh is unchanged and the returned map is the computed size field.
#include "jobgen.h"
#include "oracle.h"

static int ncases(const std::string &t) { return t == "thorough" ? 14000 : 1000; }

// symmetric tensors: full matrix, Jacobi eigen-decomposition (independent of Mmg)
struct Eig { int n; double l[3]; double v[3][3]; };
static void full(const double *t, int n, double a[3][3]) {
  if (n == 2) { a[0][0] = t[0]; a[0][1] = a[1][0] = t[1]; a[1][1] = t[2]; }
  else { a[0][0] = t[0]; a[0][1] = a[1][0] = t[1]; a[0][2] = a[2][0] = t[2]; a[1][1] = t[3]; a[1][2] = a[2][1] = t[4]; a[2][2] = t[5]; }
}
static Eig eigen(double a[3][3], int n) {
  Eig e; e.n = n;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e.v[i][j] = i == j;
  for (int sw = 0; sw < 60; sw++) {
    double off = 0, dg = 0;
    for (int i = 0; i < n; i++) { dg += a[i][i] * a[i][i]; for (int j = i + 1; j < n; j++) off += a[i][j] * a[i][j]; }
    if (off <= 1e-32 * dg) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (a[p][q] == 0) continue;
      double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
      double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
      double c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = e.v[k][p], y = e.v[k][q]; e.v[k][p] = c * x - s * y; e.v[k][q] = s * x + c * y; }
    }
  }
  for (int i = 0; i < n; i++) e.l[i] = a[i][i];
  return e;
}
static Eig eigT(const double *t, int n) { double a[3][3]; full(t, n, a); return eigen(a, n); }

static bool readSol(const std::string &f, std::vector<double> &d, size_t n) {
  FILE *fp = fopen(f.c_str(), "r");
  if (!fp) return false;
  char w[256];
  bool found = false;
  while (fscanf(fp, "%255s", w) == 1) if (!strcmp(w, "SolAtVertices")) { found = true; break; }
  int np, nt, ty;
  if (!found || fscanf(fp, "%d %d %d", &np, &nt, &ty) != 3) { fclose(fp); return false; }
  double x;
  while (d.size() < n && fscanf(fp, "%lf", &x) == 1) d.push_back(x);
  fclose(fp);
  if (d.size() != n) return false;
  if (n % 6 == 0) for (size_t i = 0; i + 5 < n; i += 6) std::swap(d[i + 2], d[i + 3]);  // file order: xx xy yy xz yz zz
  return true;
}
static void frozenChecks(const std::string &K, Kind k, Job &j, JobInfo &info, Out &o, int d, bool req, bool free_, double lo, double hi, double hmin, double hmax, bool hs, std::vector<double> &hs_min, std::vector<double> &hs_max, Result &r) {
  int np = o.m.v.size(), sz = o.met.size;
  bool aniso = sz > 1;
  const double T = 1e-6;
  // identity of the vertices
  std::vector<int> id(np, -1), back(j.in.v.size(), -1);
  for (int i = 0; i < np; i++) { int rf = o.m.v[i].ref - 1; if (rf < 0 || rf >= (int)j.in.v.size() || back[rf] >= 0) { r.viol(K + ":mesh-changed", r.sample); return; } id[i] = rf; back[rf] = i; }
  // local parameters apply to the vertices of the entities of the reference
  std::vector<double> lhmin(np, hmin), lhmax(np, hmax);
  std::vector<int> loc(np, 0), isreq(np, 0), isbd(np, 0);
  std::set<F3> inbf;  // triangles that are not boundary or interface faces are ignored
  if (k == K3D && j.lpar.size()) for (auto &b : boundaryFaces(j.in)) inbf.insert(b.f);
  for (auto &p : j.lpar) {
    auto ap = [&](int v) { int i = back[v]; if (i < 0) return; if (!loc[i]++) { lhmin[i] = p.hmin; lhmax[i] = p.hmax; } else { lhmin[i] = std::min(lhmin[i], p.hmin); lhmax[i] = std::min(lhmax[i], p.hmax); } };
    if (p.typ == MMG5_Tetrahedron) { for (auto &t : j.in.tet) if (t.ref == p.ref) for (int v : t.v) ap(v); }
    else if (p.typ == MMG5_Triangle) { for (auto &t : j.in.tri) if (t.ref == p.ref && (k != K3D || inbf.count(sf(t.v[0], t.v[1], t.v[2])))) for (int v : t.v) ap(v); }
    else { for (auto &e : j.in.edg) if (e.ref == p.ref) { ap(e.a); ap(e.b); } }
  }
  std::set<int> nom;  // ends of edges where boundary and interface sheets meet
  if (k == K3D && j.lpar.size()) {
    std::map<E2, int> n;
    for (auto &b : boundaryFaces(o.m)) for (int a = 0; a < 3; a++) n[se(b.f[a], b.f[(a + 1) % 3])]++;
    for (auto &x : n) if (x.second != 2) { nom.insert(x.first[0]); nom.insert(x.first[1]); }
  }
  bool sametype = true;  // boundary parameters win over volume ones
  for (auto &p : j.lpar) sametype &= p.typ == j.lpar[0].typ;
  if (free_ && !aniso && !hs && sametype) for (int i = 0; i < np; i++) if (loc[i]) {
    r.cnt["check:local"]++;
    if (!o.m.v[i].corner && !o.m.v[i].req && !nom.count(i) && lhmax[i] >= hmin && lhmax[i] >= j.get("hmin", 0) && hs_max[i] > lhmax[i] * (1 + T)) { r.viol(K + ":above-local-hmax", strf("vertex %d size %.9g > local maximum %.9g (parameter on %s of reference %d) ", i, hs_max[i], lhmax[i], j.lpar[0].typ == MMG5_Tetrahedron ? "tetrahedra" : j.lpar[0].typ == MMG5_Edg ? "edges" : "triangles", j.lpar[0].ref) + r.sample); return; }
  }
  if (k == K3D) { for (auto &b : boundaryFaces(o.m)) for (int v : b.f) isbd[v] = 1; }
  else for (auto &b : boundaryEdges(o.m)) for (int v : b.e) isbd[v] = 1;
  // prescribed sizes
  if (free_ && !j.met.empty() && !hs && j.lpar.empty()) {
    for (int i = 0; i < np; i++) {
      const double *u = &j.met.d[(size_t)id[i] * j.met.size], *m = &o.met.d[(size_t)i * sz];
      if (!aniso) {
        double h = std::max(hmin, std::min(hmax, u[0]));
        if (m[0] > h * (1 + T)) { r.viol(K + ":larger-than-prescribed", strf("vertex %d size %.9g, prescribed %.9g ", i, m[0], h) + r.sample); return; }
        r.cnt["check:prescribed"]++;
      } else {
        Eig e = eigT(u, d);
        double worst = 0;
        for (int l = 0; l < d; l++) {
          double h = std::max(hmin, std::min(hmax, 1 / std::sqrt(e.l[l])));
          double x[3] = {e.v[0][l], e.v[1][l], d == 3 ? e.v[2][l] : 0}, a[3][3], s = 0;
          full(m, d, a);
          for (int p = 0; p < d; p++) for (int z = 0; z < d; z++) s += x[p] * a[p][z] * x[z];
          worst = std::max(worst, 1 / std::sqrt(s) / h);
        }
        if (isbd[i]) { r.cnt["max:ani-bdy-ratio" + K] = std::max(r.cnt["max:ani-bdy-ratio" + K], worst); r.cnt[worst > 1 + 1e-4 ? K + "ani-bdy-larger" : K + "ani-bdy-ok"]++; continue; }
        if (k != KS && worst > 1 + 1e-4) { r.viol(K + ":tensor-larger-than-prescribed", strf("vertex %d allows %g times the prescribed size in a direction ", i, worst) + r.sample); return; }
        r.cnt["check:prescribed-tensor"]++;
        r.cnt["max:ani-int-ratio" + K] = std::max(r.cnt["max:ani-int-ratio" + K], worst);
      }
    }
  }
  // gradation
  double hg = j.get("hgrad", 1.3);
  if (hg > 0 && !req && !aniso && j.lpar.empty()) {
    double lg = std::log(hg);
    std::set<E2> ed;
    for (auto &t : o.m.tet) for (auto &e : TETEDGE) ed.insert(se(t.v[e[0]], t.v[e[1]]));
    if (k != K3D) for (auto &t : o.m.tri) for (int a = 0; a < 3; a++) ed.insert(se(t.v[a], t.v[(a + 1) % 3]));
    for (auto &e : ed) {
      double h1 = o.met.d[e[0]], h2 = o.met.d[e[1]], l = norm(o.m.v[e[0]].c - o.m.v[e[1]].c);
      double over = (std::fabs(h1 - h2) - lg * l) / (std::min(h1, h2));
      r.cnt["check:gradation"]++;
      r.cnt["max:gradation-excess"] = std::max(r.cnt["max:gradation-excess"], over);
      if (over > 1e-6) { r.viol(K + ":gradation", strf("edge of length %g: sizes %.9g and %.9g (allowed difference %.9g) ", l, h1, h2, lg * l) + r.sample); return; }
    }
  }
  // flat domain, scalar sizes: the map is exactly the truncated request, graded along the edges
  bool flat = info.geo.flat && !j.has("angle") && !j.has("nreg") && !req && j.lpar.empty() && !aniso && !hs;
  std::vector<double> want;
  if (flat && !j.met.empty()) for (int i = 0; i < np; i++) want.push_back(std::max(hmin, std::min(hmax, j.met.d[id[i]])));
  else if (flat && j.met.empty() && !j.has("optim") && j.has("hmax")) want.assign(np, hmax);
  std::set<E2> ed;
  for (auto &t : o.m.tet) for (auto &e : TETEDGE) ed.insert(se(t.v[e[0]], t.v[e[1]]));
  if (k != K3D) for (auto &t : o.m.tri) for (int a = 0; a < 3; a++) ed.insert(se(t.v[a], t.v[(a + 1) % 3]));
  if (want.size()) {
    if (hg > 0) {
      bool ch = true;
      while (ch) { ch = false; for (auto &e : ed) { double w = std::log(hg) * norm(o.m.v[e[0]].c - o.m.v[e[1]].c); for (int z = 0; z < 2; z++) if (want[e[z]] > want[e[1 - z]] + w + 1e-14) { want[e[z]] = want[e[1 - z]] + w; ch = true; } } }
    }
    for (int i = 0; i < np; i++) {
      double e = o.met.d[i] / want[i];
      r.cnt["check:exact"]++;
      r.cnt["max:exact-" + K] = std::max(r.cnt["max:exact-" + K], e);
      r.cnt["min:exact-" + K] = std::min(r.cnt.count("min:exact-" + K) ? r.cnt["min:exact-" + K] : 1, e);
      if (e < 1 - T || e > 1 + T) { r.viol(K + ":unexpected-size", strf("vertex %d size %.9g instead of %.9g ", i, o.met.d[i], want[i]) + r.sample); return; }
    }
  }
  // sizes deduced from the mesh: between the shortest and the longest edge at the vertex
  if (j.has("optim") && flat && hg < 0) {
    std::vector<double> mn(np, 1e300), mx(np, 0);
    for (auto &e : ed) { double l = norm(o.m.v[e[0]].c - o.m.v[e[1]].c); for (int v : e) { mn[v] = std::min(mn[v], l); mx[v] = std::max(mx[v], l); } }
    for (int i = 0; i < np; i++) {
      r.cnt["check:optim"]++;
      double a = std::max(hmin, std::min(hmax, mn[i])), b = std::max(hmin, std::min(hmax, mx[i]));
      if (o.met.d[i] < a * (1 - T) || o.met.d[i] > b * (1 + T)) { r.viol(K + ":optim-size", strf("vertex %d size %.9g, its edges have lengths %.9g..%.9g ", i, o.met.d[i], mn[i], mx[i]) + r.sample); return; }
    }
  }
}
// A small size that spreads over many layers of elements in random numbering.
static Job deepJob(Rng &g, Kind k, JobInfo &info) {
  Job j; j.in.kind = k; Msh &m = j.in;
  int n = k == K2D ? g.range(15, 36) : k == KS ? g.range(8, 18) : g.range(5, 9);
  std::map<F3, int> id;
  auto P = [&](int x, int y, int z) { auto it = id.find(F3{x, y, z}); if (it != id.end()) return it->second; m.v.push_back(Vtx{{x / (double)n, y / (double)n, z / (double)n}}); return id[F3{x, y, z}] = (int)m.v.size() - 1; };
  auto quad = [&](int a, int b, int c, int d) { bool f = g.chance(.5); m.tri.push_back(Tri{f ? F3{a, b, c} : F3{a, b, d}, 1}); m.tri.push_back(Tri{f ? F3{a, c, d} : F3{b, c, d}, 1}); };
  if (k == K2D) for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) quad(P(x, y, 0), P(x + 1, y, 0), P(x + 1, y + 1, 0), P(x, y + 1, 0));
  else if (k == KS) {
    for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      auto Q = [&](int u, int v) { int q[3]; q[d] = s * n; q[(d + 1) % 3] = u; q[(d + 2) % 3] = v; return P(q[0], q[1], q[2]); };
      int p0 = Q(a, b), p1 = Q(a + 1, b), p2 = Q(a + 1, b + 1), p3 = Q(a, b + 1); if (!s) std::swap(p1, p3);
      quad(p0, p1, p2, p3); }
  } else for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) {
    F3 o{0, 1, 2};
    do { int c[3] = {x, y, z}; Tet t; t.ref = 1; t.v[0] = P(x, y, z); for (int s = 0; s < 3; s++) { c[o[s]]++; t.v[s + 1] = P(c[0], c[1], c[2]); }
      int inv = (o[0] > o[1]) + (o[0] > o[2]) + (o[1] > o[2]); if (inv & 1) std::swap(t.v[2], t.v[3]); m.tet.push_back(t); } while (std::next_permutation(o.begin(), o.end()));
  }
  finishGeo(m, info.geo); info.geo.flat = true;
  renumber(m, g);
  for (size_t i = m.tri.size(); i > 1; i--) std::swap(m.tri[i - 1], m.tri[g.below(i)]);
  for (size_t i = m.tet.size(); i > 1; i--) std::swap(m.tet[i - 1], m.tet[g.below(i)]);
  double h = 1. / n, small = h * g.uni(.05, .5), big = g.chance(.5) ? 3 : h * g.uni(4, 12);
  j.met.size = 1; j.met.d.assign(m.v.size(), big); j.metType = 1;
  int ns = g.range(1, 3);
  for (int i = 0; i < ns; i++) j.met.d[g.below(m.v.size())] = small * g.uni(1, 2);
  if (g.chance(.5)) for (size_t i = 0; i < m.v.size(); i++) if (m.v[i].c[0] + m.v[i].c[1] + m.v[i].c[2] < .01) j.met.d[i] = small;
  j.set("hgrad", g.uni(1.03, 1.4)); j.set("hmin", small * .5); j.set("hmax", 4);
  return j;
}
static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 606);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  bool deep = g.chance(.12);
  JobCfg cf; JobInfo info;
  cf.mode = M_REMESH; cf.weird = true; cf.opts = false;
  cf.gen.nonmanifold = false;
  cf.lpar = g.chance(.5);
  cf.req = g.chance(.25);
  bool ls = g.chance(.12);
  if (ls) cf.mode = M_LS;
  Job j = deep ? deepJob(g, k, info) : genJob(g, k, cf, info);
  if (deep) { ls = false; r.cnt["deep-gradation"] = 1; }
  for (size_t i = 0; i < j.opts.size();) { auto &s = j.opts[i].name; if (s == "nsd" || s == "xreg" || s == "xregval" || s == "optimLES") j.opts.erase(j.opts.begin() + i); else i++; }
  bool frozen = !ls && (g.chance(.8) || deep);
  if (frozen) { j.set("noinsert", 1); j.set("noswap", 1); j.set("nomove", 1); for (size_t i = 0; i < j.in.v.size(); i++) j.in.v[i].ref = i + 1; }
  double h0 = info.geo.h0;
  // prescribed sizes often violate the bounds
  if (!deep && g.chance(.5) && !j.has("hsiz")) { double a = h0 * g.uni(.3, .9); j.set("hmin", a); j.set("hmax", a * g.uni(1.2, 3)); }
  int d = j.in.dim();
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  Out o;
  bool apiBad = false;
  {
    Mmg w(k);
    if (w.setup(j)) {
      o.setupOk = true;
      o.ret = w.run(j);
      if (o.ret == MMG5_SUCCESS || o.ret == MMG5_LOWFAILURE) {
        o.got = w.getMesh(o.m) && w.getSol(w.met, o.met);
        // tensors at ridge vertices are kept in a compact form that only the file writer expands:
        // read them back from the file
        if (o.got && o.met.size == 6) {
          std::string f = c.scratch + "/m.sol";
          int rc = k == K3D ? MMG3D_saveSol(w.mesh, w.met, f.c_str()) : MMGS_saveSol(w.mesh, w.met, f.c_str());
          std::vector<double> d;
          if (rc == 1 && readSol(f, d, o.met.d.size())) {
            for (size_t i = 0; i < d.size(); i++) if (std::fabs(d[i] - o.met.d[i]) > 1e-9 * (std::fabs(d[i]) + std::fabs(o.met.d[i]))) apiBad = true;
            o.met.d = d;
          } else { r.viol("metric-file", f + " " + r.sample); return; }
        }
      }
    }
    o.err = w.err;
    w.freeAll();
  }
  if (!o.setupOk) { r.viol("setup-refused", o.err + " " + r.sample); return; }
  r.cnt["runs"] = 1;
  if (o.ret != MMG5_SUCCESS) r.cnt["failed"] = 1;
  if (o.ret == MMG5_STRONGFAILURE) return;
  if (!o.got) { r.viol("getters-failed", o.err + " " + r.sample); return; }
  std::string K = KNAME[k];
  if (o.met.empty()) {
    if (ls && !j.passMetInLs) return;
    r.viol(K + ":no-metric", r.sample); return;
  }
  int np = o.m.v.size(), sz = o.met.size;
  if ((int)o.met.d.size() != np * sz) { r.viol(K + ":metric-size", strf("%d values for %d vertices ", (int)o.met.d.size() / sz, np) + r.sample); return; }
  bool aniso = sz > 1;
  r.cnt[aniso ? "tensor-maps" : "scalar-maps"] = 1;
  bool req = j.has("nosurf");
  for (auto &v : j.in.v) req |= v.req;
  for (auto &e : j.in.edg) req |= e.req;
  for (auto &t : j.in.tri) req |= t.req;
  for (auto &t : j.in.tet) req |= t.req;
  bool free_ = !req || j.has("nosizreq");
  double hmin = j.get("hmin", 0), hmax = j.get("hmax", 1e300);
  bool hs = j.has("hsiz");
  double lo = hmin, hi = hmax;
  for (auto &p : j.lpar) { lo = std::min(lo, p.hmin); hi = std::max(hi, p.hmax); }
  const double T = 1e-6;
  std::vector<double> hs_min(np), hs_max(np);
  for (int i = 0; i < np; i++) {
    const double *m = &o.met.d[(size_t)i * sz];
    for (int a = 0; a < sz; a++) if (!std::isfinite(m[a])) { r.viol(K + ":non-finite-size", strf("vertex %d ", i) + r.sample); return; }
    if (!aniso) { hs_min[i] = hs_max[i] = m[0]; if (!(m[0] > 0)) { r.viol(K + ":non-positive-size", strf("vertex %d size %g ", i, m[0]) + r.sample); return; } }
    else {
      Eig e = eigT(m, d);
      double a = 1e300, b = -1e300;
      for (int l = 0; l < d; l++) { a = std::min(a, e.l[l]); b = std::max(b, e.l[l]); }
      if (!(a > 0)) { r.viol(K + ":non-definite-tensor", strf("vertex %d smallest eigenvalue %g ", i, a) + r.sample); return; }
      hs_min[i] = 1 / std::sqrt(b); hs_max[i] = 1 / std::sqrt(a);
    }
    if (!j.has("hmin") && hs_max[i] > 10 * info.geo.L) { r.viol(K + ":huge-size", strf("vertex %d size %g, domain %g ", i, hs_max[i], info.geo.L) + r.sample); return; }
    if (free_ && !hs) {
      double T = aniso ? .4 : 1e-6, T0 = aniso ? .5 : 1e-6;
      if (hs_min[i] < lo * (1 - T0)) { r.viol(K + ":below-hmin", strf("vertex %d size %.9g < %.9g ", i, hs_min[i], lo) + r.sample); return; }
      if (hs_max[i] > hi * (1 + T)) { r.viol(K + ":above-hmax", strf("vertex %d size %.9g > %.9g ", i, hs_max[i], hi) + r.sample); return; }
      r.cnt["check:bounds"]++;
    }
    if (free_ && hs && j.lpar.empty()) {
      double h = j.get("hsiz", 0);
      if ((info.geo.flat && !j.has("angle") && !j.has("nreg") && !ls && hs_min[i] < h * (1 - T)) || hs_max[i] > h * (1 + T)) { r.viol(K + ":constant-size", strf("vertex %d sizes %.9g..%.9g instead of %.9g ", i, hs_min[i], hs_max[i], h) + r.sample); return; }
      r.cnt["check:constant"]++;
    }
  }
  r.nontrivial = true;
  if (apiBad) r.cnt["api-ridge-tensor-form"] = 1;
  if (frozen) frozenChecks(K, k, j, info, o, d, req, free_, lo, hi, hmin, hmax, hs, hs_min, hs_max, r);
  if (apiBad) r.viol(K + ":api-ridge-tensor-form", "the tensors that the getters return at ridge vertices are not the ones written to the file (internal compact form) " + r.sample);
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
