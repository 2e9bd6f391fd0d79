// C09: saving and reloading reproduces the mesh and the solutions.
// Two monitors: (a) save by the library, load in fresh structures, compare with what the getters gave before saving;
// (b) files written by an independent writer (text with shuffled sections, binary in both byte orders, single and
// double precision), loaded by the library and compared with the model.  The Tetgen files are read back here.
#include "gen2d.h"
#include "zoo.h"

static int ncases(const std::string &t) { const char *q = getenv("C09_N"); int n = q ? atoi(q) : 420; return t == "thorough" ? 25 * n : n; }
struct Cmp { bool vref = true, vattr = true, eattr = true, edges = true, tria = true; double rel = 0; };
static bool same(double a, double b, double rel) { return a == b || std::fabs(a - b) <= rel * std::fabs(a); }
static std::string cmpMsh(const Msh &a, const Msh &b, const Cmp &c, std::string &key) {
#define CNT(f, n) if (a.f.size() != b.f.size()) { key = "count-" n; return strf("%zu " n " saved, %zu loaded", a.f.size(), b.f.size()); }
  CNT(v, "vertices") CNT(tet, "tetrahedra") CNT(pri, "prisms") CNT(tri, "triangles") CNT(qua, "quadrilaterals") CNT(edg, "edges")
  for (size_t i = 0; i < a.v.size(); i++) {
    for (int d = 0; d < a.dim(); d++) if (!same(a.v[i].c[d], b.v[i].c[d], c.rel)) { key = "coordinates"; return strf("vertex %zu coordinate %d: %.17g then %.17g", i + 1, d, a.v[i].c[d], b.v[i].c[d]); }
    if (c.vref && a.v[i].ref != b.v[i].ref) { key = "vertex-reference"; return strf("vertex %zu: reference %d then %d", i + 1, a.v[i].ref, b.v[i].ref); }
    if (c.vattr && a.v[i].corner != b.v[i].corner) { key = "corner"; return strf("vertex %zu: corner %d then %d", i + 1, a.v[i].corner, b.v[i].corner); }
    if (c.vattr && a.v[i].req != b.v[i].req) { key = "required-vertex"; return strf("vertex %zu: required %d then %d", i + 1, a.v[i].req, b.v[i].req); }
  }
#define ELT(f, n) for (size_t i = 0; i < a.f.size(); i++) { \
    if (a.f[i].v != b.f[i].v) { key = n "-vertices"; return strf(n " %zu: other vertices", i + 1); } \
    if (a.f[i].ref != b.f[i].ref) { key = n "-reference"; return strf(n " %zu: reference %d then %d", i + 1, a.f[i].ref, b.f[i].ref); } \
    if (c.eattr && a.f[i].req != b.f[i].req) { key = "required-" n; return strf(n " %zu: required %d then %d", i + 1, a.f[i].req, b.f[i].req); } }
  ELT(tet, "tetrahedron") ELT(pri, "prism") ELT(tri, "triangle") ELT(qua, "quadrilateral")
  for (size_t i = 0; i < a.edg.size(); i++) {
    const Edg &x = a.edg[i], &y = b.edg[i];
    if (x.a != y.a || x.b != y.b) { key = "edge-vertices"; return strf("edge %zu: %d %d then %d %d", i + 1, x.a, x.b, y.a, y.b); }
    if (x.ref != y.ref) { key = "edge-reference"; return strf("edge %zu: reference %d then %d", i + 1, x.ref, y.ref); }
    if (c.eattr && a.kind != K2D && x.ridge != y.ridge) { key = "ridge"; return strf("edge %zu: ridge %d then %d", i + 1, x.ridge, y.ridge); }
    if (c.eattr && x.req != y.req) { key = "required-edge"; return strf("edge %zu: required %d then %d", i + 1, x.req, y.req); }
  }
  return "";
}
static std::string cmpSol(const Sol &a, const Sol &b, double rel, std::string &key) {
  if (a.size != b.size) { key = "solution-type"; return strf("%d values per vertex saved, %d loaded", a.size, b.size); }
  if (a.d.size() != b.d.size()) { key = "solution-count"; return strf("%zu values saved, %zu loaded", a.d.size(), b.d.size()); }
  for (size_t i = 0; i < a.d.size(); i++) if (!same(a.d[i], b.d[i], rel)) { key = "solution-value"; return strf("value %zu of vertex %zu: %.17g then %.17g", i % a.size, i / a.size + 1, a.d[i], b.d[i]); }
  return "";
}
static double rnd(Rng &g, bool wide) { double x = g.uni(-1, 1); if (wide) x *= std::pow(10., g.uni(-12, 12)); if (g.chance(.03)) x = (double)g.range(-5, 5); return x; }

// ---------------------------------------------------------------- independent Medit writer
struct Wr {
  FILE *f; bool bin, swap; int ver; long hdr = 0;
  void i4(int x) { unsigned u = (unsigned)x; if (swap) u = __builtin_bswap32(u); fwrite(&u, 4, 1, f); }
  void sec(const char *name, int code, int n, long bytes) {
    if (!bin) { fprintf(f, "\n%s\n", name); if (n >= 0) fprintf(f, "%d\n", n); return; }
    i4(code); long pos = ftell(f) + 4 + (n >= 0 ? 4 : 0) + bytes; i4((int)pos); if (n >= 0) i4(n);
  }
  void I(int x, bool eol = false) { if (bin) i4(x); else fprintf(f, eol ? "%d\n" : "%d ", x); }
  void R(double x) {
    if (!bin) { fprintf(f, ver == 1 ? "%.9g " : "%.17g ", ver == 1 ? (double)(float)x : x); return; }
    if (ver == 1) { float y = (float)x; unsigned u; memcpy(&u, &y, 4); i4((int)u); return; }
    uint64_t u; memcpy(&u, &x, 8); if (swap) u = __builtin_bswap64(u); fwrite(&u, 8, 1, f);
  }
  long rs() const { return ver == 1 ? 4 : 8; }
};
static void open_(Wr &w, const std::string &p, int dim) {
  w.f = fopen(p.c_str(), "wb");
  if (w.bin) { w.i4(1); w.i4(w.ver); w.i4(3); w.i4(20); w.i4(dim); }
  else fprintf(w.f, "MeshVersionFormatted %d\nDimension%s%d\n", w.ver, dim == 2 ? " " : "\n", dim);
}
static void close_(Wr &w) { if (w.bin) { w.i4(54); w.i4(0); } else fprintf(w.f, "\nEnd\n"); fclose(w.f); }
static void writeMedit(const Msh &m, const std::string &path, bool bin, bool swap, int ver, int fdim, Rng &g) {
  Wr w{nullptr, bin, swap, ver}; open_(w, path, fdim);
  std::vector<std::function<void()>> s;
  auto idx = [&](const char *nm, int code, std::vector<int> l) { if (l.empty()) return; for (int i = (int)l.size() - 1; i > 0; i--) std::swap(l[i], l[g.below(i + 1)]);
    s.push_back([=, &w] { w.sec(nm, code, (int)l.size(), 4L * l.size()); for (int q : l) w.I(q + 1, true); }); };
  auto sel = [](size_t n, std::function<bool(size_t)> p) { std::vector<int> l; for (size_t i = 0; i < n; i++) if (p(i)) l.push_back((int)i); return l; };
  s.push_back([&] { w.sec("Vertices", 4, (int)m.v.size(), (long)m.v.size() * (fdim * w.rs() + 4)); for (auto &v : m.v) { for (int d = 0; d < fdim; d++) w.R(d < m.dim() ? v.c[d] : 0.); w.I(v.ref, true); } });
  if (m.edg.size()) s.push_back([&] { w.sec("Edges", 5, (int)m.edg.size(), 12L * m.edg.size()); for (auto &e : m.edg) { w.I(e.a + 1); w.I(e.b + 1); w.I(e.ref, true); } });
#define SEC(fld, nm, code, nv) if (m.fld.size()) s.push_back([&] { w.sec(nm, code, (int)m.fld.size(), 4L * (nv + 1) * m.fld.size()); for (auto &t : m.fld) { for (int q : t.v) w.I(q + 1); w.I(t.ref, true); } });
  SEC(tri, "Triangles", 6, 3) SEC(qua, "Quadrilaterals", 7, 4) SEC(tet, "Tetrahedra", 8, 4) SEC(pri, "Prisms", 9, 6)
  idx("Corners", 13, sel(m.v.size(), [&](size_t i) { return m.v[i].corner; }));
  idx("RequiredVertices", 15, sel(m.v.size(), [&](size_t i) { return m.v[i].req; }));
  idx("Ridges", 14, sel(m.edg.size(), [&](size_t i) { return m.edg[i].ridge; }));
  idx("RequiredEdges", 16, sel(m.edg.size(), [&](size_t i) { return m.edg[i].req; }));
  idx("RequiredTriangles", 17, sel(m.tri.size(), [&](size_t i) { return m.tri[i].req; }));
  if (m.kind == K3D) idx("RequiredTetrahedra", 12, sel(m.tet.size(), [&](size_t i) { return m.tet[i].req; }));
  for (int i = (int)s.size() - 1; i > 0; i--) std::swap(s[i], s[g.below(i + 1)]);
  for (size_t i = 0; i < s.size(); i++) {
    if (!bin && g.chance(.3)) fprintf(w.f, "\n# comment line\n");
    s[i]();
    // sections the library does not know must be skipped
    if (bin && g.chance(.1)) { w.sec("", 91, 3, 12); w.i4(4); w.i4(5); w.i4(6); }
  }
  close_(w);
}
static void writeSol(const Msh &m, const std::vector<Sol> &ss, const std::string &path, bool bin, bool swap, int ver, int fdim) {
  Wr w{nullptr, bin, swap, ver}; open_(w, path, fdim);
  int per = 0; auto comp = [&](const Sol &s) { return fdim == m.dim() ? s.size : s.size == 1 ? 1 : s.size == 2 ? 3 : 6; };
  for (auto &s : ss) per += comp(s);
  w.sec("SolAtVertices", 62, (int)m.v.size(), 4L + 4L * ss.size() + w.rs() * per * (long)m.v.size());
  w.I((int)ss.size()); for (auto &s : ss) w.I(s.size == 1 ? 1 : s.size == m.dim() ? 2 : 3, &s == &ss.back());
  for (size_t i = 0; i < m.v.size(); i++) { for (auto &s : ss) { const double *p = &s.d[i * s.size];
      if (s.size == 6) { double t[6] = {p[0], p[1], p[3], p[2], p[4], p[5]}; for (double x : t) w.R(x); }
      else if (s.size == 3 && m.dim() == 2 && fdim == 3) { double t[6] = {p[0], p[1], p[2], 0, 0, 0}; for (double x : t) w.R(x); }
      else if (s.size == 2 && fdim == 3) { w.R(p[0]); w.R(p[1]); w.R(0); }
      else for (int q = 0; q < s.size; q++) w.R(p[q]); } if (!bin) fprintf(w.f, "\n"); }
  close_(w);
}

// ---------------------------------------------------------------- Tetgen reader
static bool tetgenCheck(const std::string &base, const Msh &m, std::string &d) {
  auto num = [&](const std::string &p, std::vector<double> &x) { FILE *f = fopen(p.c_str(), "r"); if (!f) return false; x.clear(); std::string s; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f);
    const char *q = s.c_str(); for (;;) { char *e; double v = strtod(q, &e); if (e == q) break; x.push_back(v); q = e; } return true; };
  std::vector<double> x;
  if (!num(base + ".node", x)) { d = "no .node file"; return false; }
  int dim = m.dim(); size_t np = m.v.size();
  if (x.size() < 4 || x[0] != (double)np || x[1] != dim) { d = strf("node header %g %g", x.size() ? x[0] : -1, x.size() > 1 ? x[1] : -1); return false; }
  size_t st = (size_t)(1 + dim + x[2] + x[3]);
  if (x.size() != 4 + np * st) { d = strf("node file: %zu numbers", x.size()); return false; }
  for (size_t i = 0; i < np; i++) { for (int q = 0; q < dim; q++) if (!same(m.v[i].c[q], x[4 + i * st + 1 + q], 1e-14)) { d = strf("node %zu: %.17g then %.17g", i + 1, m.v[i].c[q], x[4 + i * st + 1 + q]); return false; }
    if (x[4 + i * st + st - 1] != m.v[i].ref) { d = strf("node %zu reference", i + 1); return false; } }
  if (!num(base + ".ele", x)) { d = "no .ele file"; return false; }
  int nv = dim + 1; size_t ne = dim == 3 ? m.tet.size() : m.tri.size();
  if (x.size() < 3 || x[0] != (double)ne || x[1] != nv || x.size() != 3 + ne * (nv + 2)) { d = strf("ele file: %zu numbers for %zu elements", x.size(), ne); return false; }
  for (size_t i = 0; i < ne; i++) { for (int q = 0; q < nv; q++) { int w = dim == 3 ? m.tet[i].v[q] : m.tri[i].v[q]; if (x[3 + i * (nv + 2) + 1 + q] != w + 1) { d = strf("element %zu", i + 1); return false; } }
    if (x[3 + i * (nv + 2) + nv + 1] != (dim == 3 ? m.tet[i].ref : m.tri[i].ref)) { d = strf("element %zu reference", i + 1); return false; } }
  if (dim == 3) {
    if (!num(base + ".face", x)) { if (m.tri.empty()) return true; d = "no .face file"; return false; }
    if (x.size() < 2 || x[0] != (double)m.tri.size() || x.size() != 2 + m.tri.size() * 5) { d = strf("face file: %zu numbers for %zu faces", x.size(), m.tri.size()); return false; }
    for (size_t i = 0; i < m.tri.size(); i++) for (int q = 0; q < 4; q++) if (x[2 + 5 * i + 1 + q] != (q < 3 ? m.tri[i].v[q] + 1 : m.tri[i].ref)) { d = strf("face %zu", i + 1); return false; }
  }
  if (!num(base + ".edge", x)) { if (m.edg.empty()) return true; d = "no .edge file"; return false; }
  // the 2D writer also lists the internal edges, after the stored ones
  if (x.size() < 2 || x.size() != 2 + (size_t)x[0] * 4 || (dim == 3 ? x[0] != (double)m.edg.size() : x[0] < (double)m.edg.size())) { if (m.edg.empty() && x.size() <= 2) return true; d = strf("edge file: %zu numbers for %zu edges", x.size(), m.edg.size()); return false; }
  std::set<E2> te; for (auto &t : m.tri) for (int q = 0; q < 3; q++) te.insert(se(t.v[q], t.v[(q + 1) % 3]));
  for (size_t i = m.edg.size(); i < (size_t)x[0]; i++) if (!te.erase(se((int)x[2 + 4 * i + 1] - 1, (int)x[2 + 4 * i + 2] - 1))) { d = strf("edge %zu of the file is not an edge of the mesh, or is listed twice", i + 1); return false; }
  for (size_t i = 0; i < m.edg.size(); i++) if (x[2 + 4 * i + 1] != m.edg[i].a + 1 || x[2 + 4 * i + 2] != m.edg[i].b + 1 || x[2 + 4 * i + 3] != m.edg[i].ref) { d = strf("edge %zu", i + 1); return false; }
  return true;
}

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 909);
  Kind k = (Kind)(c.idx % 3);
  std::string kn = KNAME[k];
  bool afterRun = g.chance(.25);
  Mmg m(k);
  Msh in;
  Job j; JobInfo info;
  if (afterRun) {
    JobCfg cf; cf.gen.maxCells = 12; cf.prisms = true;
    j = genJob(g, k, cf, info);
    r.sample = "after " + describe(j);
    if (!m.setup(j)) { r.viol("setup-refused", m.err + r.sample); return; }
    int ret = m.run(j);
    if (ret == MMG5_STRONGFAILURE) { m.freeAll(); r.cnt["failed-runs"]++; return; }
  } else {
    GenCfg gc; gc.maxCells = g.chance(.2) ? 60 : 12; gc.maxScale = g.chance(.3) ? 1e9 : 100;
    Geo geo;
    in = (k == K3D && g.chance(.3)) ? genPrismMesh(g, geo) : genMesh(g, k, gc, geo);
    bool wide = g.chance(.3);
    // random shift: all digits of the coordinates matter
    if (g.chance(.5)) { V3 sh = {rnd(g, false), rnd(g, false), k == K2D ? 0. : rnd(g, false)}; double L = bboxsize(in); for (auto &v : in.v) v.c = v.c + L * sh; }
    genAttributes(g, in, .2, .2, .2, .2);
    int np = (int)in.v.size();
    int mx = g.chance(.2) ? 2000000000 : g.chance(.5) ? 20 : 3;
    for (auto &v : in.v) { v.ref = g.below(mx); if (g.chance(.1)) v.corner = true; }
    for (auto &t : in.tet) t.ref = g.below(mx);
    for (auto &t : in.pri) t.ref = g.below(mx);
    for (auto &t : in.tri) { t.ref = g.below(mx); if (g.chance(.1)) t.req = true; }
    if (k == K2D && g.chance(.3)) { int n = g.range(1, 10); for (int i = 0; i < n; i++) { Qua q; int a = g.below(np - 3); q.v = {a, a + 1, a + 2, a + 3}; in.qua.push_back(q); } }
    for (auto &t : in.qua) t.ref = g.below(mx);
    if (g.chance(.8)) {
      std::set<E2> have; for (auto &e : in.edg) have.insert(se(e.a, e.b));
      for (auto &t : in.tri) for (int q = 0; q < 3; q++) if (g.chance(.1) && have.insert(se(t.v[q], t.v[(q + 1) % 3])).second) { Edg e{t.v[q], t.v[(q + 1) % 3]}; e.ref = g.below(mx); in.edg.push_back(e); }
    }
    for (auto &e : in.edg) { e.ref = g.below(mx); if (g.chance(.2)) e.req = true; if (k != K2D && g.chance(.2)) e.ridge = true; }
    if (g.chance(.15)) { for (auto &v : in.v) v.corner = false; }
    if (g.chance(.15)) { for (auto &v : in.v) v.req = false; }
    if (g.chance(.15)) in.edg.clear();
    if (g.chance(.15)) for (auto &e : in.edg) e.req = e.ridge = false;
    if (g.chance(.1) && k == K3D && in.pri.empty()) in.tri.clear();
    r.sample = strf("%s api mesh np=%zu ne=%zu npr=%zu nt=%zu nq=%zu na=%zu refs<%d%s", kn.c_str(), in.v.size(), in.tet.size(), in.pri.size(), in.tri.size(), in.qua.size(), in.edg.size(), mx, wide ? " wide" : "");
    if (!m.init(false) || !m.setOpt("verbose", -1) || !m.setMesh(in, g.chance(.5))) { r.viol("setup-refused", m.err + r.sample); return; }
    if (g.chance(.8)) { Sol s; s.size = g.chance(.5) ? 1 : k == K2D ? 3 : 6; for (int i = 0; i < np * s.size; i++) s.d.push_back(rnd(g, wide)); if (!m.setMet(s, 0, np, g.chance(.5))) { r.viol("setup-refused", m.err + r.sample); return; } r.sample += strf(" sol=%d", s.size); }
  }
  Msh a; Sol sa, ref;
  m.getMesh(a, g.chance(.5)); m.getSol(m.met, sa, g.chance(.5));
  a.kind = k;
  r.nontrivial = true;
  int np = (int)a.v.size();
  auto fail = [&](const std::string &key, const std::string &what, const std::string &d) { r.viol(kn + ":" + what + ":" + key, d + " [" + what + "] " + r.sample); };
  // ---- (a) library writer + library reader
  static const char *const ext[] = {"mesh", "meshb", "msh", "mshb"};
  static const char *const dirs[] = {"", "d.mesh/", "with space/"};
  std::string dir = c.scratch + "/" + dirs[g.below(3)];
  { std::string q = "mkdir -p '" + dir + "'"; if (system(q.c_str())) return; }
  for (int e = 0; e < 4 && r.status == "ok"; e++) {
    bool gm = e >= 2, bin = e % 2;
    bool generic = g.chance(.3);
    std::string f = dir + "rt." + ext[e], s = dir + (bin ? "rt.solb" : "rt.sol"), what = strf("%s%s%s", ext[e], generic ? "-generic" : "", afterRun ? "-after-run" : "");
    MMG5_pSol met = !sa.empty() ? m.met : nullptr;
    int ok = generic ? ZBY(k, saveGenericMesh, m.mesh, m.met, f.c_str()) : gm ? ZBY(k, saveMshMesh, m.mesh, m.met, f.c_str()) : ZBY(k, saveMesh, m.mesh, f.c_str());
    if (ok != 1) { fail("save-failed", what, strf("returned %d", ok)); break; }
    if (!gm && met && ZBY(k, saveSol, m.mesh, met, s.c_str()) != 1) { fail("save-solution-failed", what, ""); break; }
    Mmg h(k);
    bool withLs = generic;
    h.init(withLs); h.setOpt("verbose", -1);
    // the generic loader puts the (scalar or tensor) data in the metric when one is given
    ok = generic ? ZBY(k, loadGenericMesh, h.mesh, h.met, h.ls, f.c_str()) : gm ? ZBY(k, loadMshMesh, h.mesh, h.met, f.c_str()) : ZBY(k, loadMesh, h.mesh, f.c_str());
    if (ok != 1) { fail("load-failed", what, strf("returned %d", ok)); h.freeAll(); break; }
    if (!gm && met) { int q = ZBY(k, loadSol, h.mesh, h.met, s.c_str()); if (q != 1) { fail("load-solution-failed", what, strf("returned %d", q)); h.freeAll(); break; } }
    Msh b; Sol sb; h.getMesh(b); b.kind = k; h.getSol(h.met, sb);
    if (generic && gm && sb.empty()) h.getSol(h.ls, sb);
    Cmp cc; cc.rel = bin ? 0 : 2e-15 * 5; if (gm) cc.vattr = cc.eattr = false;
    std::string key, d = cmpMsh(a, b, cc, key);
    bool compact = afterRun && sa.size == 6;   // the structure holds a compact form at ridges, the files the tensors
    if (d.empty() && met && !compact) d = cmpSol(sa, sb, cc.rel, key);
    if (d.empty() && met && compact) {
      if (ref.empty()) ref = sb; else d = cmpSol(ref, sb, 1e-13, key);
      if (sb.d.size() != sa.d.size()) { key = "solution-count"; d = "count"; }
    }
    r.cnt["round-trips"]++; r.cnt[std::string("round-trips:") + kn + ":" + ext[e]]++; r.cnt["entities-compared"] += a.v.size() + a.tet.size() + a.tri.size() + a.edg.size() + a.qua.size() + a.pri.size();
    r.cnt["solution-values-compared"] += sa.d.size();
    if (!d.empty()) fail(key, what, d);
    h.freeAll();
  }
  // ---- several fields
  if (r.status == "ok" && np) {
    int ns = g.range(1, 4);
    std::vector<int> ty; std::vector<Sol> ss;
    bool wide = g.chance(.3);
    for (int i = 0; i < ns; i++) { int t = g.range(1, 3); ty.push_back(t); Sol s; s.size = t == 1 ? 1 : t == 2 ? a.dim() : a.dim() == 2 ? 3 : 6; for (int q = 0; q < np * s.size; q++) s.d.push_back(rnd(g, wide)); ss.push_back(s); }
    MMG5_pSol sols = nullptr;
    if (ZBY(k, Set_solsAtVerticesSize, m.mesh, &sols, ns, np, ty.data()) != 1) { fail("setup-refused", "fields", "Set_solsAtVerticesSize"); }
    else {
      for (int i = 0; i < ns; i++) if (ZBY(k, Set_ithSols_inSolsAtVertices, sols, i + 1, ss[i].d.data()) != 1) fail("setup-refused", "fields", "Set_ithSols");
      for (int e = 0; e < 4 && r.status == "ok"; e++) {
        bool gm = e >= 2, bin = e % 2;
        std::string f = dir + "ms." + ext[e], s = dir + (bin ? "ms.solb" : "ms.sol"), what = strf("fields-%s", ext[e]);
        int ok = gm ? ZBY(k, saveMshMesh_and_allData, m.mesh, &sols, f.c_str()) : ZBY(k, saveAllSols, m.mesh, &sols, s.c_str());
        if (ok != 1) { fail("save-failed", what, strf("returned %d", ok)); break; }
        if (!gm) ZBY(k, saveMesh, m.mesh, f.c_str());
        Mmg h(k); h.init(false); h.setOpt("verbose", -1);
        MMG5_pSol ls = nullptr;
        ok = gm ? ZBY(k, loadMshMesh_and_allData, h.mesh, &ls, f.c_str()) : ZBY(k, loadMesh, h.mesh, f.c_str()) == 1 ? ZBY(k, loadAllSols, h.mesh, &ls, s.c_str()) : -7;
        if (ok != 1) { fail("load-failed", what, strf("returned %d", ok)); }
        else {
          int n2 = 0; MMG5_int np2 = 0; int ty2[MMG5_NSOLS_MAX];
          ZBY(k, Get_solsAtVerticesSize, h.mesh, &ls, &n2, &np2, ty2);
          if (n2 != ns || np2 != np) fail("fields-count", what, strf("%d fields of %d vertices saved, %d of %d loaded", ns, np, n2, (int)np2));
          for (int i = 0; i < ns && r.status == "ok"; i++) {
            // Gmsh knows full tensors only: they come back as full tensors (type 4), and again when saved back
            if (gm && ty[i] == 3 && ty2[i] == 4) {
              int D = a.dim(), fs = D * D; const double *mm = ls[i].m; std::string key;
              if (ls[i].size != fs) { fail("field-type", what, "full tensor of another size"); break; }
              for (int p = 0; p < np && r.status == "ok"; p++) for (int x = 0; x < D; x++) for (int y = 0; y < D; y++) {
                int u = std::min(x, y), w = std::max(x, y), q = D == 2 ? u + w : (u == 0 ? w : u == 1 ? 2 + w : 5);
                double ex = ss[i].d[p * ss[i].size + q], go = mm[(p + 1) * fs + x * D + y];
                if (!same(ex, go, bin ? 0 : 1e-14)) { fail("solution-value", what, strf("field %d of %d (full tensor) vertex %d: %.17g then %.17g", i + 1, ns, p + 1, ex, go)); break; }
              }
              r.cnt["full-tensor-fields"]++; continue;
            }
            if (ty2[i] != ty[i]) { fail("field-type", what, strf("field %d: type %d then %d", i + 1, ty[i], ty2[i])); break; }
            Sol b; b.size = ss[i].size; b.d.assign(ss[i].d.size(), 0.);
            ZBY(k, Get_ithSols_inSolsAtVertices, ls, i + 1, b.d.data());
            std::string key, d = cmpSol(ss[i], b, bin ? 0 : 1e-14, key);
            if (!d.empty()) fail(key, what, strf("field %d of %d (type %d): ", i + 1, ns, ty[i]) + d);
            r.cnt["field-values-compared"] += b.d.size(); r.cnt["fields"]++;
          }
          if (gm && r.status == "ok") {   // save back and reload: the same data
            std::string f2 = dir + "m2." + ext[e]; Mmg h2(k); h2.init(false); h2.setOpt("verbose", -1); MMG5_pSol l2 = nullptr;
            if (ZBY(k, saveMshMesh_and_allData, h.mesh, &ls, f2.c_str()) != 1) fail("save-failed", what, "second save");
            else if (ZBY(k, loadMshMesh_and_allData, h2.mesh, &l2, f2.c_str()) != 1) fail("load-failed", what, "second load");
            else for (int i = 0; i < ns && r.status == "ok"; i++) {
              if (l2[i].size != ls[i].size || l2[i].np != ls[i].np) { fail("field-type", what, "second save"); break; }
              for (int q = ls[i].size; q < ls[i].size * (np + 1); q++) if (!same(ls[i].m[q], l2[i].m[q], bin ? 0 : 1e-14)) { fail("solution-value", what, strf("second save: field %d: %.17g then %.17g", i + 1, ls[i].m[q], l2[i].m[q])); break; }
            }
            if (l2) ZBY(k, Free_allSols, h2.mesh, &l2);
            h2.freeAll();
          }
          if (gm && r.status == "ok") { Msh b; h.getMesh(b); b.kind = k; Cmp cc; cc.rel = bin ? 0 : 1e-14; cc.vattr = cc.eattr = false; std::string key, d = cmpMsh(a, b, cc, key); if (!d.empty()) fail(key, what, d); }
        }
        if (ls) ZBY(k, Free_allSols, h.mesh, &ls);
        h.freeAll();
      }
    }
    if (sols) ZBY(k, Free_allSols, m.mesh, &sols);
  }
  // ---- Tetgen files
  if (r.status == "ok" && k != KS && g.chance(.5)) {
    std::string f = dir + "tg.node", d;
    int ok = k == K3D ? MMG3D_saveTetgenMesh(m.mesh, f.c_str()) : MMG2D_saveTetgenMesh(m.mesh, f.c_str());
    if (ok != 1) fail("save-failed", "tetgen", strf("returned %d", ok));
    else if (!tetgenCheck(dir + "tg", a, d)) fail("content", "tetgen", d);
    r.cnt["tetgen-files"]++;
  }
  m.freeAll();
  // ---- (b) independent writer + library reader
  for (int rep = 0; rep < 2 && r.status == "ok"; rep++) {
    bool bin = g.chance(.6), swap = bin && g.chance(.5); int ver = g.chance(.3) ? 1 : 2; int fdim = k == K2D && !bin && g.chance(.3) ? 3 : a.dim();
    std::string f = dir + (bin ? "ow.meshb" : "ow.mesh"), s = dir + (bin ? "ow.solb" : "ow.sol"), what = strf("own-%s-v%d%s%s", bin ? (swap ? "binary-swapped" : "binary") : "text", ver, fdim != a.dim() ? "-dim3" : "", afterRun ? "-after-run" : "");
    Msh b0 = a; if (afterRun) b0.pri.size();
    for (auto &p : b0.pri) p.req = false;
    for (auto &q : b0.qua) q.req = false;
    writeMedit(b0, f, bin, swap, ver, fdim, g);
    std::vector<Sol> ss; int ns = g.range(1, 3);
    for (int i = 0; i < ns; i++) { Sol s1; int t = g.range(1, 3); s1.size = t == 1 ? 1 : t == 2 ? a.dim() : a.dim() == 2 ? 3 : 6; for (int q = 0; q < np * s1.size; q++) s1.d.push_back(rnd(g, ver != 1 && g.chance(.3))); ss.push_back(s1); }
    if (np) writeSol(b0, ss, s, bin, swap, ver, fdim);
    if (ver == 1) { for (auto &v : b0.v) for (double &x : v.c) x = (double)(float)x; for (auto &q : ss) for (double &x : q.d) x = (double)(float)x; }
    Mmg h(k); h.init(false); h.setOpt("verbose", -1);
    if (fdim != a.dim()) MMG2D_Set_iparameter(h.mesh, h.met, MMG2D_IPARAM_3dMedit, 2);
    int ok = ZBY(k, loadMesh, h.mesh, f.c_str());
    if (ok != 1) { fail("load-failed", what, strf("returned %d", ok)); h.freeAll(); break; }
    Msh b; h.getMesh(b); b.kind = k;
    for (auto &p : b.pri) p.req = false;
    for (auto &q : b.qua) q.req = false;
    Cmp cc; cc.rel = bin ? 0 : ver == 1 ? 2e-7 : 1e-15;
    std::string key, d = cmpMsh(b0, b, cc, key);
    if (!d.empty()) fail(key, what, d);
    r.cnt["own-files"]++; r.cnt["own-files:" + what]++;
    if (d.empty() && np) {
      MMG5_pSol ls = nullptr;
      ok = ZBY(k, loadAllSols, h.mesh, &ls, s.c_str());
      if (ok != 1) fail("load-solution-failed", what, strf("returned %d", ok));
      else for (int i = 0; i < ns && r.status == "ok"; i++) {
        Sol x; x.size = ss[i].size; x.d.assign(ss[i].d.size(), 0.);
        int n2 = 0; MMG5_int np2 = 0; int ty2[MMG5_NSOLS_MAX]; ZBY(k, Get_solsAtVerticesSize, h.mesh, &ls, &n2, &np2, ty2);
        if (n2 != ns || np2 != np) { fail("fields-count", what, strf("%d/%d", n2, ns)); break; }
        if (ty2[i] != (x.size == 1 ? 1 : x.size == a.dim() && !(x.size == 3 && ty2[i] == 3 && a.dim() == 2) ? 2 : 3)) { fail("field-type", what, strf("field %d type %d", i + 1, ty2[i])); break; }
        ZBY(k, Get_ithSols_inSolsAtVertices, ls, i + 1, x.d.data());
        d = cmpSol(ss[i], x, cc.rel, key);
        if (!d.empty()) fail(key, what, strf("field %d: ", i + 1) + d);
      }
      if (ls) ZBY(k, Free_allSols, h.mesh, &ls);
    }
    h.freeAll();
  }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
