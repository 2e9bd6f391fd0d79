#include "jobgen.h"

Msh genPrismMesh(Rng &r, Geo &g) {
  // tetrahedral block [0,1]^2 x [0,zt] with a layer of prisms on top
  Msh m;
  m.kind = K3D;
  int n = r.range(2, 3), nl = r.range(1, 2), nz = r.range(1, 3);
  double h = 1. / n;
  int N = n + 1, NZ = nz + nl + 1;
  auto id = [&](int i, int j, int k) { return (k * N + j) * N + i; };
  for (int k = 0; k < NZ; k++) for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) { Vtx v; v.c = {i * h, j * h, k <= nz ? k * h : nz * h + (k - nz) * h * .4}; m.v.push_back(v); }
  static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int rt = r.range(0, 5), rp = rt + r.range(0, 3);
  for (int k = 0; k < nz; k++) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) for (auto &p : PERM) {
    Tet t;
    t.ref = rt;
    int b = 0, x = 1;
    auto cv = [&](int q) { return id(i + (q & 1), j + ((q >> 1) & 1), k + ((q >> 2) & 1)); };
    t.v[0] = cv(0);
    for (int d : p) { b |= 1 << d; t.v[x++] = cv(b); }
    if (tetvol(m, t) < 0) std::swap(t.v[2], t.v[3]);
    m.tet.push_back(t);
  }
  for (int k = nz; k < nz + nl; k++) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
    // Kuhn diagonal of the z-faces goes from (0,0) to (1,1)
    int a = id(i, j, k), b = id(i + 1, j, k), c = id(i + 1, j + 1, k), d = id(i, j + 1, k);
    int A = id(i, j, k + 1), B = id(i + 1, j, k + 1), C = id(i + 1, j + 1, k + 1), D = id(i, j + 1, k + 1);
    Pri p;
    p.ref = rp;
    p.v = {a, b, c, A, B, C}; m.pri.push_back(p);
    p.v = {a, c, d, A, C, D}; m.pri.push_back(p);
    if (r.chance(1)) {
      Qua q;
      q.ref = 3;
      if (j == 0) { q.v = {a, b, B, A}; m.qua.push_back(q); }
      if (j == n - 1) { q.v = {d, c, C, D}; m.qua.push_back(q); }
      if (i == 0) { q.v = {a, d, D, A}; m.qua.push_back(q); }
      if (i == n - 1) { q.v = {b, c, C, B}; m.qua.push_back(q); }
    }
  }
  g.flat = true;
  g.desc = strf("prism grid n=%d nz=%d layers=%d", n, nz, nl);
  finishGeo(m, g);
  return m;
}

Job genJob(Rng &r, Kind k, const JobCfg &c, JobInfo &info) {
  Job j;
  j.mode = c.mode >= 0 ? (Mode)c.mode : r.chance(.3) ? M_LS : M_REMESH;
  Geo &g = info.geo;
  GenCfg gc = c.gen;
  if (k == KS && j.mode == M_LS) gc.nonmanifold = false;
  if (c.prisms && k == K3D && j.mode == M_REMESH && r.chance(.1)) j.in = genPrismMesh(r, g);
  else j.in = genMesh(r, k, gc, g);
  j.desc = g.desc;
  double h0 = g.h0;
  int mk = r.below(7);
  double hsiz = h0 * r.uni(c.sizeLo, c.sizeHi);
  if (mk == 1) j.set("hsiz", hsiz);
  if (j.mode == M_REMESH) {
    if (mk == 2) j.met = genMetric(r, j.in, g, false, c.sizeLo, c.sizeHi);
    if (mk == 3 && c.aniso) j.met = genMetric(r, j.in, g, true, c.sizeLo, c.sizeHi);
    if (mk == 5 && c.aniso) { j.set("anisosize", 1); j.metType = MMG5_Tensor; }
    if (mk == 6) j.set("optim", 1);
  } else if (mk == 2) j.met = genMetric(r, j.in, g, false, c.sizeLo, c.sizeHi);
  if (mk == 4 || mk == 5 || r.chance(.2)) {
    // a constant size outside of [hmin,hmax] is refused by design
    if (r.chance(.7)) j.set("hmin", mk == 1 ? hsiz * r.uni(.2, .9) : h0 * r.uni(.15, .5));
    if (r.chance(.7)) j.set("hmax", mk == 1 ? hsiz * r.uni(1.1, 3) : h0 * r.uni(.7, 2));
  }
  if (j.mode == M_LS && !j.has("hmin") && mk != 1) j.set("hmin", h0 * r.uni(.15, .3));
  if (r.chance(.8)) j.set("hausd", g.L * std::exp(r.uni(std::log(.003), std::log(.1))));
  else j.set("hausd", .02 * g.L);
  if (r.chance(.3)) j.set("hgrad", r.chance(.3) ? -1 : r.uni(1.05, 2.5));
  if (r.chance(.15)) j.set("hgradreq", r.chance(.3) ? -1 : r.uni(1.1, 3));
  if (r.chance(.15)) j.set("ar", r.uni(20, 80));
  else if (r.chance(.05)) j.set("angle", 0);
  if (j.mode == M_LS) {
    std::string d;
    j.ls = genLs(r, j.in, g, info.lsKind, d);
    j.desc += " ls=" + d;
    j.passMetInLs = !j.met.empty() || r.chance(.5);
    // an input face lying in the zero set is refused by the surface mode
    if (c.surfls && r.chance(.2) && info.lsKind != 4) j.set("isosurf", 1);
    else j.set("iso", 1);
    if (r.chance(.3)) { double v = r.uni(-.05, .05) * g.L; j.set("ls", v); for (double &x : j.ls.d) x += v; }
    if (r.chance(.2)) j.set("isoref", r.range(1, 100));
    if (r.chance(.3)) j.set("rmc", r.chance(.5) ? 0 : r.uni(1e-5, .05));
    if (c.ls_multimat && r.chance(.3)) {
      std::set<int> refs;
      // one material per split entity: domains, or boundary pieces with isosurf
      bool surf = j.has("isosurf");
      if (surf && k == K3D) { for (auto &t : j.in.tri) refs.insert(t.ref); for (auto &t : j.in.tet) refs.insert(t.ref); refs.insert(0); }
      else if (surf) { for (auto &e : j.in.edg) refs.insert(e.ref); refs.insert(0); }
      else if (k == K3D) for (auto &t : j.in.tet) refs.insert(t.ref);
      else for (auto &t : j.in.tri) refs.insert(t.ref);
      int nx = 1000;
      for (int rf : refs) {
        Mat m;
        m.ref = rf;
        m.split = r.chance(.7);
        m.rin = nx++; m.rex = nx++;
        j.mats.push_back(m);
      }
    }
    if (k != KS && r.chance(.15)) { std::set<int> br; if (k == K3D) for (auto &t : j.in.tri) br.insert(t.ref); else for (auto &e : j.in.edg) br.insert(e.ref); for (int b : br) if (r.chance(.5)) j.br.push_back(b); if (j.br.size() && !j.has("rmc")) j.set("rmc", 0); }
  }
  if (c.opts) {
    if (r.chance(.15)) j.set("noinsert", 1);
    // without swaps, the slivers of a cut mesh may trigger endless refinement
    if (r.chance(.15) && (j.mode != M_LS || j.has("noinsert"))) j.set("noswap", 1);
    if (r.chance(.15)) j.set("nomove", 1);
    if (k != KS && r.chance(.12)) j.set("nosurf", 1);
    if (k == K3D && r.chance(.15)) j.set("opnbdy", 1);
    if (k == K2D && r.chance(.1)) j.set("opnbdy", 1);
  }
  if (c.weird) {
    if (r.chance(.1)) j.set("nreg", 1);
    if (r.chance(.1)) { j.set("xreg", 1); if (r.chance(.5)) j.set("xregval", r.uni(.1, .9)); }
    if (k != KS && r.chance(.1)) j.set("nofem", 1);
    if (k == K3D && r.chance(.08) && j.mode == M_REMESH && j.met.empty() && !j.has("anisosize")) j.set("optimLES", 1);
    if (k != K2D && r.chance(.15)) j.set("renum", r.below(2));
    if (r.chance(.1)) j.set("nosizreq", 1);
    if (k == KS && j.mode == M_LS && j.mats.empty() && r.chance(.1)) j.set("keepRef", 1);
    if (k == K3D && r.chance(.1)) j.set("octree", r.range(1, 64));
    if (r.chance(.1)) {
      std::set<int> refs;
      if (k == K3D) for (auto &t : j.in.tet) refs.insert(t.ref); else for (auto &t : j.in.tri) refs.insert(t.ref);
      auto it = refs.begin();
      std::advance(it, r.below((int)refs.size()));
      if (*it > 0 && k != KS) j.set("nsd", *it);
    }
    if (r.chance(.1)) j.set("verbose", r.range(-1, 6));
    if (r.chance(.05)) j.set("mem", r.range(200, 2000));
  }
  if (c.req && r.chance(.4)) {
    double p = r.pick(std::vector<double>{.02, .1, .3, 1});
    genAttributes(r, j.in, r.chance(.5) ? p : 0, r.chance(.5) ? p : 0, r.chance(.4) ? p : 0, r.chance(.3) ? p : 0);
    if (r.chance(.3)) for (auto &v : j.in.v) if (r.chance(p * .5)) v.corner = true;
  }
  if (c.lpar && r.chance(.25)) {
    int n = r.range(1, 2);
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < n; i++) {
      LocPar p;
      bool tet = k == K3D && r.chance(.5);
      bool edg = k == K2D && r.chance(.5);
      p.typ = tet ? MMG5_Tetrahedron : edg ? MMG5_Edg : MMG5_Triangle;
      if (tet) p.ref = j.in.tet[r.below((int)j.in.tet.size())].ref;
      else if (edg) p.ref = j.in.edg.empty() ? 0 : j.in.edg[r.below((int)j.in.edg.size())].ref;
      else p.ref = j.in.tri.empty() ? 0 : j.in.tri[r.below((int)j.in.tri.size())].ref;
      if (!seen.insert({p.typ, p.ref}).second) continue;
      p.hmin = h0 * r.uni(.2, .4);
      p.hmax = h0 * r.uni(.5, 1.2);
      p.hausd = g.L * r.uni(.005, .05);
      j.lpar.push_back(p);
    }
  }
  j.arrays = r.chance(.5);
  return j;
}
