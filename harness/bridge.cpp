// Bridge between the independent mesh model and the public Mmg APIs.
#include "vh.h"

struct OptDef { const char *name; bool isInt; int c3, cs, c2; };
#define I3(n) MMG3D_IPARAM_##n
#define IS(n) MMGS_IPARAM_##n
#define I2(n) MMG2D_IPARAM_##n
#define D3(n) MMG3D_DPARAM_##n
#define DS(n) MMGS_DPARAM_##n
#define D2(n) MMG2D_DPARAM_##n
static const OptDef OPTS[] = {
    {"verbose", true, I3(verbose), IS(verbose), I2(verbose)},
    {"mem", true, I3(mem), IS(mem), I2(mem)},
    {"debug", true, I3(debug), IS(debug), I2(debug)},
    {"angle", true, I3(angle), IS(angle), I2(angle)},
    {"iso", true, I3(iso), IS(iso), I2(iso)},
    {"isosurf", true, I3(isosurf), IS(isosurf), I2(isosurf)},
    {"isoref", true, I3(isoref), IS(isoref), I2(isoref)},
    {"nofem", true, I3(nofem), -1, I2(nofem)},
    {"opnbdy", true, I3(opnbdy), -1, I2(opnbdy)},
    {"optim", true, I3(optim), IS(optim), I2(optim)},
    {"optimLES", true, I3(optimLES), -1, -1},
    {"noinsert", true, I3(noinsert), IS(noinsert), I2(noinsert)},
    {"noswap", true, I3(noswap), IS(noswap), I2(noswap)},
    {"nomove", true, I3(nomove), IS(nomove), I2(nomove)},
    {"nosurf", true, I3(nosurf), -1, I2(nosurf)},
    {"nreg", true, I3(nreg), IS(nreg), I2(nreg)},
    {"xreg", true, I3(xreg), IS(xreg), I2(xreg)},
    {"nsd", true, I3(numsubdomain), IS(numsubdomain), I2(numsubdomain)},
    {"npar", true, I3(numberOfLocalParam), IS(numberOfLocalParam), I2(numberOfLocalParam)},
    {"nbr", true, I3(numberOfLSBaseReferences), IS(numberOfLSBaseReferences), I2(numberOfLSBaseReferences)},
    {"nmat", true, I3(numberOfMat), IS(numberOfMat), I2(numberOfMat)},
    {"renum", true, I3(renum), IS(renum), -1},
    {"anisosize", true, I3(anisosize), IS(anisosize), I2(anisosize)},
    {"octree", true, I3(octree), -1, -1},
    {"nosizreq", true, I3(nosizreq), IS(nosizreq), I2(nosizreq)},
    {"keepRef", true, -1, IS(keepRef), -1},
    {"ar", false, D3(angleDetection), DS(angleDetection), D2(angleDetection)},
    {"hmin", false, D3(hmin), DS(hmin), D2(hmin)},
    {"hmax", false, D3(hmax), DS(hmax), D2(hmax)},
    {"hsiz", false, D3(hsiz), DS(hsiz), D2(hsiz)},
    {"hausd", false, D3(hausd), DS(hausd), D2(hausd)},
    {"hgrad", false, D3(hgrad), DS(hgrad), D2(hgrad)},
    {"hgradreq", false, D3(hgradreq), DS(hgradreq), D2(hgradreq)},
    {"ls", false, D3(ls), DS(ls), D2(ls)},
    {"xregval", false, D3(xreg), DS(xreg), D2(xreg)},
    {"rmc", false, D3(rmc), DS(rmc), D2(rmc)},
};
static const OptDef *optDef(const std::string &n) {
  for (auto &o : OPTS) if (n == o.name) return &o;
  return nullptr;
}
bool optIsInt(const std::string &n) { auto o = optDef(n); return o && o->isInt; }
int optCode(Kind k, const std::string &n) {
  auto o = optDef(n);
  if (!o) return -1;
  return k == K3D ? o->c3 : k == KS ? o->cs : o->c2;
}

std::string describe(const Job &j) {
  std::string s = KNAME[j.in.kind];
  s += j.mode == M_LS ? " level-set" : j.mode == M_GEN ? " generation" : " remesh";
  s += " [" + j.desc + "]";
  s += strf(" np=%d ne=%d nt=%d na=%d", (int)j.in.v.size(), (int)j.in.tet.size(), (int)j.in.tri.size(), (int)j.in.edg.size());
  if (j.in.pri.size()) s += strf(" nprism=%d", (int)j.in.pri.size());
  if (j.in.qua.size()) s += strf(" nquad=%d", (int)j.in.qua.size());
  if (!j.met.empty()) s += j.met.size == 1 ? " met=scalar" : " met=tensor";
  for (auto &o : j.opts) s += strf(" -%s %g", o.name.c_str(), o.val);
  if (j.lpar.size()) s += strf(" localparams=%d", (int)j.lpar.size());
  if (j.mats.size()) s += strf(" mats=%d", (int)j.mats.size());
  if (j.br.size()) s += strf(" baserefs=%d", (int)j.br.size());
  return s;
}

#define CALL(x) do { if ((x) != 1) { err = strf("%s failed", #x); return false; } } while (0)
#define P3(f) MMG3D_##f
#define PS(f) MMGS_##f
#define P2(f) MMG2D_##f
#define BY(f, ...) (k == K3D ? P3(f)(__VA_ARGS__) : k == KS ? PS(f)(__VA_ARGS__) : P2(f)(__VA_ARGS__))

bool Mmg::init(bool withLs) {
  if (withLs) CALL(BY(Init_mesh, MMG5_ARG_start, MMG5_ARG_ppMesh, &mesh, MMG5_ARG_ppLs, &ls, MMG5_ARG_ppMet, &met, MMG5_ARG_end));
  else CALL(BY(Init_mesh, MMG5_ARG_start, MMG5_ARG_ppMesh, &mesh, MMG5_ARG_ppMet, &met, MMG5_ARG_end));
  return true;
}

bool Mmg::setOpt(const std::string &n, double v) {
  int c = optCode(k, n);
  if (c < 0) { err = "no option " + n; return false; }
  MMG5_pSol s = ls ? ls : met;
  if (optIsInt(n)) CALL(BY(Set_iparameter, mesh, s, c, (MMG5_int)v));
  else CALL(BY(Set_dparameter, mesh, s, c, v));
  return true;
}

bool Mmg::setMesh(const Msh &m, bool arrays) {
  MMG5_int np = m.v.size(), ne = m.tet.size(), npr = m.pri.size(), nt = m.tri.size(), nq = m.qua.size(), na = m.edg.size();
  if (k == K3D) CALL(MMG3D_Set_meshSize(mesh, np, ne, npr, nt, nq, na));
  else if (k == KS) CALL(MMGS_Set_meshSize(mesh, np, nt, na));
  else CALL(MMG2D_Set_meshSize(mesh, np, nt, nq, na));
  if (arrays) {
    std::vector<double> c; std::vector<MMG5_int> r, e;
    for (auto &v : m.v) { for (int q = 0; q < m.dim(); q++) c.push_back(v.c[q]); r.push_back(v.ref); }
    CALL(BY(Set_vertices, mesh, c.data(), r.data()));
    if (ne) {
      e.clear(); r.clear();
      for (auto &t : m.tet) { for (int q : t.v) e.push_back(q + 1); r.push_back(t.ref); }
      CALL(MMG3D_Set_tetrahedra(mesh, e.data(), r.data()));
    }
    if (npr) {
      e.clear(); r.clear();
      for (auto &t : m.pri) { for (int q : t.v) e.push_back(q + 1); r.push_back(t.ref); }
      CALL(MMG3D_Set_prisms(mesh, e.data(), r.data()));
    }
    if (nt) {
      e.clear(); r.clear();
      for (auto &t : m.tri) { for (int q : t.v) e.push_back(q + 1); r.push_back(t.ref); }
      CALL(BY(Set_triangles, mesh, e.data(), r.data()));
    }
    if (nq) {
      e.clear(); r.clear();
      for (auto &t : m.qua) { for (int q : t.v) e.push_back(q + 1); r.push_back(t.ref); }
      if (k == K3D) CALL(MMG3D_Set_quadrilaterals(mesh, e.data(), r.data()));
      else CALL(MMG2D_Set_quadrilaterals(mesh, e.data(), r.data()));
    }
    if (na) {
      e.clear(); r.clear();
      for (auto &t : m.edg) { e.push_back(t.a + 1); e.push_back(t.b + 1); r.push_back(t.ref); }
      CALL(BY(Set_edges, mesh, e.data(), r.data()));
    }
  } else {
    for (int i = 0; i < np; i++) {
      const Vtx &v = m.v[i];
      if (k == K2D) CALL(MMG2D_Set_vertex(mesh, v.c[0], v.c[1], v.ref, i + 1));
      else if (k == KS) CALL(MMGS_Set_vertex(mesh, v.c[0], v.c[1], v.c[2], v.ref, i + 1));
      else CALL(MMG3D_Set_vertex(mesh, v.c[0], v.c[1], v.c[2], v.ref, i + 1));
    }
    for (int i = 0; i < ne; i++) {
      auto &t = m.tet[i];
      CALL(MMG3D_Set_tetrahedron(mesh, t.v[0] + 1, t.v[1] + 1, t.v[2] + 1, t.v[3] + 1, t.ref, i + 1));
    }
    for (int i = 0; i < npr; i++) {
      auto &t = m.pri[i];
      CALL(MMG3D_Set_prism(mesh, t.v[0] + 1, t.v[1] + 1, t.v[2] + 1, t.v[3] + 1, t.v[4] + 1, t.v[5] + 1, t.ref, i + 1));
    }
    for (int i = 0; i < nt; i++) {
      auto &t = m.tri[i];
      CALL(BY(Set_triangle, mesh, t.v[0] + 1, t.v[1] + 1, t.v[2] + 1, t.ref, i + 1));
    }
    for (int i = 0; i < nq; i++) {
      auto &t = m.qua[i];
      if (k == K3D) CALL(MMG3D_Set_quadrilateral(mesh, t.v[0] + 1, t.v[1] + 1, t.v[2] + 1, t.v[3] + 1, t.ref, i + 1));
      else CALL(MMG2D_Set_quadrilateral(mesh, t.v[0] + 1, t.v[1] + 1, t.v[2] + 1, t.v[3] + 1, t.ref, i + 1));
    }
    for (int i = 0; i < na; i++) {
      auto &t = m.edg[i];
      CALL(BY(Set_edge, mesh, t.a + 1, t.b + 1, t.ref, i + 1));
    }
  }
  for (int i = 0; i < np; i++) {
    if (m.v[i].corner) CALL(BY(Set_corner, mesh, i + 1));
    if (m.v[i].req) CALL(BY(Set_requiredVertex, mesh, i + 1));
  }
  for (int i = 0; i < ne; i++) if (m.tet[i].req) CALL(MMG3D_Set_requiredTetrahedron(mesh, i + 1));
  for (int i = 0; i < nt; i++) if (m.tri[i].req) CALL(BY(Set_requiredTriangle, mesh, i + 1));
  for (int i = 0; i < na; i++) {
    if (m.edg[i].req) CALL(BY(Set_requiredEdge, mesh, i + 1));
    if (m.edg[i].ridge && k != K2D) { if (k == K3D) CALL(MMG3D_Set_ridge(mesh, i + 1)); else CALL(MMGS_Set_ridge(mesh, i + 1)); }
  }
  return true;
}

bool Mmg::setMet(const Sol &s, int metType, int np, bool arrays) {
  if (s.empty() && !metType) return true;
  int type = s.empty() ? metType : (s.size == 1 ? MMG5_Scalar : MMG5_Tensor);
  int nd = s.empty() ? 0 : (int)s.d.size() / s.size;
  (void)np;
  CALL(BY(Set_solSize, mesh, met, MMG5_Vertex, nd, type));
  std::vector<double> d = s.d;
  if (nd && arrays) {
    if (type == MMG5_Scalar) CALL(BY(Set_scalarSols, met, d.data()));
    else CALL(BY(Set_tensorSols, met, d.data()));
  } else for (int i = 0; i < nd; i++) {
    double *p = &d[i * s.size];
    if (type == MMG5_Scalar) CALL(BY(Set_scalarSol, met, p[0], i + 1));
    else if (k == K2D) CALL(MMG2D_Set_tensorSol(met, p[0], p[1], p[2], i + 1));
    else if (k == KS) CALL(MMGS_Set_tensorSol(met, p[0], p[1], p[2], p[3], p[4], p[5], i + 1));
    else CALL(MMG3D_Set_tensorSol(met, p[0], p[1], p[2], p[3], p[4], p[5], i + 1));
  }
  return true;
}

bool Mmg::setLs(const Sol &s, bool arrays) {
  if (s.empty()) return true;
  int nd = (int)s.d.size();
  CALL(BY(Set_solSize, mesh, ls, MMG5_Vertex, nd, MMG5_Scalar));
  std::vector<double> d = s.d;
  if (arrays) CALL(BY(Set_scalarSols, ls, d.data()));
  else for (int i = 0; i < nd; i++) CALL(BY(Set_scalarSol, ls, d[i], i + 1));
  return true;
}

bool Mmg::setup(const Job &j) {
  mode = j.mode;
  if (!init(j.mode == M_LS)) return false;
  bool verb = false;
  for (auto &o : j.opts) verb |= o.name == "verbose";
  if (!verb && !setOpt("verbose", -1)) return false;
  for (auto &o : j.opts) if (!setOpt(o.name, o.val)) return false;
  if (j.lpar.size()) {
    if (!setOpt("npar", j.lpar.size())) return false;
    MMG5_pSol s = ls ? ls : met;
    for (auto &p : j.lpar) CALL(BY(Set_localParameter, mesh, s, p.typ, p.ref, p.hmin, p.hmax, p.hausd));
  }
  if (j.mats.size()) {
    if (!setOpt("nmat", j.mats.size())) return false;
    MMG5_pSol s = ls ? ls : met;
    for (auto &p : j.mats) CALL(BY(Set_multiMat, mesh, s, p.ref, p.split, p.rin, p.rex));
  }
  if (j.br.size()) {
    if (!setOpt("nbr", j.br.size())) return false;
    MMG5_pSol s = ls ? ls : met;
    for (int b : j.br) CALL(BY(Set_lsBaseReference, mesh, s, b));
  }
  if (!setMesh(j.in, j.arrays)) return false;
  if (!setMet(j.met, j.metType, (int)j.in.v.size(), j.arrays)) return false;
  if (j.mode == M_LS && !setLs(j.ls, j.arrays)) return false;
  return true;
}

int Mmg::run(const Job &j) {
  if (j.mode == M_LS) {
    MMG5_pSol mt = j.passMetInLs ? met : nullptr;
    if (k == K3D) return MMG3D_mmg3dls(mesh, ls, mt);
    if (k == KS) return MMGS_mmgsls(mesh, ls, mt);
    return MMG2D_mmg2dls(mesh, ls, mt);
  }
  if (j.mode == M_GEN) return MMG2D_mmg2dmesh(mesh, met);
  if (k == K3D) return MMG3D_mmg3dlib(mesh, met);
  if (k == KS) return MMGS_mmgslib(mesh, met);
  return MMG2D_mmg2dlib(mesh, met);
}

bool Mmg::getMesh(Msh &o, bool arrays) {
  o = Msh();
  o.kind = k;
  MMG5_int np = 0, ne = 0, npr = 0, nt = 0, nq = 0, na = 0;
  if (k == K3D) CALL(MMG3D_Get_meshSize(mesh, &np, &ne, &npr, &nt, &nq, &na));
  else if (k == KS) CALL(MMGS_Get_meshSize(mesh, &np, &nt, &na));
  else CALL(MMG2D_Get_meshSize(mesh, &np, &nt, &nq, &na));
  o.v.resize(np); o.tet.resize(ne); o.pri.resize(npr); o.tri.resize(nt); o.qua.resize(nq); o.edg.resize(na);
  auto fx = [](MMG5_int a) { return (int)a - 1; };
  if (arrays) {
    int mx = std::max({np, ne, npr, nt, nq, na}) + 1;
    std::vector<double> c(3 * mx);
    std::vector<MMG5_int> e(6 * mx), r(mx);
    std::vector<int> f(mx), g(mx);
    CALL(BY(Get_vertices, mesh, c.data(), r.data(), f.data(), g.data()));
    int d = o.dim();
    for (int i = 0; i < np; i++) {
      o.v[i].c = {c[d * i], c[d * i + 1], d == 3 ? c[d * i + 2] : 0.};
      o.v[i].ref = r[i]; o.v[i].corner = f[i]; o.v[i].req = g[i];
    }
    if (ne) {
      CALL(MMG3D_Get_tetrahedra(mesh, e.data(), r.data(), f.data()));
      for (int i = 0; i < ne; i++) { for (int q = 0; q < 4; q++) o.tet[i].v[q] = fx(e[4 * i + q]); o.tet[i].ref = r[i]; o.tet[i].req = f[i]; }
    }
    if (npr) {
      CALL(MMG3D_Get_prisms(mesh, e.data(), r.data(), f.data()));
      for (int i = 0; i < npr; i++) { for (int q = 0; q < 6; q++) o.pri[i].v[q] = fx(e[6 * i + q]); o.pri[i].ref = r[i]; o.pri[i].req = f[i]; }
    }
    if (nt) {
      CALL(BY(Get_triangles, mesh, e.data(), r.data(), f.data()));
      for (int i = 0; i < nt; i++) { for (int q = 0; q < 3; q++) o.tri[i].v[q] = fx(e[3 * i + q]); o.tri[i].ref = r[i]; o.tri[i].req = f[i]; }
    }
    if (nq) {
      if (k == K3D) CALL(MMG3D_Get_quadrilaterals(mesh, e.data(), r.data(), f.data()));
      else CALL(MMG2D_Get_quadrilaterals(mesh, e.data(), r.data(), f.data()));
      for (int i = 0; i < nq; i++) { for (int q = 0; q < 4; q++) o.qua[i].v[q] = fx(e[4 * i + q]); o.qua[i].ref = r[i]; o.qua[i].req = f[i]; }
    }
    if (na) {
      CALL(BY(Get_edges, mesh, e.data(), r.data(), f.data(), g.data()));
      for (int i = 0; i < na; i++) { o.edg[i].a = fx(e[2 * i]); o.edg[i].b = fx(e[2 * i + 1]); o.edg[i].ref = r[i]; o.edg[i].ridge = f[i]; o.edg[i].req = g[i]; }
    }
    return true;
  }
  for (int i = 0; i < np; i++) {
    double c[3] = {0, 0, 0}; MMG5_int r = 0; int co = 0, rq = 0;
    if (k == K2D) CALL(MMG2D_Get_vertex(mesh, c, c + 1, &r, &co, &rq));
    else if (k == KS) CALL(MMGS_Get_vertex(mesh, c, c + 1, c + 2, &r, &co, &rq));
    else CALL(MMG3D_Get_vertex(mesh, c, c + 1, c + 2, &r, &co, &rq));
    o.v[i].c = {c[0], c[1], c[2]}; o.v[i].ref = r; o.v[i].corner = co; o.v[i].req = rq;
  }
  for (int i = 0; i < ne; i++) {
    MMG5_int v[4], r; int q;
    CALL(MMG3D_Get_tetrahedron(mesh, v, v + 1, v + 2, v + 3, &r, &q));
    for (int l = 0; l < 4; l++) o.tet[i].v[l] = fx(v[l]);
    o.tet[i].ref = r; o.tet[i].req = q;
  }
  for (int i = 0; i < npr; i++) {
    MMG5_int v[6], r; int q;
    CALL(MMG3D_Get_prism(mesh, v, v + 1, v + 2, v + 3, v + 4, v + 5, &r, &q));
    for (int l = 0; l < 6; l++) o.pri[i].v[l] = fx(v[l]);
    o.pri[i].ref = r; o.pri[i].req = q;
  }
  for (int i = 0; i < nt; i++) {
    MMG5_int v[3], r; int q;
    CALL(BY(Get_triangle, mesh, v, v + 1, v + 2, &r, &q));
    for (int l = 0; l < 3; l++) o.tri[i].v[l] = fx(v[l]);
    o.tri[i].ref = r; o.tri[i].req = q;
  }
  for (int i = 0; i < nq; i++) {
    MMG5_int v[4], r; int q;
    if (k == K3D) CALL(MMG3D_Get_quadrilateral(mesh, v, v + 1, v + 2, v + 3, &r, &q));
    else CALL(MMG2D_Get_quadrilateral(mesh, v, v + 1, v + 2, v + 3, &r, &q));
    for (int l = 0; l < 4; l++) o.qua[i].v[l] = fx(v[l]);
    o.qua[i].ref = r; o.qua[i].req = q;
  }
  for (int i = 0; i < na; i++) {
    MMG5_int v[2], r; int ri = 0, q = 0;
    CALL(BY(Get_edge, mesh, v, v + 1, &r, &ri, &q));
    o.edg[i].a = fx(v[0]); o.edg[i].b = fx(v[1]); o.edg[i].ref = r; o.edg[i].ridge = ri; o.edg[i].req = q;
  }
  return true;
}

bool Mmg::getSol(MMG5_pSol s, Sol &o, bool arrays) {
  o = Sol();
  if (!s || !s->m) return true;
  int te = 0, ts = 0; MMG5_int np = 0;
  CALL(BY(Get_solSize, mesh, s, &te, &np, &ts));
  if (!np) return true;
  o.size = ts == MMG5_Scalar ? 1 : ts == MMG5_Vector ? (k == K2D ? 2 : 3) : (k == K2D ? 3 : 6);
  o.d.assign((size_t)o.size * np, 0.);
  if (arrays) {
    if (ts == MMG5_Scalar) CALL(BY(Get_scalarSols, s, o.d.data()));
    else if (ts == MMG5_Vector) CALL(BY(Get_vectorSols, s, o.d.data()));
    else CALL(BY(Get_tensorSols, s, o.d.data()));
    return true;
  }
  for (int i = 0; i < np; i++) {
    double *p = &o.d[(size_t)i * o.size];
    if (ts == MMG5_Scalar) CALL(BY(Get_scalarSol, s, p));
    else if (ts == MMG5_Vector) {
      if (k == K2D) CALL(MMG2D_Get_vectorSol(s, p, p + 1));
      else if (k == KS) CALL(MMGS_Get_vectorSol(s, p, p + 1, p + 2));
      else CALL(MMG3D_Get_vectorSol(s, p, p + 1, p + 2));
    } else {
      if (k == K2D) CALL(MMG2D_Get_tensorSol(s, p, p + 1, p + 2));
      else if (k == KS) CALL(MMGS_Get_tensorSol(s, p, p + 1, p + 2, p + 3, p + 4, p + 5));
      else CALL(MMG3D_Get_tensorSol(s, p, p + 1, p + 2, p + 3, p + 4, p + 5));
    }
  }
  return true;
}

void Mmg::freeAll() {
  if (!mesh) return;
  if (ls) BY(Free_all, MMG5_ARG_start, MMG5_ARG_ppMesh, &mesh, MMG5_ARG_ppLs, &ls, MMG5_ARG_ppMet, &met, MMG5_ARG_end);
  else BY(Free_all, MMG5_ARG_start, MMG5_ARG_ppMesh, &mesh, MMG5_ARG_ppMet, &met, MMG5_ARG_end);
  mesh = nullptr; met = nullptr; ls = nullptr;
}

Out runJob(const Job &j) {
  Out o;
  Mmg g(j.in.kind);
  if (g.setup(j)) {
    o.setupOk = true;
    o.ret = g.run(j);
    if (o.ret == MMG5_SUCCESS || o.ret == MMG5_LOWFAILURE) {
      o.got = g.getMesh(o.m, j.arrays) && g.getSol(g.met, o.met, j.arrays);
      if (g.ls) o.got = o.got && g.getSol(g.ls, o.ls, j.arrays);
    }
  }
  o.err = g.err;
  g.freeAll();
  return o;
}
