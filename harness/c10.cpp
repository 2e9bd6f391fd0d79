// C10: random histories of API calls against a shadow model of the stored data.
#include "vh.h"
#include "zoo.h"
#include <map>
static int ncases(const std::string &t) { return t == "thorough" ? 12000 : 1500; }
typedef MMG5_int I;
enum { UNK = -1 };
struct Item { std::vector<I> v; I ref = 0; int req = UNK, rdg = UNK; bool set = false; };
struct Table {
  std::string name; int nv = 0; std::vector<Item> it; int cur = 0;
  std::function<int(const I *, I, I)> set;
  std::function<int(I *, I *)> setAll;
  std::function<int(I *, I *, int *, int *)> get;               // v, ref, req, ridge (sequential)
  std::function<int(I *, I *, int *, int *)> getAll;
  std::function<int(I)> setReq, unsetReq, setRdg, unsetRdg;
  std::function<int(I *, int)> setReqs, unsetReqs;
  bool hasReq = false, hasRdg = false, orient = false;
};
struct Pt { double c[3] = {0, 0, 0}; I ref = 0; int crn = UNK, req = UNK; double n[3] = {0, 0, 0}; bool hasN = false; };

static void fn(const Ctx &cx, Result &r) {
  Rng g(cx.seed, cx.idx, 1010);
  Kind k = (Kind)(int)(cx.idx % 3);
  Mmg m(k); m.init(false); m.setOpt("verbose", -1);
  MMG5_pMesh mesh = m.mesh; MMG5_pSol met = m.met;
  int dim = k == K2D ? 2 : 3;
  std::string trace; int nops = 0, nchk = 0;
  auto log = [&](const std::string &s) { trace += s + "; "; if (trace.size() > 1500) trace = "..." + trace.substr(trace.size() - 1200); };
  auto bad = [&](const std::string &key, const std::string &d) { r.viol(key, d + " | last calls: " + trace); };
  auto need = [&](int ret, int want, const std::string &what) { if (ret != want) bad("status:" + what, strf("returned %d instead of %d", ret, want)); };
  r.nontrivial = true;

  std::vector<Pt> P; std::vector<Table> T; int pcur = 0;
  int metType = 0; std::vector<std::vector<double>> S; std::vector<char> sset; int scur = 0;      // metric / solution
  std::vector<int> fldType; std::vector<std::vector<std::vector<double>>> F; MMG5_pSol fields = nullptr;
  bool bigRef = g.chance(.5);
  auto pos0 = [&](int n) { return (I)(1 + g.below(n)); };
  auto refv = [&]() { int w = g.below(10); return (I)(w == 0 ? 0 : w == 1 && bigRef ? 1000000000 + g.below(1000000) : w < 4 ? g.below(3) : g.below(60000)); };
  auto coord = [&]() { int w = g.below(12); return w == 0 ? 0. : w == 1 ? (double)(float)g.uni() : w == 2 ? g.uni(-1, 1) * 1e-3 : w == 3 ? g.uni(-1, 1) * 1e6 : g.uni(-1, 1); };
  auto val = [&]() { int w = g.below(10); return w == 0 ? 0. : w == 1 ? -g.uni() : w == 2 ? 1e-12 * g.uni() : w == 3 ? 1e12 * g.uni() : g.uni(); };

  // signed measure of an oriented entity (tetrahedra in 3D, triangles in 2D)
  auto measure = [&](const std::vector<I> &v, double *scale) {
    auto p = [&](int i) { return P[v[i] - 1].c; };
    double a[3], b[3], c[3] = {0, 0, 0}, l = 0;
    for (int i = 0; i < 3; i++) { a[i] = p(1)[i] - p(0)[i]; b[i] = p(2)[i] - p(0)[i]; if (dim == 3) c[i] = p(3)[i] - p(0)[i]; }
    auto nrm = [](double *x) { return std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); };
    l = dim == 3 ? nrm(a) * nrm(b) * nrm(c) : nrm(a) * nrm(b);
    *scale = l;
    return dim == 2 ? a[0] * b[1] - a[1] * b[0] : a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
  };
  auto draw = [&](Table &t, std::vector<I> &v, std::vector<I> &stored) {
    for (int tries = 0; tries < 200; tries++) {
      v.clear();
      while ((int)v.size() < t.nv) { I p = pos0((int)P.size()); if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p); }
      stored = v;
      if (!t.orient) return true;
      double sc, x = measure(v, &sc);
      if (!(std::fabs(x) > 1e-6 * sc) || std::fabs(x) < 1e-12) continue;
      if (x < 0) std::swap(stored[t.nv - 2], stored[t.nv - 1]);
      return true;
    }
    return false;
  };
  auto build = [&]() {
    int np = g.range(8, 40), ne = g.range(1, 30), npr = g.chance(.5) ? g.range(1, 8) : 0, nt = g.range(1, 30), nq = g.chance(.5) ? g.range(1, 8) : 0, na = g.range(1, 20);
    log(strf("Set_meshSize %d %d %d %d %d %d", np, ne, npr, nt, nq, na));
    T.clear(); P.assign(np, Pt()); pcur = 0;
    auto add = [&](const char *nm, int nv, int n) -> Table & { T.emplace_back(); Table &t = T.back(); t.name = nm; t.nv = nv; t.it.resize(n); return t; };
    T.reserve(8);
    if (k == K3D) {
      need(MMG3D_Set_meshSize(mesh, np, ne, npr, nt, nq, na), 1, "Set_meshSize");
      I a, b, c, d, e, f; need(MMG3D_Get_meshSize(mesh, &a, &b, &c, &d, &e, &f), 1, "Get_meshSize");
      if (a != np || b != ne || c != npr || d != nt || e != nq || f != na) bad("mesh-size", "sizes differ");
      { Table &t = add("tetrahedron", 4, ne); t.orient = true; t.hasReq = true;
        t.set = [=](const I *v, I rf, I p) { return MMG3D_Set_tetrahedron(mesh, v[0], v[1], v[2], v[3], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG3D_Set_tetrahedra(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_tetrahedron(mesh, v, v + 1, v + 2, v + 3, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_tetrahedra(mesh, v, rf, q); };
        t.setReq = [=](I p) { return MMG3D_Set_requiredTetrahedron(mesh, p); }; t.unsetReq = [=](I p) { return MMG3D_Unset_requiredTetrahedron(mesh, p); };
        t.setReqs = [=](I *p, int n) { return MMG3D_Set_requiredTetrahedra(mesh, p, n); }; t.unsetReqs = [=](I *p, int n) { return MMG3D_Unset_requiredTetrahedra(mesh, p, n); }; }
      if (npr) { Table &t = add("prism", 6, npr);
        t.set = [=](const I *v, I rf, I p) { return MMG3D_Set_prism(mesh, v[0], v[1], v[2], v[3], v[4], v[5], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG3D_Set_prisms(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_prism(mesh, v, v + 1, v + 2, v + 3, v + 4, v + 5, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_prisms(mesh, v, rf, q); }; }
      { Table &t = add("triangle", 3, nt); t.hasReq = true;
        t.set = [=](const I *v, I rf, I p) { return MMG3D_Set_triangle(mesh, v[0], v[1], v[2], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG3D_Set_triangles(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_triangle(mesh, v, v + 1, v + 2, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_triangles(mesh, v, rf, q); };
        t.setReq = [=](I p) { return MMG3D_Set_requiredTriangle(mesh, p); }; t.unsetReq = [=](I p) { return MMG3D_Unset_requiredTriangle(mesh, p); };
        t.setReqs = [=](I *p, int n) { return MMG3D_Set_requiredTriangles(mesh, p, n); }; t.unsetReqs = [=](I *p, int n) { return MMG3D_Unset_requiredTriangles(mesh, p, n); }; }
      if (nq) { Table &t = add("quadrilateral", 4, nq);
        t.set = [=](const I *v, I rf, I p) { return MMG3D_Set_quadrilateral(mesh, v[0], v[1], v[2], v[3], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG3D_Set_quadrilaterals(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_quadrilateral(mesh, v, v + 1, v + 2, v + 3, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMG3D_Get_quadrilaterals(mesh, v, rf, q); }; }
      { Table &t = add("edge", 2, na); t.hasReq = t.hasRdg = true;
        t.set = [=](const I *v, I rf, I p) { return MMG3D_Set_edge(mesh, v[0], v[1], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG3D_Set_edges(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *d) { return MMG3D_Get_edge(mesh, v, v + 1, rf, d, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *d) { return MMG3D_Get_edges(mesh, v, rf, d, q); };
        t.setReq = [=](I p) { return MMG3D_Set_requiredEdge(mesh, p); }; t.unsetReq = [=](I p) { return MMG3D_Unset_requiredEdge(mesh, p); };
        t.setRdg = [=](I p) { return MMG3D_Set_ridge(mesh, p); }; t.unsetRdg = [=](I p) { return MMG3D_Unset_ridge(mesh, p); }; }
    } else if (k == KS) {
      need(MMGS_Set_meshSize(mesh, np, nt, na), 1, "Set_meshSize");
      I a, d, f; need(MMGS_Get_meshSize(mesh, &a, &d, &f), 1, "Get_meshSize");
      if (a != np || d != nt || f != na) bad("mesh-size", "sizes differ");
      { Table &t = add("triangle", 3, nt); t.hasReq = true;
        t.set = [=](const I *v, I rf, I p) { return MMGS_Set_triangle(mesh, v[0], v[1], v[2], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMGS_Set_triangles(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMGS_Get_triangle(mesh, v, v + 1, v + 2, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMGS_Get_triangles(mesh, v, rf, q); };
        t.setReq = [=](I p) { return MMGS_Set_requiredTriangle(mesh, p); }; t.unsetReq = [=](I p) { return MMGS_Unset_requiredTriangle(mesh, p); }; }
      { Table &t = add("edge", 2, na); t.hasReq = t.hasRdg = true;
        t.set = [=](const I *v, I rf, I p) { return MMGS_Set_edge(mesh, v[0], v[1], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMGS_Set_edges(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *d) { return MMGS_Get_edge(mesh, v, v + 1, rf, d, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *d) { return MMGS_Get_edges(mesh, v, rf, d, q); };
        t.setReq = [=](I p) { return MMGS_Set_requiredEdge(mesh, p); }; t.unsetReq = [=](I p) { return MMGS_Unset_requiredEdge(mesh, p); };
        t.setRdg = [=](I p) { return MMGS_Set_ridge(mesh, p); }; t.unsetRdg = [=](I p) { return MMGS_Unset_ridge(mesh, p); }; }
    } else {
      need(MMG2D_Set_meshSize(mesh, np, nt, nq, na), 1, "Set_meshSize");
      I a, d, e, f; need(MMG2D_Get_meshSize(mesh, &a, &d, &e, &f), 1, "Get_meshSize");
      if (a != np || d != nt || e != nq) bad("mesh-size", "sizes differ");
      { Table &t = add("triangle", 3, nt); t.hasReq = true; t.orient = true;
        t.set = [=](const I *v, I rf, I p) { return MMG2D_Set_triangle(mesh, v[0], v[1], v[2], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG2D_Set_triangles(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMG2D_Get_triangle(mesh, v, v + 1, v + 2, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMG2D_Get_triangles(mesh, v, rf, q); };
        t.setReq = [=](I p) { return MMG2D_Set_requiredTriangle(mesh, p); }; t.unsetReq = [=](I p) { return MMG2D_Unset_requiredTriangle(mesh, p); }; }
      if (nq) { Table &t = add("quadrilateral", 4, nq);
        t.set = [=](const I *v, I rf, I p) { return MMG2D_Set_quadrilateral(mesh, v[0], v[1], v[2], v[3], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG2D_Set_quadrilaterals(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *) { return MMG2D_Get_quadrilateral(mesh, v, v + 1, v + 2, v + 3, rf, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *) { return MMG2D_Get_quadrilaterals(mesh, v, rf, q); }; }
      { Table &t = add("edge", 2, na); t.hasReq = true;
        t.set = [=](const I *v, I rf, I p) { return MMG2D_Set_edge(mesh, v[0], v[1], rf, p); };
        t.setAll = [=](I *v, I *rf) { return MMG2D_Set_edges(mesh, v, rf); };
        t.get = [=](I *v, I *rf, int *q, int *d) { return MMG2D_Get_edge(mesh, v, v + 1, rf, d, q); };
        t.getAll = [=](I *v, I *rf, int *q, int *d) { return MMG2D_Get_edges(mesh, v, rf, d, q); };
        t.setReq = [=](I p) { return MMG2D_Set_requiredEdge(mesh, p); }; t.unsetReq = [=](I p) { return MMG2D_Unset_requiredEdge(mesh, p); }; }
    }
    metType = 0; scur = 0;
  };
  // ---------------------------------------------------------------- vertices
  auto setVertex = [&](I p) {
    Pt q; q.hasN = P[p - 1].hasN; memcpy(q.n, P[p - 1].n, sizeof q.n);
    for (int i = 0; i < dim; i++) q.c[i] = coord();
    q.ref = refv();
    int o = k == K3D ? MMG3D_Set_vertex(mesh, q.c[0], q.c[1], q.c[2], q.ref, p) : k == KS ? MMGS_Set_vertex(mesh, q.c[0], q.c[1], q.c[2], q.ref, p) : MMG2D_Set_vertex(mesh, q.c[0], q.c[1], q.ref, p);
    log(strf("Set_vertex %d", (int)p)); need(o, 1, "Set_vertex"); P[p - 1] = q;
  };
  auto setVertices = [&]() {
    std::vector<double> c(P.size() * dim); std::vector<I> rf(P.size()); bool wr = g.chance(.7);
    for (size_t i = 0; i < P.size(); i++) { for (int j = 0; j < dim; j++) P[i].c[j] = c[i * dim + j] = coord(); rf[i] = refv(); if (wr) P[i].ref = rf[i]; P[i].crn = P[i].req = UNK; }
    log(strf("Set_vertices refs=%d", wr)); need(ZBY(k, Set_vertices, mesh, c.data(), wr ? rf.data() : NULL), 1, "Set_vertices");
  };
  auto sameVertex = [&](int i, const double *c, I rf, int crn, int req, const char *how) {
    const Pt &q = P[i]; nchk++;
    for (int j = 0; j < dim; j++) if (c[j] != q.c[j]) return bad(std::string("vertex-coordinates:") + how, strf("vertex %d coordinate %d: %.17g instead of %.17g", i + 1, j, c[j], q.c[j]));
    if (rf != q.ref) return bad(std::string("vertex-reference:") + how, strf("vertex %d: %d instead of %d", i + 1, (int)rf, (int)q.ref));
    if (crn != UNK && q.crn != UNK && !!crn != q.crn) return bad(std::string("vertex-corner:") + how, strf("vertex %d: %d instead of %d", i + 1, crn, q.crn));
    if (req != UNK && q.req != UNK && !!req != q.req) return bad(std::string("vertex-required:") + how, strf("vertex %d: %d instead of %d", i + 1, req, q.req));
  };
  auto checkVertices = [&](int how) {   // 0 sequential (possibly partial), 1 array, 2 by position
    int n = (int)P.size();
    if (how == 0) {
      int cnt = g.chance(.5) ? n : g.range(1, 2 * n); bool opt = g.chance(.8);
      for (int i = 0; i < cnt && r.status == "ok"; i++) {
        double c[3]; I rf = 0; int a = 0, b = 0;
        int o = k == K3D ? MMG3D_Get_vertex(mesh, c, c + 1, c + 2, opt ? &rf : NULL, opt ? &a : NULL, opt ? &b : NULL) : k == KS ? MMGS_Get_vertex(mesh, c, c + 1, c + 2, opt ? &rf : NULL, opt ? &a : NULL, opt ? &b : NULL) : MMG2D_Get_vertex(mesh, c, c + 1, opt ? &rf : NULL, opt ? &a : NULL, opt ? &b : NULL);
        need(o, 1, "Get_vertex");
        sameVertex(pcur, c, opt ? rf : P[pcur].ref, opt ? a : UNK, opt ? b : UNK, "sequential"); pcur = (pcur + 1) % n;
      }
    } else if (how == 1) {
      std::vector<double> c(n * dim); std::vector<I> rf(n); std::vector<int> a(n), b(n); bool o1 = g.chance(.8), o2 = g.chance(.8), o3 = g.chance(.8);
      need(ZBY(k, Get_vertices, mesh, c.data(), o1 ? rf.data() : NULL, o2 ? a.data() : NULL, o3 ? b.data() : NULL), 1, "Get_vertices");
      for (int i = 0; i < n && r.status == "ok"; i++) sameVertex(i, &c[i * dim], o1 ? rf[i] : P[i].ref, o2 ? a[i] : UNK, o3 ? b[i] : UNK, "array");
    } else for (int t = 0; t < n && r.status == "ok"; t++) {
      int i = g.below(n); double c[3]; I rf = 0; int a = 0, b = 0;
      int o = k == K3D ? MMG3D_GetByIdx_vertex(mesh, c, c + 1, c + 2, &rf, &a, &b, i + 1) : k == KS ? MMGS_GetByIdx_vertex(mesh, c, c + 1, c + 2, &rf, &a, &b, i + 1) : MMG2D_GetByIdx_vertex(mesh, c, c + 1, &rf, &a, &b, i + 1);
      need(o, 1, "GetByIdx_vertex"); sameVertex(i, c, rf, a, b, "by position");
      if (k != K2D && P[i].hasN) { double nn[3]; need(k == K3D ? MMG3D_Get_normalAtVertex(mesh, i + 1, nn, nn + 1, nn + 2) : MMGS_Get_normalAtVertex(mesh, i + 1, nn, nn + 1, nn + 2), 1, "Get_normalAtVertex"); for (int j = 0; j < 3; j++) if (nn[j] != P[i].n[j]) bad("normal", strf("vertex %d", i + 1)); }
    }
  };
  // ---------------------------------------------------------------- elements
  auto setItem = [&](Table &t, I p) {
    std::vector<I> v, st; if (!draw(t, v, st)) return;
    I rf = refv(); log(strf("Set_%s %d", t.name.c_str(), (int)p));
    int o = t.set(v.data(), rf, p);
    // documented: a negatively oriented simplex is stored with two vertices exchanged
    if (o != 1) bad("status:Set_" + t.name, strf("returned %d", o));
    Item &x = t.it[p - 1]; x.v = st; x.ref = rf; x.req = x.rdg = UNK; x.set = true;
  };
  auto setItems = [&](Table &t) {
    int n = (int)t.it.size(); std::vector<I> all(n * t.nv), rf(n); std::vector<std::vector<I>> st(n); bool wr = g.chance(.7) || !t.it[0].set;
    for (int i = 0; i < n; i++) { std::vector<I> v; if (!draw(t, v, st[i])) return; for (int j = 0; j < t.nv; j++) all[i * t.nv + j] = v[j]; rf[i] = refv(); }
    log(strf("Set_%s(all) refs=%d", t.name.c_str(), wr));
    need(t.setAll(all.data(), wr ? rf.data() : NULL), 1, "Set_all_" + t.name);
    for (int i = 0; i < n; i++) { Item &x = t.it[i]; x.v = st[i]; if (wr) x.ref = rf[i]; x.req = x.rdg = UNK; x.set = true; }
  };
  auto sameItem = [&](Table &t, int i, const I *v, I rf, int req, int rdg, const char *how) {
    Item &x = t.it[i]; nchk++;
    for (int j = 0; j < t.nv; j++) if (v[j] != x.v[j]) return bad(t.name + "-vertices:" + how, strf("%s %d vertex %d: %d instead of %d", t.name.c_str(), i + 1, j, (int)v[j], (int)x.v[j]));
    if (rf != x.ref) return bad(t.name + "-reference:" + how, strf("%s %d: %d instead of %d", t.name.c_str(), i + 1, (int)rf, (int)x.ref));
    if (t.hasReq && req != UNK && x.req != UNK && !!req != x.req) return bad(t.name + "-required:" + how, strf("%s %d: %d instead of %d", t.name.c_str(), i + 1, req, x.req));
    if (t.hasRdg && rdg != UNK && x.rdg != UNK && !!rdg != x.rdg) return bad(t.name + "-ridge:" + how, strf("%s %d: %d instead of %d", t.name.c_str(), i + 1, rdg, x.rdg));
  };
  auto checkItems = [&](Table &t, int how) {
    int n = (int)t.it.size();
    if (how == 0) {
      int cnt = g.chance(.5) ? n : g.range(1, 2 * n); bool opt = g.chance(.8);
      for (int i = 0; i < cnt && r.status == "ok"; i++) { I v[6]; I rf = 0; int q = 0, d = 0; need(t.get(v, opt ? &rf : NULL, opt ? &q : NULL, opt ? &d : NULL), 1, "Get_" + t.name); sameItem(t, t.cur, v, opt ? rf : t.it[t.cur].ref, opt ? q : UNK, opt ? d : UNK, "sequential"); t.cur = (t.cur + 1) % n; }
    } else {
      std::vector<I> v(n * t.nv), rf(n); std::vector<int> q(n), d(n); bool o1 = g.chance(.8), o2 = g.chance(.8), o3 = g.chance(.8);
      need(t.getAll(v.data(), o1 ? rf.data() : NULL, o2 ? q.data() : NULL, o3 ? d.data() : NULL), 1, "Get_all_" + t.name);
      for (int i = 0; i < n && r.status == "ok"; i++) sameItem(t, i, &v[i * t.nv], o1 ? rf[i] : t.it[i].ref, o2 ? q[i] : UNK, o3 ? d[i] : UNK, "array");
    }
  };
  // ---------------------------------------------------------------- solutions
  auto comp = [&](int ty) { return ty == MMG5_Scalar ? 1 : ty == MMG5_Vector ? dim : dim == 2 ? 3 : 6; };
  auto setOne = [&](MMG5_pSol s, int ty, const double *d, I p) {
    if (ty == MMG5_Scalar) return ZBY(k, Set_scalarSol, s, d[0], p);
    if (ty == MMG5_Vector) return k == K3D ? MMG3D_Set_vectorSol(s, d[0], d[1], d[2], p) : k == KS ? MMGS_Set_vectorSol(s, d[0], d[1], d[2], p) : MMG2D_Set_vectorSol(s, d[0], d[1], p);
    return k == K3D ? MMG3D_Set_tensorSol(s, d[0], d[1], d[2], d[3], d[4], d[5], p) : k == KS ? MMGS_Set_tensorSol(s, d[0], d[1], d[2], d[3], d[4], d[5], p) : MMG2D_Set_tensorSol(s, d[0], d[1], d[2], p);
  };
  auto getOne = [&](MMG5_pSol s, int ty, double *d) {
    if (ty == MMG5_Scalar) return ZBY(k, Get_scalarSol, s, d);
    if (ty == MMG5_Vector) return k == K3D ? MMG3D_Get_vectorSol(s, d, d + 1, d + 2) : k == KS ? MMGS_Get_vectorSol(s, d, d + 1, d + 2) : MMG2D_Get_vectorSol(s, d, d + 1);
    return k == K3D ? MMG3D_Get_tensorSol(s, d, d + 1, d + 2, d + 3, d + 4, d + 5) : k == KS ? MMGS_Get_tensorSol(s, d, d + 1, d + 2, d + 3, d + 4, d + 5) : MMG2D_Get_tensorSol(s, d, d + 1, d + 2);
  };
  auto setAllS = [&](MMG5_pSol s, int ty, double *d) { return ty == MMG5_Scalar ? ZBY(k, Set_scalarSols, s, d) : ty == MMG5_Vector ? ZBY(k, Set_vectorSols, s, d) : ZBY(k, Set_tensorSols, s, d); };
  auto getAllS = [&](MMG5_pSol s, int ty, double *d) { return ty == MMG5_Scalar ? ZBY(k, Get_scalarSols, s, d) : ty == MMG5_Vector ? ZBY(k, Get_vectorSols, s, d) : ZBY(k, Get_tensorSols, s, d); };
  auto newMet = [&]() {
    metType = g.pick(std::vector<int>{MMG5_Scalar, MMG5_Vector, MMG5_Tensor});
    log(strf("Set_solSize type %d", metType));
    need(ZBY(k, Set_solSize, mesh, met, MMG5_Vertex, (I)P.size(), metType), 1, "Set_solSize");
    S.assign(P.size(), std::vector<double>(comp(metType), 0)); sset.assign(P.size(), 0); scur = 0;
  };
  auto checkMet = [&](int how) {
    if (!metType) return;
    int ty = 0, te = 0; I n = 0;
    if (scur == 0) { need(ZBY(k, Get_solSize, mesh, met, &te, &n, &ty), 1, "Get_solSize");
    if (te != MMG5_Vertex || n != (I)P.size() || ty != metType) bad("solution-size", strf("entity %d count %d type %d", te, (int)n, ty)); }
    int c = comp(metType), np = (int)P.size();
    auto cmp = [&](int i, const double *d, const char *h) { nchk++; if (sset[i]) for (int j = 0; j < c; j++) if (d[j] != S[i][j]) bad(std::string("solution:") + h, strf("vertex %d component %d: %.17g instead of %.17g (type %d)", i + 1, j, d[j], S[i][j], metType)); };
    if (how == 0) { int cnt = g.range(1, 2 * np); for (int i = 0; i < cnt && r.status == "ok"; i++) { double d[6]; need(getOne(met, metType, d), 1, "Get_sol"); cmp(scur, d, "sequential"); scur = (scur + 1) % np; } }
    else { std::vector<double> d(np * c); need(getAllS(met, metType, d.data()), 1, "Get_sols"); for (int i = 0; i < np && r.status == "ok"; i++) cmp(i, &d[i * c], "array"); }
  };
  auto newFields = [&]() {
    if (fields) { ZBY(k, Free_allSols, mesh, &fields); fields = nullptr; }
    int n = g.range(1, 4); fldType.clear(); for (int i = 0; i < n; i++) fldType.push_back(g.pick(std::vector<int>{MMG5_Scalar, MMG5_Vector, MMG5_Tensor}));
    log(strf("Set_solsAtVerticesSize %d", n));
    need(ZBY(k, Set_solsAtVerticesSize, mesh, &fields, n, (I)P.size(), fldType.data()), 1, "Set_solsAtVerticesSize");
    int n2 = 0; I np2 = 0; int ty[MMG5_NSOLS_MAX]; need(ZBY(k, Get_solsAtVerticesSize, mesh, &fields, &n2, &np2, ty), 1, "Get_solsAtVerticesSize");
    if (n2 != n || np2 != (I)P.size()) bad("fields-size", strf("%d fields of %d", n2, (int)np2)); else for (int i = 0; i < n; i++) if (ty[i] != fldType[i]) bad("fields-type", strf("field %d: %d", i + 1, ty[i]));
    F.assign(n, {});
    for (int i = 0; i < n; i++) { int c = comp(fldType[i]); F[i].assign(P.size(), std::vector<double>(c)); std::vector<double> d(P.size() * c); for (size_t p = 0; p < P.size(); p++) for (int j = 0; j < c; j++) F[i][p][j] = d[p * c + j] = val(); need(ZBY(k, Set_ithSols_inSolsAtVertices, fields, i + 1, d.data()), 1, "Set_ithSols"); }
  };
  auto checkFields = [&](int how) {
    if (!fields) return;
    for (size_t i = 0; i < F.size() && r.status == "ok"; i++) {
      int c = comp(fldType[i]); std::vector<double> d(P.size() * c);
      auto cmp = [&](size_t p, const double *x) { nchk++; for (int j = 0; j < c; j++) if (x[j] != F[i][p][j]) bad("field-value", strf("field %d vertex %d component %d: %.17g instead of %.17g", (int)i + 1, (int)p + 1, j, x[j], F[i][p][j])); };
      if (how == 1) { need(ZBY(k, Get_ithSols_inSolsAtVertices, fields, (int)i + 1, d.data()), 1, "Get_ithSols"); for (size_t p = 0; p < P.size() && r.status == "ok"; p++) cmp(p, &d[p * c]); }
      else for (int t = 0; t < 10; t++) { I p = pos0((int)P.size()); double x[6]; need(ZBY(k, Get_ithSol_inSolsAtVertices, fields, (int)i + 1, x, p), 1, "Get_ithSol"); cmp(p - 1, x); }
    }
  };
  // ---------------------------------------------------------------- parameters
  struct Par { std::string name; std::function<int(double)> set; std::function<double()> get; std::function<double(Rng &)> draw; std::function<double(double)> map; double cur; bool known = false; };
  std::vector<Par> par;
  auto id = [](double x) { return x; };
  auto ip = [&](const char *nm, int code, std::function<double()> get, std::function<double(Rng &)> draw, std::function<double(double)> mp) { par.push_back({nm, [=](double v) { return ZBY(k, Set_iparameter, mesh, met, code, (I)v); }, get, draw, mp, 0, false}); };
  auto dp = [&](const char *nm, int code, std::function<double()> get, std::function<double(Rng &)> draw, std::function<double(double)> mp) { par.push_back({nm, [=](double v) { return ZBY(k, Set_dparameter, mesh, met, code, v); }, get, draw, mp, 0, false}); };
  auto b01 = [](Rng &g) { return (double)g.below(2); };
  auto pv = [](Rng &g) { return std::pow(10., g.uni(-4, 3)); };
#define IPC(x) (k == K3D ? (int)MMG3D_IPARAM_##x : k == KS ? (int)MMGS_IPARAM_##x : (int)MMG2D_IPARAM_##x)
#define DPC(x) (k == K3D ? (int)MMG3D_DPARAM_##x : k == KS ? (int)MMGS_DPARAM_##x : (int)MMG2D_DPARAM_##x)
  MMG5_Info *in = &mesh->info;
#define BOOLP(nm, fld) ip(#nm, IPC(nm), [=]() { return (double)in->fld; }, b01, id)
  ip("verbose", IPC(verbose), [=]() { return (double)in->imprim; }, [](Rng &g) { return (double)-g.range(1, 3); }, id);
  BOOLP(noinsert, noinsert); BOOLP(noswap, noswap); BOOLP(nomove, nomove); BOOLP(nreg, nreg); BOOLP(xreg, xreg); BOOLP(optim, optim); BOOLP(nosizreq, nosizreq); BOOLP(anisosize, ani);
  ip("isoref", IPC(isoref), [=]() { return (double)in->isoref; }, [](Rng &g) { return (double)g.range(1, 1000); }, id);
  ip("numsubdomain", IPC(numsubdomain), [=]() { return (double)in->nsd; }, [](Rng &g) { return (double)g.below(100); }, id);
  if (k != KS) {
    ip("nosurf", k == K3D ? (int)MMG3D_IPARAM_nosurf : (int)MMG2D_IPARAM_nosurf, [=]() { return (double)in->nosurf; }, b01, id);
    ip("opnbdy", k == K3D ? (int)MMG3D_IPARAM_opnbdy : (int)MMG2D_IPARAM_opnbdy, [=]() { return (double)in->opnbdy; }, b01, id);
    ip("nofem", k == K3D ? (int)MMG3D_IPARAM_nofem : (int)MMG2D_IPARAM_nofem, [=]() { return (double)in->setfem; }, b01, [](double v) { return v == 1 ? 0. : 1.; });
  }
  if (k == K3D) { ip("optimLES", MMG3D_IPARAM_optimLES, [=]() { return (double)in->optimLES; }, b01, id); ip("octree", MMG3D_IPARAM_octree, [=]() { return (double)in->PROctree; }, [](Rng &g) { return (double)g.range(2, 128); }, id); }
  if (k != K2D) ip("renum", k == K3D ? (int)MMG3D_IPARAM_renum : (int)MMGS_IPARAM_renum, [=]() { return (double)in->renum; }, b01, id);
  dp("hmin", DPC(hmin), [=]() { return in->hmin; }, [](Rng &g) { return std::pow(10., g.uni(-5, -3)); }, id);
  dp("hmax", DPC(hmax), [=]() { return in->hmax; }, [](Rng &g) { return std::pow(10., g.uni(-1, 2)); }, id);
  dp("hsiz", DPC(hsiz), [=]() { return in->hsiz; }, pv, id);
  auto lg = [](double v) { return v <= 0 ? -1. : std::log(v); };
  auto gv = [](Rng &g) { return g.chance(.2) ? -1. : g.uni(1.05, 4); };
  dp("hgrad", DPC(hgrad), [=]() { return in->hgrad; }, gv, lg);
  dp("hgradreq", DPC(hgradreq), [=]() { return in->hgradreq; }, gv, lg);
  dp("hausd", DPC(hausd), [=]() { return in->hausd; }, pv, id);
  dp("ls", DPC(ls), [=]() { return in->ls; }, [](Rng &g) { return g.uni(-2, 2); }, id);
  dp("rmc", DPC(rmc), [=]() { return in->rmc; }, [](Rng &g) { return g.uni(1e-6, .1); }, id);
  auto setPar = [&](Par &q) {
    double v = q.draw(g); log(strf("parameter %s=%g", q.name.c_str(), v));
    need(q.set(v), 1, "parameter " + q.name); q.cur = q.map(v); q.known = true;
  };
  auto checkPars = [&]() {
    for (auto &q : par) { double v = q.get(); if (!q.known) { q.cur = v; q.known = true; } nchk++; if (std::fabs(v - q.cur) > 1e-12 * std::fabs(q.cur)) bad("parameter:" + q.name, strf("%g instead of %g", v, q.cur)); }
    if (k != K2D) {
#define GI(x) (k == K3D ? MMG3D_Get_iparameter(mesh, MMG3D_IPARAM_##x) : MMGS_Get_iparameter(mesh, MMGS_IPARAM_##x))
      if (GI(verbose) != in->imprim || GI(noinsert) != in->noinsert || GI(noswap) != in->noswap || GI(nomove) != in->nomove || GI(nreg) != in->nreg || GI(xreg) != in->xreg || GI(numberOfLocalParam) != in->npar || GI(renum) != in->renum || GI(debug) != in->ddebug || GI(mem) != in->mem || GI(angle) != (in->dhd > 0)) bad("get-parameter", "Get_iparameter differs");
      if (k == K3D && (MMG3D_Get_iparameter(mesh, MMG3D_IPARAM_nosurf) != in->nosurf || MMG3D_Get_iparameter(mesh, MMG3D_IPARAM_octree) != in->PROctree || MMG3D_Get_iparameter(mesh, MMG3D_IPARAM_iso) != in->iso || MMG3D_Get_iparameter(mesh, MMG3D_IPARAM_numberOfMat) != in->nmat)) bad("get-parameter", "Get_iparameter differs");
    }
  };
  auto doLocal = [&]() {
    int n = g.range(1, 5); need(ZBY(k, Set_iparameter, mesh, met, IPC(numberOfLocalParam), (I)n), 1, "numberOfLocalParam");
    struct L { int typ; I ref; double a, b, c; }; std::vector<L> ls;
    std::vector<int> ty = k == K3D ? std::vector<int>{MMG5_Triangle, MMG5_Tetrahedron} : k == KS ? std::vector<int>{MMG5_Triangle} : std::vector<int>{MMG5_Triangle, MMG5_Edg};
    log(strf("%d local parameters", n));
    for (int i = 0; i < n; i++) { L l{g.pick(ty), (I)(10 * i + g.below(5)), g.uni(1e-3, 1), g.uni(1, 10), g.uni(1e-4, 1)}; ls.push_back(l); need(ZBY(k, Set_localParameter, mesh, met, l.typ, l.ref, l.a, l.b, l.c), 1, "Set_localParameter");
      if (g.chance(.2) && i + 1 < n) { L &z = ls[g.below((int)ls.size())]; z.a = g.uni(1e-3, 1); z.c = g.uni(1e-4, 1); need(ZBY(k, Set_localParameter, mesh, met, z.typ, z.ref, z.a, z.b, z.c), 1, "Set_localParameter-again"); }
      if (g.chance(.3) && i + 1 < n) { int w = g.below(4); need(ZBY(k, Set_localParameter, mesh, met, w == 0 ? 77 : ty[0], w == 1 ? -3 : 5000, w == 2 ? -1. : .1, w == 3 ? 0. : 1., w == 0 ? .1 : .2), 0, "invalid-local-parameter"); } }
    need(ZBY(k, Set_localParameter, mesh, met, ty[0], (I)9999, .1, 1, .1), 0, "too-many-local-parameters");
    if (in->npar != n || in->npari != n) bad("local-parameter-count", strf("%d/%d instead of %d", in->npari, in->npar, n));
    else for (auto &l : ls) { bool f = false; for (int i = 0; i < n; i++) { MMG5_Par &q = in->par[i]; if (q.elt == l.typ && q.ref == l.ref) { f = true; nchk++; if (q.hmin != l.a || q.hmax != l.b || q.hausd != l.c) bad("local-parameter", strf("type %d ref %d", l.typ, (int)l.ref)); } } if (!f) bad("local-parameter-lost", strf("type %d ref %d", l.typ, (int)l.ref)); }
  };
  auto doMat = [&]() {
    for (auto &t : T) for (auto &x : t.it) if (x.ref > 1000000) return;    // the lookup table spans the references
    int n = g.range(1, 5); need(ZBY(k, Set_iparameter, mesh, met, IPC(numberOfMat), (I)n), 1, "numberOfMat"); log(strf("%d materials", n));
    struct L { I ref, a, b; int sp; }; std::vector<L> ls;
    for (int i = 0; i < n; i++) { L l{(I)(10 * i + g.below(5)), (I)(1000 + 2 * i), (I)(1001 + 2 * i), g.chance(.6) ? MMG5_MMAT_Split : MMG5_MMAT_NoSplit}; ls.push_back(l); need(ZBY(k, Set_multiMat, mesh, met, l.ref, l.sp, l.a, l.b), 1, "Set_multiMat"); if (g.chance(.2) && i + 1 < n) need(ZBY(k, Set_multiMat, mesh, met, (I)-4, MMG5_MMAT_Split, (I)1, (I)2), 0, "invalid-material"); }
    need(ZBY(k, Set_multiMat, mesh, met, (I)9999, MMG5_MMAT_Split, (I)1, (I)2), 0, "too-many-materials");
    for (auto &l : ls) { bool f = false; for (int i = 0; i < n && in->mat; i++) { MMG5_Mat &q = in->mat[i]; if (q.ref == l.ref) { f = true; nchk++; if (q.dospl != l.sp || (l.sp && (q.rin != l.a || q.rex != l.b))) bad("material", strf("ref %d", (int)l.ref)); } } if (!f) bad("material-lost", strf("ref %d", (int)l.ref)); }
    n = g.range(1, 4); need(ZBY(k, Set_iparameter, mesh, met, IPC(numberOfLSBaseReferences), (I)n), 1, "numberOfLSBaseReferences");
    std::vector<I> br; for (int i = 0; i < n; i++) { br.push_back(7 * i + g.below(7)); need(ZBY(k, Set_lsBaseReference, mesh, met, br.back()), 1, "Set_lsBaseReference"); }
    need(ZBY(k, Set_lsBaseReference, mesh, met, (I)9999), 0, "too-many-base-references");
    for (I b : br) { bool f = false; for (int i = 0; i < n; i++) f |= in->br[i] == b; nchk++; if (!f) bad("base-reference-lost", strf("%d", (int)b)); }
  };
  auto illegal = [&]() {
    int w = g.below(7); I p = (I)P.size() + 1 + g.below(1000);
    log(strf("illegal call %d", w)); r.cnt["illegal-calls"]++;
    if (w == 0) need(k == K3D ? MMG3D_Set_vertex(mesh, 1, 2, 3, 4, p) : k == KS ? MMGS_Set_vertex(mesh, 1, 2, 3, 4, p) : MMG2D_Set_vertex(mesh, 1, 2, 4, p), 0, "vertex-out-of-range");
    if (w == 1) { Table &t = T[g.below((int)T.size())]; std::vector<I> v, st; if (draw(t, v, st)) need(t.set(v.data(), 3, (I)t.it.size() + 1 + g.below(1000)), 0, t.name + "-out-of-range"); }
    if (w == 2) need(ZBY(k, Set_iparameter, mesh, met, 9000 + g.below(100), (I)1), 0, "unknown-integer-parameter");
    if (w == 3) need(ZBY(k, Set_dparameter, mesh, met, 9000 + g.below(100), 1.), 0, "unknown-real-parameter");
    if (w == 4) need(ZBY(k, Set_dparameter, mesh, met, DPC(hausd), -g.uni()), 0, "negative-hausd");
    if (w == 5 && metType) { double d[6] = {1, 2, 3, 4, 5, 6}; need(setOne(met, metType, d, g.chance(.5) ? p : (I)(-g.below(5))), 0, "solution-out-of-range"); }
    if (w == 6) { double c[3]; I rf; int a, b; I q = g.chance(.5) ? p : (I)(-g.below(5)); need(k == K3D ? MMG3D_GetByIdx_vertex(mesh, c, c + 1, c + 2, &rf, &a, &b, q) : k == KS ? MMGS_GetByIdx_vertex(mesh, c, c + 1, c + 2, &rf, &a, &b, q) : MMG2D_GetByIdx_vertex(mesh, c, c + 1, &rf, &a, &b, q), 0, "get-vertex-out-of-range"); }
  };
  auto checkAll = [&]() { for (int h = 0; h < 3 && r.status == "ok"; h++) { checkVertices(h); for (auto &t : T) checkItems(t, h % 2); checkMet(h % 2); checkFields(h % 2); } checkPars(); };
  auto fill = [&]() {
    build();
    if (g.chance(.5)) setVertices(); else for (size_t i = 0; i < P.size(); i++) setVertex((I)i + 1);
    for (auto &t : T) { if (g.chance(.5)) setItems(t); else for (size_t i = 0; i < t.it.size(); i++) setItem(t, (I)i + 1); if (!t.it.empty() && !t.it.back().set) { r.status = "skip"; } }
    newMet();
    if (fields) { ZBY(k, Free_allSols, mesh, &fields); fields = nullptr; }
  };
  fill(); checkPars();
  int N = cx.thorough() ? 600 : 250;
  for (int it = 0; it < N && r.status == "ok"; it++) {
    nops++;
    int w = g.below(100);
    if (w < 10) setVertex(pos0((int)P.size()));
    else if (w < 12) setVertices();
    else if (w < 22) { I p = pos0((int)P.size()); Pt &q = P[p - 1]; int o = g.below(4); log(strf("vertex %d attribute %d", (int)p, o));
      if (o == 0) { need(ZBY(k, Set_corner, mesh, p), 1, "Set_corner"); q.crn = 1; } if (o == 1) { need(ZBY(k, Unset_corner, mesh, p), 1, "Unset_corner"); q.crn = 0; }
      if (o == 2) { need(ZBY(k, Set_requiredVertex, mesh, p), 1, "Set_requiredVertex"); q.req = 1; } if (o == 3) { need(ZBY(k, Unset_requiredVertex, mesh, p), 1, "Unset_requiredVertex"); q.req = 0; } }
    else if (w < 25) { if (k != K2D) { I p = pos0((int)P.size()); Pt &q = P[p - 1]; for (double &x : q.n) x = g.uni(-1, 1); q.hasN = true; log("Set_normalAtVertex"); need(k == K3D ? MMG3D_Set_normalAtVertex(mesh, p, q.n[0], q.n[1], q.n[2]) : MMGS_Set_normalAtVertex(mesh, p, q.n[0], q.n[1], q.n[2]), 1, "Set_normalAtVertex"); } }
    else if (w < 37) { Table &t = T[g.below((int)T.size())]; setItem(t, pos0((int)t.it.size())); }
    else if (w < 40) setItems(T[g.below((int)T.size())]);
    else if (w < 55) { Table &t = T[g.below((int)T.size())]; I p = pos0((int)t.it.size()); Item &x = t.it[p - 1]; int o = g.below(4); log(strf("%s %d attribute %d", t.name.c_str(), (int)p, o));
      if (t.hasReq && o == 0) { need(t.setReq(p), 1, "Set_required_" + t.name); x.req = 1; } if (t.hasReq && o == 1) { need(t.unsetReq(p), 1, "Unset_required_" + t.name); x.req = 0; }
      if (t.hasRdg && o == 2) { need(t.setRdg(p), 1, "Set_ridge"); x.rdg = 1; } if (t.hasRdg && o == 3) { need(t.unsetRdg(p), 1, "Unset_ridge"); x.rdg = 0; }
      if (t.setReqs && o >= 2 && g.chance(.5)) { std::vector<I> l; int n = g.range(1, (int)t.it.size()); for (int i = 0; i < n; i++) l.push_back(pos0((int)t.it.size())); log(strf("%s list of %d", t.name.c_str(), n)); need(o == 2 ? t.setReqs(l.data(), n) : t.unsetReqs(l.data(), n), 1, "required-list-" + t.name); for (I q : l) t.it[q - 1].req = o == 2; } }
    else if (w < 57) newMet();
    else if (w < 67) { if (metType) { I p = pos0((int)P.size()); std::vector<double> d(6); for (double &x : d) x = val(); log(strf("Set_sol %d", (int)p)); need(setOne(met, metType, d.data(), p), 1, "Set_sol"); d.resize(comp(metType)); S[p - 1] = d; sset[p - 1] = 1; } }
    else if (w < 70) { if (metType) { int c = comp(metType); std::vector<double> d(P.size() * c); for (size_t i = 0; i < P.size(); i++) { for (int j = 0; j < c; j++) S[i][j] = d[i * c + j] = val(); sset[i] = 1; } log("Set_sols"); need(setAllS(met, metType, d.data()), 1, "Set_sols"); } }
    else if (w < 72) newFields();
    else if (w < 75) { if (fields) { int i = g.below((int)F.size()); I p = pos0((int)P.size()); std::vector<double> d(comp(fldType[i])); for (double &x : d) x = val(); log(strf("Set_ithSol %d %d", i + 1, (int)p)); need(ZBY(k, Set_ithSol_inSolsAtVertices, fields, i + 1, d.data(), p), 1, "Set_ithSol"); F[i][p - 1] = d; } }
    else if (w < 81) setPar(par[g.below((int)par.size())]);
    else if (w < 82) { if (g.chance(.5)) doLocal(); else doMat(); }
    else if (w < 86) illegal();
    else if (w < 89) checkVertices(g.below(3));
    else if (w < 93) checkItems(T[g.below((int)T.size())], g.below(2));
    else if (w < 95) checkMet(g.below(2));
    else if (w < 97) checkFields(g.below(2));
    else if (w < 98) checkPars();
    else if (w < 99) checkAll();
    else if (g.chance(.3)) { checkAll(); if (r.status == "ok") fill(); }
  }
  if (r.status == "ok" && k == K2D) { I a, b, q, e; need(MMG2D_Get_meshSize(mesh, &a, &b, &q, &e), 1, "Get_meshSize"); if (e != (I)T.back().it.size()) bad("mesh-size", "edge count differs"); }
  if (r.status == "ok") { checkAll(); checkAll(); }
  r.cnt["calls"] += nops; r.cnt["comparisons"] += nchk;
  r.sample = strf("%s, %d operations, %d comparisons; tail: %s", k == K3D ? "mmg3d" : k == KS ? "mmgs" : "mmg2d", nops, nchk, trace.substr(trace.size() > 300 ? trace.size() - 300 : 0).c_str());
  r.sig = r.sample;
  if (fields) ZBY(k, Free_allSols, mesh, &fields);
  m.freeAll();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
