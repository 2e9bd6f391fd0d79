// C20: the Fortran entry points behave as the C functions (differential monitor on twin structures).
#include "jobgen.h"
#include <tuple>
#include <functional>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include <regex>

static int ncases(const std::string &t) { return t == "thorough" ? 9000 : 400; }

// ---- generic invocation: a C prototype implies the Fortran one (everything by address, strings with their length, status last)
struct V { double d = 0; long i = 0; void *p = nullptr; };
template <class T> static T val(const V &v) { if constexpr (std::is_floating_point_v<T>) return (T)v.d; else if constexpr (std::is_integral_v<T>) return (T)v.i; else return (T)v.p; }
template <class T> constexpr bool isHandle = std::is_same_v<T, MMG5_pMesh> || std::is_same_v<T, MMG5_pSol>;
template <class T> constexpr bool isStr = std::is_same_v<T, char *> || std::is_same_v<T, const char *>;
template <class T> struct Slot {
  T s; int len = 0; char buf[256];
  explicit Slot(const V &v) : s(val<T>(v)) { if constexpr (isStr<T>) { len = strlen(s); memset(buf, 'Z', sizeof buf); memcpy(buf, s, len); } }   // no final zero in Fortran
  auto tup() { if constexpr (isStr<T>) return std::make_tuple((char *)buf, &len); else if constexpr (std::is_pointer_v<T> && !isHandle<T>) return std::make_tuple(s); else return std::make_tuple(&s); }
};
typedef void (*Raw)();
template <class... T> static void rawCall(Raw f, std::tuple<T...> t) { std::apply([&](auto... x) { ((void (*)(decltype(x)...))f)(x...); }, t); }
struct Fn { std::string name; std::vector<std::string> args; std::function<double(const V *)> c, f; };
template <class R, class... A, size_t... I> static void bindFn(Fn &o, R (*c)(A...), Raw f, std::index_sequence<I...>) {
  o.c = [c](const V *v) -> double { if constexpr (std::is_void_v<R>) { c(val<A>(v[I])...); return 0; } else return (double)c(val<A>(v[I])...); };
  o.f = [f](const V *v) -> double {
    std::tuple<Slot<A>...> st{Slot<A>(v[I])...};
    auto t = std::tuple_cat(std::get<I>(st).tup()...);
    if constexpr (std::is_void_v<R>) { rawCall(f, t); return 0; }
    else { R ret = (R)-77; rawCall(f, std::tuple_cat(t, std::make_tuple(&ret))); return (double)ret; }
  };
}
template <class R, class... A> static Fn mk(const char *n, R (*c)(A...), Raw f, const char *names) {
  Fn o; o.name = n;
  std::stringstream ss(names); std::string x;
  while (std::getline(ss, x, ',')) o.args.push_back(x);
  bindFn(o, c, f, std::index_sequence_for<A...>{});
  if (o.args.size() != sizeof...(A)) { fprintf(stderr, "bad table entry %s\n", n); abort(); }
  return o;
}
extern "C" {
#define FN(c, f, n) void f();
#include "c20_tab.h"
#undef FN
void mmg3d_init_mesh_(const int, ...); void mmgs_init_mesh_(const int, ...); void mmg2d_init_mesh_(const int, ...);
void mmg3d_usage_(char *, int *); void mmgs_usage_(char *, int *, int *); void mmg2d_usage_(char *, int *);
void mmg3d_free_all_(const int, ...); void mmgs_free_all_(const int, ...); void mmg2d_free_all_(const int, ...);
#define DECL(c)
int MMG5_Set_inputMeshName(MMG5_pMesh, const char *); int MMG5_Set_inputSolName(MMG5_pMesh, MMG5_pSol, const char *);
int MMG5_Set_outputMeshName(MMG5_pMesh, const char *); int MMG5_Set_outputSolName(MMG5_pMesh, MMG5_pSol, const char *);
void MMG5_Init_fileNames(MMG5_pMesh, MMG5_pSol); void MMG5_mmgFree_names(MMG5_pMesh, MMG5_pSol);
int MMG5_scaleMesh(MMG5_pMesh, MMG5_pSol, MMG5_pSol); int MMG5_unscaleMesh(MMG5_pMesh, MMG5_pSol, MMG5_pSol);
}
static std::map<std::string, Fn> &table() {
  static std::map<std::string, Fn> t;
  if (t.empty()) {
#define FN(c, f, n) t[#c] = mk(#c, &c, (Raw)f, n);
#include "c20_tab.h"
#undef FN
  }
  return t;
}

// ---- state of a structure, section by section
struct Dump { std::map<std::string, std::string> s; };
template <class T> static void put(std::string &o, const T &x) { o.append((const char *)&x, sizeof(T)); }
static void dumpSol(Dump &d, const std::string &n, MMG5_pSol s) {
  std::string o;
  if (!s) { d.s[n] = "null"; return; }
  put(o, s->dim); put(o, s->np); put(o, s->npi); put(o, s->size); put(o, s->type); put(o, s->entities);
  d.s[n + "-header"] = o; o.clear();
  if (s->m && s->np) o.assign((const char *)(s->m + s->size), sizeof(double) * s->size * s->np);
  d.s[n + "-values"] = o;
  d.s[n + "-names"] = std::string(s->namein ? s->namein : "-") + "|" + (s->nameout ? s->nameout : "-");
}
static Dump dump(MMG5_pMesh m, MMG5_pSol met, MMG5_pSol ls, MMG5_pSol fields) {
  Dump d; std::string o;
  auto &f = m->info;
  for (double x : {f.dhd, f.hmin, f.hmax, f.hsiz, f.hgrad, f.hgradreq, f.hausd, f.ls, f.lxreg, f.rmc}) put(o, x);
  for (long x : {(long)f.isoref, (long)f.nsd, (long)f.mem, (long)f.npar, (long)f.npari, (long)f.nbr, (long)f.nbri, (long)f.opnbdy, (long)f.renum, (long)f.PROctree, (long)f.nmati, (long)f.nmat, (long)f.imprim, (long)f.nreg, (long)f.xreg,
    (long)f.ddebug, (long)f.iso, (long)f.isosurf, (long)f.setfem, (long)f.lag, (long)f.parTyp, (long)f.sethmin, (long)f.sethmax, (long)f.ani, (long)f.optim, (long)f.optimLES, (long)f.noinsert, (long)f.noswap, (long)f.nomove, (long)f.nosurf, (long)f.nosizreq}) put(o, x);
  d.s["parameters"] = o; o.clear();
  if (f.par) for (int i = 0; i < f.npari && i < f.npar; i++) { put(o, f.par[i].hmin); put(o, f.par[i].hmax); put(o, f.par[i].hausd); put(o, f.par[i].ref); put(o, f.par[i].elt); }
  d.s["local-parameters"] = o; o.clear();
  if (f.mat) for (int i = 0; i < f.nmati && i < f.nmat; i++) { put(o, f.mat[i].dospl); put(o, f.mat[i].ref); put(o, f.mat[i].rin); put(o, f.mat[i].rex); }
  d.s["materials"] = o; o.clear();
  if (f.br) for (int i = 0; i < f.nbri && i < f.nbr; i++) put(o, f.br[i]);
  d.s["base-references"] = o; o.clear();
  for (long x : {(long)m->np, (long)m->ne, (long)m->nprism, (long)m->nt, (long)m->nquad, (long)m->na, (long)m->npi, (long)m->nti, (long)m->nai, (long)m->nei, (long)m->dim, (long)m->ver, (long)m->type}) put(o, x);
  d.s["counts"] = o; o.clear();
  if (m->point) for (MMG5_int k = 1; k <= m->np; k++) { auto &p = m->point[k]; o.append((const char *)p.c, 24); o.append((const char *)p.n, 24); put(o, p.ref); put(o, p.tag); }
  d.s["vertices"] = o; o.clear();
  if (m->tetra) for (MMG5_int k = 1; k <= m->ne; k++) { auto &p = m->tetra[k]; o.append((const char *)p.v, sizeof p.v); put(o, p.ref); put(o, p.tag); put(o, p.qual); }
  d.s["tetrahedra"] = o; o.clear();
  if (m->tria) for (MMG5_int k = 1; k <= m->nt; k++) { auto &p = m->tria[k]; o.append((const char *)p.v, sizeof p.v); put(o, p.ref); o.append((const char *)p.tag, sizeof p.tag); o.append((const char *)p.edg, sizeof p.edg); }
  d.s["triangles"] = o; o.clear();
  if (m->edge) for (MMG5_int k = 1; k <= m->na; k++) { auto &p = m->edge[k]; put(o, p.a); put(o, p.b); put(o, p.ref); put(o, p.tag); }
  d.s["edges"] = o; o.clear();
  if (m->prism) for (MMG5_int k = 1; k <= m->nprism; k++) { auto &p = m->prism[k]; o.append((const char *)p.v, sizeof p.v); put(o, p.ref); put(o, p.tag); }
  d.s["prisms"] = o; o.clear();
  if (m->quadra) for (MMG5_int k = 1; k <= m->nquad; k++) { auto &p = m->quadra[k]; o.append((const char *)p.v, sizeof p.v); put(o, p.ref); o.append((const char *)p.tag, sizeof p.tag); }
  d.s["quadrilaterals"] = o; o.clear();
  d.s["mesh-names"] = std::string(m->namein ? m->namein : "-") + "|" + (m->nameout ? m->nameout : "-") + "|" + (f.fparam ? f.fparam : "-");
  dumpSol(d, "metric", met); dumpSol(d, "level-set", ls);
  if (fields) for (int i = 0; i < m->nsols; i++) dumpSol(d, strf("field%d", i), fields + i);
  return d;
}

struct Twin {
  Kind k; Rng &g; Result &r; std::string dirA, dirB;
  MMG5_pMesh m[2] = {nullptr, nullptr}; MMG5_pSol met[2] = {nullptr, nullptr}, ls[2] = {nullptr, nullptr}, fld[2] = {nullptr, nullptr};
  std::string last; bool ok = true;
  std::vector<std::vector<double>> keep[2];
  std::vector<std::string> strs;
  double ret = 0;
  // arguments under construction: pairs of values (C side, Fortran side)
  std::vector<V> a[2]; struct Buf { void *p[2]; size_t n; std::string nm; }; std::vector<Buf> bufs;
  Twin(Kind k_, Rng &g_, Result &r_) : k(k_), g(g_), r(r_) {}
  std::string nm(const std::string &f) const { return std::string(k == K3D ? "MMG3D_" : k == KS ? "MMGS_" : "MMG2D_") + f; }
  bool has(const std::string &f) { return table().count(nm(f)); }
  Twin &M() { for (int s : {0, 1}) { V v; v.p = m[s]; a[s].push_back(v); } return *this; }
  Twin &P(MMG5_pSol *x) { for (int s : {0, 1}) { V v; v.p = x[s]; a[s].push_back(v); } return *this; }
  Twin &PP() { for (int s : {0, 1}) { V v; v.p = &fld[s]; a[s].push_back(v); } return *this; }
  Twin &I(long x) { for (int s : {0, 1}) { V v; v.i = x; a[s].push_back(v); } return *this; }
  Twin &D(double x) { for (int s : {0, 1}) { V v; v.d = x; a[s].push_back(v); } return *this; }
  Twin &S(const std::string &x) { strs.push_back(x); char *c = strdup(x.c_str()); for (int s : {0, 1}) { V v; v.p = c; a[s].push_back(v); } return *this; }
  template <class T> Twin &B(const std::vector<T> &x, size_t n) {   // data buffer of n entries
    Buf b; b.n = std::max<size_t>(1, n) * sizeof(T);
    for (int s : {0, 1}) { b.p[s] = calloc(1, b.n + 16); if (x.size()) memcpy(b.p[s], x.data(), x.size() * sizeof(T)); V v; v.p = b.p[s]; a[s].push_back(v); }
    bufs.push_back(b); return *this;
  }
  bool call(const std::string &full, bool state = true) {
    auto it = table().find(full);
    if (it == table().end()) { for (auto &b : bufs) for (void *p : b.p) ::free(p); bufs.clear(); a[0].clear(); a[1].clear(); return true; }
    Fn &f = it->second;
    last = full;
    if (a[0].size() != f.args.size()) { fprintf(stderr, "harness: %s called with %zu arguments\n", full.c_str(), a[0].size()); abort(); }
    fprintf(stderr, "call %s\n", full.c_str());
    if (dirA.size() && chdir(dirA.c_str())) abort();
    double rc = f.c(a[0].data());
    if (dirB.size() && chdir(dirB.c_str())) abort();
    double rf = f.f(a[1].data());
    ret = rc;
    r.cnt["calls"]++; r.cnt["fn:" + full] = 1;
    if (memcmp(&rc, &rf, 8) && !(rc != rc && rf != rf)) { ok = false; r.viol(full + ":status", strf("C returns %g, Fortran %g [%s]", rc, rf, r.sample.c_str())); }
    for (auto &b : bufs) if (ok && memcmp(b.p[0], b.p[1], b.n)) { ok = false; r.viol(full + ":output-argument", r.sample); }
    for (auto &b : bufs) for (void *p : b.p) ::free(p);
    bufs.clear(); a[0].clear(); a[1].clear();
    if (ok && state) cmp(full);
    return ok;
  }
  bool call(const char *f) { return call(strncmp(f, "MMG5_", 5) ? nm(f) : std::string(f)); }
  void cmp(const std::string &w) {
    Dump x = dump(m[0], met[0], ls[0], fld[0]), y = dump(m[1], met[1], ls[1], fld[1]);
    if (x.s.size() != y.s.size()) { ok = false; r.viol(w + ":state", "number of fields " + r.sample); return; }
    for (auto &e : x.s) if (e.second != y.s[e.first]) { ok = false; r.viol(w + ":" + e.first, strf("different %s after the call [%s]", e.first.c_str(), r.sample.c_str())); return; }
    r.cnt["states"]++;
  }
  void init(bool wls) {
    for (int s : {0, 1}) {
      auto ini = [&](auto c, auto f) { if (s == 0) { if (wls) c(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_ppLs, &ls[s], MMG5_ARG_end); else c(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_end); }
        else { if (wls) f(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_ppLs, &ls[s], MMG5_ARG_end); else f(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_end); } };
      if (k == K3D) ini(MMG3D_Init_mesh, mmg3d_init_mesh_); else if (k == KS) ini(MMGS_Init_mesh, mmgs_init_mesh_); else ini(MMG2D_Init_mesh, mmg2d_init_mesh_);
    }
    if (!m[1] || !met[1]) { ok = false; r.viol(nm("Init_mesh") + ":null", ""); return; }
    cmp(nm("Init_mesh"));
  }
  void fin() {
    for (int s : {0, 1}) {
      auto fr = [&](auto c, auto f) { if (s == 0) { if (ls[s]) c(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_ppLs, &ls[s], MMG5_ARG_end); else c(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_end); }
        else { if (ls[s]) f(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_ppLs, &ls[s], MMG5_ARG_end); else f(MMG5_ARG_start, MMG5_ARG_ppMesh, &m[s], MMG5_ARG_ppMet, &met[s], MMG5_ARG_end); } };
      if (k == K3D) fr(MMG3D_Free_all, mmg3d_free_all_); else if (k == KS) fr(MMGS_Free_all, mmgs_free_all_); else fr(MMG2D_Free_all, mmg2d_free_all_);
    }
    if (!m[0] != !m[1] || !met[0] != !met[1]) { ok = false; r.viol(nm("Free_all") + ":left", ""); }
  }
  bool sol(MMG5_pSol *x, const Sol &s, int np, bool arr) {
    int d = k == K2D ? 2 : 3, type = s.size == 1 ? MMG5_Scalar : s.size == d ? MMG5_Vector : MMG5_Tensor;
    if (!M().P(x).I(MMG5_Vertex).I(np).I(type).call("Set_solSize")) return false;
    std::string b = type == MMG5_Scalar ? "Set_scalarSol" : type == MMG5_Vector ? "Set_vectorSol" : "Set_tensorSol";
    if (arr) return P(x).B(s.d, s.d.size()).call(nm(b + "s"));
    for (int i = 0; i < np; i++) { P(x); for (int q = 0; q < s.size; q++) D(s.d[i * s.size + q]); I(i + 1); if (!call(nm(b), i == np - 1)) return false; }
    return true;
  }
  bool setup(const Job &j);
  bool randomCalls(int n, const Job &j2);
  bool files();
  bool fields();
};
bool Twin::setup(const Job &j) {
  init(true);
  if (!ok) return false;
  MMG5_pSol *q = j.mode == M_LS ? ls : met;
  auto opt = [&](const std::string &n, double v) { int c = optCode(k, n); if (c < 0) return true; if (optIsInt(n)) return M().P(q).I(c).I((long)v).call("Set_iparameter"); return M().P(q).I(c).D(v).call("Set_dparameter"); };
  if (!opt("verbose", -1)) return false;
  for (auto &o : j.opts) if (!opt(o.name, o.val)) return false;
  if (j.lpar.size()) { if (!opt("npar", j.lpar.size())) return false; for (auto &p : j.lpar) if (!M().P(q).I(p.typ).I(p.ref).D(p.hmin).D(p.hmax).D(p.hausd).call("Set_localParameter")) return false; }
  if (j.mats.size()) { if (!opt("nmat", j.mats.size())) return false; for (auto &p : j.mats) if (!M().P(q).I(p.ref).I(p.split).I(p.rin).I(p.rex).call("Set_multiMat")) return false; }
  if (j.br.size()) { if (!opt("nbr", j.br.size())) return false; for (int b : j.br) if (!M().P(q).I(b).call("Set_lsBaseReference")) return false; }
  const Msh &x = j.in;
  int np = x.v.size(), ne = x.tet.size(), npr = x.pri.size(), nt = x.tri.size(), nq = x.qua.size(), na = x.edg.size();
  M().I(np);
  if (k == K3D) I(ne).I(npr).I(nt).I(nq).I(na); else if (k == KS) I(nt).I(na); else I(nt).I(nq).I(na);
  if (!call("Set_meshSize")) return false;
  bool arr = j.arrays;
  int d = x.dim();
  if (arr) { std::vector<double> c; std::vector<MMG5_int> rf; for (auto &v : x.v) { for (int i = 0; i < d; i++) c.push_back(v.c[i]); rf.push_back(v.ref); } if (!M().B(c, c.size()).B(rf, np).call("Set_vertices")) return false; }
  else for (int i = 0; i < np; i++) { M(); for (int q2 = 0; q2 < d; q2++) D(x.v[i].c[q2]); if (!I(x.v[i].ref).I(i + 1).call(nm("Set_vertex"), i % 7 == 0)) return false; }
  auto elems = [&](const char *one, const char *many, auto &l, int n) {
    if (l.empty()) return true;
    if (arr && has(many)) { std::vector<MMG5_int> e, rf; for (auto &t : l) { for (int i = 0; i < n; i++) e.push_back(t.v[i] + 1); rf.push_back(t.ref); } return M().B(e, e.size()).B(rf, rf.size()).call(nm(many)); }
    for (size_t p = 0; p < l.size(); p++) { M(); for (int i = 0; i < n; i++) I(l[p].v[i] + 1); if (!I(l[p].ref).I(p + 1).call(nm(one), p % 7 == 0)) return false; }
    return true;
  };
  if (!elems("Set_tetrahedron", "Set_tetrahedra", x.tet, 4) || !elems("Set_prism", "Set_prisms", x.pri, 6) || !elems("Set_triangle", "Set_triangles", x.tri, 3) || !elems("Set_quadrilateral", "Set_quadrilaterals", x.qua, 4)) return false;
  if (arr && na) { std::vector<MMG5_int> e, rf; for (auto &t : x.edg) { e.push_back(t.a + 1); e.push_back(t.b + 1); rf.push_back(t.ref); } if (!M().B(e, e.size()).B(rf, na).call("Set_edges")) return false; }
  else for (int i = 0; i < na; i++) if (!M().I(x.edg[i].a + 1).I(x.edg[i].b + 1).I(x.edg[i].ref).I(i + 1).call("Set_edge")) return false;
  for (int i = 0; i < np; i++) { if (x.v[i].req && !M().I(i + 1).call("Set_requiredVertex")) return false; if (x.v[i].corner && !M().I(i + 1).call("Set_corner")) return false; }
  for (int i = 0; i < na; i++) { if (x.edg[i].req && !M().I(i + 1).call("Set_requiredEdge")) return false; if (x.edg[i].ridge && k != K2D && !M().I(i + 1).call("Set_ridge")) return false; }
  std::vector<MMG5_int> rq;
  for (int i = 0; i < nt; i++) if (x.tri[i].req) rq.push_back(i + 1);
  if (rq.size() && k == K3D && arr) { if (!M().B(rq, rq.size()).I(rq.size()).call("Set_requiredTriangles")) return false; }
  else for (int i : rq) if (!M().I(i).call("Set_requiredTriangle")) return false;
  rq.clear();
  for (int i = 0; i < ne; i++) if (x.tet[i].req) rq.push_back(i + 1);
  if (rq.size() && arr) { if (!M().B(rq, rq.size()).I(rq.size()).call("Set_requiredTetrahedra")) return false; }
  else for (int i : rq) if (!M().I(i).call("Set_requiredTetrahedron")) return false;
  if (j.metType && !j.met.empty()) if (!sol(met, j.met, np, arr)) return false;
  if (j.mode == M_LS && !sol(ls, j.ls, np, arr)) return false;
  return true;
}
// random calls with arguments drawn from the present content
bool Twin::randomCalls(int n, const Job &) {
  static const std::regex no("_(Free_|Init_|mmg|load|save|Set_meshSize|Set_solSize|Set_solsAt|Get_solsAt|Chk_|Set_multiMat|Set_lsBase|Set_localPar|Set_[id]parameter|Add_|Set_ith|Get_ith|Set_constantSize|scaleMesh|unscaleMesh|Set_handGiven|Reset_|Clean_)|Set_(input|output)|Free_names");
  std::vector<const Fn *> l;
  for (auto &e : table()) if (!std::regex_search(e.first, no) && e.first.compare(0, e.first.find('_') + 1, nm("")) == 0) l.push_back(&e.second);
  MMG5_pMesh q = m[0];
  for (int it = 0; it < n && ok; it++) {
    const Fn &f = *l[g.below(l.size())];
    std::string s = f.name.substr(f.name.find('_') + 1);
    auto in = [&](const char *x) { return s.find(x) != std::string::npos; };
    bool set = s.compare(0, 3, "Set") == 0 || s.compare(0, 5, "Unset") == 0;
    MMG5_pSol *so = ls[0] && g.chance(.5) ? ls : met;
    if (in("Sol")) {
      if (in("solSize")) ; else if (!so[0]->m || so[0]->np < 1 || so[0]->np > q->np) continue;
      if (in("scalar") && so[0]->type != MMG5_Scalar) continue;
      if (in("vector") && so[0]->type != MMG5_Vector) continue;
      if (in("tensor") && so[0]->type != MMG5_Tensor) continue;
    }
    long cnt = 0, nv = 0; int kind = 0;
    if (in("tetrahedr") || in("Tetrahedr") || in("adjaTet")) { cnt = q->ne; nv = 4; kind = 1; }
    else if (in("triangle") || in("Triangle") || in("Tria") || in("adjaTri")) { cnt = q->nt; nv = 3; kind = 2; }
    else if (in("prism")) { cnt = q->nprism; nv = 6; kind = 3; }
    else if (in("quadrilateral")) { cnt = q->nquad; nv = 4; kind = 4; }
    else if (in("dge") || in("idge")) { cnt = q->na; nv = 2; kind = 5; }
    else if (in("Sol")) { cnt = so[0]->np; nv = so[0]->size; kind = 6; }
    else { cnt = q->np; nv = 1; }
    if (in("Get_adjaVertices")) { cnt = q->np; kind = 0; }
    if (in("triFromEdge") || in("trisFromEdge") || in("TriFromEdge") || in("TrisFromEdge")) cnt = q->na;
    if (in("nonBdy") || in("NonBdy")) { if (k == KS && !q->tria) continue; }
    if (in("adjaVertices") && !q->adja) continue;
    bool tool = in("adja") || in("From") || in("Quality") || in("nonBdy") || in("NonBdy") || in("Normal") || in("normal");
    if (cnt < 1 && (set || tool)) continue;
    if (in("Quality") && (!met[0]->m || met[0]->np != q->np) && false) continue;
    if (in("nonBdy") && !in("umber")) continue;     // needs the count first: made by the explicit sequence below
    long pos = g.range(1, std::max(1L, cnt));
    std::vector<long> ve(8, 1);
    auto verts = [&](long p, std::vector<MMG5_int> &o) {
      if (kind == 1) for (int i = 0; i < 4; i++) o.push_back(q->tetra[p].v[i]);
      if (kind == 2) for (int i = 0; i < 3; i++) o.push_back(q->tria[p].v[i]);
      if (kind == 3) for (int i = 0; i < 6; i++) o.push_back(q->prism[p].v[i]);
      if (kind == 4) for (int i = 0; i < 4; i++) o.push_back(q->quadra[p].v[i]);
      if (kind == 5) { o.push_back(q->edge[p].a); o.push_back(q->edge[p].b); }
    };
    std::vector<MMG5_int> cur;
    if (kind >= 1 && kind <= 5 && cnt >= 1) verts(pos, cur);
    bool skip = false, first = true; long nreq = g.range(1, (int)std::max(1L, std::min(cnt, 6L)));
    size_t iv = 0, big = 8 * (size_t)(std::max({q->np, q->ne, q->nt, q->na, q->nprism, q->nquad}) + 20);
    auto begins = [](const std::string &a, const char *b) { return a.compare(0, strlen(b), b) == 0; };
    // the C types are not known here: the names of the arguments decide what is a value and what is a buffer
    for (auto &an : f.args) {
      if (first && an == "mesh") M();
      else if (an == "met" || an == "sol" || an == "ls" || an == "disp") { if (in("Quality")) P(met); else P(so); }
      else if (begins(an, "pos") || an == "k" || an == "kel" || an == "ip" || an == "ktri" || an == "ked") { if (an == "ktri" && in("FromEdge")) B<MMG5_int>({}, 8); else I(pos); }
      else if (an == "idx") I(pos);
      else if (an == "start") { long st = 0; for (MMG5_int e = 1; e <= q->nt && !st; e++) for (int i = 0; i < 3; i++) if (q->tria[e].v[i] == pos) st = e; if (!st) skip = true; I(std::max(1L, st)); }
      else if (set && (an == "ref")) I(g.range(0, 50));
      else if (set && (begins(an, "v") || begins(an, "e")) && an.size() == 2) { if (kind == 6) D(g.uni(.1, .5)); else I(cur[iv++ % std::max<size_t>(1, cur.size())]); }
      else if (set && begins(an, "c") && an.size() == 2) { int w = an[1] - '0'; D(q->point[pos].c[w] * (1 + 1e-7 * g.range(0, 3))); }
      else if (set && begins(an, "n") && an.size() == 2) D(g.uni(-1, 1));
      else if (set && kind == 6 && (begins(an, "m") || an == "s" || an == "sols" || begins(an, "v"))) {
        if (an == "sols" || (an == "s" && in("Sols"))) B(std::vector<double>(so[0]->m + so[0]->size, so[0]->m + (size_t)so[0]->size * (so[0]->np + 1)), big);
        else { D(so[0]->m[(size_t)so[0]->size * pos + iv]); iv++; }
      }
      else if (set && an == "vertices") { std::vector<double> c; for (MMG5_int p = 1; p <= q->np; p++) for (int w = 0; w < (k == K2D ? 2 : 3); w++) c.push_back(q->point[p].c[w]); B(c, c.size()); }
      else if (set && an == "refs") { std::vector<MMG5_int> c; for (long p = 0; p < cnt; p++) c.push_back(g.range(0, 50)); B(c, c.size()); }
      else if (set && (an == "tetra" || an == "tria" || an == "prisms" || an.compare(0, 4, "quad") == 0 || an == "edges")) { std::vector<MMG5_int> c; for (long p = 1; p <= cnt; p++) verts(p, c); B(c, c.size()); }
      else if (set && (an == "reqIdx" || an == "parIdx" || an == "edgIdx")) { std::vector<MMG5_int> c; for (long p = 0; p < nreq; p++) c.push_back(g.range(1, cnt)); B(c, c.size()); }
      else if (set && (an == "nreq" || an == "npar" || an == "nedg")) I(nreq);
      else if (set) { fprintf(stderr, "unknown argument %s of %s\n", an.c_str(), f.name.c_str()); skip = true; I(0); r.cnt["unknown:" + f.name] = 1; }
      else if (an == "iparam") I(g.range(0, 20));
      else if (in("Compute_eigenv")) { std::vector<double> c = {2 + g.uni(), .3 * g.uni(), 0.2 * g.uni(), 3 + g.uni(), .1 * g.uni(), 1 + g.uni()}; if (k == K2D) c = {c[0], c[1], c[3]}; B(c, 16); }
      else B<double>({}, big);
      first = false;
    }
    if (skip) { for (auto &b : bufs) for (void *p : b.p) ::free(p); bufs.clear(); a[0].clear(); a[1].clear(); continue; }
    call(f.name);
  }
  // entities that are not in the boundary lists
  for (const char *w : {"Triangle", "Edge"}) {
    std::string num = nm(strf("Get_numberOfNonBdy%ss", w));
    if (!ok || !table().count(num)) continue;
    MMG5_int n0 = 0; MMG5_int buf[2] = {0, 0};
    V va[2], vb[2]; va[0].p = m[0]; va[1].p = &buf[0]; vb[0].p = m[1]; vb[1].p = &buf[1];
    double x = table()[num].c(va), y = table()[num].f(vb);
    r.cnt["fn:" + num] = 1;
    if (x != y || buf[0] != buf[1]) { ok = false; r.viol(num + ":output-argument", r.sample); break; }
    n0 = buf[0];
    for (int i = 0; i < 3 && n0 > 0 && ok; i++) {
      M(); for (int q2 = 0; q2 < (*w == 'T' ? 4 : 3); q2++) B<MMG5_int>({}, 2);
      I(g.range(1, n0)).call(nm(strf("Get_nonBdy%s", w)));
    }
  }
  return ok;
}
bool Twin::fields() {
  int np = m[0]->np, d = k == K2D ? 2 : 3, n = g.range(1, 3);
  std::vector<int> ty, sz;
  for (int i = 0; i < n; i++) { int t = g.range(1, 3); ty.push_back(t); sz.push_back(t == 1 ? 1 : t == 2 ? d : d * (d + 1) / 2); }
  if (!M().PP().I(n).I(np).B(ty, n).call("Set_solsAtVerticesSize") || ret != 1) return ok;
  for (int i = 0; i < n; i++) {
    std::vector<double> s((size_t)sz[i] * np);
    for (double &x : s) x = g.uni(-1, 1);
    if (g.chance(.5)) { if (!P(fld).I(i + 1).B(s, s.size()).call("Set_ithSols_inSolsAtVertices")) return false; }
    else for (int p = 1; p <= np; p++) if (!P(fld).I(i + 1).B(std::vector<double>(s.begin() + (p - 1) * sz[i], s.begin() + p * sz[i]), sz[i]).I(p).call(nm("Set_ithSol_inSolsAtVertices"), p == np)) return false;
  }
  if (!M().PP().B<int>({}, 2).B<MMG5_int>({}, 2).B<int>({}, 64).call("Get_solsAtVerticesSize")) return false;
  for (int i = 0; i < n; i++) {
    if (!P(fld).I(i + 1).B<double>({}, (size_t)6 * np).call("Get_ithSols_inSolsAtVertices")) return false;
    if (!P(fld).I(i + 1).B<double>({}, 6).I(g.range(1, np)).call("Get_ithSol_inSolsAtVertices")) return false;
  }
  return true;
}
static std::map<std::string, std::string> slurp(const std::string &dir) {
  std::map<std::string, std::string> o;
  for (const char *e : {"out.mesh", "out.meshb", "out.msh", "out.mshb", "out.sol", "met.sol", "met.solb", "all.sol", "all.msh", "out.node", "out.ele", "out.face", "out.edge", "out.neigh", "gen.mesh", "gen.msh", "gen.o.mesh"}) {
    std::ifstream f(dir + "/" + e, std::ios::binary);
    if (f) { std::stringstream s; s << f.rdbuf(); o[e] = s.str(); }
  }
  return o;
}
bool Twin::files() {
  std::string e = g.chance(.5) ? "out.mesh" : "out.meshb", h = g.chance(.5) ? "out.msh" : "out.mshb", z = g.chance(.5) ? "met.sol" : "met.solb";
  bool hasMet = met[0]->m && met[0]->np == m[0]->np;
  if (!M().S(e).call("saveMesh")) return false;
  if (hasMet && (!M().P(met).S(z).call("saveSol") || !M().P(met).S(h).call("saveMshMesh") || !M().P(met).S(g.chance(.5) ? "gen.mesh" : "gen.msh").call("saveGenericMesh"))) return false;
  if (g.chance(.3) && !M().S("out.node").call("saveTetgenMesh")) return false;
  if (fld[0] && m[0]->nsols && (!M().PP().S("all.sol").call("saveAllSols") || !M().PP().S("all.msh").call("saveMshMesh_and_allData"))) return false;
  auto x = slurp(dirA), y = slurp(dirB);
  r.cnt["files"] += x.size();
  for (auto &f : x) if (y[f.first] != f.second) { ok = false; r.viol(std::string(KNAME[k]) + ":file:" + f.first, strf("%zu bytes, %zu from Fortran [%s]", f.second.size(), y[f.first].size(), r.sample.c_str())); return false; }
  // load again in fresh structures
  Twin t(k, g, r);
  t.dirA = dirA; t.dirB = dirA;
  t.init(false);
  if (t.ok) t.M().P(t.met).I(optCode(k, "verbose")).I(-1).call("Set_iparameter");
  int w = g.range(0, 3);
  if (t.ok && w == 0) { t.M().S(e).call("loadMesh"); if (t.ok && hasMet) t.M().P(t.met).S(z).call("loadSol"); if (t.ok && x.count("all.sol")) t.M().PP().S("all.sol").call("loadAllSols"); }
  else if (t.ok && w == 1 && hasMet) t.M().P(t.met).S(h).call("loadMshMesh");
  else if (t.ok && w == 2 && x.count("all.msh")) t.M().PP().S("all.msh").call("loadMshMesh_and_allData");
  else if (t.ok && w == 3) { V n; t.M().P(t.met); t.a[0].push_back(n); t.a[1].push_back(n); t.S(e).call("loadGenericMesh"); }
  if (t.ok) t.M().S("absent.mesh").call("loadMesh");
  ok = ok && t.ok;
  return ok;
}

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 2020);
  Kind k = (Kind)(c.idx % 3);
  JobCfg cf; JobInfo info;
  cf.gen.maxCells = 12; cf.prisms = true; cf.weird = true;
  Job j = genJob(g, k, cf, info);
  j.arrays = g.chance(.5);
  r.sample = describe(j);
  Twin t(k, g, r);
  t.dirA = c.scratch + "/A"; t.dirB = c.scratch + "/B";
  mkdir(t.dirA.c_str(), 0777); mkdir(t.dirB.c_str(), 0777);
  auto end = [&]() { if (chdir("/")) abort(); };
  bool wild = g.chance(.4);
  if (wild && k == K2D && g.chance(.3) && j.in.v.size() > 8) for (int i = 0; i < 2; i++) { Qua q; q.v = {i, i + 2, i + 3, i + 5}; q.ref = i + 4; j.in.qua.push_back(q); }
  bool gen2d = !wild && k == K2D && g.chance(.2);
  if (gen2d) { j.mode = M_GEN; j.met = Sol(); j.metType = 0; j.in.tri.clear(); j.mats.clear(); j.br.clear(); }
  if (!t.setup(j)) return end();
  r.nontrivial = true;
  r.cnt[KNAME[k]] = 1;
  auto names = [&]() {
    t.M().S("in" + std::string(g.range(0, 40), 'n') + ".mesh").call("Set_inputMeshName"); if (t.ok) t.M().P(t.met).S("a" + std::string(g.range(0, 40), 's') + ".sol").call("Set_inputSolName");
    if (t.ok) t.M().S("x" + std::string(g.range(0, 40), 'o') + ".meshb").call("Set_outputMeshName"); if (t.ok) t.M().P(t.met).S("y" + std::string(g.range(0, 40), 'o') + ".sol").call("Set_outputSolName");
    if (t.ok && g.chance(.5)) t.M().S("p" + std::string(g.range(0, 40), 'p') + ".mmg").call("Set_inputParamName"); return t.ok; };
  if (g.chance(.3) && !names()) return end();
  if (wild) {
    if (j.mode != M_LS && g.chance(.7)) { Sol x; int d = k == K2D ? 2 : 3; x.size = g.chance(.6) ? d : d * (d + 1) / 2; x.d.resize(x.size * j.in.v.size()); for (double &y : x.d) y = g.uni(-1, 1); if (!t.sol(t.ls, x, j.in.v.size(), g.chance(.5))) return end(); }
    if (!t.randomCalls(60, j)) return end();
    if (g.chance(.2)) {
      t.M().S("f" + std::string(g.range(0, 9), 'f') + ".mesh").call("MMG5_Set_inputMeshName"); if (t.ok) t.M().S("f" + std::string(g.range(0, 40), 'o') + ".meshb").call("MMG5_Set_outputMeshName");
      if (t.ok) t.M().P(t.met).S("f" + std::string(g.range(0, 40), 's') + ".sol").call("MMG5_Set_inputSolName"); if (t.ok) t.M().P(t.met).S("f" + std::string(g.range(0, 9), 't') + ".sol").call("MMG5_Set_outputSolName");
      if (t.ok && g.chance(.4)) t.M().P(t.met).call("MMG5_mmgFree_names");
      if (!t.ok) return end();
    }
    if (g.chance(.1)) { if (!t.M().P(t.met).P(t.ls).call("MMG5_scaleMesh") || !t.M().P(t.met).P(t.ls).call("MMG5_unscaleMesh")) return end(); }
    if (g.chance(.2)) { if (!t.M().P(t.met).I(optCode(k, "nbr")).I(2).call("Set_iparameter")) return end(); for (int b = 0; b < 3; b++) if (!t.M().P(t.met).I(g.range(1, 99)).call("Set_lsBaseReference")) return end(); }
    if (k != K2D && g.chance(.1)) { if (!t.M().call("Clean_isoSurf")) return end(); }
    if (j.mode != M_LS && g.chance(.15)) { if (!t.M().P(t.met).I(optCode(k, "hsiz")).D(info.geo.h0).call("Set_dparameter") || !t.M().P(t.met).call("Set_constantSize")) return end(); }
    if (g.chance(.5) && !t.fields()) return end();
    if (k == K3D && g.chance(.3)) { if (!t.M().call("Set_handGivenMesh")) return end(); }
    if (g.chance(.3)) { if (t.ok && !t.M().P(t.met).call("Chk_meshData")) return end(); }
    if (g.chance(.3)) { if (k == K3D && !t.M().D(.5).D(.25).D(.125).I(7).call("Add_vertex")) return end(); if (k == K3D && t.m[0]->ne && !t.M().I(t.m[0]->tetra[1].v[0]).I(t.m[0]->tetra[1].v[1]).I(t.m[0]->tetra[1].v[2]).I(t.m[0]->tetra[1].v[3]).I(9).call("Add_tetrahedron")) return end(); }
    if (g.chance(.3) && !t.M().call("Init_parameters")) return end();
    if (k == K2D && g.chance(.3) && !t.M().call("Reset_verticestags")) return end();
    if (g.chance(.5) && !t.files()) return end();
    if (k == K2D && g.chance(.3)) { t.M().call("Free_triangles"); if (t.ok) t.M().call("Free_edges"); }
    if (t.ok && g.chance(.3)) t.M().P(t.met).call("Free_solutions");
    if (t.ok && t.fld[0] && g.chance(.5)) t.M().PP().call("Free_allSols");
  }
  else {
    std::string run = j.mode == M_LS ? std::string(k == K3D ? "mmg3dls" : k == KS ? "mmgsls" : "mmg2dls") : std::string(k == K3D ? "mmg3dlib" : k == KS ? "mmgslib" : "mmg2dlib");
    if (gen2d) run = "mmg2dmesh";
    if (j.mode == M_LS) t.M().P(t.ls).P(t.met); else t.M().P(t.met);
    if (!t.call(t.nm(run))) return end();
    r.cnt[strf("runs:%s", KNAME[k])] = 1;
    if (t.ret == MMG5_SUCCESS) {
      r.cnt["run-successes"] = 1;
      if (!t.randomCalls(25, j)) return end();
      if (!t.files()) return end();
    }
  }
  if (t.ok && g.chance(.05)) { char pn[40] = "programname"; int len = g.range(1, 11); int rv = 0; if (k == K3D) mmg3d_usage_(pn, &len); else if (k == KS) mmgs_usage_(pn, &len, &rv); else mmg2d_usage_(pn, &len); r.cnt["usage"] = 1; }
  if (t.ok) t.fin();
  end();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
