#include "oracle.h"

static bool fail(std::string &key, std::string &det, const std::string &k, const std::string &d) { key = k; det = d; return false; }

template <class A> static bool idxOk(const A &v, int np) {
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] < 0 || v[i] >= np) return false;
    for (size_t j = 0; j < i; j++) if (v[i] == v[j]) return false;
  }
  return true;
}
static int sgnperm(const std::array<int, 3> &t) {  // parity of t wrt its sorted order
  int s = 1;
  if (t[0] > t[1]) s = -s;
  if (t[0] > t[2]) s = -s;
  if (t[1] > t[2]) s = -s;
  return s;
}

static bool valid3(const Msh &m, const ValidOpt &o, std::string &key, std::string &det) {
  int np = m.v.size();
  std::vector<char> used(np, 0);
  struct FI { int n = 0, s = 0, r[2] = {0, 0}; bool pri = false; };
  std::map<F3, FI> fm;
  std::map<std::array<int, 4>, int> qf;  // prism quad faces
  std::set<E2> es;
  std::set<std::array<int, 4>> seen;
  for (size_t q = 0; q < m.tet.size(); q++) {
    auto &t = m.tet[q];
    if (!idxOk(t.v, np)) return fail(key, det, "bad-tetra-indices", strf("tetra %d: %d %d %d %d (np=%d)", (int)q, t.v[0], t.v[1], t.v[2], t.v[3], np));
    auto s = t.v;
    std::sort(s.begin(), s.end());
    if (!seen.insert(s).second) return fail(key, det, "duplicate-tetra", strf("tetra %d", (int)q));
    double v = tetvol(m, t);
    if (!(v > 0)) return fail(key, det, "non-positive-volume", strf("tetra %d (%d %d %d %d) volume %g", (int)q, t.v[0], t.v[1], t.v[2], t.v[3], v));
    for (int a : t.v) used[a] = 1;
    for (auto &e : TETEDGE) es.insert(se(t.v[e[0]], t.v[e[1]]));
    for (auto &f : TETFACE) {
      std::array<int, 3> g{t.v[f[0]], t.v[f[1]], t.v[f[2]]};
      FI &x = fm[sf(g[0], g[1], g[2])];
      if (x.n < 2) x.r[x.n] = t.ref;
      x.n++;
      x.s += sgnperm(g);
    }
  }
  for (auto &p : m.pri) {
    if (!idxOk(p.v, np)) return fail(key, det, "bad-prism-indices", "");
    for (int a : p.v) used[a] = 1;
    for (int b = 0; b < 2; b++) {
      FI &x = fm[sf(p.v[3 * b], p.v[3 * b + 1], p.v[3 * b + 2])];
      if (x.n < 2) x.r[x.n] = p.ref;
      x.n++;
      x.pri = true;
      for (int i = 0; i < 3; i++) es.insert(se(p.v[3 * b + i], p.v[3 * b + (i + 1) % 3]));
    }
    for (int i = 0; i < 3; i++) {
      es.insert(se(p.v[i], p.v[i + 3]));
      std::array<int, 4> s{p.v[i], p.v[(i + 1) % 3], p.v[i + 3], p.v[(i + 1) % 3 + 3]};
      std::sort(s.begin(), s.end());
      qf[s]++;
    }
  }
  for (auto &f : fm) {
    if (f.second.n > 2) return fail(key, det, "face-shared-by-more-than-two", strf("face %d %d %d shared by %d elements", f.first[0], f.first[1], f.first[2], f.second.n));
    if (f.second.n == 2 && !f.second.pri && f.second.s != 0) return fail(key, det, "overlapping-elements", strf("face %d %d %d has both elements on the same side", f.first[0], f.first[1], f.first[2]));
  }
  std::set<F3> ts;
  for (size_t q = 0; q < m.tri.size(); q++) {
    auto &t = m.tri[q];
    if (!idxOk(t.v, np)) return fail(key, det, "bad-triangle-indices", strf("triangle %d", (int)q));
    if (!o.lists) continue;
    F3 k = sf(t.v[0], t.v[1], t.v[2]);
    if (!ts.insert(k).second) return fail(key, det, "duplicate-triangle", strf("triangle %d (%d %d %d)", (int)q, k[0], k[1], k[2]));
    auto it = fm.find(k);
    if (it == fm.end()) return fail(key, det, "triangle-not-a-face", strf("triangle %d (%d %d %d) is not a face of an element", (int)q, k[0], k[1], k[2]));
    if (!o.opnbdy && it->second.n == 2 && it->second.r[0] == it->second.r[1] && !it->second.pri && !t.req)
      return fail(key, det, "triangle-inside-domain", strf("triangle %d (%d %d %d) lies between two tetra of reference %d", (int)q, k[0], k[1], k[2], it->second.r[0]));
  }
  if (o.lists) for (auto &f : fm) {
    bool bd = f.second.n == 1 || f.second.r[0] != f.second.r[1];
    if (f.second.pri) continue;
    if (bd && !ts.count(f.first)) return fail(key, det, "boundary-face-not-listed", strf("face %d %d %d (%d elements) has no triangle", f.first[0], f.first[1], f.first[2], f.second.n));
  }
  for (auto &t : m.qua) {
    if (!idxOk(t.v, np)) return fail(key, det, "bad-quad-indices", "");
    auto s = t.v;
    std::sort(s.begin(), s.end());
    if (o.lists && !qf.count(s)) return fail(key, det, "quad-not-a-face", "");
  }
  std::set<E2> ee;
  for (size_t q = 0; q < m.edg.size(); q++) {
    auto &e = m.edg[q];
    if (!idxOk(std::array<int, 2>{e.a, e.b}, np)) return fail(key, det, "bad-edge-indices", strf("edge %d: %d %d", (int)q, e.a, e.b));
    if (!o.lists) continue;
    if (!ee.insert(se(e.a, e.b)).second) return fail(key, det, "duplicate-edge", strf("edge %d (%d %d)", (int)q, e.a, e.b));
    if (!es.count(se(e.a, e.b))) return fail(key, det, "edge-not-in-mesh", strf("edge %d (%d %d)", (int)q, e.a, e.b));
  }
  if (!o.orphans) for (int i = 0; i < np; i++) if (!used[i]) return fail(key, det, "orphan-vertex", strf("vertex %d belongs to no element", i));
  return true;
}

static bool valid2(const Msh &m, const ValidOpt &o, std::string &key, std::string &det) {
  int np = m.v.size();
  std::vector<char> used(np, 0);
  struct EI { int n = 0, s = 0, r[2] = {0, 0}; bool q = false; };
  std::map<E2, EI> em;
  std::set<F3> ts;
  bool surf = m.kind == KS;
  for (size_t q = 0; q < m.tri.size(); q++) {
    auto &t = m.tri[q];
    if (!idxOk(t.v, np)) return fail(key, det, "bad-triangle-indices", strf("triangle %d: %d %d %d (np=%d)", (int)q, t.v[0], t.v[1], t.v[2], np));
    if (!ts.insert(sf(t.v[0], t.v[1], t.v[2])).second) return fail(key, det, "duplicate-triangle", strf("triangle %d (%d %d %d)", (int)q, t.v[0], t.v[1], t.v[2]));
    double a = triarea(m, t.v);
    if (!(a > 0)) return fail(key, det, "non-positive-area", strf("triangle %d area %g", (int)q, a));
    for (int i = 0; i < 3; i++) {
      used[t.v[i]] = 1;
      int a0 = t.v[i], b0 = t.v[(i + 1) % 3];
      EI &x = em[se(a0, b0)];
      if (x.n < 2) x.r[x.n] = t.ref;
      x.n++;
      x.s += a0 < b0 ? 1 : -1;
    }
  }
  for (auto &t : m.qua) {
    if (!idxOk(t.v, np)) return fail(key, det, "bad-quad-indices", "");
    for (int i = 0; i < 4; i++) {
      used[t.v[i]] = 1;
      int a0 = t.v[i], b0 = t.v[(i + 1) % 4];
      EI &x = em[se(a0, b0)];
      if (x.n < 2) x.r[x.n] = t.ref;
      x.n++;
      x.q = true;
      x.s += a0 < b0 ? 1 : -1;
    }
  }
  for (auto &e : em) {
    if (!surf && e.second.n > 2) return fail(key, det, "edge-shared-by-more-than-two", strf("edge %d %d shared by %d elements", e.first[0], e.first[1], e.second.n));
    if (e.second.n == 2 && e.second.s != 0 && !e.second.q) return fail(key, det, "overlapping-elements", strf("edge %d %d traversed twice in the same direction", e.first[0], e.first[1]));
  }
  std::set<E2> ee;
  for (size_t q = 0; q < m.edg.size(); q++) {
    auto &e = m.edg[q];
    if (!idxOk(std::array<int, 2>{e.a, e.b}, np)) return fail(key, det, "bad-edge-indices", strf("edge %d: %d %d", (int)q, e.a, e.b));
    if (!o.lists) continue;
    if (!ee.insert(se(e.a, e.b)).second) return fail(key, det, "duplicate-edge", strf("edge %d (%d %d)", (int)q, e.a, e.b));
    auto it = em.find(se(e.a, e.b));
    if (it == em.end()) return fail(key, det, "edge-not-in-mesh", strf("edge %d (%d %d)", (int)q, e.a, e.b));
    if (!surf && !o.opnbdy && it->second.n == 2 && it->second.r[0] == it->second.r[1] && !e.req && !it->second.q)
      return fail(key, det, "edge-inside-domain", strf("edge %d (%d %d) lies between two triangles of reference %d", (int)q, e.a, e.b, it->second.r[0]));
  }
  if (o.closedEdges && o.lists) for (auto &e : em) {
    bool bd = e.second.n != 2 || e.second.r[0] != e.second.r[1];
    if (bd && !ee.count(e.first) && !e.second.q) return fail(key, det, "boundary-edge-not-listed", strf("edge %d %d (%d triangles, refs %d %d)", e.first[0], e.first[1], e.second.n, e.second.r[0], e.second.r[1]));
  }
  if (!o.orphans) for (int i = 0; i < np; i++) if (!used[i]) return fail(key, det, "orphan-vertex", strf("vertex %d belongs to no element", i));
  return true;
}

bool checkValid(const Msh &m, const ValidOpt &o, std::string &key, std::string &det) {
  for (size_t i = 0; i < m.v.size(); i++) for (double c : m.v[i].c) if (!std::isfinite(c)) return fail(key, det, "non-finite-coordinate", strf("vertex %d", (int)i));
  if (m.kind == K3D) return valid3(m, o, key, det);
  return valid2(m, o, key, det);
}

std::map<int, double> volByRef(const Msh &m) {
  std::map<int, double> r;
  if (m.kind == K3D) {
    for (auto &t : m.tet) r[t.ref] += std::fabs(tetvol(m, t));
  } else for (auto &t : m.tri) r[t.ref] += std::fabs(triarea(m, t.v));
  return r;
}
std::map<int, double> areaByRef(const Msh &m) {
  std::map<int, double> r;
  if (m.kind == K3D) for (auto &t : m.tri) r[t.ref] += area3d(m, t.v);
  else for (auto &e : m.edg) r[e.ref] += norm(m.v[e.a].c - m.v[e.b].c);
  return r;
}

struct DSU {
  std::vector<int> p;
  explicit DSU(int n) : p(n) { for (int i = 0; i < n; i++) p[i] = i; }
  int f(int a) { while (p[a] != a) a = p[a] = p[p[a]]; return a; }
  void u(int a, int b) { p[f(a)] = f(b); }
};

static Topo topoOf(const Msh &m, const std::vector<int> &el) {
  Topo t;
  int n = el.size();
  DSU d(n);
  std::set<int> vs;
  std::set<E2> es;
  if (m.kind == K3D) {
    std::map<F3, std::vector<int>> fm;
    for (int i = 0; i < n; i++) {
      auto &T = m.tet[el[i]];
      for (int a : T.v) vs.insert(a);
      for (auto &e : TETEDGE) es.insert(se(T.v[e[0]], T.v[e[1]]));
      for (auto &f : TETFACE) fm[sf(T.v[f[0]], T.v[f[1]], T.v[f[2]])].push_back(i);
    }
    std::vector<F3> bf;
    for (auto &f : fm) { if (f.second.size() >= 2) d.u(f.second[0], f.second[1]); else bf.push_back(f.first); }
    t.euler = (int)vs.size() - (int)es.size() + (int)fm.size() - n;
    DSU b(bf.size());
    std::map<E2, int> be;
    for (size_t i = 0; i < bf.size(); i++) for (int q = 0; q < 3; q++) {
      E2 e = se(bf[i][q], bf[i][(q + 1) % 3]);
      auto it = be.find(e);
      if (it == be.end()) be[e] = i; else b.u(i, it->second);
    }
    std::set<int> roots;
    for (size_t i = 0; i < bf.size(); i++) roots.insert(b.f(i));
    t.bcomps = roots.size();
  } else {
    std::map<E2, std::vector<int>> em;
    for (int i = 0; i < n; i++) {
      auto &T = m.tri[el[i]];
      for (int q = 0; q < 3; q++) { vs.insert(T.v[q]); em[se(T.v[q], T.v[(q + 1) % 3])].push_back(i); }
    }
    std::map<int, int> bv;
    std::vector<E2> be;
    for (auto &e : em) { for (size_t q = 1; q < e.second.size(); q++) d.u(e.second[0], e.second[q]); if (e.second.size() == 1) be.push_back(e.first); }
    t.euler = (int)vs.size() - (int)em.size() + n;
    DSU b(be.size());
    for (size_t i = 0; i < be.size(); i++) for (int q : be[i]) {
      auto it = bv.find(q);
      if (it == bv.end()) bv[q] = i; else b.u(i, it->second);
    }
    std::set<int> roots;
    for (size_t i = 0; i < be.size(); i++) roots.insert(b.f(i));
    t.bcomps = roots.size();
  }
  std::set<int> roots;
  for (int i = 0; i < n; i++) roots.insert(d.f(i));
  t.comps = roots.size();
  return t;
}
std::map<int, Topo> topoByRef(const Msh &m) {
  std::map<int, std::vector<int>> by;
  if (m.kind == K3D) for (size_t i = 0; i < m.tet.size(); i++) by[m.tet[i].ref].push_back(i);
  else for (size_t i = 0; i < m.tri.size(); i++) by[m.tri[i].ref].push_back(i);
  std::map<int, Topo> r;
  for (auto &b : by) r[b.first] = topoOf(m, b.second);
  return r;
}
Topo topoAll(const Msh &m) {
  std::vector<int> el(m.kind == K3D ? m.tet.size() : m.tri.size());
  for (size_t i = 0; i < el.size(); i++) el[i] = i;
  return topoOf(m, el);
}

std::vector<BFace> boundaryFaces(const Msh &m) {
  std::map<F3, std::pair<int, int>> fm;
  for (size_t q = 0; q < m.tet.size(); q++) for (auto &f : TETFACE) {
    F3 k = sf(m.tet[q].v[f[0]], m.tet[q].v[f[1]], m.tet[q].v[f[2]]);
    auto it = fm.find(k);
    if (it == fm.end()) fm[k] = {(int)q, -1}; else it->second.second = q;
  }
  std::vector<BFace> r;
  for (auto &x : fm) if (x.second.second < 0 || m.tet[x.second.first].ref != m.tet[x.second.second].ref) r.push_back({x.first, x.second.first, x.second.second});
  return r;
}
std::vector<BEdge> boundaryEdges(const Msh &m) {
  std::map<E2, std::vector<int>> em;
  for (size_t q = 0; q < m.tri.size(); q++) for (int i = 0; i < 3; i++) em[se(m.tri[q].v[i], m.tri[q].v[(i + 1) % 3])].push_back(q);
  std::vector<BEdge> r;
  for (auto &x : em) if (x.second.size() != 2 || m.tri[x.second[0]].ref != m.tri[x.second[1]].ref) r.push_back({x.first, x.second});
  return r;
}

double distPointSeg(const V3 &p, const V3 &a, const V3 &b) {
  V3 d = b - a;
  double l = dot(d, d), t = l > 0 ? dot(p - a, d) / l : 0;
  t = std::min(1., std::max(0., t));
  return norm(p - (a + t * d));
}
double distPointTri(const V3 &p, const V3 &a, const V3 &b, const V3 &c) {
  V3 n = cross(b - a, c - a);
  double l = dot(n, n);
  if (l > 0) {
    // inside test by barycentrics
    V3 w = p - a;
    double g = dot(cross(b - a, w), n) / l, be = dot(cross(w, c - a), n) / l, al = 1 - g - be;
    if (al >= 0 && be >= 0 && g >= 0) return std::fabs(dot(w, n)) / std::sqrt(l);
  }
  return std::min({distPointSeg(p, a, b), distPointSeg(p, b, c), distPointSeg(p, c, a)});
}
