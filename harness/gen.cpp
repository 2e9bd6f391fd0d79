#include "gen.h"

static const double PI = 3.14159265358979323846;

void finishGeo(const Msh &m, Geo &g) {
  std::set<E2> es;
  for (auto &t : m.tet) for (auto &e : TETEDGE) es.insert(se(t.v[e[0]], t.v[e[1]]));
  for (auto &t : m.tri) for (int i = 0; i < 3; i++) es.insert(se(t.v[i], t.v[(i + 1) % 3]));
  for (auto &e : m.edg) es.insert(se(e.a, e.b));
  double s = 0;
  for (auto &e : es) s += norm(m.v[e[0]].c - m.v[e[1]].c);
  g.h0 = es.empty() ? 1 : s / es.size();
  g.L = bboxsize(m);
}

void compactVertices(Msh &m) {
  std::vector<int> id(m.v.size(), -1);
  auto mark = [&](int &a) { id[a] = 0; };
  for (auto &t : m.tet) for (int &a : t.v) mark(a);
  for (auto &t : m.pri) for (int &a : t.v) mark(a);
  for (auto &t : m.tri) for (int &a : t.v) mark(a);
  for (auto &t : m.qua) for (int &a : t.v) mark(a);
  for (auto &e : m.edg) { mark(e.a); mark(e.b); }
  std::vector<Vtx> nv;
  for (size_t i = 0; i < m.v.size(); i++) if (!id[i]) { id[i] = nv.size(); nv.push_back(m.v[i]); }
  m.v = nv;
  for (auto &t : m.tet) for (int &a : t.v) a = id[a];
  for (auto &t : m.pri) for (int &a : t.v) a = id[a];
  for (auto &t : m.tri) for (int &a : t.v) a = id[a];
  for (auto &t : m.qua) for (int &a : t.v) a = id[a];
  for (auto &e : m.edg) { e.a = id[e.a]; e.b = id[e.b]; }
}

template <class T> static void shuf(std::vector<T> &v, Rng &r) {
  for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
}
void renumber(Msh &m, Rng &r) {
  int n = m.v.size();
  std::vector<int> p(n);
  for (int i = 0; i < n; i++) p[i] = i;
  shuf(p, r);
  std::vector<Vtx> nv(n);
  for (int i = 0; i < n; i++) nv[p[i]] = m.v[i];
  m.v = nv;
  for (auto &t : m.tet) {
    for (int &a : t.v) a = p[a];
    int k = r.below(3);  // even permutation keeps the orientation
    if (k == 1) t.v = {t.v[1], t.v[2], t.v[0], t.v[3]};
    else if (k == 2) t.v = {t.v[1], t.v[0], t.v[3], t.v[2]};
  }
  for (auto &t : m.pri) for (int &a : t.v) a = p[a];
  for (auto &t : m.tri) { for (int &a : t.v) a = p[a]; int k = r.below(3); std::rotate(t.v.begin(), t.v.begin() + k, t.v.end()); }
  for (auto &t : m.qua) for (int &a : t.v) a = p[a];
  for (auto &e : m.edg) { e.a = p[e.a]; e.b = p[e.b]; if (r.chance(.5)) std::swap(e.a, e.b); }
  shuf(m.tet, r); shuf(m.tri, r); shuf(m.edg, r);
}

// Affine map from the generator configuration; returns a function.
static std::function<V3(V3)> affineMap(Rng &r, const GenCfg &c, int dim, Geo &g) {
  V3 s{1, 1, 1}, t{0, 0, 0};
  double R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  g.axis = true;
  if (c.affine && r.chance(.6)) {
    g.axis = false;
    if (r.chance(.5)) for (int i = 0; i < dim; i++) s[i] = std::exp(r.uni(0, std::log(c.maxStretch)));
    double sc = std::exp(r.uni(-1, 1) * std::log(c.maxScale));
    if (r.chance(.5)) for (int i = 0; i < 3; i++) s[i] *= sc; else sc = 1;
    if (r.chance(.5)) for (int i = 0; i < dim; i++) t[i] = sc * r.uni(-5, 5);
    if (r.chance(.5)) {
      double a = r.uni(0, 2 * PI), b = dim == 3 ? r.uni(0, PI) : 0, d = dim == 3 ? r.uni(0, 2 * PI) : 0;
      double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), cd = cos(d), sd = sin(d);
      double A[3][3] = {{ca, -sa, 0}, {sa, ca, 0}, {0, 0, 1}}, B[3][3] = {{cb, 0, sb}, {0, 1, 0}, {-sb, 0, cb}}, D[3][3] = {{cd, -sd, 0}, {sd, cd, 0}, {0, 0, 1}};
      double M[3][3];
      auto mul = [](double X[3][3], double Y[3][3], double Z[3][3]) {
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Z[i][j] = 0; for (int k = 0; k < 3; k++) Z[i][j] += X[i][k] * Y[k][j]; }
      };
      mul(A, B, M); mul(M, D, R);
    }
    g.desc += strf(" affine(s=%.3g,%.3g,%.3g t=%.3g)", s[0], s[1], s[2], norm(t));
  }
  std::array<double, 9> Rf;
  for (int i = 0; i < 9; i++) Rf[i] = R[i / 3][i % 3];
  return [=](V3 p) {
    V3 q{p[0] * s[0], p[1] * s[1], p[2] * s[2]}, o{0, 0, 0};
    for (int i = 0; i < 3; i++) o[i] = Rf[3 * i] * q[0] + Rf[3 * i + 1] * q[1] + Rf[3 * i + 2] * q[2] + t[i];
    return o;
  };
}

static double minTetVolRel(const Msh &m) {
  double w = 1e300;
  for (auto &t : m.tet) {
    double v = tetvol(m, t), l = 0;
    for (auto &e : TETEDGE) l = std::max(l, norm(m.v[t.v[e[0]]].c - m.v[t.v[e[1]]].c));
    w = std::min(w, v / (l * l * l));
  }
  return w;
}

Msh gen3(Rng &r, const GenCfg &c, Geo &g) {
  Msh m;
  m.kind = K3D;
  int n[3];
  for (;;) {
    for (int &x : n) x = r.range(1, 5);
    if (r.chance(.5)) { int a = r.range(2, 4); n[0] = n[1] = n[2] = a; }
    if (n[0] * n[1] * n[2] <= c.maxCells && n[0] * n[1] * n[2] >= 4) break;
  }
  auto cid = [&](int i, int j, int k) { return (k * n[1] + j) * n[0] + i; };
  int nc = n[0] * n[1] * n[2];
  std::vector<int> ref(nc, 0);
  // ---- mask (0 = removed)
  int base = r.chance(.2) ? 0 : r.range(1, 9);
  (void)base;
  std::vector<char> on(nc, 1);
  std::string mask = "full";
  if (c.holes && r.chance(.45)) {
    int mk = r.below(4);
    if (mk == 0 && n[0] >= 2 && n[1] >= 2) {
      mask = "L";
      int a = r.range(1, n[0] - 1), b = r.range(1, n[1] - 1);
      for (int k = 0; k < n[2]; k++) for (int j = b; j < n[1]; j++) for (int i = a; i < n[0]; i++) on[cid(i, j, k)] = 0;
    } else if (mk == 1 && n[0] >= 3 && n[1] >= 3 && n[2] >= 3) {
      mask = "cavity";
      on[cid(r.range(1, n[0] - 2), r.range(1, n[1] - 2), r.range(1, n[2] - 2))] = 0;
    } else if (mk == 2 && n[0] >= 3 && n[1] >= 3) {
      mask = "tunnel";
      int a = r.range(1, n[0] - 2), b = r.range(1, n[1] - 2);
      for (int k = 0; k < n[2]; k++) on[cid(a, b, k)] = 0;
    } else if (mk == 3 && n[0] >= 3) {
      mask = "disjoint";
      int a = r.range(1, n[0] - 2);
      for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) on[cid(a, j, k)] = 0;
    }
  }
  // ---- domain references
  std::string dom = "1dom";
  int r1 = r.chance(.3) ? 0 : r.range(1, 20), r2 = r1 + r.range(1, 5), r3 = r2 + r.range(1, 5), r4 = r3 + 1;
  int dk = c.multi && r.chance(.5) ? r.range(1, 4) : 0;
  int ca = r.range(1, std::max(1, n[0] - 1)), cb = r.range(1, std::max(1, n[1] - 1));
  for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
    int &q = ref[cid(i, j, k)];
    q = r1;
    if (dk == 1) { dom = "layers"; if (i >= ca) q = r2; }
    if (dk == 2) { dom = "quadrants"; q = i < ca ? (j < cb ? r1 : r2) : (j < cb ? r3 : r4); }
    if (dk == 3) { dom = "checker"; q = (i < ca) == (j < cb) ? r1 : r2; if (n[0] < 2 || n[1] < 2) q = r1; }
    if (dk == 4) { dom = "inner"; if (n[0] >= 3 && n[1] >= 3 && n[2] >= 3) { if (i > 0 && i < n[0] - 1 && j > 0 && j < n[1] - 1 && k > 0 && k < n[2] - 1) q = r2; } else if (i >= ca) q = r2; }
  }
  if (dk == 3) dom = "checker";
  // ---- node positions
  std::vector<double> ax[3];
  bool nonuni = r.chance(.4);
  for (int d = 0; d < 3; d++) {
    double x = 0;
    ax[d].push_back(0);
    for (int i = 0; i < n[d]; i++) { x += nonuni ? r.uni(.6, 1.6) : 1.; ax[d].push_back(x); }
  }
  double sc = 1. / std::max({ax[0].back(), ax[1].back(), ax[2].back()});
  for (auto &a : ax) for (double &x : a) x *= sc;
  int N[3] = {n[0] + 1, n[1] + 1, n[2] + 1};
  auto vid = [&](int i, int j, int k) { return (k * N[1] + j) * N[0] + i; };
  m.v.resize(N[0] * N[1] * N[2]);
  for (int k = 0; k < N[2]; k++) for (int j = 0; j < N[1]; j++) for (int i = 0; i < N[0]; i++) m.v[vid(i, j, k)].c = {ax[0][i], ax[1][j], ax[2][k]};
  // ---- tetrahedra
  bool five = r.chance(.3);
  int mir[3] = {r.below(2), r.below(2), r.below(2)};
  static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
    if (!on[cid(i, j, k)]) continue;
    int rf = ref[cid(i, j, k)];
    auto cv = [&](int b) { return vid(i + (b & 1), j + ((b >> 1) & 1), k + ((b >> 2) & 1)); };
    if (!five) {
      int mm = mir[0] | mir[1] << 1 | mir[2] << 2;
      for (auto &p : PERM) {
        int b = 0, idx = 1;
        Tet t;
        t.ref = rf;
        t.v[0] = cv(0 ^ mm);
        for (int d : p) { b |= 1 << d; t.v[idx++] = cv(b ^ mm); }
        m.tet.push_back(t);
      }
    } else {
      static const int FV[5][4] = {{0, 3, 5, 6}, {1, 0, 3, 5}, {2, 0, 3, 6}, {4, 0, 5, 6}, {7, 3, 5, 6}};
      int mm = ((i + j + k) & 1) ? 7 ^ 6 : 0;  // alternate by reflecting x
      for (auto &f : FV) {
        Tet t;
        t.ref = rf;
        for (int q = 0; q < 4; q++) t.v[q] = cv(f[q] ^ mm);
        m.tet.push_back(t);
      }
    }
  }
  for (auto &t : m.tet) if (tetvol(m, t) < 0) std::swap(t.v[2], t.v[3]);
  // ---- faces: boundary and interfaces
  struct FI { int t1 = -1, t2 = -1; };
  std::map<F3, FI> fm;
  for (size_t q = 0; q < m.tet.size(); q++) for (auto &f : TETFACE) {
    FI &x = fm[sf(m.tet[q].v[f[0]], m.tet[q].v[f[1]], m.tet[q].v[f[2]])];
    (x.t1 < 0 ? x.t1 : x.t2) = q;
  }
  auto faceAxis = [&](const F3 &f, int &side) {
    for (int d = 0; d < 3; d++)
      if (std::fabs(m.v[f[0]].c[d] - m.v[f[1]].c[d]) < 1e-12 && std::fabs(m.v[f[0]].c[d] - m.v[f[2]].c[d]) < 1e-12) {
        double x = m.v[f[0]].c[d];
        side = x < 1e-12 ? 0 : x > ax[d].back() - 1e-12 ? 1 : 2;
        return d;
      }
    side = 3;
    return 3;
  };
  int refmode = r.below(4);  // 0: all 0; 1: one value; 2: per side; 3: per axis
  bool wantTri = c.given && r.chance(.6), wantItf = wantTri && r.chance(.7);
  std::vector<std::set<std::pair<int, int>>> adj(m.v.size());  // (axis, ref-ish) per vertex
  std::vector<Tri> tris;
  for (auto &kv : fm) {
    bool bd = kv.second.t2 < 0, itf = !bd && m.tet[kv.second.t1].ref != m.tet[kv.second.t2].ref;
    if (!bd && !itf) continue;
    int side, a = faceAxis(kv.first, side);
    int rr = refmode == 0 ? 0 : refmode == 1 ? 7 : refmode == 2 ? 10 + 3 * a + side : 30 + a;
    if (itf && refmode >= 2) rr += 50;
    // plane identity: axis and coordinate, plus the pair of domains
    int pl = a * 1000 + (int)std::lround(m.v[kv.first[0]].c[a] * 900);
    int dd = bd ? m.tet[kv.second.t1].ref : 1000 + m.tet[kv.second.t1].ref * 50 + m.tet[kv.second.t2].ref;
    for (int q : kv.first) adj[q].insert({pl, dd * 1000 + rr});
    if (!(bd ? wantTri : wantItf)) continue;
    Tri t;
    t.ref = rr;
    // orientation: outward of t1 (orientation of given triangles is free; Mmg reorients)
    for (auto &f : TETFACE) {
      auto &T = m.tet[kv.second.t1];
      if (sf(T.v[f[0]], T.v[f[1]], T.v[f[2]]) == kv.first) t.v = {T.v[f[0]], T.v[f[1]], T.v[f[2]]};
    }
    tris.push_back(t);
  }
  m.tri = tris;
  // ---- jitter
  bool jit = c.jitter && r.chance(.6);
  if (jit) {
    double amp = r.uni(.03, .22);
    std::vector<Vtx> save = m.v;
    for (int att = 0; att < 4; att++, amp *= .5) {
      for (int k = 0; k < N[2]; k++) for (int j = 0; j < N[1]; j++) for (int i = 0; i < N[0]; i++) {
        int v = vid(i, j, k), I[3] = {i, j, k};
        bool move[3] = {true, true, true};
        if (adj[v].size() == 1) move[adj[v].begin()->first / 1000] = false;
        else if (adj[v].size() > 1) continue;
        for (int d = 0; d < 3; d++) if (move[d] && I[d] > 0 && I[d] < n[d]) {
          double h = std::min(ax[d][I[d]] - ax[d][I[d] - 1], ax[d][I[d] + 1] - ax[d][I[d]]);
          m.v[v].c[d] = save[v].c[d] + amp * h * r.uni(-1, 1);
        }
      }
      if (minTetVolRel(m) > 5e-3) break;
      m.v = save;
    }
    g.desc += " jitter";
  }
  // ---- edges (lines where two plane identities meet) and corners, optionally given
  if (wantTri && r.chance(.35)) {
    std::map<E2, std::set<std::pair<int, int>>> em;
    for (auto &t : m.tri) {
      F3 f{t.v[0], t.v[1], t.v[2]};
      int side, a = faceAxis(f, side);
      for (int i = 0; i < 3; i++) em[se(t.v[i], t.v[(i + 1) % 3])].insert({a, side});
    }
    int er = r.chance(.5) ? 0 : r.range(1, 9);
    bool rd = r.chance(.6);
    for (auto &e : em) {
      std::set<int> axs;
      for (auto &q : e.second) axs.insert(q.first);
      if (axs.size() >= 2) { Edg x; x.a = e.first[0]; x.b = e.first[1]; x.ref = er; x.ridge = rd; m.edg.push_back(x); }
    }
    g.desc += " edges";
  }
  compactVertices(m);
  g.flat = true;
  // ---- curved map
  if (c.curved && r.chance(.3)) {
    g.flat = false;
    int cm = r.below(3);
    std::vector<Vtx> save = m.v;
    for (double s = 1; s > .1; s *= .6) {
      for (size_t i = 0; i < m.v.size(); i++) {
        V3 p = save[i].c;
        if (cm == 0) { double th = s * 1.2 * (p[1] - .5), R = 1.5 + p[0]; m.v[i].c = {R * cos(th), R * sin(th), p[2]}; }
        else if (cm == 1) { double b = s * .25; m.v[i].c = {p[0], p[1], p[2] + b * sin(PI * p[0]) * sin(PI * p[1])}; }
        else { V3 q = p - V3{.5, .5, .5}; double f = 1 - s * .35 * dot(q, q); m.v[i].c = V3{.5, .5, .5} + f * q; }
      }
      if (minTetVolRel(m) > 4e-3) break;
    }
    static const char *const CN[] = {"bend", "bump", "ball"};
    g.desc += strf(" %s", CN[cm]);
  }
  auto A = affineMap(r, c, 3, g);
  for (auto &v : m.v) v.c = A(v.c);
  for (auto &t : m.tet) if (tetvol(m, t) < 0) std::swap(t.v[2], t.v[3]);
  int vr = r.chance(.3) ? r.range(1, 9) : 0;
  for (auto &v : m.v) v.ref = vr;
  if (c.renumber && r.chance(.5)) renumber(m, r);
  g.desc = strf("grid %dx%dx%d %s %s %s%s", n[0], n[1], n[2], five ? "5tet" : "kuhn", mask.c_str(), dom.c_str(), wantTri ? wantItf ? " tria+itf" : " tria" : "") + g.desc;
  finishGeo(m, g);
  return m;
}

Msh gen2(Rng &r, const GenCfg &c, Geo &g) {
  Msh m;
  m.kind = K2D;
  int n[2];
  for (;;) {
    for (int &x : n) x = r.range(2, 9);
    if (n[0] * n[1] <= c.maxCells && n[0] * n[1] >= 4) break;
  }
  auto cid = [&](int i, int j) { return j * n[0] + i; };
  int nc = n[0] * n[1];
  std::vector<char> on(nc, 1);
  std::vector<int> ref(nc);
  std::string mask = "full", dom = "1dom";
  if (c.holes && r.chance(.5)) {
    int mk = r.below(3);
    if (mk == 0) {
      mask = "L";
      int a = r.range(1, n[0] - 1), b = r.range(1, n[1] - 1);
      for (int j = b; j < n[1]; j++) for (int i = a; i < n[0]; i++) on[cid(i, j)] = 0;
    } else if (mk == 1 && n[0] >= 3 && n[1] >= 3) {
      mask = "hole";
      int a = r.range(1, n[0] - 2), b = r.range(1, n[1] - 2), a2 = r.range(a, n[0] - 2), b2 = r.range(b, n[1] - 2);
      for (int j = b; j <= b2; j++) for (int i = a; i <= a2; i++) on[cid(i, j)] = 0;
    } else if (mk == 2 && n[0] >= 3) {
      mask = "disjoint";
      int a = r.range(1, n[0] - 2);
      for (int j = 0; j < n[1]; j++) on[cid(a, j)] = 0;
    }
  }
  int r1 = r.chance(.3) ? 0 : r.range(1, 20), r2 = r1 + r.range(1, 5), r3 = r2 + r.range(1, 5), r4 = r3 + 1;
  int dk = c.multi && r.chance(.55) ? r.range(1, 4) : 0;
  int ca = r.range(1, n[0] - 1), cb = r.range(1, n[1] - 1);
  for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
    int &q = ref[cid(i, j)];
    q = r1;
    if (dk == 1) { dom = "layers"; if (i >= ca) q = r2; }
    if (dk == 2) { dom = "quadrants"; q = i < ca ? (j < cb ? r1 : r2) : (j < cb ? r3 : r4); }
    if (dk == 3) { dom = "checker"; q = (i < ca) == (j < cb) ? r1 : r2; }
    if (dk == 4) { dom = "inner"; if (n[0] >= 3 && n[1] >= 3) { if (i > 0 && i < n[0] - 1 && j > 0 && j < n[1] - 1) q = r2; } else if (i >= ca) q = r2; }
  }
  std::vector<double> ax[2];
  bool nonuni = r.chance(.4);
  for (int d = 0; d < 2; d++) {
    double x = 0;
    ax[d].push_back(0);
    for (int i = 0; i < n[d]; i++) { x += nonuni ? r.uni(.6, 1.6) : 1.; ax[d].push_back(x); }
  }
  double sc = 1. / std::max(ax[0].back(), ax[1].back());
  for (auto &a : ax) for (double &x : a) x *= sc;
  int N[2] = {n[0] + 1, n[1] + 1};
  auto vid = [&](int i, int j) { return j * N[0] + i; };
  m.v.resize(N[0] * N[1]);
  for (int j = 0; j < N[1]; j++) for (int i = 0; i < N[0]; i++) m.v[vid(i, j)].c = {ax[0][i], ax[1][j], 0};
  bool rdiag = r.chance(.6), fdiag = r.chance(.5);
  for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
    if (!on[cid(i, j)]) continue;
    int a = vid(i, j), b = vid(i + 1, j), cc = vid(i + 1, j + 1), d = vid(i, j + 1);
    bool dg = rdiag ? r.chance(.5) : fdiag;
    Tri t, u;
    t.ref = u.ref = ref[cid(i, j)];
    if (dg) { t.v = {a, b, cc}; u.v = {a, cc, d}; } else { t.v = {a, b, d}; u.v = {b, cc, d}; }
    m.tri.push_back(t); m.tri.push_back(u);
  }
  std::map<E2, std::vector<int>> em;
  for (size_t q = 0; q < m.tri.size(); q++) for (int i = 0; i < 3; i++) em[se(m.tri[q].v[i], m.tri[q].v[(i + 1) % 3])].push_back(q);
  int refmode = r.below(3);
  bool wantE = c.given && r.chance(.6), wantItf = wantE && r.chance(.7);
  std::vector<std::set<std::pair<int, int>>> adj(m.v.size());
  for (auto &kv : em) {
    bool bd = kv.second.size() == 1, itf = !bd && m.tri[kv.second[0]].ref != m.tri[kv.second[1]].ref;
    if (!bd && !itf) continue;
    int a = std::fabs(m.v[kv.first[0]].c[0] - m.v[kv.first[1]].c[0]) < 1e-12 ? 0 : 1;
    double x = m.v[kv.first[0]].c[a];
    int side = x < 1e-12 ? 0 : x > ax[a].back() - 1e-12 ? 1 : 2;
    int rr = refmode == 0 ? 0 : refmode == 1 ? 7 : 10 + 3 * a + side + (itf ? 50 : 0);
    int dd = bd ? m.tri[kv.second[0]].ref : 1000 + m.tri[kv.second[0]].ref * 50 + m.tri[kv.second[1]].ref;
    for (int q : kv.first) adj[q].insert({a, dd * 1000 + rr});
    if (!(bd ? wantE : wantItf)) continue;
    Edg e; e.a = kv.first[0]; e.b = kv.first[1]; e.ref = rr;
    m.edg.push_back(e);
  }
  if (c.jitter && r.chance(.6)) {
    double amp = r.uni(.05, .25);
    std::vector<Vtx> save = m.v;
    for (int att = 0; att < 4; att++, amp *= .5) {
      for (int j = 0; j < N[1]; j++) for (int i = 0; i < N[0]; i++) {
        int v = vid(i, j), I[2] = {i, j};
        bool move[2] = {true, true};
        if (adj[v].size() == 1) move[adj[v].begin()->first] = false;
        else if (adj[v].size() > 1) continue;
        for (int d = 0; d < 2; d++) if (move[d] && I[d] > 0 && I[d] < n[d]) {
          double h = std::min(ax[d][I[d]] - ax[d][I[d] - 1], ax[d][I[d] + 1] - ax[d][I[d]]);
          m.v[v].c[d] = save[v].c[d] + amp * h * r.uni(-1, 1);
        }
      }
      double w = 1e300;
      for (auto &t : m.tri) w = std::min(w, area2d(m, t.v));
      if (w > .02 * sc * sc) break;
      m.v = save;
    }
    g.desc += " jitter";
  }
  compactVertices(m);
  g.flat = true;
  if (c.curved && r.chance(.3)) {
    g.flat = false;
    int cm = r.below(2);
    std::vector<Vtx> save = m.v;
    for (double s = 1; s > .05; s *= .6) {
      for (size_t i = 0; i < m.v.size(); i++) {
        V3 p = save[i].c;
        if (cm == 0) { double th = s * 1.4 * p[1], R = 1. + p[0]; m.v[i].c = {R * cos(th), R * sin(th), 0}; }
        else { m.v[i].c = {p[0], p[1] + s * .2 * sin(PI * p[0]), 0}; }
      }
      double w = 1e300;
      for (auto &t : m.tri) w = std::min(w, area2d(m, t.v));
      if (w > .01 * sc * sc) break;
    }
    g.desc += cm ? " wave" : " bend";
  }
  auto A = affineMap(r, c, 2, g);
  for (auto &v : m.v) { v.c = A(v.c); v.c[2] = 0; }
  int vr = r.chance(.3) ? r.range(1, 9) : 0;
  for (auto &v : m.v) v.ref = vr;
  if (c.renumber && r.chance(.5)) renumber(m, r);
  g.desc = strf("grid %dx%d %s %s%s", n[0], n[1], mask.c_str(), dom.c_str(), wantE ? wantItf ? " edges+itf" : " edges" : "") + g.desc;
  finishGeo(m, g);
  return m;
}

Msh icosphere(int lvl, double rad) {
  Msh m;
  m.kind = KS;
  double p = (1 + sqrt(5.)) / 2;
  double X[12][3] = {{-1, p, 0}, {1, p, 0}, {-1, -p, 0}, {1, -p, 0}, {0, -1, p}, {0, 1, p}, {0, -1, -p}, {0, 1, -p}, {p, 0, -1}, {p, 0, 1}, {-p, 0, -1}, {-p, 0, 1}};
  int F[20][3] = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
  auto add = [&](V3 c) { Vtx v; v.c = (rad / norm(c)) * c; m.v.push_back(v); return (int)m.v.size() - 1; };
  for (auto &x : X) add({x[0], x[1], x[2]});
  for (auto &f : F) { Tri t; t.v = {f[0], f[1], f[2]}; m.tri.push_back(t); }
  for (int l = 0; l < lvl; l++) {
    std::map<E2, int> mid;
    std::vector<Tri> nt;
    auto md = [&](int a, int b) {
      E2 e = se(a, b);
      auto it = mid.find(e);
      if (it != mid.end()) return it->second;
      return mid[e] = add(m.v[a].c + m.v[b].c);
    };
    for (auto t : m.tri) {
      int a = md(t.v[0], t.v[1]), b = md(t.v[1], t.v[2]), c = md(t.v[2], t.v[0]);
      Tri q = t;
      q.v = {t.v[0], a, c}; nt.push_back(q);
      q.v = {t.v[1], b, a}; nt.push_back(q);
      q.v = {t.v[2], c, b}; nt.push_back(q);
      q.v = {a, b, c}; nt.push_back(q);
    }
    m.tri = nt;
  }
  return m;
}

Msh torusSurf(int nu, int nv, double R, double rr) {
  Msh m;
  m.kind = KS;
  for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) {
    double u = 2 * PI * i / nu, w = 2 * PI * j / nv;
    Vtx v;
    v.c = {(R + rr * cos(w)) * cos(u), (R + rr * cos(w)) * sin(u), rr * sin(w)};
    m.v.push_back(v);
  }
  auto id = [&](int i, int j) { return (i % nu) * nv + j % nv; };
  for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) {
    Tri t;
    t.v = {id(i, j), id(i + 1, j), id(i + 1, j + 1)}; m.tri.push_back(t);
    t.v = {id(i, j), id(i + 1, j + 1), id(i, j + 1)}; m.tri.push_back(t);
  }
  return m;
}

Msh boundarySurface(const Msh &m3, bool interfaces, Rng *r, double dropSide) {
  Msh s;
  s.kind = KS;
  s.v = m3.v;
  std::map<F3, std::pair<int, int>> fm;
  for (size_t q = 0; q < m3.tet.size(); q++) for (auto &f : TETFACE) {
    F3 k = sf(m3.tet[q].v[f[0]], m3.tet[q].v[f[1]], m3.tet[q].v[f[2]]);
    auto it = fm.find(k);
    if (it == fm.end()) fm[k] = {(int)q, -1}; else it->second.second = q;
  }
  std::map<F3, int> tr;
  for (auto &t : m3.tri) tr[sf(t.v[0], t.v[1], t.v[2])] = t.ref;
  int drop = -1;
  if (r && dropSide > 0 && r->chance(dropSide) && !tr.empty()) { auto it = tr.begin(); std::advance(it, r->below((int)tr.size())); drop = it->second; }
  bool dropped = false;
  std::vector<Tri> kept;
  for (size_t q = 0; q < m3.tet.size(); q++) for (auto &f : TETFACE) {
    auto &T = m3.tet[q];
    F3 k = sf(T.v[f[0]], T.v[f[1]], T.v[f[2]]);
    auto &x = fm[k];
    bool bd = x.second < 0, itf = !bd && interfaces && m3.tet[x.first].ref != m3.tet[x.second].ref && (int)q == x.first;
    if (!bd && !itf) continue;
    Tri t;
    t.v = {T.v[f[0]], T.v[f[1]], T.v[f[2]]};
    auto it = tr.find(k);
    t.ref = it == tr.end() ? T.ref : it->second;
    if (drop >= 0 && it != tr.end() && it->second == drop) { dropped = true; continue; }
    kept.push_back(t);
  }
  (void)dropped;
  s.tri = kept;
  std::set<E2> ok;
  for (auto &t : s.tri) for (int i = 0; i < 3; i++) ok.insert(se(t.v[i], t.v[(i + 1) % 3]));
  for (auto &e : m3.edg) if (ok.count(se(e.a, e.b))) s.edg.push_back(e);
  compactVertices(s);
  return s;
}

Msh genS(Rng &r, const GenCfg &c, Geo &g) {
  int k = r.below(10);
  if (c.curved && k < 3) {
    Msh m;
    if (k < 2) { m = icosphere(r.range(1, 3), 1); g.desc = "icosphere"; }
    else { m = torusSurf(r.range(8, 16), r.range(6, 10), 1, r.uni(.25, .5)); g.desc = "torus"; }
    g.flat = false;
    int rf = r.chance(.5) ? 0 : r.range(1, 9);
    for (auto &t : m.tri) t.ref = rf;
    if (r.chance(.4)) { for (auto &t : m.tri) { V3 b = m.v[t.v[0]].c + m.v[t.v[1]].c + m.v[t.v[2]].c; if (b[0] > 0) t.ref = rf + 1; } g.desc += " 2refs"; }
    if (c.open && r.chance(.3)) {
      std::vector<Tri> nt;
      for (auto &t : m.tri) { V3 b = m.v[t.v[0]].c + m.v[t.v[1]].c + m.v[t.v[2]].c; if (b[2] < 1.) nt.push_back(t); }
      m.tri = nt; g.closed = false; g.desc += " open";
      compactVertices(m);
    }
    auto A = affineMap(r, c, 3, g);
    for (auto &v : m.v) v.c = A(v.c);
    if (c.renumber && r.chance(.5)) renumber(m, r);
    finishGeo(m, g);
    return m;
  }
  GenCfg c3 = c;
  Msh m3 = gen3(r, c3, g);
  bool itf = c.nonmanifold && r.chance(.3);
  double drop = c.open ? .35 : 0;
  Msh s = boundarySurface(m3, itf, &r, drop);
  if (s.tri.size() < 4) s = boundarySurface(m3, itf, nullptr, 0);
  if (itf) g.desc += " +interfaces";
  // closed?
  std::map<E2, int> em;
  for (auto &t : s.tri) for (int i = 0; i < 3; i++) em[se(t.v[i], t.v[(i + 1) % 3])]++;
  for (auto &e : em) if (e.second == 1) g.closed = false;
  if (!g.closed) g.desc += " open";
  finishGeo(s, g);
  return s;
}

Msh genMesh(Rng &r, Kind k, const GenCfg &c, Geo &g) {
  if (k == K3D) return gen3(r, c, g);
  if (k == KS) return genS(r, c, g);
  return gen2(r, c, g);
}

static void centre(const Msh &m, V3 &lo, V3 &hi) {
  lo = {1e300, 1e300, 1e300}; hi = {-1e300, -1e300, -1e300};
  for (auto &v : m.v) for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], v.c[d]); hi[d] = std::max(hi[d], v.c[d]); }
}

Sol genMetric(Rng &r, const Msh &m, const Geo &g, bool aniso, double lo, double hi) {
  Sol s;
  int dim = m.dim();
  s.size = aniso ? (dim == 2 ? 3 : 6) : 1;
  V3 a, b;
  centre(m, a, b);
  V3 d = b - a;
  int kind = r.below(4);
  double h1 = g.h0 * std::exp(r.uni(std::log(lo), std::log(hi))), h2 = g.h0 * std::exp(r.uni(std::log(lo), std::log(hi)));
  V3 c{a[0] + r.uni() * d[0], a[1] + r.uni() * d[1], a[2] + r.uni() * d[2]};
  V3 dir{r.uni(-1, 1), r.uni(-1, 1), dim == 3 ? r.uni(-1, 1) : 0};
  if (norm(dir) < .1) dir = {1, 0, 0};
  dir = (1 / norm(dir)) * dir;
  double L = g.L, ratio = std::exp(r.uni(0, std::log(5.)));
  double rot = r.uni(0, PI), rot2 = r.uni(0, PI);
  for (auto &v : m.v) {
    double t;
    V3 x = v.c - c;
    if (kind == 0) t = 0;
    else if (kind == 1) t = .5 + dot(x, dir) / L;
    else if (kind == 2) t = std::fabs(norm(x) - .35 * L) / L * 2;
    else t = .5 + .5 * sin(6 * x[0] / L) * cos(5 * x[1] / L + 3 * x[2] / L);
    t = std::min(1., std::max(0., t));
    double h = h1 * std::pow(h2 / h1, t);
    h = std::max(lo * g.h0, std::min(hi * g.h0, h));
    if (!aniso) { s.d.push_back(h); continue; }
    double l1 = 1 / (h * h), l2 = 1 / (h * h * ratio * ratio);
    double hc = std::min(h * ratio, 2 * hi * g.h0);
    l2 = 1 / (hc * hc);
    if (dim == 2) {
      double cc = cos(rot), ss = sin(rot);
      s.d.push_back(l1 * cc * cc + l2 * ss * ss);
      s.d.push_back((l1 - l2) * cc * ss);
      s.d.push_back(l1 * ss * ss + l2 * cc * cc);
    } else {
      V3 u{cos(rot) * sin(rot2), sin(rot) * sin(rot2), cos(rot2)};
      double M[3][3];
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = (i == j ? l2 : 0) + (l1 - l2) * u[i] * u[j];
      s.d.insert(s.d.end(), {M[0][0], M[0][1], M[0][2], M[1][1], M[1][2], M[2][2]});
    }
  }
  return s;
}

Sol genLs(Rng &r, const Msh &m, const Geo &g, int &kind, std::string &desc) {
  Sol s;
  s.size = 1;
  V3 a, b;
  centre(m, a, b);
  V3 d = b - a, c{a[0] + r.uni(.25, .75) * d[0], a[1] + r.uni(.25, .75) * d[1], a[2] + r.uni(.25, .75) * d[2]};
  V3 c2{a[0] + r.uni(.1, .9) * d[0], a[1] + r.uni(.1, .9) * d[1], a[2] + r.uni(.1, .9) * d[2]};
  V3 dir{r.uni(-1, 1), r.uni(-1, 1), m.dim() == 3 ? r.uni(-1, 1) : 0};
  if (norm(dir) < .1) dir = {1, 0, 0};
  dir = (1 / norm(dir)) * dir;
  double dm = 1e300;
  for (int i = 0; i < m.dim(); i++) if (d[i] > 0) dm = std::min(dm, d[i]);
  double R = dm * r.uni(.2, .45), R2 = dm * r.uni(.1, .3);
  kind = r.below(5);
  static const char *const NM[] = {"plane", "sphere", "2spheres", "wave", "gridplane"};
  desc = NM[kind];
  // gridplane: zero set goes exactly through vertices
  int ax = r.below(m.dim());
  double x0 = m.v[r.below((int)m.v.size())].c[ax];
  bool flip = r.chance(.5);
  for (auto &v : m.v) {
    double f;
    if (kind == 0) f = dot(v.c - c, dir);
    else if (kind == 1) f = norm(v.c - c) - R;
    else if (kind == 2) f = std::min(norm(v.c - c) - R, norm(v.c - c2) - R2);
    else if (kind == 3) f = dot(v.c - c, dir) + .1 * g.L * sin(7 * (v.c[0] - c[0]) / g.L) * cos(6 * (v.c[1] - c[1]) / g.L);
    else f = v.c[ax] - x0;
    s.d.push_back(flip ? -f : f);
  }
  return s;
}

void genAttributes(Rng &r, Msh &m, double preqv, double preqe, double preqt, double preqtet) {
  for (auto &v : m.v) if (r.chance(preqv)) v.req = true;
  for (auto &e : m.edg) if (r.chance(preqe)) e.req = true;
  for (auto &t : m.tri) if (r.chance(preqt)) t.req = true;
  for (auto &t : m.tet) if (r.chance(preqtet)) t.req = true;
}
