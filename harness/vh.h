// Core of the runtime-monitoring harness: PRNG, independent mesh model, case
// driver (one forked child per case), bridge to the real Mmg libraries.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
extern "C" {
#include "mmg/mmg2d/libmmg2d.h"
#include "mmg/mmgs/libmmgs.h"
#include "mmg/mmg3d/libmmg3d.h"
}

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  // the state is a hash of the seed: neighbouring seeds must not give shifted copies of one stream
  explicit Rng(uint64_t seed = 1) : s(seed ^ 0xD1B54A32D192ED03ull) { s = next(); s = next() ^ (seed * 0xA24BAED4963EE407ull); s = next(); }
  Rng(uint64_t seed, int idx, int salt) : Rng(seed) { s ^= (uint64_t)(unsigned)idx * 0xFF51AFD7ED558CCDull; s = next(); s ^= (uint64_t)(unsigned)salt * 0xC4CEB9FE1A85EC53ull; s = next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- mesh model
typedef std::array<double, 3> V3;
struct Vtx { V3 c; int ref = 0; bool corner = false, req = false; };
struct Tri { std::array<int, 3> v; int ref = 0; bool req = false; };
struct Edg { int a, b; int ref = 0; bool ridge = false, req = false; };
struct Tet { std::array<int, 4> v; int ref = 0; bool req = false; };
struct Pri { std::array<int, 6> v; int ref = 0; bool req = false; };
struct Qua { std::array<int, 4> v; int ref = 0; bool req = false; };
enum Kind { K3D = 0, KS = 1, K2D = 2 };
static const char *const KNAME[] = {"mmg3d", "mmgs", "mmg2d"};
struct Msh {
  Kind kind = K3D;
  std::vector<Vtx> v;
  std::vector<Tet> tet;
  std::vector<Pri> pri;
  std::vector<Tri> tri;
  std::vector<Qua> qua;
  std::vector<Edg> edg;
  int dim() const { return kind == K2D ? 2 : 3; }
};
// 0-based vertex indices everywhere.

inline V3 operator+(const V3 &a, const V3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator*(double t, const V3 &a) { return {t * a[0], t * a[1], t * a[2]}; }
inline double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3 &a, const V3 &b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline double norm(const V3 &a) { return std::sqrt(dot(a, a)); }
inline double vol6(const V3 &a, const V3 &b, const V3 &c, const V3 &d) { return dot(b - a, cross(c - a, d - a)); }
inline double tetvol(const Msh &m, const Tet &t) {
  return vol6(m.v[t.v[0]].c, m.v[t.v[1]].c, m.v[t.v[2]].c, m.v[t.v[3]].c) / 6.;
}
inline double area2d(const Msh &m, const std::array<int, 3> &t) {
  const V3 &a = m.v[t[0]].c, &b = m.v[t[1]].c, &c = m.v[t[2]].c;
  return 0.5 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]));
}
inline double area3d(const Msh &m, const std::array<int, 3> &t) {
  return 0.5 * norm(cross(m.v[t[1]].c - m.v[t[0]].c, m.v[t[2]].c - m.v[t[0]].c));
}
inline double triarea(const Msh &m, const std::array<int, 3> &t) {
  return m.kind == K2D ? area2d(m, t) : area3d(m, t);
}
double bboxsize(const Msh &m);          // largest bounding-box extent
extern const int TETFACE[4][3];         // outward-oriented faces, face i opposite vertex i
extern const int TETEDGE[6][2];
typedef std::array<int, 3> F3;
typedef std::array<int, 2> E2;
inline F3 sf(int a, int b, int c) { F3 f{a, b, c}; std::sort(f.begin(), f.end()); return f; }
inline E2 se(int a, int b) { return a < b ? E2{a, b} : E2{b, a}; }

// Solution at vertices: size 1 scalar, 2/3 vector, 3 (2D) or 6 (3D) tensor.
struct Sol { int size = 0; std::vector<double> d; bool empty() const { return d.empty(); } };

// ---------------------------------------------------------------- jobs
enum Mode { M_REMESH = 0, M_LS = 1, M_GEN = 2 };
struct LocPar { int typ; int ref; double hmin, hmax, hausd; };
struct Mat { int ref, split, rin, rex; };
struct Opt { std::string name; double val; };
struct Job {
  Mode mode = M_REMESH;
  Msh in;
  Sol met, ls;
  int metType = 0;            // 0: none, 1 scalar, 3 tensor (type set even if no values: -A)
  std::vector<Opt> opts;
  std::vector<LocPar> lpar;
  std::vector<Mat> mats;
  std::vector<int> br;
  bool passMetInLs = true;    // give an (empty or not) metric structure in ls mode
  bool arrays = false;        // use the array setters/getters
  std::string desc;
  bool has(const std::string &n) const { for (auto &o : opts) if (o.name == n) return true; return false; }
  double get(const std::string &n, double dflt) const { for (auto &o : opts) if (o.name == n) return o.val; return dflt; }
  void set(const std::string &n, double v) { for (auto &o : opts) if (o.name == n) { o.val = v; return; } opts.push_back({n, v}); }
};
std::string describe(const Job &j);

bool optIsInt(const std::string &n);
int optCode(Kind k, const std::string &n);  // -1 if this module has no such option

// Thin owner of Mmg structures; every member calls the public API only, except
// where a monitor must look at accounting fields of the public structures.
struct Mmg {
  Kind k;
  Mode mode = M_REMESH;
  MMG5_pMesh mesh = nullptr;
  MMG5_pSol met = nullptr, ls = nullptr;
  std::string err;
  explicit Mmg(Kind k_) : k(k_) {}
  bool init(bool withLs);
  bool setMesh(const Msh &m, bool arrays);
  bool setOpt(const std::string &n, double v);
  bool setMet(const Sol &s, int metType, int np, bool arrays);
  bool setLs(const Sol &s, bool arrays);
  bool setup(const Job &j);    // init + everything
  int run(const Job &j);
  bool getMesh(Msh &out, bool arrays = false);
  bool getSol(MMG5_pSol s, Sol &out, bool arrays = false);
  void freeAll();
};
struct Out {
  bool setupOk = false;
  int ret = -1;
  bool got = false;
  Msh m;
  Sol met, ls;
  std::string err;
};
Out runJob(const Job &j);      // full life cycle on the real library

// ---------------------------------------------------------------- case driver
struct Result {
  std::string status = "ok";   // ok | violation | inconclusive | skip
  std::string key, detail;
  bool nontrivial = false;
  std::string sig;             // what makes the case distinct
  std::string sample;          // human-readable description of the case
  std::map<std::string, double> cnt;
  void viol(const std::string &k, const std::string &d) {
    if (status != "violation") { status = "violation"; key = k; detail = d; }
  }
};
struct Ctx {
  uint64_t seed; int idx; std::string tier; std::string scratch;
  bool thorough() const { return tier == "thorough"; }
};
typedef void (*CaseFn)(const Ctx &, Result &);
typedef int (*CountFn)(const std::string &tier);
int vh_main(int argc, char **argv, CaseFn fn, CountFn ncases);
