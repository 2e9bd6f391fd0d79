// C14: results are deterministic and independent of the history of the process.
#include "gen2d.h"
#include "zoo.h"
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
// the clock seen by the library advances at every look
extern "C" time_t time(time_t *t) { static time_t now = 1700000000; now += 7; if (t) *t = now; return now; }

static int ncases(const std::string &t) { const char *q = getenv("C14_N"); int n = q ? atoi(q) : 150; return t == "thorough" ? 12 * n : n; }
struct Res { int ret = -9; std::vector<uint64_t> w; std::vector<std::pair<std::string, size_t>> mark; };
static void put(Res &r, double x) { uint64_t u; memcpy(&u, &x, 8); r.w.push_back(u); }
static void puti(Res &r, long x) { r.w.push_back((uint64_t)x); }
static Res collect(Mmg &m, int ret, bool arrays) {
  Res r; r.ret = ret;
  if (ret == MMG5_STRONGFAILURE) return r;
  Msh o; Sol s;
  m.getMesh(o, arrays); m.getSol(m.met, s, arrays);
  auto mark = [&](const char *n) { r.mark.push_back({n, r.w.size()}); };
  mark("vertices"); for (auto &v : o.v) { for (double x : v.c) put(r, x); puti(r, v.ref); puti(r, v.corner * 2 + v.req); }
  mark("tetrahedra"); for (auto &t : o.tet) { for (int x : t.v) puti(r, x); puti(r, t.ref); puti(r, t.req); }
  mark("triangles"); for (auto &t : o.tri) { for (int x : t.v) puti(r, x); puti(r, t.ref); puti(r, t.req); }
  mark("edges"); for (auto &t : o.edg) { puti(r, t.a); puti(r, t.b); puti(r, t.ref); puti(r, t.ridge * 2 + t.req); }
  mark("prisms"); for (auto &t : o.pri) { for (int x : t.v) puti(r, x); puti(r, t.ref); puti(r, t.req); }
  mark("quadrilaterals"); for (auto &t : o.qua) { for (int x : t.v) puti(r, x); puti(r, t.ref); puti(r, t.req); }
  mark("size map"); for (double x : s.d) put(r, x);
  mark("end");
  return r;
}
static std::string diff(const Res &a, const Res &b, std::string &what) {
  if (a.ret != b.ret) { what = "status"; return strf("status %d then %d", a.ret, b.ret); }
  for (size_t i = 0; i < a.mark.size(); i++) {
    if (a.mark[i].second != b.mark[i].second) { what = std::string("number-of-") + a.mark[i - 1].first; return strf("%s: %zu words then %zu", a.mark[i - 1].first.c_str(), a.mark[i].second - a.mark[i - 1].second, b.mark[i].second - b.mark[i - 1].second); }
  }
  size_t n = 0, f = 0;
  for (size_t i = 0; i < a.w.size(); i++) if (a.w[i] != b.w[i]) { if (!n++) f = i; }
  if (!n) return "";
  size_t s = 0; while (s + 1 < a.mark.size() && a.mark[s + 1].second <= f) s++;
  what = a.mark[s].first; double x, y; memcpy(&x, &a.w[f], 8); memcpy(&y, &b.w[f], 8);
  return strf("%zu of %zu words differ, first in the %s: %.17g (%lld) then %.17g (%lld)", n, a.w.size(), what.c_str(), x, (long long)a.w[f], y, (long long)b.w[f]);
}
static Job randomJob(Rng &g, bool big, Kind k) {
  JobCfg cf; JobInfo info;
  if (k == K2D && g.chance(.2)) { Pslg P; return genGenJob(g, info, P, big ? 30 : 10); }
  cf.weird = true; cf.prisms = true;
  cf.gen.maxCells = big ? 30 : 10;
  cf.gen.nonmanifold = g.chance(.2);
  Job j = genJob(g, k, cf, info);
  return j;
}
static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1414);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  Job j = randomJob(g, !c.thorough() || g.chance(.5), k);
  if (getenv("C14_NORENUM") && k != K2D) j.set("renum", 0);
  r.sample = describe(j);
  int verb0 = (int)j.get("verbose", -1);
  mallopt(M_PERTURB, 0);
  Res A;
  { Mmg m(k); if (!m.setup(j)) { r.viol("setup-refused", m.err + " " + r.sample); m.freeAll(); return; }
    int ret = m.run(j); A = collect(m, ret, j.arrays); m.freeAll(); }
  r.cnt[strf("%s:ret%d", KNAME[k], A.ret)] = 1;
  r.nontrivial = A.ret != MMG5_STRONGFAILURE && A.w.size() > 20;
  for (int rep = 0; rep < 3 && r.status == "ok"; rep++) {
    std::string how;
    Job j2 = j;
    // other activity in the process
    static const int MASK = getenv("C14_MASK") ? atoi(getenv("C14_MASK")) : 31;
    int other = g.below(3); if (!(MASK & 1)) other = 0;
    for (int i = 0; i < other; i++) {
      Kind k2 = (Kind)g.below(3);
      Rng g2(c.seed, c.idx * 31 + rep * 7 + i, 4141);
      Job x = randomJob(g2, false, k2);
      if (g.chance(.2)) x.set("mem", 1);
      Mmg m2(k2);
      if (m2.setup(x)) { int e = m2.run(x); r.cnt["other-runs"]++; if (e != MMG5_STRONGFAILURE && g.chance(.3)) zooQuery(m2, g, true); }
      m2.freeAll(); how += strf(" after-%s", KNAME[k2]);
    }
    if (g.chance(.6) && (MASK & 2)) { int p = g.range(1, 255); mallopt(M_PERTURB, p); how += strf(" heap-pattern-%02x", p); r.cnt["heap-patterns"]++; }
    if (g.chance(.5) && (MASK & 4)) { j2.arrays = !j.arrays; how += " arrays-flipped"; }
    if (g.chance(.4) && (MASK & 8)) { int v = g.range(-1, 7); if (v != verb0) { j2.set("verbose", v); how += strf(" verbosity-%d", v); r.cnt["verbosity-changes"]++; } }
    // another structure alive at the same time
    Mmg y(k), m(k); Job jy; bool inter = g.chance(.5) && (MASK & 16), yset = false; int when = g.below(3);
    auto useY = [&]() { Rng g3(c.seed, c.idx * 17 + rep, 5151); if (g3.chance(.5)) y.k = (Kind)g3.below(3); jy = randomJob(g3, false, y.k); yset = y.setup(jy); if (yset) { y.run(jy); r.cnt["interleaved"]++; } };
    if (inter) how += strf(" interleaved-%s-%d", "structure", when);
    if (inter && when == 0) useY();
    if (!m.setup(j2)) { r.viol("setup-refused-again", m.err + how + " " + r.sample); m.freeAll(); break; }
    if (inter && when == 1) useY();
    int ret = m.run(j2);
    if (inter && when == 2) useY();
    Res B = collect(m, ret, j2.arrays);
    r.cnt["repetitions"]++; r.cnt["words-compared"] += B.w.size();
    std::string what, d = diff(A, B, what);
    if (!d.empty()) r.viol(strf("%s:differs:%s", KNAME[k], what.c_str()), d + " [" + how + " ] " + r.sample);
    if (g.chance(.5)) { m.freeAll(); if (inter) y.freeAll(); } else { if (inter) y.freeAll(); m.freeAll(); }
    mallopt(M_PERTURB, 0);
  }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
