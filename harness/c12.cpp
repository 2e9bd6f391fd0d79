// C12: accounted memory = memory really held at every library exit, never above the authorised maximum, all of it released.
#include "jobgen.h"
#include "zoo.h"
#include "oracle.h"
#include "memwrap.h"
#include <climits>
static int ncases(const std::string &t) { return t == "thorough" ? 4800 : 480; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1212);
  Kind k = (Kind)(c.idx % 3);
  JobCfg cf; JobInfo info; cf.weird = true; cf.prisms = true; cf.gen.maxCells = c.thorough() ? 60 : 30;
  cf.gen.nonmanifold = g.chance(.3);
  Job j = genJob(g, k, cf, info);
  int budget = 0;
  if (g.chance(.4)) { budget = g.chance(.5) ? g.range(1, 12) : g.range(12, 120); std::vector<Opt> o{{"mem", (double)budget}}; for (auto &x : j.opts) if (x.name != "mem") o.push_back(x); j.opts = o; }
  r.sample = describe(j);
  fprintf(stderr, "%s\n", r.sample.c_str());
  bool rerun = k == K2D || (j.met.size <= 1 && !j.has("anisosize"));
  int lives = g.range(1, 2);
  long live0 = memwrap::live, blocks0 = memwrap::nblocks;
  memwrap::on = true;
  for (int life = 0; life < lives; life++) {
    Mmg m(k);
    long base = LONG_MIN;
    long long n = 0;
    bool bad = false;
    // bytes held minus accounted bytes: only the structures themselves are outside of the accounting
    auto at = [&](const std::string &where) {
      if (!m.mesh || bad) return;
      n++;
      long gap = memwrap::live - live0 - 8 * (memwrap::nblocks - blocks0) - (long)m.mesh->memCur;
      if (base == LONG_MIN) base = gap;
      if (gap != base) { bad = true; r.viol("drift:" + std::string(KNAME[k]) + ":" + where, strf("%ld bytes held and %ld accounted (gap %ld, at start %ld) after %s; ", memwrap::live - live0, (long)m.mesh->memCur, gap, base, where.c_str()) + r.sample); }
      if (m.mesh->memCur > m.mesh->memMax) { bad = true; r.viol("above-maximum:" + where, strf("accounted %zu, maximum %zu; ", m.mesh->memCur, m.mesh->memMax) + r.sample); }
    };
    m.init(j.mode == M_LS);
    long structs = memwrap::live - live0;
    at("init");
    if (structs != base + 8 * (memwrap::nblocks - blocks0) + (long)m.mesh->memCur) r.viol("init-accounting", r.sample);
    memwrap::reset();
    m.freeAll();
    auto released = [&](const std::string &where) {
      if (memwrap::live != live0 || memwrap::nblocks != blocks0) r.viol("leak:" + std::string(KNAME[k]) + ":" + where, strf("%ld bytes in %ld blocks still allocated after %s; ", memwrap::live - live0, memwrap::nblocks - blocks0, where.c_str()) + r.sample);
      if (memwrap::foreign) r.viol("bad-free:" + where, strf("%d frees of unknown blocks; ", memwrap::foreign) + r.sample);
    };
    released("release of empty structures");
    memwrap::reset();
    bool ok = m.setup(j);
    at(ok ? "setup" : "refused setup");
    if (!ok && !budget) r.viol("setup-refused", m.err + r.sample);
    if (!ok) r.cnt["setup-over-budget"]++;
    if (ok && g.chance(.3)) { zooQuery(m, g, false); at("queries before the run"); }
    int ret = -1;
    if (ok) {
      memwrap::reset();
      size_t mx = m.mesh->memMax;
      ret = m.run(j);
      r.cnt[strf("%s:ret%d%s", KNAME[k], ret, budget ? ":budget" : "")]++;
      at(ret == 0 ? "run" : ret == 1 ? "run (low failure)" : "run (strong failure)");
      long held = memwrap::peak - live0 - base - 8 * blocks0;
      r.cnt["max:peak-kB"] = std::max(r.cnt["max:peak-kB"], held / 1024.);
      r.cnt[strf("max:peak/maximum:%s", KNAME[k])] = std::max(r.cnt[strf("max:peak/maximum:%s", KNAME[k])], (double)held / mx);
      // during the run: held bytes against the authorised maximum (file name buffers and small scratch tables allowed)
      if (held > (long)mx + 8 * 4096 + 65536) r.viol("peak-above-maximum:" + std::string(KNAME[k]), strf("%ld bytes held at the peak, %zu authorised; ", held, mx) + r.sample);
      if (ret != MMG5_STRONGFAILURE) {
        Msh o; Sol s;
        if (m.getMesh(o, g.chance(.5))) {
          r.nontrivial = true;
          if (budget) {
            ValidOpt vo; vo.opnbdy = j.has("opnbdy") || j.has("isosurf"); vo.orphans = false;
            std::string key, det;
            if ((k == K3D ? o.tet.size() : o.tri.size()) && j.desc.find("+interfaces") == std::string::npos && !checkValid(o, vo, key, det)) r.viol("invalid-mesh-with-budget:" + key, det + r.sample);
          }
        }
        m.getSol(m.met, s, g.chance(.5));
        at("getters");
        bool again = ret == MMG5_SUCCESS && rerun && j.mode == M_REMESH && !j.has("hsiz") && g.chance(.5);
        zooQuery(m, g, !again); at("queries");
        if (g.chance(.5)) { zooFiles(m, g, c.scratch, !again); at("file output and input"); }
        if (again) {
          m.setOpt("hgrad", 1.3); at("option");
          int r2 = m.run(j);
          r.cnt[strf("rerun:ret%d", r2)]++;
          at(r2 == 0 ? "second run" : "failed second run");
        }
      }
      if (g.chance(.3)) {  // parameters may be given again
        if (j.lpar.size()) { m.setOpt("npar", g.range(1, 3)); at("new number of local parameters"); }
        if (j.br.size()) { m.setOpt("nbr", g.range(1, 3)); at("new number of base references"); }
        if (j.mats.size()) { m.setOpt("nmat", g.range(1, 3)); at("new number of materials"); }
      }
    }
    // legal release sequences
    int q = g.below(4);
    if (q == 1) { ZBY(k, Free_names, MMG5_ARG_start, MMG5_ARG_ppMesh, &m.mesh, MMG5_ARG_ppMet, &m.met, MMG5_ARG_end); at("Free_names"); }
    if (q == 2) {
      if (m.ls) ZBY(k, Free_structures, MMG5_ARG_start, MMG5_ARG_ppMesh, &m.mesh, MMG5_ARG_ppLs, &m.ls, MMG5_ARG_ppMet, &m.met, MMG5_ARG_end);
      else ZBY(k, Free_structures, MMG5_ARG_start, MMG5_ARG_ppMesh, &m.mesh, MMG5_ARG_ppMet, &m.met, MMG5_ARG_end);
      at("Free_structures");
      r.cnt["freed:structures-first"]++;
    }
    r.cnt["exits-checked"] += n;
    m.freeAll();
    r.cnt["lives"]++;
    released(ret < 0 ? "refused setup" : ret == 0 ? "success" : ret == 1 ? "low failure" : "strong failure");
  }
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
