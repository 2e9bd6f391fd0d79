// C13: running out of memory (system allocator or budget) at any point is survived.
#include "jobgen.h"
#include "zoo.h"
#include "oracle.h"
#include "memwrap.h"
#include <climits>
#include <dlfcn.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
static int ncases(const std::string &t) { const char *q = getenv("C13_N"); int n = q ? atoi(q) : 44; return t == "thorough" ? 8 * n : n; }
enum Fault { F_COUNT, F_ONE, F_ALL, F_BUDGET };
struct Rep { int leak;  char key[200]; char detail[600]; void *site[8]; int n, stage, ret; long calls[4]; size_t peak, start; };
static Rep *R;
static const char *const STAGE[] = {"init", "setup", "run", "files", "release"};
static void bad(const std::string &k, const std::string &d) { if (!R->key[0]) { snprintf(R->key, 200, "%s", k.c_str()); snprintf(R->detail, 600, "%s", d.c_str()); } }

// one life of the structures with a fault; everything is reported through R (shared memory)
static void life(const Job &j, Fault f, long at, size_t budget, uint64_t seed, const std::string &dir, bool withFiles, bool nonmani) {
  Rng g(seed);
  memwrap::on = true;
  memwrap::site = R->site; memwrap::siteN = &R->n;
  memwrap::failAt = f == F_ONE || f == F_ALL ? at : 0;
  memwrap::failAll = f == F_ALL;
  memwrap::reset();
  long calls = 0;
  auto mark = [&](int st) { R->calls[st] = memwrap::ncalls; R->stage = st + 1; };
  R->stage = 0;
  Kind k = j.in.kind;
  Mmg m(k);
  R->stage = 1;
  bool ok = m.setup(j);
  mark(1);
  int ret = -1;
  if (ok) {
    R->start = m.mesh->memCur;
    if (f == F_BUDGET && budget) m.mesh->memMax = budget;
    ret = m.run(j);
    R->ret = ret;
    mark(2);
    R->peak = memwrap::peak - 8 * memwrap::nblocks;
    if (ret != 0 && ret != 1 && ret != 2) bad("bad-return-code", strf("%d", ret));
    if (ret != MMG5_STRONGFAILURE) {
      long sa = memwrap::failAt; memwrap::failAt = 0;
      Msh o;
      if (m.getMesh(o, false)) {
        ValidOpt vo; vo.opnbdy = j.has("opnbdy") || j.has("isosurf"); vo.orphans = true; vo.lists = f == F_COUNT;
        std::string key, det;
        if ((k == K3D ? o.tet.size() : o.tri.size()) && !nonmani && !checkValid(o, vo, key, det)) bad(strf("invalid-mesh:%s:ret%d:", KNAME[k], ret) + key, det);
      } else bad("getters-failed", m.err);
      memwrap::failAt = sa;
      if (withFiles) zooFiles(m, g, dir);
    }
    mark(3);
  }
  if (m.mesh) m.freeAll(); else if (m.met || m.ls) {}
  R->stage = 5;
  // auxiliary tables of the failed operation are often lost: counted, not judged (see DESIGN.md)
  if (memwrap::live || memwrap::nblocks) { R->leak = 1; if (f == F_COUNT) bad(strf("leak:%s", KNAME[k]), strf("%ld bytes in %ld blocks still allocated after the release", memwrap::live, memwrap::nblocks)); }
  if (memwrap::foreign) bad("bad-free", "free of an unknown block");
}
static std::string where() {
  std::string s;
  if (!R->n) return "(no failing call)";
  Dl_info di;
  std::string exe = "/proc/self/exe", cmd;
  char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, 4095); if (n > 0) { buf[n] = 0; exe = buf; }
  cmd = "addr2line -f -e " + exe;
  for (int i = 2; i < R->n && i < 8; i++) if (dladdr(R->site[i], &di)) cmd += strf(" %lx", (long)((char *)R->site[i] - (char *)di.dli_fbase) - 1);
  FILE *p = popen((cmd + " 2>/dev/null").c_str(), "r");
  if (!p) return "?";
  int l = 0;
  while (fgets(buf, 4096, p)) if (l++ % 2 == 0) { buf[strcspn(buf, "\n")] = 0; std::string f = buf; if (f != "??" && f != "main" && f.compare(0, 2, "_Z") && s.size() < 160) s += (s.empty() ? "" : "<") + f; }
  pclose(p);
  return s;
}
static void point(const Job &j, Fault f, long at, size_t budget, uint64_t seed, const std::string &dir, bool wf, bool nonmani, Result &r, int &nv) {
  memset(R, 0, sizeof(Rep)); R->ret = -1;
  fflush(stdout); fflush(stderr);
  std::string errf = dir + "/point.err";
  pid_t p = fork();
  if (!p) {
    freopen(errf.c_str(), "w", stderr); freopen("/dev/null", "w", stdout);
    alarm(25);
    life(j, f, at, budget, seed, dir, wf, nonmani);
    fflush(stderr);
    _exit(77);
  }
  int st = 0;
  waitpid(p, &st, 0);
  r.cnt["points"]++;
  r.cnt[strf("%s:ret%d", f == F_BUDGET ? "budget" : f == F_COUNT ? "reference" : "refusal", R->ret)]++;
  if (R->leak) r.cnt["points-losing-a-table"]++;
  std::string key = R->key, det = R->detail;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
    key = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : strf("crash:signal%d", WTERMSIG(st))) : strf("exit:status%d", WEXITSTATUS(st));
    key += strf(":%s:%s", KNAME[j.in.kind], STAGE[R->stage]);
    std::string t; char b[2000]; FILE *e = fopen(errf.c_str(), "r");
    if (e) { while (fgets(b, 2000, e)) t += b; fclose(e); }
    size_t q = t.find("ERROR: "); if (q == std::string::npos) { q = t.find("runtime error"); if (q != std::string::npos) q = q > 120 ? q - 120 : 0; } if (q != std::string::npos) t = t.substr(q, 2500); else if (t.size() > 300) t = t.substr(t.size() - 300);
    det = t;
  }
  if (!key.empty()) {
    nv++;
    std::string w = f == F_BUDGET ? strf("budget %zu", budget) : strf("%s %ld refused in %s", f == F_ALL ? "all calls from" : "call", at, where().c_str());
    if (getenv("C13_ALL")) fprintf(stderr, "POINT %s | %s | %s\n", key.c_str(), w.c_str(), det.substr(0, 1500).c_str());
    r.viol(key, w + ": " + det + " [" + r.sample + "]");
  }
}
static void fn(const Ctx &c, Result &r) {
  R = (Rep *)mmap(0, sizeof(Rep), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Rng g(c.seed, c.idx, 1313);
  Kind k = (Kind)(c.idx % 3);
  JobCfg cf; JobInfo info; cf.weird = true; cf.prisms = true;
  bool tight = c.idx % 4 == 3;
  cf.gen.maxCells = tight ? 40 : 10; cf.gen.nonmanifold = false;
  Job j = genJob(g, k, cf, info);
  bool nonmani = j.desc.find("+interfaces") != std::string::npos;
  bool wf = g.chance(.5);
  r.sample = describe(j);
  uint64_t seed = g.next();
  int nv = 0;
  point(j, F_COUNT, 0, 0, seed, c.scratch, wf, nonmani, r, nv);
  if (nv) return;
  long n = R->calls[3];
  size_t lo = R->start, hi = R->peak;
  r.cnt["calls"] += n; r.cnt["max:calls"] = n;
  if (R->ret == 0) r.nontrivial = true;
  // every allocation call of this life is refused once (a sample of them if there are many)
  int cap = tight ? 30 : c.thorough() ? 400 : 60;
  for (long a = 1, i = 0; i < cap && a <= n; i++) {
    long at = n <= cap ? a : 1 + (long)(g.uni() * n);
    a++;
    point(j, g.chance(.3) ? F_ALL : F_ONE, at, 0, seed, c.scratch, wf, nonmani, r, nv);
    r.cnt["refused-points"]++;
  }
  // budgets between what the setup holds and the peak of the run
  for (int i = 0; i < (c.thorough() ? 60 : 15) && hi > lo; i++) {
    double t = g.uni(); size_t b = g.chance(.5) ? lo + (size_t)(t * (hi - lo)) : lo + (size_t)(pow(t, 8) * (hi - lo));
    point(j, F_BUDGET, 0, b, seed, c.scratch, wf, nonmani, r, nv);
    r.cnt["budget-points"]++;
  }
  // smallest accepted value of -m, with sizes asking for more than it allows
  if (tight && j.mode == M_REMESH) {
    Job t = j;
    for (size_t i = 0; i < t.opts.size(); i++) { auto &q = t.opts[i].name; if (q == "hsiz" || q == "hmax" || q == "hmin" || q == "noinsert" || q == "optim" || q == "mem" || q == "optimLES") t.opts.erase(t.opts.begin() + i--); }
    t.lpar.clear(); t.met = Sol(); t.metType = 0;
    t.opts.push_back({"hmax", bboxsize(t.in) / (k == K3D ? 12. : k == KS ? 25. : 40.)});
    for (int mem = 1; mem < 200; mem++) {
      Job u = t; u.opts.insert(u.opts.begin(), {"mem", (double)mem});
      Mmg m(k); bool ok = m.setup(u); m.freeAll();
      if (!ok) continue;
      for (int q = 0; q < 3; q++) { u.opts[0].val = mem + q; point(u, F_BUDGET, 0, 0, seed, c.scratch, wf, nonmani, r, nv); r.cnt[strf("smallest-m:%s:ret%d", KNAME[k], R->ret)]++; }
      break;
    }
  }
  r.cnt["violating-points"] = nv;
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
