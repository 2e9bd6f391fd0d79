// C17: the command-line programs, run on files in a scratch directory, against the library given the same files.
#include "gen2d.h"
#include "jobgen.h"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" { int vh_main_3d(int, char **); int vh_main_s(int, char **); int vh_main_2d(int, char **); }
#define BYK(k, f, ...) (k == K3D ? MMG3D_##f(__VA_ARGS__) : k == KS ? MMGS_##f(__VA_ARGS__) : MMG2D_##f(__VA_ARGS__))

static int ncases(const std::string &t) { const char *q = getenv("C17_N"); int n = q ? atoi(q) : 420; return t == "thorough" ? 15 * n : n; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool exists(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static std::map<std::string, std::string> snapDir(const std::string &d) {
  std::map<std::string, std::string> m;
  DIR *q = opendir(d.c_str()); if (!q) return m;
  while (dirent *e = readdir(q)) if (e->d_name[0] != '.') m[e->d_name] = slurp(d + "/" + e->d_name);
  closedir(q);
  return m;
}
struct Cli { int status = -1; bool signaled = false; std::string out; };
static Cli runCli(Kind k, const std::vector<std::string> &args, const std::string &dir, const std::string &log) {
  Cli c;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    if (chdir(dir.c_str())) _exit(99);
    int f = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), n = open("/dev/null", O_RDONLY);
    dup2(n, 0); dup2(f, 1); dup2(f, 2);
    std::vector<std::vector<char>> st; std::vector<char *> av;
    st.push_back({'m', 'm', 'g', 0});
    for (auto &a : args) st.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
    for (auto &s : st) av.push_back(s.data());
    av.push_back(nullptr);
    int ac = (int)av.size() - 1;
    exit(k == K3D ? vh_main_3d(ac, av.data()) : k == KS ? vh_main_s(ac, av.data()) : vh_main_2d(ac, av.data()));
  }
  int st = 0;
  waitpid(p, &st, 0);
  c.signaled = WIFSIGNALED(st);
  c.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  c.out = slurp(log);
  if (c.out.find("*** Segmentation fault") != std::string::npos || c.out.find("*** Floating-point") != std::string::npos || c.out.find("*** potential lack") != std::string::npos || c.out.find("*** Illegal") != std::string::npos) c.signaled = true;
  return c;
}
static std::string num(double &x) { x = (double)(float)x; return strf("%.9g", x); }
static bool isMsh(const std::string &e) { return e[1] == 'm' && e[2] == 's'; }
static std::string stem(const std::string &f) { return f.substr(0, f.rfind('.')); }
static std::string tail(const std::string &s) { std::string t = s.size() > 400 ? s.substr(s.size() - 400) : s; for (char &c : t) if (c == '\n') c = '|'; return t; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 1717);
  int q = c.idx % 8;
  Kind k = q < 3 ? K3D : q < 5 ? KS : K2D;
  JobCfg cf; JobInfo info;
  cf.weird = true; cf.prisms = true;
  cf.gen.maxCells = c.thorough() ? 30 : 14;
  Pslg P;
  Job j = k == K2D && g.chance(.15) ? genGenJob(g, info, P, 15) : genJob(g, k, cf, info);
  for (auto &l : j.lpar) { l.hmin = (float)l.hmin; l.hmax = (float)l.hmax; l.hausd = (float)l.hausd; }
  bool lsm = j.mode == M_LS, surf = j.has("isosurf");
  bool lpf = j.lpar.size() || j.mats.size() || j.br.size();
  // ---- the input files
  std::string dir = c.scratch + "/d", ref = c.scratch + "/ref", log = c.scratch + "/log";
  mkdir(dir.c_str(), 0755); mkdir(ref.c_str(), 0755);
  std::string ext = g.pick(std::vector<std::string>{".mesh", ".mesh", ".mesh", ".meshb", ".msh", ".mshb"});
  if (isMsh(ext) && (lsm || j.in.pri.size() || j.in.qua.size())) ext = ".mesh";
  std::string in = "in" + ext, out, solIn, metIn;
  bool gm = isMsh(ext);
  {
    Mmg w(k);
    Job q2 = j; q2.opts.clear(); q2.lpar.clear(); q2.mats.clear(); q2.br.clear();
    if (!w.setup(q2)) { r.viol("setup-refused", w.err + describe(j)); w.freeAll(); return; }
    int ok = gm ? BYK(k, saveMshMesh, w.mesh, w.met && w.met->m ? w.met : nullptr, (dir + "/" + in).c_str()) : BYK(k, saveMesh, w.mesh, (dir + "/" + in).c_str());
    std::string se = g.chance(.5) ? ".sol" : ".solb";
    if (ok && lsm) {
      // the file of the level-set; without an option, the one named after the mesh
      solIn = g.chance(.3) ? "in.sol" : "ls" + se;
      ok = BYK(k, saveSol, w.mesh, w.ls, (dir + "/" + solIn).c_str());
    }
    if (ok && !gm && !j.met.empty()) {
      metIn = !lsm && g.chance(.3) ? "in.sol" : "met" + se;
      ok = BYK(k, saveSol, w.mesh, w.met, (dir + "/" + metIn).c_str());
    }
    w.freeAll();
    if (ok != 1) { r.viol("save-failed", describe(j)); return; }
  }
  // ---- the command line
  std::vector<std::vector<std::string>> a;
  for (auto &o : j.opts) {
    const std::string &n = o.name;
    if (n == "iso" || n == "isosurf") {
      std::vector<std::string> v = {n == "iso" ? "-ls" : "-lssurf"};
      bool has = j.has("ls");
      double x = j.get("ls", 0);
      if (has) v.push_back(num(x)); else if (g.chance(.3)) v.push_back("0");
      if (has) j.set("ls", x);
      a.push_back(v);
    } else if (n == "ls" || n == "xregval") continue;
    else if (n == "xreg") { std::vector<std::string> v = {"-xreg"}; if (j.has("xregval")) { double x = j.get("xregval", 0); v.push_back(num(x)); j.set("xregval", x); } a.push_back(v); }
    else if (n == "angle") a.push_back({"-nr"});
    else if (n == "anisosize") a.push_back({"-A"});
    else if (n == "keepRef") a.push_back({"-keep-ref"});
    else if (n == "verbose") a.push_back({"-v", strf("%d", (int)o.val)});
    else if (n == "mem") a.push_back({"-m", strf("%d", (int)o.val)});
    else if (n == "renum") a.push_back({"-rn", strf("%d", (int)o.val)});
    else if (n == "octree" || n == "nsd" || n == "isoref") a.push_back({"-" + n, strf("%d", (int)o.val)});
    else if (n == "rmc") { double x = o.val; if (x == 0 && g.chance(.5)) a.push_back({"-rmc"}); else { std::string t = num(x); o.val = x; a.push_back({"-rmc", t}); } }
    else if (optIsInt(n)) a.push_back({"-" + n});
    else { double x = o.val; std::string t = num(x); o.val = x; a.push_back({"-" + n, t}); }
  }
  if (!j.has("verbose") && g.chance(.5)) a.push_back({"-v", "-1"});
  if (lsm && (solIn != "in.sol" || g.chance(.3))) a.push_back({"-sol", solIn});
  if (!metIn.empty() && (lsm || metIn != "in.sol" || g.chance(.3))) a.push_back({!lsm && g.chance(.3) ? "-sol" : "-met", metIn});
  std::string pext = k == K3D ? ".mmg3d" : k == KS ? ".mmgs" : ".mmg2d", pf;
  auto wpar = [&](const std::string &f, const char *elt0) {
    FILE *w = fopen((dir + "/" + f).c_str(), "w");
    auto lp = [&]() { if (j.lpar.empty()) return; fprintf(w, "%s\n%d\n", g.chance(.5) ? "Parameters" : "parameters", (int)j.lpar.size());
      for (auto &l : j.lpar) fprintf(w, "%d %s %.9g %.9g %.9g\n", l.ref, elt0 ? elt0 : l.typ == MMG5_Triangle ? "Triangle" : l.typ == MMG5_Tetrahedron ? "Tetrahedron" : "Edge", l.hmin, l.hmax, l.hausd); };
    bool first = g.chance(.5);
    if (first) lp();
    if (j.mats.size()) { fprintf(w, "\nLSReferences\n%d\n", (int)j.mats.size()); for (auto &m : j.mats) if (m.split) fprintf(w, "%d %d %d\n", m.ref, m.rin, m.rex); else fprintf(w, "%d nosplit\n", m.ref); }
    if (j.br.size()) { fprintf(w, "\nLSBaseReferences\n%d\n", (int)j.br.size()); for (int b : j.br) fprintf(w, "%d\n", b); }
    if (!first) lp();
    fprintf(w, "\n");
    fclose(w);
  };
  if (lpf) {
    int s = g.below(3);
    pf = s == 0 ? "in" + pext : s == 1 ? "par" + pext : "DEFAULT" + pext;
    wpar(pf, nullptr);
    if (s == 1) a.push_back({"-f", g.chance(.5) ? pf : "par"});
  }
  int os = g.below(5);
  bool pos = os == 1;
  std::string oext = g.chance(.7) ? ext : g.pick(std::vector<std::string>{".mesh", ".meshb", ".msh", ".mshb"});
  if (os == 0) out = "in.o" + ext;      // the default name
  else if (g.chance(.15)) { out = "res" + ext; }
  else out = "res" + oext;
  bool noext = os && ext == ".mesh" && g.chance(.2);     // no extension: the format of the input
  if (noext) out = "res" + ext;
  std::string oarg = noext ? "res" : out;
  if (os >= 2) a.push_back({g.chance(.5) ? "-out" : "-o", oarg});
  std::vector<std::vector<std::string>> fin = {g.chance(.3) ? std::vector<std::string>{"-in", in} : std::vector<std::string>{g.chance(.1) && ext == ".mesh" ? "in" : in}};
  if (pos) { if (fin[0].size() == 1) fin[0].push_back(oarg); else fin.push_back({oarg}); }
  for (int i = (int)a.size() - 1; i > 0; i--) std::swap(a[i], a[g.below(i + 1)]);
  // an option whose value is optional must not swallow a file name; files go first or last (as in the documentation)
  bool front = g.chance(.5);
  std::vector<std::string> args;
  if (front) for (auto &f : fin) args.insert(args.end(), f.begin(), f.end());
  for (auto &x : a) args.insert(args.end(), x.begin(), x.end());
  if (!front) for (auto &f : fin) args.insert(args.end(), f.begin(), f.end());
  std::string cmd = KNAME[k];
  for (auto &s : args) cmd += " " + s;
  r.sample = cmd + " :: " + describe(j);
  r.sig = r.sample;
  // ---- erroneous command lines
  if (g.chance(.4)) {
    std::vector<std::string> kinds = {"unknown-option", "missing-value", "not-a-number", "third-file", "missing-input", "bad-parameter-file", "missing-parameter-file", "help", "wrong-solution-size"};
    if (lsm) { kinds.push_back("missing-level-set"); kinds.push_back("missing-metric-in-level-set-mode"); }
    else if (!gm) kinds.push_back("metric-and-solution");
    kinds.push_back("bad-format");
    std::string kd = g.pick(kinds);
    std::vector<std::string> b = args;
    auto anyPlace = [&](std::vector<std::string> x) { if (g.chance(.5)) b.insert(b.end(), x.begin(), x.end()); else b.insert(b.begin(), x.begin(), x.end()); };
    std::string key = kd;
    if (kd == "unknown-option") {
      std::string o = "-"; o += g.chance(.5) ? "bcegjpqtuwyz"[g.below(12)] : "adfhiklmnorsvx"[g.below(14)]; o += g.pick(std::vector<std::string>{"foo", "zz", "qqq"});
      b.insert(b.begin(), o);
      // mmgs and mmg2d ignore unknown options that begin with the letter of a known one (listed finding)
      bool lenient = k != K3D && strchr(k == KS ? "adklmnsvx" : "adlmnorsvx", o[1]);
      key = lenient ? strf("unknown-option-of-a-known-letter:%s", KNAME[k]) : strf("unknown-option:%s:%c", KNAME[k], o[1]);
    } else if (kd == "missing-value") {
      std::string o = g.pick(std::vector<std::string>{"-hsiz", "-hmin", "-hmax", "-hausd", "-hgrad", "-hgradreq", "-ar", "-m", "-nsd", "-met", "-sol", "-in", "-out", "-o", "-f"});
      if (k == K2D && o == "-nsd") o = "-m";
      b.push_back(o);
    } else if (kd == "not-a-number") {
      std::string o = g.pick(std::vector<std::string>{"-hsiz", "-hmin", "-hmax", "-hausd", "-hgrad", "-hgradreq", "-ar", "-m"});
      anyPlace({o, g.pick(std::vector<std::string>{"abc", "x.1", "--", "nope"})});
    } else if (kd == "third-file") { b = {in, oarg, "third.mesh"}; }
    else if (kd == "missing-input") { b.clear(); for (auto &s : args) b.push_back(s == in || s == "in" ? "absent" + ext : s); }
    else if (kd == "bad-parameter-file") {
      if (j.lpar.empty()) { LocPar l; l.typ = MMG5_Triangle; l.ref = 1; l.hmin = .1; l.hmax = .2; l.hausd = .1; j.lpar.push_back(l); }
      std::string f = pf.empty() ? "in" + pext : pf;
      wpar(f, "Pentagon");
    } else if (kd == "missing-parameter-file") { b.clear(); for (size_t i = 0; i < args.size(); i++) if (args[i] == "-f") i++; else b.push_back(args[i]); b.push_back("-f"); b.push_back("absent" + pext); }
    else if (kd == "help") { b.insert(b.begin() + g.below((int)b.size() + 1), g.pick(std::vector<std::string>{"-h", "-?", "-val"})); }
    else if (kd == "wrong-solution-size") {
      if (gm) return;
      std::string s = lsm ? solIn : metIn.empty() ? "in.sol" : metIn;
      s = stem(s) + ".sol";
      if (s != (lsm ? solIn : metIn)) for (auto &x : b) if (x == (lsm ? solIn : metIn)) x = s;
      FILE *f = fopen((dir + "/" + s).c_str(), "w");
      fprintf(f, "MeshVersionFormatted 2\nDimension %d\nSolAtVertices\n%d\n1 1\n", j.in.dim(), (int)j.in.v.size() - 1);
      for (size_t i = 1; i < j.in.v.size(); i++) fprintf(f, "0.1\n");
      fprintf(f, "End\n"); fclose(f);
    } else if (kd == "missing-level-set") unlink((dir + "/" + solIn).c_str());
    else if (kd == "missing-metric-in-level-set-mode") { b.clear(); for (size_t i = 0; i < args.size(); i++) if (args[i] == "-met") i++; else b.push_back(args[i]); b.insert(b.begin(), "absent.sol"); b.insert(b.begin(), "-met"); }
    else if (kd == "metric-and-solution") {
      b.clear(); for (size_t i = 0; i < args.size(); i++) if (args[i] == "-met" || args[i] == "-sol") i++; else b.push_back(args[i]);
      std::string m = metIn.empty() ? "m.sol" : metIn;
      if (metIn.empty()) { FILE *f = fopen((dir + "/" + m).c_str(), "w"); fprintf(f, "MeshVersionFormatted 2\nDimension %d\nSolAtVertices\n%d\n1 1\n", j.in.dim(), (int)j.in.v.size()); for (size_t i = 0; i < j.in.v.size(); i++) fprintf(f, "0.1\n"); fprintf(f, "End\n"); fclose(f); }
      b.insert(b.begin(), {"-met", m, "-sol", m});
      if (j.in.tri.empty()) return;      // mesh generation
    } else if (kd == "bad-format") { std::string f = "in.stl"; FILE *w = fopen((dir + "/" + f).c_str(), "w"); fprintf(w, "solid x\nendsolid x\n"); fclose(w); b.clear(); for (auto &s : args) b.push_back(s == in || s == "in" ? f : s); }
    if (b == args && kd != "bad-parameter-file" && kd != "wrong-solution-size" && kd != "missing-level-set") return;
    cmd = KNAME[k]; for (auto &s : b) cmd += " " + s;
    r.sample = kd + ": " + cmd; r.sig = r.sample;
    auto before = snapDir(dir);
    Cli x = runCli(k, b, dir, log);
    r.cnt["erroneous-command-lines"]++;
    r.cnt["erroneous-" + kd]++;
    r.nontrivial = true;
    auto after = snapDir(dir);
    if (x.signaled) { r.viol("crash:" + kd, cmd + " :: " + tail(x.out)); return; }
    if (kd != "help" && x.status == 0) { r.viol("accepted:" + key, cmd + " exits with status 0 :: " + tail(x.out)); return; }
    if (x.out.empty()) { r.viol("no-message:" + kd, cmd); return; }
    for (auto &e : after) if (!before.count(e.first) || before[e.first] != e.second) { r.viol((kd == "unknown-option" ? "accepted:" : "written:") + key, cmd + " writes " + e.first); return; }
    for (auto &e : before) if (!after.count(e.first)) { r.viol("removed:" + kd, cmd + " removes " + e.first); return; }
    return;
  }
  // ---- the reference: the library on the same files
  auto before = snapDir(dir);
  Cli x = runCli(k, args, dir, log);
  auto after = snapDir(dir);
  r.cnt["command-lines"]++;
  if (x.signaled) { r.viol("crash", cmd + " :: " + tail(x.out)); return; }
  MMG5_pMesh mesh = nullptr; MMG5_pSol met = nullptr, ls = nullptr;
  BYK(k, Init_mesh, MMG5_ARG_start, MMG5_ARG_ppMesh, &mesh, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
  Mmg m(k); m.mesh = mesh; m.met = met; m.ls = ls; m.mode = j.mode;
  m.k = k;
  std::string fail;
#define RQ(e) do { if (fail.empty() && (e) != 1) fail = #e; } while (0)
  BYK(k, Set_solSize, mesh, met, MMG5_Vertex, 0, MMG5_Scalar);
  if (!j.has("verbose")) m.setOpt("verbose", -1);
  for (auto &o : j.opts) {
    int code = optCode(k, o.name);
    if (o.name == "anisosize") { RQ(BYK(k, Set_solSize, mesh, met, MMG5_Vertex, 0, MMG5_Tensor)); continue; }
    if (optIsInt(o.name)) RQ(BYK(k, Set_iparameter, mesh, met, code, (MMG5_int)o.val)); else RQ(BYK(k, Set_dparameter, mesh, met, code, o.val));
  }
  std::string D = dir + "/";
  // the Gmsh files hold the name of the metric
  BYK(k, Set_inputMeshName, mesh, in.c_str());
  BYK(k, Set_inputSolName, mesh, met, metIn.c_str());
  if (gm) RQ(BYK(k, loadMshMesh, mesh, met, (D + in).c_str()));
  else {
    RQ(BYK(k, loadMesh, mesh, (D + in).c_str()));
    if (lsm) RQ(BYK(k, loadSol, mesh, ls, (D + solIn).c_str()));
    if (!metIn.empty()) RQ(BYK(k, loadSol, mesh, met, (D + metIn).c_str()));
  }
  if (j.mats.size()) { RQ(BYK(k, Set_iparameter, mesh, met, optCode(k, "nmat"), (MMG5_int)j.mats.size())); for (auto &t : j.mats) RQ(BYK(k, Set_multiMat, mesh, met, t.ref, t.split, t.split ? t.rin : t.ref, t.split ? t.rex : t.ref)); }
  if (j.lpar.size()) { RQ(BYK(k, Set_iparameter, mesh, met, optCode(k, "npar"), (MMG5_int)j.lpar.size())); for (auto &t : j.lpar) RQ(BYK(k, Set_localParameter, mesh, met, t.typ, t.ref, t.hmin, t.hmax, t.hausd)); }
  if (j.br.size()) { RQ(BYK(k, Set_iparameter, mesh, met, optCode(k, "nbr"), (MMG5_int)j.br.size())); for (int t : j.br) RQ(BYK(k, Set_lsBaseReference, mesh, met, t)); }
  if (!fail.empty()) { r.viol("library-refused", fail + " :: " + r.sample); return; }
  int ret;
  if (lsm) ret = k == K3D ? MMG3D_mmg3dls(mesh, ls, met) : k == KS ? MMGS_mmgsls(mesh, ls, met) : MMG2D_mmg2dls(mesh, ls, met);
  else if (j.mode == M_GEN) ret = MMG2D_mmg2dmesh(mesh, met);
  else ret = k == K3D ? MMG3D_mmg3dlib(mesh, met) : k == KS ? MMGS_mmgslib(mesh, met) : MMG2D_mmg2dlib(mesh, met);
  bool ogm = isMsh(out.substr(out.rfind('.')));
  r.cnt[strf("library-returned-%d", ret)]++;
  if (ret != MMG5_STRONGFAILURE) {
    int ok = ogm ? BYK(k, saveMshMesh, mesh, met, (ref + "/" + out).c_str()) : BYK(k, saveMesh, mesh, (ref + "/" + out).c_str());
    if (ok == 1 && !ogm && met->np) ok = BYK(k, saveSol, mesh, met, (ref + "/" + out).c_str());
    if (ok != 1) { r.viol("library-save-failed", r.sample); return; }
  }
  auto want = snapDir(ref);
  r.nontrivial = ret == 0;
  if ((x.status == 0) != (ret == 0)) { r.viol(strf("%s:exit-status", KNAME[k]), strf("the library returns %d and the program exits with %d: ", ret, x.status) + r.sample + " :: " + tail(x.out)); return; }
  r.cnt[x.status ? "non-zero-exits" : "zero-exits"]++;
  for (auto &e : before) {
    if (!after.count(e.first)) { r.viol("input-removed", e.first + " " + r.sample); return; }
    if (after[e.first] != e.second && !want.count(e.first)) { r.viol("input-changed", e.first + " " + r.sample); return; }
  }
  for (auto &e : after) if (!before.count(e.first) && !want.count(e.first)) { r.viol(strf("%s:unexpected-file", KNAME[k]), e.first + " written: " + r.sample); return; }
  for (auto &e : want) {
    if (!after.count(e.first)) { r.viol(strf("%s:missing-file", KNAME[k]), e.first + " not written: " + r.sample); return; }
    r.cnt["files-compared"]++;
    r.cnt["bytes-compared"] += e.second.size();
    if (after[e.first] != e.second) { r.viol(strf("%s:other-%s", KNAME[k], e.first.find("sol") != std::string::npos ? "solution" : "mesh"), strf("%s differs (%zu bytes, %zu from the library): ", e.first.c_str(), after[e.first].size(), e.second.size()) + r.sample); return; }
  }
  for (auto &o : j.opts) r.cnt["option-" + o.name]++;
  if (lpf) r.cnt["parameter-files"]++;
  m.freeAll();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
