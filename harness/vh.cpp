// Case driver and small utilities.
#include "vh.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

const int TETFACE[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
const int TETEDGE[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};

std::string strf(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

double bboxsize(const Msh &m) {
  double d = 0;
  for (int k = 0; k < m.dim(); k++) {
    double lo = 1e300, hi = -1e300;
    for (auto &v : m.v) { lo = std::min(lo, v.c[k]); hi = std::max(hi, v.c[k]); }
    d = std::max(d, hi - lo);
  }
  return d;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += strf("\\u%04x", c);
    else o += (char)c;
  }
  return o;
}

static std::string toJson(int idx, const Result &r, double wall) {
  std::string s = strf("{\"case\":%d,\"status\":\"%s\",\"nontrivial\":%s,\"wall\":%.3f", idx, r.status.c_str(),
                       r.nontrivial ? "true" : "false", wall);
  s += ",\"key\":\"" + jesc(r.key) + "\",\"detail\":\"" + jesc(r.detail) + "\",\"sig\":\"" + jesc(r.sig) +
       "\",\"sample\":\"" + jesc(r.sample) + "\",\"cnt\":{";
  bool first = true;
  for (auto &c : r.cnt) {
    double v = c.second;
    if (!std::isfinite(v)) v = -1;
    s += strf("%s\"%s\":%.10g", first ? "" : ",", jesc(c.first).c_str(), v);
    first = false;
  }
  return s + "}}";
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// Turns a dead child's log into a stable key (no line numbers, no addresses).
static void crashKey(const std::string &log, int wst, Result &r) {
  std::string txt;
  if (FILE *f = fopen(log.c_str(), "r")) {
    fseek(f, 0, SEEK_END);
    long n = ftell(f), st = n > 300000 ? n - 300000 : 0;
    fseek(f, st, SEEK_SET);
    txt.resize(n - st);
    size_t k = fread(&txt[0], 1, txt.size(), f);
    txt.resize(k);
    fclose(f);
  }
  std::string kind, where, line;
  size_t p, from = 0;
  if ((p = txt.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    size_t e = txt.find_first_of(" \n", p + 25);
    kind = "asan:" + txt.substr(p + 25, e - p - 25);
    from = p;
  } else if ((p = txt.find("WARNING: MemorySanitizer: ")) != std::string::npos) {
    size_t e = txt.find_first_of(" \n", p + 26);
    kind = "msan:" + txt.substr(p + 26, e - p - 26);
    from = p;
  } else if ((p = txt.find("ERROR: LeakSanitizer")) != std::string::npos) {
    kind = "leak";
    from = p;
  } else if ((p = txt.find("runtime error: ")) != std::string::npos) {
    size_t e = txt.find('\n', p);
    std::string msg = txt.substr(p + 15, e - p - 15), q;
    for (char c : msg) q += (c >= '0' && c <= '9') ? '#' : c;
    kind = "ubsan:" + q.substr(0, 60);
    from = p;
  } else if ((p = txt.find("Assertion `")) != std::string::npos) {
    size_t e = txt.find("' failed", p);
    kind = "assert:" + txt.substr(p + 11, e == std::string::npos ? 60 : std::min<size_t>(e - p - 11, 80));
    size_t b = txt.rfind('\n', p);
    line = txt.substr(b == std::string::npos ? 0 : b + 1, p);
    from = p;
  } else if (WIFSIGNALED(wst)) {
    kind = strf("signal:%d", WTERMSIG(wst));
    from = txt.size();
  } else {
    kind = strf("exit:%d", WEXITSTATUS(wst));
    from = txt.size();
  }
  for (size_t q = txt.find("    #", from); q != std::string::npos; q = txt.find("    #", q + 1)) {
    size_t e = txt.find('\n', q);
    std::string l = txt.substr(q, e - q);
    size_t in = l.find(" in ");
    if (in == std::string::npos) continue;
    if (l.find("/src/common/") == std::string::npos && l.find("/src/mmg") == std::string::npos) continue;
    std::string fn = l.substr(in + 4);
    where = fn.substr(0, fn.find_first_of(" (\n"));
    break;
  }
  r.status = "violation";
  r.key = "crash:" + kind + (where.empty() ? "" : ":" + where);
  size_t tail = txt.size() > 1500 ? txt.size() - 1500 : 0;
  r.detail = (from < txt.size() ? txt.substr(from, 1500) : txt.substr(tail));
}

struct Child { pid_t pid; int fd; int idx; double t0; std::string buf; };

static pid_t spawn(const Ctx &c, CaseFn fn, int &rfd, const std::string &log, double cpu) {
  int p[2];
  if (pipe(p)) { perror("pipe"); exit(3); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    close(p[0]);
    int lf = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(lf, 1); dup2(lf, 2); close(lf);
    struct rlimit rl;
    rl.rlim_cur = (rlim_t)cpu; rl.rlim_max = (rlim_t)cpu + 5;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 200u << 20;
    setrlimit(RLIMIT_FSIZE, &rl);
    Result r;
    fn(c, r);
    fflush(stdout); fflush(stderr);
    std::string js = toJson(c.idx, r, 0);
    js += "\n";
    size_t o = 0;
    while (o < js.size()) {
      ssize_t k = write(p[1], js.data() + o, js.size() - o);
      if (k <= 0) break;
      o += k;
    }
    close(p[1]);
    _exit(0);
  }
  close(p[1]);
  rfd = p[0];
  return pid;
}

static bool finish(Child &ch, FILE *out, const std::string &log, bool last, bool wallkill) {
  int st = 0;
  waitpid(ch.pid, &st, 0);
  close(ch.fd);
  double wall = now() - ch.t0;
  bool complete = !ch.buf.empty() && ch.buf.back() == '\n' && WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (complete) {
    // splice the wall time in
    size_t p = ch.buf.find("\"wall\":0.000");
    if (p != std::string::npos) ch.buf.replace(p, 12, strf("\"wall\":%.3f", wall));
    fputs(ch.buf.c_str(), out);
    fflush(out);
    return true;
  }
  bool cpu = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL);
  if (cpu || wallkill) {
    if (!last) return false;
    Result r;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { r.status = "violation"; r.key = "hang"; r.detail = "case exceeded its CPU limit twice (second time alone with a longer limit)"; }
    else { r.status = "inconclusive"; r.key = "timeout"; r.detail = strf("killed (status %d)", st); }
    fputs((toJson(ch.idx, r, wall) + "\n").c_str(), out);
    fflush(out);
    return true;
  }
  Result r;
  crashKey(log, st, r);
  fputs((toJson(ch.idx, r, wall) + "\n").c_str(), out);
  fflush(out);
  return true;
}

int vh_main(int argc, char **argv, CaseFn fn, CountFn ncases) {
  uint64_t seed = 1;
  std::string tier = "quick", outp, scratch = "/tmp";
  int jobs = 8, one = -1, from = 0, to = -1;
  double cpu = 40;
  bool nofork = false, keep = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") tier = val();
    else if (a == "--out") outp = val();
    else if (a == "--scratch") scratch = val();
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--case") one = atoi(val().c_str());
    else if (a == "--from") from = atoi(val().c_str());
    else if (a == "--to") to = atoi(val().c_str());
    else if (a == "--cpu") cpu = atof(val().c_str());
    else if (a == "--nofork") nofork = true;
    else if (a == "--keep") keep = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  signal(SIGPIPE, SIG_IGN);
  setenv("VH_SCRATCH", scratch.c_str(), 1);
  Ctx c; c.seed = seed; c.tier = tier;
  if (nofork) {
    c.idx = one; c.scratch = scratch;
    Result r;
    fn(c, r);
    printf("%s\n", toJson(one, r, 0).c_str());
    return 0;
  }
  FILE *out = outp.empty() ? stdout : fopen(outp.c_str(), "w");
  if (!out) { perror(outp.c_str()); return 3; }
  int n = ncases(tier);
  if (to >= 0 && to < n) n = to;
  std::vector<int> todo;
  if (one >= 0) todo.push_back(one);
  else for (int i = from; i < n; i++) todo.push_back(i);
  std::vector<int> again;
  const size_t MAXTO = 8, MAXRE = 4;  // first-pass time-outs tolerated, second-pass reruns
  for (int pass = 0; pass < 2; pass++) {
    size_t nx = 0;
    std::vector<Child> live;
    int J = pass ? (int)MAXRE : jobs;
    double lim = pass ? 3 * cpu : cpu, wlim = lim * 6;
    auto inconc = [&](int id, const char *why) { Result r; r.status = "inconclusive"; r.key = why; fputs((toJson(id, r, 0) + "\n").c_str(), out); };
    if (pass) {
      todo = again; again.clear();
      std::sort(todo.begin(), todo.end());
      for (size_t i = MAXRE; i < todo.size(); i++) inconc(todo[i], "timeout");
      if (todo.size() > MAXRE) todo.resize(MAXRE);
    }
    while (nx < todo.size() || !live.empty()) {
      if (!pass && again.size() >= MAXTO && nx < todo.size()) { for (; nx < todo.size(); nx++) inconc(todo[nx], "not-run"); }
      if (live.empty() && nx >= todo.size()) break;
      while ((int)live.size() < J && nx < todo.size()) {
        Child ch;
        ch.idx = todo[nx++];
        c.idx = ch.idx;
        c.scratch = scratch + strf("/c%d", ch.idx);
        mkdir(c.scratch.c_str(), 0755);
        ch.t0 = now();
        ch.pid = spawn(c, fn, ch.fd, c.scratch + "/log", lim);
        live.push_back(ch);
      }
      std::vector<struct pollfd> pf;
      for (auto &l : live) pf.push_back({l.fd, POLLIN, 0});
      poll(pf.data(), pf.size(), 1000);
      for (size_t i = 0; i < live.size();) {
        bool done = false, wk = false;
        if (pf[i].revents & (POLLIN | POLLHUP | POLLERR)) {
          char b[65536];
          ssize_t k = read(live[i].fd, b, sizeof b);
          if (k > 0) live[i].buf.append(b, k);
          else done = true;
        } else if (now() - live[i].t0 > wlim) { kill(live[i].pid, SIGKILL); done = wk = true; }
        if (done) {
          std::string dir = scratch + strf("/c%d", live[i].idx);
          if (!finish(live[i], out, dir + "/log", pass == 1, wk)) again.push_back(live[i].idx);
          if (!keep) { std::string cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
          live.erase(live.begin() + i);
          pf.erase(pf.begin() + i);
        } else i++;
      }
    }
    if (again.empty()) break;
  }
  if (out != stdout) fclose(out);
  return 0;
}

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <new>
#include <sanitizer/msan_interface.h>
// memory of the (uninstrumented) C++ library counts as initialised
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); __msan_unpoison(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
#endif
