#include "memwrap.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <execinfo.h>
namespace memwrap {
long live = 0, peak = 0, ncalls = 0, nblocks = 0, failAt = 0, failed = 0;
bool failAll = false, on = false;
int foreign = 0;
static void *buf0[8]; static int n0 = 0; void **site = buf0; int *siteN = &n0;
static std::unordered_map<void *, size_t> *tab() { static std::unordered_map<void *, size_t> *t = new std::unordered_map<void *, size_t>; return t; }
void reset() { ncalls = 0; failed = 0; *siteN = 0; peak = live; }
static bool refuse() {
  if (!on) return false;
  ncalls++;
  if (failAt && (failAll ? ncalls >= failAt : ncalls == failAt)) { failed++; if (!*siteN) *siteN = backtrace(site, 8); errno = ENOMEM; return true; }
  return false;
}
static void add(void *p, size_t n) { if (!p || !on) return; (*tab())[p] = n; live += n; nblocks++; if (live > peak) peak = live; }
static bool del(void *p) { auto it = tab()->find(p); if (it == tab()->end()) return false; live -= it->second; nblocks--; tab()->erase(it); return true; }
}
using namespace memwrap;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { if (refuse()) return nullptr; void *p = __real_malloc(n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (refuse()) return nullptr; void *p = __real_calloc(a, b); add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) {
  if (refuse()) return nullptr;
  size_t old = 0; bool known = false;
  if (q) { auto it = tab()->find(q); if (it != tab()->end()) { old = it->second; known = true; } }
  void *p = __real_realloc(q, n);
  if (!p && n) return p;
  if (known) { live -= old; nblocks--; tab()->erase(q); }
  add(p, n);
  return p;
}
char *__wrap_strdup(const char *t) { size_t n = strlen(t) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, t, n); return p; }
void __wrap_free(void *p) { if (p && !del(p) && on) { foreign++; if (getenv("MW_ABORT")) abort(); } __real_free(p); }
}
