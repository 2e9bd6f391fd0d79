// Maps input vertices to output vertices by position (the library rescales coordinates internally,
// so positions agree up to rounding only).
#pragma once
#include "vh.h"
struct Matcher {
  const Msh &m;
  double cell;
  V3 lo;
  std::map<std::array<long, 3>, std::vector<int>> g;
  Matcher(const Msh &out, double tol) : m(out), cell(tol * 4) {
    lo = {0, 0, 0};
    for (size_t i = 0; i < m.v.size(); i++) g[key(m.v[i].c)].push_back(i);
  }
  std::array<long, 3> key(const V3 &c) const { return {(long)std::floor(c[0] / cell), (long)std::floor(c[1] / cell), (long)std::floor(c[2] / cell)}; }
  // index of the vertex of m closest to c if within tol, else -1
  int find(const V3 &c, double tol) const {
    auto k = key(c);
    int best = -1;
    double bd = tol;
    for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) {
      auto it = g.find({k[0] + x, k[1] + y, k[2] + z});
      if (it == g.end()) continue;
      for (int i : it->second) { double d = norm(m.v[i].c - c); if (d <= bd) { bd = d; best = i; } }
    }
    return best;
  }
};
// tolerance for positions that must not change
inline double posTol(const Msh &in) {
  double a = 0;
  for (auto &v : in.v) for (double x : v.c) a = std::max(a, std::fabs(x));
  return 1e-13 * a + 1e-13 * bboxsize(in);
}
