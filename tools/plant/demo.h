// Small mesh generators for the demonstrations (self contained).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <vector>
#include <set>
#include <map>
#include <array>
#include <algorithm>
#include <functional>
extern "C" {
#include "mmg/libmmg.h"
}
#define CHK(x) do { if (!(x)) { fprintf(stderr, "demo: %s failed (line %d)\n", #x, __LINE__); exit(99); } } while (0)
#define BAD(...) do { fprintf(stderr, "BROKEN: " __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } while (0)
struct DMesh { std::vector<std::array<double, 3>> p; std::vector<std::array<int, 4>> t; std::vector<int> tr; std::vector<std::array<int, 3>> f; std::vector<int> fr; };
static inline DMesh grid2(int n, std::function<int(double, double)> ref) {
  DMesh m; auto id = [&](int i, int j) { return j * (n + 1) + i + 1; };
  for (int j = 0; j <= n; j++) for (int i = 0; i <= n; i++) m.p.push_back({i / (double)n, j / (double)n, 0});
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
    m.f.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)}); m.fr.push_back(ref((i + .6) / n, (j + .4) / n));
    m.f.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)}); m.fr.push_back(ref((i + .4) / n, (j + .6) / n)); }
  return m;
}
static inline DMesh cube(int n, std::function<int(double, double, double)> ref) {
  DMesh m; auto id = [&](int i, int j, int k) { return (k * (n + 1) + j) * (n + 1) + i + 1; };
  for (int k = 0; k <= n; k++) for (int j = 0; j <= n; j++) for (int i = 0; i <= n; i++) m.p.push_back({i / (double)n, j / (double)n, k / (double)n});
  int per[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) for (auto &q : per) {
    int c[3] = {i, j, k}; std::array<int, 4> t; t[0] = id(c[0], c[1], c[2]); double x = i, y = j, z = k;
    for (int s = 0; s < 3; s++) { c[q[s]]++; t[s + 1] = id(c[0], c[1], c[2]); x += c[0]; y += c[1]; z += c[2]; }
    int inv = (q[0] > q[1]) + (q[0] > q[2]) + (q[1] > q[2]); if (inv & 1) std::swap(t[2], t[3]);
    m.t.push_back(t); m.tr.push_back(ref(x / 4 / n, y / 4 / n, z / 4 / n)); }
  return m;
}
// surface of the unit cube, n x n squares per face, reference = face number
static inline DMesh surf(int n) {
  DMesh m; std::map<std::array<int, 3>, int> h;
  auto id = [&](std::array<int, 3> c) { auto it = h.find(c); if (it != h.end()) return it->second; m.p.push_back({c[0] / (double)n, c[1] / (double)n, c[2] / (double)n}); return h[c] = (int)m.p.size(); };
  for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
    auto P = [&](int u, int v) { std::array<int, 3> c; c[d] = s * n; c[(d + 1) % 3] = u; c[(d + 2) % 3] = v; return id(c); };
    int q[4] = {P(a, b), P(a + 1, b), P(a + 1, b + 1), P(a, b + 1)}; if (!s) std::swap(q[1], q[3]);
    m.f.push_back({q[0], q[1], q[2]}); m.f.push_back({q[0], q[2], q[3]}); m.fr.push_back(2 * d + s + 1); m.fr.push_back(2 * d + s + 1); }
  return m;
}
struct D3 { MMG5_pMesh m = 0; MMG5_pSol s = 0;
  void init() { MMG3D_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_end); MMG3D_Set_iparameter(m, s, MMG3D_IPARAM_verbose, -1); }
  void set(const DMesh &d) { CHK(MMG3D_Set_meshSize(m, d.p.size(), d.t.size(), 0, d.f.size(), 0, 0));
    for (size_t i = 0; i < d.p.size(); i++) CHK(MMG3D_Set_vertex(m, d.p[i][0], d.p[i][1], d.p[i][2], 0, i + 1));
    for (size_t i = 0; i < d.t.size(); i++) CHK(MMG3D_Set_tetrahedron(m, d.t[i][0], d.t[i][1], d.t[i][2], d.t[i][3], d.tr[i], i + 1));
    for (size_t i = 0; i < d.f.size(); i++) CHK(MMG3D_Set_triangle(m, d.f[i][0], d.f[i][1], d.f[i][2], d.fr[i], i + 1)); }
  void met(const DMesh &d, std::function<double(double, double, double)> h) { CHK(MMG3D_Set_solSize(m, s, MMG5_Vertex, d.p.size(), MMG5_Scalar)); for (size_t i = 0; i < d.p.size(); i++) CHK(MMG3D_Set_scalarSol(s, h(d.p[i][0], d.p[i][1], d.p[i][2]), i + 1)); }
  void free() { MMG3D_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_end); m = 0; s = 0; } };
struct D2 { MMG5_pMesh m = 0; MMG5_pSol s = 0;
  void init() { MMG2D_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_end); MMG2D_Set_iparameter(m, s, MMG2D_IPARAM_verbose, -1); }
  void set(const DMesh &d, const std::vector<std::array<int, 3>> &e = {}) { CHK(MMG2D_Set_meshSize(m, d.p.size(), d.f.size(), 0, e.size()));
    for (size_t i = 0; i < d.p.size(); i++) CHK(MMG2D_Set_vertex(m, d.p[i][0], d.p[i][1], 0, i + 1));
    for (size_t i = 0; i < d.f.size(); i++) CHK(MMG2D_Set_triangle(m, d.f[i][0], d.f[i][1], d.f[i][2], d.fr[i], i + 1));
    for (size_t i = 0; i < e.size(); i++) CHK(MMG2D_Set_edge(m, e[i][0], e[i][1], e[i][2], i + 1)); }
  void met(const DMesh &d, std::function<double(double, double)> h) { CHK(MMG2D_Set_solSize(m, s, MMG5_Vertex, d.p.size(), MMG5_Scalar)); for (size_t i = 0; i < d.p.size(); i++) CHK(MMG2D_Set_scalarSol(s, h(d.p[i][0], d.p[i][1]), i + 1)); }
  void free() { MMG2D_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_end); m = 0; s = 0; } };
struct DS { MMG5_pMesh m = 0; MMG5_pSol s = 0;
  void init() { MMGS_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_end); MMGS_Set_iparameter(m, s, MMGS_IPARAM_verbose, -1); }
  void set(const DMesh &d, const std::vector<std::array<int, 3>> &e = {}) { CHK(MMGS_Set_meshSize(m, d.p.size(), d.f.size(), e.size()));
    for (size_t i = 0; i < d.p.size(); i++) CHK(MMGS_Set_vertex(m, d.p[i][0], d.p[i][1], d.p[i][2], 0, i + 1));
    for (size_t i = 0; i < d.f.size(); i++) CHK(MMGS_Set_triangle(m, d.f[i][0], d.f[i][1], d.f[i][2], d.fr[i], i + 1));
    for (size_t i = 0; i < e.size(); i++) CHK(MMGS_Set_edge(m, e[i][0], e[i][1], e[i][2], i + 1)); }
  void met(const DMesh &d, std::function<double(double, double, double)> h) { CHK(MMGS_Set_solSize(m, s, MMG5_Vertex, d.p.size(), MMG5_Scalar)); for (size_t i = 0; i < d.p.size(); i++) CHK(MMGS_Set_scalarSol(s, h(d.p[i][0], d.p[i][1], d.p[i][2]), i + 1)); }
  void free() { MMGS_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_end); m = 0; s = 0; } };
