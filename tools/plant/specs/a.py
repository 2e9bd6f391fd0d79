bug("b01-required-collapse", "C03", [("src/mmg3d/mmg3d1.c", "  if ( (tag0 > p1->tag) || (tag0 & MG_REQ) ) {\n    /* Unable to merge edge: pass to next element */", "  if ( tag0 > p1->tag ) {\n    /* Unable to merge edge: pass to next element */")],
 "a required vertex inside the volume next to the boundary, in a mesh that must be coarsened in the final adaptation stage", "interior required vertices are merged with boundary vertices and disappear",
r'''
int main() { DMesh d = cube(8, [](double, double, double) { return 1; }); D3 a; a.init(); a.set(d); a.met(d, [](double, double, double) { return 0.5; });
  std::vector<int> req; for (size_t i = 0; i < d.p.size(); i++) { int in = 1, near = 0; for (double x : d.p[i]) { if (x < .01 || x > .99) in = 0; if (x < .13 || x > .87) near = 1; } if (in && near && i % 3 == 0) req.push_back(i); }
  for (int r : req) CHK(MMG3D_Set_requiredVertex(a.m, r + 1));
  MMG3D_Set_dparameter(a.m, a.s, MMG3D_DPARAM_hgradreq, -1); MMG3D_Set_dparameter(a.m, a.s, MMG3D_DPARAM_hgrad, -1);
  CHK(MMG3D_mmg3dlib(a.m, a.s) == 0); MMG5_int np, ne, npr, nt, nq, na; MMG3D_Get_meshSize(a.m, &np, &ne, &npr, &nt, &nq, &na);
  std::vector<std::array<double, 3>> q(np); for (auto &x : q) { int c, r; MMG5_int f; MMG3D_Get_vertex(a.m, &x[0], &x[1], &x[2], &f, &c, &r); }
  for (int r : req) { bool ok = false; for (auto &x : q) if (fabs(x[0] - d.p[r][0]) + fabs(x[1] - d.p[r][1]) + fabs(x[2] - d.p[r][2]) < 1e-9) ok = true; if (!ok) BAD("required vertex %d lost", r + 1); }
  return 0; }
''')
bug("b02-gradation-stops-early", "C06", [("src/common/isosiz.c", ("maxit = 100;", 1), "maxit = 3;")],
 "a small size that has to spread over many layers of elements, against the numbering of the triangles", "the gradation loop stops before the sizes of neighbours respect the prescribed gradation",
r'''
int main() { int n = 30; DMesh d = grid2(n, [](double, double) { return 1; }); D2 a; a.init(); a.set(d); a.met(d, [](double x, double y) { return hypot(x - 1, y - 1) < .05 ? .01 : 1.; });
  MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_noinsert, 1); MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_noswap, 1); MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_nomove, 1);
  MMG2D_Set_dparameter(a.m, a.s, MMG2D_DPARAM_hgrad, 1.2); CHK(MMG2D_mmg2dlib(a.m, a.s) == 0);
  MMG5_int np, nt, nq, na; MMG2D_Get_meshSize(a.m, &np, &nt, &nq, &na); std::vector<double> h(np + 1); for (int i = 1; i <= np; i++) MMG2D_Get_scalarSol(a.s, &h[i]);
  std::vector<std::array<double, 2>> p(np + 1); for (int i = 1; i <= np; i++) { int c, r; MMG5_int f; MMG2D_Get_vertex(a.m, &p[i][0], &p[i][1], &f, &c, &r); }
  for (int k = 0; k < nt; k++) { MMG5_int v[3], f; int r; MMG2D_Get_triangle(a.m, v, v + 1, v + 2, &f, &r); for (int i = 0; i < 3; i++) { int x = v[i], y = v[(i + 1) % 3]; double l = hypot(p[x][0] - p[y][0], p[x][1] - p[y][1]); if (fabs(h[x] - h[y]) > log(1.2) * l * 1.01 + 1e-6) BAD("sizes %g %g at distance %g", h[x], h[y], l); } }
  return 0; }
''')
bug("b03-swap-loses-edge-ref", "C02", [("src/mmg2d/swapar_2d.c", "  pt1->tag[j] = pt->tag[i1];\n  pt1->edg[j] = pt->edg[i1];\n", "  pt1->tag[j] = pt->tag[i1];\n  pt1->edg[j] = 0;\n")],
 "an edge with a reference that belongs to a triangle whose other edge is swapped", "the reference of one edge of a swapped pair of triangles is reset to zero",
r'''
int main() { int n = 10; DMesh d = grid2(n, [](double, double) { return 1; }); std::vector<std::array<int, 3>> e;
  for (int i = 0; i < n; i++) { e.push_back({i + 1, i + 2, 7}); e.push_back({n * (n + 1) + i + 1, n * (n + 1) + i + 2, 8}); e.push_back({i * (n + 1) + 1, (i + 1) * (n + 1) + 1, 9}); e.push_back({(i + 1) * (n + 1), (i + 2) * (n + 1), 10}); }
  for (size_t i = 0; i < d.p.size(); i++) { auto &p = d.p[i]; if (p[0] > .01 && p[0] < .99 && p[1] > .01 && p[1] < .99) { p[0] += .03 * sin(37. * i); p[1] += .03 * cos(53. * i); } }
  D2 a; a.init(); a.set(d, e); a.met(d, [](double x, double y) { return .03 + .1 * fabs(x - y); }); CHK(MMG2D_mmg2dlib(a.m, a.s) == 0);
  MMG5_int np, nt, nq, na; MMG2D_Get_meshSize(a.m, &np, &nt, &nq, &na); double L[11] = {0};
  std::vector<std::array<double, 2>> p(np + 1); for (int i = 1; i <= np; i++) { int c, r; MMG5_int f; MMG2D_Get_vertex(a.m, &p[i][0], &p[i][1], &f, &c, &r); }
  for (int k = 0; k < na; k++) { MMG5_int x, y, f; int r, q; MMG2D_Get_edge(a.m, &x, &y, &f, &r, &q); double l = hypot(p[x][0] - p[y][0], p[x][1] - p[y][1]); if (f >= 7 && f <= 10) L[f] += l; else BAD("edge of reference %d", (int)f); }
  for (int f = 7; f <= 10; f++) if (fabs(L[f] - 1) > 1e-6) BAD("length %g of the edges of reference %d", L[f], f);
  return 0; }
''')
bug("b04-nomove-final-pass", "C05", [("src/mmg2d/mmg2d1.c", "  /* Last iterations of vertex relocation only */\n  if ( !mesh->info.nomove ) {", "  /* Last iterations of vertex relocation only */\n  if ( (!mesh->info.nomove) || (mesh->info.noinsert && !mesh->info.noswap) ) {")],
 "insertion and relocation forbidden while swaps are allowed", "the final relocation pass runs although relocation is forbidden",
r"""
int main() { for (int t = 0; t < 4; t++) { int n = 6 + t; DMesh d = grid2(n, [](double, double) { return 1; });
  for (size_t i = 0; i < d.p.size(); i++) { auto &p = d.p[i]; if (p[0] > .01 && p[0] < .99 && p[1] > .01 && p[1] < .99) for (int c = 0; c < 2; c++) p[c] += .3 / n * sin(37. * i + 11 * c + t); }
  D2 a; a.init(); a.set(d); a.met(d, [](double x, double y) { return .1 + .2 * fabs(x - y); });
  for (size_t i = 0; i < d.p.size(); i++) a.m->point[i + 1].ref = i + 1;
  MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_nomove, 1); MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_noinsert, 1);
  CHK(MMG2D_mmg2dlib(a.m, a.s) == 0); MMG5_int np, nt, nq, na; MMG2D_Get_meshSize(a.m, &np, &nt, &nq, &na);
  for (int i = 0; i < np; i++) { int c, r; MMG5_int f; double x[2]; MMG2D_Get_vertex(a.m, x, x + 1, &f, &c, &r); auto &q = d.p[f - 1]; if (fabs(x[0] - q[0]) + fabs(x[1] - q[1]) > 1e-9) BAD("vertex %d moved although -nomove", (int)f); } a.free(); }
  return 0; }
""")
bug("b05-multimat-leak", "C12", [("src/common/API_functions.c", "    if( mesh->info.invmat.lookup )\n      MMG5_DEL_MEM(mesh,mesh->info.invmat.lookup);\n  }", "    if( mesh->info.invmat.lookup && !mesh->info.iso )\n      MMG5_DEL_MEM(mesh,mesh->info.invmat.lookup);\n  }")],
 "a level-set run with a table of materials, then release", "the lookup table of the materials is not released",
r'''
#include <malloc.h>
static void once() { DMesh d = grid2(6, [](double x, double) { return x < .5 ? 1 : 2; }); MMG5_pMesh m = 0; MMG5_pSol s = 0, l = 0;
  MMG2D_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_ppLs, &l, MMG5_ARG_end); D2 a; a.m = m; a.s = s; MMG2D_Set_iparameter(m, s, MMG2D_IPARAM_verbose, -1);
  MMG2D_Set_iparameter(m, s, MMG2D_IPARAM_iso, 1); a.set(d); MMG2D_Set_solSize(m, l, MMG5_Vertex, d.p.size(), MMG5_Scalar); for (size_t i = 0; i < d.p.size(); i++) MMG2D_Set_scalarSol(l, hypot(d.p[i][0] - .5, d.p[i][1] - .5) - .3, i + 1);
  MMG2D_Set_iparameter(m, s, MMG2D_IPARAM_numberOfMat, 2); MMG2D_Set_multiMat(m, s, 1, MMG5_MMAT_Split, 5, 6); MMG2D_Set_multiMat(m, s, 2, MMG5_MMAT_Split, 7, 5000);
  CHK(MMG2D_mmg2dls(m, l, s) == 0); MMG2D_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_ppLs, &l, MMG5_ARG_end); }
int main() { for (int i = 0; i < 5; i++) once(); size_t a = mallinfo2().uordblks; for (int i = 0; i < 50; i++) once(); size_t b = mallinfo2().uordblks; if (b > a + 20000) BAD("memory grows: %zu -> %zu", a, b); return 0; }
''')
bug("b06-xreg-oom", "C13", [("src/mmg2d/analys_2d.c", ("  MMG5_SAFE_CALLOC(tmp,2*mesh->np+1,double,return 0);", 2), "  MMG5_SAFE_CALLOC(tmp,2*mesh->np+1,double,);")],
 "vertex regularization on and the allocation of its work array refused", "null pointer dereference when the work array of the regularization cannot be allocated",
r'''
static long bad = -1, cnt = 0; extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *calloc(size_t n, size_t s) { if (bad >= 0 && cnt++ == bad) return 0; return __libc_calloc(n, s); }
#include <unistd.h>
#include <sys/wait.h>
int main() { DMesh d = grid2(5, [](double, double) { return 1; });
  for (int k = 0; k < 40; k++) { fflush(0); pid_t p = fork(); if (!p) { D2 a; a.init(); a.set(d); MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_xreg, 1); cnt = 0; bad = k; int r = MMG2D_mmg2dlib(a.m, a.s); bad = -1; a.free(); _exit(r == 1 ? 0 : 0); }
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) BAD("allocation %d refused: process ended with %d", k, st); }
  return 0; }
''')
ASAN = r'''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cd "$T" && for f in "$R"/src/common/*.c "$R"/src/mmg2d/*.c "$R"/src/mmgs/*.c "$R"/src/mmg3d/*.c; do case "$f" in */mmg2d.c|*/mmgs.c|*/mmg3d.c|*/genheader.c|*/mmg3d3.c|*/mmg2d9.c_) continue;; esac; echo "$f"; done | xargs -P 8 -I{} sh -c 'o=$(echo {} | tr / _).o; gcc -w -g -O1 -fsanitize=address -fno-omit-frame-pointer -I'"$R"'/_build/include -I'"$R"'/src/common -I'"$R"'/_build/src/common -I'"$R"'/src/mmg2d -I'"$R"'/src/mmgs -I'"$R"'/src/mmg3d -c {} -o $o' || exit 98
g++ -std=c++17 -O1 -g -fsanitize=address -Wl,--unresolved-symbols=ignore-all -I"$R/_build/include" -I"$D" "$D/demo.cpp" -o demo *.o -lm -lpthread || exit 97
ulimit -c 0; ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
'''
bug("b07-xreg-overflow", "C11", [("src/mmg2d/analys_2d.c", ("  MMG5_SAFE_CALLOC(tmp,2*mesh->np+1,double,return 0);", 2), "  MMG5_SAFE_CALLOC(tmp,2*mesh->np,double,return 0);")],
 "vertex regularization in 2D (the last vertex is stored past the end of the work array)", "heap overflow by one double",
r'''
int main() { DMesh d = grid2(5, [](double, double) { return 1; }); D2 a; a.init(); a.set(d); MMG2D_Set_iparameter(a.m, a.s, MMG2D_IPARAM_xreg, 1); CHK(MMG2D_mmg2dlib(a.m, a.s) == 0); a.free(); return 0; }
''', sh=ASAN, files={"demo.h": open(HERE + "/demo.h").read()})
SPECS["b07-xreg-overflow"]["files"]["demo.cpp"] = '#include "demo.h"\n' + SPECS["b07-xreg-overflow"]["demo"]
bug("b09-duplicate-edges", "C01", [("src/mmgs/libmmgs.c", ("        if ( mesh->tria[jel].ref < mesh->tria[k].ref ) {\n          continue;\n        }\n        else if", 1), "        if ( mesh->tria[jel].ref < mesh->tria[k].ref && mesh->tria[k].ref != 3 ) {\n          continue;\n        }\n        else if"),
 ("src/mmgs/libmmgs.c", "            if ( mesh->tria[jel].ref < mesh->tria[k].ref ) {\n              continue;", "            if ( mesh->tria[jel].ref < mesh->tria[k].ref && mesh->tria[k].ref != 3 ) {\n              continue;")],
 "a surface piece of reference 3 next to a piece of a lower reference", "the edges between the two pieces are listed twice",
r'''
int main() { DMesh d = surf(4); DS a; a.init(); a.set(d); a.met(d, [](double, double, double) { return .2; }); CHK(MMGS_mmgslib(a.m, a.s) == 0);
  MMG5_int np, nt, na; MMGS_Get_meshSize(a.m, &np, &nt, &na); std::set<std::array<int, 2>> E; for (int k = 0; k < na; k++) { MMG5_int x, y, f; int r, q; MMGS_Get_edge(a.m, &x, &y, &f, &r, &q); if (!E.insert({(int)std::min(x, y), (int)std::max(x, y)}).second) BAD("edge %d %d listed twice", (int)x, (int)y); }
  return 0; }
''')
