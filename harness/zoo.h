// Calls of the whole public API around a run, for the memory-safety, accounting and robustness monitors:
// results are not judged here (C10 and C18 do), only that the calls are legal and behave.
#pragma once
#include "vh.h"
#include <unistd.h>
#define ZBY(k, f, ...) ((k) == K3D ? MMG3D_##f(__VA_ARGS__) : (k) == KS ? MMGS_##f(__VA_ARGS__) : MMG2D_##f(__VA_ARGS__))

// nonBdy: also list the non boundary entities (reallocates the arrays: no run may follow)
inline int zooQuery(Mmg &g, Rng &r, bool nonBdy = true) {
  int n = 0;
  Kind k = g.k;
  MMG5_int np = 0, ne = 0, npr = 0, nt = 0, nq = 0, na = 0;
  if (k == K3D) MMG3D_Get_meshSize(g.mesh, &np, &ne, &npr, &nt, &nq, &na);
  else if (k == KS) MMGS_Get_meshSize(g.mesh, &np, &nt, &na);
  else MMG2D_Get_meshSize(g.mesh, &np, &nt, &nq, &na);
  auto some = [&](MMG5_int m) { return (MMG5_int)(1 + r.below((int)std::max<MMG5_int>(m, 1))); };
  for (int i = 0; i < 20 && np; i++) {
    double c[3]; MMG5_int rf; int a, b;
    if (k == K2D) MMG2D_GetByIdx_vertex(g.mesh, c, c + 1, &rf, &a, &b, some(np));
    else if (k == KS) MMGS_GetByIdx_vertex(g.mesh, c, c + 1, c + 2, &rf, &a, &b, some(np));
    else MMG3D_GetByIdx_vertex(g.mesh, c, c + 1, c + 2, &rf, &a, &b, some(np));
    n++;
    if (k != K2D) { double nn[3]; if (k == KS) MMGS_Get_normalAtVertex(g.mesh, some(np), nn, nn + 1, nn + 2); else MMG3D_Get_normalAtVertex(g.mesh, some(np), nn, nn + 1, nn + 2); }
  }
  if (k == K3D && ne) {
    MMG5_int ad[4];
    for (int i = 0; i < 20; i++) { MMG3D_Get_adjaTet(g.mesh, some(ne), ad); n++; }
    for (int i = 0; i < 10; i++) { MMG3D_Get_tetrahedronQuality(g.mesh, g.met, some(ne)); n++; }
    for (int i = 0; i < 10 && nt; i++) {
      MMG5_int kt, k2[2]; int f, f2[2];
      MMG5_int t = some(nt);
      MMG3D_Get_tetFromTria(g.mesh, t, &kt, &f);
      MMG3D_Get_tetsFromTria(g.mesh, t, k2, f2);
      n += 2;
    }
    MMG5_int nb = 0;
    if (nonBdy && MMG3D_Get_numberOfNonBdyTriangles(g.mesh, &nb) == 1) {
      MMG5_int a, b, c, rf;
      for (int i = 0; i < 5 && nb; i++) { MMG3D_Get_nonBdyTriangle(g.mesh, &a, &b, &c, &rf, some(nb)); n++; }
    }
  }
  if (k != K3D && nt) {
    MMG5_int ad[3];
    for (int i = 0; i < 20; i++) { if (k == KS) MMGS_Get_adjaTri(g.mesh, some(nt), ad); else MMG2D_Get_adjaTri(g.mesh, some(nt), ad); n++; }
    MMG5_int nb = 0;
    int ok = !nonBdy ? 0 : k == KS ? MMGS_Get_numberOfNonBdyEdges(g.mesh, &nb) : MMG2D_Get_numberOfNonBdyEdges(g.mesh, &nb);
    MMG5_int a, b, rf;
    for (int i = 0; ok == 1 && i < 5 && nb; i++) { if (k == KS) MMGS_Get_nonBdyEdge(g.mesh, &a, &b, &rf, some(nb)); else MMG2D_Get_nonBdyEdge(g.mesh, &a, &b, &rf, some(nb)); n++; }
    if (k == K2D) {
      static MMG5_int li[MMG2D_LMAX];
      for (int i = 0; i < 10; i++) { MMG2D_Get_adjaVertices(g.mesh, some(np), li); n++; }
      for (int i = 0; i < 10 && na; i++) {
        MMG5_int kt, k2[2]; int f, f2[2], e = (int)some(na);
        MMG2D_Get_triFromEdge(g.mesh, e, &kt, &f);
        MMG2D_Get_trisFromEdge(g.mesh, e, k2, f2);
        n += 2;
      }
    }
  }
  return n;
}

inline const std::vector<std::string> &zooExts(Kind k) {
  static const std::vector<std::string> a = {"mesh", "meshb", "msh", "mshb"}, b = a;
  return k == K3D ? a : b;
}
// saves the mesh (and metric) in a random format and reads it back in fresh structures
inline int zooFiles(Mmg &g, Rng &r, const std::string &dir, bool nonBdy = true) {
  Kind k = g.k;
  std::string ext = r.pick(zooExts(k)), f = dir + "/zoo." + ext, s = dir + "/zoo.sol";
  int n = 0;
  bool gm = ext[1] == 's';
  MMG5_pSol met = g.met && g.met->m ? g.met : nullptr;
  int ok = gm ? ZBY(k, saveMshMesh, g.mesh, met, f.c_str()) : ZBY(k, saveMesh, g.mesh, f.c_str());
  n++;
  if (met && !gm) { ZBY(k, saveSol, g.mesh, met, s.c_str()); n++; }
  if (k == K3D && nonBdy && r.chance(.2)) { MMG3D_saveTetgenMesh(g.mesh, (dir + "/zoo.node").c_str()); n++; }
  if (k == K2D && nonBdy && r.chance(.2)) { MMG2D_saveTetgenMesh(g.mesh, (dir + "/zoo.node").c_str()); n++; }
  Mmg h(k);
  if (!h.init(false)) return n;
  h.setOpt("verbose", -1);
  ok = gm ? ZBY(k, loadMshMesh, h.mesh, h.met, f.c_str()) : ZBY(k, loadMesh, h.mesh, f.c_str());
  n++;
  if (ok == 1 && met && !gm) { ZBY(k, loadSol, h.mesh, h.met, s.c_str()); n++; }
  h.freeAll();
  return n;
}
