// Random workload generation: meshes whose exact geometry is known, metrics,
// level-set functions and option vectors.
#pragma once
#include "vh.h"

struct GenCfg {
  int maxCells = 60;        // bound on grid cells (3D) / 4x that in 2D
  bool curved = true;       // allow curved maps
  bool multi = true;        // allow several domains
  bool given = true;        // allow given boundary triangles / edges / ridges / corners
  bool affine = true;       // allow rotation / translation / scaling / stretching
  bool jitter = true;
  bool renumber = true;
  bool open = true;         // KS: open surfaces
  bool nonmanifold = true;  // KS: non-manifold surfaces
  bool holes = true;
  double maxStretch = 3;
  double maxScale = 100;
};
struct Geo {
  bool flat = true;         // every boundary / interface piece is planar (straight in 2D)
  bool closed = true;       // KS
  bool axis = false;        // no affine map was applied
  double h0 = 0;            // mean input edge length
  double L = 0;             // bounding box size
  std::string desc;
};
Msh genMesh(Rng &r, Kind k, const GenCfg &c, Geo &g);
Msh gen3(Rng &r, const GenCfg &c, Geo &g);
Msh gen2(Rng &r, const GenCfg &c, Geo &g);
Msh genS(Rng &r, const GenCfg &c, Geo &g);
Msh icosphere(int lvl, double rad);
Msh torusSurf(int nu, int nv, double R, double rr);

void finishGeo(const Msh &m, Geo &g);
void renumber(Msh &m, Rng &r);
void compactVertices(Msh &m);
Msh boundarySurface(const Msh &m3, bool interfaces, Rng *r, double dropSide);

// sizes relative to h0
Sol genMetric(Rng &r, const Msh &m, const Geo &g, bool aniso, double lo, double hi);
Sol genLs(Rng &r, const Msh &m, const Geo &g, int &kind, std::string &desc);

// Adds required / corner / ridge attributes at random.
void genAttributes(Rng &r, Msh &m, double preqv, double preqe, double preqt, double preqtet);
