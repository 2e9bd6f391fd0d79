// Random complete jobs (mesh + metric + level-set + options) for one module.
#pragma once
#include "gen.h"

struct JobCfg {
  GenCfg gen;
  int mode = -1;            // -1 random among remesh / level-set
  bool opts = true;         // random operator switches and minor options
  bool req = true;          // random required entities
  bool lpar = true;
  bool aniso = true;
  bool ls_multimat = true;
  bool surfls = true;       // isosurf
  bool weird = false;       // rarely used options (xreg, nreg, optimLES, renum, ...)
  bool prisms = false;
  double sizeLo = .4, sizeHi = 2;
};
struct JobInfo { Geo geo; int lsKind = -1; };
Job genJob(Rng &r, Kind k, const JobCfg &c, JobInfo &info);
// Replaces the top layer of cells of a fresh unit grid by prisms + quadrilaterals.
Msh genPrismMesh(Rng &r, Geo &g);
