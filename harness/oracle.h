// Independent oracles over output meshes (no Mmg code involved).
#pragma once
#include "vh.h"

struct ValidOpt {
  bool opnbdy = false;      // internal same-reference triangles/edges may be listed
  bool orphans = false;     // unused vertices allowed
  bool closedEdges = true;
  bool lists = true;        // the boundary triangles/edges are listed as they must be
};
// Empty key = valid.
bool checkValid(const Msh &m, const ValidOpt &o, std::string &key, std::string &detail);

struct Topo {               // of an element set (one reference or all)
  int comps = 0;            // connected components (through faces in 3D / edges in 2D / edges on surfaces)
  int euler = 0;            // V - E + F (- T)
  int bcomps = 0;           // boundary components
  bool operator==(const Topo &o) const { return comps == o.comps && euler == o.euler && bcomps == o.bcomps; }
};
std::map<int, double> volByRef(const Msh &m);     // element measure per reference (tets / triangles)
std::map<int, double> areaByRef(const Msh &m);    // 3D: boundary triangles, 2D: edge lengths
std::map<int, Topo> topoByRef(const Msh &m);      // per reference
Topo topoAll(const Msh &m);

// Adds every boundary / interface entity missing from the list (reference -1).
struct BFace { F3 f; int t1, t2; };
std::vector<BFace> boundaryFaces(const Msh &m);   // 3D: boundary and interface faces
struct BEdge { E2 e; std::vector<int> t; };
std::vector<BEdge> boundaryEdges(const Msh &m);   // 2D and S: edges with != 2 triangles or differing refs

double distPointTri(const V3 &p, const V3 &a, const V3 &b, const V3 &c);
double distPointSeg(const V3 &p, const V3 &a, const V3 &b);
