bug("b10-rmc-exterior-factor", "C08", [("src/mmg3d/mmg3d2.c", ("if ( volc < mesh->info.rmc * voltot ) {", 2), "if ( 2.*volc < mesh->info.rmc * voltot ) {")],
 "a parasitic component of the negative side whose volume fraction lies between half the requested threshold and the threshold", "the component is not removed although it is smaller than the threshold",
r'''
static double run(double rmc, double lv) { int n = 8; DMesh d = cube(n, [](double, double, double) { return 1; }); MMG5_pMesh m = 0; MMG5_pSol s = 0, l = 0;
  MMG3D_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_ppLs, &l, MMG5_ARG_end); D3 a; a.m = m; a.s = s; MMG3D_Set_iparameter(m, s, MMG3D_IPARAM_verbose, -1); a.set(d);
  MMG3D_Set_iparameter(m, s, MMG3D_IPARAM_iso, 1); MMG3D_Set_iparameter(m, s, MMG3D_IPARAM_noinsert, 1); MMG3D_Set_iparameter(m, s, MMG3D_IPARAM_noswap, 1); MMG3D_Set_iparameter(m, s, MMG3D_IPARAM_nomove, 1);
  if (rmc > 0) MMG3D_Set_dparameter(m, s, MMG3D_DPARAM_rmc, rmc); CHK(MMG3D_Set_solSize(m, l, MMG5_Vertex, d.p.size(), MMG5_Scalar));
  for (size_t i = 0; i < d.p.size(); i++) { auto &p = d.p[i]; double b = hypot(hypot(p[0] - .75, p[1] - .75), p[2] - .75) < .01 ? -lv : .06; double v = std::min(b, p[2] - .2); CHK(MMG3D_Set_scalarSol(l, v, i + 1)); }
  CHK(MMG3D_mmg3dls(m, l, s) == 0); MMG5_int np, ne, npr, nt, nq, na; MMG3D_Get_meshSize(m, &np, &ne, &npr, &nt, &nq, &na);
  std::vector<std::array<double, 3>> p(np + 1); for (int i = 1; i <= np; i++) { int c, r; MMG5_int f; MMG3D_Get_vertex(m, &p[i][0], &p[i][1], &p[i][2], &f, &c, &r); }
  double V = 0; for (int k = 0; k < ne; k++) { MMG5_int v[4], f; int r; MMG3D_Get_tetrahedron(m, v, v + 1, v + 2, v + 3, &f, &r); if (f != 3) continue; double e[3][3]; double z = 0; for (int i = 0; i < 4; i++) z += p[v[i]][2] / 4; if (z < .4) continue;
    for (int i = 0; i < 3; i++) for (int c = 0; c < 3; c++) e[i][c] = p[v[i + 1]][c] - p[v[0]][c];
    V += fabs(e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0])) / 6; }
  MMG3D_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &s, MMG5_ARG_ppLs, &l, MMG5_ARG_end); return V; }
int main() { double V = run(0, .06); if (!(V > 0)) BAD("no component"); double W = run(1.5 * V, .06); if (W > 0) BAD("component of volume %g kept with the threshold %g", W, 1.5 * V);
  double X = run(.7 * V, .06); if (fabs(X - V) > 1e-9) BAD("component above the threshold changed"); return 0; }
''')
bug("b11-hgradreq-touches-hgrad", "C10", [("src/mmgs/API_functions_s.c", "    if ( mesh->info.hgradreq <= 0.0 )\n      mesh->info.hgradreq = -1.0;\n", "    if ( mesh->info.hgradreq <= 0.0 )\n      mesh->info.hgrad = mesh->info.hgradreq = -1.0;\n")],
 "the gradation of the required entities is switched off on a surface mesh while the ordinary gradation is on", "switching off one gradation also switches off the other one",
r'''
int main() { DS a; a.init(); MMGS_Set_dparameter(a.m, a.s, MMGS_DPARAM_hgrad, 1.5); double h = a.m->info.hgrad; MMGS_Set_dparameter(a.m, a.s, MMGS_DPARAM_hgradreq, -1);
  if (a.m->info.hgrad != h) BAD("the gradation changed from %g to %g", h, a.m->info.hgrad); return 0; }
''')
bug("b12-mmgs-xreg-value", "C17", [("src/mmgs/libmmgs_tools.c", "MMGS_Set_dparameter(mesh,met,MMGS_DPARAM_xreg,val)", "MMGS_Set_dparameter(mesh,met,MMGS_DPARAM_rmc,val)")],
 "the value of the coordinate regularization given on the command line of mmgs", "the value is stored in another parameter, and the regularization uses its default value",
r'''
int main() { DMesh d = surf(3); DS a; a.init(); a.set(d); char b[5][16] = {"mmgs", "-xreg", "0.7", "-in", "x.mesh"}; char *v[6] = {b[0], b[1], b[2], b[3], b[4], 0};
  CHK(MMGS_parsar(5, v, a.m, a.s, 0)); if (fabs(a.m->info.lxreg - .7) > 1e-6) BAD("regularization value %g", a.m->info.lxreg); return 0; }
''')
bug("b13-tets-from-tria-face", "C18", [("src/mmg3d/libmmg3d_tools.c", "    iface[1] = itet%4;", "    iface[1] = ktet[1] > ktet[0] ? itet%4 : iface[0];")],
 "a triangle between two tetrahedra that carries the reverse orientation, so that the tetrahedron found first has the higher index", "the index of the face in the second tetrahedron is that of the first one",
r'''
int main() { DMesh d = cube(3, [](double x, double, double) { return x < .34 ? 1 : 2; }); D3 a; a.init(); a.set(d); a.met(d, [](double, double, double) { return .25; }); CHK(MMG3D_mmg3dlib(a.m, a.s) == 0);
  MMG5_int np, ne, npr, nt, nq, na; MMG3D_Get_meshSize(a.m, &np, &ne, &npr, &nt, &nq, &na); std::vector<std::array<MMG5_int, 4>> T(ne + 1); for (int i = 1; i <= ne; i++) { MMG5_int f; int r; MMG3D_Get_tetrahedron(a.m, &T[i][0], &T[i][1], &T[i][2], &T[i][3], &f, &r); }
  int n = 0; for (int k = 1; k <= nt; k++) { MMG5_int v[3], f; int r; MMG3D_Get_triangle(a.m, v, v + 1, v + 2, &f, &r); MMG5_int kt[2]; int fc[2]; CHK(MMG3D_Get_tetsFromTria(a.m, k, kt, fc)); 
    for (int s = 0; s < 2; s++) if (kt[s]) { n += s; MMG5_int o = T[kt[s]][fc[s]]; if (o == v[0] || o == v[1] || o == v[2]) BAD("triangle %d: face %d of tetrahedron %d", k, fc[s], (int)kt[s]); } }
  if (!n) BAD("no interface"); return 0; }
''')
bug("b14-fortran-name-cut", "C20", [("src/mmg3d/API_functionsf_3d.c", "  strncpy(tmp,solout,*strlen0);\n  tmp[*strlen0] = '\\0';\n", "  strncpy(tmp,solout,*strlen0);\n  tmp[*strlen0 < 16 ? *strlen0 : 15] = '\\0';\n")],
 "an output solution name longer than 15 characters given through the Fortran interface", "the name is cut",
r'''
extern "C" void mmg3d_set_outputsolname_(MMG5_pMesh *, MMG5_pSol *, char *, int *, int *);
int main() { D3 a; a.init(); char n[] = "a-rather-long-name-of-a-file.sol"; int l = strlen(n), r = 0; mmg3d_set_outputsolname_(&a.m, &a.s, n, &l, &r);
  if (r != 1 || strcmp(a.s->nameout, n)) BAD("name %s", a.s->nameout); return 0; }
''')
