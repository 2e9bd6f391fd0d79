// C21: algebra of symmetric positive-definite tensors against an independent computation (Jacobi rotations, Cholesky).
#include "vh.h"
extern "C" {
int MMG5_eigenv3d(int symmat, double *mat, double lambda[3], double v[3][3]);
int MMG5_eigenv2d(int symmat, double *mat, double lambda[2], double v[2][2]);
int MMG5_eigensym(double m[3], double lambda[2], double vp[2][2]);
int MMG5_rmtr(double r[3][3], double m[6], double mr[6]);
int MMG5_rotmatrix(double n[3], double r[3][3]);
int MMG5_invmat(double *m, double *mi);
int MMG5_invmatg(double m[9], double mi[9]);
int MMG5_sys33sym(double a[6], double b[3], double r[3]);
int MMG5_mmgIntmet33_ani(double *, double *, double *, double);
int MMG5_interpmet22(MMG5_pMesh, double *, double *, double, double *);
int MMG5_intersecmet22(MMG5_pMesh mesh, double *m, double *n, double *mr);
int MMG5_intersecmet33(MMG5_pMesh mesh, double *m, double *n, double *mr);
int MMG5_simred2d(MMG5_pMesh, double *, double *, double dm[2], double dn[2], double vp[2][2]);
int MMG5_simred3d(MMG5_pMesh mesh, double *m, double *n, double dm[3], double dn[3], double vp[3][3]);
}
static int ncases(const std::string &t) { return t == "thorough" ? 6000 : 600; }
typedef double M3[3][3];
static void full(const double *t, int n, M3 a) {
  if (n == 2) { a[0][0] = t[0]; a[0][1] = a[1][0] = t[1]; a[1][1] = t[2]; }
  else { a[0][0] = t[0]; a[0][1] = a[1][0] = t[1]; a[0][2] = a[2][0] = t[2]; a[1][1] = t[3]; a[1][2] = a[2][1] = t[4]; a[2][2] = t[5]; }
}
static void pack(M3 a, int n, double *t) { int q = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) t[q++] = .5 * (a[i][j] + a[j][i]); }
struct Eig { double l[3]; M3 v; };   // eigenvectors are the columns of v
static Eig eigen(M3 a0, int n) {
  Eig e; M3 a;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { e.v[i][j] = i == j; a[i][j] = a0[i][j]; }
  for (int sw = 0; sw < 60; sw++) {
    double off = 0, dg = 0;
    for (int i = 0; i < n; i++) { dg += a[i][i] * a[i][i]; for (int j = i + 1; j < n; j++) off += a[i][j] * a[i][j]; }
    if (off <= 1e-34 * dg) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (a[p][q] == 0) continue;
      double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = e.v[k][p], y = e.v[k][q]; e.v[k][p] = c * x - s * y; e.v[k][q] = s * x + c * y; }
    }
  }
  for (int i = 0; i < n; i++) e.l[i] = a[i][i];
  return e;
}
static void mul(M3 a, M3 b, M3 c, int n) { M3 r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { r[i][j] = 0; for (int k = 0; k < n; k++) r[i][j] += a[i][k] * b[k][j]; } memcpy(c, r, sizeof(M3)); }
// f on the pair (M,N) written in the basis where both are diagonal: result = P^-T diag(f(dm,dn)) P^-1
static void pairOp(M3 m, M3 n, int d, std::function<double(double, double)> f, M3 out) {
  Eig e = eigen(m, d); M3 s, is, x;
  for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { s[i][j] = is[i][j] = 0; for (int k = 0; k < d; k++) { s[i][j] += std::sqrt(e.l[k]) * e.v[i][k] * e.v[j][k]; is[i][j] += e.v[i][k] * e.v[j][k] / std::sqrt(e.l[k]); } }
  mul(is, n, x, d); mul(x, is, x, d);
  for (int i = 0; i < d; i++) for (int j = i + 1; j < d; j++) x[i][j] = x[j][i] = .5 * (x[i][j] + x[j][i]);
  Eig w = eigen(x, d);    // N = S V diag(w) V' S, M = S V V' S
  M3 sv; mul(s, w.v, sv, d);
  for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { out[i][j] = 0; for (int k = 0; k < d; k++) out[i][j] += sv[i][k] * sv[j][k] * f(1, w.l[k]); }
}
// size of the difference of two tensors relative to the second one, in its own metric
static double relErr(M3 a, M3 b, int d) {
  Eig e = eigen(b, d); double w = 0;
  for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { double s = 0; for (int p = 0; p < d; p++) for (int q = 0; q < d; q++) s += e.v[p][i] * (a[p][q] - b[p][q]) * e.v[q][j]; w = std::max(w, std::fabs(s) / std::sqrt(e.l[i] * e.l[j])); }
  return w;
}
static void randRot(Rng &g, int d, M3 R) {
  if (d == 2) { double t = g.uni(0, 6.3); if (g.chance(.15)) t = g.below(4) * M_PI / 4; R[0][0] = R[1][1] = cos(t); R[1][0] = sin(t); R[0][1] = -sin(t); return; }
  int w = g.below(8);
  if (w == 0) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = i == j; return; }
  double q[4], n = 0;
  for (double &x : q) { x = g.uni(-1, 1); }
  if (w == 1) { q[g.range(1, 3)] = 0; q[g.range(1, 3)] = 0; }     // about an axis
  if (w == 2) { for (int i = 1; i < 4; i++) q[i] *= 1e-4; q[0] = 1; }   // nearly aligned
  for (double x : q) n += x * x;
  n = std::sqrt(n); if (n == 0) { q[0] = n = 1; }
  double a = q[0] / n, b = q[1] / n, c = q[2] / n, e = q[3] / n;
  double T[3][3] = {{a * a + b * b - c * c - e * e, 2 * (b * c - a * e), 2 * (b * e + a * c)}, {2 * (b * c + a * e), a * a - b * b + c * c - e * e, 2 * (c * e - a * b)}, {2 * (b * e - a * c), 2 * (c * e + a * b), a * a - b * b - c * c + e * e}};
  memcpy(R, T, sizeof T);
}
static void fromEig(M3 R, const double *l, int d, double *t) {
  M3 a; for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { a[i][j] = 0; for (int k = 0; k < d; k++) a[i][j] += R[i][k] * l[k] * R[j][k]; }
  pack(a, d, t);
}
// kind of spectrum: 0 generic, 1 isotropic, 2 two equal, 3 nearly equal
static int randTensor(Rng &g, int d, double hscale, double an, double *t, M3 R) {
  randRot(g, d, R);
  double l[3]; int kind = g.below(4);
  for (int i = 0; i < d; i++) l[i] = 1 / std::pow(hscale * std::exp(g.uni(0, std::log(an))), 2);
  if (kind == 1) for (int i = 1; i < d; i++) l[i] = l[0];
  if (kind == 2) l[1] = l[0];
  if (kind == 3) { double ep = std::pow(10., -g.uni(1, 14)); l[1] = l[0] * (1 + ep); if (d == 3 && g.chance(.3)) l[2] = l[0] * (1 - ep * g.uni()); }
  for (int i = d - 1; i > 0; i--) std::swap(l[i], l[g.below(i + 1)]);
  fromEig(R, l, d, t);
  return kind;
}
static std::string show(const double *t, int d) { std::string s = "("; for (int i = 0; i < d * (d + 1) / 2; i++) s += strf("%s%.17g", i ? " " : "", t[i]); return s + ")"; }

static void fn(const Ctx &c, Result &r) {
  Rng g(c.seed, c.idx, 2121);
  int d = c.idx % 2 ? 3 : 2, ns = d * (d + 1) / 2;
  int reg = g.below(3);
  double hs = reg == 0 ? 1 : reg == 1 ? std::pow(10., g.uni(-3, -1)) : std::pow(10., g.uni(-1, 1)), an = g.chance(.5) ? 20 : 5;
  double scale = c.tier == "thorough" ? 3 : 1;
  int N = (int)(1500 * scale);
  Mmg w(d == 2 ? K2D : K3D); w.init(false); w.setOpt("verbose", -1);
  MMG5_pMesh mesh = w.mesh;
  r.sample = strf("%dD tensors, sizes from %g, anisotropy up to %g", d, hs, an);
  r.sig = r.sample + strf(" %d", (int)c.idx); r.nontrivial = true;
  for (int it = 0; it < N && r.status == "ok"; it++) {
    double m[6], n[6], t[6]; M3 R, R2, M, Nn, X, Y;
    int km = randTensor(g, d, hs, an, m, R);
    int kn = randTensor(g, d, hs * g.uni(.5, 2), an, n, R2);
    int rel = g.below(6);
    if (rel == 0) { double f = g.chance(.3) ? 1 : g.uni(.2, 5); for (int i = 0; i < ns; i++) n[i] = f * m[i]; }
    if (rel == 1) { M3 a; full(n, d, a); Eig e = eigen(a, d); fromEig(R, e.l, d, n); }   // same directions
    full(m, d, M); full(n, d, Nn);
    std::string D = show(m, d) + " and " + show(n, d) + strf(" (kinds %d %d relation %d) ", km, kn, rel);
    auto bad = [&](const std::string &key, const std::string &what) { r.viol(key, what + " " + D + r.sample); };
    const char *cl = rel == 0 ? (std::max(km, kn) == 3 ? "near-proportional" : "proportional") : std::max(km, kn) == 3 ? "near" : std::max(km, kn) == 2 ? "repeated" : km == 1 || kn == 1 ? "isotropic" : "generic";
    // the closed-form solvers lose digits on nearly repeated eigenvalues: isolated misses are counted and their rate is bounded by class
    auto note = [&](const std::string &what, double e, double tol) {
      std::string k = what + ":" + cl;
      r.cnt["checks:" + k]++;
      if (!(e <= tol)) { r.cnt["bad:" + k]++; }
    };
    // ---- eigen-decompositions
    for (int how = 0; how < (d == 2 ? 3 : 2); how++) {
      double l[3] = {0, 0, 0}; M3 A = {{0}}; double v2[2][2], v3[3][3]; int ord = 1;
      std::string nm;
      if (d == 3) { if (how == 0) { nm = "eigen-public-3d"; ord = MMG3D_Compute_eigenv(m, l, v3); } else { nm = "eigen-3d"; ord = MMG5_eigenv3d(1, m, l, v3); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = v3[i][j]; }
      else { if (how == 0) { nm = "eigen-public-2d"; ord = MMG2D_Compute_eigenv(m, l, v2); } else if (how == 1) { nm = "eigen-2d"; ord = MMG5_eigenv2d(1, m, l, v2); } else { nm = "eigensym-2d"; MMG5_eigensym(m, l, v2); } for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A[i][j] = v2[i][j]; }
      if (!ord) { bad(nm + "-refused", "decomposition refused"); break; }
      for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { Y[i][j] = 0; for (int k = 0; k < d; k++) Y[i][j] += l[k] * A[k][i] * A[k][j]; }
      double nrm = 0, err = 0, orth = 0;
      for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { nrm = std::max(nrm, std::fabs(M[i][j])); err = std::max(err, std::fabs(Y[i][j] - M[i][j])); double s = 0; for (int k = 0; k < d; k++) s += A[i][k] * A[j][k]; orth = std::max(orth, std::fabs(s - (i == j))); }
      note(nm, err / nrm, 1e-5); note(nm + "-orthonormality", orth, 1e-5);
    }
    // ---- inverse, rotations, linear systems
    if (d == 3) {
      double mi[6]; M3 I;
      if (!MMG5_invmat(m, mi)) { r.cnt["inverse-refused"]++; }
      else { full(mi, 3, X); mul(M, X, I, 3); double e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e = std::max(e, std::fabs(I[i][j] - (i == j))); note("inverse", e / (an * an), 1e-5); }
      double mg[9], mgi[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mg[3 * i + j] = R[i][j] * g.uni(.5, 2) + (i == j);
      if (MMG5_invmatg(mg, mgi)) { double e = 0, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = 0; for (int k = 0; k < 3; k++) { x += mg[3 * i + k] * mgi[3 * k + j]; s = std::max(s, std::fabs(mgi[3 * i + k])); } e = std::max(e, std::fabs(x - (i == j))); } note("inverse-general", e / s, 1e-8); }
      double R9[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R9[i][j] = R2[i][j] * g.uni(.5, 2);
      MMG5_rmtr(R9, m, t); full(t, 3, X); { M3 T, U; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) T[i][j] = R9[j][i]; mul(R9, M, U, 3); mul(U, T, U, 3); double e = 0, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e = std::max(e, std::fabs(U[i][j] - X[i][j])); s = std::max(s, std::fabs(U[i][j])); } note("rotate-tensor", e / s, 1e-12); }
      double nn[3] = {R[0][2], R[1][2], R[2][2]}; if (g.chance(.1)) { nn[0] = nn[1] = 0; nn[2] = g.chance(.5) ? 1 : -1; }
      double rr[3][3]; MMG5_rotmatrix(nn, rr);
      { double e = 0; for (int i = 0; i < 3; i++) { double s = 0; for (int k = 0; k < 3; k++) s += rr[i][k] * nn[k]; e = std::max(e, std::fabs(s - (i == 2))); for (int j = 0; j < 3; j++) { double o = 0; for (int k = 0; k < 3; k++) o += rr[i][k] * rr[j][k]; e = std::max(e, std::fabs(o - (i == j))); } } note("rotation", e, 2e-3); }
      double b[3] = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}, x[3];
      double ms[6]; double sc = hs * hs; for (int i = 0; i < 6; i++) ms[i] = m[i] * sc;
      if (MMG5_sys33sym(ms, b, x)) { M3 S; full(ms, 3, S); double e = 0, q = 0; for (int i = 0; i < 3; i++) { double s = -b[i]; for (int k = 0; k < 3; k++) s += S[i][k] * x[k]; e = std::max(e, std::fabs(s)); q = std::max(q, std::fabs(x[i])); } note("linear-system", e / (an * an), 1e-5); } else r.cnt["system-refused"]++;
    }
    // ---- intersection
    bool wide = g.chance(.7);
    mesh->info.hmin = wide ? 1e-9 : hs * g.uni(.5, 2); mesh->info.hmax = wide ? 1e9 : mesh->info.hmin * g.uni(2, 50);
    double t2[6];
    int o1 = d == 2 ? MMG5_intersecmet22(mesh, m, n, t) : MMG5_intersecmet33(mesh, m, n, t), o2 = d == 2 ? MMG5_intersecmet22(mesh, n, m, t2) : MMG5_intersecmet33(mesh, n, m, t2);
    r.cnt["intersections"]++;
    if (!o1 || !o2) { r.cnt["intersections-refused"]++; }
    else {
      M3 I1, I2, W; full(t, d, I1); full(t2, d, I2);
      Eig e = eigen(I1, d); double lo = 1e300; for (int i = 0; i < d; i++) lo = std::min(lo, e.l[i]);
      if (!(lo > 0)) bad("intersection-not-definite", strf("%dD smallest eigenvalue %g", d, lo));
      if (wide) {
        pairOp(M, Nn, d, [](double a, double b) { return std::max(a, b); }, W);
        note(strf("intersection-%dd", d), relErr(I1, W, d), 1e-3);
        note(strf("intersection-symmetry-%dd", d), relErr(I1, I2, d), 1e-3);
        if (rel == 0) { bool mn = n[0] >= m[0]; note(strf("intersection-homothetic-%dd", d), relErr(I1, mn ? Nn : M, d), 1e-3); }
      }
    }
    // ---- simultaneous reduction: both tensors are diagonal in the returned basis
    if (g.chance(.5)) {
      double dm[3], dn[3], v2[2][2], v3[3][3]; M3 P;
      mesh->info.hmin = 1e-9; mesh->info.hmax = 1e9;
      int o = d == 2 ? MMG5_simred2d(mesh, m, n, dm, dn, v2) : MMG5_simred3d(mesh, m, n, dm, dn, v3);
      r.cnt["reductions"]++;
      if (!o) r.cnt["reductions-refused"]++;
      else {
        for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) P[i][j] = d == 2 ? v2[i][j] : v3[i][j];   // rows are the vectors
        double e = 0;
        for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) {
          double a = 0, b = 0; for (int p = 0; p < d; p++) for (int q = 0; q < d; q++) { a += P[i][p] * M[p][q] * P[j][q]; b += P[i][p] * Nn[p][q] * P[j][q]; }
          if (i == j) { e = std::max(e, std::fabs(a - dm[i]) / std::fabs(dm[i])); e = std::max(e, std::fabs(b - dn[i]) / std::fabs(dn[i])); }
          else { e = std::max(e, std::fabs(a) / std::sqrt(std::fabs(dm[i] * dm[j]))); e = std::max(e, std::fabs(b) / std::sqrt(std::fabs(dn[i] * dn[j]))); }
        }
        note(strf("simultaneous-reduction-%dd", d), e, 1e-3);
      }
    }
    // ---- interpolation (linear in the sizes along the common directions)
    double s = g.chance(.1) ? 0 : g.chance(.1) ? 1 : g.uni();
    o1 = d == 2 ? MMG5_interpmet22(mesh, m, n, s, t) : MMG5_mmgIntmet33_ani(m, n, t, s);
    o2 = d == 2 ? MMG5_interpmet22(mesh, n, m, 1 - s, t2) : MMG5_mmgIntmet33_ani(n, m, t2, 1 - s);
    r.cnt["interpolations"]++;
    if (!o1 || !o2) r.cnt["interpolations-refused"]++;
    else {
      M3 I1, I2, W; full(t, d, I1); full(t2, d, I2);
      Eig e = eigen(I1, d); double lo = 1e300; for (int i = 0; i < d; i++) lo = std::min(lo, e.l[i]);
      if (!(lo > 0)) bad("interpolation-not-definite", strf("%dD smallest eigenvalue %g", d, lo));
      pairOp(M, Nn, d, [s](double a, double b) { double h = (1 - s) / std::sqrt(a) + s / std::sqrt(b); return 1 / (h * h); }, W);
      note(strf("interpolation-%dd", d), relErr(I1, W, d), 1e-3);
      note(strf("interpolation-symmetry-%dd", d), relErr(I1, I2, d), 1e-3);
      if (s == 0) note(strf("interpolation-end-%dd", d), relErr(I1, M, d), 1e-3);
      if (s == 1) note(strf("interpolation-end-%dd", d), relErr(I1, Nn, d), 1e-3);
    }
    r.cnt["pairs"]++;
  }
  w.freeAll();
}
int main(int c, char **v) { return vh_main(c, v, fn, ncases); }
