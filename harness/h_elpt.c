/* C25: closest-point search in one element; -DDIM=2|3 */
#include "hcommon.h"
#ifndef DIM
#define DIM 2
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define NM(x) CAT(x, DIM)
#define CAT3_(a, b, c) a##b##c
#define EL(x) CAT3(x, DIM)
typedef struct NM(findpts_el_data_) eld;
typedef struct NM(findpts_el_pt_) elp;
struct cs { int f, n[3], a, b, tr, tol, batch; }; static struct cs *C; static int nc;
#include "elem.h"
static void add(struct cs c) { if (!(nc & 4095)) C = realloc(C, (nc + 4096) * sizeof *C); C[nc++] = c; }
static const double TOLS[] = {1e-12, 1e-10, 1024 * DBL_EPSILON, 1e-8};
static const int BATCH[] = {1, 2, 3, 7, 64, 100000};
void h_init(int tier) {
  nc = 0; int q = 0;
#if DIM == 2
  for (int a = 0; a < 81; a++) for (int b = 0; b < 81; b++, q++) add((struct cs){F_CORNER, {2, 2}, a, b, q / 5 % NTR, q % 4, q % 6});
  static const int ns[][2] = {{3, 3}, {2, 4}, {4, 3}, {5, 2}, {6, 7}};
  for (int k = 0; k < 5; k++) { int nt = ns[k][0] * ns[k][1], T = nt * 8; for (int a = 0; a < T; a++) for (int b = a; b < T; b++, q++) { if (!tier && nt > 15 && a != b) continue; add((struct cs){F_DISP, {ns[k][0], ns[k][1]}, a, b, q / 5 % NTR, q % 4, q % 6}); } }
  for (int nr = 2; nr <= (tier ? 14 : 8); nr++) for (int ns = 2; ns <= (tier ? 14 : 8); ns++) for (int mp = 0; mp < NMAP; mp++) for (int tr = 0; tr < NTR; tr++, q++) add((struct cs){F_MAP, {nr, ns}, mp, 0, tr, q % 4, q % 6});
#else
  for (int a = 0; a < 8; a++) for (int b = a + 1; b < 8; b++) for (int u = 0; u < 27; u++) for (int v = 0; v < 27; v++, q++) add((struct cs){F_CORNER, {2, 2, 2}, a * 8 + b, u * 27 + v, q / 5 % NTR, q % 4, q % 6});
  static const int ns[][3] = {{3, 3, 3}, {2, 3, 4}, {4, 2, 3}, {3, 4, 2}};
  for (int k = 0; k < 4; k++) { int nt = ns[k][0] * ns[k][1] * ns[k][2], T = nt * 26; for (int a = 0; a < T; a++) for (int b = a; b < T; b++) { if (b != a && !((tier || k == 1) && axis26(a) && axis26(b))) continue; q++; add((struct cs){F_DISP, {ns[k][0], ns[k][1], ns[k][2]}, a, b, q / 5 % NTR, q % 4, q % 6}); } }
  for (int nr = 2; nr <= (tier ? 7 : 5); nr++) for (int ns = 2; ns <= (tier ? 7 : 5); ns++) for (int nt = 2; nt <= (tier ? 7 : 5); nt++) for (int mp = 0; mp < NMAP; mp++) for (int tr = 0; tr < NTR; tr += tier ? 1 : 3, q++) add((struct cs){F_MAP, {nr, ns, nt}, mp, 0, tr, q % 4, q % 6});
#endif
}
uint64_t h_ncases(void) { return nc; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; c->check_leaks = 1; }
static const char *fnm[] = {"corner lattice", "displaced nodes", "map"};
void h_describe(uint64_t i, char *b, size_t n) { struct cs *c = C + i; snprintf(b, n, "%d-D, nodes %d,%d,%d, %s %d/%d, transformation %d, tolerance %g, batches of %d", DIM, c->n[0], c->n[1], c->n[2], fnm[c->f], c->a, c->b, c->tr, TOLS[c->tol], BATCH[c->batch]); }
static u64 oh;
static ld zz[3][20];
static void evalr(double *X[3], const double *r, ld x[3], ld J[9]) {
  ld l[3][20], m[3][20]; for (int d = 0; d < DIM; d++) for (int i = 0; i < n[d]; i++) { ld v = 1, dv = 0; for (int q = 0; q < n[d]; q++) if (q != i) { dv = dv * (r[d] - zz[d][q]) / (zz[d][i] - zz[d][q]) + v / (zz[d][i] - zz[d][q]); v *= (r[d] - zz[d][q]) / (zz[d][i] - zz[d][q]); } l[d][i] = v; m[d][i] = dv; }
  if (DIM == 2) l[2][0] = 1, m[2][0] = 0;
  for (int c = 0; c < DIM; c++) { x[c] = 0; for (int d = 0; d < DIM; d++) J[c * DIM + d] = 0; for (int k = 0; k < (DIM == 3 ? n[2] : 1); k++) for (int j = 0; j < n[1]; j++) { ld a = 0, da = 0; const double *u = X[c] + (k * n[1] + j) * n[0]; for (int i = 0; i < n[0]; i++) a += l[0][i] * u[i], da += m[0][i] * u[i]; x[c] += l[2][k] * l[1][j] * a; J[c * DIM] += l[2][k] * l[1][j] * da; J[c * DIM + 1] += l[2][k] * m[1][j] * a; if (DIM == 3) J[c * DIM + 2] += m[2][k] * l[1][j] * a; } }
}
struct tg { double x[3], ref; int in; }; /* ref: a known upper bound of the distance, or -1 */
static struct tg T[4000]; static int nT;
static ld dist2(const double *x, const ld *y) { ld s = 0; for (int d = 0; d < DIM; d++) s += (x[d] - y[d]) * (x[d] - y[d]); return s; }
static eld fd; static elp *pt;
static const char *who; static int aff;
static void check(const elp *q, const struct tg *t, double *X[3], double size, double mag, double tol) {
  ld x[3], J[9]; const double *r = q->r; double R3 = DIM == 3 ? r[2] : 0, jn = 0, w[3], far = 0; unsigned all = (1u << 2 * DIM) - 1;
  for (int d = 0; d < DIM; d++) { unsigned f = q->flags >> 2 * d & 3; REQUIRE(q->x[d] == t->x[d], "%s: the target was changed: %.17g became %.17g", who, t->x[d], q->x[d]); REQUIRE(r[d] >= -1 && r[d] <= 1, "%s: coordinate %.17g outside the element", who, r[d]); REQUIRE(f != 3 && (f != 1 || r[d] <= -1 + 1e-9) && (f != 2 || r[d] >= 1 - 1e-9), "%s: constraint flags %u with coordinate %.17g in direction %d", who, f, r[d], d); if (fabs(t->x[d]) > far) far = fabs(t->x[d]); }
  evalr(X, r, x, J); double dd = sqrtl(dist2(t->x, x)), eps = 1e-13 * (mag + size + far); for (int d = 0; d < DIM; d++) { double s = 0; for (int e = 0; e < DIM; e++) s += J[e * DIM + d] * J[e * DIM + d]; w[d] = sqrt(s); if (w[d] > jn) jn = w[d]; }
  double tl = 10 * eps + 4 * tol * jn;
  int conv = q->flags >> 2 * DIM & 1; if (tol * jn > 20 * DBL_EPSILON * (mag + size + far)) REQUIRE(conv, "%s: target (%.17g, %.17g, %.17g): not converged", who, t->x[0], t->x[1], DIM == 3 ? t->x[2] : 0.); /* finer tolerances are below rounding */
#define AT t->x[0], t->x[1], DIM == 3 ? t->x[2] : 0., r[0], r[1], R3
#define FMT "%s: target (%.17g, %.17g, %.17g), r = (%.17g, %.17g, %.17g): "
  if (conv) REQUIRE(fabs(sqrt(q->dist2) - dd) <= tl, FMT "distance %.17g reported, is %.17g", who, AT, sqrt(q->dist2), dd);
  double nd = 1e300; for (int k = 0; k < nt; k++) { ld y[3]; for (int d = 0; d < DIM; d++) y[d] = X[d][k]; double s = sqrtl(dist2(t->x, y)); if (s < nd) nd = s; } REQUIRE(dd <= nd + tl, FMT "distance %.17g, a node of the element is at %.17g", who, AT, dd, nd);
  if (t->ref >= 0) REQUIRE(dd <= t->ref + tl, FMT "distance %.17g, a point of the element is at %.17g", who, AT, dd, t->ref);
  if (t->in == 1) REQUIRE(!(q->flags & all), FMT "a point inside is said to be on the boundary", who, AT);
  if (!(q->flags & all)) REQUIRE(dd <= tl, FMT "said to be inside, at distance %.17g", who, AT, dd);
  double tk = tl + 8 * sqrt(tol) * dd + 8 * sqrt(dd * eps);
  for (int d = 0; d < DIM; d++) { double s = 0; for (int e = 0; e < DIM; e++) s += J[e * DIM + d] * (t->x[e] - x[e]); s /= w[d]; REQUIRE(r[d] == -1 ? s <= tk : r[d] == 1 ? s >= -tk : fabs(s) <= tk, FMT "not closest: the distance %.17g decreases at rate %.17g along direction %d", who, AT, dd, s / dd, d); }
  if (aff) { /* the element is a parallelogram or parallelepiped: any point of it is at least as far; brute force over the sets of active constraints */
    static const double ctr[3] = {0}; ld c0[3], J0[9], best = 1e300L; evalr(X, ctr, c0, J0);
    for (int k = 0; k < (DIM == 2 ? 9 : 27); k++) { int a[3] = {k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1}, fr[3], nf = 0; ld b[3], A[3][4], rr[3]; for (int d = 0; d < DIM; d++) { rr[d] = a[d]; if (!a[d]) fr[nf++] = d; } for (int e = 0; e < DIM; e++) { b[e] = t->x[e] - c0[e]; for (int d = 0; d < DIM; d++) b[e] -= J0[e * DIM + d] * rr[d]; }
      for (int i = 0; i < nf; i++) { for (int j = 0; j < nf; j++) { A[i][j] = 0; for (int e = 0; e < DIM; e++) A[i][j] += J0[e * DIM + fr[i]] * J0[e * DIM + fr[j]]; } A[i][nf] = 0; for (int e = 0; e < DIM; e++) A[i][nf] += J0[e * DIM + fr[i]] * b[e]; }
      for (int i = 0; i < nf; i++) { for (int j = i + 1; j < nf; j++) { ld m = A[j][i] / A[i][i]; for (int l = i; l <= nf; l++) A[j][l] -= m * A[i][l]; } } int ok = 1; for (int i = nf - 1; i >= 0; i--) { ld v = A[i][nf]; for (int j = i + 1; j < nf; j++) v -= A[i][j] * rr[fr[j]]; rr[fr[i]] = v / A[i][i]; } for (int d = 0; d < DIM; d++) if (fabsl(rr[d]) > 1) ok = 0; if (!ok) continue;
      ld s = 0; for (int e = 0; e < DIM; e++) { ld v = t->x[e] - c0[e]; for (int d = 0; d < DIM; d++) v -= J0[e * DIM + d] * rr[d]; s += v * v; } if (s < best) best = s; }
    double bd = sqrtl(best); REQUIRE(fabs(dd - bd) <= tl + 8 * tol * dd, FMT "distance %.17g, the closest point of the straight-sided element is at %.17g", who, AT, dd, bd); }
  oh = hmix(oh, q->flags); sim_steps(1);
}
/* not folded over between the points of the coarse grid, along the boundary */
static int valid_fine(double *X[3]) {
  int M = DIM == 2 ? 128 : 16; ld mn = 1e300L, mx = -1e300L;
  for (int f = 0; f < 2 * DIM; f++) for (int k = 0; k <= (DIM == 2 ? M : (M + 1) * (M + 1) - 1); k++) { double r[3]; ld x[3], J[9]; r[f / 2] = f & 1 ? 1 : -1; r[(f / 2 + 1) % DIM] = -1 + 2. * (k % (M + 1)) / M; if (DIM == 3) r[(f / 2 + 2) % DIM] = -1 + 2. * (k / (M + 1)) / M; evalr(X, r, x, J); ld q = det(J); if (q < mn) mn = q; if (q > mx) mx = q; }
  return (mn > 0 && mn > 0.02L * mx) || (mx < 0 && mx < 0.02L * mn);
}
static void put(double *x, const ld *y) { for (int d = 0; d < DIM; d++) x[d] = y[d]; }
void h_rank(uint64_t idx, int p) {
  struct cs c = C[idx]; oh = 0; nt = 1; for (int d = 0; d < DIM; d++) { n[d] = c.n[d]; nt *= n[d]; nodes(n[d], zz[d]); for (int i = 0; i < n[d]; i++) Z[d][i] = zz[d][i]; } grid();
  double *X[3], *Y[3], *W[3]; for (int d = 0; d < DIM; d++) X[d] = sim_alloc(8 * nt); make(&c, X, &aff);
  if (!valid(X) || (c.f == F_DISP && !valid_fine(X))) { sim_state(1); for (int d = 0; d < DIM; d++) free(X[d]); return; }
  double mn[3], mx[3], size = 0, mag = 0; for (int d = 0; d < DIM; d++) { mn[d] = 1e300, mx[d] = -1e300; for (int i = 0; i < nt; i++) { if (X[d][i] < mn[d]) mn[d] = X[d][i]; if (X[d][i] > mx[d]) mx[d] = X[d][i]; if (fabs(X[d][i]) > mag) mag = fabs(X[d][i]); } if (mx[d] - mn[d] > size) size = mx[d] - mn[d]; }
  if (c.f == F_CORNER) { aff = 1; for (int i = 0; i < nt && aff; i++) for (int d = 0; d < DIM; d++) { double v = X[d][0]; for (int b = 0; b < DIM; b++) if (i >> b & 1) v += X[d][1 << b] - X[d][0]; if (fabs(v - X[d][i]) > 1e-15 * (mag + size)) aff = 0; } }
  /* targets: a lattice around the element, some far ones; points of the element; points off its boundary, outwards */
  nT = 0; int LG = DIM == 2 ? 9 : 5, RG = DIM == 2 ? 9 : 5, LT = DIM == 2 ? LG * LG : LG * LG * LG, RT = DIM == 2 ? RG * RG : RG * RG * RG;
  for (int k = 0; k < LT; k++) { int g[3] = {k % LG, k / LG % LG, k / LG / LG}; struct tg *t = T + nT++; t->in = 0; t->ref = -1; for (int d = 0; d < DIM; d++) t->x[d] = mn[d] + (mx[d] - mn[d]) * (-0.6 + 2.2 * g[d] / (LG - 1)); }
  for (int k = 0; k < 1 << DIM; k++) { struct tg *t = T + nT++; t->in = 0; t->ref = -1; for (int d = 0; d < DIM; d++) t->x[d] = mn[d] + size * ((k >> d & 1 ? 30 : -25) + d); }
  for (int k = 0; k < RT; k++) { int g[3] = {k % RG, k / RG % RG, k / RG / RG}, bd = 0; double r[3]; for (int d = 0; d < DIM; d++) { r[d] = -1 + 2. * g[d] / (RG - 1); if (g[d] == 0 || g[d] == RG - 1) bd++; } ld x[3], J[9]; evalr(X, r, x, J); struct tg *t = T + nT++; t->in = 1 + bd; t->ref = 0; put(t->x, x);
    if (bd) for (int e = 0; e < 2; e++) { double h = size * (e ? 0.05 : 1e-4), v[3] = {0}, s = 0; t = T + nT++; t->in = 0; t->ref = e == 0 || c.f == F_MAP ? h * (1 + 1e-9) : -1; for (int d = 0; d < DIM; d++) if (g[d] == 0 || g[d] == RG - 1) for (int q = 0; q < DIM; q++) v[q] += (g[d] ? 1 : -1) * (double)J[q * DIM + d]; for (int q = 0; q < DIM; q++) s += v[q] * v[q]; s = sqrt(s); for (int d = 0; d < DIM; d++) t->x[d] = (double)x[d] + h * v[d] / s; } }
  unsigned nn[3]; const double *ex[3], *ew[3]; for (int d = 0; d < DIM; d++) { nn[d] = n[d]; Y[d] = sim_alloc(8 * nt); W[d] = sim_alloc(8 * nt); memcpy(Y[d], X[d], 8 * nt); for (int i = 0; i < nt; i++) W[d][i] = 2 * X[d][i] + d; ex[d] = X[d]; ew[d] = W[d]; } int B = BATCH[c.batch]; if (B > nT) B = nT; double tol = TOLS[c.tol];
  NM(findpts_el_setup_)(&fd, nn, B); pt = NM(findpts_el_points_)(&fd);
  /* first another element, with all kinds of targets: nothing of it may remain */
  NM(findpts_el_start_)(&fd, ew); who = "first element"; int st = nT / 24 + 1; for (int i0 = idx % st, m; i0 < nT; i0 += st * m) { m = 0; struct tg u[4000]; while (m < B && i0 + st * m < nT) { u[m] = T[i0 + st * m]; for (int d = 0; d < DIM; d++) pt[m].x[d] = u[m].x[d] = 2 * u[m].x[d] + d; u[m].ref *= 2; if (u[m].ref < 0) u[m].ref = -1; m++; } NM(findpts_el_)(&fd, m, tol); for (int i = 0; i < m; i++) check(pt + i, u + i, W, 2 * size, 2 * mag + DIM, tol); }
  NM(findpts_el_start_)(&fd, ex); who = "second element";
  for (int i0 = 0; i0 < nT; i0 += B) { int m = nT - i0 < B ? nT - i0 : B; for (int i = 0; i < m; i++) for (int d = 0; d < DIM; d++) pt[i].x[d] = T[i0 + i].x[d];
    NM(findpts_el_)(&fd, m, tol);
    for (int i = 0; i < m; i++) check(pt + i, T + i0 + i, X, size, mag, tol);
    double out[2]; for (int d = 0; d < DIM; d++) { int k = (i0 / B + d) % m, mm = k + 1 < m && B > 1 ? 2 : 1; ld x[3], J[9]; NM(findpts_el_eval_)(out, sizeof(double), pt[k].r, sizeof(elp), mm, X[d], &fd); for (int j = 0; j < mm; j++) { evalr(X, pt[k + j].r, x, J); REQUIRE(fabs(out[j] - (double)x[d]) <= 1e-12 * (mag + size), "evaluation at (%.17g, %.17g): %.17g, expected %.17g", pt[k + j].r[0], pt[k + j].r[1], out[j], (double)x[d]); } } }
  for (int d = 0; d < DIM; d++) { REQUIRE(!memcmp(X[d], Y[d], 8 * nt), "the geometry was modified"); free(X[d]); free(Y[d]); free(W[d]); }
  NM(findpts_el_free_)(&fd); sim_state(hmix(oh, idx)); sim_outcome(oh);
}
