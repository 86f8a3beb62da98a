/* C15: bounding boxes contain their element; -DDIM=2|3 */
#include "hcommon.h"
#ifndef DIM
#define DIM 2
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define NM(x) CAT(x, DIM)
typedef struct NM(obbox_) box_t;
/* families: 0 corner lattice (all corners on a lattice), 1 node displacement singles and pairs, 2 analytic maps */
struct cs { int f, n[3], m[3], a, b, tol, tr; }; static struct cs *C; static int nc;
#include "elem.h"
static void add(struct cs c) { if (!(nc & 4095)) C = realloc(C, (nc + 4096) * sizeof *C); C[nc++] = c; }
static const double TOLS[] = {1e-6, 1e-3, 0.01, 0.1, 0.5};
void h_init(int tier) {
  nc = 0; int q = 0;
#if DIM == 2
  for (int a = 0; a < 81; a++) for (int b = 0; b < 81; b++) { for (int mm = 0; mm < 2; mm++, q++) add((struct cs){F_CORNER, {2, 2}, {4 + 3 * mm, 8 - 4 * mm}, a, b, q % 5, q / 5 % NTR}); }
  static const int ns[][2] = {{3, 3}, {2, 4}, {4, 3}, {5, 2}, {6, 7}};
  for (int k = 0; k < 5; k++) { int nt = ns[k][0] * ns[k][1], T = nt * 8; for (int a = 0; a < T; a++) for (int b = a; b < T; b++, q++) { if (nt > 15 && !tier && a != b && ((a | b) & 1)) continue; add((struct cs){F_DISP, {ns[k][0], ns[k][1]}, {(2 + q % 2) * ns[k][0] + q % 3, 2 * ns[k][1] + q % 5}, a, b, q % 5, q / 5 % NTR}); } }
  for (int nr = 2; nr <= (tier ? 16 : 10); nr++) for (int ns = 2; ns <= (tier ? 16 : 10); ns++) for (int mp = 0; mp < NMAP; mp++) for (int tr = 0; tr < NTR; tr++, q++) add((struct cs){F_MAP, {nr, ns}, {2 * nr + q % 4, (2 + q % 3) * ns}, mp, 0, q % 5, tr});
  static const int big[][2] = {{2, 19}, {19, 2}, {19, 19}, {18, 11}, {3, 17}, {12, 12}};
  for (int k = 0; k < 6; k++) for (int mp = 0; mp < NMAP; mp++) for (int tr = 0; tr < NTR; tr++, q++) add((struct cs){F_MAP, {big[k][0], big[k][1]}, {2 * big[k][0] + q % 4, (2 + q % 3) * big[k][1]}, mp, 0, q % 5, tr});
#else
  for (int a = 0; a < 8; a++) for (int b = a + 1; b < 8; b++) for (int u = 0; u < 27; u++) for (int v = 0; v < 27; v++, q++) add((struct cs){F_CORNER, {2, 2, 2}, {4 + q % 3, 4 + q % 2, 4 + q % 5}, a * 8 + b, u * 27 + v, q % 5, q / 5 % NTR});
  static const int ns[][3] = {{3, 3, 3}, {2, 3, 4}, {4, 2, 3}, {3, 4, 2}, {4, 4, 4}, {2, 2, 5}};
  for (int k = 0; k < 6; k++) { int nt = ns[k][0] * ns[k][1] * ns[k][2], T = nt * 26; for (int a = 0; a < T; a++) for (int b = a; b < T; b++) { if (b != a && !((tier && k == 0) || (k < 4 && axis26(a) && axis26(b)))) continue; q++; add((struct cs){F_DISP, {ns[k][0], ns[k][1], ns[k][2]}, {2 * ns[k][0] + q % 3, 2 * ns[k][1] + q % 2, (2 + q % 2) * ns[k][2]}, a, b, q % 5, q / 5 % NTR}); } }
  for (int nr = 2; nr <= (tier ? 8 : 5); nr++) for (int ns = 2; ns <= (tier ? 8 : 5); ns++) for (int nt = 2; nt <= (tier ? 8 : 5); nt++) for (int mp = 0; mp < NMAP; mp++) for (int tr = 0; tr < NTR; tr += tier ? 1 : 3, q++) add((struct cs){F_MAP, {nr, ns, nt}, {2 * nr + q % 4, (2 + q % 2) * ns, 2 * nt + q % 3}, mp, 0, q % 5, tr});
  static const int big[][3] = {{18, 16, 3}, {3, 17, 18}, {17, 3, 18}, {2, 2, 19}, {19, 2, 2}, {2, 19, 2}, {8, 11, 12}, {7, 7, 3}, {8, 8, 8}, {3, 9, 9}, {9, 2, 9}, {16, 16, 4}, {2, 2, 11}};
  for (int k = 0; k < 13; k++) for (int mp = 0; mp < NMAP; mp++) for (int tr = 0; tr < NTR; tr += tier ? 1 : 4, q++) add((struct cs){F_MAP, {big[k][0], big[k][1], big[k][2]}, {2 * big[k][0] + q % 4, (2 + q % 3) * big[k][1], 2 * big[k][2] + q % 3}, mp, 0, q % 5, tr});
#endif
}
uint64_t h_ncases(void) { return nc; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; c->check_leaks = 1; }
static const char *fnm[] = {"corner lattice", "displaced nodes", "map"};
void h_describe(uint64_t i, char *b, size_t n) { struct cs *c = C + i; snprintf(b, n, "%d-D, nodes %d,%d,%d, bound points %d,%d,%d, %s %d/%d, tolerance %g, transformation %d", DIM, c->n[0], c->n[1], c->n[2], c->m[0], c->m[1], c->m[2], fnm[c->f], c->a, c->b, TOLS[c->tol], c->tr); }
static u64 oh;
/* evaluation grid: per direction, Lagrange values and derivatives */
static double test(const box_t *b, const double *x) { return NM(obbox_test_)(b, x); }
static double atest(const box_t *b, const double *x) { return NM(obbox_axis_test_)(b, x); }
void h_rank(uint64_t idx, int p) {
  struct cs c = C[idx]; oh = 0; nt = 1; for (int d = 0; d < DIM; d++) { n[d] = c.n[d]; nt *= n[d]; ld z[20]; nodes(n[d], z); for (int i = 0; i < n[d]; i++) Z[d][i] = z[i]; } grid();
  double *X[3]; for (int d = 0; d < DIM; d++) X[d] = sim_alloc(8 * nt * 3); int aff; make(&c, X, &aff);
  if (!valid(X)) { sim_state(1); for (int d = 0; d < DIM; d++) free(X[d]); return; } /* not an element: folded over */
  /* a batch of three with the element at position idx mod 3; the others are moved and deformed copies */
  int pos = idx % 3; for (int d = 0; d < DIM; d++) { double t[1100]; memcpy(t, X[d], 8 * nt); for (int e = 0; e < 3; e++) for (int i = 0; i < nt; i++) X[d][e * nt + i] = e == pos ? t[i] : (e == (pos + 1) % 3 ? -0.5 : 3) * t[i] + (d + 1) * (e + 2.5); }
  double *Y[3]; for (int d = 0; d < DIM; d++) { Y[d] = sim_alloc(8 * nt * 3); memcpy(Y[d], X[d], 8 * nt * 3); }
  box_t *B = sim_alloc(3 * sizeof *B); unsigned nn[3], mm[3]; for (int d = 0; d < DIM; d++) nn[d] = n[d], mm[d] = c.m[d]; const double *ex[3] = {X[0], X[1], X[2]}; double tol = TOLS[c.tol];
  NM(obbox_calc_)(B, ex, nn, 3, mm, tol); sim_steps(3);
  for (int d = 0; d < DIM; d++) REQUIRE(!memcmp(Y[d], X[d], 8 * nt * 3), "the geometry was modified");
  for (int e = 0; e < 3; e++) {
    const box_t *b = B + e; double A[9], c0[3], mn[3], mx[3]; memcpy(A, b->A, sizeof b->A); memcpy(c0, b->c0, sizeof b->c0);
    for (int d = 0; d < DIM; d++) mn[d] = 1e300, mx[d] = -1e300; ld sm[3], sM[3]; for (int d = 0; d < DIM; d++) sm[d] = 1e300, sM[d] = -1e300;
    for (int k = 0; k < GP; k++) { GI(k, g); ld xl[3], J[9]; eval(X, e * nt, g, xl, J); double x[3]; for (int d = 0; d < DIM; d++) { x[d] = xl[d]; if (x[d] < mn[d]) mn[d] = x[d]; if (x[d] > mx[d]) mx[d] = x[d]; ld s = 0; for (int q = 0; q < DIM; q++) s += A[d * DIM + q] * (xl[q] - c0[q]); if (s < sm[d]) sm[d] = s; if (s > sM[d]) sM[d] = s; }
      double t = atest(b, x); REQUIRE(t >= 0, "element %d of the batch: the axis-aligned box [%.17g,%.17g]x[%.17g,%.17g].. rejects the element's own point (%.17g, %.17g, %.17g) at r=(%g, %g, %g)", e, b->x[0].min, b->x[0].max, b->x[1].min, b->x[1].max, x[0], x[1], DIM == 3 ? x[2] : 0., g[0] * 2. / (G - 1) - 1, g[1] * 2. / (G - 1) - 1, DIM == 3 ? g[2] * 2. / (G - 1) - 1 : 0.);
      t = test(b, x); REQUIRE(t >= 0, "element %d of the batch: the oriented box rejects the element's own point (%.17g, %.17g, %.17g) at r=(%g, %g, %g)", e, x[0], x[1], DIM == 3 ? x[2] : 0., g[0] * 2. / (G - 1) - 1, g[1] * 2. / (G - 1) - 1, DIM == 3 ? g[2] * 2. / (G - 1) - 1 : 0.); }
    for (int d = 0; d < DIM; d++) {
      double w = mx[d] - mn[d]; REQUIRE(b->x[d].max > b->x[d].min && isfinite(b->x[d].max - b->x[d].min), "element %d: degenerate box", e);
      if (c.f == F_MAP && aff) { double ctr = (mn[d] + mx[d]) / 2, hw = w / 2 * (1 + tol), eps = 1e-12 * (w + fabs(ctr)); REQUIRE(fabs(b->x[d].min - (ctr - hw)) <= eps && fabs(b->x[d].max - (ctr + hw)) <= eps, "element %d, affine: axis-aligned box [%.17g, %.17g] in direction %d, expected [%.17g, %.17g]", e, b->x[d].min, b->x[d].max, d, ctr - hw, ctr + hw);
        REQUIRE(fabs((double)sM[d] - 1 / (1 + tol)) <= 1e-8 && fabs((double)sm[d] + 1 / (1 + tol)) <= 1e-8, "element %d, affine: the element spans [%.17g, %.17g] of the oriented box in direction %d, expected +-%.17g", e, (double)sm[d], (double)sM[d], d, 1 / (1 + tol)); }
      /* not absurdly large: the element spans a fair part of its box */
      REQUIRE(b->x[d].max - b->x[d].min <= 6 * (1 + tol) * w, "element %d: box of width %g around an element of width %g", e, b->x[d].max - b->x[d].min, w);
      REQUIRE((double)(sM[d] - sm[d]) >= 0.15, "element %d: the element spans only %g of its oriented box in direction %d", e, (double)(sM[d] - sm[d]), d); oh = hmix(oh, (u64)(1000 * (sM[d] - sm[d]))); }
    /* a point beyond the box is rejected */
    for (int d = 0; d < DIM; d++) for (int s = -1; s <= 1; s += 2) { double x[3]; for (int q = 0; q < DIM; q++) x[q] = (mn[q] + mx[q]) / 2; x[d] = s < 0 ? b->x[d].min - 0.01 * (mx[d] - mn[d]) : b->x[d].max + 0.01 * (mx[d] - mn[d]); REQUIRE(atest(b, x) < 0 && test(b, x) < 0, "element %d: a point outside the axis-aligned box is accepted", e); }
  }
  for (int d = 0; d < DIM; d++) free(X[d]), free(Y[d]); free(B); sim_state(hmix(oh, idx)); sim_outcome(oh);
}
