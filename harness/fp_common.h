/* Meshes, reference geometry and point sets shared by the point-location harnesses (DIM = 2 or 3) */
#ifndef FP_COMMON_H
#define FP_COMMON_H
#include "hcommon.h"
#include "fort.h"
#define P1_(a, b) a##b
#define P1(a, b) P1_(a, b)
#define FN(x) P1(P1(x, _), DIM)
typedef long double LD;
#define MAXEL 432
#define MAXN 9
#define NTOT(n) ((n)[0] * (n)[1] * (DIM == 3 ? (n)[2] : 1))
struct mesh { int kind, div[3]; unsigned n[3]; int nel, ntot; double *x[3]; /* nel*ntot, global element order */ LD z[3][MAXN]; double scale, off; };
/* Gauss-Lobatto nodes in extended precision */
static void lobz(LD *z, int n) {
  int N = n - 1;
  for (int i = 0; i < n; i++) {
    if (i == 0 || i == N) { z[i] = i ? 1 : -1; continue; }
    LD x = -cosl(3.14159265358979323846264338327950288L * i / N);
    for (int it = 0; it < 100; it++) { LD p0 = 1, p1 = x; for (int k = 2; k <= N; k++) { LD p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } LD d = N * (p0 - x * p1) / (1 - x * x); /* P' */ LD dd = (2 * x * d - N * (N + 1) * p1) / (1 - x * x); LD s = d / dd; x -= s; if (fabsl(s) < 1e-20L) break; }
    z[i] = x;
  }
}
static void lagw(LD *w, const LD *z, int n, LD x) { for (int i = 0; i < n; i++) { w[i] = 1; for (int j = 0; j < n; j++) if (j != i) w[i] *= (x - z[j]) / (z[i] - z[j]); } }
/* value at r of the nodal field f of one element */
static LD interp(const struct mesh *M, const double *f, const double *r) {
  LD w[3][MAXN], s = 0; for (int d = 0; d < DIM; d++) lagw(w[d], M->z[d], M->n[d], r[d]);
  int ii = 0;
  for (unsigned k = 0; k < (DIM == 3 ? M->n[2] : 1); k++) for (unsigned j = 0; j < M->n[1]; j++) for (unsigned i = 0; i < M->n[0]; i++, ii++) s += w[0][i] * w[1][j] * (DIM == 3 ? w[2][k] : 1) * f[ii];
  return s;
}
/* mappings from the unit cube; all have positive Jacobian */
enum { M_AFFINE, M_ROT, M_TRAP, M_CURVED, M_ANNULUS, M_TINY, M_FAR, M_RING, M_TWIST, M_N };
static const char *mkn[] = {"affine", "rotated", "trapezoidal", "curved", "annular sector", "tiny", "far from origin", "closed ring", "twisted"};
static void phi(const struct mesh *M, const LD *u, LD *x) {
  LD a = u[0], b = u[1], c = DIM == 3 ? u[2] : 0; const LD pi = 3.14159265358979323846L;
  switch (M->kind) {
    case M_AFFINE: x[0] = a; x[1] = 2 * b; x[2] = c; break;
    case M_ROT: x[0] = 0.8L * a - 0.6L * b + 0.2L * c; x[1] = 0.6L * a + 0.8L * b; x[2] = c - 0.3L * a; break;
    case M_TRAP: x[0] = a * (1 + 0.5L * b) - 0.2L * c; x[1] = b * (1 - 0.3L * a) + 0.1L * a; x[2] = c * (1 + 0.2L * a); break;
    case M_CURVED: x[0] = a + 0.1L * sinl(pi * b) * (1 - 0.4L * a); x[1] = b + 0.12L * a * a - 0.1L * a; x[2] = c + 0.1L * sinl(2 * a) * b; break;
    case M_ANNULUS: x[0] = (1 + a) * cosl(1.5L * b); x[1] = (1 + a) * sinl(1.5L * b); x[2] = c + 0.1L * a * b; break;
    case M_TINY: x[0] = 1e-6L * (a + 0.1L * b); x[1] = 1e-6L * (b + 0.1L * c); x[2] = 1e-6L * c; break;
    case M_FAR: x[0] = 1000 + a; x[1] = -5000 + b + 0.2L * a; x[2] = 77 + c; break;
    case M_RING: x[0] = (1 + a) * cosl(2 * pi * b); x[1] = (1 + a) * sinl(2 * pi * b); x[2] = c; break;
    case M_TWIST: x[0] = (a - 0.5L) * cosl(0.6L * (c + b)) - (b - 0.5L) * sinl(0.6L * (c + b)); x[1] = (a - 0.5L) * sinl(0.6L * (c + b)) + (b - 0.5L) * cosl(0.6L * (c + b)); x[2] = c; break;
  }
}
static void mesh_make(struct mesh *M, int kind, const int *div, const unsigned *n) {
  M->kind = kind; M->nel = 1; for (int d = 0; d < 3; d++) M->div[d] = d < DIM ? div[d] : 1, M->n[d] = d < DIM ? n[d] : 1, M->nel *= M->div[d]; M->ntot = NTOT(M->n);
  for (int d = 0; d < DIM; d++) lobz(M->z[d], M->n[d]), M->x[d] = sim_alloc(sizeof(double) * M->nel * M->ntot);
  int e = 0; double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; M->off = 0;
  for (int ez = 0; ez < M->div[2]; ez++) for (int ey = 0; ey < M->div[1]; ey++) for (int ex = 0; ex < M->div[0]; ex++, e++) {
    int ii = 0; int eo[3] = {ex, ey, ez};
    for (unsigned k = 0; k < M->n[2]; k++) for (unsigned j = 0; j < M->n[1]; j++) for (unsigned i = 0; i < M->n[0]; i++, ii++) {
      unsigned id[3] = {i, j, k}; LD u[3], x[3]; for (int d = 0; d < DIM; d++) { /* shared nodes get bitwise equal coordinates */ int q = eo[d]; LD t = M->z[d][id[d]]; if (id[d] == M->n[d] - 1) q++, t = -1; if (kind == M_RING && d == 1 && q == M->div[1]) q = 0; u[d] = (q + (t + 1) / 2) / M->div[d]; }
      phi(M, u, x); for (int d = 0; d < DIM; d++) { double v = x[d]; M->x[d][e * M->ntot + ii] = v; if (v < lo[d]) lo[d] = v; if (v > hi[d]) hi[d] = v; if (fabs(v) > M->off) M->off = fabs(v); }
    }
  }
  M->scale = 0; for (int d = 0; d < DIM; d++) if (hi[d] - lo[d] > M->scale) M->scale = hi[d] - lo[d];
}
static void mesh_free(struct mesh *M) { for (int d = 0; d < DIM; d++) free(M->x[d]); }
static double ptol(const struct mesh *M) { return 1e-9 * M->scale + 1e-14 * M->off; }
/* query points with what is known about them */
enum { W_IN, W_ON, W_NEAR, W_FAR };
static const char *wn[] = {"strictly inside", "on an element boundary", "just outside", "outside the expanded boxes"};
struct qp { double x[3], r[3]; int w, el; };
static int add_el_points(const struct mesh *M, struct qp *q, int n, int e, const double *rv, int nrv) {
  int idx[3] = {0, 0, 0};
  for (;;) {
    struct qp *p = q + n++; p->w = W_IN; p->el = e;
    for (int d = 0; d < DIM; d++) { p->r[d] = rv[idx[d]]; if (fabs(p->r[d]) == 1) p->w = W_ON; }
    for (int d = 0; d < DIM; d++) p->x[d] = interp(M, M->x[d] + e * M->ntot, p->r);
    int d = 0; while (d < DIM && ++idx[d] == nrv) idx[d++] = 0; if (d == DIM) break;
  }
  return n;
}
/* points outside the bounding box of the whole mesh: just outside the centre of a face when the face is flat there, and far away */
static int add_far_points(const struct mesh *M, struct qp *q, int n, double tol) {
  double lo[3], hi[3]; for (int d = 0; d < DIM; d++) { lo[d] = 1e300; hi[d] = -1e300; for (int i = 0; i < M->nel * M->ntot; i++) { double v = M->x[d][i]; if (v < lo[d]) lo[d] = v; if (v > hi[d]) hi[d] = v; } }
  for (int d = 0; d < DIM; d++) for (int s = 0; s < 2; s++) for (int f = 0; f < 3; f++) { struct qp *p = q + n++; p->w = W_FAR; p->el = -1; for (int k = 0; k < DIM; k++) p->x[k] = lo[k] + (0.3 + 0.2 * f) * (hi[k] - lo[k]); double far = (0.5 + tol) * M->scale * (f == 2 ? 1000 : 1); p->x[d] = s ? hi[d] + far : lo[d] - far; }
  if (M->kind == M_RING) { struct qp *p = q + n++; p->w = W_NEAR; p->el = -1; p->x[0] = p->x[1] = p->x[2] = 0.05; /* the hole: near nothing, may be in some box */ }
  /* boxes are expanded by half the tolerance times their width on each side: well within, nearly at that distance, and just beyond */
  if (M->kind == M_AFFINE) for (int d = 0; d < DIM; d++) for (int s = 0; s < 2; s++) for (int f = 0; f < 3; f++) { struct qp *p = q + n++; p->w = f == 2 ? W_FAR : W_NEAR; p->el = f == 2 ? -1 : 0; for (int k = 0; k < DIM; k++) p->x[k] = lo[k] + 0.37 * (hi[k] - lo[k]); double dd = (f == 0 ? 0.001 : f == 1 ? 0.49 : 0.51) * tol * (hi[d] - lo[d]) / M->div[d]; p->x[d] = s ? hi[d] + dd : lo[d] - dd; p->r[0] = dd; }
  return n;
}
#define MAXQ 4000
/* result arrays in one of several memory layouts; all blocks have the exact extent */
struct res { int npt, lay; uint *code, *proc, *el; double *r, *d2, *x[3]; unsigned cs, ps, es, rs, ds, xs[3]; void *blk[8]; int nblk; };
#define RCODE(R, i) (*(uint *)((char *)(R)->code + (size_t)(i) * (R)->cs))
#define RPROC(R, i) (*(uint *)((char *)(R)->proc + (size_t)(i) * (R)->ps))
#define REL(R, i) (*(uint *)((char *)(R)->el + (size_t)(i) * (R)->es))
#define RR(R, i) ((double *)((char *)(R)->r + (size_t)(i) * (R)->rs))
#define RD2(R, i) (*(double *)((char *)(R)->d2 + (size_t)(i) * (R)->ds))
#define RX(R, i, d) (*(double *)((char *)(R)->x[d] + (size_t)(i) * (R)->xs[d]))
struct rec0 { double x[DIM]; double r[DIM]; double d2; uint code, proc, el; };
static void *rblk(struct res *R, size_t n, size_t rec, size_t last) { return R->blk[R->nblk++] = sim_alloc(n ? (n - 1) * rec + last : 0); }
#define NLAY 3
static void res_alloc(struct res *R, int npt, int lay) {
  memset(R, 0, sizeof *R); R->npt = npt; R->lay = lay; size_t n = npt;
  if (lay == 0) { R->cs = R->ps = R->es = sizeof(uint); R->rs = DIM * sizeof(double); R->ds = sizeof(double); R->code = rblk(R, n, UB, UB); R->proc = rblk(R, n, UB, UB); R->el = rblk(R, n, UB, UB); R->r = rblk(R, n, R->rs, R->rs); R->d2 = rblk(R, n, 8, 8); double *b = rblk(R, n, DIM * 8, DIM * 8); for (int d = 0; d < DIM; d++) R->x[d] = b + d * n, R->xs[d] = 8; }
  else if (lay == 1) { struct rec0 *b = rblk(R, n, sizeof *b, sizeof *b); R->cs = R->ps = R->es = R->rs = R->ds = sizeof *b; R->code = &b->code; R->proc = &b->proc; R->el = &b->el; R->r = b->r; R->d2 = &b->d2; for (int d = 0; d < DIM; d++) R->x[d] = b->x + d, R->xs[d] = sizeof *b; }
  else { R->cs = 3 * UB; R->ps = 2 * UB; R->es = 5 * UB; R->rs = (DIM + 2) * 8; R->ds = 24; R->code = rblk(R, n, R->cs, UB); R->proc = rblk(R, n, R->ps, UB); R->el = rblk(R, n, R->es, UB); R->r = rblk(R, n, R->rs, DIM * 8); R->d2 = rblk(R, n, R->ds, 8); for (int d = 0; d < DIM; d++) R->xs[d] = 8 * (d + 1), R->x[d] = rblk(R, n, R->xs[d], 8); }
}
static void res_free(struct res *R) { for (int i = 0; i < R->nblk; i++) free(R->blk[i]); }
static const double NOVAL = -123456.75;
static void res_clear(struct res *R) { for (int i = 0; i < R->npt; i++) { RCODE(R, i) = 77; RPROC(R, i) = 7777; REL(R, i) = 8888; RD2(R, i) = NOVAL; for (int d = 0; d < DIM; d++) RR(R, i)[d] = NOVAL; } }
/* local part of a mesh */
struct part { int n, gel[MAXEL]; double *x[3]; };
static void part_make(struct part *P, const struct mesh *M, const int *owner, int me) { P->n = 0; for (int e = 0; e < M->nel; e++) if (owner[e] == me) P->gel[P->n++] = e; for (int d = 0; d < DIM; d++) { P->x[d] = sim_alloc(sizeof(double) * P->n * M->ntot); for (int k = 0; k < P->n; k++) memcpy(P->x[d] + k * M->ntot, M->x[d] + P->gel[k] * M->ntot, sizeof(double) * M->ntot); } }
static void part_free(struct part *P) { for (int d = 0; d < DIM; d++) free(P->x[d]); }
/* global element held as local element el of rank proc, -1 if there is none */
static int gelem(const struct mesh *M, const int *owner, unsigned proc, unsigned el) { for (int e = 0; e < M->nel; e++) if ((unsigned)owner[e] == proc && el-- == 0) return e; return -1; }
/* the two interfaces behind one face */
struct loc { int fort; sint h; struct FN(findpts_data) *fd; };
static MPI_Fint fworld = MPI_COMM_WORLD;
static void loc_setup(struct loc *L, int fort, const struct comm *c, double *const *x, const unsigned *n, int nel, const unsigned *m, double btol, uint lh, uint gh, unsigned nmax, double ntol) {
  L->fort = fort; const double *ex[3] = {x[0], x[1], DIM == 3 ? x[2] : 0};
  if (!fort) { L->fd = FN(gslib_findpts_setup)(c, ex, n, nel, m, btol, lh, gh, nmax, ntol); return; }
  sint np = c->np, nd = DIM, nn[3] = {n[0], n[1], DIM == 3 ? n[2] : 1}, mm[3] = {m[0], m[1], DIM == 3 ? m[2] : 1}, ne = nel, l = lh, g = gh, nm = nmax; L->h = -1;
  fgslib_findpts_setup_(&L->h, &fworld, &np, &nd, ex[0], ex[1], ex[2], nn, nn + 1, nn + 2, &ne, mm, mm + 1, mm + 2, &btol, &l, &g, &nm, &ntol);
  REQUIRE(L->h >= 0, "findpts_setup returned handle %d", L->h);
}
static void loc_free(struct loc *L) { if (L->fort) fgslib_findpts_free_(&L->h); else FN(gslib_findpts_free)(L->fd); }
static void loc_find(struct loc *L, struct res *R) {
  if (!L->fort) { const double *xb[3] = {R->x[0], R->x[1], R->x[2]}; FN(gslib_findpts)(R->code, R->cs, R->proc, R->ps, R->el, R->es, R->r, R->rs, R->d2, R->ds, xb, R->xs, R->npt, L->fd); return; }
  sint cs = R->cs / UB, ps = R->ps / UB, es = R->es / UB, rs = R->rs / 8, ds = R->ds / 8, x0 = R->xs[0] / 8, x1 = R->xs[1] / 8, x2 = R->xs[2] / 8, n = R->npt;
  fgslib_findpts_(&L->h, (sint *)R->code, &cs, (sint *)R->proc, &ps, (sint *)R->el, &es, R->r, &rs, R->d2, &ds, R->x[0], &x0, R->x[1], &x1, R->x[2], &x2, &n);
}
static void loc_eval(struct loc *L, struct res *R, double *out, unsigned os, const double *in, int npt) {
  if (!L->fort) { FN(gslib_findpts_eval)(out, os, R->code, R->cs, R->proc, R->ps, R->el, R->es, R->r, R->rs, npt, in, L->fd); return; }
  sint o = os / 8, cs = R->cs / UB, ps = R->ps / UB, es = R->es / UB, rs = R->rs / 8, n = npt;
  fgslib_findpts_eval_(&L->h, out, &o, (sint *)R->code, &cs, (sint *)R->proc, &ps, (sint *)R->el, &es, R->r, &rs, &n, in);
}
/* judge one located point; returns the global element (or -1 when not found) */
static int judge(const struct mesh *M, const int *owner, const struct qp *q, const struct res *R, int i, const char *what) {
  uint code = RCODE(R, i); const double *r = RR(R, i); double tol = ptol(M);
  char pt[160]; snprintf(pt, sizeof pt, "%s: point %d (%.17g, %.17g, %.17g), %s", what, i, q->x[0], q->x[1], DIM == 3 ? q->x[2] : 0., wn[q->w]);
  REQUIRE(code <= 2, "%s: code %u", pt, code);
  if (code == 2) { REQUIRE(q->w == W_FAR || q->w == W_NEAR, "%s: reported as not found", pt); REQUIRE(!(q->w == W_NEAR && q->el == 0), "%s: reported as not found although within the expanded box", pt); return -1; }
  REQUIRE(q->w != W_FAR, "%s: reported as found (code %u)", pt, code);
  int g = gelem(M, owner, RPROC(R, i), REL(R, i)); REQUIRE(g >= 0, "%s: element %u of process %u does not exist", pt, REL(R, i), RPROC(R, i));
  double s = 0; int bord = 0;
  for (int d = 0; d < DIM; d++) { REQUIRE(r[d] >= -1 - 1e-13 && r[d] <= 1 + 1e-13, "%s: reference coordinate %d is %.17g", pt, d, r[d]); if (fabs(fabs(r[d]) - 1) <= 1e-10) bord = 1; double e = (double)(interp(M, M->x[d] + g * M->ntot, r) - q->x[d]); s += e * e; }
  s = sqrt(s); REQUIRE(RD2(R, i) >= 0 && fabs(sqrt(RD2(R, i)) - s) <= tol, "%s: squared distance %.17g reported, but element %d at the returned coordinates is at distance %.17g", pt, RD2(R, i), g, s);
  if (q->w == W_IN || q->w == W_ON) REQUIRE(s <= tol, "%s: located at distance %.17g (element %d, code %u, reference coordinates %.17g %.17g %.17g)", pt, s, g, code, r[0], r[1], DIM == 3 ? r[2] : 0.);
  if (q->w == W_IN) { REQUIRE(code == 0, "%s: code %u", pt, code); REQUIRE(g == q->el, "%s: located in element %d instead of %d", pt, g, q->el); for (int d = 0; d < DIM; d++) REQUIRE(fabs(r[d] - q->r[d]) <= 1e-6, "%s: reference coordinate %d is %.17g, expected %.17g", pt, d, r[d], q->r[d]); }
  if (code == 0) REQUIRE(s <= tol, "%s: code 0 at distance %.17g", pt, s);
  if (code == 1) REQUIRE(bord, "%s: code 1 with reference coordinates (%.17g, %.17g, %.17g) not on the boundary", pt, r[0], r[1], DIM == 3 ? r[2] : 0.);
  if (q->w == W_NEAR && q->el == 0) REQUIRE(code == 1 && s <= q->r[0] + tol, "%s: code %u distance %.17g, expected %.17g", pt, code, s, q->r[0]);
  return g;
}
#endif
