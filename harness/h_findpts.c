/* C12: point location, 2-D and 3-D (-DDIM), over meshes, element and query distributions, hash sizes, batch sizes, strides */
#include "fp_common.h"
struct fam { int np, kind, dv, ord, q, hash, nmax, lay, fort, bound, dist, pts; };
static struct fam *F; static int nf, cf;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 1024, F = realloc(F, cf * sizeof *F); F[nf++] = f; }
#if DIM == 2
static const int DV[][3] = {{1, 1}, {2, 1}, {2, 2}, {1, 3}, {3, 3}, {2, 4}, {20, 21}}; static const unsigned ORD[][3] = {{2, 2}, {3, 4}, {5, 3}, {7, 7}, {2, 6}, {9, 9}};
#else
static const int DV[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {1, 3, 1}, {2, 2, 2}, {2, 4, 1}, {7, 8, 6}}; static const unsigned ORD[][3] = {{2, 2, 2}, {3, 4, 2}, {4, 3, 5}, {5, 5, 5}, {2, 6, 3}, {7, 7, 7}};
#endif
static int nelv(int dv) { int n = 1; for (int d = 0; d < DIM; d++) n *= DV[dv][d]; return n; }
/* does the order suffice for the element geometry to be a valid (and, where neighbours meet, conforming) approximation */
static int usable(int kind, int dv, int ord) { unsigned mn = 99; for (int d = 0; d < DIM; d++) if (ORD[ord][d] < mn) mn = ORD[ord][d]; if (kind == M_RING) return DV[dv][1] >= 3 && mn >= 3; if (kind == M_ANNULUS || kind == M_CURVED || kind == M_TWIST) return mn >= 3 || nelv(dv) > 1; return 1; }
enum { Q_RR = 0, Q_REV, Q_ALL, Q_BLOCK, Q_ONE /* + rank */ };
#define NEPS 10
static const double EPS[NEPS] = {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-7, 1e-9, 1e-11, 1e-13, 3e-15};
static int NHASH = 5;
static void hashes(int h, int nel, int ntot, uint *lh, uint *gh) { switch (h) { case 0: *lh = nel + 2; *gh = 1; break; case 1: *lh = nel * ntot + 2; *gh = nel * ntot + 1; break; case 2: *lh = 4000; *gh = 3; break; case 3: *lh = nel + 2 + (1 << DIM) * 2; *gh = 200; break; case 5: *lh = 60000; *gh = 60000; break; case 6: *lh = nel + 2; *gh = 20000; break; default: *lh = nel + 3 + nel * 4; *gh = 2; } }
static const int NM[] = {1, 3, 256, 40, 2, 1000};
#define LARGE 6 /* hundreds of elements, thousands of points */
void h_init(int tier) {
  nf = 0;
  /* every mesh family, subdivision and order, one to three processes, with every hash size, batch size, layout rotated through */
  for (int k = 0; k < M_N; k++) for (int dv = 0; dv < 6; dv++) for (int o = 0; o < (tier || DIM == 2 ? 6 : 5); o++) if (usable(k, dv, o)) { int c = k * 7 + dv * 3 + o; for (int np = 1; np <= (tier ? 4 : 3); np++) for (int v = 0; v < (tier ? 5 : DIM == 3 ? 2 : 4); v++) add((struct fam){np, k, dv, o, (c + v) % 3, (c + v) % 5, (c + 2 * v) % 5, (c + v) % 3, (c + v) & 1, 0, -1 - v}); }
  /* every combination of hash, batch and layout */
  for (int k = 0; k < M_N; k += DIM == 3 && !tier ? 2 : 1) for (int h = 0; h < 5; h++) for (int m = 0; m < 5; m++) for (int l = 0; l < 3; l++) { int dv = k == M_RING ? 3 : 2; add((struct fam){2, k, dv, 1, (h + m) % 3, h, m, l, (h + m + l) & 1, 0, -1}); if (tier) add((struct fam){3, k, dv, 1, (h + m + 1) % 4, h, m, l, (h + m + l + 1) & 1, 0, -2}); }
  /* every assignment of elements to processes x every assignment of queries */
  for (int np = 2; np <= 4; np++) for (int dv = 1; dv < 4; dv++) for (int k = 0; k < M_N; k++) {
    int ne = nelv(dv), tot = 1; if (!usable(k, dv, 1)) continue; for (int e = 0; e < ne; e++) tot *= np; if (!tier && (tot > 64 && (k % 3 || np > 3) || DIM == 3 && k % 2)) continue;
    for (int a = 0; a < tot; a++) for (int q = 0; q < Q_ONE + np; q++) { if (!tier && DIM == 3 && (a + q) % 3) continue; add((struct fam){np, k, dv, 1, q, (a + q + k) % 5, 2 + (a + q) % 2, (a + q) % 3, (a ^ q) & 1, 0, a}); }
  }
  /* more processes than elements, odd counts */
  for (int np = 5; np <= (tier ? 17 : 9); np++) for (int k = 0; k < M_N; k++) for (int v = 0; v < 4; v++) { if (k == M_RING) continue; add((struct fam){np, k, 4, 1, v % 4, (np + v) % 5, 2, v % 3, v & 1, 0, -1 - v}); }
  /* points at graded small distances from boundaries, interfaces and nodes */
  for (int k = 0; k < M_N; k++) for (int dv = 0; dv < 6; dv++) for (int o = 0; o < (tier || DIM == 2 ? 6 : 5); o++) if (usable(k, dv, o) && nelv(dv) <= 4) for (int e = 1; e <= NEPS; e++) { if (!tier && DIM == 3 && (k + dv + o + e) % 3) continue; add((struct fam){1 + (e + o) % 2, k, dv, o, e % 4, (e + k) % 5, e % 5, e % 3, e & 1, 0, -1, e}); }
  /* hundreds of elements, thousands of points, fine and coarse hash tables */
  for (int k = 0; k < M_N; k++) for (int np = 1; np <= (tier ? 9 : 4); np++) for (int v = 0; v < (tier ? 7 : 2); v++) { int h = (k + np + 3 * v) % 7; add((struct fam){np, k, LARGE, k == M_RING || k == M_ANNULUS || k == M_TWIST || (DIM == 2 && v & 1), (k + v) % 4, h, (k + np + v) % 6, (np + v) % 3, (k + v) & 1, 0, -1 - (k + v) % 5}); }
  /* schedules */
  for (int np = 2; np <= 3; np++) for (int k = 0; k < M_N; k += 2) for (int q = 0; q < 4; q++) { if (k == M_RING) continue; add((struct fam){np, k, 1, 0, q, (q + np) % 5, 2, 0, q & 1, 1, -1}); if (tier && k == 0) add((struct fam){np, k, 1, 0, q, (q + np) % 5, 2, 0, q & 1, 2, -1}); }
}
uint64_t h_ncases(void) { return nf; }
static void owners(const struct fam *f, int nel, int *own) { for (int e = 0; e < nel; e++) own[e] = 0; if (f->dist >= 0) { int a = f->dist; for (int e = 0; e < nel; e++) own[e] = a % f->np, a /= f->np; return; } int v = -1 - f->dist; for (int e = 0; e < nel; e++) switch (v) { case 0: own[e] = e % f->np; break; case 1: own[e] = f->np - 1 - e * f->np / nel; break; case 2: own[e] = f->np - 1; break; case 3: own[e] = (e * 5 + 2) % f->np; break; default: own[e] = (e / 2) % f->np; } }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = F + i; c->same = 1; c->np = f->np; c->policies = f->bound ? PM_DEFAULT : i % 5 == 0 ? PM(POL_EAGER_EARLY) | PM(POL_RDV_LATE_DESC) : PM(i % POL_N); c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->max_exec = f->bound > 1 ? 200000 : 0; c->check_stray = 1; c->check_leaks = 0; c->fill = i & 3; }
static const char *qn(int q) { static char b[40]; switch (q) { case Q_RR: return "round robin"; case Q_REV: return "reversed"; case Q_ALL: return "all on every process"; case Q_BLOCK: return "blocks"; } snprintf(b, 40, "all on process %d", q - Q_ONE); return b; }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = F + i; int own[MAXEL]; owners(f, nelv(f->dv), own); uint lh, gh; hashes(f->hash, nelv(f->dv), 1, &lh, &gh); int o = snprintf(b, n, "np=%d %d-D %s mesh", f->np, DIM, mkn[f->kind]); for (int d = 0; d < DIM; d++) o += snprintf(b + o, n - o, "%s%d", d ? "x" : " ", DV[f->dv][d]); o += snprintf(b + o, n - o, " nodes"); for (int d = 0; d < DIM; d++) o += snprintf(b + o, n - o, "%s%u", d ? "x" : " ", ORD[f->ord][d]); o += snprintf(b + o, n - o, " owners"); for (int e = 0; e < nelv(f->dv) && e < 16; e++) o += snprintf(b + o, n - o, " %d", own[e]); if (nelv(f->dv) > 16) o += snprintf(b + o, n - o, ".."); if (f->pts) o += snprintf(b + o, n - o, ", points %g from boundaries", EPS[f->pts - 1]); snprintf(b + o, n - o, ", queries %s, hash setting %d, batch %d, layout %d, %s interface, deviations<=%d", qn(f->q), f->hash, NM[f->nmax], f->lay, f->fort ? "Fortran" : "C", f->bound); }
static struct qp Q[MAXQ], mine[MAXQ];
void h_rank(uint64_t idx, int p) {
  const struct fam *f = F + idx; struct comm w, self; world(&w); int np = f->np; struct mesh M; mesh_make(&M, f->kind, DV[f->dv], ORD[f->ord]); int own[MAXEL]; owners(f, M.nel, own);
  const double btol = f->hash == 2 ? 0.5 : f->hash & 1 ? 0.1 : 0.02, ntol = 1024 * DBL_EPSILON;
  static const double rv2[] = {-1, -0.6, 0.1, 1 - 1e-6, 0.77, 1}, rv3[] = {-1, 0.1, 1}, rv4[] = {-1, -1 + 1e-6, 0.1, 1}; int nq = 0; double rvn[8]; int nrn = 0;
  if (f->pts) { double e = EPS[f->pts - 1]; unsigned mn = 99; int md = 0; for (int d = 0; d < DIM; d++) if (ORD[f->ord][d] < mn) mn = ORD[f->ord][d], md = d; double nd = ORD[f->ord][0] > 3 ? M.z[0][1] : 0.3; (void)md; if (DIM == 2 || M.nel == 1) rvn[nrn++] = -1; rvn[nrn++] = -1 + e; rvn[nrn++] = nd + e; if (DIM == 2) rvn[nrn++] = nd; rvn[nrn++] = 1 - e; rvn[nrn++] = 1; }
  if (f->pts) { for (int e = 0; e < M.nel; e++) nq = add_el_points(&M, Q, nq, e, rvn, nrn); for (int i = 0; i < nq; i++) for (int d = 0; d < DIM; d++) if (1 - fabs(Q[i].r[d]) < 1e-6) Q[i].w = W_ON; }
  else if (f->dv == LARGE) for (int e = 0; e < M.nel; e++) nq = add_el_points(&M, Q, nq, e, rv3 + 1, 2);
  else if (f->bound) nq = add_el_points(&M, Q, nq, 0, rv3 + 1, 2); else for (int e = 0; e < M.nel; e++) nq = add_el_points(&M, Q, nq, e, M.nel > 4 ? rv3 : DIM == 3 ? rv4 : rv2, M.nel > 4 ? 3 : DIM == 3 ? 4 : 6);
  if (!f->bound) nq = add_far_points(&M, Q, nq, btol);
  int nm = 0; static int gi[MAXQ];
  for (int i = 0; i < nq; i++) { int to; switch (f->q) { case Q_RR: to = i % np; break; case Q_REV: to = np - 1 - i % np; break; case Q_ALL: to = p; break; case Q_BLOCK: to = i * np / nq; break; default: to = f->q - Q_ONE; } if (to == p) gi[nm] = i, mine[nm++] = Q[i]; }
  struct part P; part_make(&P, &M, own, p);
  unsigned m[3]; for (int d = 0; d < DIM; d++) m[d] = 2 * ORD[f->ord][d]; uint lh, gh; hashes(f->hash, P.n, M.ntot, &lh, &gh);
  struct loc L; loc_setup(&L, f->fort, &w, P.x, ORD[f->ord], P.n, m, btol, lh, gh, NM[f->nmax], ntol);
  struct res R; res_alloc(&R, nm, f->lay); res_clear(&R); for (int i = 0; i < nm; i++) for (int d = 0; d < DIM; d++) RX(&R, i, d) = mine[i].x[d];
  loc_find(&L, &R); u64 oh = 0;
  for (int i = 0; i < nm; i++) { for (int d = 0; d < DIM; d++) REQUIRE(RX(&R, i, d) == mine[i].x[d], "findpts modified the coordinates of point %d", i); int g = judge(&M, own, mine + i, &R, i, "distributed"); oh = hmix(oh, gi[i] * 64 + RCODE(&R, i) * 20 + g + 1); }
  /* the same points, located again with the same object: same answers */
  if (!f->bound) { struct res R2; res_alloc(&R2, nm, (f->lay + 1) % NLAY); res_clear(&R2); for (int i = 0; i < nm; i++) for (int d = 0; d < DIM; d++) RX(&R2, i, d) = mine[i].x[d]; loc_find(&L, &R2); for (int i = 0; i < nm; i++) { judge(&M, own, mine + i, &R2, i, "second location"); REQUIRE((RCODE(&R, i) == 2) == (RCODE(&R2, i) == 2), "second location of the same point %d: code %u, first %u", i, RCODE(&R2, i), RCODE(&R, i)); } res_free(&R2); sim_steps(1); }
  loc_free(&L);
  /* reference: everything on one process */
  if (!f->bound && np > 1) {
    comm_split(&w, p, 0, &self); int zero[MAXEL] = {0}; struct part A; part_make(&A, &M, zero, 0); hashes(1, M.nel, M.ntot, &lh, &gh);
    struct FN(findpts_data) *fd; { const double *ex[3] = {A.x[0], A.x[1], A.x[2]}; fd = FN(gslib_findpts_setup)(&self, ex, ORD[f->ord], M.nel, m, btol, lh, gh, 64, ntol); }
    struct res S; res_alloc(&S, nm, 1); res_clear(&S); for (int i = 0; i < nm; i++) for (int d = 0; d < DIM; d++) RX(&S, i, d) = mine[i].x[d];
    { const double *xb[3] = {S.x[0], S.x[1], S.x[2]}; FN(gslib_findpts)(S.code, S.cs, S.proc, S.ps, S.el, S.es, S.r, S.rs, S.d2, S.ds, xb, S.xs, nm, fd); }
    for (int i = 0; i < nm; i++) { judge(&M, zero, mine + i, &S, i, "one process"); REQUIRE((RCODE(&S, i) == 2) == (RCODE(&R, i) == 2), "point %d: code %u in this distribution, %u on one process", i, RCODE(&R, i), RCODE(&S, i)); if (RCODE(&S, i) != 2) { double a = sqrt(RD2(&S, i)), b = sqrt(RD2(&R, i)); REQUIRE(fabs(a - b) <= ptol(&M), "point %d: distance %.17g in this distribution, %.17g on one process", i, b, a); } }
    res_free(&S); part_free(&A); FN(gslib_findpts_free)(fd); comm_free(&self); sim_steps(1);
  }
  res_free(&R); part_free(&P); mesh_free(&M); comm_free(&w); sim_outcome(oh); sim_state(oh); sim_steps(1 + nm);
}
