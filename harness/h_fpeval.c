/* C13: evaluation of fields at located points: histories of locate/evaluate, all distributions, layouts, interfaces */
#include "fp_common.h"
#include "findpts_el.h"
#include "findpts_local.h"
enum { K_IN, K_HIST, K_LOCAL };
struct fam { int kind, np, mk, dv, ord, q, nmax, lay, fort, bound, dist, len; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static void add(struct fam f) { if (!f.cnt) f.cnt = 1; if (nf == cf) cf = cf ? 2 * cf : 1024, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
#if DIM == 2
static const int DV[][3] = {{1, 1}, {2, 1}, {2, 2}, {1, 3}, {2, 4}, {20, 21}}; static const unsigned ORD[][3] = {{2, 2}, {3, 4}, {5, 3}, {7, 7}, {2, 6}, {9, 8}};
#else
static const int DV[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 2}, {1, 3, 1}, {2, 2, 2}, {7, 8, 6}}; static const unsigned ORD[][3] = {{2, 2, 2}, {3, 4, 2}, {4, 3, 5}, {5, 5, 5}, {2, 6, 3}, {7, 6, 8}};
#endif
static int nelv(int dv) { int n = 1; for (int d = 0; d < DIM; d++) n *= DV[dv][d]; return n; }
static int usable(int kind, int dv, int ord) { unsigned mn = 99; for (int d = 0; d < DIM; d++) if (ORD[ord][d] < mn) mn = ORD[ord][d]; if (kind == M_RING) return DV[dv][1] >= 3 && mn >= 3; if (kind == M_ANNULUS || kind == M_CURVED || kind == M_TWIST) return mn >= 3 || nelv(dv) > 1; return 1; }
static const int NM[] = {1, 3, 256, 40, 2};
#define NACT 12
#define LARGE 5
static const char *an[NACT] = {"locate A", "locate B", "evaluate f0 at A", "evaluate f1 at A", "evaluate f0 at B", "evaluate f1 at B", "evaluate f0 at every other point of A", "evaluate f1 at given points", "evaluate locally", "evaluate f0 at A without its last points on process 0", "evaluate f1 at A moved back by one unfound point on the last process", "evaluate f0 at A with its first points unfound on process 0"};
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
void h_init(int tier) {
  nf = 0; total = 0;
  for (int k = 0; k < M_N; k++) for (int dv = 0; dv < 5; dv++) for (int o = 0; o < 6; o++) if (usable(k, dv, o)) { int c = k * 7 + dv * 3 + o; for (int np = 1; np <= (tier ? 4 : 3); np++) for (int v = 0; v < (tier ? 6 : 2); v++) add((struct fam){K_IN, np, k, dv, o, (c + v) % 3, (c + v) % 5, (c + v) % 3, (c + v) & 1, 0, -1 - v % 5}); for (int m = 0; m < 5; m++) if (tier || (m + c) % 2 == 0) add((struct fam){K_LOCAL, 1, k, dv, o, 0, m, (m + c) % 3}); }
  for (int np = 2; np <= 4; np++) for (int dv = 1; dv < 4; dv++) { int tot = ipow(np, nelv(dv)); if (tot > 64 && !tier) continue; for (int a = 0; a < tot; a++) for (int q = 0; q < 4 + np; q++) add((struct fam){K_IN, np, dv == 3 ? M_TRAP : M_CURVED, dv, 1, q, 2 + (a + q) % 2, (a + q) % 3, (a ^ q) & 1, 0, a}); }
  for (int np = 5; np <= (tier ? 17 : 9); np += tier ? 1 : 2) for (int v = 0; v < 4; v++) add((struct fam){K_IN, np, M_AFFINE, 4, 1, v % 4, 2, v % 3, v & 1, 0, -1 - v});
  for (int k = 0; k < M_N; k++) for (int np = 1; np <= (tier ? 5 : 3); np++) add((struct fam){K_IN, np, k, LARGE, k == M_RING || k == M_ANNULUS || k == M_TWIST, (k + np) % 4, np % 2 ? 2 : 3, np % 3, (k + np) & 1, 0, -1 - (k + np) % 5});
  for (int np = 2; np <= 3; np++) for (int q = 0; q < 4; q++) for (int k = 0; k < 4; k += 3) add((struct fam){K_IN, np, k, 1, 0, q, 2, 0, q & 1, 1, -1});
  for (int f = 0; f < 2; f++) { for (int l = 1; l <= (tier ? 5 : DIM == 2 ? 4 : 3 + f); l++) add((struct fam){K_HIST, 2, M_TRAP, 1, 0, 0, 2, f, f, 0, -1, l, ipow(NACT, l)}); for (int l = 1; l <= (tier ? 5 : 3); l++) add((struct fam){K_HIST, 3, M_AFFINE, 1, 0, 1, 2, 2 * f, !f, 0, -1, l, ipow(NACT, l)}), add((struct fam){K_HIST, 1, M_TRAP, 1, 0, 0, 2, f, f, 0, -1, l, ipow(NACT, l)}); }
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
static void owners(const struct fam *f, int nel, int *own) { for (int e = 0; e < nel; e++) own[e] = 0; if (f->dist >= 0) { int a = f->dist; for (int e = 0; e < nel; e++) own[e] = a % f->np, a /= f->np; return; } int v = -1 - f->dist; for (int e = 0; e < nel; e++) switch (v) { case 0: own[e] = e % f->np; break; case 1: own[e] = f->np - 1 - e * f->np / nel; break; case 2: own[e] = f->np - 1; break; case 3: own[e] = (e * 5 + 2) % f->np; break; default: own[e] = (e / 2) % f->np; } }
void h_case(uint64_t i, struct hcase *c) { u64 j = i; const struct fam *f = get(&i); c->same = 1; c->np = f->np; c->policies = f->bound ? PM_DEFAULT : f->kind == K_HIST ? PM(j % POL_N) : j % 5 == 0 ? PM(POL_EAGER_EARLY) | PM(POL_RDV_LATE_DESC) : PM(j % POL_N); c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = 1; c->fill = j & 3; }
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); int own[MAXEL]; owners(f, nelv(f->dv), own); int o = snprintf(b, n, "np=%d %d-D %s mesh", f->np, DIM, mkn[f->mk]); for (int d = 0; d < DIM; d++) o += snprintf(b + o, n - o, "%s%d", d ? "x" : " ", DV[f->dv][d]); o += snprintf(b + o, n - o, " nodes"); for (int d = 0; d < DIM; d++) o += snprintf(b + o, n - o, "%s%u", d ? "x" : " ", ORD[f->ord][d]); o += snprintf(b + o, n - o, " owners"); for (int e = 0; e < nelv(f->dv) && e < 16; e++) o += snprintf(b + o, n - o, " %d", own[e]);
  o += snprintf(b + o, n - o, ", query distribution %d, batch %d, layout %d, %s interface", f->q, NM[f->nmax], f->lay, f->kind == K_LOCAL ? "local" : f->fort ? "Fortran" : "C"); if (f->bound) o += snprintf(b + o, n - o, ", deviations<=%d", f->bound); if (f->kind == K_HIST) { o += snprintf(b + o, n - o, ", history:"); for (int k = 0; k < f->len; k++) o += snprintf(b + o, n - o, " %s;", an[dig(&i, NACT)]); }
}
static const struct fam *f; static struct mesh M; static int own[MAXEL], me; static struct part P; static struct loc L; static u64 oh;
#define NFIELD 3
static double *fg[NFIELD], *fl[NFIELD]; /* global and local nodal fields; field 2 is the first coordinate */
static double fmax_(int k) { return k == 2 ? M.off : 9; }
static void fields(void) { for (int k = 0; k < NFIELD; k++) { fg[k] = sim_alloc(8 * M.nel * M.ntot); for (int i = 0; i < M.nel * M.ntot; i++) fg[k][i] = k == 2 ? M.x[0][i] : (double)(hash2(i, k + 3) % 19) - 9; fl[k] = sim_alloc(8 * P.n * M.ntot); for (int e = 0; e < P.n; e++) memcpy(fl[k] + e * M.ntot, fg[k] + P.gel[e] * M.ntot, 8 * M.ntot); } }
static void check_out(const struct res *R, int npt, const double *out, unsigned os, int fk, const char *what) {
  for (int i = 0; i < npt; i++) { double v = *(double *)((char *)out + (size_t)i * os); if (RCODE(R, i) == 2) { REQUIRE(v == NOVAL, "%s: output of unfound point %d overwritten with %.17g", what, i, v); continue; }
    int g = gelem(&M, own, RPROC(R, i), REL(R, i)); LD e = interp(&M, fg[fk] + g * M.ntot, RR(R, i)); REQUIRE(fabs(v - (double)e) <= 2e-12 * fmax_(fk) * M.ntot, "%s: field %d at point %d (element %d of process %u, r %.17g %.17g %.17g): %.17g, the polynomial's value is %.17g", what, fk, i, REL(R, i), RPROC(R, i), RR(R, i)[0], RR(R, i)[1], DIM == 3 ? RR(R, i)[2] : 0., v, (double)e); oh = hmix(oh, (u64)(llabs((long long)floor((double)e * 1000 + 0.5)))); }
}
static void do_eval(struct res *R, int npt, int fk, int ol, const char *what) {
  unsigned os = ol == 0 ? 8 : ol == 1 ? 24 : 16; double *out = sim_alloc(npt ? (npt - 1) * (size_t)os + 8 : 0); for (int i = 0; i < npt; i++) *(double *)((char *)out + (size_t)i * os) = NOVAL;
  double *pad = sim_alloc(npt ? (npt - 1) * (size_t)os + 8 : 0); for (int i = 0; i < npt; i++) for (unsigned j = 8; j < os && i + 1 < npt; j += 8) *(double *)((char *)out + (size_t)i * os + j) = -7.25;
  loc_eval(&L, R, out, os, fl[fk], npt); check_out(R, npt, out, os, fk, what);
  for (int i = 0; i + 1 < npt; i++) for (unsigned j = 8; j < os; j += 8) REQUIRE(*(double *)((char *)out + (size_t)i * os + j) == -7.25, "%s: wrote between the strided outputs", what);
  free(out); free(pad); sim_steps(1);
}
static struct qp Q[MAXQ];
static int pick(struct res *R, int nq, int q, int lay) { int np = f->np, n = 0, sel[MAXQ]; for (int i = 0; i < nq; i++) { int to; switch (q) { case 0: to = i % np; break; case 1: to = np - 1 - i % np; break; case 2: to = me; break; case 3: to = i * np / nq; break; default: to = q - 4; } if (to == me) sel[n++] = i; } res_alloc(R, n, lay); res_clear(R); for (int i = 0; i < n; i++) for (int d = 0; d < DIM; d++) RX(R, i, d) = Q[sel[i]].x[d]; return n; }
/* all points of R that live on this process, grouped by element, through the local evaluation */
static void do_local(struct res *R, int fk) {
  struct res S; int n = 0; for (int i = 0; i < R->npt; i++) if (RCODE(R, i) != 2 && RPROC(R, i) == (uint)me) n++;
  res_alloc(&S, n, 1); res_clear(&S); n = 0; for (int e = 0; e < P.n; e++) for (int i = 0; i < R->npt; i++) if (RCODE(R, i) != 2 && RPROC(R, i) == (uint)me && REL(R, i) == (uint)e) { RCODE(&S, n) = 0; RPROC(&S, n) = me; REL(&S, n) = e; memcpy(RR(&S, n), RR(R, i), DIM * 8); n++; }
  double *out = sim_alloc(8 * n); for (int i = 0; i < n; i++) out[i] = NOVAL;
  if (f->fort && f->kind != K_LOCAL) { sint o = 1, es = S.es / UB, rs = S.rs / 8, nn = n; fgslib_findpts_eval_local_(&L.h, out, &o, (sint *)S.el, &es, S.r, &rs, &nn, fl[fk]); check_out(&S, n, out, 8, fk, "local evaluation"); }
  free(out); res_free(&S); sim_steps(1);
}
void h_rank(uint64_t idx, int p) {
  f = get(&idx); me = p; oh = 0; struct comm w; world(&w); mesh_make(&M, f->mk, DV[f->dv], ORD[f->ord]); owners(f, M.nel, own); part_make(&P, &M, own, p); fields();
  const double btol = 0.05, ntol = 1024 * DBL_EPSILON; unsigned m[3]; for (int d = 0; d < DIM; d++) m[d] = 2 * ORD[f->ord][d]; int nq = 0;
  static const double rv2[] = {-1, -0.6, 0.1, 0.77, 1}, rv3[] = {-1, 0.1, 1}, rvb[] = {-0.3, 0.9};
  if (f->kind == K_LOCAL) {
    for (int e = 0; e < M.nel; e++) nq = add_el_points(&M, Q, nq, e, DIM == 2 ? rv2 : rv3, DIM == 2 ? 5 : 3); nq = add_far_points(&M, Q, nq, btol);
    struct FN(findpts_local_data) ld; buffer buf = null_buffer; const double *ex[3] = {P.x[0], P.x[1], P.x[2]}; FN(gslib_findpts_local_setup)(&ld, ex, ORD[f->ord], P.n, m, btol, P.n * M.ntot + 2, NM[f->nmax], ntol);
    struct res R; pick(&R, nq, 0, f->lay); const double *xb[3] = {R.x[0], R.x[1], R.x[2]}; FN(gslib_findpts_local)(R.code, R.cs, R.el, R.es, R.r, R.rs, R.d2, R.ds, xb, R.xs, nq, &ld, &buf);
    for (int i = 0; i < nq; i++) { REQUIRE(RPROC(&R, i) == 7777, "findpts_local wrote a process number"); RPROC(&R, i) = 0; judge(&M, own, Q + i, &R, i, "local location"); }
    struct res S; int n = 0; for (int i = 0; i < nq; i++) n += RCODE(&R, i) != 2; res_alloc(&S, n, f->lay); res_clear(&S); n = 0; for (int e = 0; e < P.n; e++) for (int i = 0; i < nq; i++) if (RCODE(&R, i) != 2 && REL(&R, i) == (uint)e) { RCODE(&S, n) = 0; RPROC(&S, n) = 0; REL(&S, n) = e; memcpy(RR(&S, n), RR(&R, i), DIM * 8); n++; }
    for (int k = 0; k < NFIELD; k++) { double *out = sim_alloc(8 * n); for (int i = 0; i < n; i++) out[i] = NOVAL; FN(gslib_findpts_local_eval)(out, 8, S.el, S.es, S.r, S.rs, n, fl[k], &ld); check_out(&S, n, out, 8, k, "local evaluation"); free(out); sim_steps(1); }
    res_free(&S); res_free(&R); FN(gslib_findpts_local_free)(&ld); buffer_free(&buf); goto out;
  }
  loc_setup(&L, f->fort, &w, P.x, ORD[f->ord], P.n, m, btol, P.n * M.ntot + 2, P.n * M.ntot + 1, NM[f->nmax], ntol);
  if (f->kind == K_IN) {
    struct res R; if (f->bound) nq = add_el_points(&M, Q, 0, 0, rv3 + 1, 2); else { for (int e = 0; e < M.nel; e++) nq = f->dv == LARGE ? add_el_points(&M, Q, nq, e, rvb, 2) : add_el_points(&M, Q, nq, e, M.nel > 4 || DIM == 3 ? rv3 : rv2, M.nel > 4 || DIM == 3 ? 3 : 5); nq = add_far_points(&M, Q, nq, btol); }
    int n = pick(&R, nq, f->q, f->lay); loc_find(&L, &R); for (int i = 0; i < n; i++) REQUIRE(RCODE(&R, i) == 2 || gelem(&M, own, RPROC(&R, i), REL(&R, i)) >= 0, "point %d located in element %u of process %u, which does not exist", i, REL(&R, i), RPROC(&R, i));
    for (int k = 0; k < NFIELD; k++) do_eval(&R, n, k, (f->lay + k) % 3, "evaluation"); do_local(&R, 0); res_free(&R);
  } else {
    struct res A, B, S, U; nq = add_el_points(&M, Q, 0, 0, rv3, 3); nq = add_far_points(&M, Q, nq, btol); int na = pick(&A, nq, f->q, f->lay); nq = add_el_points(&M, Q, 0, M.nel - 1, rvb, 2); nq = add_el_points(&M, Q, nq, 0, rvb, 2); int nb = pick(&B, nq, 3, (f->lay + 1) % 3);
    loc_find(&L, &A); loc_find(&L, &B);
    int nu = 3 + p; res_alloc(&U, nu, 0); res_clear(&U); for (int i = 0; i < nu; i++) { int e = (i + p) % M.nel; RCODE(&U, i) = i % 4 == 2 ? 2 : i & 1; RPROC(&U, i) = own[e]; int l = 0; for (int x = 0; x < e; x++) l += own[x] == own[e]; REL(&U, i) = l; for (int d = 0; d < DIM; d++) RR(&U, i)[d] = -0.9 + 0.37 * ((i * 3 + d * 2 + p) % 5); }
    u64 h = idx;
    for (int k = 0; k < f->len; k++) switch (dig(&h, NACT)) {
      case 0: res_clear(&A); loc_find(&L, &A); sim_steps(1); break;
      case 1: res_clear(&B); loc_find(&L, &B); sim_steps(1); break;
      case 2: do_eval(&A, na, 0, 0, "evaluation at A"); break;
      case 3: do_eval(&A, na, 1, 1, "evaluation at A"); break;
      case 4: do_eval(&B, nb, 0, 0, "evaluation at B"); break;
      case 5: do_eval(&B, nb, 1, 2, "evaluation at B"); break;
      case 6: S = A; S.nblk = 0; S.cs *= 2; S.ps *= 2; S.es *= 2; S.rs *= 2; S.npt = (na + 1) / 2; do_eval(&S, S.npt, 0, 0, "evaluation at part of A"); break;
      case 7: do_eval(&U, nu, 1, 0, "evaluation at given points"); break;
      case 8: do_local(&A, 1); break;
      case 9: S = A; S.nblk = 0; if (p == 0) S.npt = na > 2 ? na - 2 : 0; do_eval(&S, S.npt, 0, 0, "evaluation at the first points of A"); break;
      case 10: { int sh = p == f->np - 1; res_alloc(&S, na + sh, f->lay); res_clear(&S); if (sh) RCODE(&S, 0) = 2; for (int i = 0; i < na; i++) { RCODE(&S, i + sh) = RCODE(&A, i); RPROC(&S, i + sh) = RPROC(&A, i); REL(&S, i + sh) = REL(&A, i); memcpy(RR(&S, i + sh), RR(&A, i), DIM * 8); } do_eval(&S, na + sh, 1, 0, "evaluation at A moved by one"); res_free(&S); break; }
      case 11: { uint sv[3]; int m = p == 0 ? na < 3 ? na : 3 : 0; for (int i = 0; i < m; i++) sv[i] = RCODE(&A, i), RCODE(&A, i) = 2; do_eval(&A, na, 0, 1, "evaluation at A with some points unfound"); for (int i = 0; i < m; i++) RCODE(&A, i) = sv[i]; break; }
    }
    res_free(&A); res_free(&B); res_free(&U);
  }
  loc_free(&L);
out:
  for (int k = 0; k < NFIELD; k++) free(fg[k]), free(fl[k]);
  part_free(&P); mesh_free(&M); comm_free(&w); sim_outcome(oh); sim_state(oh);
}
