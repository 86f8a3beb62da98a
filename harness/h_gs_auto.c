/* C05: every outcome of the clock readings during automatic tuning */
#include "gs_common.h"
#include "fort.h"
struct fam { int np, vals, kind, var, fort; u64 cnt; int sk; }; /* kind<0: every small layout, a few timings */
#define NTIM 4
static int tim(int t, int p, int m) { return t == 0 ? 1 : t == 1 ? 2 - m : t == 2 ? m == 1 : (m * 7 + p * 5) % 3; }
static struct fam F[900]; static int nf; static u64 total;
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static void addf(int np, int vals, int kind, int var, int fort) { F[nf] = (struct fam){np, vals, kind, var, fort, ipow(vals, 3 * np)}; total += F[nf++].cnt; }
void h_init(int tier) {
  addf(1, 3, S_RING, 0, 0); addf(1, 2, S_SUBSETS, 1, 1);
  for (int k = 0; k < S_N; k++) { addf(2, 3, k, k & 3, 0); addf(2, 2, k, 1, 1); addf(3, 2, k, k & 1, 0); if (tier) addf(3, 2, k, 2, 1), addf(4, 2, k, 1, 0), addf(2, 4, k, 2, 0); }
  for (int np = 2; np <= 3; np++) for (int t = 0; t < NTIM; t++) { unsigned a = np == 2 || tier ? 4 : 3; F[nf] = (struct fam){np, 0, -1 - t, a, t == 3 && np == 2, ipow(nvec(a, 2), np)}; total += F[nf++].cnt; }
  for (int np = 4; np <= 5; np++) for (int t = 0; t < NTIM; t++) { F[nf] = (struct fam){np, 0, -1 - t, 2, 0, ipow(nvec(2, 1), np)}; total += F[nf++].cnt; }
  for (int np = 3; np <= (tier ? 7 : 6); np++) for (int k = 0; k < S_N; k++) for (int t = 0; t < NTIM; t++) F[nf] = (struct fam){np, 0, -1 - t, 0, k & 1, 4, 1 + k}, total += F[nf++].cnt;
  addf(4, 2, S_RING, 0, 0); if (tier) addf(3, 3, S_RING, 0, 0), addf(5, 2, S_HALVES, 0, 0);
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *idx) { const struct fam *f = F; while (*idx >= f->cnt) *idx -= f->cnt, f++; return f; }
static void mklay(const struct fam *f, u64 i, struct lay *L) { memset(L, 0, sizeof *L); if (f->sk) { lay_struct(L, f->sk - 1, f->np, i); return; } if (f->kind >= 0) { lay_struct(L, f->kind, f->np, f->var); return; } L->np = f->np; unsigned mx = f->np > 3 ? 1 : 2; u64 m = nvec(f->var, mx); for (int p = 0; p < f->np; p++) { L->n[p] = getvec(i % m, f->var, L->id[p], ALPH); i /= m; } lay_fin(L); }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->np = f->np; c->policies = f->np <= 2 ? PM_DEFAULT | PM(POL_RDV_LATE_DESC) : PM_DEFAULT; c->check_stray = 1; c->check_leaks = 1; }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = get(&i); if (f->kind < 0) { struct lay L; mklay(f, i, &L); int o = snprintf(b, n, "np=%d %s timing variant %d ids ", f->np, f->fort ? "Fortran setup" : "gs_setup(gs_auto)", -1 - f->kind); lay_desc(&L, b + o, n - o); return; } int o = snprintf(b, n, "%s np=%d %s measured durations (pairwise,crystal,allreduce) per rank:", sname[f->kind], f->np, f->fort ? "Fortran setup" : "gs_setup(gs_auto)"); for (int p = 0; p < f->np; p++) { o += snprintf(b + o, n - o, " ("); for (int m = 0; m < 3; m++) { o += snprintf(b + o, n - o, "%d%s", (int)(i % f->vals), m < 2 ? "," : ")"); i /= f->vals; } } }
void h_rank(uint64_t idx, int p) {
  const struct fam *f = get(&idx); struct lay L; mklay(f, idx, &L); u64 oh = 0; int few = f->kind < 0;
  if (!few) idx /= ipow(f->vals, 3 * p); double w[6], t = 100 + p; for (int m = 0; m < 3; m++) { w[2 * m] = t; t += 10 * (few ? tim(-1 - f->kind, p, m) : (int)dig(&idx, f->vals)); w[2 * m + 1] = t; t += 1; }
  sim_wtime_script(w, 6);
  if (f->fort) {
    sint h = -1, n = L.n[p], np = f->np; MPI_Fint fc = MPI_Comm_c2f(MPI_COMM_WORLD); slong *id = ids_of(&L, p);
    fgslib_gs_setup_(&h, id, &n, &fc, &np); ids_same(&L, p, id, "gs_setup"); free(id);
    for (sint t = 0; t < 2; t++) for (sint op = 1; op <= 4; op++) { struct udata U; sint dom = 3; ud_alloc(&U, &L, p, 0, 1, gs_slong, op - 1, eval_); fgslib_gs_op_(&h, U.flat, &dom, &op, &t); ud_check(&U, &L, p, op - 1, t, "automatic method (Fortran)", eval_, &oh, "transpose-flagged-primary"); ud_free(&U); sim_steps(1); }
    fgslib_gs_free_(&h);
  } else {
    struct comm c; world(&c); slong *id = ids_of(&L, p);
    struct gs_data *g = gs_setup(id, L.n[p], &c, 0, gs_auto, 1); ids_same(&L, p, id, "gs_setup"); free(id);
    for (int t = 0; t < 2; t++) for (int mode = 0; mode < 3; mode++) for (int dom = 0; dom < gs_dom_n; dom += 2) { int op = (dom + mode) % 5; struct udata U; ud_alloc(&U, &L, p, mode, 2, dom, op, eval_);
      if (mode == t) { buffer b; buffer_init(&b, 1); int h = ud_start(&U, op, t, g, &b); gs_wait(h); buffer_free(&b); } else ud_run(&U, op, t, g, 0);
      ud_check(&U, &L, p, op, t, "automatic method", eval_, &oh, "transpose-flagged-primary"); ud_free(&U); sim_steps(1); }
    gs_free(g); comm_free(&c);
  }
  sim_outcome(oh); sim_state(oh);
}
