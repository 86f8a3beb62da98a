/* C01: every id layout of bounded size x method x domain x operation x transpose x packing */
#include "gs_common.h"
struct fam { int np; unsigned alph, nmax; int full; u64 cnt; int kind; };
static struct fam F[160]; static int nf; static u64 total;
static void addf(int np, unsigned alph, unsigned nmax, int full) { F[nf] = (struct fam){np, alph, nmax, full, 1, -1}; for (int i = 0; i < np; i++) F[nf].cnt *= nvec(alph, nmax); total += F[nf++].cnt; }
void h_init(int tier) {
  for (int np = 1; np <= (tier ? 5 : 3); np++) { F[nf] = (struct fam){np, 0, 0, 0, NSC * 3, 1000}; total += F[nf++].cnt; }
  addf(1, 5, 3, 1); addf(2, 3, 2, 1);
  for (int np = 1; np <= 9; np++) for (int k = 0; k < S_N; k++) { F[nf] = (struct fam){np, 0, 0, np <= 5 || tier, 4, k}; total += F[nf++].cnt; }
  addf(4, 3, 1, 1); addf(1, 7, tier ? 5 : 4, 0);
  addf(3, 3, 2, 0); addf(4, 5, 1, 0); addf(5, tier ? 5 : 3, 1, 0); if (tier) addf(6, 3, 1, 0), addf(7, 3, 1, 0), addf(4, 3, 2, 0);
  addf(2, 5, 3, 0); addf(3, 5, 2, 0); if (tier) addf(2, 5, 4, 0), addf(3, 4, 3, 0), addf(4, 4, 2, 0);
}
u64 h_ncases(void) { return total; }
static const struct fam *get(u64 idx, struct lay *L) {
  memset(L, 0, sizeof *L);
  const struct fam *f = F; while (idx >= f->cnt) idx -= f->cnt, f++;
  if (f->kind == 1000) { L->np = f->np; L->n[0] = idx; return f; } /* a large case */
  if (f->kind >= 0) { lay_struct(L, f->kind, f->np, idx); return f; }
  L->np = f->np; u64 m = nvec(f->alph, f->nmax); for (int p = 0; p < f->np; p++) { L->n[p] = getvec(idx % m, f->alph, L->id[p], ALPH); idx /= m; }
  lay_fin(L); return f;
}
void h_case(u64 idx, struct hcase *c) { struct lay L; const struct fam *f = get(idx, &L); c->same = 1; c->np = f->np; c->policies = f->kind >= 0 && f->kind < 1000 && f->np <= 6 ? PM_ALL : PM_DEFAULT; c->fill = idx % 3; }
void h_describe(u64 idx, char *b, size_t n) { struct lay L; const struct fam *f = get(idx, &L); if (f->kind == 1000) { int x = L.n[0]; snprintf(b, n, "np=%d large case: %u entries of up to %u components, id pattern %d", f->np, scdim[x / 3].n, scdim[x / 3].vn, x % 3); return; } int o = snprintf(b, n, "%s np=%d ", f->kind >= 0 ? sname[f->kind] : "enumerated ids", f->np); lay_desc(&L, b + o, n - o); }
void h_rank(u64 idx, int p) {
  struct lay L; const struct fam *f = get(idx, &L); struct comm c; world(&c); u64 oh = 0; int tot = L.base[L.np];
  buffer own; buffer_init(&own, 1);
  if (f->kind == 1000) {
    int x = L.n[0]; struct scale S = {f->np, x % 3, scdim[x / 3].n, scdim[x / 3].vn}; slong *id = sc_ids(&S, p); void **a = malloc(S.vn * sizeof *a);
    for (int m = 1; m <= 3; m++) {
      struct gs_data *g = gs_setup(id, S.n, &c, 0, m, 0);
      for (int mode = 0; mode < 3; mode++) for (int t = 0; t < 2; t++) {
        struct scale T = S; if (mode == 0) T.vn = 1; else if (S.vn == 1) T.vn = 1; int dom = (mode + t) & 1 ? gs_slong : gs_double, op = t ? gs_min : gs_add; void *u = sc_alloc(&T, p, dom, mode, a);
        if (mode == 0) gs(u, dom, op, t, g, m & 1 ? &own : 0); else if (mode == 1) gs_vec(u, T.vn, dom, op, t, g, m & 1 ? 0 : &own); else gs_many((void *const *)a, T.vn, dom, op, t, g, &own);
        char w[64]; snprintf(w, sizeof w, "method %s", mname[m]); sc_check(&T, p, dom, mode, op, t, u, w, &oh); free(u); sim_steps(1);
      }
      gs_free(g);
    }
    free(a); free(id); buffer_free(&own); comm_free(&c); sim_outcome(oh); sim_state(oh); return;
  }
  for (int m = 1; m <= 3; m++) {
    slong *id = ids_of(&L, p);
    struct gs_data *g = gs_setup(id, L.n[p], &c, 0, m, 0);
    ids_same(&L, p, id, "gs_setup"); free(id);
    for (int mode = 0; mode < 3; mode++) for (int t = 0; t < 2; t++)
      for (int dom = 0; dom < gs_dom_n; dom++) for (int op = 0; op < gs_op_n; op++) {
        if (!f->full && !(dom == gs_slong && op == gs_add) && !(dom == gs_double && op == gs_min)) continue;
        struct udata U; ud_alloc(&U, &L, p, mode, 2 + (op == gs_max), dom, op, eval_);
        ud_run(&U, op, t, g, (m + op) % 2 ? &own : 0);
        char w[64]; snprintf(w, sizeof w, "method %s", mname[m]);
        ud_check(&U, &L, p, op, t, w, eval_, &oh, "transpose-flagged-primary"); ud_free(&U); sim_steps(1);
      }
    gs_free(g);
  }
  buffer_free(&own); comm_free(&c); sim_outcome(oh); sim_state(hash2(oh, tot));
}
