/* C04 */
#include "gs_common.h"
struct fam { int np; unsigned alph, nmax; u64 cnt; int kind; };
static struct fam F[120]; static int nf; static u64 total;
static void addf(int np, unsigned alph, unsigned nmax) { F[nf] = (struct fam){np, alph, nmax, 1, -1}; for (int i = 0; i < np; i++) F[nf].cnt *= nvec(alph, nmax); total += F[nf++].cnt; }
void h_init(int tier) {
  for (int np = 1; np <= 9; np++) for (int k = 0; k < S_N; k++) { F[nf] = (struct fam){np, 0, 0, 4, k}; total += F[nf++].cnt; }
  addf(1, 7, 4); addf(2, 5, 3); addf(3, 5, 2); addf(4, 5, 1); addf(4, 3, 2); addf(5, 3, 1); addf(6, 3, 1); if (tier) addf(2, 5, 4), addf(3, 4, 3), addf(4, 4, 2), addf(7, 3, 1), addf(8, 3, 1);
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 idx, struct lay *L) {
  memset(L, 0, sizeof *L); const struct fam *f = F; while (idx >= f->cnt) idx -= f->cnt, f++;
  if (f->kind >= 0) { lay_struct(L, f->kind, f->np, idx); return f; }
  L->np = f->np; u64 m = nvec(f->alph, f->nmax); for (int p = 0; p < f->np; p++) { L->n[p] = getvec(idx % m, f->alph, L->id[p], ALPH); idx /= m; } lay_fin(L); return f;
}
static int unflagged(const struct lay *L, slong g) { int k = 0; for (int p = 0; p < L->np; p++) for (int i = 0; i < L->n[p]; i++) k += L->id[p][i] == g; return k; }
static int ok(const struct lay *L) { for (int p = 0; p < L->np; p++) for (int i = 0; i < L->n[p]; i++) if (L->id[p][i] < 0 && !unflagged(L, -L->id[p][i])) return 0; return 1; }
void h_case(uint64_t idx, struct hcase *c) { struct lay L; const struct fam *f = get(idx, &L); c->same = 1; c->np = f->np; c->policies = f->kind >= 0 && f->np < 7 ? PM_ALL : PM_DEFAULT; c->fill = idx % 3; if (!ok(&L)) c->np = 1, c->policies = PM(0); }
void h_describe(uint64_t idx, char *b, size_t n) { struct lay L; get(idx, &L); lay_desc(&L, b, n); }
void h_rank(uint64_t idx, int p) {
  struct lay L, M; get(idx, &L); if (!ok(&L)) return; struct comm c; world(&c); u64 oh = 0;
  slong *id = ids_of(&L, p); gs_unique(id, L.n[p], &c);
  /* gather everybody's flags: by reference layout exchange through the raw message layer */
  M = L;
  for (int i = 0; i < L.n[p]; i++) {
    REQUIRE(llabs(id[i]) == llabs(L.id[p][i]), "id %d changed from %lld to %lld", i, (long long)L.id[p][i], (long long)id[i]);
    REQUIRE(!(id[i] > 0 && L.id[p][i] < 0), "entry %d was flagged (%lld) and came out unflagged", i, (long long)L.id[p][i]);
  }
  { slong snd[LN] = {0}, *rcv = sim_alloc(sizeof(slong) * LN * L.np); memcpy(snd, id, L.n[p] * sizeof(slong)); sim_lib(0); MPI_Allgather(snd, LN * LB, MPI_BYTE, rcv, LN * LB, MPI_BYTE, MPI_COMM_WORLD); sim_lib(1); for (int q = 0; q < L.np; q++) memcpy(M.id[q], rcv + q * LN, L.n[q] * sizeof(slong)); free(rcv); }
  for (int q = 0; q < L.np; q++) for (int i = 0; i < L.n[q]; i++) { slong g = llabs(L.id[q][i]); if (!g) continue; int k = unflagged(&M, g); if (k != 1) { char b[600]; lay_desc(&M, b, sizeof b); sim_violation("id %lld has %d unflagged entries after gs_unique: %s", (long long)g, k, b); } }
  for (int i = 0; i < L.n[p]; i++) oh = hmix(oh, id[i]);
  for (int m = 1; m <= 3; m++) {
    slong *id2 = ids_of(&L, p);
    struct gs_data *a = gs_setup(id2, L.n[p], &c, 1, m, 0), *b = gs_setup(id, L.n[p], &c, 0, m, 0);
    ids_same(&L, p, id2, "gs_setup(unique)"); free(id2);
    for (int t = 0; t < 2; t++) for (int mode = 0; mode < 3; mode++) for (int op = 0; op < 3; op += 2) {
      struct udata U, V; ud_alloc(&U, &L, p, mode, 2, gs_slong, op, eval_); ud_alloc(&V, &L, p, mode, 2, gs_slong, op, eval_);
      ud_run(&U, op, t, a, 0); ud_run(&V, op, t, b, 0);
      prim_lay = &L; ud_check(&U, &M, p, op, t, "handle with the unique option", eval_, &oh, "transpose-flagged-primary");
      prim_lay = 0; ud_check(&V, &M, p, op, t, "handle from ids made unique", eval_, &oh, "transpose-flagged-primary"); ud_free(&U); ud_free(&V); sim_steps(2);
    }
    gs_free(a); gs_free(b);
  }
  free(id); comm_free(&c); sim_outcome(oh); sim_state(oh);
}
