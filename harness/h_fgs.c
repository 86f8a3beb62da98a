/* C11: Fortran gather/scatter interface */
#include "gs_common.h"
#include "fort.h"
enum { K_ALL, K_HIST, K_BAD, KF_SCHED, K_BIG };
struct fam { int kind, np, lk, var, setup, len; unsigned alph, nmax; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
#define NACT 10
#define NENT 9
#define NB (NENT * 9 + 6)
void h_init(int tier) {
  nf = 0; total = 0;
  for (int np = 1; np <= (tier ? 9 : 6); np++) for (int k = 0; k < S_N; k++) for (int v = 0; v < 4; v++) for (int s = 0; s < 5; s++) add((struct fam){K_ALL, np, k, v, s, 0, 0, 0, 1});
  for (int s = 1; s < 4; s++) { add((struct fam){K_ALL, 1, -1, 0, s, 0, 5, 3, nvec(5, 3)}); add((struct fam){K_ALL, 2, -1, 0, s, 0, tier ? 5 : 4, 2, ipow(nvec(tier ? 5 : 4, 2), 2)}); if (tier) add((struct fam){K_ALL, 3, -1, 0, s, 0, 3, 2, ipow(nvec(3, 2), 3)}); }
  for (int l = 1; l <= (tier ? 6 : 5); l++) add((struct fam){K_HIST, 2, 0, 0, 0, l, 0, 0, ipow(NACT, l)});
  for (int l = 1; l <= (tier ? 5 : 4); l++) add((struct fam){K_HIST, 3, 0, 1, 0, l, 0, 0, ipow(NACT, l)});
  for (int np = 1; np <= 3; np++) for (int s = 1; s < 4; s++) add((struct fam){K_BIG, np, S_RING, 2, s, 0, 0, 0, 6});
  add((struct fam){K_BAD, 2, 0, 0, 0, 0, 0, 0, NB}); add((struct fam){K_BAD, 1, 0, 0, 0, 0, 0, 0, NB});
  for (int np = 2; np <= 3; np++) for (int s = 1; s < 4; s++) for (int k = 0; k < S_N; k++) if (k != S_LONGVEC && k != S_BIGIDS) add((struct fam){KF_SCHED, np, k, 1, s, 0, 0, 0, 1});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
static void lay(const struct fam *f, u64 i, struct lay *L) { memset(L, 0, sizeof *L); if (f->lk >= 0) { lay_struct(L, f->lk, f->np, f->var); return; } L->np = f->np; u64 m = nvec(f->alph, f->nmax); for (int p = 0; p < f->np; p++) { L->n[p] = getvec(i % m, f->alph, L->id[p], ALPH); i /= m; } lay_fin(L); }
static int bad_valid(u64 i) { return i >= NENT * 9 + 5; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->same = 1; c->np = f->np; c->policies = f->kind == K_BAD ? PM(0) : f->kind == K_HIST ? PM_DEFAULT : PM(POL_EAGER_EARLY) | PM(POL_RDV_LATE) | PM(POL_RDV_LATE_DESC); c->bound = f->kind == KF_SCHED; c->kinds = c->bound ? KM_ALL : 0; c->fill = i & 3; c->check_stray = f->kind != K_BAD; c->check_leaks = c->check_stray; if (f->kind == K_BAD) c->expect_exit = !bad_valid(i); }
static const char *an[NACT] = {"setup ring/pairwise", "setup star/crystal", "setup pairs/allreduce", "op first", "op last", "vec middle", "igs+wait first", "unique+setup", "free first", "free last"};
static const char *en[NENT] = {"gs_op", "gs_op_vec", "gs_op_many", "gs_op_fields", "igs_op", "igs_op_vec", "igs_op_many", "gs_free", "gs_setup"};
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); struct lay L; int o = 0;
  switch (f->kind) { case K_HIST: o = snprintf(b, n, "np=%d history:", f->np); for (int k = 0; k < f->len; k++) o += snprintf(b + o, n - o, " %s;", an[dig(&i, NACT)]); break;
  case K_BAD: o = snprintf(b, n, "np=%d invalid argument case %d (%s variant %d)", f->np, (int)i, i / 9 < NENT ? en[i / 9] : "setup", (int)i % 9); break;
  default: lay(f, i, &L); o = snprintf(b, n, "np=%d setup %s%s ids ", f->np, f->setup == 4 ? "gs_unique then pairwise" : f->setup ? mname[f->setup] : "gs_setup", f->kind == KF_SCHED ? ", schedules" : f->kind == K_BIG ? ", large stride or component count" : ""); lay_desc(&L, b + o, n - o); }
}
static const int dm[4] = {0, gs_double, gs_sint, gs_slong};
static u64 oh; static const char *KK = "transpose-flagged-primary";
/* one operation through entry point e, against the oracle */
static void op1(const struct lay *L, int p, sint h, int e, sint d, sint op, sint t, sint n, int gap) {
  struct udata U; int dom = dm[d], o = op - 1, w = -77; U.n = L->n[p];
  int mode = e == 1 || e == 5 ? 1 : e == 2 || e == 6 || e == 3 ? 2 : 0;
  if (e == 3) { /* strided fields: one block of memory */
    sint stride = L->n[p] + gap; size_t ds = dsz[dom], tot = n ? (n - 1) * (size_t)stride + L->n[p] : 0; char *blk = sim_alloc(tot * ds), *ref = sim_alloc(tot * ds); memset(blk, 0x3c, tot * ds);
    for (int k = 0; k < n; k++) for (int i = 0; i < L->n[p]; i++) put(blk + k * (size_t)stride * ds, i, dom, eval_(L->base[p] + i, k, L->base[L->np], o));
    memcpy(ref, blk, tot * ds); fgslib_gs_op_fields_(&h, blk, &stride, &n, &d, &op, &t);
    U.mode = 2; U.vn = n; U.dom = dom; if (n > 8) { for (int k = 0; k < n; k++) for (int i = 0; i < L->n[p]; i++) { long long ex[2]; expect_entry(L, p, i, k, dom, o, t != 0, eval_, ex); REQUIRE(!memcmp(ex, blk + (k * (size_t)stride + i) * ds, ds), "gs_op_fields: field %d entry %d", k, i); } U.vn = 0; }
    for (int k = 0; k < U.vn; k++) U.a[k] = blk + k * (size_t)stride * ds;
    ud_check(&U, L, p, o, t != 0, en[e], eval_, &oh, KK);
    for (int k = 0; k + 1 < n; k++) for (size_t b = L->n[p] * ds; b < stride * ds; b++) REQUIRE(blk[k * (size_t)stride * ds + b] == 0x3c, "gs_op_fields wrote between the fields (field %d)", k);
    free(blk); free(ref); sim_steps(1); return;
  }
  ud_alloc(&U, L, p, mode, n, dom, o, eval_);
  void *a[6]; for (int k = 0; k < 6; k++) a[k] = mode == 2 && k < n ? U.a[k] : 0;
  switch (e) { case 0: fgslib_gs_op_(&h, U.flat, &d, &op, &t); break; case 1: fgslib_gs_op_vec_(&h, U.flat, &n, &d, &op, &t); break; case 2: fgslib_gs_op_many_(&h, a[0], a[1], a[2], a[3], a[4], a[5], &n, &d, &op, &t); break;
  case 4: fgslib_igs_op_(&h, U.flat, &d, &op, &t, &w); fgslib_gs_op_wait_(&w); break; case 5: fgslib_igs_op_vec_(&h, U.flat, &n, &d, &op, &t, &w); fgslib_gs_op_wait_(&w); break; default: fgslib_igs_op_many_(&h, a[0], a[1], a[2], a[3], a[4], a[5], &n, &d, &op, &t, &w); fgslib_gs_op_wait_(&w); }
  ud_check(&U, L, p, o, t != 0, en[e], eval_, &oh, KK); ud_free(&U); sim_steps(1);
}
static void bad(u64 i, int np) {
  sint h = -1, h2 = -1, n = 2, n1 = 1, d = 1, op = 1, t = 0, npp = np, st = 4, m = 1; int w; slong id[2] = {1, 2}; double u[8] = {0}; MPI_Fint fc = MPI_Comm_c2f(MPI_COMM_WORLD);
  if (i >= NENT * 9) { sint x[] = {np + 1, 0, -1, np - 1 + (np == 1) * 7, 1000000, np}; npp = x[i - NENT * 9]; if (i & 1) fgslib_gs_setup_(&h, id, &n, &fc, &npp); else fgslib_gs_setup_pick_(&h, id, &n, &fc, &npp, &m); if (bad_valid(i)) fgslib_gs_free_(&h); return; }
  if (i / 9 == 8) { npp = np + 1 + i % 9; if (i % 9 == 8) fgslib_gs_unique_(id, &n, &fc, &npp); else fgslib_gs_setup_(&h, id, &n, &fc, &npp); return; }
  fgslib_gs_setup_pick_(&h, id, &n, &fc, &npp, &m); fgslib_gs_setup_pick_(&h2, id, &n, &fc, &npp, &m); REQUIRE(h != h2, "two live handles are equal");
  sint b = h; int more = (i / 9 + i) % 5; if (i % 9 == 1) { for (int k = 0; k < 5; k++) if (k < more) fgslib_gs_setup_pick_(&h2, id, &n, &fc, &npp, &m); }
  switch (i % 9) { case 0: b = -1; break; case 1: b = h2 + 1; break; case 2: fgslib_gs_free_(&h2); b = h2; break; case 3: d = 0; break; case 4: d = 4; break; case 5: op = 0; break; case 6: op = 5; break; case 7: b = 1 << 30; break; default: d = -1; }
  if (i / 9 == 7 && (i % 9 >= 3 && i % 9 != 7)) b = i % 9 + 2;
  switch (i / 9) { case 0: fgslib_gs_op_(&b, u, &d, &op, &t); break; case 1: fgslib_gs_op_vec_(&b, u, &n1, &d, &op, &t); break; case 2: fgslib_gs_op_many_(&b, u, u, u, u, u, u, &n1, &d, &op, &t); break; case 3: fgslib_gs_op_fields_(&b, u, &st, &n1, &d, &op, &t); break; case 4: fgslib_igs_op_(&b, u, &d, &op, &t, &w); break; case 5: fgslib_igs_op_vec_(&b, u, &n1, &d, &op, &t, &w); break; case 6: fgslib_igs_op_many_(&b, u, u, u, u, u, u, &n1, &d, &op, &t, &w); break; default: fgslib_gs_free_(&b); }
}
static void hist(const struct fam *f, u64 i, int p) {
  struct { sint h; int lk; } live[8]; int nl = 0; MPI_Fint fc = MPI_Comm_c2f(MPI_COMM_WORLD); sint np = f->np; static struct lay L; static const int lks[] = {S_RING, S_STAR, S_PAIRS};
  for (int k = 0; k < f->len; k++) {
    int a = dig(&i, NACT);
    if (a < 3 || a == 7) { sint m = a < 3 ? a + 1 : 2, n; lay_struct(&L, lks[a % 3], f->np, a == 7 ? 2 : 1 + 0 * k); slong *id = ids_of(&L, p); n = L.n[p]; sint h = -9; fgslib_gs_setup_pick_(&h, id, &n, &fc, &np, &m); ids_same(&L, p, id, "gs_setup"); for (int q = 0; q < nl; q++) REQUIRE(live[q].h != h, "gs_setup returned handle %d which is in use", h); if (a == 7) { sint n2 = L.n[p]; fgslib_gs_unique_(id, &n2, &fc, &np); for (int q = 0; q < n2; q++) REQUIRE(llabs(id[q]) == llabs(L.id[p][q]), "gs_unique changed id %d", q); } free(id); live[nl].h = h; live[nl++].lk = a == 7 ? 10 : a; }
    else if (nl) { int q = a == 3 || a == 6 || a == 8 ? 0 : a == 5 ? nl / 2 : nl - 1; lay_struct(&L, lks[live[q].lk % 3 == 1 ? 1 : live[q].lk % 3], f->np, live[q].lk == 10 ? 2 : 1); 
      if (a == 8 || a == 9) { fgslib_gs_free_(&live[q].h); for (int z = q; z + 1 < nl; z++) live[z] = live[z + 1]; nl--; sim_steps(1); }
      else op1(&L, p, live[q].h, a == 5 ? 1 : a == 6 ? 6 : 0, 1 + k % 3, 1 + (k + a) % 4, k & 1, a == 5 ? 2 : a == 6 ? 3 : 1, 0); }
  }
  /* every handle still live is still bound to its own data */
  for (int q = 0; q < nl; q++) { lay_struct(&L, lks[live[q].lk == 10 ? 1 : live[q].lk], f->np, live[q].lk == 10 ? 2 : 1); op1(&L, p, live[q].h, 2, 3, 1, 0, 2, 0); fgslib_gs_free_(&live[q].h); }
}
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); oh = 0; MPI_Fint fc = MPI_Comm_c2f(MPI_COMM_WORLD); sint np = f->np;
  if (f->kind == K_BAD) { bad(i, np); return; }
  if (f->kind == K_HIST) { hist(f, i, p); sim_outcome(oh); sim_state(oh); return; }
  struct lay L; lay(f, i, &L); sint h = -1, n = L.n[p], m = f->setup == 4 ? 1 : f->setup; slong *id = ids_of(&L, p);
  if (f->setup == 4) { fgslib_gs_unique_(id, &n, &fc, &np); struct lay M = L; slong snd[LN] = {0}, *rcv = sim_alloc(sizeof(slong) * LN * L.np); memcpy(snd, id, n * sizeof(slong)); sim_lib(0); MPI_Allgather(snd, LN * LB, MPI_BYTE, rcv, LN * LB, MPI_BYTE, MPI_COMM_WORLD); sim_lib(1); for (int q = 0; q < L.np; q++) memcpy(M.id[q], rcv + q * LN, L.n[q] * sizeof(slong)); free(rcv);
    for (int q = 0; q < L.np; q++) for (int k = 0; k < L.n[q]; k++) { slong g = llabs(L.id[q][k]); REQUIRE(llabs(M.id[q][k]) == g, "gs_unique changed an id"); int un = 0, was = 0; for (int a = 0; a < L.np; a++) for (int b = 0; b < L.n[a]; b++) if (g && llabs(L.id[a][b]) == g) un += M.id[a][b] > 0, was += L.id[a][b] > 0; if (was) REQUIRE(un == 1, "gs_unique: id %lld has %d unflagged entries", (long long)g, un); }
    L = M; }
  if (f->setup == 0) fgslib_gs_setup_(&h, id, &n, &fc, &np); else fgslib_gs_setup_pick_(&h, id, &n, &fc, &np, &m);
  REQUIRE(h >= 0, "handle %d", h); free(id);
  if (f->kind == K_BIG) {
    for (int t = 0; t < 2; t++) for (sint d = 1; d <= 3; d++) switch (i) { case 0: op1(&L, p, h, 3, d, 1 + t, t, 2, 70000); break; case 1: op1(&L, p, h, 3, d, 3 + t, t, 4, 40000); break; case 2: op1(&L, p, h, 1, d, 3 + t, t, 8200, 0); break; case 3: op1(&L, p, h, 5, d, 3 + t, t, 16500, 0); break; case 4: op1(&L, p, h, 3, d, 3, t, 300, 1); break; default: op1(&L, p, h, 1, d, 1, t, 300, 1); }
    fgslib_gs_free_(&h); sim_outcome(oh); sim_state(oh); return; }
  if (f->kind == KF_SCHED) { op1(&L, p, h, 0, 1, 1, 0, 1, 0); op1(&L, p, h, 6, 3, 4, 1, 2, 0); fgslib_gs_free_(&h); sim_outcome(oh); return; }
  static const sint tv[] = {0, 1, 2, -1};
  for (sint d = 1; d <= 3; d++) for (sint op = 1; op <= 4; op++) for (int e = 0; e < 7; e++) for (int t = 0; t < 2; t++) {
    sint nn = e == 0 || e == 4 ? 1 : e == 2 || e == 6 ? 1 + (d * 4 + op + 3 * t + p * 0) % 6 : e == 3 ? 1 + (d + op + t) % 4 : 1 + (d + op) % 3; if (f->lk == S_LONGVEC && (e & 1)) continue;
    op1(&L, p, h, e, d, op, tv[t + 2 * ((d + op + e) & 1)], nn, e == 3 ? (op + d) % 3 : 0); }
  fgslib_gs_free_(&h); sim_outcome(oh); sim_state(oh);
}
