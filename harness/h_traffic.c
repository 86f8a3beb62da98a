/* C22: application traffic pending around library calls; nonblocking objects started in different orders; objects over split communicators */
#include "obj.h"
enum { F_APP, F_ORDER, F_SPLIT, F_SCHED, F_SHARE };
enum { T_SEND, T_RECV, T_ANY, T_COLL, T_ALL, T_N };
static const char *tn[] = {"sends pending", "receives pending", "wildcard receives pending", "nonblocking collectives pending", "sends, receives and collectives pending"};
struct fam { int kind, np, a, b, on, type, s0, s1, tags, x, bound; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
void h_init(int tier) {
  nf = 0; total = 0;
  for (int np = 1; np <= (tier ? 6 : 4); np++) for (int a = 0; a < O_N; a++) for (int on = 0; on < 2; on++) for (int t = 0; t < T_N; t++) for (int s0 = 0; s0 < 5; s0++) for (int s1 = s0 + 1; s1 <= 5; s1++) for (int g = 0; g < (tier || np == 2 ? 3 : 1); g++) {
    if (!tier && np > 2 && (a + s0 + s1 + t) % 2) continue;
    add((struct fam){F_APP, np, a, (a + s0 + s1) % 3 ? -1 : (a + s1 * 5 + t) % O_N, on, t, s0, s1, g + (np > 2 ? (a + t) % 3 : 0), a + t + s0, 0, 1}); }
#ifdef NO_NBC
  int nm = 1;
#else
  int nm = 2;
#endif
  for (int np = 1; np <= (tier ? 4 : 3); np++) for (int m = 0; m < nm * nm * nm; m++) for (int w = 0; w < 3; w++) add((struct fam){F_ORDER, np, m, 0, 0, 0, 0, 0, 0, w, 0, ipow(6, np)});
  for (int np = 2; np <= (tier ? 6 : 4); np++) for (int a = 0; a < O_N; a++) for (int b = 0; b < O_N; b++) { if (!tier && np > 2 && (a + b) % 3) continue; add((struct fam){F_SPLIT, np, a, b, 0, 0, 0, 0, 0, a + b, 0, 1}); }
  for (int a = 0; a < O_N; a++) { if (a >= O_FP2 && a <= O_LOCMS3 && !tier && a % 4) continue; add((struct fam){F_SCHED, 2, a, -1, a & 1, T_ALL, 0, 5, 0, a, 1, 1}); if (tier) add((struct fam){F_SCHED, 3, a, -1, a & 1, T_RECV, 1, 5, 1, a, 1, 1}), add((struct fam){F_SCHED, 2, a, -1, a & 1, T_ANY, 0, 5, 1, a, 1, 1}); }
  for (int np = 2; np <= (tier ? 3 : 2); np++) for (int m = 0; m < nm * nm * nm; m += np == 3 ? 3 : 1) add((struct fam){F_ORDER, np, m, 0, 0, 0, 0, 0, 0, 0, 1, ipow(6, np)});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->np = f->np; c->policies = f->bound ? PM_DEFAULT : f->kind == F_APP && f->np == 2 ? PM(i % POL_N) | PM((i + 1) % POL_N) | PM((i + f->s1) % POL_N) : PM((i + f->a + f->b + f->s0 * 2 + f->s1 + 7) % POL_N) | PM((i + f->s1) % POL_N); c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = 1; c->fill = i & 3; }
static const char *slot[] = {"before creation", "after creation", "after the first use", "after the second use", "after the third use", "after release"};
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d ", f->np);
  switch (f->kind) { case F_ORDER: o += snprintf(b + o, n - o, "three nonblocking operations (methods"); for (int k = 0; k < 3; k++) o += snprintf(b + o, n - o, " %s", f->a >> k & 1 ? "all_reduce" : "pairwise"); o += snprintf(b + o, n - o, "), start order on each rank:"); for (int p = 0; p < f->np; p++) { const int *q = PERM[i % 6]; i /= 6; o += snprintf(b + o, n - o, " %d%d%d", q[0], q[1], q[2]); } snprintf(b + o, n - o, ", wait order %d, deviations<=%d", f->x, f->bound); break;
  case F_SPLIT: snprintf(b + o, n - o, "%s over the world and %s over each half, used in different orders", okn[f->a], okn[f->b]); break;
  default: o += snprintf(b + o, n - o, "%s on %s, tags %d, posted %s, completed %s, around %s", tn[f->type], f->on ? "the communicator passed in" : "MPI_COMM_WORLD", f->tags, slot[f->s0], slot[f->s1], okn[f->a]); if (f->b >= 0) o += snprintf(b + o, n - o, " and %s", okn[f->b]); snprintf(b + o, n - o, ", deviations<=%d", f->bound); }
}
/* ------------------------------------------------------------------ the application's own messages */
#define NT 6
#define NSLOT 40
static int tagof(const struct fam *f, int src, int k) { static const int t0[NT] = {0, 1, 2, 3, 4, 900}, t1[NT] = {0, 192, 193, 194, 195, 5}, t2[NT] = {6, 7, 8, 9, 10, 11}; if (k == 0) return src; return (f->tags == 0 ? t0 : f->tags == 1 ? t1 : t2)[k]; }
static unsigned char pay(int s, int d, int k, int j) { return (unsigned char)(hash2(s * 64 + d, k * 128 + j) | 1); }
static int plen(int k) { static const int l[NT] = {4, 8, 16, 64, 3, 200}; return l[k]; }
struct app { MPI_Comm c; MPI_Request rq[SIM_MAXNP * NT * 2 + 4]; int nrq; unsigned char *sb, *rb; int *any; double cs[3], cr[3]; };
static struct app A; static int nt;
#define SB(d, k) (A.sb + (((d) * NT + (k)) * 256))
#define RB(s, k) (A.rb + (((s) * NT + (k)) * 256))
static void sends(const struct fam *f, int p) { for (int d = 0; d < f->np; d++) for (int k = 0; k < nt; k++) { for (int j = 0; j < plen(k); j++) SB(d, k)[j] = pay(p, d, k, j); MPI_Isend(SB(d, k), plen(k), MPI_BYTE, d, tagof(f, p, k), A.c, &A.rq[A.nrq++]); } }
static void recvs(const struct fam *f, int p) { for (int s = 0; s < f->np; s++) for (int k = 0; k < nt; k++) MPI_Irecv(RB(s, k), plen(k), MPI_BYTE, s, tagof(f, s, k), A.c, &A.rq[A.nrq++]); }
static void app_post(const struct fam *f, int p) {
  sim_lib(0); A.nrq = 0; A.sb = sim_alloc(f->np * NT * 256); A.rb = sim_alloc(f->np * NT * 256); memset(A.rb, 0, f->np * NT * 256);
  switch (f->type) { case T_SEND: sends(f, p); break; case T_RECV: recvs(f, p); break;
  case T_ANY: for (int j = 0; j < f->np * nt; j++) MPI_Irecv(A.rb + j * 256, 256, MPI_BYTE, f->np > 2 ? j % f->np : MPI_ANY_SOURCE, MPI_ANY_TAG, A.c, &A.rq[A.nrq++]); break;
  case T_ALL: recvs(f, p); /* fall through */ case T_COLL: for (int k = 0; k < 3; k++) A.cs[k] = (p + 1) * (k + 1); MPI_Iallreduce(A.cs, A.cr, 3, MPI_DOUBLE, MPI_SUM, A.c, &A.rq[A.nrq++]); MPI_Ibarrier(A.c, &A.rq[A.nrq++]); }
  sim_lib(1);
}
static void app_done(const struct fam *f, int p) {
  sim_lib(0);
  switch (f->type) { case T_SEND: recvs(f, p); break; case T_RECV: case T_ALL: sends(f, p); break; case T_ANY: sends(f, p); break; }
  MPI_Status *st = sim_alloc(sizeof(MPI_Status) * (A.nrq + 1)); MPI_Waitall(A.nrq, A.rq, st);
  if (f->type == T_COLL || f->type == T_ALL) for (int k = 0; k < 3; k++) { double e = 0.5 * f->np * (f->np + 1) * (k + 1); REQUIRE(A.cr[k] == e, "the application's pending sum is %g, expected %g", A.cr[k], e); }
  if (f->type == T_ANY) { int seen[SIM_MAXNP][NT] = {0}; for (int j = 0; j < f->np * nt; j++) { int s = st[j].MPI_SOURCE, n, k; MPI_Get_count(&st[j], MPI_BYTE, &n); REQUIRE(s >= 0 && s < f->np, "wildcard receive: source %d", s); unsigned char *b = A.rb + j * 256; for (k = 0; k < nt; k++) if (!seen[s][k] && n == plen(k) && st[j].MPI_TAG == tagof(f, s, k)) { int ok = 1; for (int q = 0; q < n; q++) ok &= b[q] == pay(s, p, k, q); if (ok) break; } REQUIRE(k < nt, "the application's wildcard receive got a message it was never sent: %d bytes from %d, tag %d", n, s, st[j].MPI_TAG); seen[s][k] = 1; } }
  else if (f->type != T_COLL) for (int s = 0; s < f->np; s++) for (int k = 0; k < nt; k++) for (int j = 0; j < plen(k); j++) REQUIRE(RB(s, k)[j] == pay(s, p, k, j), "the application's message from %d (tag %d) arrived with other contents", s, tagof(f, s, k));
  free(st); free(A.sb); free(A.rb); sim_lib(1);
}
static struct obj O[3];
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); u64 oh = 0; struct comm w; world(&w);
  switch (f->kind) {
  case F_APP: case F_SCHED: {
    nt = f->bound ? 3 : NT; A.c = f->on ? w.c : MPI_COMM_WORLD;
    for (int a = 0; a <= 5; a++) {
      if (a == f->s0) app_post(f, p);
      if (a == f->s1) app_done(f, p);
      switch (a) { case 0: ob_create(O, f->a, &w, f->x & 7); if (f->b >= 0) ob_create(O + 1, f->b, &w, f->x + 1 & 7); break; case 4: if (f->b >= 0) ob_free(O + 1); ob_free(O); break; case 5: break; default: if (f->bound && a > 1) break; ob_use(O, f->x + a, &oh); if (f->b >= 0) ob_use(O + 1, f->x + a + 1, &oh); sim_steps(1); }
    } } break;
  case F_ORDER: {
    struct lay L[3]; struct gs_data *g[3]; buffer b[3]; struct udata U[3]; int wh[3]; u64 x = i; for (int q = 0; q < p; q++) x /= 6; const int *o = PERM[x % 6];
    for (int h = 0; h < 3; h++) { memset(&L[h], 0, sizeof L[h]); lay_struct(&L[h], h == 0 ? S_RING : h == 1 ? S_PAIRS : S_HALVES, f->np, h); g[h] = gs_setup(L[h].id[p], L[h].n[p], &w, 0, f->a >> h & 1 ? gs_all_reduce : gs_pairwise, 0); buffer_init(&b[h], 1); }
    for (int r = 0; r < (f->bound ? 1 : 2); r++) { for (int k = 0; k < 3; k++) { int h = o[k]; ud_alloc(&U[h], &L[h], p, (h + r) % 3, 2, h, h == 1 ? gs_max : gs_add, eval_); wh[h] = ud_start(&U[h], h == 1 ? gs_max : gs_add, 0, g[h], &b[h]); }
      for (int k = 0; k < 3; k++) { int h = f->x == 0 ? o[k] : f->x == 1 ? o[2 - k] : k; gs_wait(wh[h]); ud_check(&U[h], &L[h], p, h == 1 ? gs_max : gs_add, 0, "started in different orders", eval_, &oh, 0); ud_free(&U[h]); } sim_steps(6); }
    for (int h = 0; h < 3; h++) gs_free(g[h]), buffer_free(&b[h]); } break;
  case F_SPLIT: {
    struct comm h; int grp = p >= (f->np + 1) / 2; comm_split(&w, grp, p, &h); REQUIRE(h.np == (uint)(grp ? f->np / 2 : (f->np + 1) / 2), "comm_split: %u processes", h.np);
    if (grp) { ob_create(O + 1, f->b, &h, f->x & 7); ob_use(O + 1, 1, &oh); ob_create(O, f->a, &w, f->x & 7); ob_use(O + 1, 2, &oh); ob_use(O, 2, &oh); ob_use(O, 3, &oh); ob_use(O + 1, 3, &oh); ob_free(O + 1); ob_use(O, 4, &oh); ob_free(O); }
    else { ob_create(O, f->a, &w, f->x & 7); ob_create(O + 1, f->b, &h, f->x & 7); ob_use(O, 2, &oh); ob_use(O + 1, 1, &oh); ob_use(O + 1, 2, &oh); ob_use(O, 3, &oh); ob_use(O, 4, &oh); ob_free(O); ob_use(O + 1, 3, &oh); ob_free(O + 1); }
    comm_free(&h); sim_steps(9); } break;
  }
  comm_free(&w); sim_outcome(oh); sim_state(oh);
}
