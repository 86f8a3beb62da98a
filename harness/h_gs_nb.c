/* C03: start/wait histories of nonblocking gather/scatter */
#include "gs_common.h"
/* families: 4 large data; 5 many operations pending at once; 0 every combination started and waited; 1 histories over three handles; 2 many pending, every wait order; 3 schedules */
struct cs { int fam, np, kind, var; int meth; long x; };
static const int PERMN = 120;
static void nolay(struct lay *L, int np) { memset(L, 0, sizeof *L); L->np = np; for (int p = 0; p < np; p++) { L->n[p] = p == 1 ? 0 : 3; L->id[p][0] = 1 + 10 * p; L->id[p][1] = 0; L->id[p][2] = p & 1 ? 1 + 10 * p : -(1 + 10 * p); } lay_fin(L); }
static int METH[4];
static int depth = 4, NF1np = 3;
static u64 n0, n1, n2, n3, n4, n5;
static int np0 = 5;
#define DIG 6
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
void h_init(int tier) {
  if (tier) depth = 6, np0 = 7;
#ifdef NO_NBC
  /* without nonblocking collectives the all-reduce method refuses to start */
  METH[0] = 1; METH[1] = 2; METH[2] = 2; METH[3] = 2;
#else
  METH[0] = 1; METH[1] = 2; METH[2] = 3; METH[3] = 3;
#endif
  n0 = (u64)np0 * (S_N + 1) * 4 * METH[3];
  n1 = (u64)NF1np * ipow(METH[3], 3) * 2 * ipow(DIG, depth);
  n2 = 3 * (u64)PERMN * METH[3] * 2;
  n4 = 3 * NSC * 3; n5 = 3 * METH[3] * 6;
  n3 = 2 * 3 * (u64)METH[3] * METH[3] * 24;
}
uint64_t h_ncases(void) { return n4 + n5 + n0 + n2 + n3 + n1; }
static void dec(u64 i, struct cs *c) {
  memset(c, 0, sizeof *c);
  if (i < n4) { c->fam = 4; c->kind = dig(&i, 3); c->var = dig(&i, NSC); c->np = 1 + i; return; } i -= n4;
  if (i < n5) { c->fam = 5; c->meth = dig(&i, METH[3]); c->var = dig(&i, 6); c->np = 1 + i; return; } i -= n5;
  if (i < n0) { c->fam = 0; c->meth = dig(&i, METH[3]); c->var = dig(&i, 4); c->kind = dig(&i, S_N + 1); c->np = 1 + i; return; } i -= n0;
  if (i < n2) { c->fam = 2; c->x = dig(&i, PERMN); c->meth = dig(&i, METH[3]); c->var = dig(&i, 2); c->np = 1 + i; return; } i -= n2;
  if (i < n3) { c->fam = 3; c->x = dig(&i, 24); c->meth = dig(&i, METH[3]); c->var = dig(&i, METH[3]); c->kind = dig(&i, 3); c->np = 2 + i; return; } i -= n3;
  c->fam = 1; c->np = 1 + dig(&i, NF1np); c->var = dig(&i, 2); c->meth = dig(&i, ipow(METH[3], 3)); c->x = i;
}
/* history of family 1: at each step the k-th enabled action; -1 if not a history */
static int hist(long x, int *act, int *arg) {
  int pend[3] = {0, 0, 0}, n = 0;
  for (int s = 0; s < depth; s++) {
    int a[9], g[9], m = 0; for (int h = 0; h < 3; h++) if (pend[h]) a[m] = 1, g[m++] = h; else { a[m] = 0, g[m++] = h; }
    for (int h = 0; h < 3; h++) if (!pend[h]) a[m] = 2, g[m++] = h;
    int d = x % DIG; x /= DIG; if (d >= m) return -1; act[n] = a[d]; arg[n++] = g[d]; if (a[d] == 0) pend[g[d]] = 1; if (a[d] == 1) pend[g[d]] = 0;
  }
  return n;
}
void h_case(uint64_t i, struct hcase *c) {
  struct cs s; dec(i, &s); c->np = s.np; c->same = 1; c->policies = s.fam == 0 ? PM_ALL : PM_DEFAULT; c->fill = i % 3;
  if (s.fam == 1) { int a[16], g[16]; if (hist(s.x, a, g) < 0) { c->np = 1; c->policies = PM(0); } }
  if (s.fam == 3) { c->bound = s.np == 2 && sim_tier() ? 2 : 1; c->kinds = KM_ALL; c->policies = sim_tier() ? PM_ALL : PM_DEFAULT; c->check_stray = 1; }
}
static void layof(const struct cs *s, int h, struct lay *L) {
  memset(L, 0, sizeof *L);
  if (s->fam == 0) { if (s->kind == S_N) nolay(L, s->np); else lay_struct(L, s->kind, s->np, s->var); return; }
  if (s->fam == 2) { lay_struct(L, h % 3 == 0 ? S_RING : h % 3 == 1 ? S_PAIRS : S_HALVES, s->np, h & 3); return; }
  switch ((h + s->kind) % 3) { case 0: lay_struct(L, S_RING, s->np, s->var ? 3 : 0); break; case 1: lay_struct(L, S_SUBSETS, s->np, s->var ? 1 : 0); break; default: nolay(L, s->np); }
}
void h_describe(uint64_t i, char *b, size_t n) {
  struct cs s; dec(i, &s); if (s.fam == 4) { snprintf(b, n, "np=%d large case: %u entries of up to %u components, id pattern %d", s.np, scdim[s.var].n, scdim[s.var].vn, s.kind); return; } int o = snprintf(b, n, "np=%d fam=%d meth=%d kind=%d var=%d ", s.np, s.fam, s.meth, s.kind, s.var);
  if (s.fam == 1) { int a[16], g[16], m = hist(s.x, a, g); for (int k = 0; k < m; k++) o += snprintf(b + o, n - o, "%s(h%d) ", a[k] == 0 ? "start" : a[k] == 1 ? "wait" : "blocking", g[k]); } else snprintf(b + o, n - o, "x=%ld", s.x);
}
static void par(int k, int *dom, int *op, int *t, int *mode) { *dom = k % gs_dom_n; *op = (k / 2) % 5; *t = (k / 3) & 1; *mode = k % 3; }
#define KN "transpose-flagged-primary"
void h_rank(uint64_t idx, int p) {
  struct cs s; dec(idx, &s); u64 oh = 0; int act[16], arg[16], m = 0;
  if (s.fam == 1 && (m = hist(s.x, act, arg)) < 0) return;
  struct comm c; world(&c);
  if (s.fam == 4) {
    struct scale S = {s.np, s.kind, scdim[s.var].n, scdim[s.var].vn}; slong *id = sc_ids(&S, p); void **a = malloc(S.vn * sizeof *a), **a2 = malloc(S.vn * sizeof *a); buffer b[2]; buffer_init(&b[0], 1); buffer_init(&b[1], 1);
    for (int m = 0; m < METH[3] && (m == 0 || METH[m] != METH[m - 1]); m++) {
      struct gs_data *g[2] = {gs_setup(id, S.n, &c, 0, METH[m], 0), gs_setup(id, S.n, &c, 0, METH[m], 0)};
      for (int mode = 0; mode < 3; mode++) for (int t = 0; t < 2; t++) {
        struct scale T = S; if (mode == 0) T.vn = 1; int dom = (mode + t) & 1 ? gs_slong : gs_double, op = t ? gs_min : gs_add, h[2]; void *u[2] = {sc_alloc(&T, p, dom, mode, a), sc_alloc(&T, p, dom, mode, a2)};
        for (int j = 0; j < 2; j++) { if (mode == 0) igs(u[j], dom, op, t, g[j], &b[j], &h[j]); else if (mode == 1) igs_vec(u[j], T.vn, dom, op, t, g[j], &b[j], &h[j]); else igs_many((void *const *)(j ? a2 : a), T.vn, dom, op, t, g[j], &b[j], &h[j]); }
        for (int j = 0; j < 2; j++) { gs_wait(h[j]); char w[64]; snprintf(w, sizeof w, "nonblocking, method %s", mname[METH[m]]); sc_check(&T, p, dom, mode, op, t, u[j], w, &oh); free(u[j]); } sim_steps(2);
      }
      gs_free(g[0]); gs_free(g[1]);
    }
    free(a); free(a2); free(id); buffer_free(&b[0]); buffer_free(&b[1]); comm_free(&c); sim_outcome(oh); sim_state(oh); return;
  }
  if (s.fam == 5) { /* MANY operations pending; waited for in six orders; the freed slots used again */
    enum { MANY = 37 }; struct lay L[3]; struct gs_data *g[MANY]; static struct udata U[45]; buffer *b = malloc((MANY + 8) * sizeof *b); int wh[MANY + 8], P[MANY + 8][2], done[MANY + 8] = {0}, lz[8];
    for (int h = 0; h < 3; h++) { memset(&L[h], 0, sizeof L[h]); lay_struct(&L[h], h == 0 ? S_RING : h == 1 ? S_PAIRS : S_HALVES, s.np, h & 3); }
    for (int q = 0; q < MANY; q++) { g[q] = gs_setup(L[q % 3].id[p], L[q % 3].n[p], &c, 0, METH[(s.meth + q) % METH[3]], 0); int dom, op, t, mode; par(q * 5 + s.var, &dom, &op, &t, &mode); P[q][0] = op; P[q][1] = t; buffer_init(&b[q], 1); ud_alloc(&U[q], &L[q % 3], p, mode, 1 + q % 8, dom, op, eval_); wh[q] = ud_start(&U[q], op, t, g[q], &b[q]); for (int z = 0; z < q; z++) REQUIRE(wh[z] != wh[q], "two pending operations have the same handle %d", wh[q]); }
    static const int st[6] = {1, 36, 2, 5, 10, 23}; /* coprime strides: forward, backward, mixed */
    for (int k = 0, q = s.var; k < MANY; k++, q = (q + st[s.var]) % MANY) {
      gs_wait(wh[q]); ud_check(&U[q], &L[q % 3], p, P[q][0], P[q][1], "many pending", eval_, &oh, KN); ud_free(&U[q]); done[q] = 1; sim_steps(1);
      if (k % 5 == 2) { int z = MANY + k / 5, gz = q, dom, op, t, mode; par(z * 3 + s.var, &dom, &op, &t, &mode); P[z][0] = op; P[z][1] = t; buffer_init(&b[z], 1); lz[k / 5] = gz % 3; ud_alloc(&U[z], &L[gz % 3], p, mode, 2, dom, op, eval_); wh[z] = ud_start(&U[z], op, t, g[gz], &b[z]); for (int y = 0; y < z; y++) if (y < MANY ? !done[y] : 1) REQUIRE(wh[y] != wh[z], "two pending operations have the same handle %d", wh[z]); }
    }
    for (int z = MANY; z < MANY + 7; z++) { gs_wait(wh[z]); ud_check(&U[z], &L[lz[z - MANY]], p, P[z][0], P[z][1], "started while many pending", eval_, &oh, KN); ud_free(&U[z]); }
    for (int q = 0; q < MANY + 7; q++) buffer_free(&b[q]); free(b); for (int h = 0; h < MANY; h++) gs_free(g[h]); comm_free(&c); sim_outcome(oh); sim_state(oh); return;
  }
  if (s.fam == 0) {
    struct lay L; layof(&s, 0, &L); struct gs_data *g = gs_setup(L.id[p], L.n[p], &c, 0, METH[s.meth], 0); buffer b; buffer_init(&b, 1);
    for (int mode = 0; mode < 3; mode++) for (int t = 0; t < 2; t++) for (int dom = 0; dom < gs_dom_n; dom++) for (int op = 0; op < gs_op_n; op++) {
      struct udata U, V; ud_alloc(&U, &L, p, mode, 1 + (op + dom) % 3, dom, op, eval_); ud_alloc(&V, &L, p, mode, 1 + (op + dom) % 3, dom, op, eval_);
      int h = ud_start(&U, op, t, g, (op + dom) & 1 ? &b : 0); gs_wait(h);
      ud_check(&U, &L, p, op, t, "start then wait", eval_, &oh, KN);
      ud_run(&V, op, t, g, &b); /* same as the blocking call, bit for bit */
      for (int k = 0; k < U.vn; k++) for (int i = 0; i < U.n; i++) REQUIRE(!memcmp(ud_at(&U, i, k), ud_at(&V, i, k), dsz[dom]), "nonblocking result differs from blocking: dom %s op %s transpose %d mode %s entry %d", dname[dom], opname[op], t, modename[mode], i);
      ud_free(&U); ud_free(&V); sim_steps(3);
    }
    buffer_free(&b); gs_free(g);
  } else if (s.fam == 1 || s.fam == 3) {
    struct lay L[3]; struct gs_data *g[3]; buffer b[3]; struct udata U[3]; int pend[3] = {0}, wh[3], P[3][3];
    for (int h = 0; h < 3; h++) { layof(&s, h, &L[h]); int mm = s.fam == 1 ? (s.meth / (int)ipow(METH[3], h)) % METH[3] : (h == 0 ? s.meth : h == 1 ? s.var : (s.meth + 1) % METH[3]); g[h] = gs_setup(L[h].id[p], L[h].n[p], &c, 0, METH[mm], 0); buffer_init(&b[h], 1); }
    if (s.fam == 3) { /* start all; wait orders x blocking in between */
      static const int o[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      int k = 0; int ns = 2 + (s.x / 6) % 2; const int *q = o[s.x % 6]; int blk = s.x / 12;
      for (int h = 0; h < ns; h++) act[k] = 0, arg[k++] = h; if (blk && ns == 2) act[k] = 2, arg[k++] = 2;
      for (int w = 0; w < 3; w++) if (q[w] < ns) { act[k] = 1, arg[k++] = q[w]; if (blk && w == 0) act[k] = 0, arg[k++] = q[w]; }
      m = k;
    }
    for (int k = 0; k < m + 3; k++) {
      int a = 1, h; if (k < m) a = act[k], h = arg[k]; else { h = s.x & 1 ? k - m : 2 - (k - m); if (!pend[h]) continue; }
      int dom, op, t, mode;
      if (a == 0 || a == 2) {
        par(k * 7 + h * 5 + s.x % 11, &dom, &op, &t, &mode); P[h][0] = op; P[h][1] = t;
        ud_alloc(&U[h], &L[h], p, mode, 2, dom, op, eval_);
        /* the static buffer (null) may serve one pending operation: handle 0 in half of the cases */
        buffer *bb = h == 0 && s.var ? 0 : &b[h];
        if (a == 0) wh[h] = ud_start(&U[h], op, t, g[h], bb), pend[h] = 1; else { ud_run(&U[h], op, t, g[h], bb); ud_check(&U[h], &L[h], p, op, t, "blocking between starts and waits", eval_, &oh, KN); ud_free(&U[h]); }
      } else { gs_wait(wh[h]); pend[h] = 0; char w[40]; snprintf(w, sizeof w, "wait on handle %d at step %d", h, k); ud_check(&U[h], &L[h], p, P[h][0], P[h][1], w, eval_, &oh, KN); ud_free(&U[h]); }
      sim_steps(1); sim_state(hash2(pend[0] + 2 * pend[1] + 4 * pend[2], k));
    }
    for (int h = 0; h < 3; h++) gs_free(g[h]), buffer_free(&b[h]);
  } else {
    struct lay L[5]; struct gs_data *g[5]; buffer b[5]; struct udata U[5]; int wh[5], ord[5], x = s.x, used = 0, P[5][2];
    for (int k = 0; k < 5; k++) { int r = x % (5 - k); x /= 5 - k; for (int j = 0; j < 5; j++) if (!(used >> j & 1) && r-- == 0) { ord[k] = j; used |= 1 << j; break; } }
    for (int h = 0; h < 5; h++) { layof(&s, h, &L[h]); g[h] = gs_setup(L[h].id[p], L[h].n[p], &c, 0, METH[(s.meth + h) % METH[3]], 0); buffer_init(&b[h], 1); }
    for (int round = 0; round < 2; round++) {
      for (int h = 0; h < 5; h++) { int dom, op, t, mode; par(h * 11 + s.x + round, &dom, &op, &t, &mode); P[h][0] = op; P[h][1] = t; ud_alloc(&U[h], &L[h], p, mode, 3, dom, op, eval_); wh[h] = ud_start(&U[h], op, t, g[h], &b[h]); }
      for (int k = 0; k < 5; k++) { int h = ord[s.var && round ? 4 - k : k]; gs_wait(wh[h]); ud_check(&U[h], &L[h], p, P[h][0], P[h][1], "five pending", eval_, &oh, KN); ud_free(&U[h]);
        if (s.var && k == 1) { /* start again while others are pending */ int dom, op, t, mode; par(h * 3 + s.x, &dom, &op, &t, &mode); ud_alloc(&U[h], &L[h], p, mode, 2, dom, op, eval_); int w = ud_start(&U[h], op, t, g[h], &b[h]); gs_wait(w); ud_check(&U[h], &L[h], p, op, t, "restarted while others pending", eval_, &oh, KN); ud_free(&U[h]); } }
      sim_steps(12);
    }
    for (int h = 0; h < 5; h++) gs_free(g[h]), buffer_free(&b[h]);
  }
  comm_free(&c); sim_outcome(oh);
}
