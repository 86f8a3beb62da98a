/* C02: all interleavings / buffering / delivery choices (bounded deviations) around
   gather/scatter setup, use and free */
#include "gs_common.h"
struct sc { int np, kind, var, prog, method, bound; };
static struct sc *C; static u64 n, cap;
static void add(int np, int kind, int var, int prog, int method, int bound) { if (n == cap) cap = cap ? 2 * cap : 256, C = realloc(C, cap * sizeof *C); C[n++] = (struct sc){np, kind, var, prog, method, bound}; }
/* programs: 0 setup+op+free, 1 setup+plain/vec/transposed ops, 2 gs_unique, 3 setup with unique, 4 two handles used alternately, 5 nonblocking */
void h_init(int tier) {
  n = 0;
  /* deepest first is last: cheap wide cases first */
  for (int np = 1; np <= (tier ? 9 : 7); np++) for (int k = 0; k < S_N; k++) for (int v = 0; v < 4; v++) for (int pr = 0; pr < 6; pr++) for (int m = 1; m <= 3; m++) { if (pr == 2 && m > 1) continue; add(np, k, v, pr, m, 0); }
  for (int np = 2; np <= (tier ? 6 : 5); np++) for (int k = 0; k < S_N; k++) for (int pr = 0; pr < 6; pr++) for (int m = 1; m <= 3; m++) { if (pr == 2 && m > 1) continue; if (!tier && np > 3 && (k == S_LONGVEC || k == S_BIGIDS || pr == 4)) continue; add(np, k, np & 1 ? 2 : 1, pr, m, 1); }
  for (int np = 2; np <= (tier ? 4 : 3); np++) for (int k = 0; k < S_N; k++) for (int m = 1; m <= 3; m++) { if (k == S_BIGIDS || k == S_LONGVEC) continue; if (!tier && np == 3 && k != S_RING && k != S_ALLSAME && k != S_HALVES) continue; add(np, k, 0, 0, m, 2); if (tier && np < 4) add(np, k, 1, 5, m, 2); }
  if (tier) for (int k = 0; k < S_N; k++) for (int m = 1; m <= 3; m++) if (k == S_RING || k == S_ALLSAME) add(2, k, 0, 0, m, 3);
}
uint64_t h_ncases(void) { return n; }
static void lay(u64 i, struct lay *L) { memset(L, 0, sizeof *L); lay_struct(L, C[i].kind, C[i].np, C[i].var); }
void h_case(uint64_t i, struct hcase *c) { c->np = C[i].np; c->bound = C[i].bound; c->policies = PM_ALL; c->kinds = C[i].bound ? KM_ALL : 0; if (C[i].bound > 1) c->policies = sim_tier() ? PM_ALL : PM(POL_EAGER_EARLY) | PM(POL_RDV_LATE); else if (C[i].bound == 1 && !sim_tier()) c->policies = PM(POL_EAGER_EARLY) | PM(POL_RDV_LATE) | PM(POL_EAGER_LATE); c->check_stray = 1; c->same = 1; c->fill = i % 2; }
static const char *pn[] = {"setup+op+free", "all packings and transposes", "gs_unique", "setup(unique)", "two handles", "nonblocking"};
void h_describe(uint64_t i, char *b, size_t m) { struct lay L; lay(i, &L); int o = snprintf(b, m, "%s program '%s' method %s deviations<=%d ", sname[C[i].kind], pn[C[i].prog], mname[C[i].method], C[i].bound); lay_desc(&L, b + o, m - o); }
static void one(struct lay *L, int p, int mode, int op, int t, struct gs_data *g, u64 *oh) { struct udata U; ud_alloc(&U, L, p, mode, 2, gs_slong, op, eval_); ud_run(&U, op, t, g, 0); ud_check(&U, L, p, op, t, "schedule", eval_, oh, ""); ud_free(&U); sim_steps(1); }
static void nb(struct lay *L, int p, int mode, int op, int t, struct gs_data *g, u64 *oh) { struct udata U; buffer b; buffer_init(&b, 1); ud_alloc(&U, L, p, mode, 2, gs_slong, op, eval_); int h = ud_start(&U, op, t, g, &b); gs_wait(h); ud_check(&U, L, p, op, t, "schedule (nonblocking)", eval_, oh, ""); ud_free(&U); buffer_free(&b); sim_steps(2); }
void h_rank(uint64_t idx, int p) {
  struct sc *s = &C[idx]; struct lay L; lay(idx, &L); struct comm c; world(&c); u64 oh = 0; int m = s->method;
  if (s->prog == 2) {
    slong *id = ids_of(&L, p); gs_unique(id, L.n[p], &c);
    for (int i = 0; i < L.n[p]; i++) { oh = hmix(oh, id[i]); REQUIRE(llabs(id[i]) == llabs(L.id[p][i]), "gs_unique changed id %d from %lld to %lld", i, (long long)L.id[p][i], (long long)id[i]); }
    free(id);
  } else {
    struct gs_data *g = gs_setup(L.id[p], L.n[p], &c, s->prog == 3, m, 0);
    if (s->prog == 0) one(&L, p, 0, gs_add, 0, g, &oh), s->bound < 2 ? fp_order(&L, p, g, s->var % 3, s->var & 1, 0, &oh) : (void)0;
    else if (s->prog == 1) { fp_order(&L, p, g, 1, 0, 0, &oh); fp_order(&L, p, g, 2, 1, 0, &oh); for (int mode = 0; mode < 3; mode++) for (int t = 0; t < 2; t++) one(&L, p, mode, gs_add, t, g, &oh); one(&L, p, 0, gs_bpr, 0, g, &oh); }
    else if (s->prog == 3) { slong *u = ids_of(&L, p); for (int i = 0; i < L.n[p]; i++) u[i] = 1 + i; struct udata U; ud_alloc(&U, &L, p, 0, 1, gs_slong, gs_add, eval_); ud_run(&U, gs_add, 1, g, 0); for (int i = 0; i < L.n[p]; i++) oh = hmix(oh, ((slong *)U.flat)[i]); ud_free(&U); free(u); }
    else if (s->prog == 4) { struct gs_data *h = gs_setup(L.id[p], L.n[p], &c, 0, 1 + m % 3, 0); one(&L, p, 0, gs_add, 0, g, &oh); one(&L, p, 0, gs_max, 1, h, &oh); one(&L, p, 1, gs_add, 1, g, &oh); gs_free(h); one(&L, p, 2, gs_min, 0, g, &oh); }
    else { nb(&L, p, 0, gs_add, 0, g, &oh); nb(&L, p, 1, gs_max, 1, g, &oh); nb(&L, p, 2, gs_bpr, 0, g, &oh); fp_order(&L, p, g, s->var % 3, 0, 1, &oh); }
    gs_free(g);
  }
  comm_free(&c); sim_outcome(oh);
}
