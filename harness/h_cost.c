/* C29: what operations send: messages, bytes, collectives, per destination */
#include "gs_common.h"
#include "fort.h"
#ifdef GSLIB_USE_MPI
#define FCOMM(C_) MPI_Comm_c2f((C_)->c)
#endif
enum { K_GS, K_SMALL, K_ROUTE, K_RED, K_SETUP, K_LOC, K_SCALE };
enum { P_A2A, P_TO0, P_FROM0, P_SHIFT, P_HALF, P_NONE, P_SELF, P_BIG, P_HUGE, P_N };
static const char *kname[] = {"gather-scatter", "gather-scatter (small layouts)", "routing", "reductions", "setup", "point location", "large gather-scatter"};
struct fam { int kind, np, a, b; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
#ifndef SM
#define SM 12
#define SC 8
#define SU 8
#define LS 4
#define LF 8
#define LE 6
#endif
static int lg(int n) { int k = 0; while (1 << k < n) k++; return k; }
void h_init(int tier) {
  nf = 0; total = 0;
  for (int np = 1; np <= (tier ? 33 : 17); np++) for (int s = 0; s < S_N; s++) if (tier || np <= 9 || (np + s) % 4 == 0) add((struct fam){K_GS, np, s, 0, 4 * 3});
  for (int np = 2; np <= 4; np++) { unsigned al = np == 2 ? 4 : np == 3 ? tier ? 4 : 3 : 2, mx = np == 4 ? 1 : 2; add((struct fam){K_SMALL, np, al, mx, 3 * ipow(nvec(al, mx), np)}); }
  for (int np = 1; np <= (tier ? 40 : 33); np++) for (int q = 0; q < P_N; q++) if (q != P_HUGE || np <= 9) add((struct fam){K_ROUTE, np, q, 0, 4});
  for (int np = 1; np <= 40; np++) add((struct fam){K_RED, np, 0, 0, 25});
  for (int np = 1; np <= (tier ? 33 : 17); np++) for (int s = 0; s < S_N; s++) add((struct fam){K_SETUP, np, s, 0, 6 * 3});
  for (int np = 25; np <= 40; np += 15) for (int s = 0; s < S_N; s++) if (s == S_RING || s == S_HALVES || s == S_LONGVEC) add((struct fam){K_SETUP, np, s, 0, 6});
  for (int np = 1; np <= (tier ? 33 : 17); np++) add((struct fam){K_LOC, np, 0, 0, 8});
  add((struct fam){K_LOC, 40, 0, 0, 8}); for (int np = 2; np <= (tier ? 5 : 3); np++) add((struct fam){K_LOC, np, 1, 0, 8});
  for (int np = 2; np <= (tier ? 7 : 4); np++) for (int k = 0; k < 3; k++) for (int n = 0; n < 3; n++) add((struct fam){K_SCALE, np, k, n, 3});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->np = f->np; c->policies = f->np <= 5 ? PM_DEFAULT : PM(i % POL_N); c->check_stray = 1; c->fill = i & 3; }
static void mklay(const struct fam *f, u64 i, struct lay *L) { memset(L, 0, sizeof *L); if (f->kind != K_SMALL) { lay_struct(L, f->a, f->np, i & 3); return; } L->np = f->np; u64 m = nvec(f->a, f->b); for (int p = 0; p < f->np; p++) { L->n[p] = getvec(i % m, f->a, L->id[p], ALPH); i /= m; } lay_fin(L); }
static const int METH[] = {gs_pairwise, gs_crystal_router, gs_all_reduce};
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); int o = snprintf(b, n, "%s np=%d ", kname[f->kind], f->np); struct lay L;
  switch (f->kind) {
  case K_GS: case K_SMALL: o += snprintf(b + o, n - o, "%s ids ", mname[METH[i % 3]]); mklay(f, i / 3, &L); lay_desc(&L, b + o, n - o); break;
  default: snprintf(b + o, n - o, "pattern %d variant %d", f->a, (int)i);
  }
}
/* one operation: what did this rank send? */
static struct sim_cost c0, d_;
static void from(void) { sim_cost(&c0); }
static void upto(void) { sim_cost(&d_); for (int q = 0; q < SIM_MAXNP; q++) d_.msgs[q] -= c0.msgs[q], d_.bytes[q] -= c0.bytes[q]; d_.colls -= c0.colls; d_.collbytes -= c0.collbytes; d_.comms -= c0.comms; sim_steps(1); }
static u64 msgs(void) { u64 s = 0; for (int q = 0; q < SIM_MAXNP; q++) s += d_.msgs[q]; return s; }
static u64 bytes(void) { u64 s = 0; for (int q = 0; q < SIM_MAXNP; q++) s += d_.bytes[q]; return s; }
static int holds(const struct lay *L, int q, slong a, int unflagged) { for (int j = 0; j < L->n[q]; j++) if (L->id[q][j] == a || (!unflagged && L->id[q][j] == -a)) return 1; return 0; }
/* number of different ids rank p holds (t = 0: unflagged) that rank q holds too (t = 1: unflagged): those whose value p owes q; t = 2: flags ignored */
static int common(const struct lay *L, int p, int q, int t) { int n = 0; for (int i = 0; i < L->n[p]; i++) { slong a = llabs(L->id[p][i]); int dup = !a; for (int j = 0; j < i; j++) dup |= llabs(L->id[p][j]) == a; if (!dup && (t || holds(L, p, a, 1)) && holds(L, q, a, t == 1)) n++; } return n; }
/* number of different ids held by two ranks or more */
static int sharedids(const struct lay *L) { static slong s[SIM_MAXNP * LN]; int n = 0; for (int p = 0; p < L->np; p++) for (int i = 0; i < L->n[p]; i++) { slong a = llabs(L->id[p][i]); int dup = !a, k = 0; for (int j = 0; j < n && !dup; j++) dup = s[j] == a; if (dup) continue; for (int q = 0; q < L->np; q++) k += holds(L, q, a, 0); if (k > 1) s[n++] = a; } return n; }
static void gsop(const struct lay *L, int p, int meth, struct gs_data *g, const int (*sh)[SIM_MAXNP], int tot, int mode, int vn, int dom, int op, int t, int nb, u64 *oh) {
  struct udata U; ud_alloc(&U, L, p, mode, vn, dom, op, eval_); int np = L->np, st = lg(np); u64 unit = (u64)dsz[dom] * U.vn; buffer b; buffer_init(&b, 1);
  from(); if (nb) { int h = ud_start(&U, op, t, g, &b); gs_wait(h); } else ud_run(&U, op, t, g, &b); upto();
  char what[100]; snprintf(what, sizeof what, "%s%s, %d %s, transpose %d", nb ? "nonblocking " : "", modename[mode], U.vn, dname[dom], t);
  REQUIRE(d_.comms == 0, "%s: creates communicators", what);
  switch (meth) {
  case gs_pairwise:
    REQUIRE(d_.colls == 0, "%s: pairwise operation makes %d collective calls", what, (int)d_.colls);
    for (int q = 0; q < np; q++) { int m = q == p ? 0 : sh[t][q]; REQUIRE(d_.msgs[q] <= (u64)!!m, "%s: %d messages to rank %d, which needs %d values", what, (int)d_.msgs[q], q, m); REQUIRE(d_.bytes[q] <= unit * m, "%s: %d bytes to rank %d, which needs %d values", what, (int)d_.bytes[q], q, m); }
    break;
  case gs_crystal_router:
    REQUIRE(d_.colls == 0, "%s: crystal-router operation makes %d collective calls", what, (int)d_.colls);
    REQUIRE(msgs() <= (u64)st, "%s: %d messages for %d processes", what, (int)msgs(), np); REQUIRE(bytes() <= unit * st * tot, "%s: %d bytes for %d shared ids", what, (int)bytes(), tot); break;
  default: /* one reduction: by the message layer, or by hand along a tree */
    REQUIRE(d_.colls <= 1 && d_.collbytes <= unit * tot, "%s: %d collective calls with %d bytes for %d ids", what, (int)d_.colls, (int)d_.collbytes, tot);
    if (d_.colls || op != gs_bpr) REQUIRE(msgs() == 0, "%s: %d messages besides the reduction", what, (int)msgs()); else REQUIRE(msgs() <= (u64)st + 1 && bytes() <= unit * tot * (st + 1), "%s: %d messages with %d bytes", what, (int)msgs(), (int)bytes());
  }
  *oh = hmix(*oh, msgs() * 1000003 + bytes() * 31 + d_.collbytes); buffer_free(&b); ud_check(&U, L, p, op, t, "cost", eval_, 0, ""); ud_free(&U);
}
#ifdef NO_NBC
#define NBOK (meth != gs_all_reduce)
#else
#define NBOK 1
#endif
struct rec { double v[3]; uint p; };
static int npair(int pat, int s, int d, int np, int v) { switch (pat) { case P_A2A: return 1; case P_TO0: return d == 0 ? 2 : 0; case P_FROM0: return s == 0 ? 2 : 0; case P_SHIFT: return d == (s + 1 + v) % np; case P_HALF: return s < np / 2 && d >= np / 2; case P_NONE: return 0; case P_SELF: return s == d ? 3 : 0; case P_HUGE: return d == (s + 1 + v) % np && s < 4; default: return (s + d + v) % 3 == 0 ? 40 + 10 * v : 0; } }
#define HUGE_ 70001
static int nrec(int pat, int s, int d, int np, int v) { return npair(pat, s, d, np, v) * (pat == P_HUGE ? HUGE_ / 10 : 1); }
/* routing: no rank sends more than two messages per stage, and no word makes more hops than there are stages */
static void routed(const char *what, int np, int rounds, u64 own, u64 dirs) {
  int st = lg(np); upto(); u64 loc[2] = {bytes(), own}, all[2]; if (np > 1) MPI_Allreduce(loc, all, 2, MPI_LONG, MPI_SUM, MPI_COMM_WORLD); else memcpy(all, loc, sizeof all); (void)dirs;
  REQUIRE(d_.colls == 0 && d_.comms == 0, "%s: %d collective calls", what, (int)(d_.colls + d_.comms));
  REQUIRE(msgs() <= 2ul * st * rounds, "%s: %d messages from one of %d processes", what, (int)msgs(), np);
  REQUIRE(all[0] <= st * (all[1] + (u64)rounds * np * UB), "%s: %d bytes sent by all %d processes together for %d bytes of messages", what, (int)all[0], np, (int)all[1]);
}
/* one unit box per rank and element, n points: many of them or none, all of the ranks' boxes, some outside */
#define LOCFN(D) static void loc##D(struct comm *c, int p, int np, int v, int big, u64 *oh) { \
  enum { NN = D == 3 ? 27 : 9, NQX = 5000 }; int NQ = big ? NQX : 120, st = lg(np), nel = (1 + (v & 1) * (p % 3)) * (big ? 150 : 1); double *x[3], *fld = sim_alloc(8 * NN * nel); const double *ex[3], *qb[3]; unsigned nr[3] = {3, 3, 3}, mr[3] = {6, 6, 6}, xs[3] = {8, 8, 8}; \
  for (int d = 0; d < D; d++) { x[d] = sim_alloc(8 * NN * nel); ex[d] = x[d]; for (int e = 0; e < nel; e++) for (int k = 0; k < NN; k++) { int t[3] = {k % 3, k / 3 % 3, k / 9}; x[d][e * NN + k] = 0.5 * t[d] + (d == 0 ? p : d == 1 ? e : 0); } } for (int k = 0; k < NN * nel; k++) fld[k] = k; \
  from(); struct findpts_data_##D *h = findpts_setup_##D(c, ex, nr, nel, mr, 0.01, NN * nel + 2, v & 2 ? 10 : NN * nel + 2, 64, 1e-12); upto(); u64 ms = msgs(); REQUIRE(ms <= (u64)LS * st && d_.colls <= SC && d_.comms <= 3, "findpts_setup_" #D ": %d messages, %d collective calls on %d processes", (int)ms, (int)d_.colls, np); \
  for (int r = 0; r < 3; r++) { int n = r == 0 ? NQ : r == 1 ? p == np - 1 : 0; static uint code[NQX], proc[NQX], el[NQX]; static double rr[NQX * 3], d2[NQX], q[3][NQX], out[NQX]; for (int k = 0; k < n; k++) { q[0][k] = (k * 7 % (np * 4 + 2)) / 4. + 0.1; q[1][k] = 0.3 + k % (2 + 150 * big); q[2][k] = 0.7; } for (int d = 0; d < D; d++) qb[d] = q[d]; \
    from(); findpts_##D(code, UB, proc, UB, el, UB, rr, 8 * D, d2, 8, qb, xs, n, h); upto(); ms = msgs(); REQUIRE(ms <= (u64)LF * st && d_.colls <= SC && d_.comms == 0, "findpts_" #D ": %d messages, %d collective calls for %d points on %d processes", (int)ms, (int)d_.colls, n, np); *oh = hmix(*oh, ms * 64 + bytes()); \
    from(); findpts_eval_##D(out, 8, code, UB, proc, UB, el, UB, rr, 8 * D, n, fld, h); upto(); ms = msgs(); REQUIRE(ms <= (u64)LE * st && d_.colls <= SC && d_.comms == 0, "findpts_eval_" #D ": %d messages, %d collective calls for %d points on %d processes", (int)ms, (int)d_.colls, n, np); } \
  from(); findpts_free_##D(h); upto(); REQUIRE(!msgs(), "findpts_free_" #D " sends messages"); for (int d = 0; d < D; d++) free(x[d]); free(fld); }
LOCFN(2) LOCFN(3)
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); u64 oh = 0; struct comm c; world(&c); int np = f->np, st = lg(np);
  switch (f->kind) {
  case K_GS: case K_SMALL: { struct lay L; mklay(f, i / 3, &L); int meth = METH[i % 3], sh[2][SIM_MAXNP], tot = sharedids(&L); for (int q = 0; q < np; q++) sh[0][q] = common(&L, p, q, 0), sh[1][q] = common(&L, p, q, 1);
      slong *id = ids_of(&L, p); struct gs_data *g = gs_setup(id, L.n[p], &c, 0, meth, 0); free(id);
      if (f->kind == K_SMALL) { for (int k = 0; k < 6; k++) gsop(&L, p, meth, g, sh, tot, k % 3, 1 + k % 3, k % gs_dom_n, k % 5, k & 1, NBOK && k >> 1 & 1, &oh); }
      else for (int dom = 0; dom < gs_dom_n; dom++) for (int mode = 0; mode < 3; mode++) for (int t = 0; t < 2; t++) for (int nb = 0; nb < 1 + NBOK; nb++) { if (np > 9 && (dom + mode + t + nb + i) % 3) continue; gsop(&L, p, meth, g, sh, tot, mode, mode ? (dom + mode + i) % 3 ? 2 + dom : 2 + dom + (i & 1 ? 15 : 31) : 1, dom, (dom + mode + t) % 5, t, nb, &oh); }
      gs_free(g); } break;
  case K_ROUTE: { struct crystal cr; crystal_init(&cr, &c); int v = (int)i; u64 n = 0;
      for (int r = 0; r < 2; r++) { u64 own = 0; n = 0; for (int d = 0; d < np; d++) n += npair(f->a, p, d, np, v) * (f->a == P_HUGE ? HUGE_ + 3 : 8); buffer_reserve(&cr.data, n * UB + 8); uint *q = cr.data.ptr; for (int d = 0; d < np; d++) for (int k = 0; k < npair(f->a, p, d, np, v); k++) { int l = f->a == P_HUGE ? HUGE_ : (p + d + k) % 6; *q++ = d; *q++ = p; *q++ = l; for (int w = 0; w < l; w++) *q++ = w; if (1) own += 3 + l; } cr.data.n = q - (uint *)cr.data.ptr; from(); crystal_router(&cr); routed("crystal_router", np, 1, own * UB, 0); }
      /* records: one routing; a row is the record without the processor field, rounded up to words, and a header of three words */
      struct array A; array_init(struct rec, &A, 1); for (int ext = 0; ext < 3; ext++) { u64 m = 0; for (int d = 0; d < np; d++) m += nrec(f->a, p, d, np, v); array_reserve(struct rec, &A, m); struct rec *r = A.ptr; uint *pr = sim_alloc(UB * (m + 1)); A.n = m; m = 0; for (int d = 0; d < np; d++) for (int k = 0; k < nrec(f->a, p, d, np, v); k++) memset(r + m, 0, sizeof *r), r[m].p = d, pr[m++] = d; u64 own = m * (sizeof(struct rec) + 3 * UB);
        from(); if (ext == 1) sarray_transfer_ext(struct rec, &A, pr, UB, &cr); else sarray_transfer(struct rec, &A, p, ext == 0, &cr); routed(ext == 1 ? "sarray_transfer_ext" : "sarray_transfer", np, 1, own, 0); oh = hmix(oh, bytes()); free(pr); }
      array_free(&A); crystal_free(&cr); } break;
  case K_RED: { int dom = i % 5, op = i / 5 % 5; if (dom >= gs_dom_n) break; int vn = 1 + (int)(i % 4) * 3; char *v = sim_alloc(dsz[dom] * vn), *w = sim_alloc(dsz[dom] * vn * 2), *s = sim_alloc(dsz[dom] * vn * 2); u64 unit = (u64)dsz[dom] * vn; for (int k = 0; k < vn; k++) put(v, k, dom, 1 + k); 
      from(); comm_allreduce(&c, dom, op, v, vn, w); upto(); REQUIRE(d_.comms == 0 && d_.colls <= 1 && d_.collbytes <= unit, "comm_allreduce: %d collective calls, %d bytes", (int)d_.colls, (int)d_.collbytes); REQUIRE(d_.colls ? !msgs() : msgs() <= (u64)st + 1 && bytes() <= unit * (st + 1), "comm_allreduce: %d messages, %d bytes", (int)msgs(), (int)bytes());
      for (int k = 0; k < vn; k++) put(v, k, dom, 1); from(); comm_scan(s, &c, dom, op, v, vn, w); upto(); REQUIRE(d_.colls + d_.comms == 0 || !msgs() && d_.colls == 1, "comm_scan: %d collective calls", (int)d_.colls); REQUIRE(msgs() <= 2ul * st && bytes() <= 2 * unit * 2 * st, "comm_scan: %d messages with %d bytes of one of %d processes", (int)msgs(), (int)bytes(), np);
      from(); comm_barrier(&c); upto(); REQUIRE(d_.colls <= 1 && msgs() <= (u64)st + 1, "comm_barrier: %d messages", (int)msgs());
      from(); if (dom == gs_double) { comm_reduce_double(&c, op, (double *)v, vn); upto(); REQUIRE(d_.colls <= 1 && msgs() <= (u64)st + 1, "comm_reduce: %d messages", (int)msgs()); comm_dot(&c, (double *)v, (double *)v, vn); }
      free(v); free(w); free(s); } break;
  case K_SETUP: { struct lay L; mklay(f, i / 6, &L); int meth = METH[i % 3], uniq = i / 3 % 2, nb = 0; for (int q = 0; q < np; q++) nb += q != p && common(&L, p, q, 2); slong *id = ids_of(&L, p);
      from(); struct gs_data *g = gs_setup(id, L.n[p], &c, uniq, meth, 0); upto(); oh = msgs() * 1000 + d_.colls;
      REQUIRE(msgs() <= (u64)SM * st && d_.colls <= SC && d_.comms <= 3, "gs_setup(%s, unique %d): %d messages, %d collective calls, %d communicators on %d processes", mname[meth], uniq, (int)msgs(), (int)d_.colls, (int)d_.comms, np);
      from(); gs_free(g); upto(); REQUIRE(!msgs(), "gs_free sends %d messages", (int)msgs()); from(); gs_unique(id, L.n[p], &c); upto(); REQUIRE(msgs() <= (u64)SU * st && d_.colls <= SC && d_.comms <= 3, "gs_unique: %d messages, %d collective calls, %d communicators on %d processes", (int)msgs(), (int)d_.colls, (int)d_.comms, np); free(id); } break;
  case K_LOC: if (i & 4) loc3(&c, p, np, i & 3, f->a, &oh); else loc2(&c, p, np, i & 3, f->a, &oh); break;
  case K_SCALE: { static const unsigned dim[][2] = {{20000, 1}, {3000, 12}, {300, 40}}; struct scale S = {np, f->a, dim[f->b][0], dim[f->b][1]}; int meth = METH[i]; slong *id = sc_ids(&S, p); u64 unit = 8ul * S.vn, tot = f->a == 2 ? 1 : f->a == 1 ? S.n : S.n * 3 / 5 + 1; void **a = malloc(S.vn * sizeof *a);
      from(); struct gs_data *g = gs_setup(id, S.n, &c, 0, meth, 0); upto(); REQUIRE(msgs() <= (u64)SM * st && d_.colls <= SC && d_.comms <= 3, "gs_setup(%s), %u entries: %d messages, %d collective calls on %d processes", mname[meth], S.n, (int)msgs(), (int)d_.colls, np);
      for (int mode = 1; mode < 3; mode++) for (int t = 0; t < 2; t++) { void *u = sc_alloc(&S, p, gs_double, mode, a); from(); if (mode == 1) gs_vec(u, S.vn, gs_double, gs_add, t, g, 0); else gs_many((void *const *)a, S.vn, gs_double, gs_add, t, g, 0); upto(); oh = hmix(oh, msgs() * 64 + bytes());
        if (meth == gs_pairwise) for (int q = 0; q < np; q++) REQUIRE(d_.msgs[q] <= (q != p) && d_.bytes[q] <= unit * tot && !d_.colls, "pairwise, %u components: %d messages with %d bytes to rank %d for %d shared ids", S.vn, (int)d_.msgs[q], (int)d_.bytes[q], q, (int)tot);
        else if (meth == gs_crystal_router) REQUIRE(msgs() <= (u64)st && bytes() <= unit * tot * st && !d_.colls, "crystal router, %u components: %d messages with %d bytes for %d shared ids on %d processes", S.vn, (int)msgs(), (int)bytes(), (int)tot, np);
        else REQUIRE(!msgs() && d_.colls <= 1 && d_.collbytes <= unit * tot, "all-reduce, %u components: %d messages, %d collective calls with %ld bytes for %d shared ids", S.vn, (int)msgs(), (int)d_.colls, (long)d_.collbytes, (int)tot);
        free(u); }
      from(); gs_unique(id, S.n, &c); upto(); REQUIRE(msgs() <= (u64)SU * st && d_.colls <= SC, "gs_unique, %u entries: %d messages, %d collective calls on %d processes", S.n, (int)msgs(), (int)d_.colls, np);
      gs_free(g); free(id); free(a); } break;
  }
  comm_free(&c); sim_outcome(oh); sim_state(oh);
}
