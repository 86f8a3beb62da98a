/* C24: Fortran point location: handles, dimensions, sessions, invalid calls */
#include "hcommon.h"
#include "fort.h"
enum { K_HIST, K_MANYLIVE, K_BADH, K_BADARG };
struct fam { int kind, np, len; u64 cnt; };
static struct fam F[64]; static int nf; static u64 total;
#define NOP 10
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static void add(int kind, int np, int len, u64 cnt) { F[nf++] = (struct fam){kind, np, len, cnt}; total += cnt; }
static const sint ND[] = {0, 1, 4, -1, 5, 1000000, INT_MIN, 22};
#define NNP 6 /* wrong process counts */
void h_init(int tier) {
  for (int l = 1; l <= (tier ? 6 : 5); l++) add(K_HIST, 1, l, ipow(NOP, l));
  for (int l = 2; l <= (tier ? 5 : 4); l++) add(K_HIST, 2, l, ipow(NOP, l));
  for (int l = 2; l <= (tier ? 4 : 3); l++) add(K_HIST, 3, l, ipow(NOP, l));
  for (int np = 1; np <= 3; np++) add(K_MANYLIVE, np, 0, 16 * 4);
  add(K_BADH, 1, 0, 8 * 9 * 10 * 4); /* entry point x which x live handles x kinds of the live handles */
  for (int np = 1; np <= 3; np++) add(K_BADARG, np, 0, 2 * (8 + 2 * NNP));
}
u64 h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { for (int k = 0; k < nf; k++) { if (*i < F[k].cnt) return &F[k]; *i -= F[k].cnt; } abort(); }
static const char *kn[] = {"history", "many live handles", "invalid handle", "invalid argument"};
static const char *opn[NOP] = {"setup 2-D", "setup 3-D", "setup sessions 2-D", "setup sessions 3-D", "free oldest", "free newest", "use oldest", "use newest", "setup 2-D, other orders", "free middle"};
void h_case(u64 i, struct hcase *c) { const struct fam *f = get(&i); c->np = f->np; c->policies = f->kind == K_HIST && f->np > 1 ? PM(POL_EAGER_EARLY) | PM(POL_RDV_LATE) : PM(0); c->fill = i & 3; c->check_stray = c->check_leaks = f->kind < K_BADH; c->expect_exit = f->kind >= K_BADH; c->same = 1; }
void h_describe(u64 i, char *b, size_t n) { const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d %s %d", f->np, kn[f->kind], (int)i); if (f->kind == K_HIST) for (int k = 0; k < f->len && o < (int)n; k++) o += snprintf(b + o, n - o, "%s%s", k ? ", " : ": ", opn[dig(&i, NOP)]); }
/* object number k: a row of unit boxes, one or two on each rank, at its own place; the field is 1000 (k+1) + x + 3 y + 7 z */
struct ob { sint h; int k, nd, ms, nel; sint n[3]; double *x[3], *f, *df; uint sid; };
static MPI_Fint fw;
static double X0(const struct ob *o) { return 40. * o->k - 100; }
static void mk(struct ob *o, int k, int nd, int ms, int alt, int p, int np) {
  memset(o, 0, sizeof *o); o->k = k; o->nd = nd; o->ms = ms; o->nel = 1 + (p + k) % 2; o->n[0] = alt ? 4 : 3; o->n[1] = alt ? 2 : 3; o->n[2] = nd == 3 ? 2 : 1; o->sid = p + 1;
  static const double z2[] = {0, 1}, z3[] = {0, .5, 1}, z4[] = {0, .27639320225002106, .72360679774997894, 1}; const double *Z[] = {0, 0, z2, z3, z4};
  int nt = o->n[0] * o->n[1] * o->n[2], e, a, b, c; for (int d = 0; d < 3; d++) o->x[d] = sim_alloc(8 * (d < nd ? o->nel * nt : 0)); o->f = sim_alloc(8 * o->nel * nt); o->df = sim_alloc(8 * o->nel * nt);
  for (e = 0; e < o->nel; e++) for (c = 0; c < o->n[2]; c++) for (b = 0; b < o->n[1]; b++) for (a = 0; a < o->n[0]; a++) { int i = ((e * o->n[2] + c) * o->n[1] + b) * o->n[0] + a; double x = X0(o) + 2 * p + e + Z[o->n[0]][a], y = Z[o->n[1]][b] - k, z = nd == 3 ? z2[c] + k : 0; o->x[0][i] = x; o->x[1][i] = y; if (nd == 3) o->x[2][i] = z; o->f[i] = 1000 * (k + 1) + x + 3 * y + 7 * z; o->df[i] = p; }
  sint np_ = np, nd_ = nd, nel = o->nel, m[3] = {2 * o->n[0], 2 * o->n[1], 2 * o->n[2]}, lh = 40, gh = 30, nm = 5, junk = -99; double bt = 0.01, nt_ = 1e-12, jz = 0; const sint *n3 = nd == 3 ? &o->n[2] : &junk, *m3 = nd == 3 ? &m[2] : &junk; const double *zz = nd == 3 ? o->x[2] : &jz; o->h = -7;
  if (ms) fgslib_findptsms_setup_(&o->h, &fw, &np_, &nd_, o->x[0], o->x[1], zz, &o->n[0], &o->n[1], n3, &nel, &m[0], &m[1], m3, &bt, &lh, &gh, &nm, &nt_, &o->sid, o->df);
  else fgslib_findpts_setup_(&o->h, &fw, &np_, &nd_, o->x[0], o->x[1], zz, &o->n[0], &o->n[1], n3, &nel, &m[0], &m[1], m3, &bt, &lh, &gh, &nm, &nt_);
}
static void rm(struct ob *o) { if (o->ms) fgslib_findptsms_free_(&o->h); else fgslib_findpts_free_(&o->h); }
static void mem(struct ob *o) { for (int d = 0; d < 3; d++) free(o->x[d]); free(o->f); free(o->df); }
static void use(struct ob *o, int p, int np, const char *when) { /* locate one point in every box, one outside, one in the place of the next object; evaluate */
  enum { Q = 12 }; sint code[Q], proc[Q], el[Q], one = 1, r3 = o->nd, n = 0, xs = 1, js = 1 << 20; double r[Q * 3], d2[Q], x[Q], y[Q], z[Q], out[Q], jz = 0; uint ss[Q], us = 1, match = 0; int own[Q], oe[Q];
  for (int s = 0; s < np; s++) for (int e = 0; e < 1 + (s + o->k) % 2; e++) { x[n] = X0(o) + 2 * s + e + .3 + .01 * p; y[n] = .6 - o->k; z[n] = .7 + o->k; own[n] = s; oe[n] = e; ss[n] = 0; n++; }
  for (int q = 0; q < 3; q++) { x[n] = q == 0 ? X0(o) - 5 : q == 1 ? X0(o) + 40.3 : X0(o) + .3; y[n] = q == 2 ? 5. - o->k : .6 - o->k - (q == 1); z[n] = .7 + o->k + (q == 1); own[n] = -1; ss[n] = 0; n++; }
  for (int i = 0; i < Q; i++) { code[i] = 77; proc[i] = el[i] = 888; out[i] = -5.5; for (int d = 0; d < 3; d++) r[i * r3 + d < Q * 3 ? i * r3 + d : 0] = -3; }
  const double *zz = o->nd == 3 ? z : &jz; const sint *zs = o->nd == 3 ? &xs : &js;
  if (o->ms) { fgslib_findptsms_(&o->h, code, &one, proc, &one, el, &one, r, &r3, d2, &one, x, &xs, y, &xs, zz, zs, ss, &us, &match, &n); fgslib_findptsms_eval_(&o->h, out, &one, code, &one, proc, &one, el, &one, r, &r3, &n, o->f); }
  else { fgslib_findpts_(&o->h, code, &one, proc, &one, el, &one, r, &r3, d2, &one, x, &xs, y, &xs, zz, zs, &n); fgslib_findpts_eval_(&o->h, out, &one, code, &one, proc, &one, el, &one, r, &r3, &n, o->f); }
  for (int i = 0; i < n; i++) { if (own[i] < 0) { REQUIRE(code[i] == 2, "%s: handle %d: point outside its mesh has code %d", when, o->h, code[i]); REQUIRE(out[i] == -5.5, "%s: handle %d: output of an unfound point written", when, o->h); continue; }
    REQUIRE(code[i] == 0 && proc[i] == own[i] && el[i] == oe[i], "%s: handle %d (%d-D%s): point of element %d on process %d: code %d process %d element %d", when, o->h, o->nd, o->ms ? " sessions" : "", oe[i], own[i], code[i], proc[i], el[i]);
    double v = 1000 * (o->k + 1) + x[i] + 3 * y[i] + (o->nd == 3 ? 7 * z[i] : 0); REQUIRE(fabs(out[i] - v) < 1e-8 && d2[i] < 1e-16, "%s: handle %d: value %.17g, expected %.17g (squared distance %g)", when, o->h, out[i], v, d2[i]); }
  if (o->ms) { /* restricted to one session, and excluding it */
    for (int w = 0; w < 2; w++) { match = w; for (int i = 0; i < n; i++) { ss[i] = 1 + i % np; code[i] = 77; } fgslib_findptsms_(&o->h, code, &one, proc, &one, el, &one, r, &r3, d2, &one, x, &xs, y, &xs, zz, zs, ss, &us, &match, &n); for (int i = 0; i < n; i++) { int ok = own[i] >= 0 && ((unsigned)own[i] + 1 == ss[i]) == w; REQUIRE(code[i] == (ok ? 0 : 2), "%s: handle %d: session %u match %u: code %d for a point of session %d", when, o->h, ss[i], match, code[i], own[i] + 1); } } }
  /* local evaluation of this rank's own elements */
  for (int e = 0; e < o->nel; e++) { el[e] = e; for (int d = 0; d < o->nd; d++) r[e * r3 + d] = .5 - d * .25; out[e] = -1; } sint nl = o->nel;
  if (o->ms) fgslib_findptsms_eval_local_(&o->h, out, &one, el, &one, r, &r3, &nl, o->f); else fgslib_findpts_eval_local_(&o->h, out, &one, el, &one, r, &r3, &nl, o->f);
  for (int e = 0; e < nl; e++) { double v = 1000 * (o->k + 1) + X0(o) + 2 * p + e + .75 + 3 * (.625 - o->k) + (o->nd == 3 ? 7 * (.5 + o->k) : 0); REQUIRE(fabs(out[e] - v) < 1e-8, "%s: handle %d: local value %.17g, expected %.17g", when, o->h, out[e], v); }
  sim_steps(1);
}
#define MAXO 24
static struct ob O[MAXO]; static int no;
static void born(int k, int nd, int ms, int alt, int p, int np) { struct ob *o = &O[no]; mk(o, k, nd, ms, alt, p, np); REQUIRE(o->h >= 0, "handle %d returned", o->h); for (int q = 0; q < no; q++) REQUIRE(O[q].h != o->h, "handle %d is already live", o->h); no++; }
static void bury(int q) { rm(&O[q]); mem(&O[q]); memmove(O + q, O + q + 1, (--no - q) * sizeof *O); }
void h_rank(u64 i, int p) {
  const struct fam *f = get(&i); int np = f->np; fw = MPI_Comm_c2f(MPI_COMM_WORLD); no = 0;
  if (f->kind == K_HIST) { int k = 0; for (int s = 0; s < f->len; s++) { int op = dig(&i, NOP); switch (op) {
      case 0: case 1: case 2: case 3: case 8: born(k++, op & 1 ? 3 : 2, op == 2 || op == 3, op == 8, p, np); break;
      case 4: if (no) bury(0); break; case 5: if (no) bury(no - 1); break; case 6: if (no) use(&O[0], p, np, "in the history"); break; case 7: if (no) use(&O[no - 1], p, np, "in the history"); break; default: if (no) bury(no / 2); } }
    for (int q = 0; q < no; q++) use(&O[q], p, np, "at the end"); while (no) { bury(no / 2); for (int q = 0; q < no; q++) use(&O[q], p, np, "after freeing others"); } sim_outcome(k); return; }
  if (f->kind == K_MANYLIVE) { int n = 1 + i % 16, v = i / 16; for (int k = 0; k < n; k++) born(k, v == 0 ? 2 : v == 1 ? 3 : 2 + k % 2, v == 3 && k % 3 == 0, 0, p, np); for (int q = n; q--;) use(&O[q], p, np, "many live"); while (no) { bury(no > 3 ? 1 : 0); if (no) use(&O[no - 1], p, np, "many live, some freed"); } sim_outcome(n); return; }
  sint one = 1, junk[4] = {0}, n = 1, nd = 2, np_ = np, dim = 3; double D[32] = {0}; uint u[4] = {0}; for (int k = 0; k < 32; k++) D[k] = k;
  if (f->kind == K_BADARG) { struct ob o; int ms = i % 2; i /= 2; sint h = -1, m = 6, lh = 40, gh = 30, nm = 5, t = 3, ne = 1; double bt = .01, nt = 1e-12; (void)o;
    static double gx[27], gy[27], gz[27]; for (int k = 0; k < 27; k++) gx[k] = k % 3 * .5 + 10 * p, gy[k] = k / 3 % 3 * .5, gz[k] = k / 9 * .5;
    if (i < 8) dim = ND[i]; else { i -= 8; dim = 2 + i % 2; switch (i / 2) { case 0: np_ = np - 1; break; case 1: np_ = np + 1; break; case 2: np_ = 0; if (np == 1) np_ = 2; break; case 3: np_ = -np; break; case 4: np_ = 2 * np; break; default: np_ = np + 256; } }
    if (ms) fgslib_findptsms_setup_(&h, &fw, &np_, &dim, gx, gy, gz, &t, &t, &t, &ne, &m, &m, &m, &bt, &lh, &gh, &nm, &nt, u, gx); else fgslib_findpts_setup_(&h, &fw, &np_, &dim, gx, gy, gz, &t, &t, &t, &ne, &m, &m, &m, &bt, &lh, &gh, &nm, &nt); return; }
  /* invalid handle */
  int e = i % 8; i /= 8; int w = i % 9; i /= 9; int nl = i % 10, v = i / 10; (void)nd; sint b, mx = -1;
  for (int k = 0; k < nl; k++) { born(k, v == 0 ? 2 : v == 1 ? 3 : 2 + k % 2, v == 3, 0, p, np); if (O[k].h > mx) mx = O[k].h; }
  switch (w) { case 0: b = -1; break; case 1: b = mx + 1; break; case 2: b = mx + 2; break; case 3: b = nl ? O[0].h : 0; if (nl) bury(0); break; case 4: b = nl ? O[no - 1].h : 1; if (nl) bury(no - 1); break; case 5: b = nl ? O[no / 2].h : 5; if (nl) bury(no / 2); break; case 6: b = INT_MAX; break; case 7: b = INT_MIN; break; default: while (no) bury(0); b = mx < 0 ? 0 : mx; }
  switch (e) { case 0: fgslib_findpts_(&b, junk, &one, junk, &one, junk, &one, D, &dim, D, &one, D, &one, D, &one, D, &one, &n); break; case 1: fgslib_findpts_eval_(&b, D, &one, junk, &one, junk, &one, junk, &one, D, &dim, &n, D); break; case 2: fgslib_findpts_eval_local_(&b, D, &one, junk, &one, D, &dim, &n, D); break; case 3: fgslib_findpts_free_(&b); break;
    case 4: fgslib_findptsms_(&b, junk, &one, junk, &one, junk, &one, D, &dim, D, &one, D, &one, D, &one, D, &one, u, u + 1, u + 2, &n); break; case 5: fgslib_findptsms_eval_(&b, D, &one, junk, &one, junk, &one, junk, &one, D, &dim, &n, D); break; case 6: fgslib_findptsms_eval_local_(&b, D, &one, junk, &one, D, &dim, &n, D); break; default: fgslib_findptsms_free_(&b); }
}
