/* C09: reductions, scans, dot product, broadcast, gather; on the world, duplicated and split communicators */
#include "gs_common.h"
enum { P_VALS, P_STRUCT, P_LONG /* long vectors */ };
#ifdef HAVE_LL
#define DOMRED default: *(long long *)got = comm_reduce_long_long(&c, f->op, (long long *)v, n);
#else
#define DOMRED default:;
#endif
struct fam { int kind, np, dom, op, bound, split; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static void add(int kind, int np, int dom, int op, int bound, int split, u64 cnt) { if (dom >= gs_dom_n) return; if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = (struct fam){kind, np, dom, op, bound, split, cnt}; start[nf] = total; total += cnt; start[++nf] = total; }
#define NSPLIT 6
static const char *spn[] = {"world", "dup", "split parity", "split halves, reversed order", "split thirds", "split singletons"};
void h_init(int tier) {
  nf = 0; total = 0;
  for (int np = 1; np <= (tier ? 33 : 17); np++) for (int d = 0; d < gs_dom_n; d++) for (int o = 0; o < 5; o++) for (int s = 0; s < (np <= 9 ? NSPLIT : 2); s++) add(P_STRUCT, np, d, o, 0, s, 8);
  for (int np = tier ? 34 : 18; np <= 40; np++) for (int d = 0; d < gs_dom_n; d++) for (int o = 0; o < 5; o++) if (tier || (d + o + np) % 5 == 0) add(P_STRUCT, np, d, o, 0, np % 6, tier ? 8 : 2);
  for (int np = 1; np <= (tier ? 17 : 9); np++) for (int d = 0; d < gs_dom_n; d++) for (int o = 0; o < 5; o++) if (tier || (d + o + np) % 5 == 0) add(P_LONG, np, d, o, 0, np % 3, 2);
  for (int np = 1; np <= (tier ? 6 : 5); np++) for (int d = 0; d < gs_dom_n; d++) for (int o = 0; o < 5; o++) if (np <= 4 || d == (np % 3 + o) % 5) add(P_VALS, np, d, o, 0, 0, ipow(4, np));
  for (int np = 2; np <= (tier ? 7 : 5); np++) for (int o = 0; o < 5; o += 2) for (int s = 0; s < NSPLIT; s += 2) add(P_STRUCT, np, o, o, 1, s, 8);
  for (int np = 2; np <= (tier ? 4 : 3); np++) for (int o = 0; o < 5; o += 4) add(P_STRUCT, np, gs_long, o, 2, 0, np == 2 || tier ? 8 : 2);
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->same = 1; c->np = f->np; c->policies = f->kind == P_STRUCT && f->np <= 7 && f->bound < 2 ? PM_ALL : PM_DEFAULT; c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = 1; c->fill = i & 3; }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d %s dom %s op %s deviations<=%d ", f->np, spn[f->split], dname[f->dom], opname[f->op], f->bound); if (f->kind != P_VALS) snprintf(b + o, n - o, "%svalue pattern %d", f->kind == P_LONG ? "long vectors, " : "", (int)i); else { o += snprintf(b + o, n - o, "values"); for (int p = 0; p < f->np; p++) o += snprintf(b + o, n - o, " #%d", dig(&i, 4)); } }
static const struct fam *f; static u64 pat;
static long long value(int r, int k) {
  int np = f->np;
  if (f->kind == P_VALS) { u64 x = pat; for (int q = 0; q < r; q++) x /= 4; static const long long t[5][4] = {{0, 1, 5, -3}, {1, -1, 2, 3}, {0, -7, 7, 100}, {0, -7, 7, 100}, {0, 1, 6, 13}}; return t[f->op][(x + k) % 4]; }
  if (f->op == gs_bpr) return (hash2(pat, k) & 1) ? 0x600 + (hash2(r, k + pat) & 0xff) : 1 + (hash2(r, pat) & 0x3f);
  if (f->op == gs_mul) return r % (pat + 2) == k % (pat + 2) ? 2 : r % 5 == 1 ? -1 : 1;
  if (f->op == gs_add) return np <= 20 ? (1LL << r) + (pat == 3 ? -5 : (long long)pat) : (long long)(hash2(r, k + 7 * pat) & 0x3fff) - 100;
  return (long long)(hash2(r + 1, pat * 16 + k) % 2001) - 1000;
}
static int mem[SIM_MAXNP], nmem, me; /* members of the communicator, in order */
/* fold values of members lo..hi-1, entry k */
static void ref(void *out, int lo, int hi, int k) { ident(out, f->dom, f->op); for (int q = lo; q < hi; q++) fold(out, f->dom, f->op, value(mem[q], k)); }
#define EQ(what, ptr, j, lo, hi, k) do { long long ex[2]; ref(ex, lo, hi, k); if (memcmp((char *)(ptr) + (j) * dsz[f->dom], ex, dsz[f->dom])) sim_violation("%s: dom %s op %s length %d: entry %d is %.17g, expected %.17g", what, dname[f->dom], opname[f->op], vn, k, asd(ptr, j, f->dom), asd(ex, 0, f->dom)); oh = hbytes(oh, (char *)(ptr) + (j) * dsz[f->dom], dsz[f->dom]); } while (0)
static void ext(void *u, int i, int dom, int hi) {
#define X(T, a, b) ((T *)u)[i] = hi ? b : a;
  switch (dom) { DOMCASE(X) default: break; }
#undef X
}
void h_rank(uint64_t idx, int p) {
  f = get(&idx); pat = idx; struct comm w, c; world(&w); u64 oh = 0; int np = f->np; size_t ds = dsz[f->dom];
  int col = 0, key = 0; nmem = 0;
  for (int q = 0; q < np; q++) { int cq = 0; switch (f->split) { case 2: cq = q & 1; break; case 3: cq = q < (np + 1) / 2; break; case 4: cq = q % 3; break; case 5: cq = q; } if (q == p) col = cq; }
  for (int q = 0; q < np; q++) { int cq = 0; switch (f->split) { case 2: cq = q & 1; break; case 3: cq = q < (np + 1) / 2; break; case 4: cq = q % 3; break; case 5: cq = q; } if (cq == col) mem[nmem++] = q; }
  key = p; if (f->split == 3) { key = -p; for (int a = 0, b = nmem - 1; a < b; a++, b--) { int t = mem[a]; mem[a] = mem[b]; mem[b] = t; } }
  for (int q = 0; q < nmem; q++) if (mem[q] == p) me = q;
  if (f->split == 0) c = w; else if (f->split == 1) comm_dup(&c, &w); else comm_split(&w, col, key, &c);
  REQUIRE(c.id == (uint)me && c.np == (uint)nmem, "%s: rank %u of %u, expected %d of %d", spn[f->split], c.id, c.np, me, nmem);
  static const int longvn[] = {255, 600, 4097, 9001, 33000};
  for (int vi = 0; vi <= (f->bound ? 2 : 4); vi++) {
    int vn = f->kind == P_LONG ? longvn[vi] : vi;
    if (f->bound > 1 && vn != 2) continue;
    char *v = sim_alloc(vn * ds), *buf = sim_alloc(vn * ds), *sc = sim_alloc(2 * vn * ds), *sb = sim_alloc(2 * vn * ds);
    for (int k = 0; k < vn; k++) put(v, k, f->dom, value(p, k));
    comm_scan(sc, &c, f->dom, f->op, v, vn, sb);
    for (int k = 0; k < vn; k++) { EQ("comm_scan, exclusive prefix", sc, k, 0, me, k); EQ("comm_scan, total", sc, vn + k, 0, nmem, k); long long x[2]; put(x, 0, f->dom, value(p, k)); REQUIRE(!memcmp(v + k * ds, x, ds), "comm_scan modified its input"); }
    comm_allreduce(&c, f->dom, f->op, v, vn, buf); for (int k = 0; k < vn; k++) EQ("comm_allreduce", v, k, 0, nmem, k);
#ifndef NO_NBC
    for (int k = 0; k < vn; k++) put(v, k, f->dom, value(p, k));
    memset(buf, 0x77, vn * ds); comm_req r; comm_iallreduce(&r, &c, f->dom, f->op, v, vn, buf);
    if (pat & 1) { double q = 1, qb; comm_allreduce(&c, gs_double, gs_add, &q, 1, &qb); REQUIRE(q == nmem, "reduction overlapping comm_iallreduce: %g", q); }
    comm_wait(&r, 1); for (int k = 0; k < vn; k++) EQ("comm_iallreduce", buf, k, 0, nmem, k); sim_steps(1);
#endif
    free(v); free(buf); free(sc); free(sb); sim_steps(2);
  }
  if (f->bound < 2) {
    /* reductions over local arrays of different lengths: members contribute nloc entries */
    for (int var = 0; var < 4; var++) { if (var == 3 && (f->kind != P_LONG || f->op == gs_mul)) break;
#define NLOC(q) (var == 0 ? 0 : var == 1 ? ((q) % 3) : var == 2 ? 1 + (int)(pat + (q)) % 4 : 1500 + 257 * (q))
      int vn = 1, n = NLOC(p);
      char *v = sim_alloc(n * ds); for (int k = 0; k < n; k++) put(v, k, f->dom, value(p, k));
      long long ex[2], got[2]; ident(ex, f->dom, f->op);
      for (int q = 0; q < nmem; q++) { int m = NLOC(mem[q]); for (int k = 0; k < m; k++) { fold(ex, f->dom, f->op, value(mem[q], k)); } }
      if (f->op == gs_mul) { double pr = 1; for (int q = 0; q < nmem; q++) { int m = NLOC(mem[q]); for (int k = 0; k < m; k++) pr *= value(mem[q], k); } if (fabs(pr) > 16e6) { free(v); continue; } }
      if ((pat & 1) && f->dom == gs_sint && !((pat & 2) && f->dom == gs_slong)) { sint x = comm_reduce_sint(&c, f->op, (sint *)v, n); memcpy(got, &x, ds); }
      else if ((pat & 1) && f->dom == gs_slong) { slong x = comm_reduce_slong(&c, f->op, (slong *)v, n); memcpy(got, &x, ds); }
      else switch (f->dom) { case gs_double: *(double *)got = comm_reduce_double(&c, f->op, (double *)v, n); break; case gs_float: *(float *)got = comm_reduce_float(&c, f->op, (float *)v, n); break; case gs_int: *(int *)got = comm_reduce_int(&c, f->op, (int *)v, n); break; case gs_long: *(long *)got = comm_reduce_long(&c, f->op, (long *)v, n); break; DOMRED }
      if (memcmp(ex, got, ds)) sim_violation("comm_reduce_%s op %s, %d local entries: %.17g, expected %.17g", dname[f->dom], opname[f->op], n, asd(got, 0, f->dom), asd(ex, 0, f->dom)); oh = hbytes(oh, got, ds); (void)vn; free(v); sim_steps(1);
    }
    if (f->op == gs_min || f->op == gs_max) { long long v[4], b[4]; ext(v, 0, f->dom, me % 2); ext(v, 1, f->dom, f->op == gs_min); ext(v, 2, f->dom, f->op != gs_min); long long e[4]; memcpy(e, v, sizeof v); ext(e, 0, f->dom, f->op == gs_min ? nmem == 1 && me % 2 : nmem > 1); comm_allreduce(&c, f->dom, f->op, v, 3, b); REQUIRE(!memcmp(v, e, 3 * ds), "comm_allreduce of extreme values dom %s op %s", dname[f->dom], opname[f->op]); char s1[64], s2[64]; ext(v, 0, f->dom, f->op == gs_min); comm_scan(s1, &c, f->dom, f->op, v, 1, s2); ext(e, 0, f->dom, f->op == gs_min); REQUIRE(!memcmp(s1, e, ds) && !memcmp(s1 + ds, e, ds), "comm_scan of extreme values dom %s op %s", dname[f->dom], opname[f->op]); sim_steps(2); }
    {
#define NDOT(q) (f->kind == P_LONG ? 700 + 300 * (q) : (int)((q) * 3 + pat) % 7)
      int n = NDOT(me); double *a = sim_alloc(n * 8), *b = sim_alloc(n * 8), s = 0; for (int k = 0; k < n; k++) a[k] = p + 2. * k - 3, b[k] = 5. - k + (double)pat; for (int q = 0; q < nmem; q++) { int m = NDOT(q); for (int k = 0; k < m; k++) s += (mem[q] + 2. * k - 3) * (5. - k + pat); } double d = comm_dot(&c, a, b, n); REQUIRE(d == s, "comm_dot: %.17g, expected %.17g", d, s); free(a); free(b); sim_steps(1); }
    if (f->kind == P_LONG) for (int root = 0; root < nmem; root += 2) { int nb = 70001 + 13 * root; char *b = sim_alloc(nb); for (int k = 0; k < nb; k++) b[k] = me == root ? (char)hash2(root, k) : -1; comm_bcast(&c, b, nb, root); for (int k = 0; k < nb; k++) REQUIRE(b[k] == (char)hash2(root, k), "comm_bcast of %d bytes from %d: byte %d", nb, root, k); free(b);
      int n = 9000; int *o = sim_alloc(4 * n), *in = sim_alloc(me == root ? 4ul * n * nmem : 0); for (int k = 0; k < n; k++) o[k] = (int)hash2(p, k); comm_gather(&c, o, 4 * n, in, 4 * n, root); if (me == root) for (int q = 0; q < nmem; q++) for (int k = 0; k < n; k++) REQUIRE(in[q * n + k] == (int)hash2(mem[q], k), "comm_gather of %d bytes to %d: entry %d of rank %d", 4 * n, root, k, q); free(o); free(in); sim_steps(2); }
    for (int root = 0; root < nmem; root++) { char *b = sim_alloc(5); for (int k = 0; k < 5; k++) b[k] = me == root ? 10 * root + k : -1; comm_bcast(&c, b, 5, root); for (int k = 0; k < 5; k++) REQUIRE(b[k] == 10 * root + k, "comm_bcast from %d", root); free(b);
      int *o = sim_alloc(8), *in = sim_alloc(me == root ? 8 * nmem : 0); o[0] = p; o[1] = 100 + me; comm_gather(&c, o, 8, in, 8, root); if (me == root) for (int q = 0; q < nmem; q++) REQUIRE(in[2 * q] == mem[q] && in[2 * q + 1] == 100 + q, "comm_gather to %d: entry %d", root, q); free(o); free(in); sim_steps(2); if (np > 5 && root == 1) break; }
    comm_barrier(&c);
    if (nmem > 1) { long out = 7000 + me, in = -1, in2 = -1; int nx = (me + 1) % nmem, pv = (me + nmem - 1) % nmem; comm_req r[2]; comm_irecv(&r[0], &c, &in, sizeof in, pv, 5); comm_isend(&r[1], &c, &out, sizeof out, nx, 5); comm_wait(r, 2); REQUIRE(in == 7000 + pv, "isend/irecv around the ring: %ld", in); if (me % 2 == 0 && me + 1 < nmem) comm_send(&c, &out, sizeof out, me + 1, 9); if (me % 2) { comm_recv(&c, &in2, sizeof in2, me - 1, 9); REQUIRE(in2 == 7000 + me - 1, "send/recv: %ld", in2); } sim_steps(2); }
  }
  if (f->split) comm_free(&c);
  comm_free(&w); sim_outcome(oh); sim_state(oh);
}
