/* C06: crystal router: every message delivered exactly once, intact */
#include "hcommon.h"
enum { ALLPAT, STRUCT };
enum { P_A2A, P_TO0, P_TOLAST, P_FROM0, P_FROMLAST, P_SHIFT1, P_SHIFTH, P_REV, P_EMPTY, P_SELF, P_MULTI, P_LARGE, P_TRI, P_ODD, P_N, P_HUGE = P_N };
static const char *pname[] = {"all-to-all", "all to rank 0", "all to last", "from rank 0", "from last", "shift by 1", "shift by np/2", "reversal", "nothing", "self only", "several messages per pair", "large messages", "upper triangle", "odd ranks to even", "tens of thousands of words"};
struct fam { int kind, np, nl; int lens[5]; u64 cnt; unsigned pol; int bound, kinds, pat; };
static struct fam F[900]; static int nf; static u64 total;
static void addp(int np, int nl, int a, int b, int c, int d, unsigned pol, int bound) { struct fam f = {ALLPAT, np, nl, {a, b, c, d}, 1, pol, bound}; for (int i = 0; i < np * np; i++) f.cnt *= nl; f.cnt *= 1; F[nf++] = f; total += f.cnt; }
static void adds(int np, int pat, unsigned pol, int bound) { struct fam f = {STRUCT, np, 0, {0}, 4, pol, bound, 0, pat}; F[nf++] = f; total += 4; }
void h_init(int tier) {
  unsigned two = PM_DEFAULT;
  for (int np = 1; np <= 40; np++) for (int p = 0; p < P_N; p++) if (tier || np <= 17 || (np + p) % 3 == 0) adds(np, p, np <= 9 ? PM_ALL : two, 0);
  addp(1, 4, -1, 0, 1, 3, PM_ALL, 0); addp(2, 4, -1, 0, 1, 3, PM_ALL, 0); addp(3, 3, -1, 0, 2, 0, two, 0); addp(4, 2, -1, 1, 0, 0, two, 0);
  if (tier) addp(3, 4, -1, 0, 1, 3, two, 0);
  for (int np = 1; np <= (tier ? 17 : 7); np++) adds(np, P_HUGE, two, 0);
  for (int np = 2; np <= (tier ? 7 : 5); np++) for (int p = 0; p < P_N; p++) adds(np, p, two, 1);
  for (int np = 2; np <= (tier ? 4 : 3); np++) for (int p = 0; p < P_N; p++) adds(np, p, two, 2);
  if (tier) for (int p = 0; p < P_N; p++) adds(2, p, two, 4), adds(3, p, PM(0), 3);
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { const struct fam *f = F; while (*i >= f->cnt) *i -= f->cnt, f++; return f; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->same = 1; c->np = f->np; c->policies = f->pol; c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = 1; c->fill = i & 3; }
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i);
  if (f->kind == STRUCT) { snprintf(b, n, "np=%d %s variant %d deviations<=%d", f->np, pname[f->pat], (int)i, f->bound); return; }
  int o = snprintf(b, n, "np=%d message lengths (src->dst; - none):", f->np); for (int k = 0; k < f->np * f->np; k++) { int l = f->lens[i % f->nl]; i /= f->nl; if (l >= 0) o += snprintf(b + o, n - o, " %d->%d:%d", k / f->np, k % f->np, l); }
}
/* number of messages s->d in a round, and their lengths */
static int nmsg(const struct fam *f, u64 i, int s, int d, int round, int *len) {
  int np = f->np;
  if (f->kind == ALLPAT) { if (round) { int t = s; s = d; d = (t + 1) % np; } int k = s * np + d; while (k--) i /= f->nl; int l = f->lens[i % f->nl]; len[0] = l; return l >= 0; }
  int v = (int)i, r = round, L = (s * 3 + d * 5 + v + r) % 7; len[0] = len[1] = len[2] = L; 
  if (r == 1) { int t = s; s = (d + 1) % np; d = t; }
  switch (f->pat) {
  case P_A2A: return 1; case P_TO0: return d == 0; case P_TOLAST: return d == np - 1; case P_FROM0: return s == 0; case P_FROMLAST: return s == np - 1;
  case P_SHIFT1: return d == (s + 1) % np; case P_SHIFTH: return d == (s + np / 2) % np; case P_REV: return d == np - 1 - s; case P_EMPTY: return 0; case P_SELF: return s == d;
  case P_MULTI: len[1] = 0; len[2] = L + 2; return (s + d + v) % 4; case P_LARGE: len[0] = (s == v % np || d == v % np) ? 700 + 37 * s + d : 0; len[1] = 300 * (v & 1); return (s + d) % 2 + 1; case P_TRI: return s <= d; case P_HUGE: len[0] = (s + v) % 3 == 0 ? 66000 + 11 * s + d : (s + v) % 3 == 1 ? 17000 + d : 3 * d; len[1] = (v & 1) * 33000; return d == (s + v) % np || d == 0 ? 1 + (s & 1) : 0; default: return (s & 1) && !(d & 1); }
}
static uint word(int s, int d, int k, int w, int r) { return (uint)hash2(((s * 64 + d) * 8 + k) * 4096 + (w & 4095), r + (w >> 12) * 16); }
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); struct comm c; world(&c); struct crystal cr; crystal_init(&cr, &c); u64 oh = 0;
  REQUIRE(cr.comm.id == (uint)p && cr.comm.np == (uint)f->np, "crystal_init: communicator has rank %u of %u, expected %d of %d", cr.comm.id, cr.comm.np, p, f->np);
  for (int r = 0; r < 3; r++) {
    int len[3]; size_t n = 0, exp_n = 0; int np = f->np;
    for (int d = 0; d < np; d++) { int m = nmsg(f, i, p, d, r, len); for (int k = 0; k < m; k++) n += 3 + len[k]; m = nmsg(f, i, d, p, r, len); for (int k = 0; k < m; k++) exp_n += 3 + len[k]; }
    if (cr.data.max < n * sizeof(uint)) buffer_reserve(&cr.data, n * sizeof(uint));
    uint *q = cr.data.ptr; cr.data.n = n;
    for (int dd = 0; dd < np; dd++) { int d = (r & 1) ? np - 1 - dd : (dd + p) % np; int m = nmsg(f, i, p, d, r, len); for (int k = 0; k < m; k++) { *q++ = d; *q++ = p; *q++ = len[k]; for (int w = 0; w < len[k]; w++) *q++ = word(p, d, k, w, r); } }
    crystal_router(&cr); sim_steps(1);
    REQUIRE(cr.data.n == exp_n, "round %d: %zu words after routing, expected %zu", r, (size_t)cr.data.n, exp_n);
    unsigned char got[40] = {0}; uint *e = (uint *)cr.data.ptr + cr.data.n; u64 sum = 0;
    for (q = cr.data.ptr; q != e;) {
      REQUIRE(e - q >= 3 && q[2] <= (uint)(e - q - 3), "round %d: message header is damaged", r);
      REQUIRE(q[0] == (uint)p, "round %d: holds a message for rank %u", r, q[0]); REQUIRE(q[1] < (uint)np, "round %d: source %u out of range", r, q[1]);
      int s = q[1], m = nmsg(f, i, s, p, r, len), hit = -1;
      for (int k = 0; k < m && hit < 0; k++) if (!(got[s] >> k & 1) && len[k] == (int)q[2]) { int ok = 1; for (int w = 0; w < len[k]; w++) ok &= q[3 + w] == word(s, p, k, w, r); if (ok) hit = k; }
      REQUIRE(hit >= 0, "round %d: message from %d of %u words was never sent in this form (or arrived twice)", r, s, q[2]);
      got[s] |= 1 << hit; sum += hash2(s, hit); q += 3 + q[2];
    }
    for (int s = 0; s < np; s++) { int m = nmsg(f, i, s, p, r, len); REQUIRE(got[s] == (1 << m) - 1, "round %d: message from %d is missing", r, s); }
    oh = hmix(oh, sum);
    for (int s = 0; s < np; s++) REQUIRE(cr.data.max >= cr.data.n * sizeof(uint), "buffer capacity");
  }
  crystal_free(&cr); comm_free(&c); sim_outcome(oh); sim_state(oh);
}
