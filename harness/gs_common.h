/* id layouts and the gather/scatter oracle */
#ifndef GS_COMMON_H
#define GS_COMMON_H
#include "hcommon.h"
#define LN 48
struct lay { int np, n[SIM_MAXNP]; slong id[SIM_MAXNP][LN]; int base[SIM_MAXNP + 1]; };
static void lay_fin(struct lay *L) { int b = 0; for (int p = 0; p < L->np; p++) L->base[p] = b, b += L->n[p]; L->base[L->np] = b; }

/* vectors of length <= nmax over an alphabet of size a: index -> vector */
static u64 nvec(unsigned a, unsigned nmax) { u64 s = 0, k = 1; for (unsigned i = 0; i <= nmax; i++) s += k, k *= a; return s; }
static int getvec(u64 x, unsigned a, slong *out, const slong *alph) { unsigned n = 0; u64 k = 1; while (x >= k) x -= k, k *= a, n++; for (unsigned i = 0; i < n; i++) out[i] = alph[x % a], x /= a; return n; }
static const slong ALPH[] = {1, 2, -1, 0, -2, 3, -3};

/* structured layouts */
enum { S_ALLSAME, S_RING, S_SUBSETS, S_PAIRS, S_BIGIDS, S_LONGVEC, S_STAR, S_FLAGRING, S_HALVES, S_COLLIDE, S_N };
static const char *sname[] = {"allsame", "ring", "subsets", "pairs", "bigids", "longvec", "star", "flagring", "halves", "collide"};
static void lay_struct(struct lay *L, int kind, int np, int var) {
  L->np = np;
  for (int p = 0; p < np; p++) {
    int n = 0; slong *d = L->id[p];
    switch (kind) {
    case S_ALLSAME: d[n++] = (var & 1) && p == np - 1 ? -5 : 5; if (var & 2) d[n++] = p % 2 ? 5 : -5; break;
    case S_RING: d[n++] = p + 1; d[n++] = (p + 1) % np + 1; if (var & 1) d[n++] = 0; if (var & 2) d[n++] = p + 1; break;
    case S_SUBSETS: { int m = np > 4 ? 4 : np; for (int s = 1; s < 1 << m; s++) if (p < m ? (s >> p & 1) : (s % np == p % 3)) d[n++] = ((var >> (p % 2)) & 1 && (s + p) % 3 == 0) ? -s : s; } break;
    case S_PAIRS: for (int q = 0; q < np && n < 12; q++) if (q != p) { int a = p < q ? p : q, b = p < q ? q : p; d[n++] = (slong)(1 + a * 64 + b) * ((var & 1) && p > q ? -1 : 1); } break;
    case S_BIGIDS: { long long big[] = {1LL << 33, (1LL << 33) + 1, LLONG_MAX, LLONG_MAX - 1, (1LL << 62) + 7, 1, 255, 256, 1LL << 32, (1LL << 32) + 1, 65536, (1LL << 31)};
        for (int k = 0; k < 12; k++) if ((k + p) % 3 || (var & 1)) d[n++] = (var & 2) && (k + p) % 4 == 1 ? -BIGID(big[k]) : BIGID(big[k]); } break;
    case S_LONGVEC: for (int k = 0; k < 40; k++) { slong v = (k * 7 + p * 11 + var * 5) % 23; d[n++] = (k * p + var) % 9 == 4 ? -v : v; } break;
    case S_STAR: if (p == 0) for (int q = 1; q < np; q++) d[n++] = (var & 1) ? -q : q; else { d[n++] = p; if (var & 2) d[n++] = p; } break;
    case S_FLAGRING: d[n++] = p + 1; d[n++] = -((p + 1) % np + 1); d[n++] = -((p + 2 + var) % np + 1); break;
    case S_HALVES: d[n++] = p < np / 2 ? 1 : 2; d[n++] = p < (np + 1) / 2 ? 3 : (var & 1 ? -3 : 4); if (p == np - 1 || p == 0) d[n++] = 9; break;
    case S_COLLIDE: { /* ids equal in their low (or high) halves, interleaved and repeated */
        long long lo[] = {1, (1LL << 32) + 1, (1LL << 33) + 1, 1LL << 32, 1LL << 33, 65537, (1LL << 48) + 1, (1LL << 48) + 65537};
        for (int k = 0; k < 16; k++) { slong v = BIGID(lo[(k * 3 + (k >> 3) + p + var) & 7]); if ((k + p) % 5 == 3) continue; d[n++] = (var & 1) && (k * 5 + p) % 7 == 2 ? -v : v; } } break;
    }
    L->n[p] = n;
  }
  lay_fin(L);
}
static int lay_desc(const struct lay *L, char *b, size_t n) { int o = 0; for (int p = 0; p < L->np; p++) { o += snprintf(b + o, n > (size_t)o ? n - o : 0, "rank%d:[", p); for (int i = 0; i < L->n[p] && (size_t)o + 40 < n; i++) o += snprintf(b + o, n - o, "%s%lld", i ? "," : "", (long long)L->id[p][i]); if ((size_t)o + 40 > n) break; o += snprintf(b + o, n - o, "] "); } return o; }

static const unsigned dsz[] = {sizeof(double), sizeof(float), sizeof(int), sizeof(long), sizeof(long long)};
static const char *dname[] = {"double", "float", "int", "long", "long_long"}, *opname[] = {"add", "mul", "min", "max", "bpr"};
static const char *mname[] = {"auto", "pairwise", "crystal_router", "all_reduce"};
static const char *modename[] = {"plain", "vec", "many"};

/* integer value of entry e (of tot), component k; exact in every domain */
static long long eval_(int e, int k, int tot, int op) {
  switch (op) {
  case gs_add: return tot <= 10 ? (1LL << (2 * e)) + (k ? (long long)k * (1LL << (2 * e)) : 0) * (e < 8) : (long long)(hash2(e + 1, k) & 0x3ffff) + 1;
  case gs_mul: { static const int pr[] = {2, 3, 5, 7, 11, 13, 17}; if (tot <= 7) return pr[(e + k) % 7]; return e % 6 == k % 6 ? 3 : e % 4 == 1 ? -1 : 1; }
  case gs_min: case gs_max: return (e * 7 + k * 3 + 11) % 61 - 30;
  default: return 1 + (long long)(hash2(e, k + 9) % 5 == 0 ? 64 + e % 64 : 32 + (e * 5 + k) % 32);
  }
}
static unsigned bprf(unsigned a, unsigned b) { if (!a) return b; if (!b) return a; int la = 32 - __builtin_clz(a), lb = 32 - __builtin_clz(b); if (la > lb) a >>= la - lb; else b >>= lb - la; while (a != b) a >>= 1, b >>= 1; return a; }
#ifdef HAVE_LL
#define DOMLL(X) case gs_long_long: X(long long, LLONG_MIN, LLONG_MAX) break;
#else
#define DOMLL(X)
#endif
#define DOMCASE(X) case gs_double: X(double, -DBL_MAX, DBL_MAX) break; case gs_float: X(float, -FLT_MAX, FLT_MAX) break; case gs_int: X(int, INT_MIN, INT_MAX) break; case gs_long: X(long, LONG_MIN, LONG_MAX) break; DOMLL(X)
static void put(void *u, int i, int dom, long long v) {
#define X(T, a, b) ((T *)u)[i] = (T)v;
  switch (dom) { DOMCASE(X) default: break; }
#undef X
}
static void fold(void *acc, int dom, int op, long long v) {
#define X(T, mn, mx) { T *a = acc, b = (T)v; switch (op) { case gs_add: *a += b; break; case gs_mul: *a *= b; break; case gs_min: if (b < *a) *a = b; break; case gs_max: if (b > *a) *a = b; break; default: *a = (T)bprf((unsigned)*a, (unsigned)b); } }
  switch (dom) { DOMCASE(X) default: break; }
#undef X
}
static void ident(void *acc, int dom, int op) {
#define X(T, mn, mx) { T id[] = {0, 1, mx, mn, 0}; *(T *)acc = id[op]; }
  switch (dom) { DOMCASE(X) default: break; }
#undef X
}
static double asd(const void *u, int i, int dom) {
#define X(T, mn, mx) return (double)((const T *)u)[i];
  switch (dom) { DOMCASE(X) default: return 0; }
#undef X
}
/* value shown by entry (p,i,k) after the operation. src: value function of an entry */
static void expect_entry(const struct lay *L, int p, int i, int k, int dom, int op, int t, long long (*val)(int, int, int, int), void *out) {
  slong id = L->id[p][i]; int tot = L->base[L->np];
  put(out, 0, dom, val(L->base[p] + i, k, tot, op));
  if (id == 0 || (t && id < 0)) return;
  ident(out, dom, op);
  slong g = id < 0 ? -id : id;
  for (int q = 0; q < L->np; q++) for (int j = 0; j < L->n[q]; j++) { slong x = L->id[q][j]; if (x == g || (t && x == -g)) fold(out, dom, op, val(L->base[q] + j, k, tot, op)); }
}
/* known finding: with transpose, a flagged entry that is the first of two or more
   flagged entries of an id that has no unflagged entry on the rank is overwritten
   with the rank's partial result */
static const struct lay *prim_lay; /* layout before unique flagging: decides the primary entry (NULL: the same layout) */
static int known_transpose(const struct lay *L, int p, int i, int k, int dom, int op, int t, long long (*val)(int, int, int, int), const void *got) {
  slong id = L->id[p][i]; if (!t || id >= 0) return 0; int cnt = 0; long long a[2]; ident(a, dom, op); const struct lay *P = prim_lay ? prim_lay : L;
  for (int j = 0; j < L->n[p]; j++) { if (L->id[p][j] == -id) return 0; if (L->id[p][j] == id) { cnt++; fold(a, dom, op, val(L->base[p] + j, k, L->base[L->np], op)); } }
  if (cnt < 2) return 0;
  int prim = -1; /* the first unflagged entry, else the first flagged one */
  for (int j = 0; j < L->n[p] && prim < 0; j++) if (P->id[p][j] == -id) prim = j;
  for (int j = 0; j < L->n[p] && prim < 0; j++) if (P->id[p][j] == id) prim = j;
  return i == prim && memcmp(a, got, dsz[dom]) == 0;
}

/* user data in one of the packings */
struct udata { int mode, vn, n, dom; void *a[40]; void *flat; };
static void ud_alloc(struct udata *U, const struct lay *L, int p, int mode, int vn, int dom, int op, long long (*val)(int, int, int, int)) {
  U->mode = mode; U->vn = mode == 0 ? 1 : vn; U->n = L->n[p]; U->dom = dom; int tot = L->base[L->np];
  if (mode == 2) { for (int k = 0; k < vn; k++) { U->a[k] = sim_alloc(U->n * dsz[dom]); for (int i = 0; i < U->n; i++) put(U->a[k], i, dom, val(L->base[p] + i, k, tot, op)); } }
  else { U->flat = sim_alloc(U->n * U->vn * dsz[dom]); for (int i = 0; i < U->n; i++) for (int k = 0; k < U->vn; k++) put(U->flat, i * U->vn + k, dom, val(L->base[p] + i, k, tot, op)); }
}
static const void *ud_at(const struct udata *U, int i, int k) { return U->mode == 2 ? (char *)U->a[k] + i * dsz[U->dom] : (char *)U->flat + (i * U->vn + k) * dsz[U->dom]; }
static void ud_run(struct udata *U, int op, int t, struct gs_data *g, buffer *buf) {
  switch (U->mode) { case 0: gs(U->flat, U->dom, op, t, g, buf); break; case 1: gs_vec(U->flat, U->vn, U->dom, op, t, g, buf); break; default: gs_many((void *const *)U->a, U->vn, U->dom, op, t, g, buf); }
}
static int ud_start(struct udata *U, int op, int t, struct gs_data *g, buffer *buf) {
  int h = -12345;
  switch (U->mode) { case 0: igs(U->flat, U->dom, op, t, g, buf, &h); break; case 1: igs_vec(U->flat, U->vn, U->dom, op, t, g, buf, &h); break; default: igs_many((void *const *)U->a, U->vn, U->dom, op, t, g, buf, &h); }
  return h;
}
static void ud_check(const struct udata *U, const struct lay *L, int p, int op, int t, const char *what, long long (*val)(int, int, int, int), u64 *oh, const char *knownkey) {
  for (int k = 0; k < U->vn; k++) for (int i = 0; i < U->n; i++) {
    long long ex[2]; expect_entry(L, p, i, k, U->dom, op, t, val, ex); const void *g = ud_at(U, i, k);
    if (memcmp(ex, g, dsz[U->dom])) {
      if (knownkey && known_transpose(L, p, i, k, U->dom, op, t, val, g)) { if (!*knownkey) continue; char b[500]; lay_desc(L, b, sizeof b); sim_known(knownkey, "%s: rank %d entry %d: flagged entry holds the local partial result %.17g instead of its own value; ids %s", what, p, i, asd(g, 0, U->dom), b); continue; }
      sim_violation("%s: dom %s op %s transpose %d mode %s: entry %d (id %lld) component %d is %.17g, expected %.17g", what, dname[U->dom], opname[op], t, modename[U->mode], i, (long long)L->id[p][i], k, asd(g, 0, U->dom), asd(ex, 0, U->dom));
    }
    if (oh) *oh = hbytes(*oh, g, dsz[U->dom]);
  }
}
static void ud_free(struct udata *U) { if (U->mode == 2) for (int k = 0; k < U->vn; k++) free(U->a[k]); else free(U->flat); }
static slong *ids_of(const struct lay *L, int p) { slong *d = sim_alloc(L->n[p] * sizeof(slong)); memcpy(d, L->id[p], L->n[p] * sizeof(slong)); return d; }
static void ids_same(const struct lay *L, int p, const slong *d, const char *what) { if (memcmp(d, L->id[p], L->n[p] * sizeof(slong))) sim_violation("%s: the caller's id array was modified", what); }
/* large cases: many entries or many components per entry; ids by formula, oracle by a table over the ids.
   kind 0: repeated ids, unflagged and zero; 1: each id once per rank, some flagged; 2: one id shared by everybody among private ones */
struct scale { int np, kind; unsigned n, vn; };
static slong sc_id(const struct scale *s, int p, unsigned i) {
  unsigned m = s->n;
  switch (s->kind) {
  case 0: { unsigned M = m * 3 / 5 + 1; return i % 97 == 3 ? 0 : (slong)((i * 7ul + p * 13ul) % M) + 1; }
  case 1: { slong g = (slong)((i + (size_t)p * (m / 3)) % m) + 1; return i % 11 == 5 && p ? -g : g; }
  default: return i == m / 2 ? 1 : 2 + (slong)i * s->np + p; }
}
static long sc_val(const struct scale *s, int p, unsigned i, unsigned k) { (void)s; return (long)(hash2(p * 7919ul + i + 1, k) % 2001) - 1000; }
static void *sc_alloc(const struct scale *s, int p, int dom, int mode, void **a) {
  char *u = sim_alloc(dsz[dom] * (size_t)s->n * s->vn);
  for (unsigned i = 0; i < s->n; i++) for (unsigned k = 0; k < s->vn; k++) put(u, mode == 2 ? (size_t)k * s->n + i : (size_t)i * s->vn + k, dom, sc_val(s, p, i, k));
  if (mode == 2) for (unsigned k = 0; k < s->vn; k++) a[k] = u + dsz[dom] * (size_t)s->n * k;
  return u;
}
static void sc_check(const struct scale *s, int p, int dom, int mode, int op, int t, const void *u, const char *what, u64 *oh) {
  size_t M = (size_t)s->n * s->np + 2; char *tab = malloc(M * dsz[dom]);
  for (unsigned k = 0; k < s->vn; k++) {
    if (s->vn > 300 && k > 20 && k + 20 < s->vn && k % 97 && (k * dsz[dom]) % 65536 > 40) continue;
    for (size_t g = 0; g < M; g++) ident(tab + g * dsz[dom], dom, op);
    for (int q = 0; q < s->np; q++) for (unsigned i = 0; i < s->n; i++) { slong g = sc_id(s, q, i); if (g < 0) g = t ? -g : 0; if (g) fold(tab + g * dsz[dom], dom, op, sc_val(s, q, i, k)); }
    for (unsigned i = 0; i < s->n; i++) {
      slong g = sc_id(s, p, i); char own[16]; const void *ex = tab + llabs(g) * dsz[dom], *got = (const char *)u + dsz[dom] * (mode == 2 ? (size_t)k * s->n + i : (size_t)i * s->vn + k);
      if (g == 0 || (t && g < 0)) put(own, 0, dom, sc_val(s, p, i, k)), ex = own;
      if (memcmp(ex, got, dsz[dom])) sim_violation("%s: %u entries of %u components: dom %s op %s transpose %d mode %s: entry %u (id %lld) component %u is %.17g, expected %.17g", what, s->n, s->vn, dname[dom], opname[op], t, modename[mode], i, (long long)g, k, asd(got, 0, dom), asd(ex, 0, dom));
      *oh = hbytes(*oh, got, dsz[dom]);
    }
  }
  free(tab);
}
static slong *sc_ids(const struct scale *s, int p) { slong *d = sim_alloc(s->n * sizeof(slong)); for (unsigned i = 0; i < s->n; i++) d[i] = sc_id(s, p, i); return d; }
/* sizes chosen to pass 2^16 bytes per entry, 2^16 entries, and 2^16 entries sent to one neighbour */
static const struct { unsigned n, vn; } scdim[] = {{5, 8200}, {3, 16500}, {300, 40}, {1000, 9}, {66000, 1}, {9000, 3}};
#define NSC 6
/* a floating-point sum whose value depends on the order of the additions: only its reproducibility is judged (through the outcome) */
static void fp_order(const struct lay *L, int p, struct gs_data *g, int mode, int t, int nb, u64 *oh) {
  int vn = mode ? 2 : 1, n = L->n[p]; double *u = sim_alloc(8 * n * vn); void *a[2] = {u, u + n}; buffer b; buffer_init(&b, 1); int h;
  for (int i = 0; i < n * vn; i++) { int e = L->base[p] + i; u[i] = (double)((long)(hash2(e, 5) % 2000003) - 1000001) * pow(2, (e * 7 + i) % 5 * 13 - 20) / 3; }
  if (nb) { if (mode == 0) igs(u, gs_double, gs_add, t, g, &b, &h); else if (mode == 1) igs_vec(u, 2, gs_double, gs_add, t, g, &b, &h); else igs_many((void *const *)a, 2, gs_double, gs_add, t, g, &b, &h); gs_wait(h); }
  else { if (mode == 0) gs(u, gs_double, gs_add, t, g, &b); else if (mode == 1) gs_vec(u, 2, gs_double, gs_add, t, g, &b); else gs_many((void *const *)a, 2, gs_double, gs_add, t, g, &b); }
  *oh = hbytes(*oh, u, 8 * n * vn); free(u); buffer_free(&b); sim_steps(1);
}
#endif
