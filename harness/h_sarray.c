/* C07: array-of-struct transfer */
#include "hcommon.h"
enum { M_INT0, M_INT1, M_EXT, M_MANY, M_MANYEXT, M_FIXED, M_N };
static const char *mn[] = {"sarray_transfer", "sarray_transfer set_src round trip", "sarray_transfer_ext", "sarray_transfer_many set_src", "sarray_transfer_many ext", "sarray_transfer_many fixed"};
#define NR 1100
struct sc { int np, mode, size, poff, n[SIM_MAXNP], pat; u64 base; int nvar, bound, sz1, sz2, cap; };
/* families: destinations enumerated (pat<0) or structured */
struct fam { int np, nmax, mode, size, poff, sz1, sz2, bound, cap; u64 cnt; int pat; unsigned pol; };
static struct fam *F; static int nf, cf; static u64 total; static u64 *start;
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static u64 nv(unsigned a, unsigned n) { u64 s = 0; for (unsigned k = 0; k <= n; k++) s += ipow(a, k); return s; }
static void add(int np, int nmax, int mode, int size, int poff, int sz1, int sz2, int pat, int bound, int cap, unsigned pol) {
  if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start);
  if (mode != M_EXT && mode != M_MANYEXT) size *= UB / 4, poff *= UB / 4; /* the processor field is a uint */
  F[nf] = (struct fam){np, nmax, mode, size, poff, sz1, sz2, bound, cap, pat < 0 ? ipow(nv(np, nmax), np) : 4, pat, pol}; start[nf] = total; total += F[nf++].cnt; start[nf] = total;
}
#define NPAT 8 /* used with every record layout */
static const char *patn[] = {"all to 0", "all to last", "spread", "self", "none", "uneven", "shift", "many", "hundreds", "hundreds to two"};
void h_init(int tier) {
  total = nf = 0; unsigned D = PM_DEFAULT;
  static const int msz[][2] = {{0, 0}, {8, 0}, {0, 8}, {16, 24}, {8, 8}};
  static const int isz[][2] = {{4, 0}, {8, 0}, {8, 4}, {12, 4}, {24, 8}, {40, 36}};
  static const int esz[] = {1, 3, 4, 7, 8, 24};
  /* every destination pattern */
  for (int k = 0; k < 6; k++) for (int m = M_INT0; m <= M_INT1; m++) { add(1, 3, m, isz[k][0], isz[k][1], 0, 0, -1, 0, 0, D); add(2, tier ? 4 : 3, m, isz[k][0], isz[k][1], 0, 0, -1, 0, 0, D); add(3, k == 3 || tier ? 2 : 1, m, isz[k][0], isz[k][1], 0, 0, -1, 0, 0, D); if (k == 2 || tier) add(4, 1, m, isz[k][0], isz[k][1], 0, 0, -1, 0, 0, D); }
  for (int k = 0; k < 6; k++) add(2, 3, M_EXT, esz[k], k % 3, 0, 0, -1, 0, 0, D), add(3, k & 1 ? 1 : 2, M_EXT, esz[k], 0, 0, 0, -1, 0, 0, D);
  for (int k = 0; k < 5; k++) for (int j = 0; j < 6; j += 2) { add(2, 2, M_MANY, isz[j + (k & 1)][0], isz[j + (k & 1)][1], msz[k][0], msz[k][1], -1, 0, 0, D); add(2, 2, M_MANYEXT, esz[j], 0, msz[k][0] ? msz[k][0] - 1 : 0, msz[k][1], -1, 0, 0, D); for (int cap = 0; cap < 5; cap++) add(2, 3, M_FIXED, isz[j][0], isz[j][1], msz[k][0], msz[k][1], -1, 0, cap, D); }
  for (int cap = 0; cap < 4; cap++) add(3, 2, M_FIXED, 12, 8, 8, 16, -1, 0, cap, D);
  /* every record layout, structured destinations */
  for (int np = 1; np <= (tier ? 17 : 9); np++) for (int pat = 0; pat < NPAT; pat++) {
    for (int s = 4; s <= (np <= 3 ? 40 : 16); s += 4) for (int o = 0; o < s; o += 4) for (int m = M_INT0; m <= M_INT1; m++) add(np, 0, m, s, o, 0, 0, pat, 0, 0, D);
    for (int s = 1; s <= (np <= 3 ? 17 : 5); s++) { add(np, 0, M_EXT, s, s % 3, 0, 0, pat, 0, 0, D); add(np, 0, M_MANYEXT, s, 1, s % 9, 5, pat, 0, 0, D); }
    for (int s = 4; s <= 16; s += 4) { add(np, 0, M_MANY, s, s / 2 & ~3, 8, 3 * s, pat, 0, 0, D); for (int cap = 0; cap < 7; cap += 2) add(np, 0, M_FIXED, s, 0, 8, 8, pat, 0, cap, D); }
  }
  /* large records, further arrays with large records, hundreds of records */
  static const int lsz[] = {44, 64, 68, 132, 256, 260, 520, 1028, 4100, 70000};
  for (int k = 0; k < 10; k++) for (int np = 1; np <= (tier ? 5 : 3); np++) for (int pat = 0; pat < NPAT; pat++) {
    int s = lsz[k]; if (s > 5000 && (pat % 3 || np > 3)) continue; int off[] = {0, s / 2 & ~3, s - 4};
    for (int o = 0; o < 3; o++) add(np, 0, (o + pat) % 2 ? M_INT0 : M_INT1, s, off[o], 0, 0, pat, 0, 0, D);
    add(np, 0, M_EXT, s + k % 3, k % 3, 0, 0, pat, 0, 0, D); add(np, 0, M_EXT, s - 1, 0, 0, 0, pat, 0, 0, D);
    add(np, 0, M_MANY, s, off[k % 3], s + 8, lsz[9 - k], pat, 0, 0, D); add(np, 0, M_MANY, 8, 4, s, s + 1, pat, 0, 0, D); add(np, 0, M_MANYEXT, 3, 0, s + 1, 2, pat, 0, 0, D); add(np, 0, M_FIXED, s, off[k % 2], s, 8, pat, 0, 6, D);
  }
  for (int np = 1; np <= (tier ? 6 : 4); np++) for (int pat = 8; pat < 10; pat++) for (int m = 0; m < M_N; m++) for (int s = 12; s <= 300; s += 96) add(np, 0, m, s, 4 * (m & 1), s / 2, 16, pat, 0, m == M_FIXED ? 550 : 0, D);
  for (int np = 2; np <= (tier ? 5 : 4); np++) for (int pat = 0; pat < NPAT; pat++) for (int m = 0; m < M_N; m++) add(np, 0, m, 12, 4, 8, 8, pat, 1, 3, D);
  if (tier) for (int np = 2; np <= 3; np++) for (int pat = 0; pat < NPAT; pat++) for (int m = 0; m < M_N; m++) add(np, 0, m, 12, 4, 8, 8, pat, 2, 3, D);
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
static int dests(const struct fam *f, u64 i, int s, int *d) {
  int np = f->np, n = 0;
  if (f->pat < 0) { u64 m = nv(np, f->nmax); while (s--) i /= m; i %= m; u64 k = 1; while (i >= k) i -= k, k *= np, n++; for (int j = 0; j < n; j++) d[j] = i % np, i /= np; return n; }
  int v = (int)i;
  switch (f->pat) {
  case 0: n = v + s % 2; for (int j = 0; j < n; j++) d[j] = 0; break; case 1: n = 1 + v; for (int j = 0; j < n; j++) d[j] = np - 1; break;
  case 2: n = np + v; if (n > 20) n = 20; for (int j = 0; j < n; j++) d[j] = (s * 3 + j * (v + 1)) % np; break; case 3: n = (s + v) % 4; for (int j = 0; j < n; j++) d[j] = s; break; case 4: n = 0; break;
  case 5: n = s == v % np ? 15 : (s % 3); for (int j = 0; j < n; j++) d[j] = (j * j + s) % np; break; case 6: n = 3; for (int j = 0; j < n; j++) d[j] = (s + v + 1) % np; break;
  case 8: n = 300 + 400 * (v & 1) + 31 * s; for (int j = 0; j < n; j++) d[j] = hash2(s * 1000 + j, v) % np; break;
  case 9: n = 500 - 17 * s; for (int j = 0; j < n; j++) d[j] = j < v * 150 ? np - 1 : (v + s) % np; break;
  default: n = 30; for (int j = 0; j < n; j++) d[j] = hash2(s * 100 + j, v) % np; }
  return n;
}
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->same = 1; c->np = f->np; c->policies = f->pol; c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = 1; c->fill = i & 3; }
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d %s record %d bytes, processor field at %d, further arrays %d,%d bytes, capacity %d, destinations", f->np, mn[f->mode], f->size, f->poff, f->sz1, f->sz2, f->cap);
  if (f->pat >= 0) o += snprintf(b + o, n - o, " %s/%d", patn[f->pat], (int)i);
  for (int s = 0; s < f->np && o + 60 < (int)n; s++) { int d[NR], k = dests(f, i, s, d); o += snprintf(b + o, n - o, " rank%d:[", s); for (int j = 0; j < k && o + 40 < (int)n; j++) o += snprintf(b + o, n - o, "%s%d", j ? "," : "", d[j]); o += snprintf(b + o, n - o, "]"); }
}
static unsigned char byte(int s, int j, int a, int pos) { return pos == 0 ? (unsigned char)(s * 37 + j) : pos == 1 ? (unsigned char)s : (unsigned char)hash2((s * 4096ul + j) * 4 + a, pos); }
static int internal(const struct fam *f) { return f->mode != M_EXT && f->mode != M_MANYEXT; }
static void putrec(const struct fam *f, unsigned char *r, int s, int j) { for (int k = 0; k < f->size; k++) r[k] = byte(s, j, 0, k); }
/* same data as record (s,j)? */
static int same(const struct fam *f, const unsigned char *r, const unsigned char *r1, const unsigned char *r2, int s, int j) {
  for (int k = 0; k < f->size; k++) if (!(internal(f) && k >= f->poff && k < f->poff + UB) && r[k] != byte(s, j, 0, k)) return 0;
  if (r1) for (int k = 0; k < f->sz1; k++) if (r1[k] != byte(s, j, 1, k)) return 0;
  if (r2) for (int k = 0; k < f->sz2; k++) if (r2[k] != byte(s, j, 2, k)) return 0;
  return 1;
}
static u64 oh;
/* check the local content; where=home: records must be those that started here; src: processor field must name the source (home: the destination) */
static void check(const struct fam *f, u64 i, int p, struct array *A, struct array *A1, struct array *A2, int home, int src, u64 nfull, const char *what) {
  static unsigned char used[SIM_MAXNP][NR]; static short dv[SIM_MAXNP][NR]; int dn[SIM_MAXNP]; u64 sum = 0;
  for (int s = 0; s < f->np; s++) { int d[NR]; dn[s] = dests(f, i, s, d); for (int j = 0; j < dn[s]; j++) dv[s][j] = d[j], used[s][j] = 0; }
  for (u64 k = 0; k < A->n; k++) {
    unsigned char *r = (unsigned char *)A->ptr + k * f->size, *r1 = A1 ? (unsigned char *)A1->ptr + k * f->sz1 : 0, *r2 = A2 ? (unsigned char *)A2->ptr + k * f->sz2 : 0; uint q = 0; int hit = -1, hs = 0;
    if (internal(f)) { memcpy(&q, r + f->poff, UB); REQUIRE(q < (uint)f->np, "%s: record %d: processor field is %u", what, (int)k, q); if (!src) REQUIRE(q == (uint)p, "%s: record %d: processor field is %u, expected this rank", what, (int)k, q); }
    for (int s = 0; s < f->np && hit < 0; s++) { if (home ? s != p : 0) continue; const short *d = dv[s]; int n = dn[s]; if (internal(f) && src && !home && s != (int)q) continue;
      for (int j = 0; j < n && hit < 0; j++) { if (used[s][j] || (!home && d[j] != p)) continue; if (home && src && d[j] != (int)q) continue; if (same(f, r, r1, r2, s, j)) hit = j, hs = s; } }
    REQUIRE(hit >= 0, "%s: record %d (of %d) was never sent here with this content (or arrived twice)", what, (int)k, (int)A->n); used[hs][hit] = 1; sum += hash2(hs, hit);
  }
  u64 ex = 0; for (int s = 0; s < f->np; s++) { if (home && s != p) continue; for (int j = 0; j < dn[s]; j++) ex += home || dv[s][j] == p; }
  if (nfull == ~0ull) REQUIRE(A->n == ex, "%s: %d records here, expected %d", what, (int)A->n, (int)ex);
  else { REQUIRE(nfull == ex, "%s: returned count %d, expected %d", what, (int)nfull, (int)ex); u64 mx = A->max; if (A1 && A1->max < mx) mx = A1->max; if (A2 && A2->max < mx) mx = A2->max; REQUIRE(A->n == (ex < mx ? ex : mx), "%s: %d records stored, expected %d", what, (int)A->n, (int)(ex < mx ? ex : mx)); }
  oh = hmix(oh, sum); sim_steps(1);
}
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); struct comm c; world(&c); struct crystal cr; crystal_init(&cr, &c); oh = 0;
  int d[NR], n = dests(f, i, p, d); int S = f->size;
  struct array A = null_array, A1 = null_array, A2 = null_array; uint *proc = 0; unsigned ps = UB * (1 + f->poff);
  if (n) { array_init_(&A, n, S, __FILE__, __LINE__); }
  A.n = n; for (int j = 0; j < n; j++) { unsigned char *r = (unsigned char *)A.ptr + j * S; putrec(f, r, p, j); if (internal(f)) { uint q = d[j]; memcpy(r + f->poff, &q, UB); } }
  if (!internal(f)) { proc = sim_alloc(n * ps); for (int j = 0; j < n; j++) *(uint *)((char *)proc + j * ps) = d[j]; }
  if (f->mode == M_FIXED) { /* caller-owned exact arrays */
    int cap = n > f->cap ? n : f->cap; int c0 = cap + (f->cap + f->size / 4) % 3, c1 = cap + (f->cap + f->sz1 / 8 + 1) % 3, c2 = c0 > cap && c1 > cap ? cap : cap + 1; array_free(&A); A.ptr = malloc((size_t)c0 * S); A.max = c0; A.n = n; for (int j = 0; j < n; j++) { unsigned char *r = (unsigned char *)A.ptr + j * S; putrec(f, r, p, j); uint q = d[j]; memcpy(r + f->poff, &q, UB); }
    A1.ptr = malloc((size_t)c1 * f->sz1); A2.ptr = malloc((size_t)c2 * f->sz2); A1.max = c1, A2.max = c2; }
  else if (f->mode >= M_MANY) { if (n) array_init_(&A1, n, f->sz1, __FILE__, __LINE__), array_init_(&A2, n, f->sz2, __FILE__, __LINE__); }
  if (f->mode >= M_MANY) { A1.n = A2.n = n; for (int j = 0; j < n; j++) { for (int k = 0; k < f->sz1; k++) ((unsigned char *)A1.ptr)[j * f->sz1 + k] = byte(p, j, 1, k); for (int k = 0; k < f->sz2; k++) ((unsigned char *)A2.ptr)[j * f->sz2 + k] = byte(p, j, 2, k); } }
  struct array *ar[3] = {&A, &A1, &A2}; unsigned sz[3] = {S, f->sz1, f->sz2};
  switch (f->mode) {
  case M_INT0: sarray_transfer_(&A, S, f->poff, 0, &cr); check(f, i, p, &A, 0, 0, 0, 0, ~0ull, "transfer"); sarray_transfer_(&A, S, f->poff, 0, &cr); check(f, i, p, &A, 0, 0, 0, 0, ~0ull, "transfer to self"); break;
  case M_INT1: for (int round = 0; round < 2; round++) { sarray_transfer_(&A, S, f->poff, 1, &cr); check(f, i, p, &A, 0, 0, 0, 1, ~0ull, "transfer with source"); sarray_transfer_(&A, S, f->poff, 1, &cr); check(f, i, p, &A, 0, 0, 1, 1, ~0ull, "second transfer with source"); } break;
  case M_EXT: sarray_transfer_ext_(&A, S, proc, ps, &cr); check(f, i, p, &A, 0, 0, 0, 0, ~0ull, "transfer_ext"); for (int j = 0; j < n; j++) REQUIRE(*(uint *)((char *)proc + j * ps) == (uint)d[j], "transfer_ext modified the list of processors"); break;
  case M_MANY: for (int b = 0; b < 2; b++) { u64 r = sarray_transfer_many(ar, sz, 3, 0, 0, 1, f->poff, (uint *)((char *)A.ptr + f->poff), S, &cr); REQUIRE(r == A.n && A.n == A1.n && A.n == A2.n, "transfer_many: returned %d, array sizes %d %d %d", (int)r, (int)A.n, (int)A1.n, (int)A2.n); check(f, i, p, &A, &A1, &A2, b, 1, ~0ull, b ? "transfer_many back" : "transfer_many"); } break;
  case M_MANYEXT: { u64 r = sarray_transfer_many(ar, sz, 3, 0, 1, 0, 0, proc, ps, &cr); REQUIRE(r == A.n && A.n == A1.n && A.n == A2.n, "transfer_many ext: returned %d, array sizes %d %d %d", (int)r, (int)A.n, (int)A1.n, (int)A2.n); check(f, i, p, &A, &A1, &A2, 0, 0, ~0ull, "transfer_many ext"); break; }
  default: { void *o = A.ptr; u64 r = sarray_transfer_many(ar, sz, 3, 1, 0, 1, f->poff, (uint *)((char *)A.ptr + f->poff), S, &cr); REQUIRE(A.ptr == o, "fixed transfer moved the caller's array"); REQUIRE(A.n == A1.n && A.n == A2.n, "transfer_many fixed: array sizes %d %d %d", (int)A.n, (int)A1.n, (int)A2.n); check(f, i, p, &A, &A1, &A2, 0, 1, r, "transfer_many fixed"); } }
  free(proc); array_free(&A); array_free(&A1); array_free(&A2); crystal_free(&cr); comm_free(&c); sim_outcome(oh); sim_state(oh);
}
