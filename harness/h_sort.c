/* C08: sorts */
#include "hcommon.h"
#include "sort_seq.h"
enum { T_UI, T_UL, T_D, T_F, T_N };
static const int tsz[] = {sizeof(uint), sizeof(ulong), 8, 4}; static const char *tn[] = {"uint", "ulong", "double", "float"};
enum { F_V, F_VIN, F_P0, F_P1, F_N };
static const char *fn[] = {"sortv", "sortv in place", "sortp", "sortp with starting permutation"};
enum { K_SMALL, K_SWEEP, K_DIGITS, K_REC, K_RECBIG, K_BITS, K_HUGE, K_RECHUGE, K_PERM, K_KINDS };
static u64 cnt[K_KINDS], total; static int NMAX, NSW;
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
#define NDIST 12
static const int hugen[] = {65535, 65537, 70000, 140001};
void h_init(int tier) {
  NMAX = tier ? 10 : 8; NSW = tier ? 4200 : 1100;
  cnt[K_SMALL] = 0; for (int n = 0; n <= NMAX; n++) cnt[K_SMALL] += ipow(3, n); cnt[K_SMALL] *= T_N * F_N;
  cnt[K_SWEEP] = (u64)(NSW + 1) * T_N * F_N; cnt[K_DIGITS] = 256 * 6 * F_N; cnt[K_REC] = (1 + 16 + 256 + 4096 + 65536 + (tier ? 1048576 : 0)); cnt[K_RECBIG] = NSEQ * 12; cnt[K_BITS] = 64 * 64 * 4; cnt[K_HUGE] = 4 * T_N * F_N * 3; cnt[K_RECHUGE] = NSEQ; cnt[K_PERM] = 1 + 1 + 2 + 6 + 24 + 120 + 720 + 5040 + 40320 + (tier ? 362880 : 0);
  total = 0; for (int k = 0; k < K_KINDS; k++) total += cnt[k];
}
uint64_t h_ncases(void) { return total; }
static int kind(u64 *i) { int k = 0; while (*i >= cnt[k]) *i -= cnt[k++]; return k; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; }
static u64 smallvec(u64 i, int *n) { *n = 0; u64 k = 1; while (i >= k) i -= k, k *= 3, ++*n; return i; }
void h_describe(uint64_t i, char *b, size_t m) {
  int k = kind(&i); int o = 0;
  switch (k) {
  case K_SMALL: { int t = dig(&i, T_N), f = dig(&i, F_N), n; i = smallvec(i, &n); o = snprintf(b, m, "%s of %s n=%d keys ", fn[f], tn[t], n); for (int j = 0; j < n; j++) o += snprintf(b + o, m - o, "%d", dig(&i, 3)); break; }
  case K_SWEEP: { int t = dig(&i, T_N), f = dig(&i, F_N); snprintf(b, m, "%s of %s n=%d, all key distributions, strides, buffers", fn[f], tn[t], (int)i); break; }
  case K_DIGITS: { int f = dig(&i, F_N), q = dig(&i, 6); snprintf(b, m, "%s of ulong/uint, size index %d, nonzero key bytes %02x", fn[f], q, (int)i); break; }
  case K_REC: snprintf(b, m, "record sorts (1-4 fields, all sequences), keys code %d", (int)i); break;
  case K_RECBIG: { int q = dig(&i, 12); snprintf(b, m, "record sort sequence %d size index %d", (int)i, q); break; }
  case K_BITS: { int q = dig(&i, 4), x = dig(&i, 64); snprintf(b, m, "keys differing only in bits %d and %d, size index %d", x, (int)i, q); break; }
  case K_HUGE: { int q = dig(&i, 4), t = dig(&i, T_N), f = dig(&i, F_N); snprintf(b, m, "%s of %s, n=%d, distribution index %d", fn[f], tn[t], hugen[q], (int)i); break; }
  case K_RECHUGE: snprintf(b, m, "record sort sequence %d, 70001 records", (int)i); break;
  default: snprintf(b, m, "permutation %d", (int)i); }
}
static double kd(int t, const void *p) { switch (t) { case T_D: return *(double *)p; case T_F: return *(float *)p; default: return 0; } }
static int lt(int t, const void *a, const void *b) { switch (t) { case T_UI: return *(uint *)a < *(uint *)b; case T_UL: return *(ulong *)a < *(ulong *)b; default: return kd(t, a) < kd(t, b); } }
static void setkey(int t, void *p, u64 v) { switch (t) { case T_UI: *(uint *)p = (uint)v; break; case T_UL: *(ulong *)p = v; break; case T_D: *(double *)p = (double)(long long)v / 3; break; default: *(float *)p = (float)(int)v / 4; } }
static u64 oh;
static void mkbuf(buffer *b, int k) { buffer z = null_buffer; *b = z; if (k == 1) buffer_init(b, 1); if (k == 2) { buffer_init(b, 40000); memset(b->ptr, 0xC7, 40000); } }
/* keys: function of j */
typedef u64 keyf(u64 j, u64 n, u64 arg);
static void one(int t, int f, u64 n, int stride, int bk, keyf *kf, u64 arg, int permk) {
  int sz = tsz[t]; size_t ext = n ? (n - 1) * stride + sz : 0; unsigned char *A = sim_alloc(ext), *C; buffer buf; mkbuf(&buf, bk);
  for (u64 j = 0; j < n; j++) setkey(t, A + j * stride, kf(j, n, arg));
  C = sim_alloc(ext); memcpy(C, A, ext);
  uint *ref = sim_alloc(n * UB), *st = sim_alloc(n * UB);
  for (u64 j = 0; j < n; j++) st[j] = j;
  if (f == F_P1) for (u64 j = 0; j < n; j++) { u64 r = permk == 0 ? n - 1 : permk == 1 ? j + hash2(j, n) % (n - j) : j; uint x = st[j]; if (permk == 0) { st[j] = n - 1 - j; continue; } st[j] = st[r]; st[r] = x; }
  memcpy(ref, st, n * UB); /* reference: stable insertion / merge by simple algorithm */
  { uint *tmp = sim_alloc(n * UB); for (u64 w = 1; w < n; w *= 2) { for (u64 a = 0; a < n; a += 2 * w) { u64 m = a + w < n ? a + w : n, e = a + 2 * w < n ? a + 2 * w : n, x = a, y = m, o = a; while (x < m || y < e) if (y >= e || (x < m && !lt(t, A + (size_t)ref[y] * stride, A + (size_t)ref[x] * stride))) tmp[o++] = ref[x++]; else tmp[o++] = ref[y++]; } memcpy(ref, tmp, n * UB); } free(tmp); }
  if (f == F_P0 || f == F_P1) {
    uint *p;
    if (f == F_P1) { buffer_reserve(&buf, n * UB); memcpy(buf.ptr, st, n * UB); }
    switch (t) { case T_UI: p = sortp(&buf, f == F_P1, (uint *)A, n, stride); break; case T_UL: p = sortp_long(&buf, f == F_P1, (ulong *)A, n, stride); break; case T_D: p = sortp_double(&buf, f == F_P1, (double *)A, n, stride); break; default: p = sortp_float(&buf, f == F_P1, (float *)A, n, stride); }
    REQUIRE(p == buf.ptr, "%s %s n=%d: permutation is not at the start of the buffer", fn[f], tn[t], (int)n);
    for (u64 j = 0; j < n; j++) if (p[j] != ref[j]) sim_violation("%s %s n=%d stride %d: position %d holds index %u, the stable order has %u", fn[f], tn[t], (int)n, stride, (int)j, p[j], ref[j]);
    REQUIRE(!memcmp(A, C, ext), "%s %s n=%d: the keys were modified", fn[f], tn[t], (int)n);
  } else {
    unsigned char *out = f == F_VIN ? A : sim_alloc(n * sz);
    switch (t) { case T_UI: sortv((uint *)out, (uint *)A, n, stride, &buf); break; case T_UL: sortv_long((ulong *)out, (ulong *)A, n, stride, &buf); break; case T_D: sortv_double((double *)out, (double *)A, n, stride, &buf); break; default: sortv_float((float *)out, (float *)A, n, stride, &buf); }
    for (u64 j = 0; j < n; j++) if (memcmp(out + j * sz, C + (size_t)ref[j] * stride, sz)) sim_violation("%s %s n=%d stride %d: output position %d is not the sorted value", fn[f], tn[t], (int)n, stride, (int)j);
    if (f == F_V) { REQUIRE(!memcmp(A, C, ext), "%s %s n=%d: the input was modified", fn[f], tn[t], (int)n); free(out); }
  }
  buffer_free(&buf); free(A); free(C); free(ref); free(st); sim_steps(1);
}
static u64 k_small(u64 j, u64 n, u64 a) { while (j--) a /= 3; static const u64 v[] = {5, 0, 0x10005}; return v[a % 3]; }
static u64 k_dist(u64 j, u64 n, u64 a) {
  switch (a) { case 0: return j; case 1: return n - j; case 2: return 7; case 3: return 0; case 4: return hash2(j, n); case 5: return hash2(j, n) % 3; case 6: return hash2(j, n) & 0xff00ff; case 7: return hash2(j, n) & 0xff00000000ff00ull; case 8: return j % 2 ? j : n - j; case 9: return j == n / 2 ? 0 : 1ull << (j % 64); case 10: return (j * 7) % (n / 2 + 1); default: return ~0ull - (j % 5); } }
static u64 k_bits(u64 j, u64 n, u64 a) { u64 h = hash2(j, a), k = a >> 12 ? 0x5a5a5a5a5a5a5a5aull & ~(1ull << (a & 63)) & ~(1ull << (a >> 6 & 63)) : 0; return k | (h & 1) << (a & 63) | (h >> 1 & 1) << (a >> 6 & 63); }
static u64 k_dig(u64 j, u64 n, u64 a) { u64 m = 0; for (int b = 0; b < 8; b++) if (a >> b & 1) m |= 0xffull << (8 * b); return hash2(j, n) & m; }
struct rec { unsigned char h; uint a; ulong b; float f; double d; uint serial; unsigned char tail[3]; };
static int rcmp(const struct rec *x, const struct rec *y, const signed char *s) { for (int k = 0; k < 4 && s[k] >= 0; k++) switch (s[k]) { case 0: if (x->a != y->a) return x->a < y->a ? -1 : 1; break; case 1: if (x->b != y->b) return x->b < y->b ? -1 : 1; break; case 2: if (x->f != y->f) return x->f < y->f ? -1 : 1; break; default: if (x->d != y->d) return x->d < y->d ? -1 : 1; } return 0; }
static void recsort(int s, u64 n, int bk, void (*mk)(struct rec *, u64, u64), u64 arg) {
  struct rec *A = sim_alloc(n * sizeof *A), *B = sim_alloc(n * sizeof *A); memset(A, 0, n * sizeof *A); buffer bb, *buf = &bb; mkbuf(buf, bk);
  for (u64 j = 0; j < n; j++) { mk(A + j, j, arg); A[j].serial = j; A[j].h = 17 * j; A[j].tail[0] = j; A[j].tail[2] = j >> 3; } memcpy(B, A, n * sizeof *A);
  SORT_SWITCH(s)
  unsigned char *seen = sim_alloc(n); memset(seen, 0, n);
  for (u64 j = 0; j < n; j++) { uint q = A[j].serial; REQUIRE(q < n && !seen[q], "record sort %d n=%d: record %d appears twice or is damaged", s, (int)n, (int)q); seen[q] = 1; REQUIRE(!memcmp(&A[j], &B[q], sizeof *A), "record sort %d n=%d: record %d was changed", s, (int)n, (int)q);
    if (j) { int c = rcmp(&A[j - 1], &A[j], SEQ[s]); REQUIRE(c < 0 || (c == 0 && A[j - 1].serial < A[j].serial), "record sort by fields %d,%d,%d,%d n=%d: positions %d and %d are out of order%s", SEQ[s][0], SEQ[s][1], SEQ[s][2], SEQ[s][3], (int)n, (int)j - 1, (int)j, c == 0 ? " (not stable)" : ""); } }
  free(seen); buffer_free(buf); free(A); free(B); sim_steps(1);
}
static void mk_small(struct rec *r, u64 j, u64 a) { a >>= 4 * j; r->a = a & 1 ? 9 : 2; r->b = a & 2 ? BIGID(1ull << 40) : 3; r->f = a & 4 ? 1.5f : -2; r->d = a & 8 ? 1e300 : -1e-300; }
static void mk_big(struct rec *r, u64 j, u64 a) { u64 h = hash2(j, a); r->a = h % 4; r->b = (h >> 8) % 3 ? (h >> 8) % 3 : BIGID(h >> 8 & 0xffffff00000000ull); r->f = (float)((h >> 16) % 3) - 1; r->d = (double)((h >> 24) % 5) / 7 - .3; }
void h_rank(uint64_t i, int p) {
  oh = 0; u64 i0 = i;
  switch (kind(&i)) {
  case K_SMALL: { int t = dig(&i, T_N), f = dig(&i, F_N), n; i = smallvec(i, &n); int strides[] = {tsz[t], 2 * tsz[t], 24}; for (int s = 0; s < (f == F_VIN ? 1 : 3); s++) for (int bk = 0; bk < 3; bk++) for (int pk = 0; pk < (f == F_P1 ? 3 : 1); pk++) one(t, f, n, strides[s], bk, k_small, i, pk); break; }
  case K_SWEEP: { int t = dig(&i, T_N), f = dig(&i, F_N); for (int d = 0; d < NDIST; d++) one(t, f, i, (d & 1) && f != F_VIN ? 3 * tsz[t] : tsz[t], d % 3, k_dist, d, d % 2); break; }
  case K_DIGITS: { int f = dig(&i, F_N), q = dig(&i, 6); static const int sizes[] = {255, 256, 257, 300, 511, 1000}; if (i < 1 << LB) one(T_UL, f, sizes[q], LB, q % 3, k_dig, i, i & 1); if (i < 1 << UB) one(T_UI, f, sizes[q], f == F_VIN ? UB : 3 * UB, q % 3, k_dig, i, i & 1); break; }
  case K_REC: { u64 n = 0, k = 1; while (i >= k) i -= k, k *= 16, n++; for (int s = 0; s < NSEQ; s++) recsort(s, n, s % 3, mk_small, i); break; }
  case K_RECBIG: { static const int sizes[] = {5, 17, 100, 254, 255, 256, 257, 258, 300, 511, 512, 1000}; int q = dig(&i, 12); for (int bk = 0; bk < 3; bk++) recsort(i, sizes[q], bk, mk_big, q); break; }
  case K_BITS: { static const int sizes[] = {6, 40, 256, 300}; int q = dig(&i, 4); u64 x = i % 64, y = i / 64; if (x > y) break; for (int base = 0; base < 2; base++) for (int f = 0; f < F_N; f++) { u64 a = x | y << 6 | (u64)base << 12; if (y < 8 * LB) one(T_UL, f, sizes[q], f == F_VIN ? LB : 2 * LB, q % 3, k_bits, a, 1); if (y < 8 * UB) one(T_UI, f, sizes[q], UB, q % 3, k_bits, a, 1); } break; }
  case K_HUGE: { int q = dig(&i, 4), t = dig(&i, T_N), f = dig(&i, F_N); static const int ds[] = {1, 4, 6}; one(t, f, hugen[q], (q & 1) && f != F_VIN ? 24 : tsz[t], q % 3, k_dist, ds[i], q & 1); break; }
  case K_RECHUGE: recsort(i, 70001, i % 3, mk_big, 5); break;
  default: { u64 n = 0, k = 1; while (i >= k) i -= k, n++, k *= n; uint perm[10], pool[10]; for (u64 j = 0; j < n; j++) pool[j] = j; for (u64 j = 0; j < n; j++) { u64 x = dig(&i, n - j); perm[j] = pool[x]; pool[x] = pool[n - 1 - j]; }
    struct small { unsigned char c[5]; }; struct small *A = sim_alloc(n * 5), *w = sim_alloc(5); ulong *L = sim_alloc(n * LB); uint *pp = sim_alloc(n * UB), *inv = sim_alloc(n * UB); memcpy(pp, perm, n * UB); for (u64 j = 0; j < n; j++) { for (int q = 0; q < 5; q++) A[j].c[q] = 10 * j + q; L[j] = 1000 + j; }
    sarray_permute(struct small, A, n, pp, w); REQUIRE(!memcmp(pp, perm, n * UB), "sarray_permute changed the permutation");
    for (u64 j = 0; j < n; j++) for (int q = 0; q < 5; q++) REQUIRE(A[j].c[q] == 10 * perm[j] + q, "sarray_permute: element %d is not element perm[%d]", (int)j, (int)j);
    sarray_perm_invert(inv, perm, n); for (u64 j = 0; j < n; j++) REQUIRE(inv[perm[j]] == j, "sarray_perm_invert: wrong at %d", (int)j);
    buffer b; buffer_init(&b, n * UB); memcpy(b.ptr, perm, n * UB); sarray_permute_buf(ulong, L, n, &b); for (u64 j = 0; j < n; j++) { REQUIRE(L[j] == 1000 + perm[j], "sarray_permute_buf: element %d", (int)j); REQUIRE(((uint *)b.ptr)[j] == perm[j], "sarray_permute_buf changed the permutation"); } buffer_free(&b); free(A); free(w); free(L); free(pp); free(inv); sim_steps(3); } }
  sim_state(hash2(i0, 5)); sim_outcome(i0);
}
