/* C21: dynamic arrays: every operation sequence to a depth, against a plain model of the contents; alignment helpers */
#include "hcommon.h"
enum { O_RES0, O_RESN, O_RESMAX, O_RESMAX1, O_RESBIG, O_RESODD, O_PUSH, O_CAT0, O_CAT1, O_CAT3, O_CAT17, O_CATB, O_TOB, O_FIT, O_SIZE1, O_SIZE2, O_REINIT0, O_REINIT5, O_NULL, O_POP, O_CATL, O_RESL, O_SIZEL, NOPL, NOP = O_CATL };
static const char *on[NOPL] = {"reserve(0)", "reserve(n)", "reserve(max)", "reserve(max+1)", "reserve(2max+5)", "reserve(n+3)", "push", "cat(0)", "cat(1)", "cat(3)", "cat(17)", "cat(other array)", "other.cat(this)", "resize(n)", "resize(n+1)", "resize(2n+3)", "free,init(0)", "free,init(5)", "free,null_array", "pop", "cat(70000 bytes)", "reserve(n and 66000 bytes)", "resize(140000 bytes)"};
struct t3 { char c[3]; }; struct t24 { double d; int i; char c; long l; };
static int DEPTH; static u64 per;
#define NT 6
#define NINIT 3
enum { NALIGN = 300 };
static u64 nseqcase, total;
void h_init(int tier) { DEPTH = tier ? 6 : 5; per = 1; nseqcase = (u64)NT * NINIT * NOP * NOP; total = nseqcase + NALIGN + NT * 3 + NT * NINIT * NOP + NT; }
uint64_t h_ncases(void) { return total; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; c->check_leaks = 1; }
static const char *tn[NT] = {"char", "3-byte record", "float", "double", "24-byte record", "char (as buffer)"};
static const int ts[NT] = {1, 3, 4, 8, sizeof(struct t24), 1};
void h_describe(uint64_t i, char *b, size_t m) {
  if (i >= nseqcase + NALIGN + NT * 3) { i -= nseqcase + NALIGN + NT * 3; if (i >= NT * NINIT * NOP) { snprintf(b, m, "more than 4 GB of %s", tn[i - NT * NINIT * NOP]); return; } int t = dig(&i, NT), k = dig(&i, NINIT); snprintf(b, m, "array of %s, initial state %s, cat(70000 bytes), %s, then every operation including large ones", tn[t], k == 0 ? "null_array" : k == 1 ? "init(0)" : "init(4)", on[i]); return; }
  if (i >= nseqcase) { i -= nseqcase; if (i < NALIGN) snprintf(b, m, "alignment helpers at offset %d", (int)i); else snprintf(b, m, "growth one element at a time, %s, start %d", tn[(i - NALIGN) % NT], (int)(i - NALIGN) / NT); return; }
  int t = dig(&i, NT), k = dig(&i, NINIT), a = dig(&i, NOP); snprintf(b, m, "array of %s, initial state %s, then %s, %s and every sequence of %d more", tn[t], k == 0 ? "null_array" : k == 1 ? "init(0)" : "init(4)", on[a], on[i], DEPTH - 2);
}
static int T; static unsigned char ctr; static char path[400];
#define BY(call1, call2, call3, call4, call5, call6) switch (T) { case 0: call1; break; case 1: call2; break; case 2: call3; break; case 3: call4; break; case 4: call5; break; default: call6; }
static void do_init(struct array *a, size_t n) { BY(array_init(char, a, n), array_init(struct t3, a, n), array_init(float, a, n), array_init(double, a, n), array_init(struct t24, a, n), buffer_init(a, n)) }
static void *do_res(struct array *a, size_t n) { void *r; BY(r = array_reserve(char, a, n), r = array_reserve(struct t3, a, n), r = array_reserve(float, a, n), r = array_reserve(double, a, n), r = array_reserve(struct t24, a, n), r = buffer_reserve(a, n)) return r; }
static void do_size(struct array *a, size_t n) { BY(array_resize(char, a, n), array_resize(struct t3, a, n), array_resize(float, a, n), array_resize(double, a, n), array_resize(struct t24, a, n), buffer_resize(a, n)) }
static void do_cat(struct array *a, const void *s, size_t n) { BY(array_cat(char, a, s, n), array_cat(struct t3, a, s, n), array_cat(float, a, s, n), array_cat(double, a, s, n), array_cat(struct t24, a, s, n), array_cat(char, a, s, n)) }
/* the model: n and the bytes stored */
struct model { size_t n; unsigned char b[32 * 300000]; };
static struct array A, B; static struct model mA, mB; static int sz; static unsigned char src[80000];
static void verify(struct array *a, struct model *m, size_t room, const char *w) {
  REQUIRE(a->n == m->n, "%s: the %s has count %d, expected %d", path, w, (int)a->n, (int)m->n);
  REQUIRE(a->max >= room && a->max >= a->n, "%s: the %s has room for %d, asked for %d (count %d)", path, w, (int)a->max, (int)room, (int)a->n);
  if (a->max) { REQUIRE(a->ptr, "%s: the %s has room %d but no memory", path, w, (int)a->max); }
  if (m->n) REQUIRE(!memcmp(a->ptr, m->b, m->n * sz), "%s: stored elements of the %s changed", path, w);
  if (a->max > a->n) { memset((char *)a->ptr + a->n * sz, 0x5a ^ ctr, (a->max - a->n) * sz); } /* must be ours */
}
static void add(struct array *a, struct model *m, const void *s, size_t n) { memcpy(m->b + m->n * sz, s, n * sz); m->n += n; (void)a; }
static size_t lim = 1500;
static int apply(int o) { /* 0: not applicable */
  struct array a0 = A; size_t room = A.max, k; void *r;
  switch (o) {
  case O_RES0: case O_RESN: case O_RESMAX: case O_RESMAX1: case O_RESBIG: case O_RESODD: {
    k = o == O_RES0 ? 0 : o == O_RESN ? A.n : o == O_RESMAX ? A.max : o == O_RESMAX1 ? A.max + 1 : o == O_RESBIG ? 2 * A.max + 5 : A.n + 3; if (k > lim) return 0;
    r = do_res(&A, k); REQUIRE(r == A.ptr, "%s: reserve returned another pointer than the array's", path);
    if (a0.max >= k) REQUIRE(A.ptr == a0.ptr && A.max == a0.max, "%s: reserve(%d) with room for %d changed the array", path, (int)k, (int)a0.max);
    verify(&A, &mA, k > a0.max ? k : a0.max, "array"); return 1; }
  case O_PUSH: { unsigned char *p = do_res(&A, A.n + 1); for (int i = 0; i < sz; i++) src[i] = ctr++ * 3 + i; memcpy(p + A.n * sz, src, sz); A.n++; add(&A, &mA, src, 1); room = A.n; break; }
  case O_CAT0: case O_CAT1: case O_CAT3: case O_CAT17: { k = o == O_CAT0 ? 0 : o == O_CAT1 ? 1 : o == O_CAT3 ? 3 : 17; for (int i = 0; i < k * sz; i++) src[i] = ctr++ * 5 + i; do_cat(&A, src, k); add(&A, &mA, src, k); room = A.n; break; }
  case O_CATB: { if (mA.n + mB.n > lim) return 0; do_cat(&A, B.ptr, B.n); add(&A, &mA, mB.b, mB.n); room = A.n; break; }
  case O_TOB: { if (mA.n + mB.n > lim) return 0; do_cat(&B, A.ptr, A.n); add(&B, &mB, mA.b, mA.n); break; }
  case O_FIT: case O_SIZE1: case O_SIZE2: { k = o == O_FIT ? A.n : o == O_SIZE1 ? A.n + 1 : 2 * A.n + 3; if (k > lim) return 0; do_size(&A, k); REQUIRE(A.max >= k, "%s: resize(%d) left the room at %d", path, (int)k, (int)A.max); room = k; break; }
  case O_REINIT0: case O_REINIT5: { array_free(&A); memset(&A, 0xA5, sizeof A); do_init(&A, o == O_REINIT0 ? 0 : 5); mA.n = 0; room = o == O_REINIT0 ? 0 : 5; break; }
  case O_NULL: { array_free(&A); struct array z = null_array; A = z; mA.n = 0; room = 0; break; }
  case O_CATL: { k = 70000 / sz; if (A.n + k > lim) return 0; for (int i = 0; i < k * sz; i++) src[i] = hash2(i, ctr); ctr++; do_cat(&A, src, k); add(&A, &mA, src, k); room = A.n; break; }
  case O_RESL: { k = A.n + 66000 / sz; r = do_res(&A, k); REQUIRE(r == A.ptr, "%s: reserve returned another pointer than the array's", path); verify(&A, &mA, k, "array"); return 1; }
  case O_SIZEL: { k = 140000 / sz; if (A.n > k) return 0; do_size(&A, k); REQUIRE(A.max >= k, "%s: resize(%d) left the room at %d", path, (int)k, (int)A.max); room = k; break; }
  case O_POP: { if (!A.n) return 0; A.n--; mA.n--; break; }
  }
  verify(&A, &mA, o == O_FIT || o == O_SIZE1 || o == O_SIZE2 || o >= O_REINIT0 ? room : A.n, "array"); verify(&B, &mB, 0, "other array"); return 1;
}
static u64 nstates;
static void run_seq(const int *ops, int n, int init) {
  struct array z = null_array; A = z; B = z; mA.n = mB.n = 0; ctr = 1;
  if (init == 1) { memset(&A, 0xA5, sizeof A); do_init(&A, 0); } else if (init == 2) { memset(&A, 0xA5, sizeof A); do_init(&A, 4); REQUIRE(A.n == 0 && A.max >= 4, "init(4): count %d room %d", (int)A.n, (int)A.max); }
  int o = snprintf(path, sizeof path, "%s", init == 0 ? "null" : init == 1 ? "init(0)" : "init(4)"); u64 h = hash2(T, init);
  for (int i = 0; i < n; i++) { o += snprintf(path + o, sizeof path - o, ", %s", on[ops[i]]); if (!apply(ops[i])) break; h = hmix(h, ops[i]); sim_steps(1); if (i == n - 1) sim_state(hmix(hmix(A.n, A.max), hmix(B.n, B.max) ^ T)); }
  if (A.ptr) array_free(&A); if (B.ptr) array_free(&B);
}
#define AL(T, k) do { size_t a = __alignof__(T), e = k; while (e % a) e++; REQUIRE(align_as(T, k) == e, "align_as(" #T ", %d) is %d, expected %d", (int)(k), (int)align_as(T, k), (int)e); static char base[4096] __attribute__((aligned(64))); REQUIRE((char *)align_ptr(T, base, k) == base + e, "align_ptr(" #T ", base, %d) is at %d, expected %d", (int)(k), (int)((char *)align_ptr(T, base, k) - base), (int)e); sim_steps(2); } while (0)
void h_rank(uint64_t i, int p) {
  u64 i0 = i;
  if (i < nseqcase) {
    T = dig(&i, NT); int init = dig(&i, NINIT), ops[8]; sz = ts[T]; ops[0] = dig(&i, NOP); ops[1] = i;
    /* shorter sequences occur as prefixes */
    u64 n = 1; for (int d = 2; d < DEPTH; d++) n *= NOP; for (u64 c = 0; c < n; c++) { u64 x = c; for (int d = 2; d < DEPTH; d++) ops[d] = dig(&x, NOP); run_seq(ops, DEPTH, init); }
  } else if (i >= nseqcase + NALIGN + NT * 3 + NT * NINIT * NOP) { /* sizes beyond 32 bits; the pages are hardly touched */
    T = i - (nseqcase + NALIGN + NT * 3 + NT * NINIT * NOP); sz = ts[T]; size_t n = ((size_t)1 << 32) / sz + 1000; if (T != 0 && T != 3 && T != 5) { sim_outcome(i0); return; } struct array a = null_array; unsigned char *q = do_res(&a, n), b[64]; for (int k = 0; k < 64; k++) b[k] = 7 * k + 1;
    REQUIRE(a.max >= n && q == a.ptr, "reserve(%llu) of %s: room for %llu", (unsigned long long)n, tn[T], (unsigned long long)a.max); memset(q, 9, 4096); memset(q + (n - 1) * sz, 3, sz); a.n = n - 8; do_cat(&a, b, 8); REQUIRE(a.n == n && a.ptr == q && !memcmp(q + (n - 8) * sz, b, 8 * sz < 64 ? 8 * sz : 64), "cat to %llu elements of %s", (unsigned long long)n - 8, tn[T]);
    for (int k = 0; k < 4096; k++) REQUIRE(q[k] == 9, "cat to %llu elements of %s overwrote the start", (unsigned long long)n - 8, tn[T]); array_free(&a); sim_steps(3); sim_state(hash2(i, 5));
  } else if (i >= nseqcase + NALIGN + NT * 3) {
    i -= nseqcase + NALIGN + NT * 3; T = dig(&i, NT); int init = dig(&i, NINIT), ops[4]; sz = ts[T]; lim = 290000; ops[1] = i; for (int a = 0; a < 2; a++) for (int o = 0; o < NOPL; o++) for (int l = 0; l < 2; l++) { if (a && i == O_TOB) continue; ops[0] = O_CATL; ops[1] = i; ops[2] = o; ops[3] = l ? O_CATL : O_PUSH; if (a) ops[0] = i, ops[1] = O_CATL; run_seq(ops, 4, init); } lim = 1500;
  } else if ((i -= nseqcase) < NALIGN) {
    AL(char, i); AL(short, i); AL(float, i); AL(double, i); AL(struct t3, i); AL(struct t24, i); AL(long double, i); AL(uint, i); AL(ulong, i); AL(void *, i);
    size_t big = ((size_t)1 << 40) + i, e = big; while (e % 8) e++; REQUIRE(align_as(double, big) == e, "align_as(double, 2^40+%d)", (int)i);
  } else {
    i -= NALIGN; T = i % NT; int k = i / NT; sz = ts[T]; struct array a = null_array; if (k) do_init(&a, k == 1 ? 0 : 3); static unsigned char ref[32 * 20001]; u64 moves = 0; size_t N = 20000;
    for (size_t j = 0; j < N; j++) { size_t mx = a.max; unsigned char *q = do_res(&a, j + 1); if (a.max != mx) moves++; REQUIRE(a.max > j, "growth: room %d at element %d", (int)a.max, (int)j); for (int b = 0; b < sz; b++) ref[j * sz + b] = q[j * sz + b] = hash2(j, b); a.n = j + 1; if ((j & (j - 1)) == 0 || j == N - 1) REQUIRE(!memcmp(ref, a.ptr, (j + 1) * sz), "growth: contents changed by element %d", (int)j); }
    REQUIRE(moves <= 60, "growth in bursts: %d reallocations for %d elements added one at a time", (int)moves, (int)N); array_free(&a); sim_steps(N); sim_state(hash2(i, 77));
  }
  sim_outcome(i0);
}
