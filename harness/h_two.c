/* C27: copies of the library built with other prefixes, Fortran naming and options, linked into one program */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sim.h"
typedef uint64_t u64;
static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h>>29; return h; }
static inline u64 hash2(u64 a, u64 b) { return hmix(hmix(0x1234567, a), b); }
#define REQUIRE(c, ...) do { if (!(c)) sim_violation(__VA_ARGS__); } while (0)
void two_A(int, int, int, int, int, u64 *); void two_B(int, int, int, int, int, u64 *); void two_C(int, int, int, int, int, u64 *);
static void (*const T[])(int, int, int, int, int, u64 *) = {two_A, two_B, two_C};
#define O_N 25
enum { F_ONE, F_PAIR, F_HIST };
static const int PR[6][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 0}, {2, 0}, {2, 1}};
struct fam { int kind, np, a, b, pr, len; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static unsigned char IL[20][6]; /* interleavings of two life cycles */
void h_init(int tier) {
#ifdef FEW
  int few = !tier;
#else
  int few = 0;
#endif
  nf = 0; total = 0; int k = 0; for (int m = 0; m < 64; m++) if (__builtin_popcount(m) == 3) { for (int i = 0; i < 6; i++) IL[k][i] = m >> i & 1; k++; }
  /* every kind in every copy, with the objects of both other copies live */
  for (int np = 1; np <= (tier ? 5 : 3); np++) for (int o = 0; o < O_N; o++) for (int p = 0; p < 3; p++) add((struct fam){F_ONE, np, o, o, p, 0, 8});
  /* every order of two life cycles in two copies: the same kind in both, and all pairs of kinds */
  for (int np = 1; np <= (tier ? 3 : 2); np++) for (int a = 0; a < O_N; a++) for (int b = 0; b < O_N; b++) for (int p = 0; p < 6; p++) if (tier || np == 2 && (a == b || (a + b) % 6 == p)) add((struct fam){F_PAIR, np, a, b, p, 0, 20});
  /* all histories over two slots in each of two copies (8 possible actions) */
  static const int K[][2] = {{7, 7}, {8, 8}, {13, 14}, {0, 7}, {5, 8}, {13, 15}};
  for (int t = 0; t < 6; t++) for (int p = 0; p < 3; p++) for (int l = 3; l <= (tier ? 6 : few ? 3 : 4); l++) add((struct fam){F_HIST, 2, K[t][0], K[t][1], p, l, ipow(8, l)});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
/* action = copy*4 + slot*2 + what; what 0: create, or free if live; 1: use, or nothing if not live (not a history) */
static int hist(u64 x, int len) { int live[4] = {0}; for (int s = 0; s < len; s++) { int d = x % 8; x /= 8; int q = d >> 1; if (!(d & 1)) live[q] = !live[q]; else if (!live[q]) return 0; } return 1; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->np = f->np; c->policies = PM(i % POL_N); c->check_leaks = c->check_stray = 1; c->fill = i & 3; if (f->kind == F_HIST && !hist(i, f->len)) c->np = 1, c->check_leaks = 0; }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d copies %c %c, object kinds %d %d: ", f->np, 'A' + PR[f->pr][0], 'A' + PR[f->pr][1], f->a, f->b);
  if (f->kind == F_PAIR) for (int k = 0; k < 6; k++) { int s = 0; for (int j = 0; j < k; j++) s += IL[i][j] == IL[i][k]; o += snprintf(b + o, n - o, "%s in %c; ", s == 0 ? "create" : s == 1 ? "use" : "free", 'A' + PR[f->pr][IL[i][k]]); }
  else if (f->kind == F_HIST) { u64 x = i; int live[4] = {0}; for (int s = 0; s < f->len; s++) { int d = x % 8, q = d >> 1; x /= 8; o += snprintf(b + o, n - o, "%s %c%d; ", d & 1 ? "use" : live[q] ? "free" : "create", 'A' + PR[f->pr][q >> 1], q & 1); if (!(d & 1)) live[q] = !live[q]; } }
  else snprintf(b + o, n - o, "variant %d, beside live objects of the other copies", (int)i); }
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); u64 oh = 0; const int *pr = PR[f->pr]; int kd[2] = {f->a, f->b};
  switch (f->kind) {
  case F_ONE: for (int c = 0; c < 3; c++) T[c](0, 0, f->a, i + c, 0, &oh); for (int u = 0; u < 6; u++) T[(f->pr + u) % 3](1, 0, 0, 0, u + i, &oh); T[f->pr](2, 0, 0, 0, 0, &oh); for (int u = 0; u < 3; u++) if (u != f->pr) T[u](1, 0, 0, 0, 3, &oh); T[f->pr](0, 1, f->a, i, 0, &oh); T[f->pr](1, 1, 0, 0, 1, &oh); for (int u = 0; u < 3; u++) if (u != f->pr) T[u](2, 0, 0, 0, 0, &oh); T[f->pr](1, 1, 0, 0, 2, &oh); T[f->pr](2, 1, 0, 0, 0, &oh); sim_steps(18); break;
  case F_PAIR: { int st[2] = {0, 0}; for (int k = 0; k < 6; k++) { int h = IL[i][k], a = st[h]++; T[pr[h]](a, 0, kd[h], f->a + h, k, &oh); sim_steps(1); sim_state(hash2(st[0] * 4 + st[1], (f->a * 64 + f->b) * 8 + f->pr)); } } break;
  case F_HIST: { if (!hist(i, f->len)) return; int live[4] = {0}; u64 x = i; for (int s = 0; s < f->len; s++) { int d = x % 8, q = d >> 1; x /= 8; int a = d & 1 ? 1 : live[q] ? 2 : 0; T[pr[q >> 1]](a, q & 1, kd[q & 1], q + f->a, s, &oh); if (!(d & 1)) live[q] = !live[q]; sim_steps(1); sim_state(hash2(live[0] + 2 * live[1] + 4 * live[2] + 8 * live[3], f->a * 8 + f->pr)); } for (int q = 0; q < 4; q++) if (live[q]) T[pr[q >> 1]](1, q & 1, 0, 0, 5, &oh); for (int q = 0; q < 4; q++) if (live[q]) T[pr[q >> 1]](2, q & 1, 0, 0, 0, &oh); } break;
  }
  for (int c = 0; c < 3; c++) T[c](3, 0, 0, 0, 0, &oh);
  REQUIRE(sim_live_comms() == 0, "%d communicators remain", sim_live_comms()); sim_outcome(oh);
}
