/* C19: create/use/free histories of every kind of library object; nothing remains, nothing is released twice */
#include "obj.h"
enum { F_ONE, F_PAIR, F_HIST, F_SCHED, F_PARENT };
struct fam { int kind, np, a, b, c, var, len, bound; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static unsigned char IL[20][6]; /* interleavings of two life cycles */
static const int TRI[][3] = {{O_PW, O_FGS, O_FGS}, {O_AR, O_AUTO, O_CR}, {O_FGS, O_FCR, O_FFP2}, {O_FP2, O_FPMS3, O_CRYSTAL}, {O_FFP3, O_FFP2, O_FFPMS2}, {O_SARRAY, O_LOC3, O_SPLIT}, {O_UNIQ, O_LOCMS2, O_DUP}, {O_FCR, O_FCR, O_FFPMS3}, {O_FPMS2, O_FP3, O_SORT}, {O_LOC2, O_LOCMS3, O_POLY}};
#define NTRI 10
#define DIG 6
void h_init(int tier) {
  nf = 0; total = 0; int k = 0; for (int m = 0; m < 64; m++) if (__builtin_popcount(m) == 3) { for (int i = 0; i < 6; i++) IL[k][i] = m >> i & 1; k++; }
  for (int np = 1; np <= (tier ? 7 : 5); np++) for (int o = 0; o < O_N; o++) for (int v = 0; v < 8; v++) add((struct fam){F_ONE, np, o, 0, 0, v, 0, 0, 1}), add((struct fam){F_PARENT, np, o, 0, 0, v, 0, 0, 1});
  for (int np = 1; np <= (tier ? 4 : 2); np++) for (int a = 0; a < O_N; a++) for (int b = 0; b < O_N; b++) add((struct fam){F_PAIR, np, a, b, 0, a + b, 0, 0, 20});
  for (int np = 1; np <= 3; np++) for (int t = 0; t < NTRI; t++) for (int l = 2; l <= (tier ? np == 2 ? 7 : 6 : np == 2 ? 6 : 4); l++) add((struct fam){F_HIST, np, TRI[t][0], TRI[t][1], TRI[t][2], t, l, 0, ipow(DIG, l)});
  for (int np = 2; np <= (tier ? 3 : 2); np++) for (int o = 0; o < O_N; o++) for (int v = 0; v < (tier ? 2 : 1); v++) add((struct fam){F_SCHED, np, o, 0, 0, v, 0, 1, 1});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
/* actions: 0 create 1 use 2 free; -1 if the number does not name a history */
static int hist(const struct fam *f, u64 x, int *act, int *arg) {
  int live[3] = {0}, n = 0;
  for (int s = 0; s < f->len; s++) { int a[8], g[8], m = 0; for (int h = 0; h < 3; h++) if (live[h]) { a[m] = 1; g[m++] = h; a[m] = 2; g[m++] = h; } else { a[m] = 0; g[m++] = h; } int d = dig(&x, DIG); if (d >= m) return -1; act[n] = a[d]; arg[n++] = g[d]; if (a[d] == 0) live[g[d]] = 1; if (a[d] == 2) live[g[d]] = 0; }
  return n;
}
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); int a[16], g[16]; c->np = f->np; c->policies = f->kind == F_SCHED ? PM_DEFAULT : f->kind == F_ONE ? PM_DEFAULT : PM(i % POL_N); c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_leaks = c->check_stray = 1; c->fill = i & 3; if (f->kind == F_HIST && hist(f, i, a, g) < 0) c->np = 1, c->check_leaks = 0; }
static const char *an[] = {"create", "use", "free"};
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d ", f->np), a[16], g[16], m;
  switch (f->kind) { case F_ONE: case F_SCHED: case F_PARENT: o += snprintf(b + o, n - o, "%s variant %d%s%s", okn[f->a], f->var, f->kind == F_SCHED ? ", schedules" : "", f->kind == F_PARENT ? ", parent communicator freed right after creation" : ": three rounds of create, use, free"); break;
  case F_PAIR: for (int k = 0; k < 6; k++) { int s = 0; for (int j = 0; j < k; j++) s += IL[i][j] == IL[i][k]; o += snprintf(b + o, n - o, "%s %s; ", an[s], okn[IL[i][k] ? f->b : f->a]); } break;
  default: m = hist(f, i, a, g); for (int k = 0; k < m; k++) o += snprintf(b + o, n - o, "%s object %d (%s); ", an[a[k]], g[k], okn[g[k] == 0 ? f->a : g[k] == 1 ? f->b : f->c]); }
}
static void level(int round, size_t *l0, int *c0, const char *what) { size_t l = sim_live(); int c = sim_live_comms(); if (round > 0) { REQUIRE(l <= *l0, "%s: %zu library blocks remain after round %d, %zu after the first", what, l, round + 1, *l0); REQUIRE(c <= *c0, "%s: %d communicators remain after round %d, %d after the first", what, c, round + 1, *c0); } else *l0 = l, *c0 = c; }
static struct obj O[3];
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); u64 oh = 0; size_t l0 = 0; int c0 = 0, act[16], arg[16], m = 0; if (f->kind == F_HIST && (m = hist(f, i, act, arg)) < 0) return;
  struct comm w; world(&w); int kd[3] = {f->a, f->b, f->c};
  switch (f->kind) {
  case F_ONE: for (int r = 0; r < 3; r++) { ob_create(O, f->a, &w, f->var); for (int u = 0; u < r * 4 + 1; u++) ob_use(O, r ? u : f->var, &oh); ob_free(O); sim_steps(2 + r); if (r == 0) { ob_create(O, f->a, &w, f->var); for (int u = 0; u < 12; u++) ob_use(O, u, &oh); ob_free(O); } level(r, &l0, &c0, okn[f->a]); } break;
  case F_SCHED: ob_create(O, f->a, &w, f->var); ob_use(O, f->var, &oh); ob_use(O, 3, &oh); ob_free(O); break;
  case F_PARENT: { struct comm d; for (int r = 0; r < 2; r++) { comm_dup(&d, &w); ob_create(O, f->a, &d, f->var); comm_free(&d); O[0].par = w; for (int u = 0; u < 3; u++) ob_use(O, f->var + u, &oh); ob_free(O); if (r) level(r, &l0, &c0, okn[f->a]); else { comm_dup(&d, &w); ob_create(O, f->a, &d, f->var); comm_free(&d); O[0].par = w; for (int u = 0; u < 3; u++) ob_use(O, f->var + u, &oh); ob_free(O); level(0, &l0, &c0, okn[f->a]); } } } break;
  case F_PAIR: for (int r = 0; r < 2; r++) { int st[2] = {0, 0}; for (int k = 0; k < 6; k++) { int h = IL[i][k]; switch (st[h]++) { case 0: ob_create(O + h, kd[h], &w, f->var + h); break; case 1: ob_use(O + h, f->var % 3 + k, &oh); break; default: ob_free(O + h); } sim_steps(1); sim_state(hash2(st[0] * 4 + st[1], f->a * 64 + f->b)); } level(r, &l0, &c0, "two objects"); } break;
  case F_HIST: for (int r = 0; r < 2; r++) { int live[3] = {0}; for (int k = 0; k < m; k++) { int h = arg[k]; switch (act[k]) { case 0: ob_create(O + h, kd[h], &w, f->var + h); live[h] = 1; break; case 1: ob_use(O + h, k, &oh); break; default: ob_free(O + h); live[h] = 0; } sim_steps(1); sim_state(hash2(live[0] + 2 * live[1] + 4 * live[2], k * 64 + f->var)); } for (int h = 0; h < 3; h++) if (live[h]) ob_use(O + h, 5, &oh); for (int h = 0; h < 3; h++) if (live[h]) ob_free(O + h); level(r, &l0, &c0, "history"); } break;
  }
  comm_free(&w); REQUIRE(sim_live_comms() == 0, "%d communicators remain", sim_live_comms()); sim_outcome(oh); sim_state(oh);
}
