/* C16: piecewise linear bounds of polynomials in 1, 2, 3 dimensions, against extended-precision values on a dense grid */
#include "hcommon.h"
typedef long double ld;
#define MAXN 40
enum { K_1D, K_COARSE, K_2D, K_3D, K_KINDS };
static int N1, nc[K_KINDS], tier_; static struct { int k, n[3], m[3], part; } *CS; static int ncs;
static void add(int k, int nr, int ns, int nt, int mr, int ms, int mt, int part) { if (!(ncs & 1023)) CS = realloc(CS, (ncs + 1024) * sizeof *CS); CS[ncs].k = k; CS[ncs].n[0] = nr; CS[ncs].n[1] = ns; CS[ncs].n[2] = nt; CS[ncs].m[0] = mr; CS[ncs].m[1] = ms; CS[ncs].m[2] = mt; CS[ncs].part = part; ncs++; }
#define NPART 8
void h_init(int tier) {
  tier_ = tier; N1 = tier ? 32 : 20; ncs = 0;
  for (int n = 2; n <= N1; n++) for (int m = 2 * n; m <= 4 * n + 1; m++) add(K_1D, n, 0, 0, m, 0, 0, 0);
  for (int n = 2; n <= N1; n++) for (int m = n + 1; m < 2 * n; m++) add(K_COARSE, n, 0, 0, m, 0, 0, 0);
  for (int nr = 2; nr <= (tier ? 7 : 5); nr++) for (int ns = 2; ns <= (tier ? 7 : 5); ns++) for (int q = 0; q < 4; q++) for (int p = 0; p < NPART; p++) add(K_2D, nr, ns, 0, q & 1 ? 3 * nr + 1 : 2 * nr, q & 2 ? 4 * ns : 2 * ns, 0, p);
  for (int nr = 2; nr <= 4; nr++) for (int ns = 2; ns <= 4; ns++) for (int nt = 2; nt <= 4; nt++) for (int q = 0; q < (tier ? 8 : 2); q++) for (int p = 0; p < NPART; p++) add(K_3D, nr, ns, nt, (q & 1) ? 3 * nr : 2 * nr, (q & 2) ? 2 * ns + 1 : 2 * ns, (q & 4) ? 3 * nt : 2 * nt + (q & 1), p);
}
uint64_t h_ncases(void) { return ncs; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; c->check_leaks = 1; }
void h_describe(uint64_t i, char *b, size_t n) { int k = CS[i].k; if (k <= K_COARSE) snprintf(b, n, "1-D, %d nodes, %d bound points", CS[i].n[0], CS[i].m[0]); else snprintf(b, n, "%d-D, nodes %d,%d,%d, bound points %d,%d,%d, data family part %d", k, CS[i].n[0], CS[i].n[1], CS[i].n[2], CS[i].m[0], CS[i].m[1], CS[i].m[2], CS[i].part); }
static void nodes(int n, ld *Z) {
  int N = n - 1; const ld pi = 3.14159265358979323846264338327950288L;
  for (int i = 0; i < n; i++) { ld x = -cosl(pi * i / N); if (i == 0) x = -1; else if (i == n - 1) x = 1; else for (int it = 0; it < 30; it++) { ld p0 = 1, p1 = x; for (int k = 1; k < N; k++) { ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } ld dp = N * (p0 - x * p1) / (1 - x * x), d2 = (2 * x * dp - (ld)N * (N + 1) * p1) / (1 - x * x); x -= dp / d2; } Z[i] = x; }
}
struct dir { int n, m, S, K; ld Z[MAXN], *x, *L, *t; int *j; double *data; ld h[200]; };
static void dir_setup(struct dir *d, int n, int m, int S) {
  const ld pi = 3.14159265358979323846264338327950288L; d->n = n; d->m = m; d->S = S; nodes(n, d->Z); d->K = (m - 1) * S + 1;
  for (int j = 0; j < m; j++) d->h[j] = j == 0 ? -1 : j == m - 1 ? 1 : cosl((m - 1 - j) * pi / (m - 1));
  d->x = sim_alloc(d->K * sizeof(ld)); d->t = sim_alloc(d->K * sizeof(ld)); d->j = sim_alloc(d->K * sizeof(int)); d->L = sim_alloc(d->K * n * sizeof(ld));
  for (int k = 0; k < d->K; k++) { int j = k / S; if (j == m - 1) j--; d->j[k] = j; d->t[k] = (ld)(k - j * S) / S; d->x[k] = d->h[j] + (d->h[j + 1] - d->h[j]) * d->t[k]; if (k == d->K - 1) d->x[k] = 1; for (int i = 0; i < n; i++) { ld r = 1; for (int q = 0; q < n; q++) if (q != i) r *= (d->x[k] - d->Z[q]) / (d->Z[i] - d->Z[q]); d->L[k * n + i] = r; } }
  d->data = sim_alloc(lob_bnd_size(n, m) * 8); lob_bnd_setup(d->data, n, m);
}
static void dir_free(struct dir *d) { free(d->x); free(d->t); free(d->j); free(d->L); free(d->data); }
static u64 oh; static int coarse; static char what[200];
static double scale(const double *u, int n) { double s = 0; for (int i = 0; i < n; i++) s += fabs(u[i]); return s; }
static void bad(ld v, double s, const char *fmt, double x, double y, double z, double f, double lo, double up) {
  char b[400]; snprintf(b, sizeof b, fmt, what, x, y, z, f, lo, up);
  if (coarse && v <= 0.1 * s) sim_known("bounds-coarse", "%s", b); else sim_violation("%s", b);
}
#define TOL(s) (2e-13 * (s) + 1e-300)
/* tight: data constant or linear in every direction */
static void check1(struct dir *d, const double *u, const double *b, struct dbl_range r, int tight) {
  double s = scale(u, d->n); ld mn = 1e300L, mx = -1e300L; double lo0 = b[0], up0 = b[1];
  for (int j = 0; j < d->m; j++) { REQUIRE(b[2 * j] <= b[2 * j + 1] + TOL(s), "%s: lower bound above upper bound at node %d", what, j); if (b[2 * j] < lo0) lo0 = b[2 * j]; if (b[2 * j + 1] > up0) up0 = b[2 * j + 1]; }
  for (int k = 0; k < d->K; k++) { ld f = 0; for (int i = 0; i < d->n; i++) f += u[i] * d->L[k * d->n + i]; int j = d->j[k]; ld t = d->t[k], lo = b[2 * j] * (1 - t) + b[2 * j + 2] * t, up = b[2 * j + 1] * (1 - t) + b[2 * j + 3] * t; if (f < mn) mn = f; if (f > mx) mx = f;
    ld v = lo - f > f - up ? lo - f : f - up; if (v > TOL(s)) { bad(v, s, "%s: at x=%.17g (%g %g) the value %.17g is outside the bounds [%.17g, %.17g]", d->x[k], 0, 0, f, lo, up); return; } }
  { ld v = r.min - mn > mx - r.max ? r.min - mn : mx - r.max; if (v > TOL(s)) bad(v, s, "%s: values (%g %g %g) from %.17g are outside the returned range [%.17g, %.17g]", 0, 0, 0, r.min > mn ? mn : mx, r.min, r.max); }
  REQUIRE(r.min <= lo0 + TOL(s) && r.max >= up0 - TOL(s), "%s: returned range [%.17g, %.17g] is not the range of the bounds [%.17g, %.17g]", what, r.min, r.max, lo0, up0);
  if (tight) REQUIRE(r.min >= mn - 4 * TOL(s) && r.max <= mx + 4 * TOL(s), "%s: range [%.17g, %.17g] of linear data [%.17g, %.17g] is not tight", what, r.min, r.max, (double)mn, (double)mx);
  oh = hmix(oh, (u64)(1e6 * r.max)); sim_steps(1);
}
static const double SC[] = {1, 3e-4, 2e6, 1e-9};
static void do1s(struct dir *d, const double *u, int tight);
/* the vector itself, and scaled */
static void do1(struct dir *d, const double *u, int tight) { static int c; double v[MAXN]; do1s(d, u, tight); double f = SC[1 + c++ % 3]; if (d->n > 7 && c % 4) return; for (int i = 0; i < d->n; i++) v[i] = u[i] * f; do1s(d, v, tight); }
static void do1s(struct dir *d, const double *u, int tight) {
  static int cnt; int un = 1 + cnt++ % 3; double *uu = sim_alloc(8 * d->n * un), *b = sim_alloc(16 * d->m * un), *w = sim_alloc(16 * d->m);
  /* batches: the vector in question is the last, after others */
  for (int q = 0; q < un; q++) for (int i = 0; i < d->n; i++) uu[q * d->n + i] = q == un - 1 ? u[i] : (q + 1) * (i % 2 ? -2. : 3.) * (i + 1);
  lob_bnd_lin_1(b, d->data, d->n, d->m, uu, un); struct dbl_range r = lob_bnd_1(d->data, d->n, d->m, uu + d->n * (un - 1), w);
  for (int q = 0; q < un; q++) { if (q < un - 1) { double rr[2] = {1e300, -1e300}; struct dbl_range R = lob_bnd_1(d->data, d->n, d->m, uu + q * d->n, w); check1(d, uu + q * d->n, b + 2 * d->m * q, R, 0); } else check1(d, u, b + 2 * d->m * q, r, tight); }
  free(uu); free(b); free(w);
}
static void run1(int n, int m) {
  struct dir d; dir_setup(&d, n, m, 8); double u[MAXN]; snprintf(what, sizeof what, "n=%d m=%d", n, m);
  for (int c = 0; c < 4; c++) { double C[] = {0, 1, -3.25e8, 1e-9}; for (int i = 0; i < n; i++) u[i] = C[c]; do1(&d, u, 1); for (int i = 0; i < n; i++) u[i] = C[c] - (c + 1) * (double)d.Z[i]; do1(&d, u, 1); }
  if (n <= 7) { int T = 1; for (int i = 0; i < n; i++) T *= 3; for (int k = 0; k < T; k++) { for (int i = 0, x = k; i < n; i++, x /= 3) u[i] = x % 3 - 1; do1(&d, u, n == 2); } }
  else for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (int s = 0; s < 4; s++) { for (int q = 0; q < n; q++) u[q] = 0; u[i] = s & 1 ? 1 : -1; if (j != i) u[j] = s & 2 ? 1 : -1; else if (s & 2) continue; do1(&d, u, 0); }
  for (int e = 2; e < n; e++) { for (int i = 0; i < n; i++) { ld p0 = 1, p1 = d.Z[i], x = d.Z[i]; for (int k = 1; k < e; k++) { ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } u[i] = p1; } do1(&d, u, 0); for (int i = 0; i < n; i++) u[i] = powl(d.Z[i], e) * 1e5 + 7; do1(&d, u, 0); for (int i = 0; i < n; i++) u[i] = (i % e) ? -1 : 1; do1(&d, u, 0); for (int i = 0; i < n; i++) u[i] = i < e ? -1 : 1; do1(&d, u, 0); }
  dir_free(&d);
}
/* data families in 2 and 3 dimensions: number of vectors and the k-th */
static int nfam(int nt) { int b = 2 * nt + nt * (nt - 1); return nt <= 4 ? 81 : nt <= 9 ? 512 + b : b < 700 ? b : 700; }
static void fam(int k, int nt, double *u) {
  for (int i = 0; i < nt; i++) u[i] = 0; if (nt <= 4) { for (int i = 0; i < nt; i++, k /= 3) u[i] = k % 3 - 1; return; } if (nt <= 9) { if (k < 512) { for (int i = 0; i < nt; i++) u[i] = (k >> i & 1) ? 1 : -1; return; } k -= 512; }
  if (k < 2 * nt) { u[k / 2] = k & 1 ? -1 : 1; return; } k -= 2 * nt; int tot = nt * (nt - 1); if (tot + 2 * nt > 700) k = (long long)k * tot / (700 - 2 * nt); int s = k & 1; k /= 2; int i = 0; while (k >= nt - 1 - i) k -= nt - 1 - i, i++; u[i] = 1; u[i + 1 + k] = s ? -1 : 1;
}
static void runN(int D, const int *n, const int *m, int part) {
  struct dir d[3]; int nt = 1, M = 1; int S = D == 2 ? 4 : 2; for (int q = 0; q < D; q++) dir_setup(&d[q], n[q], m[q], S), nt *= n[q], M *= m[q]; int K[3] = {d[0].K, d[1].K, D == 3 ? d[2].K : 1}; int np = K[0] * K[1] * K[2];
  double *u = sim_alloc(8 * nt * 2), *b = sim_alloc(16 * M * 2); size_t wl = D == 2 ? 2 * m[0] + 2 * n[1] * m[0] : 2 * m[0] * m[1] + 2 * n[2] * m[1] * m[0], wr = D == 2 ? 2 * m[0] * (n[1] + m[1] + 1) : 2 * m[0] * m[1] * (n[2] + m[2] + 1);
  double *w1 = sim_alloc(8 * wl), *w2 = sim_alloc(8 * wr); int lin = n[0] == 2 && n[1] == 2 && (D == 2 || n[2] == 2); int F = nfam(nt) + 6;
  double *A = sim_alloc(8 * K[0] * n[1] * (D == 3 ? n[2] : 1)), *B = sim_alloc(8 * K[0] * K[1] * (D == 3 ? n[2] : 1)), *P = sim_alloc(8 * np);
  for (int k = part; k < F; k += NPART) {
    int tight = 0; if (k < nfam(nt)) fam(k, nt, u); else { int c = k - nfam(nt); tight = 1; for (int i = 0; i < nt; i++) { int a[3] = {i % n[0], i / n[0] % n[1], i / n[0] / n[1]}; double x = d[0].Z[a[0]], y = d[1].Z[a[1]], z = D == 3 ? (double)d[2].Z[a[2]] : 0; u[i] = c == 0 ? 0 : c == 1 ? 5 : c == 2 ? x - 3 : c == 3 ? 2 * y : c == 4 ? z - x + 1 : -x - y - 1000 * z; } }
    { double f = SC[k / NPART % 4]; for (int i = 0; i < nt; i++) u[i] *= f; }
    for (int i = 0; i < nt; i++) u[nt + i] = i % 3 == 0 ? -2 : i % 2 ? 1.5 : 0.25 * i; int bad2 = k & 1; /* in a batch of two, first or second */
    if (bad2) for (int i = 0; i < nt; i++) { double t = u[i]; u[i] = u[nt + i]; u[nt + i] = t; }
    if (D == 2) lob_bnd_lin_2(b, d[0].data, n[0], m[0], d[1].data, n[1], m[1], u, 2, w1); else lob_bnd_lin_3(b, d[0].data, n[0], m[0], d[1].data, n[1], m[1], d[2].data, n[2], m[2], u, 2, w1);
    for (int q = 0; q < 2; q++) {
      const double *v = u + q * nt, *bb = b + 2 * M * q; double s = scale(v, nt); int n2 = D == 3 ? n[2] : 1; struct dbl_range r = D == 2 ? lob_bnd_2(d[0].data, n[0], m[0], d[1].data, n[1], m[1], v, w2) : lob_bnd_3(d[0].data, n[0], m[0], d[1].data, n[1], m[1], d[2].data, n[2], m[2], v, w2);
      for (int c = 0; c < n2; c++) for (int e = 0; e < n[1]; e++) for (int x = 0; x < K[0]; x++) { ld f = 0; for (int i = 0; i < n[0]; i++) f += v[(c * n[1] + e) * n[0] + i] * d[0].L[x * n[0] + i]; A[(c * n[1] + e) * K[0] + x] = f; }
      for (int c = 0; c < n2; c++) for (int y = 0; y < K[1]; y++) for (int x = 0; x < K[0]; x++) { ld f = 0; for (int i = 0; i < n[1]; i++) f += A[(c * n[1] + i) * K[0] + x] * d[1].L[y * n[1] + i]; B[(c * K[1] + y) * K[0] + x] = f; }
      double mn = 1e300, mx = -1e300;
      for (int z = 0; z < K[2]; z++) for (int y = 0; y < K[1]; y++) for (int x = 0; x < K[0]; x++) { ld f; if (D == 2) f = B[y * K[0] + x]; else { f = 0; for (int i = 0; i < n[2]; i++) f += B[(i * K[1] + y) * K[0] + x] * d[2].L[z * n[2] + i]; }
        int jx = d[0].j[x], jy = d[1].j[y], jz = D == 3 ? d[2].j[z] : 0; ld tx = d[0].t[x], ty = d[1].t[y], tz = D == 3 ? d[2].t[z] : 0, lo = 0, up = 0;
        for (int c = 0; c < (D == 3 ? 8 : 4); c++) { int ix = jx + (c & 1), iy = jy + (c >> 1 & 1), iz = jz + (c >> 2); ld wt = (c & 1 ? tx : 1 - tx) * (c & 2 ? ty : 1 - ty) * (D == 2 ? 1 : c & 4 ? tz : 1 - tz); if (wt == 0) continue; size_t id = D == 2 ? ix * m[1] + iy : ((size_t)ix * m[1] + iy) * m[2] + iz; lo += wt * bb[2 * id]; up += wt * bb[2 * id + 1]; }
        if (f < mn) mn = f; if (f > mx) mx = f; if (lo - f > TOL(s) || f - up > TOL(s)) { snprintf(what, sizeof what, "%d-D, data vector %d", D, k); bad(lo - f > f - up ? lo - f : f - up, s, "%s: at (%.17g, %.17g, %.17g) the value %.17g is outside the bounds [%.17g, %.17g]", d[0].x[x], d[1].x[y], D == 3 ? (double)d[2].x[z] : 0., f, lo, up); } }
      REQUIRE(r.min <= mn + TOL(s) && r.max >= mx - TOL(s), "%d-D data vector %d: returned range [%.17g, %.17g], but values in [%.17g, %.17g]", D, k, r.min, r.max, mn, mx);
      if ((tight) && q == bad2) REQUIRE(r.min >= mn - 8 * TOL(s) && r.max <= mx + 8 * TOL(s), "%d-D data vector %d: range [%.17g, %.17g] of linear data [%.17g, %.17g] is not tight", D, k, r.min, r.max, mn, mx);
      oh = hmix(oh, (u64)(1e6 * r.max)); sim_steps(1);
    }
  }
  for (int q = 0; q < D; q++) dir_free(&d[q]); free(u); free(b); free(w1); free(w2); free(A); free(B); free(P);
}
void h_rank(uint64_t i, int p) { oh = 0; coarse = CS[i].k == K_COARSE; if (CS[i].k <= K_COARSE) run1(CS[i].n[0], CS[i].m[0]); else runN(CS[i].k, CS[i].n, CS[i].m, CS[i].part); sim_state(oh); sim_outcome(oh); }
