/* C17: quadrature rules and Lagrange bases for every order, against extended precision */
#include "hcommon.h"
typedef long double ld;
enum { K_GAUSS, K_LOBATTO, K_GLL, K_LAG, KINDS };
static int cnt[KINDS], NQ, NL, tier_;
#define NFAM 8
void h_init(int tier) { tier_ = tier; NQ = tier ? 1500 : 600; NL = tier ? 128 : 64; cnt[K_GAUSS] = NQ; cnt[K_LOBATTO] = NQ - 1; cnt[K_GLL] = NL - 1; cnt[K_LAG] = NL * NFAM; }
uint64_t h_ncases(void) { return cnt[0] + cnt[1] + cnt[2] + cnt[3]; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; c->check_leaks = 1; }
static int kind(u64 *i) { int k = 0; while (*i >= cnt[k]) *i -= cnt[k++]; return k; }
static const char *fam[NFAM] = {"Gauss nodes", "Lobatto nodes", "equispaced nodes", "Chebyshev nodes in descending order", "nodes on [3,5]", "nodes on [0,1e-3] in scrambled order", "clustered nodes", "nodes on [-100,200]"};
void h_describe(uint64_t i, char *b, size_t n) { int k = kind(&i); if (k == K_GAUSS) snprintf(b, n, "Gauss rule, %d points", (int)i + 1); else if (k == K_LOBATTO) snprintf(b, n, "Lobatto rule, %d points", (int)i + 2); else if (k == K_GLL) snprintf(b, n, "Lobatto Lagrange basis, %d points", (int)i + 2); else snprintf(b, n, "Lagrange basis, %d points, %s", (int)i / NFAM + 1, fam[i % NFAM]); }
static u64 oh;
static ld leg(int n, ld x, ld *d) { ld p0 = 1, p1 = x; if (n == 0) { if (d) *d = 0; return 1; } for (int k = 1; k < n; k++) { ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } if (d) *d = n * (p0 - x * p1) / (1 - x * x); return p1; }
static ld exact_node(int gauss, int n, int i) {
  const ld pi = 3.14159265358979323846264338327950288L; if (2 * i + 1 == n) return 0; if (!gauss && (i == 0 || i == n - 1)) return i ? 1 : -1;
  ld x = gauss ? -cosl((i + 0.75L) * pi / (n + 0.5L)) : -cosl(pi * i / (n - 1));
  for (int it = 0; it < 100; it++) { ld d, p, dx; if (gauss) { p = leg(n, x, &d); dx = p / d; } else { ld N = n - 1, q = leg(n - 1, x, &d); ld d2 = (2 * x * d - N * (N + 1) * q) / (1 - x * x); dx = d / d2; } x -= dx; if (fabsl(dx) < 1e-19L) break; }
  return x;
}
static void quad(int gauss, int n) {
  double *z = sim_alloc(8 * n), *z2 = sim_alloc(8 * n), *w = sim_alloc(8 * n); const char *nm = gauss ? "Gauss" : "Lobatto";
  if (gauss) gauss_nodes(z, n), gauss_quad(z2, w, n); else lobatto_nodes(z, n), lobatto_quad(z2, w, n); sim_steps(2);
  REQUIRE(!memcmp(z, z2, 8 * n), "%s %d: nodes from nodes() and quad() differ", nm, n); ld sum = 0;
  for (int i = 0; i < n; i++) {
    REQUIRE(i == 0 || z[i] > z[i - 1], "%s %d: nodes %d and %d are not increasing", nm, n, i - 1, i); REQUIRE(gauss ? fabs(z[i]) < 1 : fabs(z[i]) <= 1, "%s %d: node %d = %.17g", nm, n, i, z[i]);
    REQUIRE(fabs(z[i] + z[n - 1 - i]) <= 4e-16, "%s %d: node %d = %.17g is not symmetric", nm, n, i, z[i]); REQUIRE(w[i] > 0, "%s %d: weight %d = %.17g", nm, n, i, w[i]); REQUIRE(fabs(w[i] - w[n - 1 - i]) <= 1e-15, "%s %d: weight %d is not symmetric", nm, n, i);
    ld e = exact_node(gauss, n, i); REQUIRE(fabsl(z[i] - e) <= 1e-15L, "%s %d: node %d is %.17g, exactly %.20Lg", nm, n, i, z[i], e);
    ld d, p, W; if (gauss) { leg(n, e, &d); W = 2 / ((1 - e * e) * d * d); } else { p = leg(n - 1, e, 0); W = 2 / ((ld)n * (n - 1) * p * p); }
    REQUIRE(fabsl(w[i] - W) <= (2e-14L + 2e-14L * n * n) * W, "%s %d: weight %d is %.17g, exactly %.20Lg", nm, n, i, w[i], W); sum += w[i];
  }
  if (!gauss) REQUIRE(z[0] == -1 && z[n - 1] == 1, "Lobatto %d: end points %.17g %.17g", n, z[0], z[n - 1]);
  /* exactness for all Legendre polynomials and all monomials of the guaranteed degree */
  int deg = gauss ? 2 * n - 1 : 2 * n - 3; ld *p0 = sim_alloc(sizeof(ld) * n), *p1 = sim_alloc(sizeof(ld) * n), *m = sim_alloc(sizeof(ld) * n); for (int i = 0; i < n; i++) p0[i] = 1, p1[i] = z[i], m[i] = 1;
  for (int k = 0; k <= deg; k++) {
    ld q = 0, r = 0, b; for (int i = 0; i < n; i++) q += w[i] * p0[i], r += w[i] * m[i]; b = k & 1 ? 0 : 2.L / (k + 1);
    REQUIRE(fabsl(q - (k ? 0 : 2)) <= 1e-14L * (2 + n / 10.), "%s %d: Legendre polynomial of degree %d integrates to %.17g", nm, n, k, (double)q); REQUIRE(fabsl(r - b) <= 1e-14L * (2 + n / 10.), "%s %d: x^%d integrates to %.17g, exactly %.17g", nm, n, k, (double)r, (double)b);
    for (int i = 0; i < n; i++) { ld t = ((2 * k + 3) * z[i] * p1[i] - (k + 1) * p0[i]) / (k + 2); p0[i] = p1[i]; p1[i] = t; m[i] *= z[i]; }
  }
  oh = hmix(oh, (u64)(sum * 1e6)); free(z); free(z2); free(w); free(p0); free(p1); free(m);
}
/* exact basis values with sums of magnitudes, for the tolerance */
static void basis(const double *z, int n, int i, ld x, ld v[3], ld a[3]) {
  ld p = 1, d = 0, s = 0, P = 1, D = 0, S = 0; for (int j = 0; j < n; j++) if (j != i) { ld c = 1 / ((ld)z[i] - z[j]), f = (x - z[j]) * c, F = fabsl(f), C = fabsl(c); s = s * f + 2 * d * c; d = d * f + p * c; p *= f; S = S * F + 2 * D * C; D = D * F + P * C; P *= F; }
  v[0] = p; v[1] = d; v[2] = s; a[0] = P; a[1] = D; a[2] = S;
}
static void check_at(lagrange_fun *lag, double *data, const double *z, int n, double x, const char *nm) {
  static int rot; ld v[3], a[3]; static double V[3][200]; double *p[3];
  for (int q = 0; q < 3; q++) { int d = (q + rot) % 3; p[d] = sim_alloc(8 * n * (d + 1)); memset(p[d], 0x5C, 8 * n * (d + 1)); lag(p[d], data, n, d, x); sim_steps(1); } rot++;
  for (int d = 0; d < 2; d++) REQUIRE(!memcmp(p[d], p[2], 8 * n * (d + 1)), "%s, %d points, x=%.17g: asking for derivatives changes the lower ones", nm, n, x);
  for (int i = 0; i < n; i++) { basis(z, n, i, x, v, a); for (int d = 0; d < 3; d++) { double g = p[2][d * n + i]; ld tol = 1e-15L * (n + 4) * 2 * a[d] + 1e-300L; REQUIRE(fabsl(g - v[d]) <= tol, "%s, %d points: derivative %d of basis function %d at x=%.17g is %.17g, exactly %.20Lg", nm, n, d, i, x, g, v[d]); } }
  for (int i = 0; i < n; i++) if (x == z[i]) for (int j = 0; j < n; j++) REQUIRE(fabs(p[0][j] - (i == j)) <= 1e-15 * 8, "%s, %d points: basis function %d at node %d is %.17g", nm, n, j, i, p[0][j]);
  oh = hbytes(oh, p[2], 24 * n); for (int d = 0; d < 3; d++) free(p[d]); (void)V;
}
static void lagr(lagrange_fun *lag, double *data, const double *z, int n, const char *nm) {
  double lo = z[0], hi = z[0]; static double s[200]; for (int i = 0; i < n; i++) { if (z[i] < lo) lo = z[i]; if (z[i] > hi) hi = z[i]; s[i] = z[i]; } double w = hi - lo; if (n == 1) w = 1;
  for (int i = 1; i < n; i++) { double t = s[i]; int j = i; while (j && s[j - 1] > t) s[j] = s[j - 1], j--; s[j] = t; }
  for (int i = 0; i < n; i++) check_at(lag, data, z, n, z[i], nm); for (int i = 0; i + 1 < n; i++) for (int k = 1; k < 4; k++) check_at(lag, data, z, n, s[i] + (s[i + 1] - s[i]) * k / 4., nm);
  check_at(lag, data, z, n, lo - 0.03 * w, nm); check_at(lag, data, z, n, hi + 0.03 * w, nm); check_at(lag, data, z, n, (lo + hi) / 2, nm); check_at(lag, data, z, n, lo, nm); check_at(lag, data, z, n, hi, nm); for (int i = 0; i < n; i += 3) { check_at(lag, data, z, n, nextafter(z[i], 1e9), nm); check_at(lag, data, z, n, z[i] - 1e-9 * w, nm); }
}
void h_rank(uint64_t i, int p) {
  oh = 0; u64 i0 = i;
  switch (kind(&i)) {
  case K_GAUSS: quad(1, i + 1); break; case K_LOBATTO: quad(0, i + 2); break;
  case K_GLL: { int n = i + 2; double *z = sim_alloc(8 * n), *data = sim_alloc(8 * gll_lag_size(n)), *d2 = sim_alloc(8 * gll_lag_size(n + 1)); lobatto_nodes(z, n); lagrange_fun *f = gll_lag_setup(data, n), *g = gll_lag_setup(d2, n + 1); REQUIRE(f && g, "no Lobatto basis for %d points", n); double *t = sim_alloc(24 * (n + 1)); g(t, d2, n + 1, 2, 0.3); lagr(f, data, z, n, "Lobatto basis"); free(t); free(z); free(data); free(d2); break; }
  default: { int n = i / NFAM + 1, k = i % NFAM; double *z = sim_alloc(8 * n), *data = sim_alloc(8 * lagrange_size(n)); if (k == 1 && n < 2) k = 0;
    switch (k) { case 0: gauss_nodes(z, n); break; case 1: lobatto_nodes(z, n); break; default: for (int j = 0; j < n; j++) { double e = n > 1 ? -1 + 2. * j / (n - 1) : 0.25, c = -cos((j + 0.5) / n * 3.141592653589793); int s = (j * 7 + 3) % n; if (n % 7 == 0) s = n - 1 - j; switch (k) { case 2: z[j] = e; break; case 3: z[j] = -c; break; case 4: z[j] = 4 + c; break; case 5: z[s] = 5e-4 * (1 + c); break; case 6: z[j] = e * e * e + 0.1 * e; break; default: z[j] = 50 + 150 * c; } } }
    lagrange_fun *f = lagrange_setup(data, z, n); lagr(f, data, z, n, fam[k]); free(z); free(data); } }
  sim_state(hmix(oh, i0)); sim_outcome(oh);
}
