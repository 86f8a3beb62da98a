/* Families of single elements: corner lattices, displaced nodes, analytic maps; -DDIM=2|3.
   struct cs needs f, n[3], a, b, tr */
#ifndef ELEM_H
#define ELEM_H
typedef long double ld;
enum { F_CORNER, F_DISP, F_MAP };
#define NTR 8
static int ndir(void) { return DIM == 2 ? 8 : 26; }
#define NMAP 9
static int axis26(int a) { a %= 26; a = a < 13 ? a : a + 1; return (a % 3 == 1) + (a / 3 % 3 == 1) + (a / 9 == 1) == 2; }
static void nodes(int n, ld *Z) {
  int N = n - 1; const ld pi = 3.14159265358979323846264338327950288L;
  for (int i = 0; i < n; i++) { ld x = -cosl(pi * i / N); if (i == 0) x = -1; else if (i == n - 1) x = 1; else for (int it = 0; it < 30; it++) { ld p0 = 1, p1 = x; for (int k = 1; k < N; k++) { ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1); p0 = p1; p1 = p2; } ld dp = N * (p0 - x * p1) / (1 - x * x), d2 = (2 * x * dp - (ld)N * (N + 1) * p1) / (1 - x * x); x -= dp / d2; } Z[i] = x; }
}
static double Z[3][20]; static int n[3], nt;
/* rotation, scale and offset of the whole element */
static void transform(int tr, double x[3]) {
  static const double sc[NTR] = {1, 1e-3, 250, 1, 1e-2, 7, 1, 1e3}, of[NTR][3] = {{0, 0, 0}, {1, -2, 3}, {1e3, 0, -5e3}, {0, 0, 0}, {-40, 40, 0.5}, {0, 100, 0}, {5, 5, 5}, {0, 0, 0}};
  static const double an[NTR][3] = {{0, 0, 0}, {0.3, 0, 0}, {0.7, 0.4, 0}, {1.570796326794896619, 0, 0}, {-2.2, 1.1, 0.5}, {3.141592653589793, 0, 0}, {0.785398163397448, 0.615479708670387, 0.2}, {1e-3, 2e-3, -1e-3}};
  double c = cos(an[tr][0]), s = sin(an[tr][0]), y[3]; y[0] = c * x[0] - s * x[1]; y[1] = s * x[0] + c * x[1]; y[2] = x[2];
  if (DIM == 3) { c = cos(an[tr][1]); s = sin(an[tr][1]); double u = c * y[1] - s * y[2], v = s * y[1] + c * y[2]; y[1] = u; y[2] = v; c = cos(an[tr][2]); s = sin(an[tr][2]); u = c * y[2] - s * y[0]; v = s * y[2] + c * y[0]; y[2] = u; y[0] = v; if (tr == 5) { u = y[0]; y[0] = y[1]; y[1] = u; } }
  else if (tr == 5) y[0] = -y[0]; /* mirrored */
  for (int d = 0; d < 3; d++) x[d] = sc[tr] * y[d] + of[tr][d];
}
static void disp(int code, int node, double amp, double x[3]) { int d = code + 1; if (DIM == 2) { static const int dx[] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[] = {0, 1, 1, 1, 0, -1, -1, -1}; x[0] += amp * dx[code]; x[1] += amp * dy[code]; return; } if (d >= 14) d = code + 1; static int t[26][3], init; if (!init) { int k = 0; for (int i = 0; i < 27; i++) if (i != 13) { t[k][0] = i % 3 - 1; t[k][1] = i / 3 % 3 - 1; t[k][2] = i / 9 - 1; k++; } init = 1; } for (int q = 0; q < 3; q++) x[q] += amp * t[code][q]; (void)node; }
/* the element of a case at nodes; aff: affine */
static void make(const struct cs *c, double *X[3], int *aff) {
  *aff = 0;
  for (int i = 0; i < nt; i++) {
    int a[3] = {i % n[0], i / n[0] % n[1], i / n[0] / n[1]}; double r[3] = {Z[0][a[0]], Z[1][a[1]], DIM == 3 ? Z[2][a[2]] : 0}, x[3] = {r[0], r[1], r[2]};
    switch (c->f) {
    case F_CORNER: if (DIM == 2) { int v[4] = {c->a % 9, c->a / 9, c->b % 9, c->b / 9}; x[0] = v[i] % 3; x[1] = v[i] / 3; } else { int k = i == c->a / 8 ? c->b / 27 : i == c->a % 8 ? c->b % 27 : 13; x[0] += 0.45 * (k % 3 - 1); x[1] += 0.45 * (k / 3 % 3 - 1); x[2] += 0.45 * (k / 9 - 1); } break;
    case F_DISP: { double h = 2. / (n[0] > n[1] ? n[0] : n[1]) * 0.3; if (DIM == 3 && 2. / n[2] * 0.3 < h) h = 2. / n[2] * 0.3; if (c->a / ndir() == i) disp(c->a % ndir(), i, h, x); if (c->b != c->a && c->b / ndir() == i) disp(c->b % ndir(), i, h, x); break; }
    default: switch (c->a) {
      case 0: *aff = 1; break;
      case 1: x[0] = r[0] + 0.7 * r[1] - 0.2 * r[2]; x[1] = 0.3 * r[1] + 0.1 * r[2]; x[2] = r[2]; *aff = 1; break; /* sheared, thin */
      case 2: { double R = 2 + r[0], t = 0.6 * r[1]; x[0] = R * cos(t); x[1] = R * sin(t); break; } /* annulus sector */
      case 3: x[1] = r[1] + 0.5 * sin(1.2 * r[0]) * cos(r[2]); x[2] = r[2] + 0.3 * r[0] * r[0]; break;
      case 4: x[0] = r[0] * (1 + 0.4 * r[1]); x[1] = r[1] + 0.1 * r[2]; x[2] = r[2] * (1 + 0.3 * r[0]); break; /* trapezium */
      case 5: x[0] = r[0] + 0.15 * r[0] * r[0] * r[1] - 0.1 * r[1] * r[1]; x[1] = r[1] + 0.2 * r[0] * r[0]; x[2] = 1e-2 * r[2]; break;
      case 6: x[0] = 50 * r[0]; x[1] = 0.02 * r[1] + 0.3 * r[0]; x[2] = r[2] + 0.5 * r[1]; *aff = 1; break; /* high aspect ratio */
      case 7: { double t = 0.5 * r[2]; if (DIM == 2) t = 0.4 * r[0]; x[0] = r[0] * cos(t) - r[1] * sin(t); x[1] = r[0] * sin(t) + r[1] * cos(t); break; }
      default: x[0] = r[0] + 0.3 * (1 - r[1] * r[1]); x[1] = r[1] - 0.25 * (1 - r[0] * r[0]); x[2] = r[2] + 0.25 * (1 - r[0] * r[0]) * (1 - r[1] * r[1]); } }
    transform(c->tr, x); for (int d = 0; d < DIM; d++) X[d][i] = x[d];
  }
  if (c->f == F_MAP && n[0] == 2) { }
}
#define G (DIM == 2 ? 17 : 9)
static ld L[3][17][20], D[3][17][20];
static void grid(void) { for (int d = 0; d < DIM; d++) { ld z[20]; nodes(n[d], z); for (int g = 0; g < G; g++) { ld x = -1 + 2.L * g / (G - 1); for (int i = 0; i < n[d]; i++) { ld v = 1, dv = 0; for (int q = 0; q < n[d]; q++) if (q != i) { dv = dv * (x - z[q]) / (z[i] - z[q]) + v / (z[i] - z[q]); v *= (x - z[q]) / (z[i] - z[q]); } L[d][g][i] = v; D[d][g][i] = dv; } } } }
static void eval(double *X[3], int off, const int *g, ld x[3], ld J[9]) {
  for (int c = 0; c < DIM; c++) { x[c] = 0; for (int d = 0; d < DIM; d++) J[c * DIM + d] = 0; for (int k = 0; k < (DIM == 3 ? n[2] : 1); k++) { ld lt = DIM == 3 ? L[2][g[2]][k] : 1, dt = DIM == 3 ? D[2][g[2]][k] : 0; for (int j = 0; j < n[1]; j++) { ld a = 0, da = 0; const double *u = X[c] + off + (k * n[1] + j) * n[0]; for (int i = 0; i < n[0]; i++) a += L[0][g[0]][i] * u[i], da += D[0][g[0]][i] * u[i]; x[c] += lt * L[1][g[1]][j] * a; J[c * DIM] += lt * L[1][g[1]][j] * da; J[c * DIM + 1] += lt * D[1][g[1]][j] * a; if (DIM == 3) J[c * DIM + 2] += dt * L[1][g[1]][j] * a; } } }
}
static ld det(const ld *J) { return DIM == 2 ? J[0] * J[3] - J[1] * J[2] : J[0] * (J[4] * J[8] - J[5] * J[7]) - J[1] * (J[3] * J[8] - J[5] * J[6]) + J[2] * (J[3] * J[7] - J[4] * J[6]); }
#define GP (DIM == 2 ? G * G : G * G * G)
#define GI(k, g) int g[3] = {(k) % G, (k) / G % G, (k) / (G * G)}
static int valid(double *X[3]) { ld mn = 1e300L, mx = -1e300L; for (int k = 0; k < GP; k++) { GI(k, g); ld x[3], J[9]; eval(X, 0, g, x, J); ld q = det(J); if (q < mn) mn = q; if (q > mx) mx = q; } return (mn > 0 && mn > 0.02L * mx) || (mx < 0 && mx < 0.02L * mn); }
#endif
