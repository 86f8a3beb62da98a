/* C18: tensor-product kernels: every dimension combination x unit-vector operands (which determine bilinear maps) and dense integer operands */
#include "hcommon.h"
enum { K_DOT, K_MXV, K_MTXV, K_MXM, K_MTXM, K_I1, K_I2, K_I3, K_IG1, K_IG2, K_IG3, K_2T, K_3T, KINDS };
static const char *kn[KINDS] = {"dot", "mxv", "mtxv", "mxm", "mtxm", "i1", "i2", "i3", "ig1", "ig2", "ig3", "2t", "3t"};
static const int kd[KINDS] = {1, 2, 2, 3, 3, 1, 2, 3, 1, 2, 3, 4, 6}; static int mx[KINDS]; static u64 cnt[KINDS];
#ifdef OWN_MXM
/* the matrix product an application supplies when the library has neither its own nor BLAS */
void mxm(const double *A, const uint *na, const double *B, const uint *nb, double *C, const uint *nc) { for (uint j = 0; j < *nc; j++) for (uint i = 0; i < *na; i++) { double s = 0; for (uint k = 0; k < *nb; k++) s += A[k * *na + i] * B[j * *nb + k]; C[j * *na + i] = s; } }
#endif
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
void h_init(int tier) { for (int k = 0; k < KINDS; k++) { int d = kd[k]; mx[k] = d == 1 ? (tier ? 200 : 70) : d == 2 ? (tier ? 32 : 17) : d == 3 ? (tier ? 14 : 10) : d == 4 ? (tier ? 8 : 6) : (tier ? 6 : 5); cnt[k] = ipow(mx[k], d); } }
/* one large extent among small ones */
static const int LX[] = {129, 257, 300, 1025}; static u64 lcnt(int k) { return (u64)kd[k] * 4 << (kd[k] - 1); }
uint64_t h_ncases(void) { u64 t = 0; for (int k = 0; k < KINDS; k++) t += cnt[k] + lcnt(k); return t; }
void h_case(uint64_t i, struct hcase *c) { c->np = 1; c->policies = PM(0); c->fill = i & 3; c->check_leaks = 1; }
static int large; static int kind(u64 *i) { int k = 0; large = 0; while (k < KINDS && *i >= cnt[k]) *i -= cnt[k++]; if (k == KINDS) for (large = 1, k = 0; *i >= lcnt(k); ) *i -= lcnt(k++); return k; }
static uint D[6]; static int K; static char what[120];
static void dims(u64 i) { if (large) { int p = dig(&i, kd[K]), x = dig(&i, 4); for (int q = 0; q < 6; q++) D[q] = q >= kd[K] ? 1 : q == p ? LX[x] : 1 + 2 * dig(&i, 2); } else for (int q = 0; q < 6; q++) D[q] = q < kd[K] ? 1 + dig(&i, mx[K]) : 1; snprintf(what, sizeof what, "tensor_%s with dimensions %u,%u,%u,%u,%u,%u", kn[K], D[0], D[1], D[2], D[3], D[4], D[5]); }
void h_describe(uint64_t i, char *b, size_t n) { K = kind(&i); dims(i); snprintf(b, n, "%s", what); }
static double *arr(int n) { return sim_alloc(8 * (size_t)n); }
static void fill(double *a, int n, int seed) { for (int i = 0; i < n; i++) a[i] = (double)(int)(hash2(i, seed) % 19) - 9; }
static void nan_(double *a, int n) { for (int i = 0; i < n; i++) a[i] = NAN; }
static void same(const double *a, const double *b, int n, const char *w, int u) { for (int i = 0; i < n; i++) REQUIRE(a[i] == b[i], "%s: %s entry %d is %.17g, expected %.17g (operand %d)", what, w, i, a[i], b[i], u); }
static u64 oh;
/* operands of a run: mode -2.. dense variants, mode u: operand o a unit vector */
static void unit(double *a, int n, int u, int seed) { if (u < 0) fill(a, n, seed - 31 * u); else { for (int i = 0; i < n; i++) a[i] = 0; a[u] = 3; } }
static double sum2(const double *a, int sa, const double *b, int sb, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i * sa] * b[i * sb]; return s; }
static void run(int o, int u) { /* operand o is unit vector u (u<0: dense); the others are dense */
  double *op[4], *cp[4]; int on[4], k = 0, d0 = D[0], d1 = D[1], d2 = D[2]; double *out = 0, *ex = 0, *work = 0; int no = 0, nw = 0; double g[3] = {NAN, NAN, NAN}, eg[3], v = NAN, ev = 0; int hasv = 0, ng = 0;
  switch (K) { case K_DOT: case K_I1: on[0] = on[1] = d0; k = 2; hasv = 1; break; case K_MXV: on[0] = d0 * d1; on[1] = d1; no = d0; k = 2; break; case K_MTXV: on[0] = d0 * d1; on[1] = d1; no = d0; k = 2; break;
  case K_MXM: case K_MTXM: on[0] = d0 * d1; on[1] = d1 * d2; no = d0 * d2; k = 2; break;
  case K_I2: on[0] = d0; on[1] = d1; on[2] = d0 * d1; k = 3; nw = d1; hasv = 1; break; case K_I3: on[0] = d0; on[1] = d1; on[2] = d2; on[3] = d0 * d1 * d2; k = 4; nw = d1 * d2 + d2; hasv = 1; break;
  case K_IG1: on[0] = 2 * d0; on[1] = d0; k = 2; hasv = 1; ng = 1; break; case K_IG2: on[0] = 2 * d0; on[1] = 2 * d1; on[2] = d0 * d1; k = 3; nw = 2 * d0; hasv = 1; ng = 2; break; case K_IG3: on[0] = 2 * d0; on[1] = 2 * d1; on[2] = 2 * d2; on[3] = d0 * d1 * d2; k = 4; nw = 2 * d0 * d1 + 3 * d0; hasv = 1; ng = 3; break;
  case K_2T: on[0] = D[2] * D[0]; on[1] = D[3] * D[1]; on[2] = D[2] * D[3]; k = 3; no = D[0] * D[1]; nw = D[0] * D[3]; break;
  default: on[0] = D[3] * D[0]; on[1] = D[4] * D[1]; on[2] = D[5] * D[2]; on[3] = D[3] * D[4] * D[5]; k = 4; no = D[0] * D[1] * D[2]; nw = D[0] * (D[4] + D[1]) * D[5]; }
  if (o >= k || u >= on[o]) return;
  for (int q = 0; q < k; q++) { op[q] = arr(on[q]); unit(op[q], on[q], q == o ? u : -1, 7 * q + K); cp[q] = arr(on[q]); memcpy(cp[q], op[q], 8 * on[q]); }
  out = arr(no); ex = arr(no); nan_(out, no); work = arr(nw); nan_(work, nw);
  const double *A = op[0], *B = op[1], *C = k > 2 ? op[2] : 0, *E = k > 3 ? op[3] : 0;
  switch (K) {
  case K_DOT: v = tensor_dot(A, B, d0); ev = sum2(A, 1, B, 1, d0); break;
  case K_I1: v = tensor_i1(A, d0, B); ev = sum2(A, 1, B, 1, d0); break;
  case K_MXV: tensor_mxv(out, d0, A, B, d1); for (int i = 0; i < d0; i++) ex[i] = sum2(A + i, d0, B, 1, d1); break;
  case K_MTXV: tensor_mtxv(out, d0, A, B, d1); for (int i = 0; i < d0; i++) ex[i] = sum2(A + i * d1, 1, B, 1, d1); break;
  case K_MXM: tensor_mxm(out, d0, A, d1, B, d2); for (int j = 0; j < d2; j++) for (int i = 0; i < d0; i++) ex[j * d0 + i] = sum2(A + i, d0, B + j * d1, 1, d1); break;
  case K_MTXM: tensor_mtxm(out, d0, A, d1, B, d2); for (int j = 0; j < d2; j++) for (int i = 0; i < d0; i++) ex[j * d0 + i] = sum2(A + i * d1, 1, B + j * d1, 1, d1); break;
  case K_I2: v = tensor_i2(A, d0, B, d1, C, work); for (int j = 0; j < d1; j++) ev += B[j] * sum2(A, 1, C + j * d0, 1, d0); break;
  case K_I3: v = tensor_i3(A, d0, B, d1, C, d2, E, work); for (int l = 0; l < d2; l++) for (int j = 0; j < d1; j++) ev += C[l] * B[j] * sum2(A, 1, E + (l * d1 + j) * d0, 1, d0); break;
  case K_IG1: v = tensor_ig1(g, A, d0, B); ev = sum2(A, 1, B, 1, d0); eg[0] = sum2(A + d0, 1, B, 1, d0); break;
  case K_IG2: v = tensor_ig2(g, A, d0, B, d1, C, work); eg[0] = eg[1] = 0; for (int j = 0; j < d1; j++) { double a = sum2(A, 1, C + j * d0, 1, d0), da = sum2(A + d0, 1, C + j * d0, 1, d0); ev += B[j] * a; eg[0] += B[j] * da; eg[1] += B[d1 + j] * a; } break;
  case K_IG3: v = tensor_ig3(g, A, d0, B, d1, C, d2, E, work); eg[0] = eg[1] = eg[2] = 0; for (int l = 0; l < d2; l++) for (int j = 0; j < d1; j++) { double a = sum2(A, 1, E + (l * d1 + j) * d0, 1, d0), da = sum2(A + d0, 1, E + (l * d1 + j) * d0, 1, d0); ev += C[l] * B[j] * a; eg[0] += C[l] * B[j] * da; eg[1] += C[l] * B[d1 + j] * a; eg[2] += C[d2 + l] * B[j] * a; } break;
  case K_2T: { int nr = D[0], ns = D[1], mr = D[2], ms = D[3]; tensor_2t(out, A, nr, mr, B, ns, ms, C, work); for (int j = 0; j < ns; j++) for (int i = 0; i < nr; i++) { double s = 0; for (int b = 0; b < ms; b++) s += B[j * ms + b] * sum2(A + i * mr, 1, C + b * mr, 1, mr); ex[j * nr + i] = s; } break; }
  default: { int nr = D[0], ns = D[1], nt = D[2], mr = D[3], ms = D[4], mt = D[5]; tensor_3t(out, A, nr, mr, B, ns, ms, C, nt, mt, E, work); for (int l = 0; l < nt; l++) for (int j = 0; j < ns; j++) for (int i = 0; i < nr; i++) { double s = 0; for (int c = 0; c < mt; c++) for (int b = 0; b < ms; b++) s += C[l * mt + c] * B[j * ms + b] * sum2(A + i * mr, 1, E + (c * ms + b) * mr, 1, mr); ex[(l * ns + j) * nr + i] = s; } } }
  sim_steps(1); if (hasv) { REQUIRE(v == ev, "%s: value %.17g, expected %.17g (operand %d unit %d)", what, v, ev, o, u); } for (int q = 0; q < ng; q++) REQUIRE(g[q] == eg[q], "%s: gradient component %d is %.17g, expected %.17g (operand %d unit %d)", what, q, g[q], eg[q], o, u);
  same(out, ex, no, "output", o); for (int q = 0; q < k; q++) { REQUIRE(!memcmp(op[q], cp[q], 8 * on[q]), "%s: operand %d was modified", what, q); free(op[q]); free(cp[q]); }
  oh = hbytes(oh, out, 8 * no); free(out); free(ex); free(work);
}
void h_rank(uint64_t i, int p) { u64 i0 = i; oh = 0; K = kind(&i); dims(i); for (int s = 0; s < 4; s++) run(0, -1 - s); for (int o = 0; o < 4; o++) for (int u = 0; u < (large ? 1100 : 1024); u += large ? 31 : 1) run(o, u); sim_state(hmix(oh, i0)); sim_outcome(oh); }
