/* C10: Fortran tuple transfer and sort */
#include "hcommon.h"
#include "fort.h"
enum { K_IT, K_T, K_ISORT, K_TSORT, K_BIGSORT, K_BAD, K_ROUNDS, K_BADLIVE, K_HIST, K_MANY };
struct fam { int kind, np, nmax, mi, ml, md, kp, cap, bound; u64 cnt; int pat; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
static u64 nv(unsigned a, unsigned n) { u64 s = 0; for (unsigned k = 0; k <= n; k++) s += ipow(a, k); return s; }
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
static void addtr(int kind, int np, int nmax, int mi, int ml, int md, int kp, int cap, int pat, int bound) { add((struct fam){kind, np, nmax, mi, ml, md, kp, cap, bound, pat < 0 ? ipow(nv(np, nmax), np) : 4, pat}); }
#define NBAD 30
static const signed char KS[][3] = {{0, -1, -1}, {1, -1, -1}, {2, -1, -1}, {3, -1, -1}, {0, 1, -1}, {1, 0, -1}, {2, 0, -1}, {0, 2, -1}, {3, 1, -1}, {2, 3, -1}, {1, 2, 0}, {3, 2, 1}, {0, 3, 2}, {0, 0, 1}, {-1, -1, -1}};
#define NKS 15
void h_init(int tier) {
  nf = 0; total = 0;
  add((struct fam){K_BAD, 1, 0, 0, 0, 0, 0, 0, 0, NBAD});
  for (int m = 1; m <= 3; m++) for (int kp = 1; kp <= m; kp++) for (int cap = 0; cap <= 4; cap++) { addtr(K_IT, 1, 4, m, 0, 0, kp, cap, -1, 0); addtr(K_IT, 2, m == 3 || !tier ? 3 : 4, m, 0, 0, kp, cap, -1, 0); if (m < 3 || tier) addtr(K_IT, 3, 2, m, 0, 0, kp, cap, -1, 0); }
  for (int mi = 1; mi <= 2; mi++) for (int ml = 0; ml <= 2; ml++) for (int md = 0; md <= 2; md++) for (int cap = 0; cap <= 4; cap++) { addtr(K_T, 2, cap < 4 || tier ? 2 : 3, mi, ml, md, 1 + (ml + md) % mi, cap, -1, 0); addtr(K_T, 1, 3, mi, ml, md, mi, cap, -1, 0); if (tier) addtr(K_T, 3, 2, mi, ml, md, mi, cap, -1, 0); }
  for (int np = 1; np <= (tier ? 17 : 9); np++) for (int pat = 0; pat < 8; pat++) for (int cap = 0; cap <= 40; cap += 5) { addtr(K_IT, np, 0, 1 + pat % 4, 0, 0, 1 + pat % (1 + pat % 4), cap, pat, 0); addtr(K_T, np, 0, 1 + pat % 3, pat % 2, (cap + pat) % 3, 1 + pat % (1 + pat % 3), cap, pat, 0); addtr(K_ROUNDS, np, 0, 3, 1, 1, 2, 40, pat, 0); }
  for (int np = 2; np <= (tier ? 5 : 3); np++) for (int pat = 0; pat < 8; pat++) addtr(K_T, np, 0, 2, 1, 1, 2, 4, pat, 1), addtr(K_ROUNDS, np, 0, 2, 1, 1, 2, 40, pat, 1);
  for (int n = 0; n <= (tier ? 5 : 4); n++) add((struct fam){K_ISORT, 1, n, 3, 0, 0, 0, 0, 0, ipow(n > 3 ? 8 : 27, n)}), add((struct fam){K_TSORT, 1, n, 2, 2, 1, 0, 0, 0, ipow(16, n)});
  add((struct fam){K_BADLIVE, 1, 0, 0, 0, 0, 0, 0, 0, 9 * 5 * 9});
  for (int np = 1; np <= 2; np++) for (int len = 1; len <= (tier ? 7 : 5); len++) add((struct fam){K_HIST, np, len, 2, 1, 1, 1, 0, 0, ipow(6, len)});
  for (int pat = 0; pat < 8; pat++) for (int np = 1; np <= 5; np += 2) { addtr(K_T, np, 0, 70 - pat, 40, 33, 1 + pat * 8, 12, pat, 0); addtr(K_IT, np, 0, 70 + 61 * pat, 0, 0, 1 + pat * 60, 12, pat, 0); addtr(K_T, np, 0, 20000, 9000, 8999, 17000, 2, pat, 0); addtr(K_ROUNDS, np, 0, 65, 33, 35, 64, 40, pat, 0); }
  for (int np = 1; np <= 9; np += np < 3 ? 1 : 3) for (int pat = 0; pat < 4; pat++) add((struct fam){K_MANY, np, 0, 3 + pat, 2, pat, 2 + pat % 2, 0, 0, 4 * 5, pat});
  add((struct fam){K_BIGSORT, 1, 0, 0, 0, 0, 0, 0, 0, NKS * 12 * 8});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
#define NR 40
static int dests(const struct fam *f, u64 i, int s, int *d) {
  int np = f->np, n = 0;
  if (f->pat < 0) { u64 m = nv(np, f->nmax); while (s--) i /= m; i %= m; u64 k = 1; while (i >= k) i -= k, k *= np, n++; for (int j = 0; j < n; j++) d[j] = i % np, i /= np; }
  else { int v = (int)i; switch (f->pat) { case 0: n = v + s % 2; for (int j = 0; j < n; j++) d[j] = 0; break; case 1: n = 1 + v; for (int j = 0; j < n; j++) d[j] = np - 1; break; case 2: n = np + v; for (int j = 0; j < n; j++) d[j] = (s * 3 + j * (v + 1)) % np; break; case 3: n = (s + v) % 4; for (int j = 0; j < n; j++) d[j] = s; break; case 4: n = 0; break; case 5: n = s == v % np ? 15 : (s % 3); for (int j = 0; j < n; j++) d[j] = (j * j + s) % np; break; case 6: n = 3; for (int j = 0; j < n; j++) d[j] = (s + v + 1) % np; break; default: n = 30; for (int j = 0; j < n; j++) d[j] = hash2(s * 100 + j, v) % np; } }
  if (f->pat >= 0 && n > f->cap) n = f->cap; /* the caller's columns fit its own arrays */
  if (n > NR) n = NR;
  return n;
}
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->same = 1; c->np = f->np; c->policies = f->kind <= K_T || f->kind == K_ROUNDS || f->kind == K_MANY ? PM_DEFAULT : PM(0); c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = f->kind != K_BAD && f->kind != K_BADLIVE; c->fill = i & 3; if (f->kind == K_BAD) c->expect_exit = i != 20 && i != 21; if (f->kind == K_BADLIVE) c->expect_exit = 1; }
static const char *kn[] = {"ituple_transfer", "tuple_transfer", "ituple_sort", "tuple_sort", "large sort", "invalid argument", "repeated transfers on several handles", "invalid handle among live ones", "handle history", "many columns"};
void h_describe(uint64_t i, char *b, size_t n) {
  const struct fam *f = get(&i); int o = snprintf(b, n, "np=%d %s mi=%d ml=%d md=%d key row %d capacity %d n/pattern %d/%d case %d", f->np, kn[f->kind], f->mi, f->ml, f->md, f->kp, f->cap, f->nmax, f->pat, (int)i);
  if (f->kind <= K_T || f->kind == K_ROUNDS) for (int s = 0; s < f->np && o + 60 < (int)n; s++) { int d[NR], k = dests(f, i, s, d); o += snprintf(b + o, n - o, " rank%d:[", s); for (int j = 0; j < k && o + 40 < (int)n; j++) o += snprintf(b + o, n - o, "%s%d", j ? "," : "", d[j]); o += snprintf(b + o, n - o, "]"); }
}
static sint vi(int s, int j, int r) { return (sint)(hash2(s * 64 + j, r) & 0x7fffff00) + s; }
static slong vl(int s, int j, int r) { return (slong)(hash2(s * 64 + j, r + 50) >> 1); }
static double vd(int s, int j, int r) { return (double)(long long)hash2(s * 64 + j, r + 90) / 3e9; }
static u64 oh;
static void fill(const struct fam *f, u64 i, int p, sint *A, slong *L, double *D, int *d, int n) { for (int j = 0; j < n; j++) { for (int r = 0; r < f->mi; r++) A[j * f->mi + r] = r == f->kp - 1 ? d[j] : vi(p, j, r); for (int r = 0; r < f->ml; r++) L[j * f->ml + r] = vl(p, j, r); for (int r = 0; r < f->md; r++) D[j * f->md + r] = vd(p, j, r); } }
/* home: columns must be this rank's own, key row the destination */
static void check(const struct fam *f, u64 i, int p, sint *A, slong *L, double *D, sint n, sint max, int home, const char *what) {
  unsigned char used[SIM_MAXNP][NR]; memset(used, 0, sizeof used); int ex = 0; u64 sum = 0;
  for (int s = 0; s < f->np; s++) { int d[NR], m = dests(f, i, s, d); for (int j = 0; j < m; j++) ex += home ? s == p : d[j] == p; }
  REQUIRE(n == ex, "%s: n is %d on return, %d columns were addressed to this rank", what, n, ex);
  for (int k = 0; k < n && k < max; k++) {
    sint *a = A + k * f->mi; sint q = a[f->kp - 1]; int hit = -1; REQUIRE(q >= 0 && q < f->np, "%s: column %d: key row is %d", what, k, q); int s = home ? p : q; int d[NR], m = dests(f, i, s, d);
    for (int j = 0; j < m && hit < 0; j++) { if (used[s][j] || d[j] != (home ? q : p)) continue; int ok = 1; for (int r = 0; r < f->mi; r++) ok &= r == f->kp - 1 || a[r] == vi(s, j, r); for (int r = 0; r < f->ml; r++) ok &= L[k * f->ml + r] == vl(s, j, r); for (int r = 0; r < f->md; r++) ok &= D[k * f->md + r] == vd(s, j, r); if (ok) hit = j; }
    REQUIRE(hit >= 0, "%s: column %d (key row %d) was never sent here in this form (or twice)", what, k, q); used[s][hit] = 1; sum += hash2(s, hit);
  }
  oh = hmix(oh, sum); sim_steps(1);
}
static u64 kd(u64 x, int n, int j, int r) { unsigned a = n > 3 ? 2 : 3; for (int q = 0; q < j * 3 + r; q++) x /= a; return x % a * 70000; }
static void *al(size_t n) { return sim_alloc(n); }
/* n columns per rank, row 1 (0 if the key row is 1) carries a serial; everything else derives from it */
static int mdest(int np, int s, int j, int v) { switch (v) { case 0: return (s + j) % np; case 1: return hash2(s, j) % np; case 2: return j % 7 ? s : np - 1; default: return (s + j / 50) % np; } }
static int msz(int v, int s) { static const int n[] = {300, 1000, 2047, 4096}; return s % 3 == 2 ? s : n[v] - 5 * s; }
static void many(const struct fam *f, u64 i, int p, sint *h) {
  int v = i % 4, cm = i / 4, np = f->np; sint mi = f->mi, ml = f->ml, md = f->md, kp = f->kp; int sr = kp == 1 ? 1 : 0, ex = 0;
  sint n = msz(v, p), n0 = n, max; for (int s = 0; s < np; s++) for (int j = 0; j < msz(v, s); j++) ex += mdest(np, s, j, v) == p;
  switch (cm) { case 0: max = n > ex ? n : ex; break; case 1: max = n + ex + 7; break; case 2: max = n; break; case 3: max = n > ex / 2 ? n : ex / 2; break; default: max = n > ex - 1 ? n : ex - 1; }
  sint *A = al((size_t)max * mi * UB); slong *L = al((size_t)max * ml * LB); double *D = al((size_t)max * md * 8);
  for (int j = 0; j < n; j++) { for (int r = 0; r < mi; r++) A[j * mi + r] = r == kp - 1 ? mdest(np, p, j, v) : r == sr ? j : vi(p, j, r); for (int r = 0; r < ml; r++) L[j * ml + r] = vl(p, j, r); for (int r = 0; r < md; r++) D[j * md + r] = vd(p, j, r); }
  fgslib_crystal_tuple_transfer_(h, &n, &max, A, &mi, L, &ml, D, &md, &kp);
  REQUIRE(n == ex, "%d columns, capacity %d: n is %d on return, %d columns were addressed to this rank", n0, max, n, ex);
  unsigned char *seen = calloc(np, 4100); u64 sum = 0;
  for (int k = 0; k < n && k < max; k++) { sint *a = A + k * mi; sint q = a[kp - 1], j = a[sr]; REQUIRE(q >= 0 && q < np, "column %d: source is %d", k, q); REQUIRE(j >= 0 && j < msz(v, q) && mdest(np, q, j, v) == p, "column %d was never sent here", k); REQUIRE(!seen[q * 4100 + j]++, "column %d of rank %d was delivered twice", j, q);
    for (int r = 0; r < mi; r++) REQUIRE(r == kp - 1 || r == sr || a[r] == vi(q, j, r), "integer part of column %d of rank %d damaged", j, q); for (int r = 0; r < ml; r++) REQUIRE(L[k * ml + r] == vl(q, j, r), "long part of column %d of rank %d damaged", j, q); for (int r = 0; r < md; r++) REQUIRE(D[k * md + r] == vd(q, j, r), "real part of column %d of rank %d damaged", j, q); sum += hash2(q, j); }
  oh = hmix(oh, sum); free(seen); free(A); free(L); free(D);
}
static void one(int p, int np, sint *h, int r) { /* one column to the next rank */
  sint n = 1, max = 1, mi = 2, ml = 1, md = 1, kp = 1, A[2] = {(p + 1) % np, 100 * r + p}; slong L = 1000 * r + p; double D = r + .25; fgslib_crystal_tuple_transfer_(h, &n, &max, A, &mi, &L, &ml, &D, &md, &kp);
  int s = (p + np - 1) % np; REQUIRE(n == 1 && A[0] == s && A[1] == 100 * r + s && L == 1000 * r + s && D == r + .25, "handle %d, step %d: n=%d column (%d,%d,%ld,%g), expected (%d,%d,%d,%g)", *h, r, n, A[0], A[1], (long)L, D, s, 100 * r + s, 1000 * r + s, r + .25);
}
static void history(const struct fam *f, u64 i, int p, const MPI_Fint *fc) {
  sint live[16], nl = 0, np = f->np; for (int r = 0; r < f->nmax; r++) switch (dig(&i, 6)) {
    case 0: { sint h; fgslib_crystal_setup_(&h, fc, &np); for (int k = 0; k < nl; k++) REQUIRE(live[k] != h, "step %d: handle %d is already live", r, h); live[nl++] = h; break; }
    case 1: { sint h; for (int k = 0; k < 2; k++) { fgslib_crystal_setup_(&h, fc, &np); live[nl++] = h; } break; }
    case 2: if (nl) { fgslib_crystal_free_(&live[0]); memmove(live, live + 1, --nl * sizeof *live); } break;
    case 3: if (nl) fgslib_crystal_free_(&live[--nl]); break;
    case 4: if (nl) one(p, np, &live[0], r); break;
    default: if (nl) one(p, np, &live[nl - 1], r); }
  for (int k = 0; k < nl; k++) one(p, np, &live[k], 50 + k); for (int k = 0; k < nl; k++) { fgslib_crystal_free_(&live[k]); for (int q = k + 1; q < nl; q++) one(p, np, &live[q], 70 + q); }
}
static void badlive(u64 i, const MPI_Fint *fc) { /* number of live handles x entry point x handle */
  int nl = 1 + i % 9, e = i / 9 % 5, w = i / 45; sint h[9], np = 1, n = 1, m = 2, max = 1, kp = 1, key = 1, nk = 1, one = 1, A[4] = {0}; slong L[4] = {0}; double D[4] = {0}; for (int k = 0; k < nl; k++) fgslib_crystal_setup_(&h[k], fc, &np);
  sint b, mx = 0; for (int k = 0; k < nl; k++) if (h[k] > mx) mx = h[k]; switch (w) { case 0: b = -1; break; case 1: b = mx + 1; break; case 2: b = mx + 2; break; case 3: b = h[0]; fgslib_crystal_free_(&h[0]); break; case 4: b = h[nl - 1]; fgslib_crystal_free_(&h[nl - 1]); break; case 5: b = h[nl / 2]; fgslib_crystal_free_(&h[nl / 2]); break; case 6: b = INT_MAX; break; case 7: b = INT_MIN; break; default: for (int k = 0; k < nl; k++) fgslib_crystal_free_(&h[k]); b = mx; }
  switch (e) { case 0: fgslib_crystal_ituple_transfer_(&b, A, &m, &n, &max, &kp); break; case 1: fgslib_crystal_tuple_transfer_(&b, &n, &max, A, &m, L, &one, D, &one, &kp); break; case 2: fgslib_crystal_ituple_sort_(&b, A, &m, &n, &key, &nk); break; case 3: fgslib_crystal_tuple_sort_(&b, &n, A, &m, L, &one, D, &one, &key, &nk); break; default: fgslib_crystal_free_(&b); }
}
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); oh = 0; sint h = -5, np = f->np; MPI_Fint fc = MPI_Comm_c2f(MPI_COMM_WORLD);
  if (f->kind == K_BADLIVE) { badlive(i, &fc); return; }
  if (f->kind == K_HIST) { history(f, i, p, &fc); sim_outcome(i + 1); return; }
  if (f->kind == K_BAD) {
    sint h2 = -1, n = 1, m = 2, max = 1, kp = 1, key = 1, nk = 1, one = 1, zero = 0; sint A[4] = {0}; slong L[4] = {0}; double D[4] = {0};
    fgslib_crystal_setup_(&h, &fc, &np); fgslib_crystal_setup_(&h2, &fc, &np); REQUIRE(h != h2, "two routers share a handle");
    if (i == 22 || i == 23) { sint bad = i == 22 ? 2 : 0; fgslib_crystal_setup_(&h, &fc, &bad); return; }
    if (i >= 24) { /* keys */ sint ks[2] = {i == 24 ? 0 : i == 25 ? 4 : i == 26 ? -1 : 1, i == 27 ? 0 : i == 28 ? 4 : i == 29 ? 1000000 : 2}; nk = 2; n = 2; sint A2[4] = {1, 2, 0, 5}; slong L2[2] = {4, 3}; double D2[2] = {0}; fgslib_crystal_tuple_sort_(&h, &n, A2, &m, L2, &one, D2, &one, ks, &nk); return; }
    sint b; switch (i % 4) { case 0: b = -1; break; case 1: b = 2; break; case 2: b = h2; fgslib_crystal_free_(&h2); break; default: b = 1000000; }
    switch (i / 4) { case 0: fgslib_crystal_ituple_transfer_(&b, A, &m, &n, &max, &kp); break; case 1: fgslib_crystal_tuple_transfer_(&b, &n, &max, A, &m, L, &one, D, &one, &kp); break; case 2: fgslib_crystal_ituple_sort_(&b, A, &m, &n, &key, &nk); break; case 3: fgslib_crystal_tuple_sort_(&b, &n, A, &m, L, &one, D, &one, &key, &nk); break; case 4: fgslib_crystal_free_(&b); break;
    default: /* 20, 21: valid use */ fgslib_crystal_ituple_transfer_(&h, A, &m, &n, &max, &kp); REQUIRE(n == 1, "n"); fgslib_crystal_free_(&h); (void)zero; }
    return;
  }
  fgslib_crystal_setup_(&h, &fc, &np);
  if (f->kind == K_MANY) many(f, i, p, &h);
  else if (f->kind == K_IT || f->kind == K_T) {
    int d[NR], n0 = dests(f, i, p, d); sint max = f->cap > n0 ? f->cap : n0, n = n0; sint mi = f->mi, ml = f->ml, md = f->md, kp = f->kp;
    sint *A = al(max * mi * UB); slong *L = al(max * ml * LB); double *D = al(max * md * 8); fill(f, i, p, A, L, D, d, n);
    if (f->kind == K_IT) fgslib_crystal_ituple_transfer_(&h, A, &mi, &n, &max, &kp); else fgslib_crystal_tuple_transfer_(&h, &n, &max, A, &mi, L, &ml, D, &md, &kp);
    check(f, i, p, A, L, D, n, max, 0, kn[f->kind]); free(A); free(L); free(D);
  } else if (f->kind == K_ROUNDS) {
    sint h2; fgslib_crystal_setup_(&h2, &fc, &np); REQUIRE(h2 != h, "two live routers share handle %d", h);
    int d[NR], n0 = dests(f, i, p, d), tot = 0; for (int s = 0; s < f->np; s++) { int e[NR]; tot += dests(f, i, s, e); } sint max = tot + 1, n = n0; sint mi = f->mi, ml = f->ml, md = f->md, kp = f->kp;
    sint *A = al(max * mi * UB); slong *L = al(max * ml * LB); double *D = al(max * md * 8); fill(f, i, p, A, L, D, d, n);
    for (int r = 0; r < 4; r++) { fgslib_crystal_tuple_transfer_(r == 2 ? &h2 : &h, &n, &max, A, &mi, L, &ml, D, &md, &kp); check(f, i, p, A, L, D, n, max, r & 1, "repeated tuple_transfer"); if (r == 1) { sint key = 1, nk = 1; fgslib_crystal_tuple_sort_(&h2, &n, A, &mi, L, &ml, D, &md, &key, &nk); check(f, i, p, A, L, D, n, max, 1, "tuple_sort between transfers"); for (int k = 1; k < n; k++) REQUIRE(A[k * mi] >= A[(k - 1) * mi], "tuple_sort: column %d out of order", k); } }
    free(A); free(L); free(D); fgslib_crystal_free_(&h2);
  } else {
    sint mi = 3, ml = 0, md = 0, n; int lo = 0, hi = 1; if (f->kind != K_ISORT) mi = 2, ml = 2, md = 1; u64 code = i;
    if (f->kind == K_BIGSORT) { static const int sz[] = {5, 17, 64, 200, 254, 255, 256, 257, 258, 300, 512, 1000}; n = sz[i % 12]; i /= 12; lo = i % NKS; hi = lo + 1; code = i / NKS; } else { n = f->nmax; hi = NKS; }
    for (int ks = lo; ks < hi; ks++) {
      sint keys[3], nk = 0; int skip = 0; for (int q = 0; q < 3; q++) if (KS[ks][q] >= 0) { keys[nk++] = KS[ks][q] + 1; skip |= KS[ks][q] >= mi + ml; } if (skip) continue;
      sint *A = al(n * (mi + 1) * UB); slong *L = al(n * ml * LB); double *D = al(n * md * 8); int M = mi; mi = f->kind == K_ISORT ? 4 : mi; /* an extra row carries the serial */
      #define KEY(j, r) (f->kind == K_BIGSORT ? (r) == 2 ? hash2(j, 5 + code) % 3 << (8 * (code % 7)) : (r) == 3 ? hash2(j, 6 + code) >> 1 : hash2(j, r) % (code % 2 ? 3 : 70000) : f->kind == K_ISORT ? kd(code, n, j, r) : (code >> (4 * (j) + (r)) & 1 ? (r) < 2 ? 7 : BIGID(1ull << 41) : 2))
      int extra = f->kind == K_ISORT;
      for (int j = 0; j < n; j++) { for (int r = 0; r < M; r++) A[j * mi + r] = KEY(j, r); if (extra) A[j * mi + 3] = j; for (int r = 0; r < ml; r++) L[j * ml + r] = KEY(j, M + r); for (int r = 0; r < md; r++) D[j * md + r] = j + .5; }
      if (f->kind == K_ISORT) fgslib_crystal_ituple_sort_(&h, A, &mi, &n, keys, &nk); else fgslib_crystal_tuple_sort_(&h, &n, A, &mi, L, &ml, D, &md, keys, &nk);
      int prev = -1; unsigned char *seen = al(n); memset(seen, 0, n);
      for (int j = 0; j < n; j++) { int q = extra ? A[j * mi + 3] : (int)(D[j] - .5); REQUIRE(q >= 0 && q < n && !seen[q], "sort: column %d appears twice or is damaged", q); seen[q] = 1; for (int r = 0; r < M; r++) REQUIRE(A[j * mi + r] == (sint)KEY(q, r), "sort: integer part of column %d changed", q); for (int r = 0; r < ml; r++) REQUIRE(L[j * ml + r] == (slong)KEY(q, M + r), "sort: long part of column %d changed", q);
        if (prev >= 0) { int c = 0; for (int z = 0; z < nk && !c; z++) { u64 x = KEY(prev, keys[z] - 1), y = KEY(q, keys[z] - 1); if (keys[z] <= M) x = (uint)x, y = (uint)y; else x = (ulong)x, y = (ulong)y; c = x < y ? -1 : x > y; } REQUIRE(c < 0 || (c == 0 && prev < q), "%s n=%d keys %d,%d,%d: columns %d and %d are out of order%s", kn[f->kind], n, nk > 0 ? keys[0] : 0, nk > 1 ? keys[1] : 0, nk > 2 ? keys[2] : 0, j - 1, j, c ? "" : " (not stable)"); } prev = q; }
      oh = hmix(oh, prev); free(seen); free(A); free(L); free(D); sim_steps(1); mi = M;
    }
  }
  fgslib_crystal_free_(&h); sim_outcome(oh); sim_state(oh + 1);
}
