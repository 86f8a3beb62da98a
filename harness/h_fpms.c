/* C14: multi-session location: session filter, priority field, all layouts of sessions and queries over processes */
#include "fp_common.h"
struct fam { int np, ns, sess, geo, pri, q, match, lay, fort, dist, bound, idset; };
static struct fam *F; static int nf, cf;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 1024, F = realloc(F, cf * sizeof *F); F[nf++] = f; }
static int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }
#define NGEO 5
#define NPRI 10
#define MS 6 /* sessions */
void h_init(int tier) {
  nf = 0;
  for (int np = 1; np <= 4; np++) for (int ns = 2; ns <= 3; ns++) for (int s = 0; s < ipow(ns, np); s++) for (int g = 0; g < NGEO; g++) for (int pr = 0; pr < NPRI; pr++) for (int m = 0; m < 2; m++) { int c = s + 3 * g + 5 * pr + 7 * m; if (!tier && np == 4 && (c % (DIM == 3 ? 12 : 4))) continue; if (!tier && DIM == 3 && np == 3 && c % 3) continue;
    for (int q = 0; q < (tier || np < 3 ? 4 + np : 2); q++) { int qq = tier || np < 3 ? q : (c + q * 2) % (4 + np); add((struct fam){np, ns, s, g, pr, qq, m, (c + q) % 3, (c + q) & 1, (c + q) % 3, 0, (c + q) % 3}); } }
  for (int np = 5; np <= (tier ? 12 : 8); np++) for (int g = 0; g < NGEO; g++) for (int pr = 0; pr < NPRI; pr += 3) for (int m = 0; m < 2; m++) add((struct fam){np, 3, (int)(hash2(np, g + 9 * pr) % ipow(3, np)), g, pr, g % 4, m, g % 3, m, pr % 3, 0, g % 3});
  /* more sessions, all or most of them present */
  for (int ns = 4; ns <= MS; ns++) for (int np = 3; np <= (tier ? 9 : 7); np++) for (int a = 1; a < ns; a++) for (int g = 0; g < NGEO; g++) for (int pr = 0; pr < NPRI; pr++) { int c = a + 3 * g + 5 * pr + np; if (!tier && c % (DIM == 3 ? 9 : 5)) continue; int s = 0; for (int q = 0; q < np; q++) s = s * ns + (q * a + pr) % ns; add((struct fam){np, ns, s, g, pr, (c / 5) % 4, c / 9 & 1, c % 3, c / 7 & 1, c / 3 % 3, 0, c / 2 % 3}); }
  for (int np = 2; np <= 3; np++) for (int g = 0; g < NGEO; g += 2) for (int m = 0; m < 2; m++) add((struct fam){np, 2, np == 2 ? 2 : 2 + g % 3, g, g % NPRI, 0, m, 0, m, 0, 1, 0});
}
uint64_t h_ncases(void) { return nf; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = F + i; c->same = 1; c->np = f->np; c->policies = f->bound ? PM_DEFAULT : PM(i % POL_N); c->bound = f->bound; c->kinds = f->bound ? KM_ALL : 0; c->check_stray = 1; c->fill = i & 3; }
static const char *gn[NGEO] = {"coincident", "chain of overlaps", "nested", "rotated against each other", "disjoint pair and a cover"};
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = F + i; int o = snprintf(b, n, "np=%d %d-D, %d sessions, %s, session of each process", f->np, DIM, f->ns, gn[f->geo]); int s = f->sess; for (int p = 0; p < f->np; p++) o += snprintf(b + o, n - o, " %d", s % f->ns), s /= f->ns; snprintf(b + o, n - o, ", priority setting %d, query distribution %d, %s session, layout %d, %s interface, element distribution %d, session ids %d, deviations<=%d", f->pri, f->q, f->match ? "same" : "other", f->lay, f->fort ? "Fortran" : "C", f->dist, f->idset, f->bound); }
static const struct fam *f;
static const uint IDS[3][MS + 1] = {{1, 2, 3, 9, 4, 17, 33}, {0, 5, 4000000000u, 7, 6, 2147483647u, 4294967295u}, {7, 0, 1, 2147483648u, 65536, 65543, 256}};
#if DIM == 2
static const int DVS[3][3] = {{2, 1}, {1, 2}, {2, 2}}; static const unsigned NN[3][3] = {{3, 4}, {3, 4}, {3, 4}};
#else
static const int DVS[3][3] = {{2, 1, 1}, {1, 2, 1}, {1, 1, 2}}; static const unsigned NN[3][3] = {{3, 4, 2}, {3, 4, 2}, {3, 4, 2}};
#endif
static struct mesh M[MS]; static double T[MS][3], SC[MS], CO[MS], SI[MS]; /* x = T + SC * Rot * unit-cube coordinates */
static void geo(void) {
  for (int s = 0; s < f->ns; s++) { SC[s] = 1; CO[s] = 1; SI[s] = 0; for (int d = 0; d < 3; d++) T[s][d] = 0; switch (f->geo) { case 0: break; case 1: T[s][0] = 0.45 * s; T[s][1] = 0.2 * s; break; case 2: SC[s] = s == 0 ? 1 : s == 1 ? 0.5 : 0.25; T[s][0] = s == 0 ? 0 : s == 1 ? 0.2 : 0.45; T[s][1] = 0.1 * s; T[s][2] = 0.15 * s; break; case 3: CO[s] = s == 0 ? 1 : s == 1 ? 0.8 : 0.6; SI[s] = s == 0 ? 0 : s == 1 ? 0.6 : -0.8; break; case 4: SC[s] = s == 2 ? 3 : 1; T[s][0] = s == 1 ? 1.7 : s == 2 ? -0.1 : 0; T[s][1] = s == 2 ? -0.7 : 0; T[s][2] = s == 2 ? -0.3 : 0; break; }
    mesh_make(&M[s], M_AFFINE, DVS[s % 3], NN[s % 3]); double lo = 1e300, hi = -1e300; M[s].off = 0;
    for (int i = 0; i < M[s].nel * M[s].ntot; i++) { double u = M[s].x[0][i], v = M[s].x[1][i] / 2; M[s].x[0][i] = T[s][0] + SC[s] * (CO[s] * u - SI[s] * v); M[s].x[1][i] = T[s][1] + SC[s] * (SI[s] * u + CO[s] * v); if (DIM == 3) M[s].x[2][i] = T[s][2] + SC[s] * M[s].x[2][i]; (void)lo; (void)hi; }
    M[s].off = 4; }
}
/* -1: certainly outside the expanded boxes, 1: contained, 0: too close to say */
static int contains(int s, const double *x) {
  double a = (x[0] - T[s][0]) / SC[s], b = (x[1] - T[s][1]) / SC[s], u[3] = {CO[s] * a + SI[s] * b, -SI[s] * a + CO[s] * b, 0}; if (DIM == 3) u[2] = (x[2] - T[s][2]) / SC[s];
  int in = 1, out = 0; for (int d = 0; d < DIM; d++) { if (u[d] < -1e-12 || u[d] > 1 + 1e-12) in = 0; if (u[d] < -0.06 || u[d] > 1.06) out = 1; } return in ? 1 : out ? -1 : 0;
}
/* priority field of session s at x: linear, hence exactly represented */
static double prio(int s, const double *x) {
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  if (f->pri < 6 && f->ns > 3) return (double)(hash2(s, f->pri) % 1009) / 100 - 5;
  if (f->pri < 6) return perm[f->pri][s] * 1.5 - 1 + (f->pri & 1 ? -5 : 0);
  if (f->pri == 6) return s == 0 ? x[0] : s == 1 ? 0.7 - x[0] : 0.4 * x[1] + 0.1;
  if (f->pri == 8) { double a = x[0] - 0.2 * s, b = x[1] - 0.1; return s & 1 ? a * a - b : 0.4 - a * b; } /* quadratic: needs the whole interpolation */
  if (f->pri == 9) return (s & 1 ? -1e9 : 1e9) * (x[0] + 0.3 * s - 0.9 * x[1] - 0.7);
  return s == 0 ? -x[1] - 3 : s == 1 ? x[1] - 4 : -3.6 + 0.5 * x[0];
}
static double val(int s, const double *x) { return 10 * (s + 1) + x[0] - 2 * x[1] + (DIM == 3 ? 0.5 * x[2] : 0); }
static int sess[SIM_MAXNP], own[MS][MAXEL];
static struct { double x[3]; int sid; } Q[4096];
void h_rank(uint64_t idx, int p) {
  f = F + idx; struct comm w; world(&w); int np = f->np; geo(); int s0 = f->sess, cnt[MS] = {0}; for (int q = 0; q < np; q++) sess[q] = s0 % f->ns, s0 /= f->ns, cnt[sess[q]]++;
  for (int s = 0; s < f->ns; s++) for (int e = 0; e < M[s].nel; e++) { own[s][e] = -1; if (!cnt[s]) continue; int k = f->dist == 0 ? e % cnt[s] : f->dist == 1 ? cnt[s] - 1 - e % cnt[s] : cnt[s] - 1; for (int q = 0; q < np; q++) if (sess[q] == s && k-- == 0) { own[s][e] = q; break; } }
  int S = sess[p]; const uint *ids = IDS[f->idset]; static uint nsid; nsid = ids[S]; struct part P; part_make(&P, &M[S], own[S], p);
  double *df = sim_alloc(8 * P.n * M[S].ntot), *fv = sim_alloc(8 * P.n * M[S].ntot); for (int i = 0; i < P.n * M[S].ntot; i++) { double x[3] = {P.x[0][i], P.x[1][i], DIM == 3 ? P.x[2][i] : 0}; df[i] = prio(S, x); fv[i] = val(S, x); }
  unsigned m[3]; for (int d = 0; d < DIM; d++) m[d] = 2 * NN[S % 3][d]; double btol = 0.01, ntol = 1024 * DBL_EPSILON; uint lh = P.n * M[S].ntot + 2, gh = f->dist == 1 ? 2 : 30, nmax = f->lay == 1 ? 3 : 256;
  struct FN(findpts_data) *fd = 0; sint h = -1; const double *ex[3] = {P.x[0], P.x[1], P.x[2]};
  if (!f->fort) fd = FN(gslib_findptsms_setup)(&w, ex, NN[S % 3], P.n, m, btol, lh, gh, nmax, ntol, &nsid, df);
  else { sint fnp = np, nd = DIM, nn[3] = {NN[S % 3][0], NN[S % 3][1], DIM == 3 ? NN[S % 3][2] : 1}, mm[3] = {m[0], m[1], DIM == 3 ? m[2] : 1}, ne = P.n, l = lh, g = gh, nm = nmax; fgslib_findptsms_setup_(&h, &fworld, &fnp, &nd, ex[0], ex[1], ex[2], nn, nn + 1, nn + 2, &ne, mm, mm + 1, mm + 2, &btol, &l, &g, &nm, &ntol, &nsid, df); REQUIRE(h >= 0, "findptsms_setup returned %d", h); }
  /* points from the reference grids of all sessions, and outside, for every session id */
  int nq = 0; static struct qp tmp[MAXQ]; static const double rv[] = {-1, 0.1, 1, -1, 1 - 0.004, 1, -1 + 0.003, 0.1, 1}, rvh[] = {0.1, 1, 1 - 0.004, 1, -1, -1 + 0.003};
  for (int s = 0; s < f->ns; s++) { int k = 0; for (int e = 0; e < M[s].nel; e++) k = add_el_points(&M[s], tmp, k, e, f->bound ? rv + 1 : DIM == 3 ? rvh + 2 * (idx % 3) : rv + 3 * (idx % 3), f->bound ? 1 : DIM == 3 ? 2 : 3); for (int i = 0; i < k; i++) for (int sid = 0; sid < (f->bound ? 2 : f->ns > 3 ? f->ns + 1 : 4); sid++) { memcpy(Q[nq].x, tmp[i].x, sizeof Q[nq].x); Q[nq++].sid = sid; } }
  for (int k = 0; k < (f->ns > 3 ? f->ns + 1 : 4); k++) { Q[nq].sid = k; for (int d = 0; d < 3; d++) Q[nq].x[d] = k & 1 ? 7 + d : -3 - d; nq++; }
  struct res R; int n = 0; static int sel[4096]; for (int i = 0; i < nq; i++) { int to; switch (f->q) { case 0: to = i % np; break; case 1: to = np - 1 - (i / 4) % np; break; case 2: to = p; break; case 3: to = i * np / nq; break; default: to = f->q - 4; } if (to == p) sel[n++] = i; }
  res_alloc(&R, n, f->lay); res_clear(&R); unsigned ss = f->lay == 2 ? 2 * UB : UB; uint *sid = sim_alloc(n ? (n - 1) * (size_t)ss + UB : 0); uint match = f->match;
  for (int i = 0; i < n; i++) { for (int d = 0; d < DIM; d++) RX(&R, i, d) = Q[sel[i]].x[d]; *(uint *)((char *)sid + i * (size_t)ss) = ids[Q[sel[i]].sid]; }
  for (int rep = 0; rep < 2; rep++) {
    if (rep && f->bound) break; if (rep) { res_clear(&R); match = !match; }
    if (!f->fort) { const double *xb[3] = {R.x[0], R.x[1], R.x[2]}; FN(gslib_findptsms)(R.code, R.cs, R.proc, R.ps, R.el, R.es, R.r, R.rs, R.d2, R.ds, xb, R.xs, sid, ss, &match, n, fd); }
    else { sint cs = R.cs / UB, ps = R.ps / UB, es = R.es / UB, rs = R.rs / 8, ds = R.ds / 8, x0 = R.xs[0] / 8, x1 = R.xs[1] / 8, x2 = R.xs[2] / 8, nn = n; uint st = ss / UB; fgslib_findptsms_(&h, (sint *)R.code, &cs, (sint *)R.proc, &ps, (sint *)R.el, &es, R.r, &rs, R.d2, &ds, R.x[0], &x0, R.x[1], &x1, R.x[2], &x2, sid, &st, &match, &nn); }
    double *out = sim_alloc(8 * n); for (int i = 0; i < n; i++) out[i] = NOVAL;
    if (!f->fort) FN(gslib_findptsms_eval)(out, 8, R.code, R.cs, R.proc, R.ps, R.el, R.es, R.r, R.rs, n, fv, fd);
    else { sint o = 1, cs = R.cs / UB, ps = R.ps / UB, es = R.es / UB, rs = R.rs / 8, nn = n; fgslib_findptsms_eval_(&h, out, &o, (sint *)R.code, &cs, (sint *)R.proc, &ps, (sint *)R.el, &es, R.r, &rs, &nn, fv); }
    u64 oh = 0;
    for (int i = 0; i < n; i++) {
      const double *x = Q[sel[i]].x; int win = -1, sure = 1; double best = 0, sec = -1e300; char t[200]; snprintf(t, sizeof t, "point (%.17g, %.17g, %.17g) of session %u, wanted the %s session", x[0], x[1], DIM == 3 ? x[2] : 0., ids[Q[sel[i]].sid], match ? "same" : "another");
      for (int s = 0; s < f->ns; s++) { if (!cnt[s] || (match ? s != Q[sel[i]].sid : s == Q[sel[i]].sid)) continue; int c = contains(s, x); if (c == 0) sure = 0; if (c < 0) continue; double v = prio(s, x); if (win < 0 || v > best) { if (win >= 0 && best > sec) sec = best; best = v; win = s; } else if (v > sec) sec = v; }
      if (!sure || (win >= 0 && best - sec < (f->pri == 9 ? 1e2 : 1e-6))) { uint c = RCODE(&R, i); if (c != 2) { REQUIRE(RPROC(&R, i) < (uint)np, "%s: process %u", t, RPROC(&R, i)); int rs = sess[RPROC(&R, i)]; REQUIRE(match ? rs == Q[sel[i]].sid : rs != Q[sel[i]].sid, "%s: found in session %u", t, ids[rs]); } continue; }
      uint code = RCODE(&R, i); if (win < 0) { REQUIRE(code == 2, "%s: no such session contains it, but code is %u (process %u)", t, code, RPROC(&R, i)); REQUIRE(out[i] == NOVAL, "%s: unfound, but its output was written", t); continue; }
      REQUIRE(code <= 1, "%s: not found, but session %u contains it", t, ids[win]); REQUIRE(RPROC(&R, i) < (uint)np, "%s: process %u", t, RPROC(&R, i));
      int rs = sess[RPROC(&R, i)]; REQUIRE(rs == win, "%s: found in session %u (priority %g), but session %u has priority %g there", t, ids[rs], prio(rs, x), ids[win], best);
      int g = gelem(&M[win], own[win], RPROC(&R, i), REL(&R, i)); REQUIRE(g >= 0, "%s: element %u of process %u does not exist", t, REL(&R, i), RPROC(&R, i));
      double d2 = 0; for (int d = 0; d < DIM; d++) { double e = (double)(interp(&M[win], M[win].x[d] + g * M[win].ntot, RR(&R, i)) - x[d]); d2 += e * e; REQUIRE(fabs(RR(&R, i)[d]) <= 1 + 1e-13, "%s: reference coordinate %.17g", t, RR(&R, i)[d]); }
      REQUIRE(sqrt(d2) <= 1e-9 && RD2(&R, i) >= 0 && sqrt(RD2(&R, i)) <= 1e-9, "%s: located at distance %.17g (reported squared distance %.17g) in element %d of session %u", t, sqrt(d2), RD2(&R, i), g, ids[win]);
      REQUIRE(fabs(out[i] - val(win, x)) <= 1e-8, "%s: field evaluated to %.17g, expected %.17g", t, out[i], val(win, x)); oh = hmix(oh, sel[i] * 16 + win * 4 + code);
    }
    free(out); sim_outcome(oh); sim_state(oh); sim_steps(2);
  }
  if (f->fort) fgslib_findptsms_free_(&h); else FN(gslib_findptsms_free)(fd);
  free(sid); res_free(&R); free(df); free(fv); part_free(&P); for (int s = 0; s < f->ns; s++) mesh_free(&M[s]); comm_free(&w);
}
