/* Point locators on unit boxes, instantiated for OD = 2 and 3 (no include guard on purpose) */
#define OJ_(a, b) a##_##b
#define OJ(a, b) OJ_(a, b)
#define OF(x) OJ(x, OD)
struct OF(ofp) { struct OF(findpts_data) *fd; struct OF(findpts_local_data) ld; sint h; int ms, loc, fort, nel, me, np, var; double *x[3], *df; uint sid; };
static int OF(onel)(int q, int np, int var) { return (var & 1) && np > 1 && q == np - 1 ? 0 : 1 + ((var >> 1 & 1) && q == 0); }
static void OF(oelem)(double *x[3], int k, int g) { int nn = OD == 3 ? 27 : 9; for (int i = 0; i < nn; i++) { int c[3] = {i % 3, i / 3 % 3, i / 9}; for (int d = 0; d < OD; d++) x[d][k * nn + i] = 0.5 * c[d] + (d == 0 ? g : 0); } }
static void OF(ofp_create)(struct OF(ofp) *o, const struct comm *c, int ms, int loc, int fort, int var) {
  int nn = OD == 3 ? 27 : 9; memset(o, 0, sizeof *o); o->ms = ms; o->loc = loc; o->fort = fort; o->var = var; o->me = c->id; o->np = c->np; o->nel = OF(onel)(o->me, o->np, var);
  for (int d = 0; d < OD; d++) o->x[d] = sim_alloc(8 * nn * o->nel); o->df = sim_alloc(8 * nn * o->nel); for (int k = 0; k < o->nel; k++) OF(oelem)(o->x, k, 2 * o->me + k); for (int i = 0; i < nn * o->nel; i++) o->df[i] = o->me + 1;
  const double *ex[3] = {o->x[0], o->x[1], o->x[2]}; unsigned n[3] = {3, 3, 3}, m[3] = {6, 6, 6}; double bt = 0.01, nt = 1e-12; uint lh = nn * o->nel + 2, gh = var & 2 ? 2 : 20, nmax = var & 1 ? 1 : 64; o->sid = o->me & 1;
  if (loc) { uint *sid = sim_alloc(UB); *sid = o->sid; if (ms) OF(findptsms_local_setup)(&o->ld, ex, sid, o->df, n, o->nel, m, bt, lh, nmax, nt, 1); else OF(findpts_local_setup)(&o->ld, ex, n, o->nel, m, bt, lh, nmax, nt); return; }
  if (!fort) { o->fd = ms ? OF(findptsms_setup)(c, ex, n, o->nel, m, bt, lh, gh, nmax, nt, &o->sid, o->df) : OF(findpts_setup)(c, ex, n, o->nel, m, bt, lh, gh, nmax, nt); return; }
  sint np = o->np, nd = OD, ni = 3, mi = 6, ne = o->nel, l = lh, g = gh, nm = nmax; MPI_Fint fc = FCOMM(c); o->h = -1;
  if (ms) fgslib_findptsms_setup_(&o->h, &fc, &np, &nd, ex[0], ex[1], ex[2], &ni, &ni, &ni, &ne, &mi, &mi, &mi, &bt, &l, &g, &nm, &nt, &o->sid, o->df); else fgslib_findpts_setup_(&o->h, &fc, &np, &nd, ex[0], ex[1], ex[2], &ni, &ni, &ni, &ne, &mi, &mi, &mi, &bt, &l, &g, &nm, &nt);
  REQUIRE(o->h >= 0, "findpts_setup returned handle %d", o->h);
}
static void OF(ofp_use)(struct OF(ofp) *o, int step, u64 *oh) {
  int nn = OD == 3 ? 27 : 9, n = 0, lo = o->loc ? o->me : 0, hi = o->loc ? o->me + 1 : o->np; const double rx = step & 1 ? -0.5 : 0.375;
  uint code[40], proc[40], el[40], sid[40], match = step & 1; double r[40 * 3], d2[40], x[3][40], out[40], *f = sim_alloc(8 * nn * o->nel); int eq[40], ek[40];
  for (int q = lo; q < hi; q++) for (int k = 0; k < OF(onel)(q, o->np, o->var) && n < 38; k++) { eq[n] = q; ek[n] = k; x[0][n] = 2 * q + k + 0.5 * (rx + 1); x[1][n] = 0.5; x[2][n] = 0.625; sid[n] = match ? q & 1 : !(q & 1); n++; }
  if (!(o->me & 1)) { eq[n] = -1; x[0][n] = -1000; x[1][n] = x[2][n] = 0.5; sid[n] = 0; n++; }
  if ((step & 3) == 3) n = o->me & 1 ? 0 : n;
  for (int i = 0; i < n; i++) code[i] = 77, out[i] = -7; for (int i = 0; i < nn * o->nel; i++) f[i] = 3 * o->x[0][i] - o->x[1][i] + (OD == 3 ? 2 * o->x[2][i] : 0) + step;
  const double *xb[3] = {x[0], x[1], x[2]}; unsigned xs[3] = {8, 8, 8};
  if (o->loc) { buffer b; buffer_init(&b, 1); if (o->ms) { double di[40]; uint es[40]; OF(findptsms_local)(code, UB, el, UB, r, OD * 8, d2, 8, xb, xs, sid, UB, di, 8, es, UB, &match, n, &o->ld, &b); } else OF(findpts_local)(code, UB, el, UB, r, OD * 8, d2, 8, xb, xs, n, &o->ld, &b); buffer_free(&b);
    int fn = 0; for (int i = 0; i < n; i++) fn += eq[i] >= 0; if (o->ms) OF(findptsms_local_eval)(out, 8, el, UB, r, OD * 8, fn, f, &o->ld); else OF(findpts_local_eval)(out, 8, el, UB, r, OD * 8, fn, f, &o->ld); for (int i = 0; i < n; i++) proc[i] = o->me; }
  else if (!o->fort) { if (o->ms) { OF(findptsms)(code, UB, proc, UB, el, UB, r, OD * 8, d2, 8, xb, xs, sid, UB, &match, n, o->fd); OF(findptsms_eval)(out, 8, code, UB, proc, UB, el, UB, r, OD * 8, n, f, o->fd); } else { OF(findpts)(code, UB, proc, UB, el, UB, r, OD * 8, d2, 8, xb, xs, n, o->fd); OF(findpts_eval)(out, 8, code, UB, proc, UB, el, UB, r, OD * 8, n, f, o->fd); } }
  else { sint one = 1, nd = OD, nq = n; uint uone = 1; if (o->ms) { fgslib_findptsms_(&o->h, (sint *)code, &one, (sint *)proc, &one, (sint *)el, &one, r, &nd, d2, &one, x[0], &one, x[1], &one, x[2], &one, sid, &uone, &match, &nq); fgslib_findptsms_eval_(&o->h, out, &one, (sint *)code, &one, (sint *)proc, &one, (sint *)el, &one, r, &nd, &nq, f); } else { fgslib_findpts_(&o->h, (sint *)code, &one, (sint *)proc, &one, (sint *)el, &one, r, &nd, d2, &one, x[0], &one, x[1], &one, x[2], &one, &nq); fgslib_findpts_eval_(&o->h, out, &one, (sint *)code, &one, (sint *)proc, &one, (sint *)el, &one, r, &nd, &nq, f); } }
  for (int i = 0; i < n; i++) {
    if (eq[i] < 0) { REQUIRE(code[i] == 2 && out[i] == -7, "locator: point outside the mesh: code %u, output %g", code[i], out[i]); continue; }
    REQUIRE(code[i] == 0 && proc[i] == (uint)eq[i] && el[i] == (uint)ek[i], "locator: point %d: code %u, process %u, element %u; expected 0, %d, %d", i, code[i], proc[i], el[i], eq[i], ek[i]);
    double er[3] = {rx, 0, 0.25}; for (int d = 0; d < OD; d++) REQUIRE(fabs(r[i * OD + d] - er[d]) < 1e-9, "locator: point %d: reference coordinate %d is %.17g, expected %g", i, d, r[i * OD + d], er[d]);
    double ev = 3 * x[0][i] - x[1][i] + (OD == 3 ? 2 * x[2][i] : 0) + step; REQUIRE(fabs(out[i] - ev) < 1e-7, "locator: point %d: value %.17g, expected %.17g", i, out[i], ev); *oh = hmix(*oh, code[i] * 64 + proc[i] * 8 + el[i]);
  }
  free(f);
}
static void OF(ofp_free)(struct OF(ofp) *o) {
  if (o->loc) { if (o->ms) OF(findptsms_local_free)(&o->ld); else OF(findpts_local_free)(&o->ld); } else if (o->fort) { if (o->ms) fgslib_findptsms_free_(&o->h); else fgslib_findpts_free_(&o->h); } else if (o->ms) OF(findptsms_free)(o->fd); else OF(findpts_free)(o->fd);
  for (int d = 0; d < OD; d++) free(o->x[d]); free(o->df);
}
#undef OF
#undef OJ
#undef OJ_
