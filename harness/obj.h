/* Library objects of every kind behind one create/use/free interface; every use checks its own results */
#ifndef OBJ_H
#define OBJ_H
#include "gs_common.h"
#include "fort.h"
#ifdef GSLIB_USE_MPI
#define FCOMM(C_) MPI_Comm_c2f((C_)->c)
#else
#define FCOMM(C_) 0
#endif
#define OD 2
#include "obj_fp.h"
#undef OD
#define OD 3
#include "obj_fp.h"
#undef OD
enum { O_PW, O_CR, O_AR, O_AUTO, O_UNIQ, O_CRYSTAL, O_SARRAY, O_FGS, O_FCR, O_FP2, O_FP3, O_FPMS2, O_FPMS3, O_FFP2, O_FFP3, O_FFPMS2, O_FFPMS3, O_LOC2, O_LOC3, O_LOCMS2, O_LOCMS3, O_DUP, O_SPLIT, O_SORT, O_POLY, O_N };
static const char *okn[] = {"gs pairwise", "gs crystal", "gs allreduce", "gs auto", "gs unique", "crystal", "sarray", "Fortran gs", "Fortran crystal", "findpts_2", "findpts_3", "findptsms_2", "findptsms_3", "Fortran findpts 2-D", "Fortran findpts 3-D", "Fortran findptsms 2-D", "Fortran findptsms 3-D", "findpts_local_2", "findpts_local_3", "findptsms_local_2", "findptsms_local_3", "comm_dup", "comm_split", "sorts", "polynomials and boxes"};
struct obj { int kind, var, live, me, np; struct comm own; struct comm par; struct gs_data *g; struct lay L; buffer b; int nob; struct crystal cr; struct array A; sint h; struct ofp_2 f2; struct ofp_3 f3; };
/* clock readings that make candidate `win` (pairwise, crystal router, all-reduce) the fastest when a method is tuned */
static void ob_clock(int win) { double w[6], t = 50; for (int m = 0; m < 3; m++) { w[2 * m] = t; t += m == win ? 1 : 9 - 2 * m; w[2 * m + 1] = t; t += 1; } sim_wtime_script(w, 6); }
struct orec { double v; uint p; sint k; };
static int ob_fp(int k, int *dim, int *ms, int *loc, int *fort) { if (k < O_FP2 || k > O_LOCMS3) return 0; int j = k - O_FP2; *dim = j & 1 ? 3 : 2; *ms = j >> 1 & 1; *fort = j >= 4 && j < 8; *loc = j >= 8; return 1; }
static void ob_lay(struct obj *o) { static const int ks[] = {S_RING, S_SUBSETS, S_FLAGRING, S_HALVES}; lay_struct(&o->L, ks[o->var & 3], o->np, o->var & 1); }
static void ob_create(struct obj *o, int kind, const struct comm *c, int var) {
  int dim, ms, loc, fort; memset(o, 0, sizeof *o); o->kind = kind; o->var = var; o->live = 1; o->me = c->id; o->np = c->np; o->par = *c;
  if (ob_fp(kind, &dim, &ms, &loc, &fort)) { if (dim == 2) ofp_create_2(&o->f2, c, ms, loc, fort, var); else ofp_create_3(&o->f3, c, ms, loc, fort, var); return; }
  switch (kind) {
  case O_PW: case O_CR: case O_AR: case O_AUTO: case O_UNIQ: { ob_lay(o); if (kind == O_AUTO) ob_clock(var % 3); slong *id = ids_of(&o->L, o->me); o->g = gs_setup(id, o->L.n[o->me], c, kind == O_UNIQ, kind == O_PW ? gs_pairwise : kind == O_CR ? gs_crystal_router : kind == O_AR ? gs_all_reduce : kind == O_UNIQ ? (int[]){gs_pairwise, gs_crystal_router}[var & 1] : gs_auto, 0); free(id); o->nob = var & 1; if (!o->nob) buffer_init(&o->b, 1); } break;
  case O_CRYSTAL: crystal_init(&o->cr, c); break;
  case O_SARRAY: crystal_init(&o->cr, c); array_init(struct orec, &o->A, var & 1 ? 0 : 4); buffer_init(&o->b, 8); break;
  case O_FGS: { ob_lay(o); slong *id = ids_of(&o->L, o->me); sint n = o->L.n[o->me], np = o->np, m = 1 + (var >> 1) % 3; MPI_Fint fc = FCOMM(c); o->h = -1; ob_clock((var >> 1) % 3); if (var & 1) fgslib_gs_setup_(&o->h, id, &n, &fc, &np); else fgslib_gs_setup_pick_(&o->h, id, &n, &fc, &np, &m); free(id); } break;
  case O_FCR: { sint np = o->np; MPI_Fint fc = FCOMM(c); o->h = -1; fgslib_crystal_setup_(&o->h, &fc, &np); } break;
  case O_DUP: comm_dup(&o->own, c); break;
  case O_SPLIT: comm_split(c, var & 1 ? o->me & 1 : 0, var & 2 ? -o->me : o->me, &o->own); break;
  case O_SORT: buffer_init(&o->b, var & 1 ? 0 : 64); break;
  case O_POLY: buffer_init(&o->b, 1); break;
  }
}
/* operation numbers chosen so that the known transpose finding is not met: no transpose on flagged layouts */
static void ob_use(struct obj *o, int step, u64 *oh) {
  int dim, ms, loc, fort;
  if (ob_fp(o->kind, &dim, &ms, &loc, &fort)) { if (dim == 2) ofp_use_2(&o->f2, step, oh); else ofp_use_3(&o->f3, step, oh); return; }
  switch (o->kind) {
  case O_PW: case O_CR: case O_AR: case O_AUTO: case O_UNIQ: {
    struct lay *L = &o->L; buffer *b = o->nob ? 0 : &o->b; struct udata U;
    if (o->kind == O_UNIQ) { /* a unique handle: sums of a field of ones over the kept entries are checked through the total per id */
      double *u = sim_alloc(8 * L->n[o->me]); for (int i = 0; i < L->n[o->me]; i++) u[i] = L->id[o->me][i] ? 1 : 5; gs(u, gs_double, gs_add, 1, o->g, b); double tot = 0; for (int i = 0; i < L->n[o->me]; i++) tot += u[i]; *oh = hmix(*oh, (u64)(tot * 4)); gs(u, gs_double, gs_max, 0, o->g, b); free(u); return; }
    int m = step % 5, dom = step % gs_dom_n, op = m == 4 ? gs_max : step % 2 ? gs_add : gs_min;
    ud_alloc(&U, L, o->me, m % 3, 2, dom, op, eval_);
    int nbok = 1;
#ifdef NO_NBC
    nbok = o->kind == O_PW || o->kind == O_CR;
#endif
    if (m < 3 || !nbok) ud_run(&U, op, 0, o->g, b); else { int h = ud_start(&U, op, 0, o->g, b); gs_wait(h); }
    ud_check(&U, L, o->me, op, 0, okn[o->kind], eval_, oh, 0); ud_free(&U);
  } break;
  case O_FGS: { struct udata U; struct lay *L = &o->L; sint d = 1 + step % 3, op = 1 + (step & 1), t = 0, n = 2; int w; static const int dm[] = {0, gs_double, gs_sint, gs_slong}; int m = step % 6;
    if (step % 8 == 3) { /* strided fields */ sint st = L->n[o->me] + 1, vn = 3; int ds = dsz[dm[d]]; char *blk = sim_alloc((size_t)vn * st * ds); for (int k = 0; k < vn; k++) for (int i = 0; i < L->n[o->me]; i++) put(blk + (size_t)k * st * ds, i, dm[d], eval_(L->base[o->me] + i, k, L->base[L->np], op - 1)); fgslib_gs_op_fields_(&o->h, blk, &st, &vn, &d, &op, &t); struct udata V; V.mode = 2; V.vn = vn; V.n = L->n[o->me]; V.dom = dm[d]; for (int k = 0; k < vn; k++) V.a[k] = blk + (size_t)k * st * ds; ud_check(&V, L, o->me, op - 1, 0, "gs_op_fields", eval_, oh, 0); free(blk); }
    ud_alloc(&U, L, o->me, m == 1 || m == 4 ? 1 : m == 2 || m == 5 ? 2 : 0, 2, dm[d], op - 1, eval_);
#ifdef NO_NBC
    if (m > 2) m -= 3;
#endif
    switch (m) { case 0: fgslib_gs_op_(&o->h, U.flat, &d, &op, &t); break; case 1: fgslib_gs_op_vec_(&o->h, U.flat, &n, &d, &op, &t); break; case 2: fgslib_gs_op_many_(&o->h, U.a[0], U.a[1], 0, 0, 0, 0, &n, &d, &op, &t); break; case 3: fgslib_igs_op_(&o->h, U.flat, &d, &op, &t, &w); fgslib_gs_op_wait_(&w); break; case 4: fgslib_igs_op_vec_(&o->h, U.flat, &n, &d, &op, &t, &w); fgslib_gs_op_wait_(&w); break; default: fgslib_igs_op_many_(&o->h, U.a[0], U.a[1], 0, 0, 0, 0, &n, &d, &op, &t, &w); fgslib_gs_op_wait_(&w); }
    ud_check(&U, L, o->me, op - 1, 0, okn[o->kind], eval_, oh, 0); ud_free(&U);
    { struct lay *L2 = L; slong *id = ids_of(L2, o->me); sint nn = L2->n[o->me], np = o->np; MPI_Fint fc = FCOMM(&o->par); if (step & 1) fgslib_gs_unique_(id, &nn, &fc, &np); else gs_unique(id, nn, &o->par); for (int i = 0; i < nn; i++) REQUIRE(llabs(id[i]) == llabs(L2->id[o->me][i]), "gs_unique changed id %d", i); free(id); }
  } break;
  case O_CRYSTAL: {
    size_t n = 0; for (int d = 0; d < o->np; d++) if ((d + step) % 3 != 1) n += 3 + (d + o->me) % 4; buffer_reserve(&o->cr.data, n * UB); uint *q = o->cr.data.ptr; o->cr.data.n = n;
    for (int d = 0; d < o->np; d++) if ((d + step) % 3 != 1) { *q++ = d; *q++ = o->me; int l = (d + o->me) % 4; *q++ = l; for (int w = 0; w < l; w++) *q++ = hash2(o->me * 64 + d, w + step); }
    crystal_router(&o->cr); uint *e = (uint *)o->cr.data.ptr + o->cr.data.n; int cnt = 0, want = (o->me + step) % 3 != 1 ? o->np : 0;
    for (q = o->cr.data.ptr; q != e; cnt++) { int s = q[1], l = q[2]; REQUIRE(q[0] == (uint)o->me && s < o->np && l == (o->me + s) % 4, "crystal: message header %u %u %u", q[0], q[1], q[2]); for (int w = 0; w < l; w++) REQUIRE(q[3 + w] == (uint)hash2(s * 64 + o->me, w + step), "crystal: message from %d damaged", s); *oh = hmix(*oh, s); q += 3 + l; }
    REQUIRE(cnt == want, "crystal: %d messages, expected %d", cnt, want);
  } break;
  case O_SARRAY: {
    int n = 2 + (o->me + step) % 3; array_reserve(struct orec, &o->A, n); o->A.n = n; struct orec *r = o->A.ptr; uint pr[8]; for (int i = 0; i < n; i++) { memset(r + i, 0, sizeof *r); r[i].v = o->me * 10 + i; r[i].k = 100 - i * 7 - o->me; r[i].p = pr[i] = (o->me + i + step) % o->np; }
    if (step & 1) sarray_transfer_ext(struct orec, &o->A, pr, sizeof(uint), &o->cr); else sarray_transfer(struct orec, &o->A, p, 1, &o->cr);
    int want = 0; for (int s = 0; s < o->np; s++) for (int i = 0; i < 2 + (s + step) % 3; i++) want += (s + i + step) % o->np == o->me; REQUIRE(o->A.n == (size_t)want, "sarray: %zu records, expected %d", (size_t)o->A.n, want);
    r = o->A.ptr; for (int i = 0; i < want; i++) { int s = (int)(r[i].v / 10), j = (int)r[i].v % 10; REQUIRE((s + j + step) % o->np == o->me && r[i].k == 100 - j * 7 - s && r[i].p == (uint)(step & 1 ? o->me : s), "sarray: record %g arrived wrongly", r[i].v); }
    sarray_sort(struct orec, o->A.ptr, o->A.n, k, 0, &o->b); r = o->A.ptr; for (int i = 1; i < want; i++) REQUIRE(r[i - 1].k <= r[i].k, "sarray: not sorted"); *oh = hmix(*oh, want);
    if (step % 4 == 2) { /* two parallel arrays */
      struct array B; array_init(double, &B, 2); int nb = o->np; uint *pp = sim_alloc(4 * nb); array_reserve(struct orec, &o->A, nb); array_reserve(double, &B, nb); o->A.n = B.n = nb; r = o->A.ptr; for (int i = 0; i < nb; i++) { memset(r + i, 0, sizeof *r); r[i].v = o->me; r[i].p = i; ((double *)B.ptr)[i] = o->me + 0.5; }
      struct array *aa[2] = {&o->A, &B}; unsigned sz[2] = {sizeof(struct orec), 8}; sarray_transfer_many(aa, sz, 2, 0, 0, 1, offsetof(struct orec, p), &r->p, sizeof *r, &o->cr); r = o->A.ptr; REQUIRE(o->A.n == (size_t)o->np && B.n == o->A.n, "sarray_transfer_many: %zu and %zu records", (size_t)o->A.n, (size_t)B.n); for (int i = 0; i < o->np; i++) REQUIRE(r[i].v == r[i].p && ((double *)B.ptr)[i] == r[i].p + 0.5, "sarray_transfer_many: record %d damaged", i); array_free(&B); free(pp); }
    sarray_sort_2(struct orec, o->A.ptr, o->A.n, p, 0, k, 0, &o->b);
  } break;
  case O_FCR: {
    sint m = 3, n, mx = 8 + 4 * o->np, *t = sim_alloc(UB * 3 * mx), key = 1; n = 2; for (int i = 0; i < n; i++) t[3 * i] = (o->me + i + step) % o->np, t[3 * i + 1] = o->me, t[3 * i + 2] = 5 - i; fgslib_crystal_ituple_transfer_(&o->h, t, &m, &n, &mx, &key);
    int want = 0; for (int s = 0; s < o->np; s++) for (int i = 0; i < 2; i++) want += (s + i + step) % o->np == o->me; REQUIRE(n == want, "Fortran crystal: %d tuples, expected %d", n, want); for (int i = 0; i < n; i++) REQUIRE(t[3 * i] == t[3 * i + 1], "Fortran crystal: tuple %d has source %d, sent by %d", i, t[3 * i], t[3 * i + 1]);
    sint kk = 3, nk = 1; fgslib_crystal_ituple_sort_(&o->h, t, &m, &n, &kk, &nk); for (int i = 1; i < n; i++) REQUIRE(t[3 * i - 1] <= t[3 * i + 2], "Fortran crystal: not sorted");
    sint mi = 1, ml = 1, mr = 1, nt = 2; sint vi[64]; slong vl[64]; double vr[64]; sint mt = 64; for (int i = 0; i < 2; i++) vi[i] = (o->me + i) % o->np, vl[i] = BIGID((long long)o->me << 33), vr[i] = 0.5 * o->me; fgslib_crystal_tuple_transfer_(&o->h, &nt, &mt, vi, &mi, vl, &ml, vr, &mr, &key); for (int i = 0; i < nt; i++) REQUIRE(vl[i] == BIGID((long long)vi[i] << 33) && vr[i] == 0.5 * vi[i], "Fortran crystal: mixed tuple %d damaged", i);
    sint k1 = 2; fgslib_crystal_tuple_sort_(&o->h, &nt, vi, &mi, vl, &ml, vr, &mr, &k1, &nk); for (int i = 1; i < nt; i++) REQUIRE(vl[i - 1] <= vl[i], "Fortran crystal: mixed tuples not sorted"); free(t); *oh = hmix(*oh, n);
  } break;
  case O_DUP: case O_SPLIT: {
    double v[3] = {o->me + 1., 1, step}, w[3], ex[3]; int cnt = 0; ex[0] = 0; for (int q = 0; q < o->np; q++) if (o->kind == O_DUP || !(o->var & 1) || (q & 1) == (o->me & 1)) cnt++, ex[0] += q + 1; ex[1] = cnt; ex[2] = (double)cnt * step;
    REQUIRE(o->own.np == (uint)cnt, "communicator of %u processes, expected %d", o->own.np, cnt); comm_allreduce(&o->own, gs_double, gs_add, v, 3, w); for (int k = 0; k < 3; k++) REQUIRE(v[k] == ex[k], "sum over the new communicator is %g, expected %g", v[k], ex[k]); comm_barrier(&o->own); *oh = hmix(*oh, cnt);
  } break;
  case O_SORT: {
    int n = step % 3 == 0 ? 5 : step % 3 == 1 ? 40 : 300; uint *k = sim_alloc(UB * n); ulong *kl = sim_alloc(LB * n); for (int i = 0; i < n; i++) k[i] = hash2(i, step), kl[i] = hash2(i, step + 9); uint *pm = sortp(&o->b, 0, k, n, sizeof(uint)); for (int i = 1; i < n; i++) REQUIRE(k[pm[i - 1]] <= k[pm[i]], "sortp: not sorted"); pm = sortp_long(&o->b, step & 1, kl, n, sizeof(ulong)); for (int i = 1; i < n; i++) REQUIRE(kl[pm[i - 1]] <= kl[pm[i]], "sortp_long: not sorted"); uint *out = sim_alloc(UB * n); sortv(out, k, n, sizeof(uint), &o->b); for (int i = 1; i < n; i++) REQUIRE(out[i - 1] <= out[i], "sortv: not sorted"); free(k); free(kl); free(out);
  } break;
  case O_POLY: {
    int n = 3 + step % 3, m = 2 * n; double *z = sim_alloc(8 * n), *w = sim_alloc(8 * n), *lag, *D = sim_alloc(8 * 3 * n); lobatto_quad(z, w, n); lag = sim_alloc(8 * gll_lag_size(n)); lagrange_fun *f = gll_lag_setup(lag, n); f(D, lag, n, 1, 0.3); double s = 0, t = 0; for (int i = 0; i < n; i++) s += w[i], t += D[i]; REQUIRE(fabs(s - 2) < 1e-13 && fabs(t - 1) < 1e-12, "quadrature weights sum to %g, basis to %g", s, t);
    double x0[2 * 9], y0[2 * 9]; for (int e = 0; e < 2; e++) for (int i = 0; i < 9; i++) x0[e * 9 + i] = e + i % 3, y0[e * 9 + i] = i / 3; const double *ex[2] = {x0, y0}; unsigned nn[2] = {3, 3}, mm[2] = {6, 6}; struct obbox_2 ob[2]; obbox_calc_2(ob, ex, nn, 2, mm, 0.01); REQUIRE(ob[1].x[0].max >= 3 && ob[0].x[1].min <= 0, "box too small"); free(z); free(w); free(lag); free(D); (void)m;
  } break;
  }
}
static void ob_free(struct obj *o) {
  int dim, ms, loc, fort; o->live = 0;
  if (ob_fp(o->kind, &dim, &ms, &loc, &fort)) { if (dim == 2) ofp_free_2(&o->f2); else ofp_free_3(&o->f3); return; }
  switch (o->kind) {
  case O_PW: case O_CR: case O_AR: case O_AUTO: case O_UNIQ: gs_free(o->g); if (!o->nob) buffer_free(&o->b); break;
  case O_CRYSTAL: crystal_free(&o->cr); break; case O_SARRAY: crystal_free(&o->cr); array_free(&o->A); buffer_free(&o->b); break;
  case O_FGS: fgslib_gs_free_(&o->h); break; case O_FCR: fgslib_crystal_free_(&o->h); break;
  case O_DUP: case O_SPLIT: comm_free(&o->own); break; case O_SORT: case O_POLY: buffer_free(&o->b); break;
  }
}
#endif
