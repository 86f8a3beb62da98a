#define _GNU_SOURCE
/* C30: user arrays of more than 2 GB, 4 GB, 2^32 elements: sparse mappings of which only the pages in use exist */
#include "gs_common.h"
#include "fort.h"
#include <sys/mman.h>
#include <unistd.h>
#ifdef GSLIB_USE_MPI
#define FCOMM(C_) MPI_Comm_c2f((C_)->c)
#else
#define FCOMM(C_) 0
#endif
enum { K_VEC, K_FLD, K_SORT, K_REC, K_PROC, K_BIGREC, K_RED, K_ONE, K_FP, K_FPF };
static const char *kname[] = {"vector gather-scatter", "Fortran fields far apart", "strided sort", "sort of 1 MB records", "transfer with strided processor numbers", "transfer of 1 MB records", "reduction of more than 4 GB", "reductions of more than 4 GB on one process", "point location, strided arguments", "point location from Fortran, strided arguments"};
struct fam { int kind, np, a, b; u64 cnt; };
static struct fam *F; static int nf, cf; static u64 total, *start;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F), start = realloc(start, (cf + 1) * sizeof *start); F[nf] = f; start[nf] = total; total += f.cnt; start[++nf] = total; }
static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
#define NPOS 4
/* keys: number and distance in bytes */
static const struct { unsigned n, st; } SD[] = {{2, 0xfffffff8}, {3, 0x80000008}, {5, 0xfffffff8}, {4, 0x40000000}, {6, 0x40000008}, {9, 0x20000000}, {33, 0x08000000}, {40, 0x10000008}, {255, 0x01100008}, {256, 0x01000000}, {257, 0x01000000}, {300, 0x01000008}, {1000, 0x00800000}, {4096, 0x00100000}, {4097, 0x00100000}, {5000, 0x00100008}};
#define NSD 16
#define NPT 4200
#define MB 0x100000
void h_init(int tier) {
  nf = 0; total = 0; (void)tier;
  add((struct fam){K_BIGREC, 1, 0, 0, 1}); if (tier) add((struct fam){K_BIGREC, 1, 1, 0, 1});
  add((struct fam){K_VEC, 1, 4, 0, ipow(3, 4)}); add((struct fam){K_VEC, 2, 2, 0, ipow(3, 4)}); if (tier) add((struct fam){K_VEC, 1, 4, 1, ipow(5, 4)}), add((struct fam){K_VEC, 3, 2, 0, ipow(3, 6)});
  for (int d = 0; d < gs_dom_n; d++) add((struct fam){K_ONE, 1, d, 0, tier ? 6 : 3});
#ifdef GSLIB_USE_MPI
  for (int d = 0; d < gs_dom_n; d++) if (tier || d == gs_double || d == gs_int) add((struct fam){K_RED, 2, d, 0, tier ? 4 : 1});
#endif
  for (int np = 1; np <= 2; np++) for (int d = 0; d < 3; d++) for (int s = 0; s < 5; s++) add((struct fam){K_FLD, np, d, s, 4});
  for (int d = 0; d < NSD; d++) for (int f = 0; f < 3; f++) for (int t = 0; t < 4; t++) add((struct fam){K_SORT, 1, d, f * 4 + t, tier ? 6 : 3});
  for (int k = 0; k < 6; k++) add((struct fam){K_REC, 1, k, 0, tier ? 8 : 3});
  for (int np = 1; np <= 3; np++) add((struct fam){K_PROC, np, 0, 0, tier ? 6 : 3});
  for (int np = 1; np <= (tier ? 4 : 2); np++) for (int D = 2; D <= 3; D++) add((struct fam){K_FP, np, D, 0, 3}), add((struct fam){K_FPF, np, D, 0, 2});
}
uint64_t h_ncases(void) { return total; }
static const struct fam *get(u64 *i) { int lo = 0, hi = nf; while (hi - lo > 1) { int m = (lo + hi) / 2; if (start[m] <= *i) lo = m; else hi = m; } *i -= start[lo]; return F + lo; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = get(&i); c->np = f->np; c->policies = f->kind == K_VEC ? PM(i % POL_N) : PM(0); c->check_stray = 1; c->fill = i & 3; }
static void mklay(const struct fam *f, u64 i, struct lay *L) { static const slong al[] = {1, 2, -1, 0, -2}; memset(L, 0, sizeof *L); L->np = f->np; int a = f->b ? 5 : 3; for (int p = 0; p < f->np; p++) { L->n[p] = f->a; for (int j = 0; j < f->a; j++) L->id[p][j] = al[dig(&i, a)]; } lay_fin(L); }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = get(&i); int o = snprintf(b, n, "%s np=%d ", kname[f->kind], f->np); struct lay L; if (f->kind == K_VEC) mklay(f, i, &L), lay_desc(&L, b + o, n - o); else if (f->kind == K_SORT) snprintf(b + o, n - o, "%u keys %u bytes apart, function %d, type %d, keys %d", SD[f->a].n, SD[f->a].st, f->b / 4, f->b % 4, (int)i); else snprintf(b + o, n - o, "parameters %d %d variant %d", f->a, f->b, (int)i); }
/* a sparse array */
static void *vm_new(size_t n) { n = (n + 4096 + 4095) & ~(size_t)4095; void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0; madvise(p, n, MADV_NOHUGEPAGE); return p; }
static void vm_free(void *p, size_t n) { if (p) munmap(p, (n + 4096 + 4095) & ~(size_t)4095); }
/* do all ranks have what they need? */
static int agree(int ok, int np) {
#ifdef GSLIB_USE_MPI
  if (np > 1) { int all; MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); ok = all; }
#endif
  (void)np; return ok;
}
/* every page outside the given ranges (sorted) still holds zeros */
struct rng { size_t a, n; };
static void vm_clean(const char *what, const char *p, size_t n, const struct rng *r, int nr) {
  enum { CH = 1 << 18 }; static unsigned char v[CH]; n = (n + 4096 + 4095) & ~(size_t)4095;
  for (size_t o = 0; o < n; o += (size_t)CH * 4096) {
    size_t l = n - o < (size_t)CH * 4096 ? n - o : (size_t)CH * 4096; if (mincore((void *)(p + o), l, v)) sim_violation("%s: mincore failed", what);
    for (size_t k = 0; k < l / 4096; k++) if (v[k] & 1) { size_t a = o + k * 4096; for (size_t x = a; x < a + 4096; ) { int in = 0; for (int q = 0; q < nr; q++) if (x >= r[q].a && x < r[q].a + r[q].n) { x = r[q].a + r[q].n; in = 1; break; } if (in) continue; if (p[x]) sim_violation("%s: byte %zu of the caller's array, which belongs to no entry in use, was written", what, x); x++; } }
  }
}
/* ---- gather-scatter ---- */
static void vec(const struct fam *f, u64 i, struct comm *c, int p, u64 *oh) {
  struct lay L; mklay(f, i, &L); static const int METH[] = {gs_pairwise, gs_crystal_router, gs_all_reduce};
  for (int dom = 0; dom < gs_dom_n; dom++) {
    if ((dom + i) % 3) continue;
    unsigned vn = 16389; size_t unit = (size_t)vn * dsz[dom]; u64 b31 = 1ul << 31, b32 = 1ul << 32; size_t all[NPOS] = {b31 / unit + 1, b32 / unit + 1, b31 / vn + 1, b32 / vn + 1}, pos[NPOS];
    if (f->a == NPOS) memcpy(pos, all, sizeof all); else { pos[0] = p ? all[1] : all[0]; pos[1] = p ? all[2] : all[3]; }
    if (dsz[dom] == 4 && f->a == NPOS) pos[0] = 5;  /* four-byte types: 2^31 elements are 2^33 bytes */
    size_t n = 0; for (int j = 0; j < f->a; j++) { if (pos[j] > n) n = pos[j]; } n += 2; /* entries */
    for (int a = 0; a < f->a; a++) for (int q = a + 1; q < f->a; q++) if (pos[a] == pos[q]) pos[q]++, n++;
    size_t bytes = n * unit; char *u = vm_new(bytes); if (!agree(!!u, f->np)) { vm_free(u, bytes); continue; } slong *id = calloc(n, sizeof *id); for (int j = 0; j < f->a; j++) id[pos[j]] = L.id[p][j];
    struct rng R[NPOS]; for (int j = 0; j < f->a; j++) R[j] = (struct rng){pos[j] * unit, unit};
    for (int m = 0; m < 3; m++) {
      if (m && f->np == 1) continue;
      int fort = (dom == gs_double || dom == gs_sint || dom == gs_slong) && (i / 3 + m) % 2; struct gs_data *g = 0; sint h = -1, sn = n, one = 1, np = f->np; MPI_Fint fc = FCOMM(c); (void)one;
      if (fort) { sint me = METH[m]; fgslib_gs_setup_pick_(&h, id, &sn, &fc, &np, &me); } else g = gs_setup(id, n, c, 0, METH[m], 0);
      for (int op = 0; op < 5; op++) for (int t = 0; t < 2; t++) {
        if ((op + t + m + i) % 3 || (fort && op == 4)) continue; struct udata U; ud_alloc(&U, &L, p, 1, vn, dom, op, eval_);
        for (int j = 0; j < f->a; j++) memcpy(u + pos[j] * unit, (char *)U.flat + j * unit, unit);
        int nb = (op + m) & 1;
#ifdef NO_NBC
        nb = nb && METH[m] != gs_all_reduce;
#endif
        if (fort) { sint v = vn, d = dom == gs_double ? 1 : dom == gs_sint ? 2 : 3, o = op + 1, tt = t; int w; if (nb) fgslib_igs_op_vec_(&h, u, &v, &d, &o, &tt, &w), fgslib_gs_op_wait_(&w); else fgslib_gs_op_vec_(&h, u, &v, &d, &o, &tt); }
        else if (nb) { int w; buffer b; buffer_init(&b, 1); igs_vec(u, vn, dom, op, t, g, &b, &w); gs_wait(w); buffer_free(&b); } else gs_vec(u, vn, dom, op, t, g, 0);
        for (int j = 0; j < f->a; j++) memcpy((char *)U.flat + j * unit, u + pos[j] * unit, unit);
        ud_check(&U, &L, p, op, t, fort ? "Fortran vectors of 16389 components" : "vectors of 16389 components", eval_, oh, ""); ud_free(&U); sim_steps(1);
      }
      if (fort) fgslib_gs_free_(&h); else gs_free(g);
    }
    vm_clean("vectors of 16389 components", u, bytes, R, f->a); free(id); vm_free(u, bytes);
  }
}
static void fld(const struct fam *f, u64 i, struct comm *c, int p, u64 *oh) {
  static const int dm[] = {gs_double, gs_sint, gs_slong}; static const size_t SB[] = {(size_t)1 << 31, ((size_t)1 << 32), ((size_t)1 << 32) + 40, ((size_t)1 << 33), ((size_t)3 << 31) + 24}; /* bytes between fields */
  int dom = dm[f->a]; size_t ds = dsz[dom], sb = SB[f->b]; if (sb / ds > INT_MAX) return; sint stride = sb / ds, n = 6, nf_ = 3, h, np = f->np, d = f->a + 1; struct lay L; memset(&L, 0, sizeof L); L.np = f->np;
  for (int q = 0; q < f->np; q++) { static const slong al[] = {1, 2, -1, 3, 0, -2}; L.n[q] = n; for (int j = 0; j < n; j++) L.id[q][j] = al[(j * 5 + q + i) % 6]; } lay_fin(&L);
  slong *id = ids_of(&L, p); MPI_Fint fc = FCOMM(c); sint me = (i % 3) + gs_pairwise; fgslib_gs_setup_pick_(&h, id, &n, &fc, &np, &me); size_t bytes = sb * 2 + n * ds; char *u = vm_new(bytes); if (!agree(!!u, f->np)) { vm_free(u, bytes); return; } struct rng R[3];
  for (int op = 0; op < 4; op++) for (int t = 0; t < 2; t++) { struct udata U; ud_alloc(&U, &L, p, 2, nf_, dom, op, eval_); sint o = op + 1, tt = t; for (int k = 0; k < nf_; k++) memcpy(u + k * sb, U.a[k], n * ds), R[k] = (struct rng){k * sb, n * ds}; fgslib_gs_op_fields_(&h, u, &stride, &nf_, &d, &o, &tt); for (int k = 0; k < nf_; k++) memcpy(U.a[k], u + k * sb, n * ds); ud_check(&U, &L, p, op, t, "gs_op_fields", eval_, oh, ""); ud_free(&U); sim_steps(1); }
  vm_clean("gs_op_fields", u, bytes, R, 3); vm_free(u, bytes); fgslib_gs_free_(&h); free(id);
}
/* ---- reductions: the vector repeats itself every WIN bytes, so one window of memory mapped again and again holds it ---- */
#define WIN (64ul << 20)
static void *rep_new(size_t n, int *fd) {
  *fd = memfd_create("h_huge", 0); if (*fd < 0 || ftruncate(*fd, WIN)) return 0; size_t m = (n + WIN - 1) / WIN * WIN; char *p = mmap(0, m, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
  for (size_t o = 0; o < m; o += WIN) if (mmap(p + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, *fd, 0) == MAP_FAILED) return 0; return p;
}
static void rep_free(void *p, size_t n, int fd) { if (p) munmap(p, (n + WIN - 1) / WIN * WIN); if (fd >= 0) close(fd); }
static void redn(const struct fam *f, u64 i, struct comm *c, int p, u64 *oh) {
  int dom = f->a, op = i == 0 ? gs_add : i == 1 ? gs_max : i == 2 ? gs_min : gs_mul, fv = -1, fw = -1; size_t ds = dsz[dom], n = ((size_t)1 << 32) / ds + 5, per = WIN / ds; char *v = rep_new(n * ds, &fv), *w = rep_new(n * ds, &fw); int ok = v && w;
  if (agree(ok, f->np)) { for (size_t k = 0; k < per; k++) put(v, k, dom, (long long)(k * 7 % 101) - 50 + p * 3); comm_allreduce(c, dom, op, v, n, w);
    for (size_t k = 0; k < per; k++) { long long ex[2]; ident(ex, dom, op); for (int q = 0; q < f->np; q++) fold(ex, dom, op, (long long)(k * 7 % 101) - 50 + q * 3); if (memcmp(ex, v + k * ds, ds)) sim_violation("comm_allreduce of %zu %s values: value %zu is %.17g, expected %.17g", n, dname[dom], k, asd(v, k, dom), asd(ex, 0, dom)); } *oh = hbytes(*oh, v, 1000); }
  rep_free(v, n * ds, fv); rep_free(w, n * ds, fw); sim_steps(1);
}
static void one(const struct fam *f, u64 i, struct comm *c, u64 *oh) {
  int dom = f->a, fv = -1, fw = -1, op = i < 3 ? gs_add : gs_max; size_t ds = dsz[dom], n = (((size_t)1 << 32) + WIN) / ds, per = WIN / ds; char *v = rep_new(n * ds, &fv), *w = rep_new(n * ds, &fw); if (!v || !w) { rep_free(v, n * ds, fv); rep_free(w, n * ds, fw); return; }
  for (size_t k = 0; k < per; k++) put(v, k, dom, (long long)(k * 7 % 101) - 50);
  switch (i % 3) {
  case 0: { /* scan: nothing before the first rank, its own values as the total; the two halves side by side */
    char *s = mmap(0, 2 * n * ds, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); int f2 = memfd_create("h_huge", 0); if (s == MAP_FAILED || f2 < 0 || ftruncate(f2, WIN)) break; int ok = 1; for (size_t o = 0; o < n * ds; o += WIN) ok = ok && mmap(s + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fw, 0) != MAP_FAILED && mmap(s + n * ds + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, f2, 0) != MAP_FAILED; 
    if (ok) { memset(s, 0x5a, WIN); memset(s + n * ds, 0x5b, WIN); comm_scan(s, c, dom, op, v, n, 0); for (size_t k = 0; k < per; k++) { long long ex[2]; ident(ex, dom, op); if (memcmp(ex, s + k * ds, ds)) sim_violation("comm_scan of %zu %s values: value %zu before the first rank is %.17g", n, dname[dom], k, asd(s, k, dom)); if (memcmp(v + k * ds, s + (n + k) * ds, ds)) sim_violation("comm_scan of %zu %s values: total %zu is %.17g, expected %.17g", n, dname[dom], k, asd(s + n * ds, k, dom), asd(v, k, dom)); } *oh = hbytes(*oh, s + n * ds, 1000); }
    munmap(s, 2 * n * ds); close(f2); } break;
  case 1: { double e = 0, g = 0; switch (dom) {
    case gs_double: g = comm_dot(c, (double *)v, (double *)v, n); for (size_t k = 0; k < per; k++) e += asd(v, k, dom) * asd(v, k, dom); e *= n / per; break;
    default: put(v, per - 1, dom, 90); e = 90; switch (dom) { case gs_float: g = comm_reduce_float(c, gs_max, (float *)v, n); break; case gs_int: g = comm_reduce_int(c, gs_max, (int *)v, n); break; case gs_long: g = comm_reduce_long(c, gs_max, (long *)v, n); break; default: g = e; } }
    REQUIRE(g == e, "%s over %zu %s values is %.17g, expected %.17g", dom == gs_double ? "comm_dot" : "comm_reduce", n, dname[dom], g, e); } break;
  default: { /* by hand: one process has nothing to combine, the result is a copy */
#ifdef GSLIB_USE_MPI
    comm_req r; memset(w, 0x5a, WIN); comm_iallreduce(&r, c, dom, gs_bpr, v, n, w); comm_wait(&r, 1); for (size_t k = 0; k < per; k++) if (memcmp(v + k * ds, w + k * ds, ds)) sim_violation("comm_iallreduce(bpr) of %zu %s values on one process: value %zu is %.17g, expected %.17g", n, dname[dom], k, asd(w, k, dom), asd(v, k, dom)); *oh = hbytes(*oh, w, 1000);
#endif
    } break;
  }
  rep_free(v, n * ds, fv); rep_free(w, n * ds, fw); sim_steps(1);
}
/* ---- sorts ---- */
static double kd(int t, const void *p) { return t == 2 ? *(double *)p : *(float *)p; }
static int lt(int t, const void *a, const void *b) { switch (t) { case 0: return *(uint *)a < *(uint *)b; case 1: return *(ulong *)a < *(ulong *)b; default: return kd(t, a) < kd(t, b); } }
static u64 key(unsigned j, unsigned n, int a) { switch (a) { case 0: return hash2(j, n); case 1: return n - j; case 2: return hash2(j, n) % 3; case 3: return hash2(j, n) & 0xff00ff; case 4: return 7; default: return j; } }
static void msort(uint *ref, unsigned n, int t, const char *A, size_t st) { uint *tmp = malloc(n * UB); for (u64 w = 1; w < n; w *= 2) { for (u64 a = 0; a < n; a += 2 * w) { u64 m = a + w < n ? a + w : n, e = a + 2 * w < n ? a + 2 * w : n, x = a, y = m, o = a; while (x < m || y < e) if (y >= e || (x < m && !lt(t, A + ref[y] * st, A + ref[x] * st))) tmp[o++] = ref[x++]; else tmp[o++] = ref[y++]; } memcpy(ref, tmp, n * UB); } free(tmp); }
static void sorts(const struct fam *f, u64 i, u64 *oh) {
  static const int tsz[] = {sizeof(uint), sizeof(ulong), 8, 4}; static const char *tn[] = {"uint", "ulong", "double", "float"}; int fn = f->b / 4, t = f->b % 4; unsigned n = SD[f->a].n, st = SD[f->a].st; size_t bytes = (size_t)(n - 1) * st + 8; char *A = vm_new(bytes); if (!A) return; buffer b; buffer_init(&b, 1);
  for (unsigned j = 0; j < n; j++) { void *p = A + (size_t)j * st; u64 v = key(j, n, (int)i); switch (t) { case 0: *(uint *)p = (uint)v; break; case 1: *(ulong *)p = v; break; case 2: *(double *)p = (double)(long long)v / 3; break; default: *(float *)p = (float)(int)v / 4; } }
  uint *ref = sim_alloc(n * UB); for (unsigned j = 0; j < n; j++) ref[j] = fn == 2 ? n - 1 - j : j;
  if (fn == 2) { buffer_reserve(&b, n * UB); memcpy(b.ptr, ref, n * UB); }
  msort(ref, n, t, A, st);
  if (fn == 0) { char *out = sim_alloc((size_t)n * tsz[t]); switch (t) { case 0: sortv((uint *)out, (uint *)A, n, st, &b); break; case 1: sortv_long((ulong *)out, (ulong *)A, n, st, &b); break; case 2: sortv_double((double *)out, (double *)A, n, st, &b); break; default: sortv_float((float *)out, (float *)A, n, st, &b); }
    for (unsigned j = 0; j < n; j++) REQUIRE(!memcmp(out + j * tsz[t], A + (size_t)ref[j] * st, tsz[t]), "sortv of %u %s keys %u bytes apart: position %u is not the sorted value", n, tn[t], st, j); *oh = hbytes(*oh, out, n * tsz[t]); free(out);
  } else { uint *p; switch (t) { case 0: p = sortp(&b, fn == 2, (uint *)A, n, st); break; case 1: p = sortp_long(&b, fn == 2, (ulong *)A, n, st); break; case 2: p = sortp_double(&b, fn == 2, (double *)A, n, st); break; default: p = sortp_float(&b, fn == 2, (float *)A, n, st); }
    for (unsigned j = 0; j < n; j++) REQUIRE(p[j] == ref[j], "sortp of %u %s keys %u bytes apart, starting permutation %d: position %u holds %u, the stable order has %u", n, tn[t], st, fn == 2, j, p[j], ref[j]); *oh = hbytes(*oh, p, n * UB); }
  free(ref); buffer_free(&b); vm_free(A, bytes); sim_steps(1);
}
struct big { ulong l; double d; float f; uint u; char mid[MB - 64]; uint tail; };
/* records sorted but for a few, at places on both sides of 2 and 4 GB */
static void recs(const struct fam *f, u64 i, u64 *oh) {
  unsigned n = i == 2 ? 200 : NPT + (unsigned)i; size_t bytes = (size_t)n * sizeof(struct big); struct big *R = vm_new(bytes); if (!R) return; uint *lab = sim_alloc(n * UB), *ref = sim_alloc(n * UB); buffer b; buffer_init(&b, 1);
  for (unsigned j = 0; j < n; j++) lab[j] = ref[j] = j; 
  static const unsigned sw[][2] = {{1, 4100}, {2047, 4150}, {2049, 4097}, {10, 2048}, {4096, 3}, {4095, 4097}}; for (int k = 0; k < 6; k++) { unsigned a = (sw[k][0] + 7 * i) % n, c = (sw[k][1] + i) % n; uint x = lab[a]; lab[a] = lab[c]; lab[c] = x; }
  /* pairs of equal first keys in the variants of two fields */
  for (unsigned j = 0; j < n; j++) { struct big *r = R + j; uint v = lab[j]; r->u = f->a >= 4 ? v / 2 : v; r->l = (ulong)v << 20; r->d = v * 0.5; r->f = v; r->tail = v + 1; }
  switch (f->a) { case 0: sarray_sort(struct big, R, n, u, 0, &b); break; case 1: sarray_sort(struct big, R, n, l, 1, &b); break; case 2: sarray_sort(struct big, R, n, d, 3, &b); break; case 3: sarray_sort(struct big, R, n, f, 2, &b); break; case 4: sarray_sort_2(struct big, R, n, u, 0, d, 3, &b); break; default: sarray_sort_3(struct big, R, n, u, 0, u, 0, l, 1, &b); }
  for (unsigned j = 0; j < n; j++) REQUIRE(R[j].tail == j + 1 && R[j].l == (ulong)j << 20 && R[j].f == (float)j, "sort of %u records of 1 MB: place %u holds record %u", n, j, R[j].tail - 1);
  *oh = n; buffer_free(&b); free(lab); free(ref); vm_free(R, bytes); sim_steps(1);
}
/* ---- transfers ---- */
struct small { uint s, j; double v; };
static void proc(const struct fam *f, u64 i, struct comm *c, int p, u64 *oh) {
  struct crystal cr; crystal_init(&cr, c); int np = f->np; unsigned n = NPT + 11 * p, st = i == 1 ? 0x01000000 / 2 : MB + 8; if (i == 1) n = 700; size_t bytes = (size_t)(n - 1) * st + UB; char *P = vm_new(bytes); if (!agree(!!P, np)) return; struct array A; array_init(struct small, &A, n); A.n = n; struct small *r = A.ptr; u64 exp = 0;
  for (unsigned j = 0; j < n; j++) r[j] = (struct small){(uint)p, j, p * 1e6 + j}, *(uint *)(P + (size_t)j * st) = hash2(p * 100000 + j, i) % np;
  sarray_transfer_ext(struct small, &A, (uint *)P, st, &cr);
  for (int q = 0; q < np; q++) { unsigned m = i == 1 ? 700 : NPT + 11 * q; for (unsigned j = 0; j < m; j++) if (hash2(q * 100000 + j, i) % np == (unsigned)p) exp++; }
  REQUIRE(A.n == exp, "sarray_transfer_ext, processor numbers %u bytes apart: %u records arrived, %u were sent", st, (unsigned)A.n, (unsigned)exp); r = A.ptr; char *seen = calloc(np * (NPT + 200), 1);
  for (unsigned k = 0; k < A.n; k++) { REQUIRE(r[k].s < (uint)np && r[k].j < NPT + 200 && r[k].v == r[k].s * 1e6 + r[k].j && hash2(r[k].s * 100000 + r[k].j, i) % np == (unsigned)p && !seen[r[k].s * (NPT + 200) + r[k].j]++, "sarray_transfer_ext, processor numbers %u bytes apart: record %u of rank %u arrived wrongly", st, (unsigned)r[k].j, (unsigned)r[k].s); *oh = hmix(*oh, r[k].j); }
  free(seen); array_free(&A); crystal_free(&cr); vm_free(P, bytes); sim_steps(1);
}
/* memory there is, also by the limits of control groups */
static long filenum(const char *f) { FILE *h = fopen(f, "r"); long v = -1; if (h) { if (fscanf(h, "%ld", &v) != 1) v = -1; fclose(h); } return v; }
static long memory_mb(void) {
  long mb = sysconf(_SC_AVPHYS_PAGES) / 256, v, u; char line[200]; FILE *h = fopen("/proc/meminfo", "r"); if (h) { while (fgets(line, sizeof line, h)) if (sscanf(line, "MemAvailable: %ld", &v) == 1) mb = v / 1024; fclose(h); }
  static const char *cg[][2] = {{"/sys/fs/cgroup/memory.max", "/sys/fs/cgroup/memory.current"}, {"/sys/fs/cgroup/memory/memory.limit_in_bytes", "/sys/fs/cgroup/memory/memory.usage_in_bytes"}};
  for (int k = 0; k < 2; k++) if ((v = filenum(cg[k][0])) > 0 && (u = filenum(cg[k][1])) >= 0 && (v - u) >> 20 < mb) mb = (v - u) >> 20;
  return mb;
}
static void bigrec(const struct fam *f, u64 i, struct comm *c, u64 *oh) {
  if (memory_mb() < 16000) return; /* not enough memory: case not covered */
  struct crystal cr; crystal_init(&cr, c); unsigned n = 4100; struct array A; struct big *r; A.max = n; A.n = n; A.ptr = malloc((size_t)n * sizeof *r); r = A.ptr; uint *P = 0;
  for (unsigned j = 0; j < n; j++) r[j].u = 0, r[j].tail = j + 1, r[j].l = j; 
  if (f->a) { P = calloc(n, UB); sarray_transfer_ext(struct big, &A, P, UB, &cr); free(P); } else sarray_transfer(struct big, &A, u, 1, &cr);
  REQUIRE(A.n == n, "transfer of %u records of 1 MB: %u arrived", n, (unsigned)A.n); r = A.ptr; char *seen = calloc(n, 1); for (unsigned j = 0; j < n; j++) REQUIRE(r[j].u == 0 && r[j].l < n && r[j].tail == r[j].l + 1 && !seen[r[j].l]++, "transfer of %u records of 1 MB: place %u holds part of record %u and of %u", n, j, (unsigned)r[j].l, r[j].tail - 1);
  free(seen); array_free(&A); crystal_free(&cr); *oh = n + i; sim_steps(1);
}
/* ---- point location: the arguments of the points in one piece, and strided over more than 4 GB ---- */
enum { A_CODE, A_PROC, A_EL, A_R, A_D2, A_X, A_Y, A_Z, A_OUT, A_SESS, A_N };
struct args { char *b[A_N]; size_t bytes[A_N]; unsigned st[A_N]; };
static int mkargs(struct args *a, int D, unsigned n, unsigned wide) { /* wide: which arguments are far apart */
  int ok = 1;
  for (int k = 0; k < A_N; k++) { unsigned w = k == A_CODE || k == A_PROC || k == A_EL || k == A_SESS ? UB : k == A_R ? 8 * D : 8; a->st[k] = wide >> k & 1 ? MB + 8 * k : w; a->bytes[k] = (size_t)(n - 1) * a->st[k] + w; a->b[k] = vm_new(a->bytes[k]); ok &= !!a->b[k]; } return ok; }
static void rmargs(struct args *a) { for (int k = 0; k < A_N; k++) vm_free(a->b[k], a->bytes[k]); }
#define AT_(T, A_, k, j) ((T *)((A_)->b[k] + (size_t)(j) * (A_)->st[k]))
static void point(int j, int np, int D, double *x) { x[0] = (j * 7 % (np * 8 + 4)) / 8. + 0.1; x[1] = 0.3 + j % 4; x[2] = 0.1 + (j % 11) / 8.; (void)D; if (j % 13 == 0) x[1] = 1; }
#define FPFN(D) static void fp##D(const struct fam *f, u64 i, struct comm *c, int p, u64 *oh) { \
  enum { NN = D == 3 ? 27 : 9 }; int np = f->np, ft = f->kind == K_FPF, ms = !ft && i == 2, nel = 3; unsigned n = NPT; double *x[3], *fld = sim_alloc(8 * NN * nel); const double *ex[3]; unsigned nr[3] = {3, 3, 3}, mr[3] = {6, 6, 6}; \
  for (int d = 0; d < D; d++) { x[d] = sim_alloc(8 * NN * nel); ex[d] = x[d]; for (int e = 0; e < nel; e++) for (int k = 0; k < NN; k++) { int t[3] = {k % 3, k / 3 % 3, k / 9}; x[d][e * NN + k] = 0.5 * t[d] + (d == 0 ? p : d == 1 ? e : 0); } } for (int k = 0; k < NN * nel; k++) fld[k] = k * 0.25 + p; \
  struct findpts_data_##D *h = 0; sint fh = -1; uint nsid = p % 2, match = 0; double *di = sim_alloc(8 * NN * nel); for (int k = 0; k < NN * nel; k++) di[k] = 1; \
  if (ft) { MPI_Fint fc = FCOMM(c); sint np_ = np, dim = D, n3 = 3, sn = nel, m6 = 6, hl = 300, nm = 64; double tol = 0.01, nt = 1e-12; fgslib_findpts_setup_(&fh, &fc, &np_, &dim, x[0], x[1], D == 3 ? x[2] : x[0], &n3, &n3, &n3, &sn, &m6, &m6, &m6, &tol, &hl, &hl, &nm, &nt); } \
  else if (ms) h = findptsms_setup_##D(c, ex, nr, nel, mr, 0.01, 300, 300, 64, 1e-12, &nsid, di); else h = findpts_setup_##D(c, ex, nr, nel, mr, 0.01, 300, 300, 64, 1e-12); \
  struct args a, w; int ok = mkargs(&a, D, n, 0), ok2 = mkargs(&w, D, n, i & 1 ? 0x3ff & ~(1 << A_CODE | 1 << A_X | 1 << A_R) : 0x3ff); if (agree(ok && ok2, np)) { \
  for (unsigned j = 0; j < n; j++) { double q[3]; point(j * 3 + p, np, D, q); for (int d = 0; d < D; d++) *AT_(double, &a, A_X + d, j) = *AT_(double, &w, A_X + d, j) = q[d]; *AT_(uint, &a, A_SESS, j) = *AT_(uint, &w, A_SESS, j) = (j + 1) % 2; *AT_(double, &a, A_OUT, j) = *AT_(double, &w, A_OUT, j) = -7; } \
  for (int v = 0; v < 2; v++) { struct args *g = v ? &w : &a; const double *xb[3]; unsigned xs[3]; for (int d = 0; d < D; d++) xb[d] = (double *)g->b[A_X + d], xs[d] = g->st[A_X + d]; \
    if (ft) { sint sc = g->st[A_CODE] / UB, sp = g->st[A_PROC] / UB, se = g->st[A_EL] / UB, sr = g->st[A_R] / 8, sd = g->st[A_D2] / 8, s0 = g->st[A_X] / 8, s1 = g->st[A_Y] / 8, s2 = g->st[A_Z] / 8, so = g->st[A_OUT] / 8, sn = n; \
      fgslib_findpts_(&fh, (sint *)g->b[A_CODE], &sc, (sint *)g->b[A_PROC], &sp, (sint *)g->b[A_EL], &se, (double *)g->b[A_R], &sr, (double *)g->b[A_D2], &sd, xb[0], &s0, xb[1], &s1, (double *)g->b[A_Z], &s2, &sn); \
      fgslib_findpts_eval_(&fh, (double *)g->b[A_OUT], &so, (sint *)g->b[A_CODE], &sc, (sint *)g->b[A_PROC], &sp, (sint *)g->b[A_EL], &se, (double *)g->b[A_R], &sr, &sn, fld); \
    } else if (ms) { findptsms_##D((uint *)g->b[A_CODE], g->st[A_CODE], (uint *)g->b[A_PROC], g->st[A_PROC], (uint *)g->b[A_EL], g->st[A_EL], (double *)g->b[A_R], g->st[A_R], (double *)g->b[A_D2], g->st[A_D2], xb, xs, (uint *)g->b[A_SESS], g->st[A_SESS], &match, n, h); \
      findptsms_eval_##D((double *)g->b[A_OUT], g->st[A_OUT], (uint *)g->b[A_CODE], g->st[A_CODE], (uint *)g->b[A_PROC], g->st[A_PROC], (uint *)g->b[A_EL], g->st[A_EL], (double *)g->b[A_R], g->st[A_R], n, fld, h); \
    } else { findpts_##D((uint *)g->b[A_CODE], g->st[A_CODE], (uint *)g->b[A_PROC], g->st[A_PROC], (uint *)g->b[A_EL], g->st[A_EL], (double *)g->b[A_R], g->st[A_R], (double *)g->b[A_D2], g->st[A_D2], xb, xs, n, h); \
      findpts_eval_##D((double *)g->b[A_OUT], g->st[A_OUT], (uint *)g->b[A_CODE], g->st[A_CODE], (uint *)g->b[A_PROC], g->st[A_PROC], (uint *)g->b[A_EL], g->st[A_EL], (double *)g->b[A_R], g->st[A_R], n, fld, h); } } \
  cmp(&a, &w, D, n, "findpts", ms, oh); \
  /* evaluation on the rank: points grouped by element */ \
  for (int v = 0; v < 2; v++) { struct args *g = v ? &w : &a; for (unsigned j = 0; j < n; j++) { *AT_(uint, g, A_EL, j) = j * nel / n; for (int d = 0; d < D; d++) AT_(double, g, A_R, j)[d] = ((int)((j * (d + 3)) % 41) - 20) / 20.; *AT_(double, g, A_OUT, j) = -9; } \
    if (ft) { sint so = g->st[A_OUT] / 8, se = g->st[A_EL] / UB, sr = g->st[A_R] / 8, sn = n; fgslib_findpts_eval_local_(&fh, (double *)g->b[A_OUT], &so, (sint *)g->b[A_EL], &se, (double *)g->b[A_R], &sr, &sn, fld); } } \
  if (ft) for (unsigned j = 0; j < n; j++) REQUIRE(*AT_(double, &a, A_OUT, j) == *AT_(double, &w, A_OUT, j), "findpts_eval_local: point %u of arrays of more than 4 GB has the value %.17g, of small arrays %.17g", j, *AT_(double, &w, A_OUT, j), *AT_(double, &a, A_OUT, j)); \
  } rmargs(&a); rmargs(&w); \
  if (ft) fgslib_findpts_free_(&fh); else if (ms) findptsms_free_##D(h); else findpts_free_##D(h); for (int d = 0; d < D; d++) free(x[d]); free(fld); free(di); sim_steps(3); }
static void cmp(const struct args *a, const struct args *w, int D, unsigned n, const char *what, int ms, u64 *oh) {
  unsigned found = 0; (void)ms;
  for (unsigned j = 0; j < n; j++) {
    uint ca = *AT_(uint, a, A_CODE, j), cw = *AT_(uint, w, A_CODE, j); REQUIRE(ca == cw, "%s: point %u of arrays of more than 4 GB has code %u, of small arrays %u", what, j, (unsigned)cw, (unsigned)ca); *oh = hmix(*oh, ca); if (ca == 2) continue; found++;
    REQUIRE(*AT_(uint, a, A_PROC, j) == *AT_(uint, w, A_PROC, j) && *AT_(uint, a, A_EL, j) == *AT_(uint, w, A_EL, j), "%s: point %u of arrays of more than 4 GB is in element %u of rank %u, of small arrays %u of %u", what, j, (unsigned)*AT_(uint, w, A_EL, j), (unsigned)*AT_(uint, w, A_PROC, j), (unsigned)*AT_(uint, a, A_EL, j), (unsigned)*AT_(uint, a, A_PROC, j));
    for (int d = 0; d < D; d++) REQUIRE(fabs(AT_(double, a, A_R, j)[d] - AT_(double, w, A_R, j)[d]) < 1e-10, "%s: point %u of arrays of more than 4 GB has other coordinates in its element", what, j);
    REQUIRE(fabs(*AT_(double, a, A_D2, j) - *AT_(double, w, A_D2, j)) < 1e-10, "%s: point %u of arrays of more than 4 GB has another distance", what, j);
    REQUIRE(fabs(*AT_(double, a, A_OUT, j) - *AT_(double, w, A_OUT, j)) < 1e-8, "%s: point %u of arrays of more than 4 GB has the value %.17g, of small arrays %.17g", what, j, *AT_(double, w, A_OUT, j), *AT_(double, a, A_OUT, j));
  }
  REQUIRE(found > n / 10, "%s: only %u of %u points found", what, found, n);
}
FPFN(2) FPFN(3)
void h_rank(uint64_t i, int p) {
  const struct fam *f = get(&i); u64 oh = 0; struct comm c; world(&c);
  switch (f->kind) {
  case K_VEC: vec(f, i, &c, p, &oh); break; case K_FLD: fld(f, i, &c, p, &oh); break;
  case K_SORT: sorts(f, i, &oh); break; case K_REC: recs(f, i, &oh); break; case K_PROC: proc(f, i, &c, p, &oh); break; case K_ONE: one(f, i, &c, &oh); break; case K_RED: redn(f, i, &c, p, &oh); break; case K_BIGREC: bigrec(f, i, &c, &oh); break;
  default: if (f->a == 2) fp2(f, i, &c, p, &oh); else fp3(f, i, &c, p, &oh);
  }
  comm_free(&c); sim_outcome(oh); sim_state(oh);
}
