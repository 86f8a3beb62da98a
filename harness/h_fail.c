/* C28: reported failures: the whole message, the status, the user's exit handler */
#include <stdarg.h>
#include "hcommon.h"
enum { E_FAIL, E_VFAIL, E_DIAG_DIE, E_VDIAG_DIE, E_TWO, E_COMM, E_N };
static const char *en[] = {"fail", "vfail", "diagnostic, then die", "vdiagnostic, then die", "two diagnostics, then fail", "fail after work on a smaller communicator"};
struct fam { int entry, np, who, status, msg, pre, file; unsigned line; };
static struct fam *F; static int nf, cf;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F); F[nf++] = f; }
void h_init(int tier) {
  nf = 0;
  /* every entry on every rank, several statuses */
  for (int e = 0; e < E_N; e++) for (int np = 1; np <= (tier ? 6 : 4); np++) for (int w = 0; w < np; w++) for (int s = 1; s <= 4; s++) add((struct fam){e, np, w, s * 37 % 256, 20 + 3 * s + w, 6, 8, 100u * s + w});
  for (int s = 1; s < 256; s++) for (int e = 0; e < E_N; e++) add((struct fam){e, 1 + s % 3, 0, s, s % 80, s % 7, 1 + s % 30, s});
  /* every length near the sizes at which fixed buffers end */
  for (int e = 0; e < E_N; e++) for (int l = 0; l <= (tier ? 9000 : 2600); l++) add((struct fam){e, 1, 0, 1, l, 6, 8, 7});
  for (int e = 0; e < E_N; e++) for (int k = 7; k <= 16; k++) for (int d = -60; d <= 4; d++) add((struct fam){e, 1 + (d & 1), 0, 2, (1 << k) + d, 3, 10, 4000000000u});
  for (int e = 0; e < E_N; e++) for (int k = 4; k <= 13; k++) for (int d = -2; d <= 2; d++) { add((struct fam){e, 1, 0, 3, 11, (1 << k) + d, 6, 1}); add((struct fam){e, 1, 0, 3, 11, 6, (1 << k) + d, 65536}); }
}
uint64_t h_ncases(void) { return nf; }
void h_case(uint64_t i, struct hcase *c) { c->np = F[i].np; c->policies = PM(i % POL_N); c->expect_exit = 1; c->fill = i & 3; }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = F + i; snprintf(b, n, "np=%d %s on rank %d, status %d, message of %d bytes, prefix of %d, file name of %d, line %u", f->np, en[f->entry], f->who, f->status, f->msg, f->pre, f->file, f->line); }
static void text(char *b, int n, u64 seed) { for (int i = 0; i < n; i++) b[i] = 'a' + hash2(i / 3, seed) % 26; b[n] = 0; }
struct parts { char *pre, *file, *msg; };
static struct parts mk(const struct fam *f, int k) { struct parts q = {malloc(f->pre + 1), malloc(f->file + 1), malloc(f->msg + 1)}; text(q.pre, f->pre, 3 + k); text(q.file, f->file, 4 + k); text(q.msg, f->msg, 5 + k); return q; }
static void drop(struct parts q) { free(q.pre); free(q.file); free(q.msg); }
/* a report in t from *t on: the given parts in order, then the end of a line; nothing much besides */
static const char *report(const char **t, const char *pre, const char *file, unsigned line, int id, const char *msg, double g) {
  static char e[200]; char nb[100]; const char *s = *t; size_t used = 0;
#define PART(x, what) do { const char *p_ = strstr(s, x); if (!p_) { snprintf(e, sizeof e, "the report lacks its %s (or it is damaged)", what); return e; } used += strlen(x); s = p_ + strlen(x); } while (0)
  PART(pre, "prefix"); snprintf(nb, sizeof nb, "%d", id); PART(nb, "process number"); PART(file, "file name"); snprintf(nb, sizeof nb, "%u", line); PART(nb, "line number"); PART(msg, "message"); snprintf(nb, sizeof nb, "<%d %g %s>", id + 7, g, "end"); PART(nb, "arguments");
  if (*s++ != '\n') return "the report is not ended by a new line"; if ((size_t)(s - *t) > used + 40) return "the report contains text that was not asked for"; *t = s; return 0;
}
static const char *verdict(u64 i, int rank, int status, const char *t) {
  const struct fam *f = F + i; const char *m; static char e[200]; int fl = f->entry == E_FAIL || f->entry == E_VFAIL || f->entry == E_TWO || f->entry == E_COMM;
  if (rank != f->who) return "another rank ended";
  if (status != f->status) { snprintf(e, sizeof e, "ended with status %d, not %d", status, f->status); return e; }
  if (f->entry == E_TWO) for (int k = 1; k <= 2; k++) { struct parts q = mk(f, k); m = report(&t, q.pre, q.file, f->line + k, rank, q.msg, k + 0.5); drop(q); if (m) return m; }
  struct parts q = mk(f, 0); m = report(&t, fl ? "ERROR" : q.pre, q.file, f->line, rank, q.msg, 0.25); drop(q); if (m) return m;
  return *t ? "text follows the report" : 0;
}
static u64 now;
#ifdef USR_EXIT
static char big[1 << 18];
void fgslib_userexithandler_(int status) { sim_captured(big, sizeof big); const char *m = verdict(now, sim_rank(), status, big); if (m) sim_violation("user exit handler: %s; output: %.300s", m, big); exit(status == 99 ? 98 : 99); }
const char *h_exitcheck(uint64_t i, int rank, int status, const char *t) { return status == (F[i].status == 99 ? 98 : 99) ? 0 : "the user's exit handler was not called"; }
#else
const char *h_exitcheck(uint64_t i, int rank, int status, const char *t) { return verdict(i, rank, status, t); }
#endif
static void vf(int st, const char *file, unsigned line, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(st, file, line, fmt, ap); va_end(ap); }
static void vd(const char *pre, const char *file, unsigned line, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vdiagnostic(pre, file, line, fmt, ap); va_end(ap); }
void h_rank(uint64_t i, int p) {
  const struct fam *f = F + i; struct comm c; now = i; world(&c); sim_expect_exit(1); sim_steps(1);
  if (f->entry == E_COMM) { struct comm d; double v = 1, w; comm_dup(&d, &c); comm_allreduce(&d, gs_double, gs_add, &v, 1, &w); comm_free(&d); }
  if (p != f->who) { char x; comm_recv(&c, &x, 1, f->who, 5); return; } /* never sent */
  struct parts q = mk(f, 0); const char *fmt = "%s<%d %g %s>";
  switch (f->entry) {
  case E_TWO: for (int k = 1; k <= 2; k++) { struct parts r = mk(f, k); diagnostic(r.pre, r.file, f->line + k, fmt, r.msg, p + 7, k + 0.5, "end"); drop(r); } /* fall through */
  case E_FAIL: case E_COMM: fail(f->status, q.file, f->line, fmt, q.msg, p + 7, 0.25, "end"); break;
  case E_VFAIL: vf(f->status, q.file, f->line, fmt, q.msg, p + 7, 0.25, "end"); break;
  case E_DIAG_DIE: diagnostic(q.pre, q.file, f->line, fmt, q.msg, p + 7, 0.25, "end"); die(f->status); break;
  case E_VDIAG_DIE: vd(q.pre, q.file, f->line, fmt, q.msg, p + 7, 0.25, "end"); die(f->status); break;
  }
  sim_violation("%s returned", en[f->entry]);
}
