/* C20: every allocation of every operation fails once; the only acceptable outcome is a diagnostic and a failing exit */
#include "obj.h"
struct fam { int np, a, b, var, steps, first, bound; };
static struct fam *F; static int nf, cf;
static void add(struct fam f) { if (nf == cf) cf = cf ? 2 * cf : 512, F = realloc(F, cf * sizeof *F); F[nf++] = f; }
void h_init(int tier) {
  nf = 0;
  for (int np = 1; np <= (tier ? 5 : 3); np++) for (int o = 0; o < O_N; o++) for (int v = 0; v < (np <= 2 ? 8 : 4); v++) for (int s = 0; s < (tier ? 2 : 1); s++) add((struct fam){np, o, -1, v, 8, s * 4, 0});
  /* the same with another object of each kind live (its tables and scratch memory already grown) */
  for (int a = 0; a < O_N; a++) for (int b = 0; b < O_N; b++) add((struct fam){2, a, b, a + b, 2, b % 4, 0});
  for (int o = 0; o < O_N; o++) for (int pol = 0; pol < (tier ? 2 : 1); pol++) add((struct fam){2, o, -1, pol, 1, 1 + pol, tier && o < O_FP2 ? 1 : 0});
}
uint64_t h_ncases(void) { return nf; }
void h_case(uint64_t i, struct hcase *c) { const struct fam *f = F + i; c->np = f->np; c->policies = PM(i % POL_N); c->fault = 1; c->bound = f->bound; c->kinds = f->bound ? KM(K_SCHED) : 0; c->fill = i & 3; }
void h_describe(uint64_t i, char *b, size_t n) { const struct fam *f = F + i; int o = snprintf(b, n, "np=%d %s variant %d: create, %d uses, free, create", f->np, okn[f->a], f->var, f->steps); if (f->b >= 0) snprintf(b + o, n - o, ", with a %s live", okn[f->b]); }
static struct obj O[2];
void h_rank(uint64_t i, int p) {
  const struct fam *f = F + i; u64 oh = 0; struct comm w; world(&w);
  if (f->b >= 0) ob_create(O + 1, f->b, &w, f->var), ob_use(O + 1, f->first, &oh);
  ob_create(O, f->a, &w, f->var); for (int s = 0; s < f->steps; s++) ob_use(O, f->first + s, &oh), sim_steps(1);
  if (f->b >= 0) ob_use(O + 1, f->first + 1, &oh);
  ob_free(O); ob_create(O, f->a, &w, f->var + 1); ob_free(O); if (f->b >= 0) ob_free(O + 1); comm_free(&w); sim_outcome(oh);
}
