/* One copy of the library (its prefixes and options come from the command line) behind a function table; see h_two.c */
#include "obj.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static struct obj O[2];
static struct comm W;
static int up;
/* acts: 0 create 1 use 2 free 3 end */
void CAT(two_, COPY)(int act, int s, int kind, int var, int step, u64 *oh) {
  if (!up && act < 3) world(&W), up = 1;
  switch (act) { case 0: ob_create(O + s, kind, &W, var); break; case 1: ob_use(O + s, step, oh); break; case 2: ob_free(O + s); break; case 3: if (up) comm_free(&W), up = 0; break; }
}
