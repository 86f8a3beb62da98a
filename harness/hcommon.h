/* Common prelude of the harnesses: the library's public headers, small helpers */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <float.h>
#include "gslib.h"
#include "sim.h"
#ifndef GSLIB_USE_MPI /* the single-process build: no message layer */
#define MPI_COMM_WORLD 0
#define MPI_Comm_c2f(x) 0
#define MPI_BYTE 0
#define MPI_Allgather(s, n, t, r, m, u, c) memcpy(r, s, n) /* one process */
#endif
#if defined(GSLIB_USE_LONG_LONG) || defined(GSLIB_USE_GLOBAL_LONG_LONG)
#define HAVE_LL 1
#endif
/* identifiers that use all of slong: with a 32-bit slong, the same pattern in halves of 16 bits (never zero for the values used) */
#define BIGID(v) (sizeof(slong) == 8 ? (slong)(v) : (slong)((((unsigned long long)(v) >> 32) << 16 | ((v) >> 16 & 0xffff) | ((v) & 0xffff)) & 0x7fffffff))
#define UB ((int)sizeof(uint))
#define LB ((int)sizeof(ulong))
typedef uint64_t u64;
static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h>>29; return h; }
static inline u64 hash2(u64 a, u64 b) { return hmix(hmix(0x1234567, a), b); }
static inline u64 hbytes(u64 h, const void *p, size_t n) { const unsigned char *c = p; while (n--) h = (h ^ *c++) * 0x100000001b3ull; return h; }
static inline unsigned dig(u64 *x, unsigned n) { unsigned r = *x % n; *x /= n; return r; }
static inline void world(struct comm *c) { comm_init(c, MPI_COMM_WORLD); }
#define REQUIRE(c, ...) do { if (!(c)) sim_violation(__VA_ARGS__); } while (0)
/* a buffer owned by the harness (its storage counts as the library's, freed by unhide) */
#endif
