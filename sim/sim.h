/* Interface between a harness (loaded once per rank) and the explorer. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SIM_MAXNP 40

/* delivery policies: default answers of the message layer */
enum { POL_EAGER_EARLY=0, POL_RDV_LATE, POL_EAGER_LATE, POL_RDV_EARLY, POL_RDV_LATE_DESC, POL_EAGER_EARLY_DESC, POL_N };
#define PM(p) (1u<<(p))
#define PM_DEFAULT (PM(POL_EAGER_EARLY)|PM(POL_RDV_LATE))
#define PM_ALL ((1u<<POL_N)-1)

/* kinds of explored choices */
enum { K_SCHED=0, K_SEND, K_RECV, K_COLL, K_MATCH, K_TEST, K_USER, K_N };
#define KM(k) (1u<<(k))
#define KM_ALL ((1u<<K_N)-1)

struct hcase {
  int np;
  unsigned policies;     /* mask of POL_*: one complete exploration per policy */
  unsigned kinds;        /* kinds of choices explored (K_MATCH and K_USER always are) */
  int bound;             /* max deviations from the policy's default answers */
  uint64_t max_exec;     /* cap on executions per policy (0 = none) */
  int check_leaks;       /* memory, communicators, requests at the end */
  int check_stray;       /* unreceived messages / unmatched receives at the end */
  int expect_exit;       /* every execution must end in exit(nonzero) with diagnostic on some rank */
  int fault;             /* enumerate failing allocations (rank, k) */
  int same;              /* every execution of the case must give every rank the same outcome, whatever the timing */
  int fill;              /* fill byte variation of fresh memory */
};

/* provided by the harness */
void h_init(int tier);                       /* 0 quick, 1 thorough */
uint64_t h_ncases(void);
void h_case(uint64_t idx, struct hcase *c);
void h_rank(uint64_t idx, int rank);         /* body of one rank */
void h_describe(uint64_t idx, char *buf, size_t n);

/* provided by the explorer */
void sim_violation(const char *fmt, ...) __attribute__((noreturn,format(printf,1,2)));
void sim_known(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
void sim_outcome(uint64_t h);                /* folded into the execution's outcome */
void sim_steps(uint64_t n);                  /* API operations performed (transitions) */
void sim_state(uint64_t h);                  /* abstract state reached (counted when distinct) */
int  sim_choose(int n);                      /* explored user choice (enumerated fully, cost 0) */
void *sim_alloc(size_t n);                   /* harness memory: exact extent, filled, freed at the end */
void sim_lib(int on);                        /* 1: allocations below are the library's (default) ; 0: the harness's */
void sim_wtime_script(const double *v, int n); /* answers of the clock on this rank (then +1 per call) */
int  sim_rank(void);
uint64_t sim_case(void);
int  sim_fault_hit(void);                    /* an injected allocation failure has happened on this rank */
size_t sim_captured(char *buf, size_t n);    /* text printed so far in this execution (stdout+stderr) */
uint64_t sim_allocs(void);                   /* library allocations made so far by this rank */
size_t sim_live(void);                       /* library blocks live on this rank */
int sim_live_comms(void);
/* what this rank has sent so far: point-to-point messages and bytes per destination (rank of the world), collectives by kind */
struct sim_cost { uint64_t msgs[SIM_MAXNP], bytes[SIM_MAXNP], colls, collbytes, comms; };
void sim_cost(struct sim_cost *c);
int sim_tier(void);
void sim_expect_exit(int on);                /* from here on this rank must end in exit */
#ifdef __cplusplus
}
#endif
#endif
