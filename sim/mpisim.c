/* Explorer: runs a harness (one copy of the library per rank) on simulated MPI
   ranks under full control of scheduling, buffering, delivery, clocks, memory,
   and enumerates the choices depth first with bounded deviations.

   Not instrumented itself; linked with the AddressSanitizer runtime that the
   rank copies use. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include "mpi.h"
#include "sim.h"

#define MAXNP SIM_MAXNP
#define STACK (1u<<20)
#define MAXCH 4000000
#define MAXCALLS 2000000

/* ------------------------------------------------------------------ rank copies */
typedef struct { char *p; size_t n; char *snap; } Seg;
typedef struct {
  void *h; Seg seg[16]; int nseg;
  void (*init)(int); uint64_t (*ncases)(void); void (*hcase)(uint64_t,struct hcase*);
  void (*body)(uint64_t,int); void (*desc)(uint64_t,char*,size_t);
  const char *(*exitcheck)(uint64_t,int,int,const char*);
} Copy;
static Copy copies[MAXNP]; static int ncopies=0; static char sodir[4096]; static int tier=0;

/* ------------------------------------------------------------------ state of an execution */
typedef struct comm { int id, np; int world[MAXNP]; uint64_t seq[MAXNP]; struct coll *colls, *colls_last; struct pcomm *next; int user; } Comm;
typedef struct { Comm *c; int rank; int live; int user; } Hdl;
typedef struct msg {
  int src,dst,tag; Comm *c; size_t n; char *data; const void *ubuf; /* ubuf: not captured yet (rendezvous) */
  struct req *sreq; struct req *rreq; struct msg *next; int srcworld; int blocked_sender; int delivered; int eager;
} Msg;
typedef struct req {
  int kind; /* 1 send 2 recv 3 collective */
  int rank; int live; int done;
  Msg *m; void *buf; size_t cap; int src,tag; Comm *c; int early; char *orig;
  struct coll *coll; int gotsrc,gottag; size_t gotn; int user;
  struct req *next; /* posted receive list */
} Req;
typedef struct coll {
  uint64_t seq; int kind; int type,op,root; size_t count; int narr, nleft; Comm *c;
  struct { int arrived; const void *in; char *cap; size_t n; void *out; int early; int color,key; Comm *newc; int delivered; size_t rn; } r[MAXNP];
  int complete; char *result; size_t rn; struct coll *next; int user;
} Coll;
typedef struct {
  void *sp; char *stk; void *fake; int state; /* 0 fresh 1 runnable 2 blocked 3 done */
  int (*ready)(int); const char *what; char whatbuf[160];
  Req *reqs[1]; Req **rq; int nrq, maxrq; Hdl hdl[256]; int nh;
  uint64_t calls; uint64_t digest; int userlib; /* sim_lib */
  double wt[1024]; int nwt, iwt; double wtlast; uint64_t nalloc; int faulted; int expect_exit; int started;
  Req *posted; Req **posted_tail; Msg *unexp; Msg **unexp_tail;
  /* wait args */ Req **wreq; int nw;
  Msg *bmsg; Coll *bcoll; int stkused; struct sim_cost cost;
} Rank;
static Rank R[MAXNP]; static int NP, cur=-1; static void *main_sp; static void *main_fake; static const void *main_bot; static size_t main_sz;
static uint64_t CASE; static struct hcase HC; static int POL; static int aborted; static int exited_rank=-1, exit_status;
static int finished; static int fault_rank=-1; static uint64_t fault_k; static int fillbyte;
static Comm *allcomms[4096]; static int ncomms;
static int lastpick;

/* arena for driver objects */
static char *ar; static size_t arn, armax=1024u<<20;
static void *A(size_t n){ n=(n+15)&~15ul; if(arn+n>armax){ write(2,"arena\n",6); _exit(79);} void *p=ar+arn; arn+=n; memset(p,0,n); return p; }

/* ------------------------------------------------------------------ choices */
typedef struct { uint8_t kind, cost; uint16_t n, def, alt; } Ch;
static Ch *ch; static int nch, nfix; /* nfix: replayed prefix */
static int devs;
static int replay_mode=0;

/* ------------------------------------------------------------------ reporting */
static int outfd=1; static int capfd=-1;
typedef struct { volatile uint64_t magic, idx; volatile int pol, nch, frank; volatile uint64_t fk; volatile uint64_t execs, cases_done; volatile uint32_t c[4096]; } Rec;
static Rec *rec; static volatile uint64_t exec_serial;
static uint64_t n_exec, n_cases, n_steps, n_mpi, n_out, n_known; static int capped, truncated_cases; static int maxdepth; static int hang_limit=20;
static int vio_set; static char vio_msg[4096];
static uint64_t trivially; static uint64_t n_sched_pts;
static char samples[4][1600]; static int nsamples;

static uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }

/* hash set */
typedef struct { uint64_t *t; uint64_t n,cap,max; int full; } HS;
static void hs_add(HS *s,uint64_t v){
  if(!v)v=1; if(!s->cap){ s->cap=1<<14; s->t=calloc(s->cap,8); }
  if(s->full){ /* still detect presence */ }
  uint64_t i=v*0x9e3779b97f4a7c15ull>>20; for(;;i++){ i&=s->cap-1; if(!s->t[i])break; if(s->t[i]==v)return; }
  if(s->n>=s->max){ s->full=1; return; }
  s->t[i]=v; if(++s->n*2>s->cap){ uint64_t oc=s->cap,*o=s->t; s->cap*=4; s->t=calloc(s->cap,8);
    for(uint64_t k=0;k<oc;k++) if(o[k]){ uint64_t j=o[k]*0x9e3779b97f4a7c15ull>>20; for(;;j++){ j&=s->cap-1; if(!s->t[j])break; } s->t[j]=o[k]; } free(o); }
}
static HS S_states={.max=1u<<23}, S_out={.max=1u<<22};
static uint64_t outcome;

/* known findings seen */
static struct { char key[64]; char msg[600]; uint64_t n; } known[64]; static int nknown;

/* ------------------------------------------------------------------ tracked memory */
typedef struct { void *p; size_t n; int owner; int lib; uint64_t seq; } Blk;
static Blk *bt; static size_t btcap=1<<12, btn; static uint64_t blkseq;
static size_t bh(void*p){ return ((uintptr_t)p*0x9e3779b97f4a7c15ull)>>24; }
static void bt_grow(void);
static void bt_add(void*p,size_t n,int owner,int lib){ if(!bt) bt=calloc(btcap,sizeof(Blk)); if(btn*2>=btcap) bt_grow();
  size_t i=bh(p); for(;;i++){ i&=btcap-1; if(!bt[i].p)break; } bt[i]=(Blk){p,n,owner,lib,++blkseq}; btn++; }
static void bt_grow(void){ Blk*o=bt; size_t oc=btcap; btcap*=2; bt=calloc(btcap,sizeof(Blk)); for(size_t k=0;k<oc;k++) if(o[k].p){ size_t i=bh(o[k].p); for(;;i++){ i&=btcap-1; if(!bt[i].p)break; } bt[i]=o[k]; } free(o); }
static Blk *bt_find(void*p){ if(!bt)return 0; size_t i=bh(p); for(;;i++){ i&=btcap-1; if(!bt[i].p)return 0; if(bt[i].p==p)return bt+i; } }
static void bt_del(Blk*b){ size_t i=b-bt; bt[i].p=0; btn--; size_t j=i; for(;;){ j=(j+1)&(btcap-1); if(!bt[j].p)break; size_t k=bh(bt[j].p)&(btcap-1);
    if((i<=j)?(i<k&&k<=j):(i<k||k<=j)) continue; bt[i]=bt[j]; bt[j].p=0; i=j; } }
static void fillmem(void*p,size_t n){ memset(p,fillbyte,n<1u<<30?n:1u<<30); }
static int inject(void){ if(cur<0) return 0; Rank*r=&R[cur]; if(!r->userlib) return 0; uint64_t k=r->nalloc++; if(fault_rank==cur && k==fault_k){ r->faulted=1; return 1; } return 0; }
void *__wrap_malloc(size_t n){ if(n&&inject()) return 0; if(n>(1ull<<40)) return 0; void*p=malloc(n); if(!p) return 0; fillmem(p,n); bt_add(p,n,cur,cur<0?0:R[cur].userlib); return p; }
void *__wrap_calloc(size_t a,size_t b){ if(a&&b&&inject()) return 0; size_t n; if(__builtin_mul_overflow(a,b,&n)||n>(1ull<<40)) return 0; void*p=calloc(a,b); if(!p) return 0; bt_add(p,n,cur,cur<0?0:R[cur].userlib); return p; }
void __wrap_free(void*p){ if(!p) return; Blk*b=bt_find(p); if(b) bt_del(b); free(p); }
void *__wrap_realloc(void*p,size_t n){ if(!p) return __wrap_malloc(n); if(n&&inject()) return 0; if(n>(1ull<<40)) return 0; Blk*b=bt_find(p);
  if(!b) return realloc(p,n); /* ASan reports the bad pointer */
  size_t on=b->n; int owner=b->owner, lib=b->lib; void*q=malloc(n); if(!q) return 0; fillmem(q,n); memcpy(q,p,on<n?on:n); bt_del(bt_find(p)); free(p); bt_add(q,n,owner,lib); return q; }
char *__wrap_strdup(const char*s){ size_t n=strlen(s)+1; char*p=__wrap_malloc(n); if(p) memcpy(p,s,n); return p; }

/* ------------------------------------------------------------------ fibers */
__asm__(".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
 "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
 "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
 "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
 "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
 "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
void sim_swtch(void **from, void *to);
static void to_main(int dying){ Rank*r=&R[cur]; void*b; (void)b;
  __sanitizer_start_switch_fiber(dying?NULL:&r->fake, main_bot, main_sz);
  sim_swtch(&r->sp, main_sp);
  __sanitizer_finish_switch_fiber(r->fake, NULL, NULL);
}
static void fiber_main(void);
static void fiber_new(int i){
  Rank*r=&R[i]; if(!r->stk){ char*p=mmap(0,STACK+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(p,4096,PROT_NONE); r->stk=p+4096; }
  __asan_unpoison_memory_region(r->stk,STACK);
  uint64_t *s=(uint64_t*)(r->stk+STACK); *--s=0; *--s=(uint64_t)fiber_main; /* entry: stack pointer = 8 mod 16 */ for(int k=0;k<6;k++) *--s=0; *--s=0x037f00001f80ull; r->sp=s;
  ((uint32_t*)s)[0]=0x1f80; ((uint32_t*)s)[1]=0x037f; r->state=1; r->fake=0; r->started=0;
}
static void run_fiber(int i){
  cur=i; Rank*r=&R[i]; r->state=1;
  __sanitizer_start_switch_fiber(&main_fake, r->stk, STACK);
  sim_swtch(&main_sp, r->sp);
  __sanitizer_finish_switch_fiber(main_fake, NULL, NULL);
  cur=-1;
}
static void fiber_main(void){
  Rank*r=&R[cur]; __sanitizer_finish_switch_fiber(NULL,&main_bot,&main_sz);
  r->started=1; copies[cur].body(CASE,cur);
  r->state=3; finished++; to_main(1); abort();
}
static void end_now(void) __attribute__((noreturn));
static void end_now(void){ aborted=1; to_main(0); abort(); }
static void vio(const char*fmt,...) __attribute__((format(printf,1,2)));
static void vio(const char*fmt,...){ if(vio_set) return; vio_set=1; int o=0; if(cur>=0) o=sprintf(vio_msg,"rank %d: ",cur); va_list ap; va_start(ap,fmt); vsnprintf(vio_msg+o,sizeof vio_msg-o,fmt,ap); va_end(ap); }
#define VIO(...) do{ vio(__VA_ARGS__); if(cur>=0) end_now(); }while(0)
void sim_violation(const char*fmt,...){ char b[3000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); vio("%s",b); if(cur<0){ dprintf(2,"violation outside a rank: %s\n",b); _exit(79);} end_now(); }
static int describe(char*b,size_t n);
static const char *knownlist="";
void sim_known(const char*key,const char*fmt,...){ n_known++;
  { char k[80]; snprintf(k,sizeof k,",%s,",key); if(!strstr(knownlist,k)){ char b[3000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); sim_violation("[%s] %s",key,b); } } for(int i=0;i<nknown;i++) if(!strcmp(known[i].key,key)){ known[i].n++; return; }
  if(nknown==64) return; snprintf(known[nknown].key,64,"%s",key); va_list ap; va_start(ap,fmt); vsnprintf(known[nknown].msg,600,fmt,ap); va_end(ap); for(char*p=known[nknown].msg;*p;p++) if(*p=='"'||*p=='\\'||*p<' ') *p=' '; known[nknown++].n=1; }
static uint64_t rout[MAXNP], refout[MAXNP]; static int refset;
void sim_outcome(uint64_t h){ if(cur>=0) rout[cur]=mix(rout[cur],h); else outcome=mix(outcome,h); }
void sim_cost(struct sim_cost*c){ *c=R[cur].cost; }
void sim_steps(uint64_t n){ n_steps+=n; }
void sim_state(uint64_t h){ hs_add(&S_states,mix(0x51ull+CASE,h)); }
int sim_rank(void){ return cur; } uint64_t sim_case(void){ return CASE; }
int sim_tier(void){ return tier; }
void sim_lib(int on){ if(cur>=0) R[cur].userlib=on; }
void *sim_alloc(size_t n){ void*p=malloc(n); fillmem(p,n); bt_add(p,n,cur,0); return p; }
void sim_wtime_script(const double*v,int n){ Rank*r=&R[cur]; if(n>1024) n=1024; r->nwt=n; r->iwt=0; for(int i=0;i<n;i++) r->wt[i]=v[i]; }
int sim_fault_hit(void){ return R[cur].faulted; }
uint64_t sim_allocs(void){ return R[cur].nalloc; }
size_t sim_live(void){ size_t k=0; for(size_t i=0;i<btcap&&bt;i++) if(bt[i].p&&bt[i].owner==cur&&bt[i].lib) k++; return k; }
size_t sim_live_bytes(void){ size_t k=0; for(size_t i=0;i<btcap&&bt;i++) if(bt[i].p&&bt[i].owner==cur&&bt[i].lib) k+=bt[i].n; return k; }
int sim_live_comms(void){ int k=0; for(int i=2;i<R[cur].nh;i++) k+=R[cur].hdl[i].live; return k; }
void sim_expect_exit(int on){ R[cur].expect_exit=on; }
size_t sim_captured(char*b,size_t n){ fflush(stdout); fflush(stderr); off_t e=lseek(capfd,0,SEEK_END); if(n==0) return e; size_t m=(size_t)e<n-1?(size_t)e:n-1; ssize_t g=pread(capfd,b,m,0); if(g<0) g=0; b[g]=0; return g; }
static void cap_reset(void){ fflush(stdout); ftruncate(capfd,0); lseek(capfd,0,SEEK_SET); }
void __wrap_exit(int st){ if(cur<0){ dprintf(2,"exit outside a rank\n"); _exit(79);} exited_rank=cur; exit_status=st; end_now(); }
void __wrap__exit(int st){ __wrap_exit(st); }
void __wrap_abort(void){ VIO("abort() called"); __builtin_trap(); }

/* ------------------------------------------------------------------ choose */
static int choose(int kind,int n,int def){
  if(n<=1) return 0;
  int explored = kind==K_USER||kind==K_MATCH||(HC.kinds>>kind&1);
  if(!explored) return def;
  int i=nch;
  if(i>=MAXCH){ VIO("more than %d choice points in one execution",MAXCH); return def; }
  if(i<nfix&&replay_mode){ int al=ch[i].alt; if(al>=n){ VIO("NONDETERMINISM: replay diverges at choice %d",i); return def; } ch[i]=(Ch){kind,(kind!=K_USER&&kind!=K_MATCH),n,def,al}; }
  else if(i<nfix){ if(ch[i].kind!=kind||ch[i].n!=n||ch[i].def!=def){ VIO("NONDETERMINISM: replay diverges at choice %d (kind %d/%d n %d/%d)",i,ch[i].kind,kind,ch[i].n,n); return def; } }
  else ch[i]=(Ch){kind,(kind!=K_USER&&kind!=K_MATCH),n,def,0};
  nch++; if(ch[i].alt&&ch[i].cost) devs++;
  int a=ch[i].alt; if(rec&&i<4096){ rec->c[i]=a; rec->nch=nch; }
  if(a==0) return def; return a<=def?a-1:a;
}
int sim_choose(int n){ return choose(K_USER,n,0); }
static int eager_send(void){ int d=(POL==POL_EAGER_EARLY||POL==POL_EAGER_LATE||POL==POL_EAGER_EARLY_DESC); return choose(K_SEND,2,d); }
static int early_recv(void){ int d=(POL==POL_EAGER_EARLY||POL==POL_RDV_EARLY||POL==POL_EAGER_EARLY_DESC); return choose(K_RECV,2,d); }
static int early_coll(void){ int d=(POL==POL_EAGER_EARLY||POL==POL_RDV_EARLY||POL==POL_EAGER_EARLY_DESC); return choose(K_COLL,2,d); }
static int desc(void){ return POL==POL_RDV_LATE_DESC||POL==POL_EAGER_EARLY_DESC; }

static void note(uint64_t v){ Rank*r=&R[cur]; r->calls++; n_mpi++; r->digest=mix(r->digest,v);
  uint64_t h=CASE*31+7; for(int i=0;i<NP;i++) h=mix(h,R[i].digest); h=mix(h,POL&1); hs_add(&S_states,h);
  if(r->calls>MAXCALLS) VIO("livelock: more than %d message-layer calls by one rank",MAXCALLS); }
static int is_ready(int i){ Rank*r=&R[i]; if(r->state==3) return 0; if(r->state==2) return r->ready(i); return 1; }
static void sched_point(void){
  if(!(HC.kinds&KM(K_SCHED))||NP==1) return; n_sched_pts++;
  int en[MAXNP],n=0,d=0; for(int i=0;i<NP;i++) if(i==cur||is_ready(i)){ if(i==cur) d=n; en[n++]=i; }
  int k=choose(K_SCHED,n,d); if(en[k]==cur) return; lastpick=en[k]+1000; to_main(0); }
static void block(int (*rdy)(int),const char*fmt,...){ Rank*r=&R[cur]; if(rdy(cur)) return; va_list ap; va_start(ap,fmt); vsnprintf(r->whatbuf,sizeof r->whatbuf,fmt,ap); va_end(ap);
  r->ready=rdy; r->state=2; to_main(0); }

/* ------------------------------------------------------------------ MPI */
static size_t tsize(int t){ switch(t){ case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
  case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4; case MPI_DOUBLE_INT: return 16; case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_2INT: return 8; }
  vio("invalid MPI datatype %d",t); end_now(); }
static Hdl *H(MPI_Comm c,const char*fn){ Rank*r=&R[cur]; int i=c-100; if(i<0||i>=r->nh){ VIO("%s on an invalid communicator (%d)",fn,c);} if(!r->hdl[i].live) VIO("%s on a communicator already freed",fn); return &r->hdl[i]; }
static MPI_Comm newhdl(Comm*c,int rank){ Rank*r=&R[cur]; if(r->nh==256) VIO("more than 254 communicators created by one rank"); r->hdl[r->nh]=(Hdl){c,rank,1,!r->userlib}; return 100+r->nh++; }
static Req *newreq(int kind,MPI_Request*out){ Rank*r=&R[cur]; if(r->nrq==r->maxrq){ r->maxrq=r->maxrq?2*r->maxrq:64; r->rq=realloc(r->rq,r->maxrq*sizeof(Req*)); }
  Req*q=A(sizeof *q); q->kind=kind; q->rank=cur; q->live=1; q->user=!r->userlib; r->rq[r->nrq]=q; *out=0x10000+r->nrq++; return q; }
static Req *getreq(MPI_Request h,const char*fn){ if(h==MPI_REQUEST_NULL) return 0; Rank*r=&R[cur]; int i=h-0x10000; if(i<0||i>=r->nrq) VIO("%s on an invalid or uninitialised request (0x%x)",fn,h); Req*q=r->rq[i]; if(!q->live) VIO("%s on a request already completed and released",fn); return q; }
static void chkbuf(const void*p,size_t n,const char*fn){ if(!n) return; void*b=__asan_region_is_poisoned((void*)p,n); if(b) VIO("%s: buffer of %zu bytes not entirely inside allocated memory (first bad byte at offset %ld)",fn,n,(long)((char*)b-(char*)p)); }
static int inited=1;
int MPI_Init(int*a,char***b){ return 0; } int MPI_Init_thread(int*a,char***b,int q,int*p){ *p=q; return 0; } int MPI_Finalize(void){ return 0; }
int MPI_Initialized(int*f){ *f=inited; return 0; } int MPI_Finalized(int*f){ *f=0; return 0; }
int MPI_Abort(MPI_Comm c,int st){ __wrap_exit(st?st:1); return 0; }
double MPI_Wtime(void){ Rank*r=&R[cur]; if(r->iwt<r->nwt) return r->wtlast=r->wt[r->iwt++]; return r->wtlast+=1.0; } double MPI_Wtick(void){ return 1e-9; }
int MPI_Get_processor_name(char*s,int*n){ *n=sprintf(s,"sim%d",cur); return 0; }
int MPI_Comm_rank(MPI_Comm c,int*r){ *r=H(c,"MPI_Comm_rank")->rank; return 0; } int MPI_Comm_size(MPI_Comm c,int*n){ *n=H(c,"MPI_Comm_size")->c->np; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c,MPI_Errhandler e){ return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }
int MPI_Type_size(MPI_Datatype t,int*s){ *s=tsize(t); return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ Hdl*x=H(a,"MPI_Comm_compare"),*y=H(b,"MPI_Comm_compare"); if(x->c==y->c){ *r=MPI_IDENT; return 0; } if(x->c->np!=y->c->np){ *r=MPI_UNEQUAL; return 0; } *r=memcmp(x->c->world,y->c->world,sizeof(int)*x->c->np)?MPI_SIMILAR:MPI_CONGRUENT; return 0; }
int MPI_Comm_free(MPI_Comm*c){ Hdl*h=H(*c,"MPI_Comm_free"); if(*c<102) VIO("MPI_Comm_free of a predefined communicator"); note(mix(1,*c)); h->live=0; *c=MPI_COMM_NULL; return 0; }
/* --- point to point --- */
static void capture(Msg*m){ if(m->ubuf){ if(m->n){ void*b=__asan_region_is_poisoned((void*)m->ubuf,m->n); if(b) VIO("send buffer of rank %d (to %d, %zu bytes) released or out of bounds while the send was pending",m->srcworld,m->c->world[m->dst],m->n); }
  m->data=A(m->n+1); memcpy(m->data,m->ubuf,m->n); m->ubuf=0; } }
static void deliver(Msg*m){ if(m->delivered) return; capture(m); Req*q=m->rreq; m->delivered=1; size_t n=m->n; if(n>q->cap) VIO("message of %zu bytes from %d to %d (tag %d) truncated: receive buffer has %zu bytes",n,m->srcworld,m->c->world[m->dst],m->tag,q->cap);
  if(q->cap){ void*b=__asan_region_is_poisoned(q->buf,q->cap); if(b) VIO("receive buffer of rank %d (%zu bytes) released or out of bounds while the receive was pending",q->rank,q->cap); }
  memcpy(q->buf,m->data,n); if(q->orig&&q->cap>n) memcpy((char*)q->buf+n,q->orig+n,q->cap-n); q->gotn=n; }
static void match(Msg*m,Req*q){ m->rreq=q; q->m=m; q->gotsrc=m->src; q->gottag=m->tag; q->gotn=m->n; if(m->sreq) m->sreq->done=1; q->done=1; if(q->early) deliver(m); }
static int fits(Req*q,Msg*m){ return q->c==m->c&&(q->src==MPI_ANY_SOURCE||q->src==m->src)&&(q->tag==MPI_ANY_TAG||q->tag==m->tag); }
static Msg *post_send(const void*buf,size_t n,int dst,int tag,Hdl*h,int eager){
  if(dst<0||dst>=h->c->np) VIO("send to rank %d of a communicator with %d ranks",dst,h->c->np); chkbuf(buf,n,"send"); R[cur].cost.msgs[h->c->world[dst]]++; R[cur].cost.bytes[h->c->world[dst]]+=n;
  Msg*m=A(sizeof *m); m->src=h->rank; m->srcworld=cur; m->dst=dst; m->tag=tag; m->c=h->c; m->n=n; m->ubuf=buf; m->eager=eager; if(eager) capture(m);
  Rank*d=&R[h->c->world[dst]];
  for(Req**p=&d->posted;*p;p=&(*p)->next) if(fits(*p,m)){ Req*q=*p; *p=q->next; if(!*p) d->posted_tail=p; q->next=0; match(m,q); return m; }
  *d->unexp_tail=m; d->unexp_tail=&m->next; return m; }
static void unlink_msg(Rank*r,Msg*m){ for(Msg**p=&r->unexp;*p;p=&(*p)->next) if(*p==m){ *p=m->next; if(!*p) r->unexp_tail=p; m->next=0; return; } }
static Msg *find_unexp(int src,int tag,Comm*c){ Rank*r=&R[cur]; Req q={.c=c,.src=src,.tag=tag}; Msg*cand[MAXNP]; int n=0;
  for(Msg*m=r->unexp;m;m=m->next) if(fits(&q,m)){ int dup=0; for(int i=0;i<n;i++) if(cand[i]->src==m->src) dup=1; if(!dup) cand[n++]=m; }
  if(!n) return 0; return cand[choose(K_MATCH,n,0)]; }
static Req *post_recv(void*buf,size_t n,int src,int tag,Hdl*h,int early,MPI_Request*out){
  if(src!=MPI_ANY_SOURCE&&(src<0||src>=h->c->np)) VIO("receive from rank %d of a communicator with %d ranks",src,h->c->np); chkbuf(buf,n,"receive");
  Req*q=newreq(2,out); q->buf=buf; q->cap=n; q->src=src; q->tag=tag; q->c=h->c; q->early=early; Rank*r=&R[cur];
  if(n){ q->orig=A(n); memcpy(q->orig,buf,n); memset(buf,0xEE,n); }
  Msg*m=find_unexp(src,tag,h->c); if(m){ unlink_msg(r,m); match(m,q); } else { q->next=0; *r->posted_tail=q; r->posted_tail=&q->next; } return q; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c,MPI_Request*rq){ Hdl*h=H(c,"MPI_Isend"); if(n<0) VIO("MPI_Isend with count %d",n); if(dst==MPI_PROC_NULL){ *rq=0; return 0; } note(mix(mix(2,dst),mix(tag,n))); sched_point();
  int e=eager_send(); Req*q=newreq(1,rq); q->done=e; Msg*m=post_send(b,n*tsize(t),dst,tag,h,e); m->sreq=q; q->m=m; if(m->rreq) q->done=1; return 0; }
static int rdy_bsend(int i){ return R[i].bmsg->rreq!=0; }
static int send_(const void*b,int n,MPI_Datatype t,int dst,int tag,MPI_Comm c,int sync){ Hdl*h=H(c,"MPI_Send"); if(n<0) VIO("MPI_Send with count %d",n); if(dst==MPI_PROC_NULL) return 0; note(mix(mix(3,dst),mix(tag,n))); sched_point();
  int e=sync?0:eager_send(); Msg*m=post_send(b,n*tsize(t),dst,tag,h,e); if(!e){ R[cur].bmsg=m; block(rdy_bsend,"MPI_Send to %d tag %d (%d)",dst,tag,n); capture(m); } return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,0); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,1); }
int MPI_Rsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return send_(b,n,t,d,tag,c,0); }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ return MPI_Isend(b,n,t,d,tag,c,r); }
int MPI_Irsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ return MPI_Isend(b,n,t,d,tag,c,r); }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int src,int tag,MPI_Comm c,MPI_Request*rq){ Hdl*h=H(c,"MPI_Irecv"); if(n<0) VIO("MPI_Irecv with count %d",n); if(src==MPI_PROC_NULL){ *rq=0; return 0; } note(mix(mix(4,src),mix(tag,n))); sched_point();
  post_recv(b,n*tsize(t),src,tag,h,early_recv(),rq); return 0; }
static int colldone(Req*q);
static int rdy_wait(int i){ for(int k=0;k<R[i].nw;k++){ Req*q=R[i].wreq[k]; if(q&&!(q->kind==3?colldone(q):q->done)) return 0; } return 1; }
static int rdy_any(int i){ int any=0; for(int k=0;k<R[i].nw;k++){ Req*q=R[i].wreq[k]; if(q){ any=1; if(q->kind==3?colldone(q):q->done) return 1; } } return !any; }
static void coll_finish(Coll*k,int rank);
static void complete(Req*q,MPI_Status*st){ if(q->kind==2) deliver(q->m); else if(q->kind==1){ if(q->m) capture(q->m); } else coll_finish(q->coll,q->src); q->live=0;
  if(st){ st->MPI_SOURCE=q->gotsrc; st->MPI_TAG=q->gottag; st->MPI_ERROR=0; st->bytes_=q->gotn; } }
static char *wdesc(int n,Req**q){ static char b[120]; int o=0; for(int i=0;i<n&&o<90;i++) if(q[i]&&!q[i]->done) o+=q[i]->kind==2?sprintf(b+o,"recv from %d tag %d; ",q[i]->src,q[i]->tag):q[i]->kind==1?sprintf(b+o,"send to %d tag %d; ",q[i]->m?q[i]->m->dst:-1,q[i]->m?q[i]->m->tag:-1):sprintf(b+o,"collective; "); b[o]=0; return b; }
int MPI_Waitall(int n,MPI_Request*rq,MPI_Status*st){ if(n<0) VIO("MPI_Waitall with count %d",n); note(mix(5,n)); sched_point(); if(n) chkbuf(rq,n*sizeof *rq,"MPI_Waitall"); Req**q=A((n+1)*sizeof *q);
  for(int i=0;i<n;i++){ q[i]=getreq(rq[i],"MPI_Waitall"); for(int j=0;q[i]&&j<i;j++) if(q[j]==q[i]) VIO("MPI_Waitall with one request listed twice"); }
  R[cur].wreq=q; R[cur].nw=n; block(rdy_wait,"MPI_Waitall(%d): %s",n,wdesc(n,q));
  for(int i=0;i<n;i++){ if(q[i]) complete(q[i],st?st+i:0); rq[i]=MPI_REQUEST_NULL; } return 0; }
int MPI_Wait(MPI_Request*rq,MPI_Status*st){ return MPI_Waitall(1,rq,st); }
int MPI_Waitany(int n,MPI_Request*rq,int*idx,MPI_Status*st){ note(mix(6,n)); sched_point(); Req**q=A((n+1)*sizeof *q); for(int i=0;i<n;i++) q[i]=getreq(rq[i],"MPI_Waitany");
  R[cur].wreq=q; R[cur].nw=n; block(rdy_any,"MPI_Waitany(%d): %s",n,wdesc(n,q)); int c[256],m=0; for(int i=0;i<n&&m<256;i++) if(q[i]&&(q[i]->kind==3?colldone(q[i]):q[i]->done)) c[m++]=i;
  if(!m){ *idx=MPI_UNDEFINED; return 0; } int k=c[choose(K_MATCH,m,desc()?m-1:0)]; complete(q[k],st); rq[k]=0; *idx=k; return 0; }
int MPI_Waitsome(int n,MPI_Request*rq,int*oc,int*ix,MPI_Status*st){ int i; int rc=MPI_Waitany(n,rq,&i,st); if(i==MPI_UNDEFINED) *oc=MPI_UNDEFINED; else { *oc=1; ix[0]=i; } return rc; }
static int testpoll(int ok){ if(!ok) { lastpick=-1; sched_point(); if(NP>1){ lastpick=2000+cur; to_main(0);} return 0; } return choose(K_TEST,2,1); }
int MPI_Testall(int n,MPI_Request*rq,int*f,MPI_Status*st){ note(mix(7,n)); sched_point(); Req**q=A((n+1)*sizeof *q); for(int i=0;i<n;i++) q[i]=getreq(rq[i],"MPI_Test"); R[cur].wreq=q; R[cur].nw=n;
  *f=0; if(!testpoll(rdy_wait(cur))) return 0; for(int i=0;i<n;i++){ if(q[i]) complete(q[i],st?st+i:0); rq[i]=0; } *f=1; return 0; }
int MPI_Test(MPI_Request*rq,int*f,MPI_Status*st){ return MPI_Testall(1,rq,f,st); }
int MPI_Testany(int n,MPI_Request*rq,int*ix,int*f,MPI_Status*st){ note(mix(8,n)); sched_point(); int all=1; for(int i=0;i<n;i++){ Req*q=getreq(rq[i],"MPI_Testany"); if(!q) continue; all=0; if(q->kind==3?colldone(q):q->done){ if(!choose(K_TEST,2,1)) break; complete(q,st); rq[i]=0; *ix=i; *f=1; return 0; } }
  *ix=MPI_UNDEFINED; *f=all; if(!all) testpoll(0); return 0; }
int MPI_Request_free(MPI_Request*rq){ Req*q=getreq(*rq,"MPI_Request_free"); if(q) q->live=0; *rq=0; return 0; }
int MPI_Cancel(MPI_Request*rq){ VIO("MPI_Cancel not supported"); return 0; }
static int pr_src,pr_tag; 
int MPI_Recv(void*b,int n,MPI_Datatype t,int src,int tag,MPI_Comm c,MPI_Status*st){ MPI_Request q; if(src==MPI_PROC_NULL) return 0; Hdl*h=H(c,"MPI_Recv"); if(n<0) VIO("MPI_Recv with count %d",n); note(mix(mix(9,src),mix(tag,n))); sched_point(); post_recv(b,n*tsize(t),src,tag,h,1,&q);
  Req*p=getreq(q,"MPI_Recv"); Req**w=A(16); w[0]=p; R[cur].wreq=w; R[cur].nw=1; block(rdy_wait,"MPI_Recv from %d tag %d (%d)",src,tag,n); complete(p,st); return 0; }
static int peek(int r,int src,int tag,Comm*c,Msg**o){ Req q={.c=c,.src=src,.tag=tag}; for(Msg*m=R[r].unexp;m;m=m->next) if(fits(&q,m)){ *o=m; return 1; } return 0; }
static struct { int src,tag; Comm*c; } PB[MAXNP];
static int rdy_probe(int i){ Msg*m; return peek(i,PB[i].src,PB[i].tag,PB[i].c,&m); }
int MPI_Iprobe(int src,int tag,MPI_Comm c,int*f,MPI_Status*st){ Hdl*h=H(c,"MPI_Iprobe"); note(mix(mix(10,src),tag)); sched_point(); Msg*m; *f=0; if(!testpoll(peek(cur,src,tag,h->c,&m))) return 0; m=find_unexp(src,tag,h->c); if(!m) return 0; *f=1; if(st){ st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->bytes_=m->n; } return 0; }
int MPI_Probe(int src,int tag,MPI_Comm c,MPI_Status*st){ Hdl*h=H(c,"MPI_Probe"); note(mix(mix(11,src),tag)); sched_point(); PB[cur].src=src; PB[cur].tag=tag; PB[cur].c=h->c; block(rdy_probe,"MPI_Probe from %d tag %d",src,tag); Msg*m=find_unexp(src,tag,h->c); if(st){ st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->bytes_=m->n; } return 0; }
int MPI_Get_count(const MPI_Status*st,MPI_Datatype t,int*n){ *n=st->bytes_/tsize(t); return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype stp,int d,int stag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*st){ MPI_Request q[2]; MPI_Status ss[2]; MPI_Irecv(rb,rn,rt,s,rtag,c,q); MPI_Isend(sb,sn,stp,d,stag,c,q+1); MPI_Waitall(2,q,ss); if(st) *st=ss[0]; return 0; }
/* --- collectives --- */
enum { C_BARRIER=1,C_BCAST,C_REDUCE,C_ALLREDUCE,C_SCAN,C_EXSCAN,C_GATHER,C_ALLGATHER,C_DUP,C_SPLIT,C_ALLTOALL,C_GATHERV,C_ALLGATHERV,C_ALLTOALLV,C_SCATTER };
static const char *cname[]={"","MPI_Barrier","MPI_Bcast","MPI_Reduce","MPI_Allreduce","MPI_Scan","MPI_Exscan","MPI_Gather","MPI_Allgather","MPI_Comm_dup","MPI_Comm_split","MPI_Alltoall","MPI_Gatherv","MPI_Allgatherv","MPI_Alltoallv","MPI_Scatter"};
#define RED(T) { T*a=acc; const T*b=in; for(size_t i=0;i<n;i++) switch(op){ case MPI_SUM: a[i]+=b[i]; break; case MPI_PROD: a[i]*=b[i]; break; case MPI_MIN: if(b[i]<a[i]) a[i]=b[i]; break; case MPI_MAX: if(b[i]>a[i]) a[i]=b[i]; break; case MPI_LAND: a[i]=a[i]&&b[i]; break; case MPI_LOR: a[i]=a[i]||b[i]; break; default: goto bad; } }
#define REDI(T) { T*a=acc; const T*b=in; for(size_t i=0;i<n;i++) switch(op){ case MPI_SUM: a[i]+=b[i]; break; case MPI_PROD: a[i]*=b[i]; break; case MPI_MIN: if(b[i]<a[i]) a[i]=b[i]; break; case MPI_MAX: if(b[i]>a[i]) a[i]=b[i]; break; case MPI_LAND: a[i]=a[i]&&b[i]; break; case MPI_LOR: a[i]=a[i]||b[i]; break; case MPI_BAND: a[i]&=b[i]; break; case MPI_BOR: a[i]|=b[i]; break; case MPI_LXOR: a[i]=!a[i]!=!b[i]; break; case MPI_BXOR: a[i]^=b[i]; break; default: goto bad; } }
static void red(void*acc,const void*in,size_t n,int t,int op){ switch(t){ case MPI_DOUBLE: RED(double) return; case MPI_FLOAT: RED(float) return; case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: REDI(signed char) return; case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: REDI(unsigned char) return; case MPI_SHORT: REDI(short) return; case MPI_UNSIGNED_SHORT: REDI(unsigned short) return; case MPI_INT: case MPI_INT32_T: REDI(int) return; case MPI_UNSIGNED: case MPI_UINT32_T: REDI(unsigned) return; case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: REDI(long) return; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: REDI(unsigned long) return; }
 bad: VIO("reduction with operation %d not valid for datatype %d",op,t); }
static int coll_sync(int kind){ return kind!=C_BCAST && kind!=C_SCAN && kind!=C_EXSCAN && kind!=C_REDUCE && kind!=C_GATHER; }
static Coll *coll_get(Comm*c,int rank){ uint64_t s=c->seq[rank]++; for(Coll*k=c->colls;k;k=k->next) if(k->seq==s) return k; Coll*k=A(sizeof *k); k->seq=s; k->c=c; if(!c->colls) c->colls=k; else c->colls_last->next=k; c->colls_last=k; return k; }
static const void *cin_(Coll*k,int i){ if(k->r[i].cap) return k->r[i].cap; size_t n=k->r[i].n; if(n){ void*b=__asan_region_is_poisoned((void*)k->r[i].in,n); if(b) VIO("%s: input buffer of rank %d released or out of bounds while pending",cname[k->kind],k->c->world[i]); } k->r[i].cap=A(n+1); memcpy(k->r[i].cap,k->r[i].in,n); return k->r[i].cap; }
static void coll_out(Coll*k,int i,const void*d,size_t n){ if(k->r[i].delivered) return; k->r[i].delivered=1; if(!n) return; void*b=__asan_region_is_poisoned(k->r[i].out,n); if(b) VIO("%s: output buffer of rank %d (%zu bytes) out of bounds or released",cname[k->kind],k->c->world[i],n); memcpy(k->r[i].out,d,n); }
static Comm *newcomm(void){ Comm*c=A(sizeof *c); c->id=ncomms; if(ncomms<4096) allcomms[ncomms]=c; ncomms++; return c; }
static void coll_compute(Coll*k){ if(k->complete) return; k->complete=1; Comm*c=k->c; int np=c->np; size_t ts=(k->type?tsize(k->type):1), nb=k->count*ts;
  switch(k->kind){
   case C_ALLREDUCE: case C_REDUCE: k->result=A(nb+1); memcpy(k->result,cin_(k,0),nb); for(int i=1;i<np;i++) red(k->result,cin_(k,i),k->count,k->type,k->op); break;
   case C_DUP: { Comm*d=newcomm(); d->np=np; memcpy(d->world,c->world,sizeof d->world); for(int i=0;i<np;i++) k->r[i].newc=d; } break;
   case C_SPLIT: for(int i=0;i<np;i++) if(!k->r[i].newc&&k->r[i].color!=MPI_UNDEFINED){ Comm*d=newcomm(); int ord[MAXNP],n=0; for(int j=0;j<np;j++) if(k->r[j].color==k->r[i].color){ int p=n++; while(p>0&&k->r[ord[p-1]].key>k->r[j].key){ ord[p]=ord[p-1]; p--; } ord[p]=j; }
       d->np=n; for(int j=0;j<n;j++){ d->world[j]=c->world[ord[j]]; k->r[ord[j]].newc=d; } } break; } }
static int coll_rank_ready(Coll*k,int i){ /* may rank i (arrived) leave? */
  switch(k->kind){
   case C_BCAST: if(k->r[i].early&&i==k->root) return 1; if(k->narr==k->c->np) return 1; return i!=k->root&&k->r[k->root].arrived&&k->r[i].early;
   case C_REDUCE: case C_GATHER: case C_GATHERV: if(i!=k->root&&k->r[i].early) return 1; return k->narr==k->c->np;
   case C_SCAN: case C_EXSCAN: { int all=1; for(int j=0;j<=i;j++) all&=k->r[j].arrived; return k->r[i].early?all:k->narr==k->c->np; }
   default: return k->narr==k->c->np; } }
static void coll_finish(Coll*k,int i){ Comm*c=k->c; int np=c->np; size_t ts=(k->type?tsize(k->type):1), nb=k->count*ts; if(k->r[i].delivered) return;
  if(k->kind==C_ALLREDUCE&&nb>1ul<<30&&k->narr==np){ /* too large to copy: every rank is waiting in the call, reduce piece by piece */
    int direct=1; for(int j=0;j<np;j++) direct&=!k->r[j].cap&&!k->r[j].early&&!k->r[j].delivered&&k->r[j].n==nb&&k->r[j].in!=k->r[j].out;
    if(direct){ static char piece[1<<20]; for(int j=0;j<np;j++){ if(__asan_region_is_poisoned((void*)k->r[j].in,nb)||__asan_region_is_poisoned(k->r[j].out,nb)) VIO("MPI_Allreduce: a buffer of rank %d (%zu bytes) is out of bounds or released",c->world[j],nb); k->r[j].delivered=1; }
      for(size_t o=0;o<nb;o+=sizeof piece){ size_t l=nb-o<sizeof piece?nb-o:sizeof piece; memcpy(piece,(char*)k->r[0].in+o,l); for(int j=1;j<np;j++) red(piece,(char*)k->r[j].in+o,l/ts,k->type,k->op); for(int j=0;j<np;j++) memcpy((char*)k->r[j].out+o,piece,l); }
      k->complete=1; return; } }
  switch(k->kind){
   case C_BARRIER: break;
   case C_BCAST: if(i!=k->root) coll_out(k,i,cin_(k,k->root),nb); else cin_(k,i); break;
   case C_REDUCE: if(i!=k->root) cin_(k,i); else { coll_compute(k); coll_out(k,i,k->result,nb); } break;
   case C_ALLREDUCE: coll_compute(k); coll_out(k,i,k->result,nb); break;
   case C_SCAN: case C_EXSCAN: { cin_(k,i); int last=k->kind==C_SCAN?i:i-1; if(last<0) break; char*t=A(nb+1); memcpy(t,cin_(k,0),nb); for(int j=1;j<=last;j++) red(t,cin_(k,j),k->count,k->type,k->op); coll_out(k,i,t,nb); } break;
   case C_GATHER: case C_ALLGATHER: cin_(k,i); if(k->kind==C_GATHER&&i!=k->root) break; { char*t=A(np*nb+1); for(int j=0;j<np;j++) memcpy(t+j*nb,cin_(k,j),nb); coll_out(k,i,t,np*nb); } break;
   case C_ALLTOALL: { char*t=A(np*nb+1); for(int j=0;j<np;j++) memcpy(t+j*nb,(char*)cin_(k,j)+i*nb,nb); coll_out(k,i,t,np*nb); } break;
   case C_SCATTER: if(i==k->root) cin_(k,i); coll_out(k,i,(char*)cin_(k,k->root)+i*nb,nb); break;
   case C_DUP: case C_SPLIT: coll_compute(k); break;
  } k->r[i].delivered=1; }
static int colldone(Req*q){ return coll_rank_ready(q->coll,q->src); }
static Coll *coll_enter(Hdl*h,int kind,const void*in,void*out,size_t count,int type,int op,int root,int color,int key,int early){
  Comm*c=h->c; int i=h->rank; Coll*k=coll_get(c,i); size_t ts=type?tsize(type):1;
  if(k->narr==0){ k->kind=kind; k->type=type; k->op=op; k->root=root; k->count=count; }
  else if(k->kind!=kind) VIO("collective mismatch: %s here, %s on another rank",cname[kind],cname[k->kind]);
  else if(k->type!=type||k->op!=op||k->root!=root||k->count!=count) VIO("%s called with different arguments on different ranks (count %zu/%zu type %d/%d op %d/%d root %d/%d)",cname[kind],count,k->count,type,k->type,op,k->op,root,k->root);
  size_t nin=count*ts; if(kind==C_BCAST&&i!=root) nin=0; if(kind==C_ALLTOALL||(kind==C_SCATTER&&i==root)) nin*=c->np; if(kind==C_SCATTER&&i!=root) nin=0; if(kind==C_BARRIER||kind==C_DUP||kind==C_SPLIT) nin=0;
  if(in==MPI_IN_PLACE){ in=kind==C_ALLGATHER?(char*)out+i*nin:out; }
  k->r[i].arrived=1; k->r[i].in=in; k->r[i].n=nin; k->r[i].out=out; k->r[i].early=early; k->r[i].color=color; k->r[i].key=key; k->user=!R[cur].userlib; if(nin) chkbuf(in,nin,cname[kind]);
  if(early) cin_(k,i);
  k->narr++; return k; }
static struct { Coll*k; int i; } CB[MAXNP];
static int rdy_coll(int r){ return coll_rank_ready(CB[r].k,CB[r].i); }
static Coll *coll_run(MPI_Comm c,int kind,const void*in,void*out,size_t count,int type,int op,int root,int color,int key){
  Hdl*h=H(c,cname[kind]); int i=h->rank; note(mix(mix(20+kind,c),mix(count,op))); if(kind==C_DUP||kind==C_SPLIT) R[cur].cost.comms++; else R[cur].cost.colls++, R[cur].cost.collbytes+=count*(type?tsize(type):1); sched_point();
  int early=coll_sync(kind)?0:early_coll();
  Coll*k=coll_enter(h,kind,in,out,count,type,op,root,color,key,early); CB[cur].k=k; CB[cur].i=i;
  block(rdy_coll,"%s",cname[kind]); coll_finish(k,i); return k; }
int MPI_Barrier(MPI_Comm c){ coll_run(c,C_BARRIER,0,0,0,0,0,0,0,0); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ coll_run(c,C_BCAST,b,b,n,t,0,root,0,0); return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op o,int root,MPI_Comm c){ coll_run(c,C_REDUCE,s,r,n,t,o,root,0,0); return 0; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ if(n<0) VIO("MPI_Allreduce with count %d",n); if(n&&s==r) VIO("MPI_Allreduce with the same send and receive buffer"); if(n) chkbuf(r,n*tsize(t),"MPI_Allreduce output"); coll_run(c,C_ALLREDUCE,s,r,n,t,o,0,0,0); return 0; }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ coll_run(c,C_SCAN,s,r,n,t,o,0,0,0); return 0; }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c){ coll_run(c,C_EXSCAN,s,r,n,t,o,0,0,0); return 0; }
int MPI_Gather(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ coll_run(c,C_GATHER,s,r,n,t,0,root,0,0); return 0; }
int MPI_Allgather(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ coll_run(c,C_ALLGATHER,s,r,n,t,0,0,0,0); return 0; }
int MPI_Alltoall(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ coll_run(c,C_ALLTOALL,s,r,n,t,0,0,0,0); return 0; }
int MPI_Scatter(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ coll_run(c,C_SCATTER,s,r,rn,rt,0,root,0,0); return 0; }
int MPI_Gatherv(const void*s,int n,MPI_Datatype t,void*r,const int*rc,const int*d,MPI_Datatype rt,int root,MPI_Comm c){ VIO("MPI_Gatherv is not modelled"); return 0; }
int MPI_Allgatherv(const void*s,int n,MPI_Datatype t,void*r,const int*rc,const int*d,MPI_Datatype rt,MPI_Comm c){ VIO("MPI_Allgatherv is not modelled"); return 0; }
int MPI_Alltoallv(const void*s,const int*sc,const int*sd,MPI_Datatype t,void*r,const int*rc,const int*rd,MPI_Datatype rt,MPI_Comm c){ VIO("MPI_Alltoallv is not modelled"); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){ Hdl*h=H(c,"MPI_Comm_dup"); int i=h->rank; Coll*k=coll_run(c,C_DUP,0,0,0,0,0,0,0,0); *o=newhdl(k->r[i].newc,i); return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){ Hdl*h=H(c,"MPI_Comm_split"); int i=h->rank; Coll*k=coll_run(c,C_SPLIT,0,0,0,0,0,0,color,key); Comm*d=k->r[i].newc; if(!d){ *o=MPI_COMM_NULL; return 0; } int me=0; for(int j=0;j<d->np;j++) if(d->world[j]==cur) me=j; *o=newhdl(d,me); return 0; }
static void icoll(MPI_Comm c,int kind,const void*in,void*out,size_t n,int t,int op,int root,MPI_Request*rq){ Hdl*h=H(c,"nonblocking collective"); note(mix(mix(60+kind,c),mix(n,op))); R[cur].cost.colls++; R[cur].cost.collbytes+=n*(t?tsize(t):1); sched_point(); int early=early_coll(); size_t nb=n*(t?tsize(t):1);
  if(in!=MPI_IN_PLACE&&kind==C_ALLREDUCE&&n&&in==out) VIO("MPI_Iallreduce with the same send and receive buffer"); if(nb) chkbuf(out,nb,"MPI_Iallreduce output");
  Coll*k=coll_enter(h,kind,in,out,n,t,op,root,0,0,early); if(in!=MPI_IN_PLACE&&kind==C_ALLREDUCE&&nb) memset(out,0xEE,nb);
  Req*q=newreq(3,rq); q->coll=k; q->src=h->rank; q->early=early;
  if(k->narr==h->c->np) for(int i=0;i<k->c->np;i++) if(k->r[i].early) coll_finish(k,i); }
int MPI_Iallreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c,MPI_Request*q){ if(n<0) VIO("MPI_Iallreduce with count %d",n); icoll(c,C_ALLREDUCE,s,r,n,t,o,0,q); return 0; }
int MPI_Ibcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c,MPI_Request*q){ icoll(c,C_BCAST,b,b,n,t,0,root,q); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*q){ icoll(c,C_BARRIER,0,0,0,0,0,0,q); return 0; }

/* ------------------------------------------------------------------ loading */
static void movsb(void*d,const void*s,size_t n){ __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
static int phdr_cb(struct dl_phdr_info*i,size_t sz,void*a){ Copy*c=a; struct link_map*lm=c->h; if(i->dlpi_addr!=lm->l_addr||!i->dlpi_name||strcmp(i->dlpi_name,lm->l_name)) return 0;
  uintptr_t rs=0,re=0; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ rs=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; re=rs+i->dlpi_phdr[k].p_memsz; rs&=~4095ul; re=re&~4095ul; }
  for(int k=0;k<i->dlpi_phnum;k++){ const ElfW(Phdr)*p=&i->dlpi_phdr[k]; if(p->p_type!=PT_LOAD||!(p->p_flags&PF_W)) continue; uintptr_t s=i->dlpi_addr+p->p_vaddr,e=s+p->p_memsz; if(s<re&&rs<=s) s=re; if(s<e) c->seg[c->nseg++]=(Seg){(char*)s,e-s,0}; } return 1; }
static void load_copy(int i){ Copy*c=&copies[i]; char p[4200]; snprintf(p,sizeof p,"%s/h.%d.so",sodir,i); c->h=dlopen(p,RTLD_NOW|RTLD_LOCAL); if(!c->h){ dprintf(2,"dlopen: %s\n",dlerror()); _exit(79);} 
  c->init=dlsym(c->h,"h_init"); c->ncases=dlsym(c->h,"h_ncases"); c->hcase=dlsym(c->h,"h_case"); c->body=dlsym(c->h,"h_rank"); c->desc=dlsym(c->h,"h_describe"); c->exitcheck=dlsym(c->h,"h_exit_check");
  if(!c->init||!c->ncases||!c->hcase||!c->body||!c->desc){ dprintf(2,"harness incomplete\n"); _exit(79);} 
  dl_iterate_phdr(phdr_cb,c); if(!c->nseg){ dprintf(2,"no writable segments found\n"); _exit(79);} 
  fillbyte=0xA5; c->init(tier);
  for(int k=0;k<c->nseg;k++){ c->seg[k].snap=malloc(c->seg[k].n); movsb(c->seg[k].snap,c->seg[k].p,c->seg[k].n); } }
static void restore(int i){ Copy*c=&copies[i]; for(int k=0;k<c->nseg;k++) movsb(c->seg[k].p,c->seg[k].snap,c->seg[k].n); }

/* ------------------------------------------------------------------ leaks */
static int blk_cmp(const void*a,const void*b){ const Blk*x=*(Blk*const*)a,*y=*(Blk*const*)b; return x->p<y->p?-1:x->p>y->p; }
static int leak_check(void){ /* conservative reachability from each rank's globals */
  size_t n=0; Blk**v=malloc((btn+1)*sizeof *v); for(size_t i=0;i<btcap&&bt;i++) if(bt[i].p&&bt[i].owner>=0) v[n++]=bt+i; qsort(v,n,sizeof *v,blk_cmp); char*mark=calloc(n+1,1); size_t*st=malloc((n+1)*sizeof *st),ns=0; int res=0;
#define SCAN(P,N) do{ char*_p=(char*)(((uintptr_t)(P)+7)&~7ul),*_e=(char*)(P)+(N); for(;_p+8<=_e;_p+=8){ uintptr_t x; __builtin_memcpy(&x,_p,8); size_t lo=0,hi=n; while(lo<hi){ size_t md=(lo+hi)/2; if((uintptr_t)v[md]->p<=x) lo=md+1; else hi=md; } if(lo){ Blk*b=v[lo-1]; if(x<(uintptr_t)b->p+b->n+(b->n==0)&&!mark[lo-1]){ mark[lo-1]=1; st[ns++]=lo-1; } } } }while(0)
  for(int r=0;r<NP;r++) for(int k=0;k<copies[r].nseg;k++){ char*buf=malloc(copies[r].seg[k].n+8); movsb(buf,copies[r].seg[k].p,copies[r].seg[k].n); size_t sn=copies[r].seg[k].n; SCAN(buf,sn); free(buf); }
  while(ns){ Blk*b=v[st[--ns]]; SCAN(b->p,b->n); }
  uint64_t best=~0ull; for(size_t i=0;i<n;i++) if(!mark[i]&&v[i]->lib&&v[i]->seq<best){ best=v[i]->seq; int cnt=0; size_t by=0; for(size_t j=0;j<n;j++) if(!mark[j]&&v[j]->lib) cnt++,by+=v[j]->n; vio_set=0; vio("memory leak: %d library blocks (%zu bytes) unreachable at the end; first: %zu bytes allocated by rank %d",cnt,by,v[i]->n,v[i]->owner); res=1; }
  free(v); free(mark); free(st); return res; }

/* ------------------------------------------------------------------ one execution */
static int nlibmsg_stray(char*b){ int o=0; for(int i=0;i<NP;i++){ for(Msg*m=R[i].unexp;m;m=m->next) if(o<600) o+=sprintf(b+o,"message %d->%d tag %d never received; ",m->srcworld,i,m->tag); for(Req*q=R[i].posted;q;q=q->next) if(o<600) o+=sprintf(b+o,"receive on %d from %d tag %d never matched; ",i,q->src,q->tag); } return o; }
static void run_exec(void){
  exec_serial++; n_exec++; if(rec){ rec->execs=n_exec; rec->nch=0; rec->pol=POL; }
  for(int i=0;i<NP;i++) restore(i);
  if(arn>(96u<<20)) madvise(ar,arn,MADV_DONTNEED);
  arn=0; ncomms=0; nch=0; devs=0; finished=0; aborted=0; exited_rank=-1; outcome=0; memset(rout,0,sizeof rout); vio_set=0; lastpick=desc()?NP:-1; fillbyte=(unsigned char[]){0xA5,0x11,0xFF,0x5B}[(HC.fill+POL)&3];
  if(HC.expect_exit||HC.fault||lseek(capfd,0,SEEK_CUR)>(1<<20)) cap_reset();
  Comm*W=newcomm(); W->np=NP; for(int i=0;i<NP;i++) W->world[i]=i;
  for(int i=0;i<NP;i++){ Rank*r=&R[i]; Comm*s=A(sizeof *s); s->np=1; s->world[0]=i; r->nh=2; r->hdl[0]=(Hdl){W,i,1,1}; r->hdl[1]=(Hdl){s,0,1,1}; r->nrq=0; r->calls=0; r->digest=0; r->userlib=1; r->nwt=r->iwt=0; r->wtlast=0; r->nalloc=0; r->faulted=0; r->expect_exit=0; memset(&r->cost,0,sizeof r->cost); r->posted=0; r->posted_tail=&r->posted; r->unexp=0; r->unexp_tail=&r->unexp; fiber_new(i); }
  while(!aborted && finished<NP){
    int nx=-1;
    if(lastpick>=2000){ lastpick-=2000; int en[MAXNP],n=0; for(int i=0;i<NP;i++) if(is_ready(i)) en[n++]=i; nx=en[0]; for(int i=n-1;i>=0;i--) if(en[i]>lastpick) nx=en[i]; }
    else if(lastpick>=1000) nx=lastpick-1000;
    else { int en[MAXNP],n=0; for(int i=0;i<NP;i++) if(is_ready(i)) en[n++]=i; 
      if(!n){ char b[3000]; int o=0; for(int i=0;i<NP&&o<2500;i++) o+=sprintf(b+o,"[%d: %s] ",i,R[i].state==3?"returned":R[i].whatbuf); vio("DEADLOCK: no rank can proceed: %s",b); break; }
      int d=0; if(desc()) d=n-1; d=choose(K_SCHED,n,d); if(vio_set) break; nx=en[d]; }
    lastpick=-1; run_fiber(nx);
  }
  if(nch<nfix&&!vio_set) vio("NONDETERMINISM: replayed execution ended after %d of %d choices",nch,nfix);
  if(nch>maxdepth) maxdepth=nch;
  if(!vio_set){
    int ee=HC.expect_exit||fault_rank>=0; for(int i=0;i<NP;i++) ee|=R[i].expect_exit;
    if(exited_rank>=0){ static char t[1<<18]; sim_captured(t,sizeof t); const char*m=0; int flt=R[exited_rank].faulted;
      if(!ee) vio("rank %d called exit(%d) unexpectedly; output: %.300s",exited_rank,exit_status,t);
      else if(exit_status==0) vio("rank %d exited with status 0",exited_rank);
      else if(fault_rank>=0&&!flt) vio("rank %d exited although no failure was injected there; output: %.300s",exited_rank,t);
      else if(!t[0]) vio("rank %d exited with status %d without printing a diagnostic",exited_rank,exit_status);
      else if(fault_rank>=0&&!strcasestr(t,"alloc")) vio("diagnostic does not mention the failed allocation: %.300s",t);
      else if(copies[0].exitcheck&&(m=copies[0].exitcheck(CASE,exited_rank,exit_status,t))) vio("%s; output: %.300s",m,t);
      sim_outcome(mix(77,exit_status));
    } else {
      if(fault_rank>=0){ if(R[fault_rank].faulted) vio("rank %d continued to completion after its allocation number %llu failed",fault_rank,(unsigned long long)fault_k); }
      else if(ee) vio("no rank exited although the call was invalid");
      if(!vio_set&&HC.check_stray){ char b[900]; if(nlibmsg_stray(b)) vio("%s",b);
        for(int i=0;i<NP&&!vio_set;i++) for(int k=0;k<R[i].nrq;k++) if(R[i].rq[k]->live){ vio("rank %d: a %s request was never completed",i,R[i].rq[k]->kind==1?"send":R[i].rq[k]->kind==2?"receive":"collective"); break; } }
      if(!vio_set&&HC.check_leaks){ for(int i=0;i<NP&&!vio_set;i++) for(int k=2;k<R[i].nh;k++) if(R[i].hdl[k].live&&!R[i].hdl[k].user){ vio("rank %d: a communicator created by the library was never freed",i); break; }
        if(!vio_set) leak_check(); }
    }
  }
  for(size_t i=0;i<btcap&&bt;){ if(bt[i].p&&bt[i].owner>=0){ void*p=bt[i].p; bt_del(bt+i); free(p); } else i++; }
  for(int i=0;i<NP;i++) outcome=mix(outcome,rout[i]);
  if(HC.same&&!vio_set){ if(!refset){ memcpy(refout,rout,sizeof rout); refset=1; } else for(int i=0;i<NP;i++) if(rout[i]!=refout[i]){ vio("rank %d: the results differ from those of another legal execution of the same program (message timing changes the outcome)",i); break; } }
  hs_add(&S_out,mix(outcome,1)); n_out++;
}

/* ------------------------------------------------------------------ output */
static void jesc(FILE*f,const char*s){ for(;*s;s++){ if(*s=='"'||*s=='\\') fputc('\\',f); if((unsigned char)*s<32) fputc(' ',f); else fputc(*s,f);} }
static char *describe_case(uint64_t i){ static char b[4000]; b[0]=0; copies[0].desc(i,b,sizeof b); return b; }
static void out_violation(void){ static char buf[1<<17]; FILE*f=fmemopen(buf,sizeof buf,"w"); fprintf(f,"{\"violation\":\""); jesc(f,vio_msg); fprintf(f,"\",\"case\":%llu,\"describe\":\"",(unsigned long long)CASE); jesc(f,describe_case(CASE)); 
  fprintf(f,"\",\"policy\":%d,\"fault_rank\":%d,\"fault_k\":%llu,\"deviations\":%d,\"choices\":[",POL,fault_rank,(unsigned long long)fault_k,devs); int last=nch; while(last>0&&ch[last-1].alt==0) last--; for(int i=0;i<last&&i<20000;i++) fprintf(f,"%s%d",i?",":"",ch[i].alt); fprintf(f,"]}\n"); fclose(f); write(outfd,buf,strlen(buf)); }
static uint64_t n_skip; static void out_summary(void){ static char buf[1<<16]; FILE*f=fmemopen(buf,sizeof buf,"w"); fprintf(f,"{\"summary\":1,\"skipped\":%llu,\"cases\":%llu,\"executions\":%llu,\"states\":%llu,\"states_capped\":%d,\"mpi_calls\":%llu,\"steps\":%llu,\"outcomes\":%llu,\"max_choices\":%d,\"sched_points\":%llu,\"capped\":%d,\"truncated_cases\":%d,\"known\":{",(unsigned long long)n_skip,(unsigned long long)n_cases,(unsigned long long)n_exec,(unsigned long long)S_states.n,S_states.full,(unsigned long long)n_mpi,(unsigned long long)n_steps,(unsigned long long)S_out.n,maxdepth,(unsigned long long)n_sched_pts,capped,truncated_cases);
  for(int i=0;i<nknown;i++){ fprintf(f,"%s\"",i?",":""); jesc(f,known[i].key); fprintf(f,"\":[%llu,\"",(unsigned long long)known[i].n); jesc(f,known[i].msg); fprintf(f,"\"]"); }
  fprintf(f,"},\"samples\":["); for(int i=0;i<nsamples;i++){ fprintf(f,"%s\"",i?",":""); jesc(f,samples[i]); fprintf(f,"\""); } fprintf(f,"]}\n"); fclose(f); write(outfd,buf,strlen(buf)); }

/* ------------------------------------------------------------------ exploration of one case */
static double budget; static double now(void){ struct timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; } static double t0;
static void clear_rest(void){}
static int explore(void){ /* 1: violation */
  nfix=0; uint64_t ne=0;
  for(;;){
    run_exec(); ne++;
    if(vio_set) return 1;
    if(HC.max_exec&&ne>=HC.max_exec){ truncated_cases++; return 0; }
    if((ne&15)==0&&now()-t0>budget){ capped=1; return 0; }
    int i,cost=devs; for(i=nch-1;i>=0;i--){ int c=ch[i].cost; int self=(ch[i].alt&&c)?1:0; cost-=self; if(ch[i].alt+1<ch[i].n && cost+(c?1:0)<=HC.bound){ ch[i].alt++; nfix=i+1; break; } }
    if(i<0) return 0;
  }
}
static int run_case(uint64_t idx){
  CASE=idx; refset=0; memset(&HC,0,sizeof HC); HC.np=1; HC.policies=PM(0); copies[0].hcase(idx,&HC); NP=HC.np; if(NP>MAXNP||NP<1){ dprintf(2,"np %d\n",NP); _exit(79);} if(!HC.policies) HC.policies=PM(0);
  while(ncopies<NP){ load_copy(ncopies); ncopies++; }
  if(rec){ rec->idx=idx; }
  for(POL=0;POL<POL_N;POL++) if(HC.policies>>POL&1){
    if(rec){ rec->pol=POL; rec->frank=-1; }
    fault_rank=-1; if(HC.fault){ nfix=0; int ex=HC.expect_exit; run_exec(); if(vio_set) return 1; uint64_t cnt[MAXNP]; for(int i=0;i<NP;i++) cnt[i]=R[i].nalloc; (void)ex;
      for(int r=0;r<NP;r++) for(uint64_t k=0;k<cnt[r];k++){ fault_rank=r; fault_k=k; if(rec){ rec->frank=r; rec->fk=k; } if(explore()) return 1; if(capped) return 0; sim_state(mix(mix(CASE,r),mix(k,9))); } fault_rank=-1; }
    else if(explore()) return 1;
    if(capped) return 0;
  }
  return 0; }

static uint64_t last_serial; static int ticks;
static void on_tick(int s){ if(exec_serial==last_serial){ if(++ticks>=hang_limit&&exec_serial){ static const char m[]="{\"hang\":1}\n"; write(outfd,m,sizeof m-1); _exit(78);} } else { ticks=0; last_serial=exec_serial; } }

static int npmax_opt=0; static FILE*dumpf; static uint64_t n_skip;
static int skipped(uint64_t idx){ if(!npmax_opt) return 0; struct hcase h; memset(&h,0,sizeof h); h.np=1; copies[0].hcase(idx,&h); return h.np>npmax_opt; }
int main(int argc,char**argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)&&!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); if(personality(ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  uint64_t sh=0,shn=1; long one=-1; const char*recf=0,*replay=0; budget=1e9; int count=0; int rpol=-1,rfr=-1; uint64_t rfk=0; const char*rch=0; int verbose=0; long descr=-1;
  for(int i=1;i<argc;i++){ char*a=argv[i]; 
    if(!strcmp(a,"--so")) snprintf(sodir,sizeof sodir,"%s",argv[++i]); else if(!strcmp(a,"--tier")) tier=atoi(argv[++i]); else if(!strcmp(a,"--shard")){ sh=atoll(argv[++i]); shn=atoll(argv[++i]); }
    else if(!strcmp(a,"--rec")) recf=argv[++i]; else if(!strcmp(a,"--budget")) budget=atof(argv[++i]); else if(!strcmp(a,"--case")) one=atol(argv[++i]); else if(!strcmp(a,"--known")) knownlist=argv[++i]; else if(!strcmp(a,"--count")) count=1; else if(!strcmp(a,"--describe")){ descr=atol(argv[++i]); } else if(!strcmp(a,"--hang")) hang_limit=atoi(argv[++i]);
    else if(!strcmp(a,"--replay")){ one=atol(argv[++i]); rpol=atoi(argv[++i]); rfr=atoi(argv[++i]); rfk=atoll(argv[++i]); rch=argv[++i]; replay_mode=1; } else if(!strcmp(a,"--npmax")) npmax_opt=atoi(argv[++i]); else if(!strcmp(a,"--dump")) dumpf=fopen(argv[++i],"wb"); else if(!strcmp(a,"-v")) verbose=1; }
  (void)replay;
  outfd=dup(1); capfd=memfd_create("cap",0); if(!verbose){ dup2(capfd,1); dup2(capfd,2);} { static char ob[1<<16]; setvbuf(stdout,ob,_IOFBF,sizeof ob); }
  if(recf){ int fd=open(recf,O_RDWR|O_CREAT,0644); ftruncate(fd,sizeof(Rec)); rec=mmap(0,sizeof(Rec),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); rec->magic=0x51; rec->idx=~0ull; }
  ar=mmap(0,armax,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); ch=malloc(sizeof(Ch)*MAXCH);
  t0=now(); load_copy(0); ncopies=1;
  struct sigaction sa={.sa_handler=on_tick,.sa_flags=SA_RESTART|SA_ONSTACK}; sigaction(SIGPROF,&sa,0); { stack_t ss={.ss_sp=malloc(65536),.ss_size=65536}; sigaltstack(&ss,0); } struct itimerval tv={{1,0},{1,0}}; setitimer(ITIMER_PROF,&tv,0);
  uint64_t n=copies[0].ncases();
  if(count){ dprintf(outfd,"%llu\n",(unsigned long long)n); return 0; }
  if(descr>=0){ dprintf(outfd,"%s\n",describe_case(descr)); return 0; }
  if(replay_mode&&rpol>=0){ CASE=one; memset(&HC,0,sizeof HC); HC.np=1; copies[0].hcase(one,&HC); NP=HC.np; while(ncopies<NP){ load_copy(ncopies); ncopies++; } POL=rpol; fault_rank=rfr; fault_k=rfk;
    /* choices: alt values, replayed without prior knowledge of kinds */
    int m=0; for(const char*p=rch;*p;){ char*e; long a=strtol(p,&e,10); if(e==p) break; ch[m].alt=a; m++; p=*e==','?e+1:e; }
    nfix=m;
    if(HC.same){ Ch*keep=malloc(sizeof(Ch)*(m+1)); memcpy(keep,ch,sizeof(Ch)*m); nfix=0; refset=0; for(POL=0;POL<POL_N&&!(HC.policies>>POL&1);POL++); if(!HC.policies) POL=0; int rm=replay_mode; replay_mode=0; run_exec(); replay_mode=rm; POL=rpol; memcpy(ch,keep,sizeof(Ch)*m); free(keep); nfix=m; }
    if(!HC.same||!vio_set) run_exec();
    if(vio_set){ out_violation(); return 1; } out_summary(); return 0; }
  for(uint64_t i=one>=0?(uint64_t)one:sh;i<n;i+=shn){
    if(skipped(i)){ n_skip++; continue; }
    if(run_case(i)){ out_violation(); return 1; }
    if(dumpf){ uint64_t d[2]={i,outcome}; fwrite(d,8,2,dumpf); }
    if(capped) break; n_cases++; if(rec) rec->cases_done=n_cases;
    if(nsamples<3&&(n_cases==1||n_cases==50||n_cases==1000)) snprintf(samples[nsamples++],1600,"case %llu (np=%d): %.1300s",(unsigned long long)i,NP,describe_case(i));
    if(one>=0) break; if((n_cases&3)==0&&now()-t0>budget){ if(i+shn<n) capped=1; break; } }
  if(dumpf) fclose(dumpf); out_summary(); return 0; }
