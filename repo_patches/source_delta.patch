From 1b688e776c628fb927a68560c1b905266e1e5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 01/26] fix: nonblocking gather/scatter with the crystal router
 method

cr_setup left exec_irecv, exec_isend and exec_wait uninitialised, so igs,
igs_vec and igs_many on such a handle called garbage pointers. Do the
exchange when the operation is started.
---
 src/gs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..b7ebe90 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -938,6 +938,9 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  r->exec_irecv = (exec_fun*)&cr_exec;
+  r->exec_isend = NULL;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From 4a4f54a435792b5bc6b14b2b3389b9815c1b8cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 02/26] fix: comm_iallreduce without a posted MPI operation

With no data (vn==0) or an operation MPI does not provide (gs_bpr),
comm_iallreduce left the request uninitialised although the caller waits
for it; in the second case the result was left in v while the caller
reads buf. Return a null request, and the result in buf.
---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..60ce5b9 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL; /* nothing to wait for unless posted below */
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* result expected in buf */
 #endif
 }
 
-- 
2.43.0


From 02f77b009192a61ebb2fa5814f782d9080a77a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 03/26] fix: cap_rows keeps exactly the rows that fit

When the received rows exceed the fixed capacity, the length of the last
kept message was enlarged (by n-maxn, as unsigned) instead of reduced, so
unpacking ran past the end of the message and of the caller's arrays.
---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..771982a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From d4bf3c4acd0d4c284fcd72281ea5cbb13a92d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 04/26] fix: transfer of records that consist only of the
 processor field

The row size was zero words, so the rows could not be counted (division
by zero in num_rows and cap_rows).
---
 src/sarray_transfer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 771982a..ff8676a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,7 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  if(row_size==0) row_size=1; /* records that are only the processor field */
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From f76522e0ab45387ccc23ce8e47dc2aa618117b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 05/26] fix: field offset of gs_op_fields for all datatypes

The element size was looked up with the Fortran datatype number minus one
as if it were a C domain: the sizes of real and double (1,2) were
exchanged and datatype 3 used that of int.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index b7ebe90..470a6bf 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1643,7 +1643,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From d7dbe63099d3605a5d9921a93eb9979055a081da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 06/26] fix: free the request of the all-reduce method

allreduce_setup_aux allocates it, allreduce_free did not release it.
---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 470a6bf..23d3626 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1071,6 +1071,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From 3b9ff53c2a7c56900dfd50ce54fcd64039787a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 07/26] fix: free the communicator duplicated by the Fortran
 gs_unique

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 23d3626..0b444be 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1666,5 +1666,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From f5842b20835d54bc97afc07a13fa61aa31425275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 08/26] fix: list of arrays of a pending igs_op_many

The Fortran igs_op_many builds the list of arrays on its stack and igs_many
stored the pointer to it in the pending operation, so gs_op_wait read a
dead stack frame. Keep a copy of the list until the wait.
---
 src/gs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 0b444be..3d697d5 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1303,6 +1303,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1364,7 +1365,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* keep the list of arrays until gs_wait, when the caller's may be gone */
+  nblkng_dict[nblkng_n]->u = memcpy(tmalloc(void*, vn),u,vn*sizeof(void*));
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
-- 
2.43.0


From a7ec01a0aca02787ffc546e7e5e876282ebec280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 09/26] fix: memory leak in findpts_local

The four dummy arguments allocated by each call were never freed.
---
 src/findpts_local_imp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..c8adc38 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -456,6 +456,10 @@ void findpts_local(
         disti_base,disti_stride,
         elsid_base,elsid_stride,
         sess_match,npt,fd,buf);
+  free(sess_base);
+  free(disti_base);
+  free(elsid_base);
+  free(sess_match);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From e0e7b35753e6f0051765b90b65eb28ab91672886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 10/26] fix: unused session arguments in the Fortran
 findpts_setup

Two words allocated for a 2-D handle were never freed; for a 3-D handle
uninitialised pointers were passed. The session id and distance field are
only used by findptsms, so pass null as the C interface does.
---
 src/findpts.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..07afece 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,12 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
-                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
+                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, 0, 0,ims);
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
@@ -344,10 +340,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
-                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
+                *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, 0, 0,ims);
   } else
     fail(1,__FILE__,__LINE__,
          "findpts_setup: ndim must be 2 or 3; given ndim=%u",(unsigned)h->ndim);
-- 
2.43.0


From 2dbf2ba649dc2cddd4272aaa7030f8e08aa4e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 11/26] fix: build without MPI

crystal_router called MPI_Abort unconditionally.
---
 src/crystal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..be8b584 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,11 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#else
+      die(EXIT_FAILURE);
+#endif
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0


From 100a7c02cd6a42874edf4e09f9146bdb28386f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 12/26] fix: comm_split without MPI leaves the result
 uninitialised

---
 src/comm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/comm.h b/src/comm.h
index 72a54fe..b128b45 100644
--- a/src/comm.h
+++ b/src/comm.h
@@ -191,6 +191,7 @@ static void comm_split_(const struct comm *s, int bin, int key, struct comm *d,
   MPI_Comm_free(&nc);
 #else
   if(s->np!=1) fail(1,file,line,"%s not compiled with -DMPI\n",file);
+  d->id = s->id, d->np = s->np;
 #endif
 }
 #define comm_split(s, bin, key, d) comm_split_(s, bin, key, d, __FILE__, __LINE__)
-- 
2.43.0


From 6c46c1c14b3fa45f5f2f42864384af87b9d0f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 13/26] fix: order of local groups after unique flagging

make_topology_unique left the nonzeros sorted by primary and index, while the
local maps need the primary (unflagged) entry first in each group; with ids
flagged before the primary, gs_setup with the unique option computed wrong
results.
---
 src/gs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 3d697d5..0efc616 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -275,7 +275,8 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
+  /* restore the order by primary, then flag: the primary comes first */
+  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, primary,0, flag,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From eb44682a3b41ac71eeb2ec953002f2e018fb885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 14/26] fix: findpts: a negligible rejected step keeps its
 constraints, so boundary points are not reported as inside

---
 src/findpts_el_2.c | 5 ++++-
 src/findpts_el_3.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..1bdcce3 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -334,7 +334,10 @@ static int reject_prior_step_q(struct findpts_el_pt_2 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1];
     out->flags=p->flags>>5;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    /* the rejected step was negligible, so the constraints it ran into are
+       active here as well: without them, a point on the boundary (e.g., still
+       at its seed) would be taken for one that converged inside */
+    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG|(p->flags&FLAG_MASK);
     return 1;
   }
 }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..a632928 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -524,7 +524,10 @@ static int reject_prior_step_q(struct findpts_el_pt_3 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1],out->r[2]=p->oldr[2];
     out->flags=p->flags>>7;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    /* the rejected step was negligible, so the constraints it ran into are
+       active here as well: without them, a point on the boundary (e.g., still
+       at its seed) would be taken for one that converged inside */
+    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG|(p->flags&FLAG_MASK);
     return 1;
   }
 }
-- 
2.43.0


From be213f8990cf8ff4d819a3b91c67706d86df47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 15/26] fix: findpts_eval: points other than those of the
 previous evaluation were ignored in favour of its cached points

---
 src/findpts_imp.h | 51 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..ca01588 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -39,6 +39,7 @@
 #define findpts               GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_      ),D)
 #define findpts_eval          GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_eval_ ),D)
 #define setup_fev_aux         GS_TOKEN_PASTE(setup_fev_aux_,D)
+#define fev_pts_changed       GS_TOKEN_PASTE(fev_pts_changed_,D)
 
 struct hash_data {
   ulong hash_n;
@@ -217,7 +218,8 @@ struct findpts_data {
   struct crystal cr;
   struct findpts_local_data local;
   struct hash_data hash;
-  struct array savpt;
+  struct array savpt; /* points to evaluate here, set up by a prior eval */
+  struct array usrpt; /* points given locally to that eval */
   struct findpts_dummy_ms_data fdms;
   uint   fevsetup;
 };
@@ -261,7 +263,7 @@ void findptsms_free(struct findpts_data *fd)
   hash_free(&fd->hash);
   findptsms_local_free(&fd->local);
   crystal_free(&fd->cr);
-  if (fd->fevsetup==1) array_free(&fd->savpt);
+  if (fd->fevsetup==1) array_free(&fd->savpt), array_free(&fd->usrpt);
   free(fd);
 }
 
@@ -280,6 +282,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
 {
   if (fd->fevsetup==1) {
     array_free(&fd->savpt);
+    array_free(&fd->usrpt);
     fd->fevsetup=0;
   }
   const uint np = fd->cr.comm.np, id=fd->cr.comm.id;
@@ -558,6 +561,8 @@ static void setup_fev_aux(
       el   = (const   uint*)((const char*)el  +  el_stride);
     }
     src.n = pt - (struct eval_src_pt*)src.ptr;
+    array_init(struct eval_src_pt, &fd->usrpt, src.n);
+    array_cat(struct eval_src_pt, &fd->usrpt, src.ptr, src.n);
     sarray_transfer(struct eval_src_pt,&src,proc,1,&fd->cr);
   }
   /* setup space for source points*/
@@ -580,6 +585,33 @@ static void setup_fev_aux(
   }
 }
 
+/* do the given points differ from those of the prior eval? */
+static int fev_pts_changed(
+  const uint   *const code_base, const unsigned code_stride,
+  const uint   *const proc_base, const unsigned proc_stride,
+  const uint   *const   el_base, const unsigned   el_stride,
+  const double *const    r_base, const unsigned    r_stride,
+  const uint npt, const struct findpts_data *const fd)
+{
+  const struct eval_src_pt *pt = fd->usrpt.ptr, *const pe = pt+fd->usrpt.n;
+  const uint *code=code_base, *proc=proc_base, *el=el_base;
+  const double *r=r_base;
+  uint index;
+  for(index=0;index<npt;++index) {
+    if(*code!=CODE_NOT_FOUND) {
+      unsigned d;
+      if(pt==pe || pt->index!=index || pt->proc!=*proc || pt->el!=*el) return 1;
+      for(d=0;d<D;++d) if(pt->r[d]!=r[d]) return 1;
+      ++pt;
+    }
+    r    = (const double*)((const char*)r   +   r_stride);
+    code = (const   uint*)((const char*)code+code_stride);
+    proc = (const   uint*)((const char*)proc+proc_stride);
+    el   = (const   uint*)((const char*)el  +  el_stride);
+  }
+  return pt!=pe;
+}
+
 void findptsms_eval(
         double *const  out_base, const unsigned  out_stride,
   const uint   *const code_base, const unsigned code_stride,
@@ -589,6 +621,20 @@ void findptsms_eval(
   const uint npt,
   const double *const in, struct findpts_data *const fd)
 { 
+  if (fd->fevsetup==1) { /* set up again if the points changed anywhere */
+    int changed, buf;
+    changed = fev_pts_changed(code_base,code_stride,
+                              proc_base,proc_stride,
+                                el_base,  el_stride,
+                                 r_base,   r_stride,
+                                    npt,         fd);
+    comm_allreduce(&fd->cr.comm,gs_int,gs_max,&changed,1,&buf);
+    if (changed) {
+      array_free(&fd->savpt);
+      array_free(&fd->usrpt);
+      fd->fevsetup=0;
+    }
+  }
   if (fd->fevsetup==0) {
     setup_fev_aux(code_base,code_stride,
                   proc_base,proc_stride,
@@ -703,6 +749,7 @@ void findpts_eval(
 #undef findpts_setup
 #undef setup_aux
 #undef setup_fev_aux
+#undef fev_pts_changed
 #undef eval_out_pt
 #undef eval_src_pt
 #undef out_pt
-- 
2.43.0


From 2144aedad9a37e9b955f1967511ab88998469c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 16/26] fix: release constraints the closest-point search
 already touches

A constraint added at zero distance (the current point lies on it) was never
released, as the test multiplied by the zero step: a target outside a skewed
element could end at a vertex that is not its closest point, and was said to
have converged.
---
 src/findpts_el_2.c | 2 +-
 src/findpts_el_3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index 1bdcce3..f448c9d 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -458,7 +458,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     for(d=0;d<2;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(c==1?y[d]>0:y[d]<0) flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index a632928..e0d5c83 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -696,7 +696,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     for(d=0;d<3;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(c==1?y[d]>0:y[d]<0) flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
-- 
2.43.0


From 1741d3e70caf04ae3106fc7a233acb650f7c05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 17/26] fix: end the closest-point search when rounding errors
 make constraints cycle

For some points on an edge of a thin element, a constraint was released and
added again without end by rounding errors.
---
 src/findpts_el_2.c | 4 +++-
 src/findpts_el_3.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index f448c9d..ae42778 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -352,7 +352,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
   double bnd[4] = { -1,1, -1,1 };
   double r0[2];
   double dr[2], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, relaxed=0;
   
   r0[0] = p->r[0], r0[1] = p->r[1];
   
@@ -472,6 +472,8 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_area_fin;
+    /* no set of constraints is left twice, except for rounding errors */
+    if(++relaxed>9) { flags=old_flags; goto newton_area_fin; }
     switch(num_constrained(flags)) {
       case 1: goto newton_area_edge;
     }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index e0d5c83..46892f3 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -542,7 +542,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   double bnd[6] = { -1,1, -1,1, -1,1 };
   double r0[3];
   double dr[3], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, relaxed=0;
   r0[0]=p->r[0],r0[1]=p->r[1],r0[2]=p->r[2];
 #ifdef DIAGNOSTICS_1
   printf("newton_vol:\n");
@@ -710,6 +710,8 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_vol_fin;
+    /* no set of constraints is left twice, except for rounding errors */
+    if(++relaxed>27) { flags=old_flags; goto newton_vol_fin; }
     switch(num_constrained(flags)) {
       case 1: goto newton_vol_face;
       case 2: goto newton_vol_edge;
-- 
2.43.0


From 37fa2d9feb85d3f0a80f135df4b97f518ceae226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:32 +0000
Subject: [PATCH 18/26] fix: findpts: pass local integers of the configured
 width (crash with GSLIB_USE_LONG or GSLIB_USE_LONG_LONG)

---
 src/findpts.c           |  8 ++++----
 src/findpts_imp.h       |  6 +++---
 src/findpts_local.h     |  8 ++++----
 src/findpts_local_imp.h | 12 ++++++------
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 07afece..0bce277 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -268,7 +268,7 @@ void ffindptsms_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -281,7 +281,7 @@ void ffindptsms_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
@@ -319,7 +319,7 @@ void ffindpts_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -332,7 +332,7 @@ void ffindpts_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index ca01588..ed8f920 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -210,7 +210,7 @@ static void hash_build(struct hash_data *const p,
 static void hash_free(struct hash_data *p) { free(p->offset); }
 
 struct findpts_dummy_ms_data {
-    unsigned int *nsid;
+    uint *nsid;
     double       *distfint;
 };
 
@@ -707,8 +707,8 @@ void findpts(      uint   *const  code_base   , const unsigned  code_stride   ,
        printf("Please use findptsms\n");
        die(1);
     }
-    unsigned int sess_base = 0;
-    unsigned int sess_match = 0;
+    uint sess_base = 0;
+    uint sess_match = 0;
     unsigned sess_stride = 0;
 
     findptsms( code_base, code_stride,
diff --git a/src/findpts_local.h b/src/findpts_local.h
index 30be675..dcbfc17 100644
--- a/src/findpts_local.h
+++ b/src/findpts_local.h
@@ -26,7 +26,7 @@ struct findpts_local_hash_data_2 {
 struct findpts_local_data_2 {
   unsigned ntot;
   const double *elx[2];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_2 *obb;
   struct findpts_local_hash_data_2 hd;
   struct findpts_el_data_2 fed;
@@ -38,7 +38,7 @@ struct findpts_local_data_2 {
 
 void findptsms_local_setup_2(struct findpts_local_data_2 *const fd,
                            const double *const elx[2],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[2], const uint nel,
                            const unsigned m[2], const double bbox_tol,
@@ -105,7 +105,7 @@ struct findpts_local_hash_data_3 {
 struct findpts_local_data_3 {
   unsigned ntot;
   const double *elx[3];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_3 *obb;
   struct findpts_local_hash_data_3 hd;
   struct findpts_el_data_3 fed;
@@ -117,7 +117,7 @@ struct findpts_local_data_3 {
 
 void findptsms_local_setup_3(struct findpts_local_data_3 *const fd,
                            const double *const elx[3],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[3], const uint nel,
                            const unsigned m[3], const double bbox_tol,
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index c8adc38..24ac6b2 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -200,7 +200,7 @@ static void hash_free(struct hash_data *p) { free(p->offset); }
 struct findpts_local_data {
   unsigned ntot;
   const double *elx[D];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox *obb;
   struct hash_data hd;
   struct findpts_el_data fed;
@@ -212,7 +212,7 @@ struct findpts_local_data {
 
 void findptsms_local_setup(struct findpts_local_data *const fd,
                          const double *const elx[D],
-                         const unsigned *const nsid,
+                         const uint *const nsid,
                          const double *const distfint,
                          const unsigned n[D], const uint nel,
                          const unsigned m[D], const double bbox_tol,
@@ -407,7 +407,7 @@ void findpts_local_setup(struct findpts_local_data *const fd,
                          const unsigned npt_max, const double newt_tol)
 {
   uint ims=0;
-  unsigned int nsid = 0;
+  uint nsid = 0;
   double distfint = 0.;
   findptsms_local_setup(fd,
                         elx,
@@ -433,10 +433,10 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
+    uint *sess_base = tmalloc(uint,1);
     double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
+    uint *elsid_base = tmalloc(uint,1);
+    uint *sess_match = tmalloc(uint,1);
     *sess_base = 0;
     *sess_match = 0;
     *disti_base = 0;
-- 
2.43.0


From 885e5c099c679f7f9f5d266d5d271445b43ecacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:14 +0000
Subject: [PATCH 19/26] fix: keep hash_opt_size_2/3 and the default
 userExitHandler internal (copies with different prefixes did not link
 together)

---
 src/fail.c              | 2 +-
 src/findpts_local_imp.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fail.c b/src/fail.c
index 6d007a5..b28a516 100644
--- a/src/fail.c
+++ b/src/fail.c
@@ -13,7 +13,7 @@
 extern void userExitHandler(int status);
 #else
 #define USEREXIT 0
-void userExitHandler(int status) {}
+static void userExitHandler(int status) {}
 #endif
 
 void die(int status)
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 24ac6b2..976021c 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -114,7 +114,7 @@ static uint hash_count(struct hash_data *p,
   return count;
 }
 
-uint hash_opt_size(struct hash_data *p,
+static uint hash_opt_size(struct hash_data *p,
                    const struct obbox *const obb, const uint nel,
                    const uint max_size)
 {
-- 
2.43.0


From 87954290ea7ecae8b34548a6bfb06c14727ebc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 20/26] fix: print failure reports of any length (reports above
 2 KB overflowed a buffer)

---
 src/fail.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/fail.c b/src/fail.c
index b28a516..880dc95 100644
--- a/src/fail.c
+++ b/src/fail.c
@@ -1,7 +1,6 @@
-#include <stdio.h>  /* sprintf, vfprintf, stdout */
+#include <stdio.h>  /* printf, vprintf, stdout */
 #include <stdarg.h> /* va_list, va_start, ... */
 #include <stdlib.h> /* exit */
-#include <string.h> /* memcpy, and str* functions in comm_fail */
 #include "name.h"
 #include "fail.h"
 #include "types.h"
@@ -30,12 +29,9 @@ void die(int status)
 void vdiagnostic(const char *prefix, const char *file, unsigned line,
                  const char *fmt, va_list ap)
 {
-  static char buf[2048]; int n,na,i=0;
-  sprintf(buf,"%s(proc %04d, %s:%d): ",prefix,(int)comm_gbl_id,file,line);
-  vsprintf(buf+strlen(buf),fmt,ap);
-  strcat(buf,"\n");
-  n=strlen(buf);
-  while(n && (na=fwrite(buf+i,1,n,stdout))) n-=na, i+=na;
+  printf("%s(proc %04d, %s:%u): ",prefix,(int)comm_gbl_id,file,line);
+  vprintf(fmt,ap);
+  printf("\n");
   fflush(stdout);
 }
 
-- 
2.43.0


From 61578f06b4568f804445dd13a16b1dbcc3968fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 21/26] fix: gather/scatter of vectors in arrays of more than
 2^32 elements or bytes (offsets wrapped at 32 bits)

---
 src/gs_local.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gs_local.c b/src/gs_local.c
index fa758c9..d9932c6 100644
--- a/src/gs_local.c
+++ b/src/gs_local.c
@@ -118,9 +118,9 @@ static void gather_vec_##T##_##OP( \
 {                                                                            \
   uint i,j;                                                                  \
   while((i=*map++)!=UINT_MAX) {                                              \
-    T *restrict p = &out[i*vn], *pe = p+vn;                                  \
+    T *restrict p = &out[(size_t)i*vn], *pe = p+vn;                          \
     j=*map++; do {                                                           \
-      const T *restrict q = &in[j*vn];                                       \
+      const T *restrict q = &in[(size_t)j*vn];                               \
       T *restrict pk=p; do { GS_DO_##OP(*pk,*q); ++pk, ++q; } while(pk!=pe); \
     } while((j=*map++)!=UINT_MAX);                                           \
   }                                                                          \
@@ -133,7 +133,7 @@ void gs_scatter_vec(
   void *restrict out, const void *restrict in, const unsigned vn,
   const uint *restrict map, gs_dom dom)
 {
-  unsigned unit_size = vn*gs_dom_size[dom];
+  size_t unit_size = vn*(size_t)gs_dom_size[dom];
   uint i,j;
   while((i=*map++)!=UINT_MAX) {
     const char *t = (const char *)in + i*unit_size;
@@ -152,7 +152,7 @@ static void init_vec_##T(T *restrict out, const unsigned vn, \
 {                                                            \
   uint i; const T e = gs_identity_##T[op];                   \
   while((i=*map++)!=UINT_MAX) {                              \
-    T *restrict u = (T*)out + vn*i, *ue = u+vn;              \
+    T *restrict u = (T*)out + (size_t)vn*i, *ue = u+vn;      \
     do *u++ = e; while(u!=ue);                               \
   }                                                          \
 }
-- 
2.43.0


From bdda6eb155d1acc9e5e5a87739c6beab15e41050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 22/26] fix: strided sorts of keys more than 4 GB apart
 (offsets wrapped at 32 bits)

---
 src/sort_imp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sort_imp.h b/src/sort_imp.h
index a6a0426..f01884b 100644
--- a/src/sort_imp.h
+++ b/src/sort_imp.h
@@ -27,7 +27,7 @@
 typedef struct { T v; uint i; } sort_data;
 
 #define INC_PTR(A,stride) ((A)=(T*)((char*)(A)+(stride)))
-#define INDEX_PTR(A,stride,i) (*(T*)((char*)(A)+(i)*(stride)))
+#define INDEX_PTR(A,stride,i) (*(T*)((char*)(A)+(size_t)(i)*(stride)))
 
 /*------------------------------------------------------------------------------
   
-- 
2.43.0


From 8d4d441482cdf5054516021520e815899713fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 23/26] fix: transfer of record arrays larger than 4 GB
 (offsets and sizes wrapped at 32 bits)

---
 src/sarray_transfer.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index ff8676a..eec1518 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -29,9 +29,10 @@ static void pack_int(
 #define PACK_BODY() do {                                                  \
   uint dummy, *len_ptr=&dummy;                                            \
   uint i, p,lp = UINT_MAX, len=0;                                         \
-  uint *restrict out = buffer_reserve(data, n*(row_size+3)*sizeof(uint)); \
+  uint *restrict out = buffer_reserve(data,                   \
+                         (size_t)n*(row_size+3)*sizeof(uint));            \
   for(i=0;i<n;++i) {                                                      \
-    const char *row = input + size*perm[i];                               \
+    const char *row = input + (size_t)size*perm[i];                       \
     GET_P();                                                              \
     if(p!=lp) {                                                           \
       lp = p;                                                             \
@@ -57,7 +58,8 @@ static void pack_ext(
   const uint *const restrict proc, const unsigned proc_stride,
   const uint *const restrict perm)
 {
-  #define GET_P() p=*(const uint*)((const char*)proc+proc_stride*perm[i])
+  #define GET_P() \
+    p=*(const uint*)((const char*)proc+(size_t)proc_stride*perm[i])
   #define COPY_ROW() memcpy(out,row,size)
   PACK_BODY();
   #undef PACK_BODY
@@ -74,7 +76,7 @@ static void pack_more(
   while(buf!=buf_end) {
     uint *msg_end = buf+3+buf[2]; buf+=3;
     while(buf!=msg_end)
-      memcpy((char*)buf+off, input+size*(*perm++), size), buf+=row_size;
+      memcpy((char*)buf+off, input+(size_t)size*(*perm++), size), buf+=row_size;
   }
 }
 
-- 
2.43.0


From 47b8126d222e40db0bdc29ef0d655264968472f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 24/26] fix: findpts: strided arguments more than 4 GB long
 (offsets wrapped at 32 bits)

---
 src/findpts_imp.h       | 4 ++--
 src/findpts_local_imp.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index ed8f920..11fd3e5 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -405,7 +405,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
   }
   /* merge remote results with user data */
   {
-    #define  AT(T,var,i) (T*)((char*)var##_base+(i)*var##_stride)
+    #define  AT(T,var,i) (T*)((char*)var##_base+(size_t)(i)*var##_stride)
     uint n=out_pt.n;
     struct out_pt *opt;
     if (fd->local.ims==1) {
@@ -663,7 +663,7 @@ void findptsms_eval(
   }
   /* copy results to user data */
   {
-    #define  AT(T,var,i) (T*)((char*)var##_base+(i)*var##_stride)
+    #define  AT(T,var,i) (T*)((char*)var##_base+(size_t)(i)*var##_stride)
     uint n=outpt.n;
     struct eval_out_pt *opt;
     for(opt=outpt.ptr;n;--n,++opt) *AT(double,out,opt->index)=opt->out;
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 976021c..150fbf7 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -247,11 +247,11 @@ void findptsms_local_free(struct findpts_local_data *const fd)
 }
 
 #define   AT(T,var,i)   \
-        (T*)(      (char*)var##_base   +(i)*var##_stride   )
+        (T*)(      (char*)var##_base   +(size_t)(i)*var##_stride   )
 #define  CAT(T,var,i) \
-  (const T*)((const char*)var##_base   +(i)*var##_stride   )
+  (const T*)((const char*)var##_base   +(size_t)(i)*var##_stride   )
 #define CATD(T,var,i,d) \
-  (const T*)((const char*)var##_base[d]+(i)*var##_stride[d])
+  (const T*)((const char*)var##_base[d]+(size_t)(i)*var##_stride[d])
 
 static void map_points_to_els(
   struct array *const               map,
-- 
2.43.0


From 4ac797a040e22e33c75cd9c87b5bd541a1dc39ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 25/26] fix: fgs_fields: fields 4 GB or more apart (stride in
 bytes wrapped at 32 bits)

---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 0efc616..b292f29 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1647,7 +1647,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[fgs_dom[*dom]];
+  offset = (size_t)*stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From 238ec3f6ba70d7f344d640e04176efea4c27b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 26/26] fix: reductions and scans of more than 4 GB (size
 wrapped at 32 bits)

---
 src/comm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/comm.c b/src/comm.c
index 60ce5b9..72c284b 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -20,7 +20,7 @@ static void scan_imp(void *scan, const struct comm *com, gs_dom dom, gs_op op,
                      const void *v, uint vn, void *buffer)
 {
   comm_req req[2];
-  size_t vsize = vn*gs_dom_size[dom];
+  size_t vsize = (size_t)vn*gs_dom_size[dom];
   const uint id=com->id, np=com->np;
   uint n = np, c=1, odd=0, base=0;
   void *buf[2];
@@ -67,7 +67,7 @@ static void scan_imp(void *scan, const struct comm *com, gs_dom dom, gs_op op,
 static void allreduce_imp(const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
-  size_t total_size = vn*gs_dom_size[dom];
+  size_t total_size = (size_t)vn*gs_dom_size[dom];
   const uint id=com->id, np=com->np;
   uint n = np, c=1, odd=0, base=0;
   while(n>1) {
@@ -130,7 +130,7 @@ void comm_allreduce(const struct comm *com, gs_dom dom, gs_op op,
                  default:        goto comm_allreduce_byhand;
     }
     MPI_Allreduce(v,buf,vn,mpitype,mpiop,com->c);
-    memcpy(v,buf,vn*gs_dom_size[dom]);
+    memcpy(v,buf,(size_t)vn*gs_dom_size[dom]);
     return;
   }
 #endif
@@ -180,7 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
-  memcpy(buf,v,vn*gs_dom_size[dom]); /* result expected in buf */
+  memcpy(buf,v,(size_t)vn*gs_dom_size[dom]); /* result expected in buf */
 #endif
 }
 
-- 
2.43.0

