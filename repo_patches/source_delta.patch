From 39863853a72f1f61c0f8490f4ac8c372bb9697bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:03 +0000
Subject: [PATCH 01/23] fix: 2d memcpy packing copied doubles also in single
 precision

pack_2d_memcpy and unpack_2d_memcpy used sizeof(double) for rows of
PACK_DATA, reading and writing twice the row length when the library is
built with -DFFT_SINGLE (the 3d versions already use PACK_DATA).
---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From b3a7ba70ed1a53529e9b83eeb4828d78b771482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:13 +0000
Subject: [PATCH 02/23] fix: out-of-place FFT without a first remap copied only
 half of the data

---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..108d44d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..82d8cdb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From 4cab32fb30895d20094e4e47145a819532c7ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:09 +0000
Subject: [PATCH 03/23] fix: scaling of a backward FFT covered the output
 tile's size, not the input tile's

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 108d44d..a6fa25b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 82d8cdb..c0de1d7 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From 03548089044ada9d3d971d5d9f5b0bb6c9b9450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:47 +0000
Subject: [PATCH 04/23] fix: last remap of an out-of-place backward FFT read
 the input buffer

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index a6fa25b..13eb63d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index c0de1d7..d4491ce 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From ea45e5bfb0fd8adeeb54c986933cbd94bbb835e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 05/23] fix: message buffers ignored the brick-to-pencil remap
 of the backward 3d FFT

---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d4491ce..c9e3ef7 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From ae420febc020ebe8d7b2f20f9f7afdfafbf71f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 06/23] fix: Fortran setup_memory passed the addresses of the
 buffer pointers

---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 5433040f697db4a0ce7cf8c8ba38fc94ba8200f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 07/23] fix: second stage of a brick exchange remap read the
 input of the first stage

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 13eb63d..f1ca061 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index c9e3ef7..3490805 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 10d704450babf8c40060d9b2d47ddfab74162d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:16 +0000
Subject: [PATCH 08/23] fix: tune() let each process choose settings by its own
 timings

---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index f1ca061..4ff6820 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -988,6 +988,10 @@ void FFT2d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time2d = time2-time1;
 
+  // insure all procs use exact same timing to choose best settings
+
+  MPI_Bcast(&time2d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 3490805..d53379c 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1047,6 +1047,10 @@ void FFT3d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time3d = time2-time1;
 
+  // insure all procs use exact same timing to choose best settings
+
+  MPI_Bcast(&time3d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
-- 
2.43.0


From 4924ec5374b21df3e1975af2aca9de00c82404bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:16 +0000
Subject: [PATCH 09/23] fix: destroying a 2d FFT that was never set up
 dereferenced a null pointer

---
 src/fft2d.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 4ff6820..c20dbeb 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,17 +183,7 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
+  if (setupflag) deallocate_setup();
 
   // only deallocated send/recv bufs if allocated internally
 
-- 
2.43.0


From 73b880b7f69964df6661207a9fbded1e7a765856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:59 +0000
Subject: [PATCH 10/23] fix: destroying a Remap that was never set up freed
 uninitialized handles

---
 src/remap2d.cpp | 6 ++++++
 src/remap3d.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..08c24b3 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,6 +90,12 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
+  memoryflag = 1;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..1d26152 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,6 +90,12 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
+  memoryflag = 1;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
-- 
2.43.0


From 5d06413c628581dcfcee1f3356e5e6c68edf1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:20 +0000
Subject: [PATCH 11/23] fix: tuning results of a 2d FFT were uninitialized
 before tuning

---
 src/fft2d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index c20dbeb..b9a5180 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
-- 
2.43.0


From a8d355458286db7184fea0b5a7eebe3e032223e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:39 +0000
Subject: [PATCH 12/23] fix: changing Remap's collective setting after setup
 took effect

---
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 08c24b3..0d1e0f9 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -96,6 +96,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   recvcnts = recvdispls = recvmap = NULL;
 
   memoryflag = 1;
+  collective_setup = 0;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
@@ -113,7 +114,7 @@ Remap2d::~Remap2d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collective_setup) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collective_setup) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -186,6 +187,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collective_setup = collective;
 
   // store parameters in local data structs
 
@@ -599,7 +601,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collective_setup) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..413cc61 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -46,6 +46,7 @@ class Remap2d {
 
   int permute;                      // permutation setting = 0,1
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collective_setup;             // collective setting when setup was called
 
   // point to point communication
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 1d26152..483e9db 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -96,6 +96,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   recvcnts = recvdispls = recvmap = NULL;
 
   memoryflag = 1;
+  collective_setup = 0;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
@@ -113,7 +114,7 @@ Remap3d::~Remap3d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collective_setup) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collective_setup) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -191,6 +192,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collective_setup = collective;
 
   // store parameters in local data structs
 
@@ -646,7 +648,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collective_setup) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..0e3eb56 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -47,6 +47,7 @@ class Remap3d {
 
   int permute;                      // permutation setting = 0,1,2
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collective_setup;             // collective setting when setup was called
 
   // point to point communication
 
-- 
2.43.0


From 17dd6b68f1eb76e210d6c36da3d7afa75b42ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 13/23] fix: changing an FFT's memory setting after setup took
 effect

---
 src/fft2d.cpp | 6 ++++--
 src/fft2d.h   | 1 +
 src/fft3d.cpp | 6 ++++--
 src/fft3d.h   | 1 +
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index b9a5180..87b4c27 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -175,6 +175,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  memoryflag_setup = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -193,7 +194,7 @@ FFT2d::~FFT2d()
 
   // only deallocated send/recv bufs if allocated internally
 
-  if (memoryflag) {
+  if (memoryflag_setup) {
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
@@ -428,6 +429,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  memoryflag_setup = memoryflag;
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -492,7 +494,7 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (memoryflag_setup) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..e876a83 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int memoryflag_setup;                // memoryflag when setup was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d53379c..d1ebcfb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  memoryflag_setup = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (memoryflag_setup) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -463,6 +464,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  memoryflag_setup = memoryflag;
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -530,7 +532,7 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (memoryflag_setup) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..b675c95 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int memoryflag_setup;                // memoryflag when setup was called
 
   class Memory *memory;
   class Error *error;
-- 
2.43.0


From 6c5ab022ec963a440e67dfbc17caaec656bb146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 14/23] fix: tune() could run more FFTs per trial than
 requested to stay below a time limit

---
 src/fft2d.cpp | 4 +++-
 src/fft3d.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 87b4c27..99e2523 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -694,9 +694,10 @@ void FFT2d::tune(int user_nfast, int user_nslow,
     error->all("Invalid niter/tmax args for FFT tune");
   if (tflag < 0 || tflag > 1) error->all("Invalid tflag arg for FFT tune");
 
-  // preserve user memoryflag setting since will override below
+  // preserve user memoryflag and niter settings since will override below
 
   int user_memoryflag = memoryflag;
+  int user_niter = niter;
 
   // local data memory for tune operation
 
@@ -760,6 +761,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
     if (niter <= 0) {
       tflag = 0;
       niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      niter = MIN(niter,user_niter);
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d1ebcfb..3806c19 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -745,9 +745,10 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
     error->all("Invalid niter/tmax args for FFT tune");
   if (tflag < 0 || tflag > 1) error->all("Invalid tflag arg for FFT tune");
 
-  // preserve user memoryflag setting since will override below
+  // preserve user memoryflag and niter settings since will override below
 
   int user_memoryflag = memoryflag;
+  int user_niter = niter;
 
   // local data memory for tune operation
 
@@ -813,6 +814,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
     if (niter <= 0) {
       tflag = 0;
       niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      niter = MIN(niter,user_niter);
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 679cce05d86a6b5d4a5ecb5a5a31bd30fbb87b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:45 +0000
Subject: [PATCH 15/23] fix: a second setup of a 2d FFT or of a Remap was not
 refused

---
 src/fft2d.cpp   | 1 +
 src/remap2d.cpp | 1 +
 src/remap3d.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 99e2523..ac9f9a3 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -231,6 +231,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 0d1e0f9..c162485 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -183,6 +183,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_2d in,out,overlap;
   struct extent_2d *inarray,*outarray;
 
+  if (setupflag) error->all("Remap is already setup");
   setupflag = 1;
 
   permute = user_permute;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 483e9db..ade7ec2 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -188,6 +188,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_3d in,out,overlap;
   struct extent_3d *inarray,*outarray;
 
+  if (setupflag) error->all("Remap is already setup");
   setupflag = 1;
 
   permute = user_permute;
-- 
2.43.0


From b9781e184e1b573a6db4c723d973c10f5f43a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:58 +0000
Subject: [PATCH 16/23] fix: setup did not check the output indices and tiling
 of an FFT

---
 src/fft2d.cpp | 9 +++++++++
 src/fft3d.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index ac9f9a3..b1c8acd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -261,6 +261,9 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1) flag = 1;
   if (in_ilo < 0 || in_jlo < 0) flag = 1;
   if (in_ihi >= nfast || in_jhi >= nslow) flag = 1;
+  if (out_ilo > out_ihi+1 || out_jlo > out_jhi+1) flag = 1;
+  if (out_ilo < 0 || out_jlo < 0) flag = 1;
+  if (out_ihi >= nfast || out_jhi >= nslow) flag = 1;
 
   MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);
 
@@ -270,6 +273,12 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   bigint nall;
   MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
 
+  if (nall != ((bigint) nfast * nslow))
+    error->all("FFT setup in/out indices do not tile grid");
+
+  n = (bigint) (out_ihi-out_ilo+1) * (out_jhi-out_jlo+1);
+  MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
+
   if (nall != ((bigint) nfast * nslow))
     error->all("FFT setup in/out indices do not tile grid");
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 3806c19..04afa70 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -261,6 +261,9 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1 || in_klo > in_khi+1) flag = 1;
   if (in_ilo < 0 || in_jlo < 0 || in_klo < 0) flag = 1;
   if (in_ihi >= nfast || in_jhi >= nmid || in_khi >= nslow) flag = 1;
+  if (out_ilo > out_ihi+1 || out_jlo > out_jhi+1 || out_klo > out_khi+1) flag = 1;
+  if (out_ilo < 0 || out_jlo < 0 || out_klo < 0) flag = 1;
+  if (out_ihi >= nfast || out_jhi >= nmid || out_khi >= nslow) flag = 1;
 
   MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);
 
@@ -270,6 +273,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   bigint nall;
   MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
 
+  if (nall != ((bigint) nfast * nmid*nslow))
+    error->all("FFT setup in/out indices do not tile grid");
+
+  n = (bigint) (out_ihi-out_ilo+1) * (out_jhi-out_jlo+1) * (out_khi-out_klo+1);
+  MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
+
   if (nall != ((bigint) nfast * nmid*nslow))
     error->all("FFT setup in/out indices do not tile grid");
 
-- 
2.43.0


From b36cc87a7a2c94fd8f8e287564241a13cb74559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:58 +0000
Subject: [PATCH 17/23] fix: setup accepted an FFT permutation that is not
 allowed

---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index b1c8acd..84ecbb2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -255,6 +255,10 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (!prime_factorable(nfast)) error->all("Invalid nfast");
   if (!prime_factorable(nslow)) error->all("Invalid nslow");
 
+  // only allowed permutations
+
+  if (permute < 0 || permute > 1) error->all("Invalid FFT permute setting");
+
   // error checks in indices and tiling
 
   flag = 0;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 04afa70..b272675 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -255,6 +255,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (!prime_factorable(nmid)) error->all("Invalid nmid");
   if (!prime_factorable(nslow)) error->all("Invalid nslow");
 
+  // only allowed permutations
+
+  if (permute < 0 || permute > 2) error->all("Invalid FFT permute setting");
+
   // error checks in indices and tiling
 
   flag = 0;
-- 
2.43.0


From b42388013fc181799487b133781c7ca1c49988a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:11 +0000
Subject: [PATCH 18/23] fix: a failed allocation of a Remap's process group
 went unnoticed

---
 src/remap2d.cpp | 6 ++++--
 src/remap3d.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index c162485..9f70140 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -398,9 +398,10 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
-    for (i = 0; i < nprocs; i++) pflag[i] = 0;
-
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag || !pgroup) error->one("Could not allocate remap group info");
+
+    for (i = 0; i < nprocs; i++) pflag[i] = 0;
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -453,6 +454,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (!pgroup && ngroup) error->one("Could not allocate remap group info");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index ade7ec2..5ef3c9e 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -445,9 +445,10 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
-    for (i = 0; i < nprocs; i++) pflag[i] = 0;
-
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag || !pgroup) error->one("Could not allocate remap group info");
+
+    for (i = 0; i < nprocs; i++) pflag[i] = 0;
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -500,6 +501,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (!pgroup && ngroup) error->one("Could not allocate remap group info");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
-- 
2.43.0


From 76cb65e266d7e487a99e84b907b8d92162d8a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:11 +0000
Subject: [PATCH 19/23] fix: a failed allocation of tune()'s trial data went
 unnoticed

---
 src/fft2d.cpp | 3 +++
 src/fft3d.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 84ecbb2..ef4f289 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -738,6 +738,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -867,6 +868,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -907,6 +909,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index b272675..1a8ec71 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -790,6 +790,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -921,6 +922,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -964,6 +966,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
-- 
2.43.0


From 438e0cf54a776c5d138b322fd15487e883e74410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 20/23] fix: failed allocations of KISS FFT plans and buffers
 went unnoticed

---
 src/fft2d.cpp | 10 ++++++++--
 src/fft3d.cpp | 11 +++++++++--
 src/kissfft.h | 12 ++++++++----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index ef4f289..229f2d7 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1484,6 +1484,10 @@ void FFT2d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward ||
+      !fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not allocate KISS FFT plan");
 }
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
@@ -1494,11 +1498,13 @@ void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
   if (flag == FORWARD) {
     kiss_fft_cfg plan_forward = plan->plan_forward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_forward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_forward,&data[offset],&data[offset]))
+        error->one("Could not allocate KISS FFT buffer");
   } else {
     kiss_fft_cfg plan_backward = plan->plan_backward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_backward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_backward,&data[offset],&data[offset]))
+        error->one("Could not allocate KISS FFT buffer");
   }
 }
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 1a8ec71..167421e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1691,6 +1691,11 @@ void FFT3d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward ||
+      !fft_mid->plan_forward || !fft_mid->plan_backward ||
+      !fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not allocate KISS FFT plan");
 }
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
@@ -1701,11 +1706,13 @@ void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
   if (flag == FORWARD) {
     kiss_fft_cfg plan_forward = plan->plan_forward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_forward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_forward,&data[offset],&data[offset]))
+        error->one("Could not allocate KISS FFT buffer");
   } else {
     kiss_fft_cfg plan_backward = plan->plan_backward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_backward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_backward,&data[offset],&data[offset]))
+        error->one("Could not allocate KISS FFT buffer");
   }
 }
 
diff --git a/src/kissfft.h b/src/kissfft.h
index b7964b1..544a60b 100644
--- a/src/kissfft.h
+++ b/src/kissfft.h
@@ -103,7 +103,7 @@ struct kiss_fft_state {
 #endif
 
 static kiss_fft_cfg kiss_fft_alloc(int,int,void *,size_t *);
-static void kiss_fft(kiss_fft_cfg,const FFT_DATA *,FFT_DATA *);
+static int kiss_fft(kiss_fft_cfg,const FFT_DATA *,FFT_DATA *);
 
 /*
   Explanation of macros dealing with complex math:
@@ -461,23 +461,27 @@ static kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse_fft, void *mem, size_t
     return st;
 }
 
-static void kiss_fft_stride(kiss_fft_cfg st, const FFT_DATA *fin, FFT_DATA *fout, int in_stride)
+// return 1 if successful, 0 if temp buffer could not be allocated
+
+static int kiss_fft_stride(kiss_fft_cfg st, const FFT_DATA *fin, FFT_DATA *fout, int in_stride)
 {
     if (fin == fout) {
         // NOTE: this is not really an in-place FFT algorithm
         // just performs an out-of-place FFT into a temp buffer
         FFT_DATA * tmpbuf = (FFT_DATA*)KISS_FFT_TMP_ALLOC( sizeof(FFT_DATA)*st->nfft);
+        if (!tmpbuf) return 0;
         kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
         memcpy(fout,tmpbuf,sizeof(FFT_DATA)*st->nfft);
         KISS_FFT_TMP_FREE(tmpbuf);
     }else{
         kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
+    return 1;
 }
 
-static void kiss_fft(kiss_fft_cfg cfg, const FFT_DATA *fin, FFT_DATA *fout)
+static int kiss_fft(kiss_fft_cfg cfg, const FFT_DATA *fin, FFT_DATA *fout)
 {
-    kiss_fft_stride(cfg,fin,fout,1);
+    return kiss_fft_stride(cfg,fin,fout,1);
 }
 
 #endif
-- 
2.43.0


From dc2ea6f1ef2467d96b9809d24b55f9cace363061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:57 +0000
Subject: [PATCH 21/23] fix: setup: bounds of the internal layouts overflowed
 int when process count times grid size exceeds 2^31

---
 src/fft2d.cpp | 16 ++++++++--------
 src/fft3d.cpp | 36 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 229f2d7..e6297aa 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -348,8 +348,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nslow/npfast2;
-    fast_jhi = (ipfast2+1)*nslow/npfast2 - 1;
+    fast_jlo = (bigint) ipfast2*nslow/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nslow/npfast2 - 1;
   }
 
   // remap from fast pencil layout to slow pencil layout
@@ -367,8 +367,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     slow_jlo = out_jlo;
     slow_jhi = out_jhi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
     slow_jlo = 0;
     slow_jhi = nslow - 1;
   }
@@ -390,10 +390,10 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nslow/npbrick2;
-    brick_jhi = (ipbrick2+1)*nslow/npbrick2 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nslow/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nslow/npbrick2 - 1;
   }
 
   // create Remap instances for 3 forward remaps
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 167421e..6c041f7 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -349,22 +349,22 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nmid/npfast2;
-    fast_jhi = (ipfast2+1)*nmid/npfast2 - 1;
-    fast_klo = ipfast3*nslow/npfast3;
-    fast_khi = (ipfast3+1)*nslow/npfast3 - 1;
+    fast_jlo = (bigint) ipfast2*nmid/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nmid/npfast2 - 1;
+    fast_klo = (bigint) ipfast3*nslow/npfast3;
+    fast_khi = (bigint) (ipfast3+1)*nslow/npfast3 - 1;
   }
 
   // remap from fast pencil layout to mid pencil layout
   // always needed, b/c permutation changes
   // mid indices = data layout before/after 2nd set of FFTs
 
-  mid_ilo = ipmid1*nfast/npmid1;
-  mid_ihi = (ipmid1+1)*nfast/npmid1 - 1;
+  mid_ilo = (bigint) ipmid1*nfast/npmid1;
+  mid_ihi = (bigint) (ipmid1+1)*nfast/npmid1 - 1;
   mid_jlo = 0;
   mid_jhi = nmid - 1;
-  mid_klo = ipmid3*nslow/npmid3;
-  mid_khi = (ipmid3+1)*nslow/npmid3 - 1;
+  mid_klo = (bigint) ipmid3*nslow/npmid3;
+  mid_khi = (bigint) (ipmid3+1)*nslow/npmid3 - 1;
 
   // remap from mid pencil layout to slow pencil layout
   // always needed, b/c permutation changes
@@ -383,10 +383,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     slow_klo = out_klo;
     slow_khi = out_khi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
-    slow_jlo = ipslow2*nmid/npslow2;
-    slow_jhi = (ipslow2+1)*nmid/npslow2 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
+    slow_jlo = (bigint) ipslow2*nmid/npslow2;
+    slow_jhi = (bigint) (ipslow2+1)*nmid/npslow2 - 1;
     slow_klo = 0;
     slow_khi = nslow - 1;
   }
@@ -409,12 +409,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nmid/npbrick2;
-    brick_jhi = (ipbrick2+1)*nmid/npbrick2 - 1;
-    brick_klo = ipbrick3*nslow/npbrick3;
-    brick_khi = (ipbrick3+1)*nslow/npbrick3 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nmid/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nmid/npbrick2 - 1;
+    brick_klo = (bigint) ipbrick3*nslow/npbrick3;
+    brick_khi = (bigint) (ipbrick3+1)*nslow/npbrick3 - 1;
   }
 
   // create Remap instances for 4 forward remaps
-- 
2.43.0


From b7c770d4d1df6e072799d4654b690d48e20e0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 22/23] fix: the message of an error on one process was lost
 when output is buffered

---
 src/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.cpp b/src/error.cpp
index e34476a..5ba95a1 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -55,6 +55,7 @@ void Error::one(const char *str)
   int me;
   MPI_Comm_rank(world,&me);
   printf("ERROR on proc %d: %s\n",me,str);
+  fflush(stdout);
   MPI_Abort(world,1);
 }
 
-- 
2.43.0


From 5b3a076826c2c36753ef901db46949ee42047262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 23/23] fix: FFTW3 crashed on caller arrays that are not
 aligned to 16 bytes

---
 src/fft2d.cpp |  8 ++++----
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e6297aa..843e4ea 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1427,17 +1427,17 @@ void FFT2d::setup_ffts()
   int n = fft_fast->n;
   fft_fast->plan_forward =
     FFTW_API(plan_many_dft)(1,&nfast,n,NULL,&nfast,1,nfast,NULL,&nfast,1,nfast,
-                            FFTW_FORWARD,FFTW_ESTIMATE);
+                            FFTW_FORWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   fft_fast->plan_backward =
     FFTW_API(plan_many_dft)(1,&nfast,n,NULL,&nfast,1,nfast,NULL,&nfast,1,nfast,
-                            FFTW_BACKWARD,FFTW_ESTIMATE);
+                            FFTW_BACKWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   n = fft_slow->n;
   fft_slow->plan_forward =
     FFTW_API(plan_many_dft)(1,&nslow,n,NULL,&nslow,1,nslow,NULL,&nslow,1,nslow,
-                            FFTW_FORWARD,FFTW_ESTIMATE);
+                            FFTW_FORWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   fft_slow->plan_backward =
     FFTW_API(plan_many_dft)(1,&nslow,n,NULL,&nslow,1,nslow,NULL,&nslow,1,nslow,
-                            FFTW_BACKWARD,FFTW_ESTIMATE);
+                            FFTW_BACKWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
 }
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 6c041f7..e2710b8 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1614,24 +1614,24 @@ void FFT3d::setup_ffts()
   int n = fft_fast->n;
   fft_fast->plan_forward =
     FFTW_API(plan_many_dft)(1,&nfast,n,NULL,&nfast,1,nfast,NULL,&nfast,1,nfast,
-                            FFTW_FORWARD,FFTW_ESTIMATE);
+                            FFTW_FORWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   fft_fast->plan_backward =
     FFTW_API(plan_many_dft)(1,&nfast,n,NULL,&nfast,1,nfast,NULL,&nfast,1,nfast,
-                            FFTW_BACKWARD,FFTW_ESTIMATE);
+                            FFTW_BACKWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   n = fft_mid->n;
   fft_mid->plan_forward =
     FFTW_API(plan_many_dft)(1,&nmid,n,NULL,&nmid,1,nmid,NULL,&nmid,1,nmid,
-                            FFTW_FORWARD,FFTW_ESTIMATE);
+                            FFTW_FORWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   fft_mid->plan_backward =
     FFTW_API(plan_many_dft)(1,&nmid,n,NULL,&nmid,1,nmid,NULL,&nmid,1,nmid,
-                            FFTW_BACKWARD,FFTW_ESTIMATE);
+                            FFTW_BACKWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   n = fft_slow->n;
   fft_slow->plan_forward =
     FFTW_API(plan_many_dft)(1,&nslow,n,NULL,&nslow,1,nslow,NULL,&nslow,1,nslow,
-                            FFTW_FORWARD,FFTW_ESTIMATE);
+                            FFTW_FORWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
   fft_slow->plan_backward =
     FFTW_API(plan_many_dft)(1,&nslow,n,NULL,&nslow,1,nslow,NULL,&nslow,1,nslow,
-                            FFTW_BACKWARD,FFTW_ESTIMATE);
+                            FFTW_BACKWARD,FFTW_ESTIMATE | FFTW_UNALIGNED);
 }
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
-- 
2.43.0

