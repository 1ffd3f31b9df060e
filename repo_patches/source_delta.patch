From ce073d850bf2fa68787c3679fd1f7b7c28ce8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:10 +0000
Subject: [PATCH 01/28] fix: never search for more neighbors than there are
 other points

With k >= n the unused heap entries (id 0, infinite distance) were clipped
against as if they were neighbor 0, giving duplicate or spurious neighbors.
---
 src/votess.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..0db9a79 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -681,6 +681,13 @@ tesellate(
   const auto& refset = xyzset;
   const size_t refsize = refset.size();
 
+  // A point has at most refsize - 1 neighbors. A larger k would leave unused
+  // heap entries behind, which read as neighbor 0.
+  const int kmax = refsize > 2 ? static_cast<int>(refsize) - 1 : 1;
+  if (args["k"].get<int>() > kmax) {
+    args["k"] = kmax;
+  }
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From 889cf5bd94bcc73ea8a988a703d94d9a371e4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:10 +0000
Subject: [PATCH 02/28] fix: keep the grid cell of coordinates just below 1
 inside the grid

x / (1.0f / gr) can round up to gr (for example gr = 41 and x close to 1),
which put the point into the next row of cells or past the offset table.
---
 src/xyzset.ipp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..73589cf 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -24,11 +24,17 @@ sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
   std::vector<T1> id(xyzset.size());
   std::vector<T1> offset(0,0);
   
+  // coordinates just below 1 can round up to cell gr
+  const T1 last = std::max(gr - 1, 0);
+  const auto cell = [last, gl](const T2 x) {
+    return std::min(static_cast<T1>(std::floor(x / gl)), last);
+  };
+
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    id[i] = cell(xyzset[i][0])
+          + cell(xyzset[i][1]) * gr  
+          + cell(xyzset[i][2]) * gr * gr; 
   };
   
   // sort
-- 
2.43.0


From 84569bdaa9a59e71a36ef19774e2c335b8801d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 03/28] fix: recompute keeps the states of the cells it does
 not recompute

All states were reset before the loop ended, so that the report counted every
cell as failed once all of them were complete.
---
 src/votess.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 0db9a79..192add2 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -555,7 +555,7 @@ __cpu__recompute(
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < refsize; i++) states[i].reset();
+    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
 
     if (subsize <= 0) {
       break;
-- 
2.43.0


From 6f70a0506e19f6519af31284b76eb4ec6081a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 04/28] fix: recompute of a single point does not search for 0
 neighbors

k became 0 and the search read the root of an empty heap.
---
 src/votess.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 192add2..d81140c 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -526,6 +526,8 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
+  const int kmax = refsize > 2 ? refsize - 1 : 1;
+
   std::vector<Ti> heap_id(subsize * k, 0);
   std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
   std::vector<Ti> dknn(subsize * k, __INTERNAL__K_UNDEFINED);
@@ -561,7 +563,7 @@ __cpu__recompute(
       break;
     }
 
-    k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
+    k = (k * 2) > kmax ? kmax : k * 2;
     p_maxsize *= update_p_maxsize ? 2 : 1;
     t_maxsize *= update_t_maxsize ? 2 : 1;
 
@@ -622,7 +624,7 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
+    if (k >= kmax) {
       break;
     }
 
-- 
2.43.0


From 1c28b71e69c5dc068d882554416f2df568f4e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 05/28] fix: recompute keeps growing the cell capacities once k
 is at its maximum

The loop ended as soon as k reached n - 1, leaving the raw candidate list as
the row of every cell that had overflowed in that round.
---
 src/votess.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index d81140c..327e048 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -527,6 +527,8 @@ __cpu__recompute(
   int t_maxsize = args["cc_t_maxsize"];
 
   const int kmax = refsize > 2 ? refsize - 1 : 1;
+  const int p_limit = std::numeric_limits<Tu>::max();
+  const int t_limit = 2 * p_limit;
 
   std::vector<Ti> heap_id(subsize * k, 0);
   std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
@@ -624,8 +626,16 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
+    // k can not grow any further, but the space for a cell may still do so
+    // (up to what the index type of a plane can address).
     if (k >= kmax) {
-      break;
+      bool retry = false;
+      for (Ti i = 0; i < subsize; i++) {
+        const auto& s = states[indices[i]];
+        if (s.get(cc::error_p_overflow) && p_maxsize < p_limit) retry = true;
+        if (s.get(cc::error_t_overflow) && t_maxsize < t_limit) retry = true;
+      }
+      if (!retry) break;
     }
 
   }
-- 
2.43.0


From 3032b9e1e33d06113ab14fca41fa5f270dfd4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 06/28] fix: plane capacities of 256 and more neither hang nor
 alias plane 255

The duplicate search in the boundary ran over a uint8_t up to the capacity,
which never ends from 256 on, and plane indices wrapped onto the 'undefined'
marker of the cycle. Capacities are no longer truncated to 16 bits either.
---
 src/boundary.ipp | 12 ++++++------
 src/cc.ipp       | 30 +++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 03432ba..4f3f98f 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -193,10 +193,10 @@ inline boundary::bstatus boundary::compute(
     }
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
@@ -251,7 +251,7 @@ inline boundary::bstatus boundary::compute(
     cycle[dr_offs + head] = triangle_edge_1;
   }
   
-  Tu swap_j = r_size;
+  Ti swap_j = r_size;
   for (Ti j = 1; j < r_size; j++) {
   
     struct vstatus stat;
@@ -264,7 +264,7 @@ inline boundary::bstatus boundary::compute(
   
       uint8_t edge = cycle[dr_offs + first];
   
-      Tu counter = 0;
+      Ti counter = 0;
       while (true) {
         head = edge;
   
@@ -331,11 +331,11 @@ inline boundary::bstatus boundary::compute(
   
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..307c42b 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -32,8 +32,12 @@ void cci::compute(
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
   const unsigned short int k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
+
+  // plane indices must fit Tu and differ from boundary::bstatus::undefined
+  const int p_limit = p_maxsize < boundary::bstatus::undefined ?
+                      p_maxsize : boundary::bstatus::undefined;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -135,7 +139,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_limit) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -255,8 +259,12 @@ void cci::compute(
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
   const unsigned short int k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
+
+  // plane indices must fit Tu and differ from boundary::bstatus::undefined
+  const int p_limit = p_maxsize < boundary::bstatus::undefined ?
+                      p_maxsize : boundary::bstatus::undefined;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -358,7 +366,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_limit) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -482,8 +490,12 @@ void cci::compute(
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
   const unsigned short int k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
+
+  // plane indices must fit Tu and differ from boundary::bstatus::undefined
+  const int p_limit = p_maxsize < boundary::bstatus::undefined ?
+                      p_maxsize : boundary::bstatus::undefined;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -585,7 +597,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_limit) {
         state.set_true(cc::error_p_overflow);
         return;
       }
-- 
2.43.0


From f6591318be75eff100eecbf7ba45c17fe5465af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 07/28] fix: k is not truncated to 16 bits in the cell
 computation

Recompute raises k up to n - 1; at 65536 the cell code saw k = 0 and returned
the unfiltered candidates.
---
 src/cc.ipp  | 6 +++---
 src/knn.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 307c42b..6420708 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -31,7 +31,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const int p_maxsize = args.p_maxsize;
   const int t_maxsize = args.t_maxsize;
 
@@ -258,7 +258,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const int p_maxsize = args.p_maxsize;
   const int t_maxsize = args.t_maxsize;
 
@@ -489,7 +489,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const int p_maxsize = args.p_maxsize;
   const int t_maxsize = args.t_maxsize;
 
diff --git a/src/knn.ipp b/src/knn.ipp
index 3137d57..7ca3225 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -246,7 +246,7 @@ void knni::compute(
   const Tf q1 = refset[refsize * 1 + index];
   const Tf q2 = refset[refsize * 2 + index];
 
-  const uint16_t k = args.k;
+  const int k = args.k;
   const uint8_t gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
-- 
2.43.0


From 3d9cc5e92ee68eab01b12384ee6916b8ab74f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 08/28] fix: grid resolutions of 256 and more work on the
 device

The resolution was truncated to 8 bits there (256 divides by zero).
---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index 7ca3225..0a42392 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -247,7 +247,7 @@ void knni::compute(
   const Tf q2 = refset[refsize * 2 + index];
 
   const int k = args.k;
-  const uint8_t gr = args.grid_resolution;
+  const int gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
   const uint16_t px = (id[index]) % gr;
@@ -263,7 +263,7 @@ void knni::compute(
   const Tf min_dz = dz * (dz <= gl2) + (gl - dz) * (dz > gl2);
   const Tf min = utils::bmin(min_dx, min_dy, min_dz);
 
-  for (uint8_t r = 0; r < gr; r++) {
+  for (int r = 0; r < gr; r++) {
 
     const uint16_t beg_z = utils::bmax(pz - r, 0);
     const uint16_t beg_y = utils::bmax(py - r, 0);
-- 
2.43.0


From 68d3e1ed30b490d4fc19c08c49c6bde1a1f76e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:39 +0000
Subject: [PATCH 09/28] fix: device states start from the host's and survive
 between chunks

The buffer was never initialised and discarded by no_init in every chunk, so
that reports and recompute worked on garbage.
---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 327e048..7a143a7 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -229,7 +229,7 @@ __gpu__tesellate(
   sycl::buffer<Ti,1> bheap_id(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1> bheap_pq(sycl::range<1>(subsize * k));
 
-  sycl::buffer<cc::state,1> bstates((sycl::range<1>(xyzsize)));
+  sycl::buffer<cc::state,1> bstates(states.begin(), states.end());
   sycl::buffer<Ti,1>      bdknn(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
@@ -295,7 +295,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
-- 
2.43.0


From 1a69deb44d6fc44dcb065d809cb38783fccb29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:44 +0000
Subject: [PATCH 10/28] fix: number of points need not be a multiple of the
 device work size

SYCL requires the global range to be a multiple of the local one; any other
size threw. The global range is rounded up and surplus work items return.
---
 src/votess.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 7a143a7..a01784b 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -241,6 +241,7 @@ __gpu__tesellate(
     const size_t _cstart = run * chunksize;
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
+    if (subsize == 0) break;
 
     queue.submit([&](sycl::handler& cgh) {
       auto a = sycl::accessor(bheap_id, cgh, sycl::write_only, sycl::no_init);
@@ -279,6 +280,8 @@ __gpu__tesellate(
     auto args_cc = args.get_cc();
     auto args_knn = args.get_knn();
     
+    const size_t ngroups = (subsize + ndsize - 1) / ndsize;
+
     queue.submit([&](sycl::handler& cgh) {
 
       using namespace sycl;
@@ -304,12 +307,15 @@ __gpu__tesellate(
       auto aargs_cc = args_cc;
 
       cgh.parallel_for<class __sycl__tessellate>
-      (sycl::nd_range<1>(sycl::range<1>(subsize), sycl::range<1>(ndsize)),
+      (sycl::nd_range<1>(sycl::range<1>(ngroups * ndsize), 
+                         sycl::range<1>(ndsize)),
       [=](sycl::nd_item<1> it) {
 
         const size_t g_index = it.get_global_linear_id();
         const size_t l_index = it.get_local_linear_id();
 
+        if (g_index >= static_cast<size_t>(subsize)) return;
+
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-- 
2.43.0


From 20a758d5863e76d92d975bf6e7bfef158fbe92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 11/28] fix: device chunks read the coordinates with the stride
 of the whole set

With chunking, the chunk size was passed as the size of the reference set and
used as the stride of its coordinates, so that cells belonged to points that
do not exist. Planes keep the chunk's stride.
---
 src/cc.ipp     | 40 ++++++++++++++++++++--------------------
 src/votess.ipp |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 6420708..a738c30 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -511,10 +511,10 @@ void cci::compute(
   const Tf pz = refset[refsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
-    P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
-    P[4 * refsize * j + refsize * 1 + i] = p_init[4 * j + 1];
-    P[4 * refsize * j + refsize * 2 + i] = p_init[4 * j + 2];
-    P[4 * refsize * j + refsize * 3 + i] = p_init[4 * j + 3];
+    P[4 * koffs * j + koffs * 0 + i] = p_init[4 * j + 0];
+    P[4 * koffs * j + koffs * 1 + i] = p_init[4 * j + 1];
+    P[4 * koffs * j + koffs * 2 + i] = p_init[4 * j + 2];
+    P[4 * koffs * j + koffs * 3 + i] = p_init[4 * j + 3];
   }
 
   for (Ti j = 0; j < t_initsize; j++) {
@@ -544,20 +544,20 @@ void cci::compute(
       const Tu& t1 = T[3 * t_maxsize * i + t_index * 3 + 1];
       const Tu& t2 = T[3 * t_maxsize * i + t_index * 3 + 2];
   
-      const Tf& plane_00 = P[4 * refsize * t0 + refsize * 0 + i];
-      const Tf& plane_01 = P[4 * refsize * t0 + refsize * 1 + i];
-      const Tf& plane_02 = P[4 * refsize * t0 + refsize * 2 + i];
-      const Tf& plane_03 = P[4 * refsize * t0 + refsize * 3 + i];
+      const Tf& plane_00 = P[4 * koffs * t0 + koffs * 0 + i];
+      const Tf& plane_01 = P[4 * koffs * t0 + koffs * 1 + i];
+      const Tf& plane_02 = P[4 * koffs * t0 + koffs * 2 + i];
+      const Tf& plane_03 = P[4 * koffs * t0 + koffs * 3 + i];
 
-      const Tf& plane_10 = P[4 * refsize * t1 + refsize * 0 + i];
-      const Tf& plane_11 = P[4 * refsize * t1 + refsize * 1 + i];
-      const Tf& plane_12 = P[4 * refsize * t1 + refsize * 2 + i];
-      const Tf& plane_13 = P[4 * refsize * t1 + refsize * 3 + i];
+      const Tf& plane_10 = P[4 * koffs * t1 + koffs * 0 + i];
+      const Tf& plane_11 = P[4 * koffs * t1 + koffs * 1 + i];
+      const Tf& plane_12 = P[4 * koffs * t1 + koffs * 2 + i];
+      const Tf& plane_13 = P[4 * koffs * t1 + koffs * 3 + i];
 
-      const Tf& plane_20 = P[4 * refsize * t2 + refsize * 0 + i];
-      const Tf& plane_21 = P[4 * refsize * t2 + refsize * 1 + i];
-      const Tf& plane_22 = P[4 * refsize * t2 + refsize * 2 + i];
-      const Tf& plane_23 = P[4 * refsize * t2 + refsize * 3 + i];
+      const Tf& plane_20 = P[4 * koffs * t2 + koffs * 0 + i];
+      const Tf& plane_21 = P[4 * koffs * t2 + koffs * 1 + i];
+      const Tf& plane_22 = P[4 * koffs * t2 + koffs * 2 + i];
+      const Tf& plane_23 = P[4 * koffs * t2 + koffs * 3 + i];
   
       // TODO : implement exception handling
       planes::intersect<Tf>(
@@ -602,10 +602,10 @@ void cci::compute(
         return;
       }
 
-      P[4 * refsize * p_size + refsize * 0 + i] = bisector[0];
-      P[4 * refsize * p_size + refsize * 1 + i] = bisector[1];
-      P[4 * refsize * p_size + refsize * 2 + i] = bisector[2];
-      P[4 * refsize * p_size + refsize * 3 + i] = bisector[3];
+      P[4 * koffs * p_size + koffs * 0 + i] = bisector[0];
+      P[4 * koffs * p_size + koffs * 1 + i] = bisector[1];
+      P[4 * koffs * p_size + koffs * 2 + i] = bisector[2];
+      P[4 * koffs * p_size + koffs * 3 + i] = bisector[3];
       dknn[koffs * neighbor + i] = p_size;
       p_size += 1;
   
diff --git a/src/votess.ipp b/src/votess.ipp
index a01784b..a4740c8 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -319,7 +319,7 @@ __gpu__tesellate(
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aheap_id, aheap_pq, subsize,
           aargs_knn
         );
@@ -332,7 +332,7 @@ __gpu__tesellate(
           aheap_id, subsize,
           adknn,
           axyzset, xyzsize,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aargs_cc
         );
         #endif
-- 
2.43.0


From 8c30686a22f5785409a67c0ee08929f15fc77900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:30 +0000
Subject: [PATCH 12/28] fix: print and savetxt write one line per row, also for
 empty rows

Rows without neighbors were merged into the next one, so that later lines no
longer belonged to their point; the size of a default constructed dnn wrapped.
---
 src/dnn.ipp | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..666f4e0 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -76,32 +76,26 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
 void votess::dnn<Ti>::print() const {
 
-  if (this->list.empty()) {
+  if (this->size() == 0) {
     std::cout<<"{}"<<std::endl;
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  std::cout<<"{\n  {";
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      std::cout << "}\n  {";
+  std::cout<<"{\n";
+  for (size_t row = 0; row < this->size(); row++) {
+    std::cout<<"  {";
+    for (Ti j = this->offs[row]; j < this->offs[row + 1]; j++) {
+      std::cout<<std::setw(1)<<this->list[j]<<", ";
     }
-
-    std::cout<<std::setw(1)<<i<<", ";
-    index += 1;
+    std::cout<<"}\n";
   }
-  std::cout << "}\n}" << std::endl;
+  std::cout << "}" << std::endl;
 
 }
 
@@ -113,19 +107,12 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      fp<<"\n";
+  for (size_t row = 0; row < this->size(); row++) {
+    for (Ti j = this->offs[row]; j < this->offs[row + 1]; j++) {
+      fp<<std::setw(1)<<this->list[j]<<" ";
     }
-    fp<<std::setw(1)<<i<<" ";
-    index += 1;
+    fp<<"\n";
   }
-  fp<<"\n";
   fp.close();
 }
 
-- 
2.43.0


From dfc044493a7d7f1c5d784230af23a8dea0302c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:32 +0000
Subject: [PATCH 13/28] fix: rows of a const dnn can be read

The const operator[] is declared but did not compile.
---
 src/dnn.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 666f4e0..6e038c7 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -65,7 +65,9 @@ votess::dnn<Ti>::dnn(std::vector<Ti>&& _list, std::vector<Ti>&& _offs)
 template<typename Ti>
 const typename votess::dnn<Ti>::proxy 
 votess::dnn<Ti>::operator[](const int i) const {
-  return proxy(list, offs, i);
+  // the proxy is const, and only hands out const elements
+  auto& self = const_cast<dnn<Ti>&>(*this);
+  return proxy(self.list, self.offs, i);
 }
 
 template<typename Ti>
@@ -125,6 +127,7 @@ class votess::dnn<T>::proxy {
   public:
     proxy(std::vector<T>& list, std::vector<T>& offs, const size_t index);
     T& operator[](const size_t i);
+    const T& operator[](const size_t i) const;
     size_t size() const;
   private:
     std::vector<T>& _list;
@@ -143,6 +146,11 @@ T& votess::dnn<T>::proxy::operator[](const size_t i) {
   return _list[_offs[_index] + i];
 }
 
+template<typename T>
+const T& votess::dnn<T>::proxy::operator[](const size_t i) const {
+  return _list[_offs[_index] + i];
+}
+
 template<typename T>
 size_t votess::dnn<T>::proxy::size() const {
   if (_index == _offs.size() - 1) return _list.size() - _offs[_index];
-- 
2.43.0


From ee4c5b6aaa4ab4f879973e0dc5626b2a27ebf64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:33 +0000
Subject: [PATCH 14/28] fix: floating point parameters read back as they were
 written

They were kept with six digits, and 1e6 was stored as 1e+06, which reads back
as the integer 1.
---
 include/arguments.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a4e86fd..6dfb85d 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -46,7 +46,11 @@
 #include <sstream>
 #include <stdexcept>
 
+#include <cmath>
+#include <iomanip>
 #include <initializer_list>
+#include <limits>
+#include <type_traits>
 
 namespace args {
 
@@ -80,6 +84,21 @@ class vtargref {
     template <typename T>
     std::string to_str(const T v) const {
       std::ostringstream oss;
+      if constexpr (std::is_floating_point<T>::value) {
+        // whole numbers without exponent, so that they can be read back as
+        // integers; other values with as many digits as they need
+        if (v == std::trunc(v) && std::abs(v) < T(1e15)) {
+          oss << std::fixed << std::setprecision(0) << v;
+          return oss.str();
+        }
+        for (int p = 6; p <= std::numeric_limits<T>::max_digits10; p++) {
+          oss.str("");
+          oss << std::setprecision(p) << v;
+          T w;
+          if ((std::istringstream(oss.str()) >> w) && w == v) break;
+        }
+        return oss.str();
+      }
       oss << v;
       return oss.str();
     }
-- 
2.43.0


From 64f35cd11ff5a00a786cc5c578e42c5c11e1e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 15/28] fix: clvotess uses the device given with -x

The option was parsed and then ignored. The default stays the CPU, which is
what has been used so far.
---
 src/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..cb8ca50 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -75,7 +75,7 @@ parse_args(int argc, char* argv[]) {
 
   std::string infile = "";
   struct votess::vtargs vtargs;
-  votess::device device = votess::device::gpu;
+  votess::device device = votess::device::cpu;
 
   int k_init = ARGS_DEFAULT_K;
   int chunksize = ARGS_DEFAULT_CHUNKSIZE;
@@ -222,7 +222,7 @@ main(int argc, char* argv[]) {
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-- 
2.43.0


From 6174c691d4abcfa091d81d5d90c4346fc2350713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 16/28] fix: clvotess accepts the documented option --gridres

---
 src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.cpp b/src/main.cpp
index cb8ca50..23e585a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -93,6 +93,7 @@ parse_args(int argc, char* argv[]) {
     {"infile",            required_argument,  0,  'i'},
     {"use-device",        required_argument,  0,  'x'},
     {"k-init",            required_argument,  0,  'k'},
+    {"gridres",           required_argument,  0,  'g'},
     {"grid-resolution",   required_argument,  0,  'g'},
     {"cpu-nthreads",      required_argument,  0,  't'},
     {"gpu-ndsize",        required_argument,  0,  'd'},
-- 
2.43.0


From 41a8628f7e8992b56804da7c9bf5478a02f37b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 17/28] fix: python rows keep the result they belong to alive

reference_internal has no effect on objects returned by value, so that
tesellate(...)[i] referred to a destroyed result.
---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..d5dc521 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -63,7 +63,7 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From 8b7612913c2aa4cc14fe24e3e746e491ef2ce7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 18/28] fix: python indexing raises IndexError past the end

Nothing ended the iteration over a row or a result, which read on past the
end of the data.
---
 src/pybind11/pyvotess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index d5dc521..f07f74c 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -52,6 +52,9 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
   .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+    if (i < 0 || static_cast<size_t>(i) >= self.size()) {
+      throw pybind11::index_error("neighbor index out of range");
+    }
     return self[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("size", &votess::dnn<int>::proxy::size);
@@ -62,6 +65,9 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || static_cast<size_t>(i) >= instance.size()) {
+      throw pybind11::index_error("row index out of range");
+    }
     return instance[i];
   }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
-- 
2.43.0


From 5204410539c6ed78311b38af6b830b9b68d28de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 19/28] fix: python parameters can be read

vtargs.__getitem__ returned a type that was not registered and raised a
TypeError.
---
 src/pybind11/pyvotess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index f07f74c..bd6569e 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -24,6 +24,12 @@ pybind11::enum_<votess::device>(module, "device")
 /* votess::vtargs                                                            */
 /* ------------------------------------------------------------------------- */
 
+pybind11::class_<votess::vtargref>(module, "vtargref")
+  .def("__int__", &votess::vtargref::get<int>)
+  .def("__float__", &votess::vtargref::get<double>)
+  .def("__bool__", &votess::vtargref::get<bool>)
+  .def("__str__", &votess::vtargref::get<std::string>);
+
 pybind11::class_<votess::vtargs>(module, "vtargs")
   .def(pybind11::init<>())
   .def("__getitem__", [](votess::vtargs &self, const std::string &key) 
-- 
2.43.0


From 2f01944d739a56e2f07e18e40409dcea2550e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:41 +0000
Subject: [PATCH 20/28] trace: instrumentation points for verification, off
 unless VOTESS_TRACE is defined

---
 include/trace.hpp | 20 ++++++++++++++++++++
 src/votess.ipp    | 12 ++++++++++++
 2 files changed, 32 insertions(+)
 create mode 100644 include/trace.hpp

diff --git a/include/trace.hpp b/include/trace.hpp
new file mode 100644
index 0000000..8ec7347
--- /dev/null
+++ b/include/trace.hpp
@@ -0,0 +1,20 @@
+#ifndef TRACE_HPP
+#define TRACE_HPP
+
+///////////////////////////////////////////////////////////////////////////////
+/// Instrumentation                                                         ///
+///////////////////////////////////////////////////////////////////////////////
+
+// VOTESS_TRACE_EVENT(name, ...) marks the points at which a step of the
+// tessellation has taken effect. It expands to nothing unless VOTESS_TRACE is
+// defined, in which case the program that includes votess supplies the header
+// <votess_trace_sink.hpp> with the functions votess_trace::<name>(...).
+
+#ifdef VOTESS_TRACE
+#include <votess_trace_sink.hpp>
+#define VOTESS_TRACE_EVENT(name, ...) ::votess_trace::name(__VA_ARGS__)
+#else
+#define VOTESS_TRACE_EVENT(name, ...) ((void) 0)
+#endif
+
+#endif
diff --git a/src/votess.ipp b/src/votess.ipp
index a4740c8..780f1b1 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -1,6 +1,7 @@
 #include <arguments.hpp>
 #include <xyzset.hpp>
 #include <status.hpp>
+#include <trace.hpp>
 
 #include <knn.hpp>
 #include <cc.hpp>
@@ -436,6 +437,7 @@ __cpu__tesellate(
     for (Ti i = 0; i < subsize; i++) {
       indices[i] = _cstart + i;
     }
+    VOTESS_TRACE_EVENT(round, "chunk", indices.data(), subsize, k);
 
     const auto args_knn = args.get_knn();
     const auto args_cc  = args.get_cc();
@@ -449,6 +451,7 @@ __cpu__tesellate(
 
       threads[i] = std::thread([&,_tstart,_tend]() {
         for (size_t idx = _tstart; idx < _tend; idx++) {
+          VOTESS_TRACE_EVENT(take, idx, indices[idx]);
           knni::compute<Ti,Tf>(
             idx, indices[idx], 
             xyzset, xyzsize, id, offset, 
@@ -456,6 +459,7 @@ __cpu__tesellate(
             heap_id, heap_pq,
             args_knn
           );
+          VOTESS_TRACE_EVENT(found, indices[idx], &knn[k * idx], k);
 
           cci::compute<Ti, Tf, Tu>( 
             idx, indices[idx],
@@ -466,6 +470,7 @@ __cpu__tesellate(
             refset, subsize,
             args_cc
           );
+          VOTESS_TRACE_EVENT(cell, indices[idx], states[indices[idx]].byte);
         }
       });
 
@@ -473,6 +478,7 @@ __cpu__tesellate(
     for (auto& thread : threads) thread.join();
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
+    VOTESS_TRACE_EVENT(commit, indices.data(), subsize);
 
   }
 
@@ -593,6 +599,7 @@ __cpu__recompute(
     P.resize(subsize * p_maxsize * 4);
     T.resize(subsize * t_maxsize * 3);
     dR.resize(subsize * p_maxsize);
+    VOTESS_TRACE_EVENT(round, "recompute", indices.data(), subsize, k);
 
     const size_t threadsize  = subsize / nthreads;
 
@@ -607,6 +614,7 @@ __cpu__recompute(
 
       threads[i] = std::thread([&,_tstart,_tend]() {
         for (size_t idx = _tstart; idx < _tend; idx++) {
+          VOTESS_TRACE_EVENT(take, idx, indices[idx]);
           knni::compute<Ti,Tf>(
             idx, indices[idx], 
             xyzset, xyzsize, id, offset, 
@@ -614,6 +622,7 @@ __cpu__recompute(
             heap_id, heap_pq,
             args_knn
           );
+          VOTESS_TRACE_EVENT(found, indices[idx], &knn[k * idx], k);
 
           cci::compute<Ti, Tf, Tu>( 
             idx, indices[idx],
@@ -624,6 +633,7 @@ __cpu__recompute(
             refset, subsize,
             args_cc
           );
+          VOTESS_TRACE_EVENT(cell, indices[idx], states[indices[idx]].byte);
         }
       });
 
@@ -631,6 +641,7 @@ __cpu__recompute(
     for (auto& thread : threads) thread.join();
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
+    VOTESS_TRACE_EVENT(commit, indices.data(), subsize);
 
     // k can not grow any further, but the space for a cell may still do so
     // (up to what the index type of a plane can address).
@@ -710,6 +721,7 @@ tesellate(
   std::vector<struct cc::state> states(refsize);
 
   for (size_t i = 0; i < states.size(); i++) states[i].reset();
+  VOTESS_TRACE_EVENT(call, refsize);
 
   switch (device) {
 
-- 
2.43.0


From 5d9378529c1693bac067df9b463348574f1fa8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:26 +0000
Subject: [PATCH 21/28] fix: python floats are not narrowed to single precision

args['chunksize'] = 16777217.0 was stored as 16777216.
---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index bd6569e..42fdc71 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -42,7 +42,7 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
     if (pybind11::isinstance<pybind11::int_>(value)) {
       self[key] = value.cast<int>();
     } else if (pybind11::isinstance<pybind11::float_>(value)) {
-      self[key] = value.cast<float>();
+      self[key] = value.cast<double>();
     } else if (pybind11::isinstance<pybind11::str>(value)) {
       self[key] = value.cast<std::string>();
     } else if (pybind11::isinstance<pybind11::bool_>(value)) {
-- 
2.43.0


From 3b4031f7ad2beefbdef9067261900cc706139e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:09 +0000
Subject: [PATCH 22/28] fix: whole numbers of 1e15 and more read back as
 integers too

a["chunksize"] = 1e15 was stored as 1e+15, which reads back as 1.
---
 include/arguments.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index 6dfb85d..378e6aa 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -87,7 +87,7 @@ class vtargref {
       if constexpr (std::is_floating_point<T>::value) {
         // whole numbers without exponent, so that they can be read back as
         // integers; other values with as many digits as they need
-        if (v == std::trunc(v) && std::abs(v) < T(1e15)) {
+        if (v == std::trunc(v) && std::abs(v) < T(1e19)) {
           oss << std::fixed << std::setprecision(0) << v;
           return oss.str();
         }
-- 
2.43.0


From 983f3a863fcc1e10d03d4165705626ca95232e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:16 +0000
Subject: [PATCH 23/28] fix: clvotess reports an input it can not read

A directory given as input file was taken for an empty set of points.
---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 23e585a..54c8b86 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -215,6 +215,11 @@ main(int argc, char* argv[]) {
     xyzset.push_back(point);
 
   }
+
+  if (file.bad()) {
+    std::cerr << "Error: Could not read file: " << infile << std::endl;
+    return 1;
+  }
   
   if (vtargs["k"].get<int>() == 0) {
 
-- 
2.43.0


From 0047400dd61cfcae64e051796d2bc1a65a4bd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:34 +0000
Subject: [PATCH 24/28] fix: working storage larger than the index type is
 addressed correctly

Sizes and offsets of the working storage (points times k, planes or vertices)
were computed in Ti or int and overflowed although every index of a point, and
the result, fits that type.
---
 include/boundary.hpp |  8 ++++----
 include/cc.hpp       |  8 ++++----
 include/heap.hpp     |  6 +++---
 include/knn.hpp      |  8 ++++----
 src/boundary.ipp     |  8 ++++----
 src/cc.ipp           | 14 +++++++-------
 src/heap.ipp         |  6 +++---
 src/knn.ipp          | 12 ++++++------
 src/votess.ipp       | 20 ++++++++++----------
 9 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/include/boundary.hpp b/include/boundary.hpp
index 5b4259a..a446fb9 100644
--- a/include/boundary.hpp
+++ b/include/boundary.hpp
@@ -44,11 +44,11 @@ enum bstatus : unsigned char {
 template<typename Ti, typename Tu>
 inline bstatus compute(
   Tu* cycle, 
-  const Ti dr_offs,
+  const size_t dr_offs,
   const Ti dr_size,
   short int& head,
   Tu* R,
-  const Ti r_offs,
+  const size_t r_offs,
   const Ti r_size
 );
 
@@ -59,11 +59,11 @@ inline bstatus compute(
 template<typename Ti, typename Tu>
 inline bstatus compute(
   const sycl::local_accessor<Tu, 1>& cycle,
-  const Ti dr_offs,
+  const size_t dr_offs,
   const Ti dr_size,
   short int& head,
   const device_accessor_readwrite_t<Tu>& R, 
-  const Ti r_offs,
+  const size_t r_offs,
   const Ti r_size
 );
 
diff --git a/include/cc.hpp b/include/cc.hpp
index a9d0ccc..1312c6c 100644
--- a/include/cc.hpp
+++ b/include/cc.hpp
@@ -22,7 +22,7 @@ namespace cci {
 /* ------------------------------------------------------------------------- */
 template <typename Ti, typename Tf, typename Tu>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   std::vector<cc::state>& states,
   Tf* P, Tu* T, Tu* dR,
   std::vector<Ti>& knn,
@@ -40,7 +40,7 @@ void compute(
 
 template <typename Ti, typename Tf, typename Tu>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const device_accessor_readwrite_t<cc::state>& states, 
   const device_accessor_readwrite_t<Tf>& P,
   const device_accessor_readwrite_t<Tu>& T,
@@ -59,12 +59,12 @@ void compute(
 
 template <typename Ti, typename Tf, typename Tu>
 void compute(
-  const Ti i, const Ti l_i, const Ti index,
+  const size_t i, const size_t l_i, const Ti index,
   const device_accessor_readwrite_t<cc::state>& states, 
   const device_accessor_readwrite_t<Tf>& P,
   const device_accessor_readwrite_t<Tu>& T,
   const sycl::local_accessor<Tu, 1>& dR,
-  const device_accessor_readwrite_t<Ti>& knn, const Ti koffs,
+  const device_accessor_readwrite_t<Ti>& knn, const size_t koffs,
   const device_accessor_readwrite_t<Ti>& dknn,
   const device_accessor_read_t<Tf>& xyzset,
   const Ti xyzsize,
diff --git a/include/heap.hpp b/include/heap.hpp
index d278627..c668fa8 100644
--- a/include/heap.hpp
+++ b/include/heap.hpp
@@ -73,7 +73,7 @@ template <typename Ti, typename Tf>
 inline void swap(
   const device_accessor_readwrite_t<Ti>& heap_id,
   const device_accessor_readwrite_t<Tf>& heap_pq,
-  const int s, const int i,
+  const size_t s, const size_t i,
   const int a, const int b
 );
  
@@ -81,7 +81,7 @@ template <typename Ti, typename Tf>
 inline void maxheapify(
   const device_accessor_readwrite_t<Ti>& heap_id,
   const device_accessor_readwrite_t<Tf>& heap_pq,
-  const int s, const int i,
+  const size_t s, const size_t i,
   const int k, int idx
 );
 
@@ -89,7 +89,7 @@ template <typename Ti, typename Tf>
 inline void sort(
   const device_accessor_readwrite_t<Ti>& heap_id,
   const device_accessor_readwrite_t<Tf>& heap_pq,
-  const int s, const int i,
+  const size_t s, const size_t i,
   const int k
 );
 
diff --git a/include/knn.hpp b/include/knn.hpp
index 70b505a..849d935 100644
--- a/include/knn.hpp
+++ b/include/knn.hpp
@@ -18,7 +18,7 @@ namespace knni {
 
 template <typename Ti, typename Tf>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const std::vector<std::array<Tf,3>>& xyzset,
   const Ti xyzsize,
   const std::vector<Ti>& id,
@@ -36,7 +36,7 @@ void compute(
 
 template <typename Ti, typename Tf>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const device_accessor_read_t<Tf>& xyzset,
   const Ti xyzsize,
   const device_accessor_read_t<Ti>& id,
@@ -52,7 +52,7 @@ void compute(
 
 template <typename Ti, typename Tf>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const device_accessor_read_t<Tf>& xyzset,
   const Ti xyzsize,
   const device_accessor_read_t<Ti>& id,
@@ -60,7 +60,7 @@ void compute(
   const device_accessor_read_t<Tf>& refset,
   const Ti refsize,
   const device_accessor_readwrite_t<Ti>& heap_id,
-  const device_accessor_readwrite_t<Tf>& heap_pq, const Ti hoffs,
+  const device_accessor_readwrite_t<Tf>& heap_pq, const size_t hoffs,
   const struct args::knn& args
 );
 
diff --git a/src/boundary.ipp b/src/boundary.ipp
index 4f3f98f..012450b 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -97,11 +97,11 @@ boundary::vstatus::get_shared_position(void) const {
 template<typename Ti, typename Tu>
 inline boundary::bstatus boundary::compute(
   Tu* cycle, 
-  const Ti dr_offs,
+  const size_t dr_offs,
   const Ti dr_size,
   short int& head,
   Tu* R,
-  const Ti r_offs,
+  const size_t r_offs,
   const Ti r_size
 ) {
 
@@ -235,11 +235,11 @@ inline boundary::bstatus boundary::compute(
 template<typename Ti, typename Tu>
 inline boundary::bstatus boundary::compute(
   const sycl::local_accessor<Tu, 1>& cycle,
-  const Ti dr_offs,
+  const size_t dr_offs,
   const Ti dr_size,
   short int& head,
   const device_accessor_readwrite_t<Tu>& R, 
-  const Ti  r_offs,
+  const size_t  r_offs,
   const Ti  r_size
 ) {
 
diff --git a/src/cc.ipp b/src/cc.ipp
index a738c30..c027fee 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -1,6 +1,6 @@
 template <typename Ti, typename Tf, typename Tu>
 void cci::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   std::vector<cc::state>& states,
   Tf* P,
   Tu* T,
@@ -151,7 +151,7 @@ void cci::compute(
       dknn[k * i + neighbor] = p_size;
       p_size += 1;
   
-      const Ti dr_offs = p_maxsize * i;
+      const size_t dr_offs = p_maxsize * i;
       for (Ti j = 0; j < p_maxsize; j++) {
         dR[dr_offs + j] = boundary::bstatus::undefined;
       }
@@ -230,7 +230,7 @@ void cci::compute(
 
 template <typename Ti, typename Tf, typename Tu>
 void cci::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const device_accessor_readwrite_t<cc::state>& states, 
   const device_accessor_readwrite_t<Tf>& P,
   const device_accessor_readwrite_t<Tu>& T,
@@ -378,7 +378,7 @@ void cci::compute(
       dknn[k * i + neighbor] = p_size;
       p_size += 1;
   
-      const Ti dr_offs = p_maxsize * i;
+      const size_t dr_offs = p_maxsize * i;
       for (Ti j = 0; j < p_maxsize; j++) {
         dR[dr_offs + j] = boundary::bstatus::undefined;
       }
@@ -461,12 +461,12 @@ void cci::compute(
 
 template <typename Ti, typename Tf, typename Tu>
 void cci::compute(
-  const Ti i, const Ti l_i, const Ti index,
+  const size_t i, const size_t l_i, const Ti index,
   const device_accessor_readwrite_t<cc::state>& states, 
   const device_accessor_readwrite_t<Tf>& P,
   const device_accessor_readwrite_t<Tu>& T,
   const sycl::local_accessor<Tu, 1>& dR,
-  const device_accessor_readwrite_t<Ti>& knn, const Ti koffs,
+  const device_accessor_readwrite_t<Ti>& knn, const size_t koffs,
   const device_accessor_readwrite_t<Ti>& dknn,
   const device_accessor_read_t<Tf>& xyzset,
   const Ti xyzsize,
@@ -609,7 +609,7 @@ void cci::compute(
       dknn[koffs * neighbor + i] = p_size;
       p_size += 1;
   
-      const Ti dr_offs = p_maxsize * l_i;
+      const size_t dr_offs = p_maxsize * l_i;
       for (Ti j = 0; j < p_maxsize; j++) {
         dR[dr_offs + j] = boundary::bstatus::undefined;
       }
diff --git a/src/heap.ipp b/src/heap.ipp
index 7b0f8c8..8ef01b1 100644
--- a/src/heap.ipp
+++ b/src/heap.ipp
@@ -149,7 +149,7 @@ template <typename Ti, typename Tf>
 inline void heap::swap(
   const device_accessor_readwrite_t<Ti>& heap_id,
   const device_accessor_readwrite_t<Tf>& heap_pq,
-  const int s, const int i,
+  const size_t s, const size_t i,
   const int a, const int b
 ) {
   const Ti tmpid = heap_id[s * a + i];
@@ -167,7 +167,7 @@ template <typename Ti, typename Tf>
 inline void heap::maxheapify(
   const device_accessor_readwrite_t<Ti>& heap_id,
   const device_accessor_readwrite_t<Tf>& heap_pq,
-  const int s, const int i,
+  const size_t s, const size_t i,
   const int k, int idx
 ) {
 #if 1
@@ -219,7 +219,7 @@ template <typename Ti, typename Tf>
 inline void heap::sort(
   const device_accessor_readwrite_t<Ti>& heap_id,
   const device_accessor_readwrite_t<Tf>& heap_pq,
-  const int s, const int i,
+  const size_t s, const size_t i,
   const int k
 ) {
   for (int idx = k / 2 - 1; idx >= 0; idx--) {
diff --git a/src/knn.ipp b/src/knn.ipp
index 0a42392..5fc3144 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -21,7 +21,7 @@ static inline bool is_inshell(
 
 template <typename Ti, typename Tf>
 void knni::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const std::vector<std::array<Tf,3>>& xyzset,
   const Ti xyzsize,
   const std::vector<Ti>& id,
@@ -50,7 +50,7 @@ void knni::compute(
   const auto gr = args.grid_resolution;
   const auto gl = 1.0f / args.grid_resolution;
 
-  const Ti h0 = k * i;
+  const size_t h0 = k * i;
 
   // memory access
   const int px = (id[index]) % gr;
@@ -128,7 +128,7 @@ void knni::compute(
 
 template <typename Ti, typename Tf>
 void knni::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const device_accessor_read_t<Tf>& xyzset,
   const Ti xyzsize,
   const device_accessor_read_t<Ti>& id,
@@ -154,7 +154,7 @@ void knni::compute(
   const auto gr = args.grid_resolution;
   const auto gl = 1.0f / args.grid_resolution;
 
-  const Ti h0 = k * i;
+  const size_t h0 = k * i;
 
   const int px = (id[index]) % gr;
   const int py = (id[index]  / gr) % gr;
@@ -224,7 +224,7 @@ void knni::compute(
 
 template <typename Ti, typename Tf>
 void knni::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const device_accessor_read_t<Tf>& xyzset,
   const Ti xyzsize,
   const device_accessor_read_t<Ti>& id,
@@ -232,7 +232,7 @@ void knni::compute(
   const device_accessor_read_t<Tf>& refset,
   const Ti refsize,
   const device_accessor_readwrite_t<Ti>& heap_id,
-  const device_accessor_readwrite_t<Tf>& heap_pq, const Ti hoffs,
+  const device_accessor_readwrite_t<Tf>& heap_pq, const size_t hoffs,
   const struct args::knn& args
 ) {
 
diff --git a/src/votess.ipp b/src/votess.ipp
index 780f1b1..7bc39f1 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -203,7 +203,7 @@ __gpu__tesellate(
                     (chunksize < refsize) ? 
                     refsize / chunksize + 1: 1;
 
-  Ti subsize = (chunksize > 0) && 
+  size_t subsize = (chunksize > 0) && 
                (chunksize < refsize) ? 
                chunksize : refsize;
 
@@ -315,7 +315,7 @@ __gpu__tesellate(
         const size_t g_index = it.get_global_linear_id();
         const size_t l_index = it.get_local_linear_id();
 
-        if (g_index >= static_cast<size_t>(subsize)) return;
+        if (g_index >= subsize) return;
 
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
@@ -351,7 +351,7 @@ __gpu__tesellate(
 
     std::vector<Ti> _knn(hknn.begin(), hknn.end());
     std::vector<Ti> knn(_knn.size());
-    for (int si = 0; si < subsize; si++) {
+    for (size_t si = 0; si < subsize; si++) {
       for (int ki = 0; ki < k; ki++) {
         knn[k * si + ki] = _knn[subsize * ki + si];
       }
@@ -398,7 +398,7 @@ __cpu__tesellate(
                     (chunksize < refsize) ? 
                     refsize / chunksize + 1: 1;
 
-  Ti subsize = (chunksize > 0) && 
+  size_t subsize = (chunksize > 0) && 
                (chunksize < refsize) ?
                chunksize : refsize;
 
@@ -434,7 +434,7 @@ __cpu__tesellate(
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
 
-    for (Ti i = 0; i < subsize; i++) {
+    for (size_t i = 0; i < subsize; i++) {
       indices[i] = _cstart + i;
     }
     VOTESS_TRACE_EVENT(round, "chunk", indices.data(), subsize, k);
@@ -520,7 +520,7 @@ __cpu__recompute(
                           args["cpu_nthreads"] : 
                           std::thread::hardware_concurrency(); 
 
-  Ti subsize = 0;
+  size_t subsize = 0;
   for (auto& s : states) {
     if (!s.get(cc::security_radius_reached)) {
       subsize++;
@@ -557,7 +557,7 @@ __cpu__recompute(
     bool update_p_maxsize = false;
   
     Ti cur = 0;
-    for (Ti i = 0; i < subsize; i++) {
+    for (size_t i = 0; i < subsize; i++) {
       const auto index = indices[i];
       if (!states[index].get(cc::security_radius_reached)) {
         indices[cur++] = index;
@@ -571,9 +571,9 @@ __cpu__recompute(
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
+    for (size_t i = 0; i < subsize; i++) states[indices[i]].reset();
 
-    if (subsize <= 0) {
+    if (subsize == 0) {
       break;
     }
 
@@ -647,7 +647,7 @@ __cpu__recompute(
     // (up to what the index type of a plane can address).
     if (k >= kmax) {
       bool retry = false;
-      for (Ti i = 0; i < subsize; i++) {
+      for (size_t i = 0; i < subsize; i++) {
         const auto& s = states[indices[i]];
         if (s.get(cc::error_p_overflow) && p_maxsize < p_limit) retry = true;
         if (s.get(cc::error_t_overflow) && t_maxsize < t_limit) retry = true;
-- 
2.43.0


From 3f2bccd391644f5251e814a64baae75c9258c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 25/28] fix: parameters and saved text do not depend on the
 global locale

---
 include/arguments.hpp | 7 ++++++-
 src/dnn.ipp           | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index 378e6aa..6add0be 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -50,6 +50,7 @@
 #include <iomanip>
 #include <initializer_list>
 #include <limits>
+#include <locale>
 #include <type_traits>
 
 namespace args {
@@ -84,6 +85,7 @@ class vtargref {
     template <typename T>
     std::string to_str(const T v) const {
       std::ostringstream oss;
+      oss.imbue(std::locale::classic());
       if constexpr (std::is_floating_point<T>::value) {
         // whole numbers without exponent, so that they can be read back as
         // integers; other values with as many digits as they need
@@ -94,8 +96,10 @@ class vtargref {
         for (int p = 6; p <= std::numeric_limits<T>::max_digits10; p++) {
           oss.str("");
           oss << std::setprecision(p) << v;
+          std::istringstream iss(oss.str());
+          iss.imbue(std::locale::classic());
           T w;
-          if ((std::istringstream(oss.str()) >> w) && w == v) break;
+          if ((iss >> w) && w == v) break;
         }
         return oss.str();
       }
@@ -106,6 +110,7 @@ class vtargref {
     template <typename T>
     T from_str(const std::string& s) const {
       std::istringstream iss(s); 
+      iss.imbue(std::locale::classic());
       T v;
       iss >> v;
       if (iss.fail()) {
diff --git a/src/dnn.ipp b/src/dnn.ipp
index 6e038c7..b3e0b67 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <locale>
 #include <vector>
 #include <type_traits>
 
@@ -104,6 +105,7 @@ void votess::dnn<Ti>::print() const {
 template <typename Ti>
 void votess::dnn<Ti>::savetxt(const std::string& fname) const {
   std::ofstream fp(fname);
+  fp.imbue(std::locale::classic());
   if (!fp) {
     std::cerr<<"Failed to open file: "<<fname<<std::endl;
     return;
-- 
2.43.0


From 1bb0fa308ae74d462131809417279745656f075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:39 +0000
Subject: [PATCH 26/28] fix: a suppressed call leaves the error state of
 std::cout as it was

---
 src/votess.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 7bc39f1..3be5926 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -24,14 +24,24 @@
 namespace suppress {
   class stdout {
     public:
-      stdout() : buf(std::cout.rdbuf()) {
+      stdout() : buf(std::cout.rdbuf()), state(std::cout.rdstate()) {
         std::cout.rdbuf(__tmp__buf.rdbuf());
       }
       ~stdout() {
+        // rdbuf() clears the error state, which is the caller's
+        const auto mask = std::cout.exceptions();
+        std::cout.exceptions(std::ios_base::goodbit);
         std::cout.rdbuf(buf);
+        std::cout.clear(state);
+        try {
+          std::cout.exceptions(mask);
+        } catch (const std::ios_base::failure&) {
+          // the mask is set; this is an error the stream had before
+        }
       }
     private:
       std::streambuf* buf;
+      std::ios_base::iostate state;
       std::stringstream __tmp__buf;
   };
 }
-- 
2.43.0


From 83f845d9331a3650bf375c448936187bce059d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:19 +0000
Subject: [PATCH 27/28] fix: a suppressed call leaves a field width set on
 std::cout

---
 src/votess.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 3be5926..dc76418 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -24,7 +24,8 @@
 namespace suppress {
   class stdout {
     public:
-      stdout() : buf(std::cout.rdbuf()), state(std::cout.rdstate()) {
+      stdout() : buf(std::cout.rdbuf()), state(std::cout.rdstate()),
+                 width(std::cout.width()) {
         std::cout.rdbuf(__tmp__buf.rdbuf());
       }
       ~stdout() {
@@ -33,6 +34,8 @@ namespace suppress {
         std::cout.exceptions(std::ios_base::goodbit);
         std::cout.rdbuf(buf);
         std::cout.clear(state);
+        // a field width the caller has set was used up by what went nowhere
+        std::cout.width(width);
         try {
           std::cout.exceptions(mask);
         } catch (const std::ios_base::failure&) {
@@ -42,6 +45,7 @@ namespace suppress {
     private:
       std::streambuf* buf;
       std::ios_base::iostate state;
+      std::streamsize width;
       std::stringstream __tmp__buf;
   };
 }
-- 
2.43.0


From a70fe86bdc7fbd5aa84bc0398066215f2d0ca415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:28 +0000
Subject: [PATCH 28/28] fix: the search radius is not rounded to single
 precision

With double coordinates gl * r was a float product; where it rounds up, the
search stopped before a nearer point just behind the last shell was seen.
---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index 5fc3144..e1ba16a 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -48,7 +48,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const size_t h0 = k * i;
 
@@ -152,7 +152,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const size_t h0 = k * i;
 
-- 
2.43.0

