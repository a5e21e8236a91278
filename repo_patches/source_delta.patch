From 864277217bfa28266dc5f03dcaf8ff91b0bd39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 01/43] fix: clamp last block to the mega-block end when using
 temporal blocking

With temporal blocking, the last block of a mega-block was reduced on both
sides at each shift like any other block. When it is a remainder block that
is too narrow for that, the bridge on its left reads points that are computed
by the bridge on its right in the same phase, giving wrong results.
---
 src/kernel/lib/context.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index fd8d592..5e0fc4b 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -1391,15 +1391,12 @@ namespace yask {
             bool is_first_blk = block_base_start[i] <= mega_block_base_start[i];
             bool is_last_blk = block_base_stop[i] >= mega_block_base_stop[i];
 
-            // Is there only one blk in the mega-block in this dim?
-            bool is_one_blk = is_first_blk && is_last_blk;
-
             // Initial start and stop point of phase-0 block.
             idx_t blk_start = block_base_start[i];
             idx_t blk_stop = block_base_stop[i];
 
-            // If more than one blk, adjust for base of phase-0 trapezoid.
-            if (nphases > 1 && !is_one_blk)
+            // If not last blk, adjust for base of phase-0 trapezoid.
+            if (nphases > 1 && !is_last_blk)
                 blk_stop = min(blk_start + tb_widths[j], block_base_stop[i]);
 
             // Starting point of the *next* block.  This is used to create
@@ -1418,10 +1415,13 @@ namespace yask {
             if (is_first_blk)
                 blk_start = idxs.begin[i];
 
-            // Shift stop to left. If there will be no bridges, clamp
-            // last block to end of mega-block.
+            // Shift stop to left. There is no block to the right of the
+            // last one to bridge to, so clamp last block to end of
+            // mega-block. If the last one were reduced on both sides, it
+            // could become too narrow to separate the bridge on its left
+            // from the one on its right when it is a remainder block.
             blk_stop -= tb_angle * mb_shift_num;
-            if ((nphases == 1 || is_one_blk) && is_last_blk)
+            if (is_last_blk)
                 blk_stop = idxs.end[i];
 
             // Shift start of next block. Last bridge will be
-- 
2.43.0


From c9827aaa07e0177c4e18db7cacecd3f3dd7b9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 02/43] fix: take part in MPI shm allocation on ranks without
 send buffers

With one-sided halos, a rank at the edge of the grid only receives. It
requested no shm and skipped the collective allocation in prepare_solution()
that the other ranks in its shm group were waiting for.
---
 src/kernel/lib/alloc.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 87611df..3ba54d7 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1021,8 +1021,22 @@ namespace yask {
             } // vars.
 
             // Alloc for each mem type.
-            if (pass == 0)
+            if (pass == 0) {
+
+                // Allocating shm and sharing offsets are collective
+                // operations over the shm group, so if any rank in the
+                // group uses shm, all must take part, even one that has
+                // nothing to send to another one.
+                idx_t any_shm = do_shm ? 1 : 0;
+                MPI_Allreduce(MPI_IN_PLACE, &any_shm, 1, MPI_INTEGER8,
+                              MPI_MAX, env->shm_comm);
+                if (any_shm) {
+                    do_shm = true;
+                    auto& req_data = alloc_reqs[make_pair(_shmem_key, seq_num)];
+                    req_data.nbytes = max<size_t>(req_data.nbytes, CACHELINE_BYTES);
+                }
                 _alloc_data(alloc_reqs, "MPI buffer");
+            }
 
             MPI_Barrier(env->shm_comm);
         } // MPI passes.
-- 
2.43.0


From 2d557c032d99a2906d787e28bb41eae83cb066c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 03/43] fix: size scratch vars for skewed micro-blocks

When a block covers the whole mega-block but is divided into micro-blocks,
the micro-blocks are skewed during temporal blocking, so the last one can
be wider than the micro-block size by the total skew.
---
 src/kernel/lib/alloc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 3ba54d7..f7810b9 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1132,7 +1132,9 @@ namespace yask {
                                 gp->_set_domain_size(dname, mblksize[dname]);
 
                                 // Conservative allowance for WF exts and/or temporal shifts.
-                                idx_t shift_pts = max(wf_shift_pts[dname], tb_angles[dname] * num_tb_shifts) * 2;
+                                // A micro-block may be skewed even when blocks are not.
+                                idx_t tb_shift_pts = max(tb_angles[dname], mb_angles[dname]) * num_tb_shifts;
+                                idx_t shift_pts = max(wf_shift_pts[dname], tb_shift_pts) * 2;
                                 gp->_set_left_wf_ext(dname, shift_pts);
                                 gp->_set_right_wf_ext(dname, shift_pts);
 
-- 
2.43.0


From cd76c156fa1a945fe6b6a5925d202d6ac98497af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 04/43] fix: keep slabs of bound inner threads vector-aligned

The nano-block size is not a vector multiple when it was reduced to the
size of a small domain; using it as an alignment made the normalized
alignment zero.
---
 src/kernel/lib/stencil_calc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index aad3e76..7f09f89 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -69,7 +69,12 @@ namespace yask {
         // and binding is enabled.
         bool bind_threads = nbt > 1 && settings.bind_inner_threads;
         int bind_posn = settings._bind_posn;
-        idx_t bind_slab_pts = settings._nano_block_sizes[bind_posn]; // Other sizes not used.
+
+        // Only the size in the binding dim is used. Round up so that
+        // normalizing won't break later: the size may not be a vector
+        // multiple when it was reduced to that of a small domain.
+        idx_t bind_slab_pts = ROUND_UP(settings._nano_block_sizes[bind_posn],
+                                       fold_pts[bind_posn - 1]);
 
         // Get the parts that need to be processed in
         // this block. This will be any prerequisite scratch-var
-- 
2.43.0


From b77675540bfabfaa273bd3db6c05fe8c06b3f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 05/43] fix: give unaligned loads the element indices they need

With -ul, the stencil compiler stopped on an assertion (or passed vector
indices for element indices when assertions were off).
---
 src/compiler/lib/Cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lib/Cpp.cpp b/src/compiler/lib/Cpp.cpp
index ec248f2..4f00c7f 100644
--- a/src/compiler/lib/Cpp.cpp
+++ b/src/compiler/lib/Cpp.cpp
@@ -1104,7 +1104,7 @@ namespace yask {
         // Make a var.
         string mv_name = make_var_name("unaligned_vec");
         os << _line_prefix << get_var_type() << " " << mv_name << _line_suffix;
-        auto vp = make_point_call_vec(os, gp, "get_elem_ptr", "", "true", false);
+        auto vp = make_point_call_vec(os, gp, "get_elem_ptr", "", "true", false, &_vec2elem_global_map);
 
         // Read memory.
         os << _line_prefix << mv_name <<
-- 
2.43.0


From cbf7289e4f4663395b299de2216187e949bab397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 06/43] fix: update the valid steps in set_element() as
 documented

---
 src/kernel/lib/yk_var_apis.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index ec8f2ba..544586e 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -412,6 +412,9 @@ namespace yask {
             gb().write_elem(real_t(val), indices, asi, __LINE__);
             nup++;
 
+            // Update range of valid steps.
+            gb().update_valid_step(indices);
+
             // Set appropriate dirty flags.
             gb()._coh.mod_host();
             gb().set_dirty_using_alloc_index(YkVarBase::self, true, asi);
-- 
2.43.0


From de9e1aa38e5a2e518312c9ea913f10ff982b564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 07/43] fix: do not check an undetermined rank size against the
 minimum

---
 src/kernel/lib/setup.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6b22fa6..edf05c8 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -762,9 +762,10 @@ namespace yask {
             assert(shifts >= 0);
 
             // Is domain size at least as large as halo + wf_ext in direction
-            // when there are multiple ranks?
+            // when there are multiple ranks? (Cannot be checked until the
+            // rank size is known.)
             auto min_size = max_halos[dname] + shifts;
-            if (actl_opts->_num_ranks[dname] > 1 && rksize < min_size) {
+            if (actl_opts->_num_ranks[dname] > 1 && rksize > 0 && rksize < min_size) {
                 FORMAT_AND_THROW_YASK_EXCEPTION
                     ("local-domain size of " << rksize << " in '" <<
                      dname << "' dim is less than minimum size of " << min_size <<
-- 
2.43.0


From cd719564fc6f81826c757616664b89ddd308668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 08/43] fix: ignore the part of a non-strict slice outside the
 allocation

---
 src/kernel/lib/yk_var.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 156a92f..d522148 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1113,6 +1113,13 @@ namespace yask {
                       make_index_string(first_indices) << " ... " <<
                       make_index_string(last_indices) << "]");
 
+            // Nothing to visit if the whole slice is outside the allocation
+            // in any dim, i.e., if either end was moved into the slice.
+            for (int i = 0; i < get_num_dims(); i++)
+                if (first_indices[i] < in_first_indices[i] ||
+                    last_indices[i] > in_last_indices[i])
+                    return 0;
+
             // Find range.
             auto range = get_slice_range(first_indices, last_indices);
             auto ne = range.product();
@@ -1307,7 +1314,8 @@ namespace yask {
                 _coh.mod_dev();
             else
                 _coh.mod_host();
-            set_dirty_in_slice(first_indices, last_indices);
+            if (n > 0)
+                set_dirty_in_slice(first_indices, last_indices);
 
             // Return number of writes.
             return n;
@@ -1350,12 +1358,20 @@ namespace yask {
                                                            first_indices, last_indices,
                                                            on_device);
             
-            // Set appropriate dirty flags.
+            // Set appropriate dirty flags, but only for the part of the
+            // slice that was written.
             if (on_device)
                 _coh.mod_dev();
             else
                 _coh.mod_host();
-            set_dirty_in_slice(first_indices, last_indices);
+            if (n > 0) {
+                Indices first_set, last_set;
+                check_indices(first_indices, SetElem::fname(), false,
+                              true, false, &first_set);
+                check_indices(last_indices, SetElem::fname(), false,
+                              true, false, &last_set);
+                set_dirty_in_slice(first_set, last_set);
+            }
 
             // Return number of writes.
             return n;
-- 
2.43.0


From 3d07f869fcba391e38d189dc879e4cdee4c76b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 09/43] fix: return the requested reductions

---
 src/kernel/lib/yk_var.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index d522148..ef5d8e8 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -575,7 +575,7 @@ namespace yask {
             double _sum = 0.0;
             double _sum_sq = 0.0;
             double _prod = 1.0;
-            double _max = std::numeric_limits<double>::min();
+            double _max = std::numeric_limits<double>::lowest();
             double _min = std::numeric_limits<double>::max();
 
             virtual ~red_res() { }
@@ -598,7 +598,7 @@ namespace yask {
             }
             double get_sum_squares() const {
                 if (_mask & yk_var::yk_sum_squares_reduction)
-                    return _sum;
+                    return _sum_sq;
                 THROW_YASK_EXCEPTION("Sum-of-squares reduction result was not requested in reduction_mask");
             }
             double get_product() const {
@@ -612,7 +612,7 @@ namespace yask {
                 THROW_YASK_EXCEPTION("Max reduction result was not requested in reduction_mask");
             }
             double get_min() const {
-                if (_mask & yk_var::yk_sum_reduction)
+                if (_mask & yk_var::yk_min_reduction)
                     return _min;
                 THROW_YASK_EXCEPTION("Min reduction result was not requested in reduction_mask");
             }
@@ -1453,7 +1453,7 @@ namespace yask {
                 auto* p = resp.get();
                 auto* resp = &rrv.at(i);
                 p->_sum += resp->_sum;
-                p->_sum_sq += resp->_sum;
+                p->_sum_sq += resp->_sum_sq;
                 p->_prod *= resp->_prod;
                 p->_max = std::max(p->_max, resp->_max);
                 p->_min = std::min(p->_min, resp->_min);
-- 
2.43.0


From 3419dad797e309ddf143146d8d832d173c03c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 10/43] fix: request data from neighbors in the
 exchange_halos() API

---
 src/kernel/lib/halo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index cb6fd6d..a7af7bf 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -67,6 +67,10 @@ namespace yask {
 
     // Exchange dirty halo data for all vars and all steps.
     void StencilContext::exchange_halos() {
+
+        // Other ranks may have written to their vars since the last
+        // exchange, so their halo data must be requested.
+        set_all_neighbor_vars_dirty();
         
         // Do all parts.
         MpiSection mpisec(this);
-- 
2.43.0


From 6633eab7728f6901f38d8392c9b2ff21c284fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 11/43] fix: exchange halos of allocated steps in the same
 order on all ranks

---
 src/kernel/lib/halo.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index a7af7bf..62e6b95 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -95,9 +95,11 @@ namespace yask {
         TRACE_MSG("following calc of " << mpisec.make_descr());
 
         // Vars that need to be swapped and their step indices.
+        // Steps are keyed by allocated index so all ranks use the same
+        // order even if their valid step indices differ.
         struct SwapInfo {
             YkVarPtr gp;
-            set<idx_t> steps;
+            map<idx_t, idx_t> steps;
         };
         vector<SwapInfo> vars_to_swap;
 
@@ -140,7 +142,8 @@ namespace yask {
                     vars_to_swap.push_back(si);
                     first = false;
                 }
-                vars_to_swap.back().steps.insert(t);
+                idx_t ti = gp->is_dim_used(step_dim) ? gb._wrap_step(t) : 0;
+                vars_to_swap.back().steps[ti] = t;
 
             } // steps.
         } // vars.
@@ -259,7 +262,8 @@ namespace yask {
                                  // Check to see if my var is dirty in any step that the
                                  // 'others' may be dirty in.
                                  bool is_mine_dirty = false;
-                                 for (auto t : si.steps) {
+                                 for (auto& st : si.steps) {
+                                     idx_t t = st.second;
                                      if (gb.is_dirty(YkVarBase::self, t))
                                          is_mine_dirty = true;
                                  }
@@ -278,7 +282,8 @@ namespace yask {
                                  // dirty.
                                  if (is_mine_dirty) {
                                      halo_pack_time.start();
-                                     for (auto t : si.steps) {
+                                     for (auto& st : si.steps) {
+                                         idx_t t = st.second;
                                          if (gp->is_dim_used(step_dim)) {
                                              first.set_val(step_dim, t);
                                              last.set_val(step_dim, t);
@@ -409,7 +414,8 @@ namespace yask {
 
                                      // Unpack one step at a time.                                 
                                      halo_unpack_time.start();
-                                     for (auto t : si.steps) {
+                                     for (auto& st : si.steps) {
+                                         idx_t t = st.second;
                                          if (gp->is_dim_used(step_dim)) {
                                              first.set_val(step_dim, t);
                                              last.set_val(step_dim, t);
-- 
2.43.0


From da5df74f40f9cd9094a793e869d1f1c708b8dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 12/43] fix: index the FD-coefficient work array within its
 bounds

---
 src/contrib/coefficients/fd_coeff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrib/coefficients/fd_coeff.cpp b/src/contrib/coefficients/fd_coeff.cpp
index ca2a1b8..15b4319 100644
--- a/src/contrib/coefficients/fd_coeff.cpp
+++ b/src/contrib/coefficients/fd_coeff.cpp
@@ -55,9 +55,9 @@ namespace yask {
         double c1, c2, c3;
         double x_0 = eval_point;
 
-        int m_idx = (order+1)*num_points;
         int n_idx = num_points;
-        int dsz = m_idx * n_idx;
+        int m_idx = num_points * n_idx;
+        int dsz = (order+1) * m_idx;
         vector<double> d(dsz);
     
         for (int i = 1; i < dsz; i++)
-- 
2.43.0


From 945f57904e5268c51418fcc05c0f024e667e12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 13/43] fix: drop impossible preset factors when factoring 1

---
 src/common/tuple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/tuple.cpp b/src/common/tuple.cpp
index d7e8540..952db27 100644
--- a/src/common/tuple.cpp
+++ b/src/common/tuple.cpp
@@ -433,7 +433,7 @@ namespace yask {
                      return true; // keep looking.
                  });
 
-            if (best.product() == N)
+            if (best.size() && best.product() == N)
                 break;          // done.
 
         } // keep or not.
-- 
2.43.0


From f3a6991407294ebbda2060cefae41265fcc8de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 14/43] fix: start nested parallel loops at their first index

---
 src/common/common_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index d89100a..df45dca 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -267,8 +267,8 @@ namespace yask {
                     idx_t n0 = omp_get_thread_num();
 
                     // Calculate begin and end points for this thread.
-                    idx_t tbegin = div_equally_cumu_size_n(niter, nthr0, n0 - 1) * stride;
-                    idx_t tend = div_equally_cumu_size_n(niter, nthr0, n0) * stride;
+                    idx_t tbegin = begin + div_equally_cumu_size_n(niter, nthr0, n0 - 1) * stride;
+                    idx_t tend = begin + div_equally_cumu_size_n(niter, nthr0, n0) * stride;
                     tend = std::min(tend, end);
 
                     #ifdef DEBUG_PAR_FOR
-- 
2.43.0


From 394c24a6d2150124b3a1cece4c5f802de732abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 15/43] fix: size the index list of n_choose_k_set() for all
 its sets

---
 src/common/combo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/combo.cpp b/src/common/combo.cpp
index a7e2f94..25553e1 100644
--- a/src/common/combo.cpp
+++ b/src/common/combo.cpp
@@ -86,7 +86,7 @@ namespace yask {
         }
 
         // Pick k items.
-        int ca[sizeof(size_t)];
+        int ca[sizeof(size_t) * 8];
         int j = 0;
         for (int i = 0; i < k-1; i++) {
             ca[i] = (i == 0) ? -1 : ca[i-1];
-- 
2.43.0


From b81908752817b45671b7731ce1815cbe3a2a9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 16/43] fix: honor the requested step-dim allocation

---
 src/compiler/lib/Var.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index 1ac3dc2..c5d3a53 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -366,10 +366,6 @@ namespace yask {
         if (!step_dim)
             return sdi;
 
-        // No info stored?
-        if (_halos.size() == 0)
-            return sdi;
-
         // Need the max across all stages.
         int max_sz = 1;
 
@@ -473,6 +469,8 @@ namespace yask {
         cout << "* final sz = " << sz << endl;
         #endif
 
+        sdi.step_dim_size = max_sz;
+
         // Override by API.
         if (_step_alloc > 0)
             sdi.step_dim_size = _step_alloc;
@@ -481,7 +479,6 @@ namespace yask {
         if (_soln->get_settings()._step_alloc > 0)
             sdi.step_dim_size = _soln->get_settings()._step_alloc;
 
-        sdi.step_dim_size = max_sz;
         return sdi;
     }
 
-- 
2.43.0


From 7f84c01702de7d3631393ca76a8d1852620dcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 17/43] fix: emit the SIMD_PRAGMA macro for the 'simd' loop
 modifier

---
 utils/bin/gen_loops.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bin/gen_loops.pl b/utils/bin/gen_loops.pl
index 02908e7..883f51b 100755
--- a/utils/bin/gen_loops.pl
+++ b/utils/bin/gen_loops.pl
@@ -1041,7 +1041,7 @@ sub processCode($) {
                 }
             }
             if ($features & $bSimd) {
-                push @loopPrefix, '${macroPrefix}OMP_SIMD';
+                push @loopPrefix, "${macroPrefix}SIMD_PRAGMA";
             }
                 
             # Start the loop unless there are no indices.
-- 
2.43.0


From bafb9915210ce14e60e0f29cb9294a52c17c3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 18/43] fix: run no iterations of a generated loop nest over an
 empty or negative range

---
 utils/bin/gen_loops.pl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/bin/gen_loops.pl b/utils/bin/gen_loops.pl
index 883f51b..3861253 100755
--- a/utils/bin/gen_loops.pl
+++ b/utils/bin/gen_loops.pl
@@ -380,13 +380,15 @@ sub addIndexVars1($$$$) {
                         "// Aligned beginning point such that ($bvar - $svar) < $abvar <= $bvar.",
                         "const $itype $abvar = yask::round_down_flr($bvar - $aovar, $aavar) + $aovar;",
                         "// Number of iterations to get from $abvar to (but not including) $evar, striding by $svar. ".
-                        "This value is rounded up because the last iteration may cover fewer than $svar strides.",
-                        "const $itype $nvar = yask::ceil_idiv_flr($evar - $abvar, $svar);";
+                        "This value is rounded up because the last iteration may cover fewer than $svar strides. ".
+                        "It is zero if the range is empty.",
+                        "const $itype $nvar = ($evar > $bvar) ? yask::ceil_idiv_flr($evar - $abvar, $svar) : 0;";
                 } else {
                     push @$code,
                         "// Number of iterations to get from $bvar to (but not including) $evar, striding by $svar. ".
-                        "This value is rounded up because the last iteration may cover fewer than $svar strides.",
-                        "const $itype $nvar = yask::ceil_idiv_flr($evar - $bvar, $svar);";
+                        "This value is rounded up because the last iteration may cover fewer than $svar strides. ".
+                        "It is zero if the range is empty.",
+                        "const $itype $nvar = ($evar > $bvar) ? yask::ceil_idiv_flr($evar - $bvar, $svar) : 0;";
                 }
 
                 # For tiled loops.
-- 
2.43.0


From 9603dbd0ec0f4acad806cfe0a557369bd71d802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 19/43] fix: allow empty ranges in manually-scheduled generated
 loops

---
 utils/bin/gen_loops.pl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/bin/gen_loops.pl b/utils/bin/gen_loops.pl
index 3861253..ee6f56c 100755
--- a/utils/bin/gen_loops.pl
+++ b/utils/bin/gen_loops.pl
@@ -581,12 +581,15 @@ sub addIndexVars2($$$$) {
             if (!$isInner) {
                 my @subDims = @$loopDims[$i+1 .. $#$loopDims];
                 my $snvar = numItersVar(@subDims);
-                $dival .= " / $snvar";
+                # (may be zero when calculated before the loops, i.e., for manual scheduling).
+                $dival = ($features & $bManual) ?
+                    "($snvar ? $dival / $snvar : 0)" : "$dival / $snvar";
             }
 
             # mod by size of this dimension (not needed for outer-most dim).
             if ($i > 0) {
-                $dival = "($dival) % $nvar";
+                $dival = ($features & $bManual) ?
+                    "$nvar ? ($dival) % $nvar : 0" : "($dival) % $nvar";
             }
 
             # output $divar.
-- 
2.43.0


From 8dd4ca32dfd04e07439097495d7694409339c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 20/43] Add guarded hook at accesses to locks shared between
 ranks

---
 src/kernel/lib/utils.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/kernel/lib/utils.hpp b/src/kernel/lib/utils.hpp
index 250ce9d..3cddbe2 100644
--- a/src/kernel/lib/utils.hpp
+++ b/src/kernel/lib/utils.hpp
@@ -27,6 +27,10 @@ IN THE SOFTWARE.
 
 // Misc utilities.
 
+#ifdef YASK_MC_HOOKS
+extern "C" void yv_shared_point(int changed);
+#endif
+
 namespace yask {
 
     // Get an int from an env var.
@@ -41,6 +45,14 @@ namespace yask {
     // A class for a simple producer-consumer memory lock on one item.
     class SimpleLock {
 
+        // Optional hook to observe and control the order of accesses from
+        // different ranks.
+#ifdef YASK_MC_HOOKS
+        static void _shared_point(bool changed) { yv_shared_point(changed); }
+#else
+        static void _shared_point(bool changed) { }
+#endif
+
         // Put each value in a separate cache-line to
         // avoid false sharing.
         union LockVal {
@@ -95,6 +107,7 @@ namespace yask {
 
         // Wait until ok to read.
         void wait_for_ok_to_read() const {
+            _shared_point(false);
             while (!is_ok_to_read())
                 _mm_pause();
         }
@@ -104,6 +117,7 @@ namespace yask {
             assert(is_ok_to_read());
             _read_count.val++;
             _check("mark_read_done");
+            _shared_point(true);
         }
 
         // Check whether ok to write,
@@ -115,6 +129,7 @@ namespace yask {
 
         // Wait until ok to write.
         void wait_for_ok_to_write() const {
+            _shared_point(false);
             while (!is_ok_to_write())
                 _mm_pause();
         }
@@ -124,6 +139,7 @@ namespace yask {
             assert(is_ok_to_write());
             _write_count.val++;
             _check("mark_write_done");
+            _shared_point(true);
         }
 
         // Access data value.
-- 
2.43.0


From e4780b596ce1a1c4e6889879c8bc8089d56db6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 21/43] fix: keep the shared-memory window of halo buffers
 until all buffers are freed

A rank that only receives has no buffer in its own part of the window, so
its last reference went away in alloc_mpi_data() and MPI_Win_free(), which is
collective, was called there by that rank only: prepare_solution() hung.
---
 src/kernel/lib/alloc.cpp   | 2 ++
 src/kernel/lib/context.hpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index f7810b9..d818f9f 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1036,6 +1036,8 @@ namespace yask {
                     req_data.nbytes = max<size_t>(req_data.nbytes, CACHELINE_BYTES);
                 }
                 _alloc_data(alloc_reqs, "MPI buffer");
+                if (any_shm)
+                    mpi_shm_data = alloc_reqs.at(make_pair(_shmem_key, seq_num)).ptr;
             }
 
             MPI_Barrier(env->shm_comm);
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index cb12985..7ff8d50 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -350,6 +350,11 @@ namespace yask {
         // Map key: var name.
         std::map<std::string, MPIData> mpi_data;
 
+        // Shm window used for MPI buffers. Kept until the buffers are freed
+        // because freeing a window is a collective operation, and a rank
+        // may have no buffer of its own in it.
+        std::shared_ptr<char> mpi_shm_data;
+
         // Constructor.
         StencilContext(KernelEnvPtr& kenv,
                        KernelSettingsPtr& actl_settings,
@@ -399,6 +404,7 @@ namespace yask {
         virtual void alloc_mpi_data();
         virtual void free_mpi_data() {
             mpi_data.clear();
+            mpi_shm_data.reset();
         }
 
         // Alloc scratch-var memory.
-- 
2.43.0


From f22e8dc22ad90cf0dc8a06aa231a8ae4a43d4f84 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 22/43] fix: use per-element index values in vectorized
 expressions

An index used as a value in an equation was printed as the vector index
of the loop, so all elements of a vector got the same, scaled value.
---
 src/compiler/lib/Cpp.cpp   | 28 ++++++++++++++++++++++++++++
 src/compiler/lib/Cpp.hpp   |  4 ++++
 src/compiler/lib/Print.cpp |  3 ++-
 src/compiler/lib/Print.hpp |  8 ++++++++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Cpp.cpp b/src/compiler/lib/Cpp.cpp
index 4f00c7f..25dec2f 100644
--- a/src/compiler/lib/Cpp.cpp
+++ b/src/compiler/lib/Cpp.cpp
@@ -1042,6 +1042,34 @@ namespace yask {
             return make_point_call_vec(os, gp, "read_elem_local", "", "", false, var_map);
     }
 
+    // Value of an index in each element of a vector.
+    string CppVecPrintHelper::read_index(ostream& os, const IndexExpr& ie,
+                                         const VarMap* var_map) {
+        auto& dname = ie._get_name();
+
+        // Only domain indices are normalized to vectors.
+        if (ie.get_type() != DOMAIN_INDEX || !_vec2elem_global_map.count(dname))
+            return CppPrintHelper::read_index(os, ie, var_map);
+        auto& ename = get_global_elem_index(dname);
+
+        // Same value in all elements?
+        auto* fp = get_fold().lookup(dname);
+        if (!fp || *fp <= 1)
+            return ename;
+
+        // Make a vec var.
+        string mv_name = make_var_name("index_vec");
+        os << "\n // Index values in '" << dname << "' dim.\n" <<
+            _line_prefix << get_var_type() << " " << mv_name << _line_suffix;
+        get_fold().visit_all_points([&](const IntTuple& vec_point,
+                                        size_t pelem, int thread){
+                                        os << _line_prefix << mv_name << "[" << pelem << "] = " <<
+                                            ename << " + " << vec_point[dname] << _line_suffix;
+                                        return true;
+                                    });
+        return mv_name;
+    }
+
     // Read from multiple points that are not vectorized.
     // Return var name.
     string CppVecPrintHelper::print_partial_vec_read(ostream& os, const VarPoint& gp) {
diff --git a/src/compiler/lib/Cpp.hpp b/src/compiler/lib/Cpp.hpp
index a6962fc..2148fe5 100644
--- a/src/compiler/lib/Cpp.hpp
+++ b/src/compiler/lib/Cpp.hpp
@@ -154,6 +154,10 @@ namespace yask {
             return code;
         }
 
+        // The value of an index in each element of a vector.
+        virtual string read_index(ostream& os, const IndexExpr& ie,
+                                  const VarMap* var_map) override;
+
         // Print a comment about a point.
         // This is a utility function used for both reads and writes.
         virtual void print_point_comment(ostream& os, const VarPoint& gp,
diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index 24ee2d5..0722457 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -64,9 +64,10 @@ namespace yask {
     }
 
     // An index expression.
+    // Uses the PrintHelper to format.
     string PrintVisitorTopDown::visit(IndexExpr* ie) {
         _num_common += _ph.get_num_common(ie);
-        return ie->format(_var_map);
+        return _ph.read_index(_os, *ie, _var_map);
     }
 
     // A constant.
diff --git a/src/compiler/lib/Print.hpp b/src/compiler/lib/Print.hpp
index dd026b7..1eda076 100644
--- a/src/compiler/lib/Print.hpp
+++ b/src/compiler/lib/Print.hpp
@@ -146,6 +146,14 @@ namespace yask {
             return to_string(v);
         }
 
+        // Return the value of an index.
+        // The 'os' parameter is provided for derived types that
+        // need to write intermediate code to a stream.
+        virtual string read_index(ostream& os, const IndexExpr& ie,
+                                  const VarMap* var_map) {
+            return ie.format(var_map);
+        }
+
         // Return a var reference.
         // The 'os' parameter is provided for derived types that
         // need to write intermediate code to a stream.
-- 
2.43.0


From f72521d200dc0f09f123680fcdeff4d5069acc73 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 23/43] fix: do not print a negated negative expression with a
 decrement operator

---
 src/compiler/lib/Print.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index 0722457..4e1aff4 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -84,10 +84,17 @@ namespace yask {
         return _ph.add_code_expr(_os, ce->get_code());
     }
 
+    // Make unary expr, avoiding creation of another operator, e.g., '--'.
+    static string make_unary(const string& op, const string& rhs) {
+        if (rhs.compare(0, op.length(), op) == 0)
+            return op + "(" + rhs + ")";
+        return op + rhs;
+    }
+
     // Generic unary operators.
     string PrintVisitorTopDown::visit(UnaryNumExpr* ue) {
         _num_common += _ph.get_num_common(ue);
-        return ue->get_op_str() + ue->_get_rhs()->accept(this);
+        return make_unary(ue->get_op_str(), ue->_get_rhs()->accept(this));
     }
     string PrintVisitorTopDown::visit(UnaryBoolExpr* ue) {
         _num_common += _ph.get_num_common(ue);
@@ -279,7 +286,7 @@ namespace yask {
         // temp2 = -temp1;
         // with 'temp2' returned.
         string rhs = ue->_get_rhs()->accept(this);
-        make_next_temp_var(res, ue, "expr", "") << ue->get_op_str() << rhs << _ph.get_line_suffix();
+        make_next_temp_var(res, ue, "expr", "") << make_unary(ue->get_op_str(), rhs) << _ph.get_line_suffix();
         return res;
     }
 
-- 
2.43.0


From f62511b4290a1bc4b61ba095700d7016805b104a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 24/43] fix: print constants of equations as reals with full
 precision

Quotients of integral constants were evaluated with integer division, and
the last significant digit of other constants was lost.
---
 src/compiler/lib/Cpp.cpp        | 12 ++++++------
 src/compiler/lib/Cpp.hpp        | 10 ++++++++++
 src/compiler/lib/YaskKernel.cpp |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/compiler/lib/Cpp.cpp b/src/compiler/lib/Cpp.cpp
index 25dec2f..e84bcb4 100644
--- a/src/compiler/lib/Cpp.cpp
+++ b/src/compiler/lib/Cpp.cpp
@@ -39,16 +39,16 @@ namespace yask {
     string CppPrintHelper::format_real(double v) {
 
         // Int representation equivalent?
-        // This is needed to properly format int expressions
-        // like 'x > 5'.
+        // Keep the decimal point so that expressions like '1./2.' aren't
+        // evaluated with ints.
         if (double(int(v)) == v)
-            return to_string(int(v));
-        
-        // IEEE double gives 15-17 significant decimal digits of precision per
+            return to_string(int(v)) + ".";
+
+        // 17 significant decimal digits identify any IEEE double per
         // https://en.wikipedia.org/wiki/Double-precision_floating-point_format.
         // Some precision might be lost if/when cast to a float, but that's ok.
         ostringstream oss;
-        oss << setprecision(15) << scientific << v;
+        oss << setprecision(16) << scientific << v;
         return oss.str();
     }
 
diff --git a/src/compiler/lib/Cpp.hpp b/src/compiler/lib/Cpp.hpp
index 2148fe5..06430b0 100644
--- a/src/compiler/lib/Cpp.hpp
+++ b/src/compiler/lib/Cpp.hpp
@@ -94,6 +94,16 @@ namespace yask {
                                       const string& val) override;
     };
 
+    // Outputs C++ code for step conditions, in which integers must be kept
+    // as such for expressions like 't % 2'.
+    class CppStepCondPrintHelper : public CppPrintHelper {
+    public:
+        using CppPrintHelper::CppPrintHelper;
+        virtual string add_const_expr(ostream& os, double v) override {
+            return (double(int(v)) == v) ? to_string(int(v)) : format_real(v);
+        }
+    };
+
     /////////// Vector code /////////////
 
     // Output generic C++ vector code for YASK.
diff --git a/src/compiler/lib/YaskKernel.cpp b/src/compiler/lib/YaskKernel.cpp
index d779a04..784f279 100644
--- a/src/compiler/lib/YaskKernel.cpp
+++ b/src/compiler/lib/YaskKernel.cpp
@@ -511,7 +511,7 @@ namespace yask {
                         // C++ scalar print assistant.
                         CounterVisitor cv;
                         eq->step_cond->accept(&cv);
-                        CppPrintHelper* sp = new CppPrintHelper(_settings, _dims, &cv, "real_t", " ", ";\n");
+                        CppPrintHelper* sp = new CppStepCondPrintHelper(_settings, _dims, &cv, "real_t", " ", ";\n");
 
                         // Generate the code.
                         PrintVisitorTopDown pcv(os, *sp);
-- 
2.43.0


From 049876d49638984455c2149f087be3c4162220d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 25/43] fix: do not take a difference for the negation of its
 right side

Binary operators are derived from unary ones, so 'b - a' was found to be
the same expression as '-a', and CSE replaced the latter by the former.
---
 src/compiler/lib/Expr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Expr.hpp b/src/compiler/lib/Expr.hpp
index e05828d..eae99b8 100644
--- a/src/compiler/lib/Expr.hpp
+++ b/src/compiler/lib/Expr.hpp
@@ -403,7 +403,10 @@ namespace yask {
         // Check for equivalency.
         virtual bool is_same(const Expr* other) const {
             auto p = dynamic_cast<const UnaryExpr*>(other);
-            return p && _op_str == p->_op_str &&
+
+            // Types must match exactly because binary operators are derived
+            // from this class, and '-a' is not the same as 'b-a'.
+            return p && typeid(*p) == typeid(*this) && _op_str == p->_op_str &&
                 _rhs && _rhs->is_same(p->_rhs.get());
         }
     };
-- 
2.43.0


From 90a24010eb56d1893fcc9ef53e4bee4c18ef4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 26/43] fix: refuse reads past the computed step in
 reverse-time stencils

---
 src/compiler/lib/Eqs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index f03ef42..1007b8d 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -511,7 +511,7 @@ namespace yask {
                             }
                             // backward: 'u(t-1, ...) EQUALS ... u(t, ...) ...'.
                             // bad backward: 'u(t-1, ...) EQUALS ... u(t-2, ...) ...'.
-                            if (dims._step_dir == -11 && rofs < lofs) {
+                            if (dims._step_dir == -1 && rofs < lofs) {
                                 THROW_YASK_EXCEPTION("equation " + eq1->make_quoted_str() +
                                                      " contains an offset of " + to_string(rofs) +
                                                      " from step-dimension '" + step_dim +
-- 
2.43.0


From 7278fc94744ec014a9e00ad33d3c97b91c31a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 27/43] fix: refuse reads past the computed step in scratch
 equations

---
 src/compiler/lib/Eqs.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index 1007b8d..b9ccfc6 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -600,6 +600,21 @@ namespace yask {
         } // for all eqs.
         os << endl;
 
+        // Scratch equations cannot read past the computed step, either.
+        // (This is done after the step direction is known.)
+        for (auto eq1 : get_all()) {
+            if (!eq1->is_scratch())
+                continue;
+            for (auto i1 : in_pts.at(eq1.get())) {
+                auto* rsi1p = i1->get_arg_offsets().lookup(step_dim);
+                if (rsi1p && *rsi1p * dims._step_dir > 1)
+                    THROW_YASK_EXCEPTION("scratch equation " + eq1->make_quoted_str() +
+                                         " contains an offset of " + to_string(*rsi1p) +
+                                         " from step-dimension '" + step_dim +
+                                         "' on the RHS, which is past the step being computed");
+            }
+        }
+
         // Finish processing and dump logical vars.
         log_vars.topo_sort();
         log_vars.print_info();
-- 
2.43.0


From 4db5cf5cc245cb91c1029d5eb0ed69665bae12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 28/43] fix: keep values in storage until the last equation
 that reads them

The number of step-dim values was found for each stage separately, so a
value read in one stage could be replaced by one written in an earlier
stage, and a value read by several equations of a stage could be replaced
by the first of them.
---
 src/compiler/lib/Eqs.cpp |  11 ++-
 src/compiler/lib/Var.cpp | 155 ++++++++++++++++-----------------------
 src/compiler/lib/Var.hpp |  17 +++++
 3 files changed, 91 insertions(+), 92 deletions(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index b9ccfc6..2fc0fdc 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1662,7 +1662,8 @@ namespace yask {
            it is based on the data collected here.
         */
         
-        // Loop thru stages.
+        // Loop thru stages in evaluation order.
+        int stposn = 0;
         for (auto& st : get_all()) {
 
             // Only need to start from non-scratch stages.
@@ -1670,6 +1671,7 @@ namespace yask {
                 continue;
 
             auto stname = st->_get_name();
+            stposn++;
             #ifdef DEBUG_HALOS
             cout << "* c_h, phase 1: analyzing stage '" << stname << "'" << endl;
             #endif
@@ -1706,6 +1708,13 @@ namespace yask {
 
                         // Track halos by non-scratch stage name.
                         auto changed = g->update_halo(stname, ap->get_arg_offsets());
+                        g->update_stage_posn(stname, stposn);
+
+                        // Track reads of anything but the elements updated
+                        // by this eq.
+                        if (g != out_pt1->_get_var() ||
+                            ap->get_arg_consts() != out_pt1->get_arg_consts())
+                            g->update_other_reads(stname, ap->get_arg_offsets());
                         #ifdef DEBUG_HALOS
                         if (changed) {
                             cout << "**** c_h: updated halos:\n";
diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index c5d3a53..1e72327 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -333,6 +333,14 @@ namespace yask {
             _write_points[stage_name] = *sofs;
     }
     
+    // Update offsets of reads by other equations.
+    void Var::update_other_reads(const string& stage_name, const IntTuple& offsets) {
+        auto& sdims = get_soln_dims();
+        auto* sofs = offsets.lookup(sdims._step_dim);
+        if (sofs)
+            _other_reads[stage_name].insert(*sofs);
+    }
+
     // Update const indices based on 'indices'.
     void Var::update_const_indices(const IntTuple& indices) {
 
@@ -366,110 +374,75 @@ namespace yask {
         if (!step_dim)
             return sdi;
 
-        // Need the max across all stages.
-        int max_sz = 1;
-
-        // Loop thru each stage w/halos, including halos w/size zero.
+        // Range of step-dim offsets accessed across all stages.
+        // The range must span the stages because a value written in
+        // one stage might replace one needed in a later stage.
+        bool found = false;
+        int first_ofs = 0, last_ofs = 0;
         for (auto& hi : _halos) {
-            auto& stage_name = hi.first;
-            auto& h2 = hi.second;
-            #ifdef DEBUG_HALOS
-            cout << "* var " << get_name() << " in " << stage_name << endl;
-            #endif
-
-            // Written?
-            bool is_written = false;
-
-            // First (lowest) and last (highest) step-dim offset.
-            const int unset = -9999;
-            int first_ofs = unset, last_ofs = unset;
-
-            // left and right.
-            for (auto& i : h2) {
-                //auto left = i.first;
-                auto& h3 = i.second; // map of step-dims to halos.
-
-                // Step-dim offsets.
-                for (auto& j : h3) {
+            for (auto& i : hi.second) {
+                for (auto& j : i.second) {
                     auto ofs = j.first;
-                    auto& halo = j.second; // halo tuple at step-val 'ofs'.
-
-                    // Written here?
-                    if (_write_points.count(stage_name) && _write_points.at(stage_name) == ofs)
-                        is_written = true;
-
-                    // Any existing value?
-                    if (halo.size()) {
-
-                        // Update vars.
-                        if (first_ofs == unset)
-                            first_ofs = last_ofs = ofs;
-                        else {
-                            first_ofs = std::min(first_ofs, ofs);
-                            last_ofs = std::max(last_ofs, ofs);
-                        }
-                    }
+                    first_ofs = found ? std::min(first_ofs, ofs) : ofs;
+                    last_ofs = found ? std::max(last_ofs, ofs) : ofs;
+                    found = true;
                 }
             }
-            #ifdef DEBUG_HALOS
-            print_halos(cout, "** ");
-            cout << "*** halo range: [" << first_ofs <<
-                "..." << last_ofs << "] in stage " << stage_name << endl;
-            #endif
-
-            // Only need to process if >1 offset.
-            if (last_ofs != unset && first_ofs != unset && last_ofs != first_ofs) {
-
-                // Default step-dim size is range of step offsets.
-                // For example, if equation touches 't-1' through 't+2',
-                // 'sz' is 4.
-                int sz = last_ofs - first_ofs + 1;
-                #ifdef DEBUG_HALOS
-                cout << "*** initial sz = " << sz << endl;
-                #endif
-
-                // Check for possible writeback.
-                if (is_written) {
-
-                    // First and last largest halos.
-                    int first_max_halo = 0, last_max_halo = 0;
-                    for (auto& i : h2) {
-                        //auto left = i.first;
-                        auto& h3 = i.second; // map of step-dims to halos.
-                        
-                        if (h3.count(first_ofs) && h3.at(first_ofs).size())
-                            first_max_halo = std::max(first_max_halo, h3.at(first_ofs).max());
-                        if (h3.count(last_ofs) && h3.at(last_ofs).size())
-                            last_max_halo = std::max(last_max_halo, h3.at(last_ofs).max());
-                    }
+        }
 
-                    // If first and last halos are zero, we can further optimize
-                    // storage by immediately reusing memory location.
-                    if (sz > 1 && first_max_halo == 0 && last_max_halo == 0) {
-                        int write_ofs = _write_points.at(stage_name);
-                        sz--;
-                        if (last_ofs == write_ofs) // forward step.
-                            sdi.writeback_ofs[stage_name] = first_ofs; // replace lowest read.
-                        else if (first_ofs == write_ofs) // backward step.
-                            sdi.writeback_ofs[stage_name] = last_ofs; // replace lowest read.
-                        else
-                            assert("write ofs is neither first or last");
-                        #ifdef DEBUG_HALOS
-                        cout << "*** optimized sz = " << sz << endl;
-                        #endif
+        // Default step-dim size is range of step offsets.
+        // For example, if equations touch 't-1' through 't+2',
+        // 'sz' is 4.
+        int sz = last_ofs - first_ofs + 1;
+
+        // Check for possible writeback, i.e., storage for the oldest value
+        // can be immediately reused when written.
+        if (sz > 1 && _write_points.size() == 1) {
+            auto& write_stage = _write_points.begin()->first;
+            int write_ofs = _write_points.begin()->second;
+            int old_ofs = (write_ofs == last_ofs) ? first_ofs : last_ofs;
+            bool is_ok = write_ofs == last_ofs || write_ofs == first_ofs;
+
+            for (auto& hi : _halos) {
+                auto& stage_name = hi.first;
+
+                // Largest halo at oldest offset in this stage.
+                bool is_read = false;
+                int max_halo = 0;
+                for (auto& i : hi.second) {
+                    auto& h3 = i.second; // map of step-dims to halos.
+                    if (h3.count(old_ofs)) {
+                        is_read = true;
+                        if (h3.at(old_ofs).size())
+                            max_halo = std::max(max_halo, h3.at(old_ofs).max());
                     }
                 }
+                if (!is_read)
+                    continue;
+
+                // In the stage that writes, only the elements being updated
+                // can be read.
+                if (stage_name == write_stage) {
+                    if (max_halo > 0 ||
+                        (_other_reads.count(stage_name) &&
+                         _other_reads.at(stage_name).count(old_ofs)))
+                        is_ok = false;
+                }
 
-                // Keep max so far.
-                max_sz = std::max(max_sz, sz);
+                // Cannot be read after being written.
+                else if (_stage_posns.at(stage_name) > _stage_posns.at(write_stage))
+                    is_ok = false;
             }
-
-        } // stages.
+            if (is_ok) {
+                sz--;
+                sdi.writeback_ofs[write_stage] = old_ofs;
+            }
+        }
         #ifdef DEBUG_HALOS
         cout << "* final sz = " << sz << endl;
         #endif
 
-        sdi.step_dim_size = max_sz;
+        sdi.step_dim_size = sz;
 
         // Override by API.
         if (_step_alloc > 0)
diff --git a/src/compiler/lib/Var.hpp b/src/compiler/lib/Var.hpp
index e2d4ebd..e1108be 100644
--- a/src/compiler/lib/Var.hpp
+++ b/src/compiler/lib/Var.hpp
@@ -83,6 +83,15 @@ namespace yask {
         // Val: step-index for write in stage.
         map<string, int> _write_points;
 
+        // Key: stage.
+        // Val: position of stage in evaluation order.
+        map<string, int> _stage_posns;
+
+        // Key: stage.
+        // Val: step-dim offsets of reads in equations that don't update
+        // the same elements of this var.
+        map<string, set<int>> _other_reads;
+
         // Greatest L1 dist of any halo point that accesses this var.
         int _l1_dist = 0;
 
@@ -285,6 +294,14 @@ namespace yask {
         }
         virtual void update_write_points(const string& stage_name, const IntTuple& offsets);
 
+        // Stage(s) with any access.
+        virtual void update_stage_posn(const string& stage_name, int posn) {
+            _stage_posns[stage_name] = posn;
+        }
+
+        // Reads in equations that don't update the same elements.
+        virtual void update_other_reads(const string& stage_name, const IntTuple& offsets);
+
         // Update L1 dist.
         virtual void update_l1_dist(int l1_dist) {
             _l1_dist = std::max(_l1_dist, l1_dist);
-- 
2.43.0


From b84437770838e780ecacf924c78ae33086d76c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 29/43] fix: serialise updates of dirty flags and valid steps
 by outer threads

---
 src/kernel/lib/stencil_calc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index 7f09f89..abdf630 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -288,8 +288,14 @@ namespace yask {
         } // required parts.
 
         // Mark exterior dirty for halo exchange if exterior was done.
+        // The dirty flags and valid steps are shared by all outer threads,
+        // which may be working on different steps when using temporal
+        // tiling.
         bool mark_dirty = mpisec.do_mpi_left || mpisec.do_mpi_right;
-        update_var_info(YkVarBase::self, t, mark_dirty, true, false);
+        #pragma omp critical(yask_var_info)
+        {
+            update_var_info(YkVarBase::self, t, mark_dirty, true, false);
+        }
             
     } // calc_micro_block().
 
-- 
2.43.0


From b8441f06de599182b42d16c143e2dbd249ff3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 30/43] fix: refuse values of integer options that do not fit
 instead of truncating them

---
 src/common/common_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/common_utils.cpp b/src/common/common_utils.cpp
index ab3b8aa..135faad 100644
--- a/src/common/common_utils.cpp
+++ b/src/common/common_utils.cpp
@@ -426,7 +426,11 @@ namespace yask {
     bool command_line_parser::int_option::check_arg(const string_vec& args,
                                                  int& argi) {
         if (_is_opt(args, argi, get_name())) {
-            _val = (int)_idx_val(args, argi); // TODO: check for over/underflow.
+            auto val = _idx_val(args, argi);
+            if (val < INT_MIN || val > INT_MAX)
+                THROW_YASK_EXCEPTION("argument for option '" + args[argi - 2] +
+                                     "' is not within the range of an integer");
+            _val = (int)val;
             return true;
         }
         return false;
-- 
2.43.0


From 64270feb72fab4b205ff32139564f5b4463aaef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 31/43] fix: keep the value of a list option when its argument
 is refused

---
 src/common/common_utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/common_utils.cpp b/src/common/common_utils.cpp
index 135faad..cf0dafa 100644
--- a/src/common/common_utils.cpp
+++ b/src/common/common_utils.cpp
@@ -478,7 +478,7 @@ namespace yask {
     bool command_line_parser::string_list_option::check_arg(const string_vec& args,
                                                         int& argi) {
         if (_is_opt(args, argi, get_name())) {
-            _val.clear();
+            string_vec vals;
             string strs = _string_val(args, argi);
             stringstream ss(strs);
             string str;
@@ -487,8 +487,9 @@ namespace yask {
                     THROW_YASK_EXCEPTION("illegal argument '" + quote_whitespace(str) +
                                          "' to option '" + args[argi - 2] + "'");
                 }
-                _val.push_back(str);
+                vals.push_back(str);
             }
+            _val = vals;
             return true;
         }
         return false;
-- 
2.43.0


From b70faeacb0bc5e11a854453fd8292c835bea5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 32/43] fix: honour requested rank indices

---
 src/kernel/lib/setup.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index edf05c8..b27d1f3 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -175,7 +175,6 @@ namespace yask {
         // All ranks should have the same settings for certain options.
         env->assert_equality_over_ranks(nr, "total number of MPI ranks");
         env->assert_equality_over_ranks(idx_t(actl_opts->use_shm), "use_shm setting");
-        env->assert_equality_over_ranks(idx_t(actl_opts->find_loc), "defined rank indices");
         DOMAIN_VAR_LOOP(i, j) {
             auto& dname = domain_dims.get_dim_name(j);
             env->assert_equality_over_ranks(actl_opts->_global_sizes[i],
@@ -237,10 +236,18 @@ namespace yask {
                                             actl_opts->_num_ranks.make_dim_val_str(" * ") + "), but " <<
                                             nr << " rank(s) are active");
 
-        // Determine my coordinates if not provided already.
+        // Determine my coordinates if not provided already, i.e., if no rank
+        // has requested any non-zero index.
         // TODO: do this more intelligently based on proximity.
+        bool req_loc = false;
+        DOMAIN_VAR_LOOP(i, j)
+            if (req_opts->_rank_indices[j] != 0)
+                req_loc = true;
+        actl_opts->find_loc = env->sum_over_ranks(req_loc ? 1 : 0) == 0;
         if (actl_opts->find_loc)
             actl_opts->_rank_indices = actl_opts->_num_ranks.unlayout(me);
+        else
+            actl_opts->_rank_indices = req_opts->_rank_indices;
 
         // Check rank indices.
         DOMAIN_VAR_LOOP(i, j) {
-- 
2.43.0


From 11bd08e4826c9248cc63d5301291c4168849f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 33/43] fix: use the OpenMP default number of threads for
 '-max_threads 0'

---
 src/kernel/lib/settings.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/settings.cpp b/src/kernel/lib/settings.cpp
index bea0503..2a6df6b 100644
--- a/src/kernel/lib/settings.cpp
+++ b/src/kernel/lib/settings.cpp
@@ -1047,8 +1047,8 @@ namespace yask {
     int KernelStateBase::set_max_threads() {
         STATE_VARS(this);
 
-        // Get max number of threads.
-        int mt = max(actl_opts->max_threads, 1);
+        // Get max number of threads; zero => OpenMP default.
+        int mt = max(actl_opts->max_threads ? actl_opts->max_threads : env->max_threads, 1);
 
         // Set num threads to use for inner and outer loops.
         yask_num_threads[0] = mt;
@@ -1063,7 +1063,8 @@ namespace yask {
     int KernelStateBase::get_num_comp_threads(int& outer_threads, int& inner_threads) const {
         STATE_VARS(this);
 
-        int mt = max(actl_opts->max_threads, 1);
+        // Zero => OpenMP default.
+        int mt = max(actl_opts->max_threads ? actl_opts->max_threads : env->max_threads, 1);
 
         int it = max(actl_opts->num_inner_threads, 1);
         it = min(it, mt);
-- 
2.43.0


From aaf320fe77e20c2ecf9fa9186d77e08ae18094cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 34/43] fix: refuse negative domain sizes

---
 src/kernel/lib/setup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index b27d1f3..d5744b0 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -182,6 +182,11 @@ namespace yask {
             env->assert_equality_over_ranks(actl_opts->_num_ranks[j],
                                             "number of ranks in '" + dname + "' dimension");
 
+            // Check that sizes are not negative.
+            if (actl_opts->_global_sizes[i] < 0 || actl_opts->_rank_sizes[i] < 0)
+                THROW_YASK_EXCEPTION("local-domain size or global-domain size is negative in '" +
+                                     dname + "' dimension on rank " + to_string(me));
+
             // Check that either local or global size is set.
             if (!actl_opts->_global_sizes[i] && !actl_opts->_rank_sizes[i])
                 THROW_YASK_EXCEPTION("both local-domain size and "
-- 
2.43.0


From 6b7955660b0b5984240772d3f23899eeac08e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:43 +0000
Subject: [PATCH 35/43] fix: undo var size changes that are refused

---
 src/kernel/lib/yk_var_apis.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 544586e..226bd16 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -83,19 +83,22 @@ namespace yask {
                       #api_name "('" << dim << "', " << n << ")");      \
             dims->check_dim_type(dim, #api_name, step_ok, domain_ok, misc_ok); \
             int posn = gb().get_dim_posn(dim, true, #api_name);         \
-            auto cp = corep();                                          \
-            expr;                                                       \
-            if (need_resize) resize();                                  \
-            else sync_core();                                           \
+            api_name(posn, n);                                          \
         }                                                               \
         void YkVarImpl::api_name(int posn, idx_t n) {                   \
             STATE_VARS(gbp());                                          \
             TRACE_MSG("var '" << get_name() << "'."                     \
                       #api_name "('" << posn << "', " << n << ")");     \
             auto cp = corep();                                          \
-            expr;                                                       \
-            if (need_resize) resize();                                  \
-            else sync_core();                                           \
+            YkVarBaseCore saved(*cp);                                   \
+            try {                                                       \
+                expr;                                                   \
+                if (need_resize) resize();                              \
+                else sync_core();                                       \
+            } catch (...) {                                             \
+                *cp = saved; /* undo change that was refused. */        \
+                throw;                                                  \
+            }                                                           \
         }
 
     // Add vector versions that take only domain-dim vals.
-- 
2.43.0


From 23c3f257db0dcdac4e92b4d7ae9c4494ed6d6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 36/43] fix: check compatibility of all fused vars and keep the
 sizes needed by the equations

---
 src/kernel/lib/soln_apis.cpp   |  9 +++++
 src/kernel/lib/yk_var_apis.cpp | 68 ++++++++++++++++++++++++++--------
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 7af6e26..2219fc2 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -272,6 +272,15 @@ namespace yask {
         auto sp = dynamic_pointer_cast<StencilContext>(source);
         assert(sp);
 
+        // Check all pairs before fusing any.
+        for (auto gp : all_var_ptrs) {
+            auto si = sp->all_var_map.find(gp->get_name());
+            if (si != sp->all_var_map.end() &&
+                !gp->is_storage_layout_identical(si->second.get(), false))
+                THROW_YASK_EXCEPTION("fuse_vars(): incompatible vars named '" +
+                                     gp->get_name() + "'");
+        }
+
         for (auto gp : all_var_ptrs) {
             auto gname = gp->get_name();
             auto si = sp->all_var_map.find(gname);
diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 226bd16..16d098a 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -343,28 +343,66 @@ namespace yask {
         auto* sp = op.get();
         assert(!_gbp->is_scratch());
 
-        // Check conditions for fusing into a non-user var.
-        bool force_native = false;
-        if (gb().is_user_var()) {
-            force_native = true;
-            if (!is_storage_layout_identical(sp, false))
-                THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
-                                     " of " + gb().make_info_string() +
-                                     " used in solution with incompatible " +
-                                     sp->gb().make_info_string());
+        // Dims and folds must be the same.
+        if (!is_storage_layout_identical(sp, false))
+            THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
+                                 " of " + gb().make_info_string() +
+                                 " with incompatible " +
+                                 sp->gb().make_info_string());
+
+        // Fusing into a non-user var?
+        bool force_native = !gb().is_user_var();
+
+        // The equations depend on the sizes of a non-user var.
+        if (force_native) {
+            auto cp = corep();
+            auto scp = sp->corep();
+            for (int i = 0; i < get_num_dims(); i++) {
+                idx_t mbit = 1LL << i;
+                bool ok = true;
+                if (gb()._step_dim_mask & mbit)
+                    ok = is_dynamic_step_alloc() ||
+                        cp->_domains[i] == scp->_domains[i];
+                else if (gb()._misc_dim_mask & mbit)
+                    ok = is_dynamic_misc_alloc() ||
+                        (cp->_domains[i] == scp->_domains[i] &&
+                         cp->_local_offsets[i] == scp->_local_offsets[i]);
+                if (!ok)
+                    THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
+                                         " of " + gb().make_info_string() +
+                                         " used in solution with that of " +
+                                         sp->gb().make_info_string() +
+                                         " because sizes in '" + get_dim_name(i) +
+                                         "' are not the same");
+            }
+
+            // Source needs at least the same halos.
+            YkVarBaseCore saved(*scp);
+            try {
+                for (int i = 0; i < get_num_dims(); i++) {
+                    scp->_left_halos[i] = max(scp->_left_halos[i], cp->_left_halos[i]);
+                    scp->_right_halos[i] = max(scp->_right_halos[i], cp->_right_halos[i]);
+                }
+                sp->resize();
+            } catch (...) {
+                *scp = saved;
+                throw;
+            }
+            sp->gb()._l1_dist = max(sp->gb()._l1_dist, gb()._l1_dist);
+
+            // Tag var as a non-user var.
+            sp->gb().set_user_var(false);
+            sp->gb()._is_dynamic_step_alloc = gb()._is_dynamic_step_alloc;
+            sp->gb()._is_dynamic_misc_alloc = gb()._is_dynamic_misc_alloc;
         }
 
-        // Copy shared-ptr to keep source YkVarBase active to end of method.
-        VarBasePtr st_gbp = sp->_gbp;
+        // Copy shared-ptr to keep original YkVarBase active to end of method.
+        VarBasePtr orig_gbp = _gbp;
 
         // Fuse meta-data.
         // After this, both YkVarImpls will point to same YkVarBase.
         _gbp = sp->_gbp;
 
-        // Tag var as a non-user var if the original one was.
-        if (force_native)
-            _gbp->set_user_var(false);
-
         TRACE_MSG("after fusing this=" << gb().make_info_string() <<
                   "; source=" << op->gb().make_info_string());
     }
-- 
2.43.0


From 59d3d3c06b251b91a3ee82c47d5059cf4bee82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 37/43] fix: do not change the solution when a new var is
 refused

---
 src/kernel/lib/new_var.cpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/new_var.cpp b/src/kernel/lib/new_var.cpp
index deb1529..e8c13b2 100644
--- a/src/kernel/lib/new_var.cpp
+++ b/src/kernel/lib/new_var.cpp
@@ -42,7 +42,16 @@ namespace yask {
                                                 gdims.size() << " dimension names but " << sizes->size() <<
                                                 " dimension sizes");
             }
+            for (size_t i = 0; i < sizes->size(); i++)
+                if (sizes->at(i) < (gdims.at(i) == step_dim ? 1 : 0))
+                    FORMAT_AND_THROW_YASK_EXCEPTION("attempt to create var '" << name <<
+                                                    "' with size " << sizes->at(i) <<
+                                                    " in dimension '" << gdims.at(i) << "'");
         }
+        if (all_var_map.count(name))
+            THROW_YASK_EXCEPTION("var '" + name + "' already exists");
+
+        auto saved_misc_dims = misc_dims;
 
         // First, try to make a var that matches the layout in
         // the stencil.
@@ -63,6 +72,7 @@ namespace yask {
             int ndims = gdims.size();
             bool step_used = false;
             set<string> seen_dims;
+            VarDimNames new_misc_dims;
             for (int i = 0; i < ndims; i++) {
                 auto& gdim = gdims[i];
 
@@ -93,9 +103,17 @@ namespace yask {
 
                 // New misc dim?
                 else {
-                    misc_dims.add_dim_back(gdim, 0);
+                    new_misc_dims.push_back(gdim);
                 }
+                seen_dims.insert(gdim);
             }
+            if (ndims > MAX_DIMS)
+                FORMAT_AND_THROW_YASK_EXCEPTION("cannot create new var '" << name <<
+                                                "' with dimensions '" << dtup.make_dim_str() <<
+                                                "'; only up to " << MAX_DIMS <<
+                                                " dimensions supported");
+            for (auto& gdim : new_misc_dims)
+                misc_dims.add_dim_back(gdim, 0);
 
             // Scalar?
             if (ndims == 0) {
@@ -153,8 +171,18 @@ namespace yask {
         }
 
         // Set sizes based on solution settings.
-        else
-            update_var_info(false);
+        else {
+            try {
+                update_var_info(false);
+            } catch (...) {
+
+                // Undo if any other var cannot be updated.
+                all_var_ptrs.pop_back();
+                all_var_map.erase(name);
+                misc_dims = saved_misc_dims;
+                throw;
+            }
+        }
 
         return ygp;
     }
-- 
2.43.0


From bda04011ca5a3f2e23fe90262300c807b18ce27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 38/43] fix: refuse invalid allocation sizes

---
 src/kernel/lib/yk_var_apis.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 16d098a..85636c1 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -263,6 +263,9 @@ namespace yask {
                 cp->_local_offsets[posn] = n,
                 false, false, gb()._is_user_var, false)
     SET_VAR_API(set_alloc_size,
+                if (n < ((gb()._step_dim_mask >> posn) & 1))
+                    THROW_YASK_EXCEPTION("invalid allocation size " + to_string(n) +
+                                         " for var '" + get_name() + "'");
                 cp->_domains[posn] = n,
                 gb()._is_dynamic_step_alloc, gb()._fixed_size, gb()._is_dynamic_misc_alloc, true)
 
-- 
2.43.0


From a6605499abe8520ad46d9d478d1a86c35409f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 39/43] fix: undo solution size changes that are refused

---
 src/kernel/lib/context.hpp   |  1 +
 src/kernel/lib/setup.cpp     | 19 +++++++++++++++++++
 src/kernel/lib/soln_apis.cpp | 32 ++++++++++++++++++++++++++++----
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index 7ff8d50..ba7913f 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -443,6 +443,7 @@ namespace yask {
         // Set var sizes and offsets.
         // This should be called anytime a setting or offset is changed.
         virtual void update_var_info(bool force);
+        void _update_var_info(bool force);
 
         // Set temporal blocking data.
         // This should be called anytime a block size is changed.
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index d5744b0..e43f397 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -684,6 +684,25 @@ namespace yask {
         if (!st_stages.size())
             return;
 
+        // Save all var sizes so that they can be restored if any change is refused.
+        auto saved_halos = max_halos;
+        vector<YkVarBaseCore> saved_cores;
+        for (auto gp : all_var_ptrs)
+            saved_cores.push_back(*gp->corep());
+        try {
+            _update_var_info(force);
+        } catch (...) {
+            for (size_t i = 0; i < all_var_ptrs.size(); i++)
+                *all_var_ptrs[i]->corep() = saved_cores[i];
+            for (auto gp : all_var_ptrs)
+                gp->resize();
+            max_halos = saved_halos;
+            throw;
+        }
+    }
+    void StencilContext::_update_var_info(bool force) {
+        STATE_VARS(this);
+
         // Reset max halos to zero.
         max_halos = dims->_domain_dims;
 
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 2219fc2..1b667e4 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -50,9 +50,17 @@ namespace yask {
             TRACE_MSG("solution '" << get_name() << "'.set_"            \
                       #api_name "('" << dim << "', " << n << ")");      \
             dims->check_dim_type(dim, "set_" #api_name, step_ok, domain_ok, misc_ok); \
+            auto saved_req = req_opts->expr;                            \
+            auto saved_actl = actl_opts->expr;                          \
             req_opts->expr[dim] = n;                                    \
             actl_opts->expr[dim] = n;                                   \
-            update_var_info(false);                                     \
+            try {                                                       \
+                update_var_info(false);                                 \
+            } catch (...) {                                             \
+                req_opts->expr = saved_req;                             \
+                actl_opts->expr = saved_actl;                           \
+                throw;                                                  \
+            }                                                           \
             if (reset_prep) set_prepared(false);                        \
         }                                                               \
         void StencilContext::set_ ## api_name ## _vec(const idx_t_vec& vals) { \
@@ -62,9 +70,17 @@ namespace yask {
             if (vals.size() != NUM_DOMAIN_DIMS)                         \
                 THROW_YASK_EXCEPTION("set_'" #api_name                  \
                                      "_vec()' called without the proper number of domain dims"); \
+            auto saved_req = req_opts->expr;                            \
+            auto saved_actl = actl_opts->expr;                          \
             req_opts->expr.set_vals(start_i, vals);                     \
-            actl_opts->expr.set_vals(start_i, vals);                     \
-            update_var_info(false);                                     \
+            actl_opts->expr.set_vals(start_i, vals);                    \
+            try {                                                       \
+                update_var_info(false);                                 \
+            } catch (...) {                                             \
+                req_opts->expr = saved_req;                             \
+                actl_opts->expr = saved_actl;                           \
+                throw;                                                  \
+            }                                                           \
             if (reset_prep) set_prepared(false);                        \
         }                                                               \
         void StencilContext::set_ ## api_name ## _vec(const idx_t_init_list& vals) { \
@@ -74,9 +90,17 @@ namespace yask {
             if (vals.size() != NUM_DOMAIN_DIMS)                         \
                 THROW_YASK_EXCEPTION("set_'" #api_name                  \
                                      "_vec()' called without the proper number of domain dims"); \
+            auto saved_req = req_opts->expr;                            \
+            auto saved_actl = actl_opts->expr;                          \
             req_opts->expr.set_vals(start_i, vals);                     \
             actl_opts->expr.set_vals(start_i, vals);                    \
-            update_var_info(false);                                     \
+            try {                                                       \
+                update_var_info(false);                                 \
+            } catch (...) {                                             \
+                req_opts->expr = saved_req;                             \
+                actl_opts->expr = saved_actl;                           \
+                throw;                                                  \
+            }                                                           \
             if (reset_prep) set_prepared(false);                        \
         }
     #define SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep) \
-- 
2.43.0


From b6acf4e34a994213d3cf467c0a3fdff239f7e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 40/43] fix: refuse to run when vars were replaced, released or
 resized after preparation

---
 src/kernel/lib/auto_tuner.cpp |  3 +--
 src/kernel/lib/context.cpp    |  5 +++--
 src/kernel/lib/context.hpp    | 13 +++++++++++--
 src/kernel/lib/halo.cpp       |  2 ++
 src/kernel/lib/soln_apis.cpp  | 31 +++++++++++++++++++++++++++++++
 5 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 25d2056..9714c79 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -527,8 +527,7 @@ namespace yask {
     // Will alter data in vars.
     void StencilContext::run_auto_tuner_now(bool verbose) {
         STATE_VARS(this);
-        if (!is_prepared())
-            THROW_YASK_EXCEPTION("run_auto_tuner_now() called without calling prepare_solution() first");
+        check_prepared("run_auto_tuner_now");
 
         DEBUG_MSG("\nAuto-tuning...");
         YaskTimer at_timer;
diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 5e0fc4b..2ecaadd 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -46,6 +46,7 @@ namespace yask {
     void StencilContext::run_ref(idx_t first_step_index,
                                  idx_t last_step_index) {
         STATE_VARS(this);
+        check_prepared("run_ref");
         run_time.start();
 
         // Since any APIs may have been called in other ranks, mark all
@@ -226,6 +227,8 @@ namespace yask {
         // User-provided code.
         call_2idx_hooks(_before_run_solution_hooks,
                         first_step_index, last_step_index);
+        check_prepared("run_solution");
+
         // Start main timer.
         run_time.start();
 
@@ -262,8 +265,6 @@ namespace yask {
                   begin.make_dim_val_str() << " ... " <<
                   end.make_dim_val_str() << ") by " <<
                   stride.make_dim_val_str());
-        if (!is_prepared())
-            THROW_YASK_EXCEPTION("run_solution() called without calling prepare_solution() first");
         if (ext_bb.bb_size < 1) {
             TRACE_MSG("nothing to do in solution");
         }
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index ba7913f..2e8306c 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -314,6 +314,11 @@ namespace yask {
         // Vars for tracking things in a stage: vecs with one entry per outer thread.
         std::vector<StencilPartUSet> _parts_done;
         std::vector<VarPtrUSet> _vars_written;
+
+        // Whether prepare_solution() was completed, and
+        // vars and their layouts at that time.
+        bool _is_prepared = false;
+        std::vector<std::pair<const YkVarBase*, YkVarBaseCore>> _prepared_vars;
          
         // Elapsed-time tracking.
         YaskTimer run_time;     // time in run_solution(), including halo exchange.
@@ -373,12 +378,16 @@ namespace yask {
 
         // Ready?
         bool is_prepared() const {
-            return rank_bb.bb_valid;
+            return _is_prepared;
         }
         void set_prepared(bool prep) {
-            rank_bb.bb_valid = prep;
+            _is_prepared = prep;
         }
 
+        // Check that the solution has been prepared and that its vars are
+        // still those prepared. Throws an exception if not.
+        void check_prepared(const std::string& api_name) const;
+
         // Reset elapsed times to zero.
         void clear_timers();
 
diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index 62e6b95..c4d2ecc 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -67,6 +67,8 @@ namespace yask {
 
     // Exchange dirty halo data for all vars and all steps.
     void StencilContext::exchange_halos() {
+        if (is_prepared())
+            check_prepared("exchange_halos");
 
         // Other ranks may have written to their vars since the last
         // exchange, so their halo data must be requested.
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 1b667e4..140db84 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -165,6 +165,9 @@ namespace yask {
         // User-provided code.
         call_hooks(_before_prepare_solution_hooks);
 
+        // Not ready until all of the following is done.
+        set_prepared(false);
+
         // Don't continue until all ranks are this far.
         env->global_barrier();
 
@@ -267,15 +270,43 @@ namespace yask {
 
         init_work_stats();
 
+        // Ready now. Remember the state of the vars.
+        _prepared_vars.clear();
+        for (auto gp : orig_var_ptrs)
+            _prepared_vars.emplace_back(gp->gbp(), *gp->corep());
+        set_prepared(true);
+
         // User-provided code.
         call_hooks(_after_prepare_solution_hooks);
 
     } // prepare_solution().
 
+    // Check that vars have not been replaced, released, or changed in size
+    // since prepare_solution().
+    void StencilContext::check_prepared(const string& api_name) const {
+        if (!is_prepared())
+            THROW_YASK_EXCEPTION(api_name + "() called without calling prepare_solution() first");
+        for (size_t i = 0; i < orig_var_ptrs.size(); i++) {
+            auto& gp = orig_var_ptrs[i];
+            auto* cp = gp->corep();
+            auto& pv = _prepared_vars.at(i);
+            auto& pc = pv.second;
+            bool ok = gp->gbp() == pv.first && gp->is_storage_allocated() &&
+                cp->_domains == pc._domains &&
+                cp->_actl_left_pads == pc._actl_left_pads &&
+                cp->_actl_right_pads == pc._actl_right_pads &&
+                cp->_rank_offsets == pc._rank_offsets;
+            if (!ok)
+                THROW_YASK_EXCEPTION(api_name + "() called after changing var '" + gp->get_name() +
+                                     "' without calling prepare_solution() again");
+        }
+    }
+
     // Dealloc vars, etc.
     void StencilContext::end_solution() {
         STATE_VARS(this);
         TRACE_MSG("end_solution()...");
+        set_prepared(false);
 
         // Release any MPI data.
         env->global_barrier();
-- 
2.43.0


From 56f5761915e7661f800d2ee7709fb66647ab589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 41/43] fix: require another preparation after options were
 changed

---
 src/kernel/lib/soln_apis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 140db84..5e98e31 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -361,6 +361,7 @@ namespace yask {
     string StencilContext::apply_command_line_options(const vector<string>& args) {
         STATE_VARS(this);
         string rem;
+        auto old_vals = get_command_line_values();
 
         // Apply settings to actual and requested options.
         for (auto& cur_opts : { actl_opts, req_opts }) {
@@ -373,6 +374,10 @@ namespace yask {
             rem = parser.parse_args("YASK", args);
         }
 
+        // Need to prepare for new settings as with the individual APIs.
+        if (get_command_line_values() != old_vals)
+            set_prepared(false);
+
         return rem;
     }
 
-- 
2.43.0


From 0b98f294aa235f4f07509da627a1f0aaf99d5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 42/43] fix: keep wave-front angles in step with mega-block
 sizes set by the auto-tuner

---
 src/kernel/lib/auto_tuner.cpp |  3 +-
 src/kernel/lib/context.cpp    | 53 +++++++++++++++++++--------------
 src/kernel/lib/context.hpp    |  4 +++
 src/kernel/lib/setup.cpp      | 56 ++++++++++++++++++++++-------------
 4 files changed, 71 insertions(+), 45 deletions(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 9714c79..b117e18 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -494,8 +494,9 @@ namespace yask {
         // Make sure everything is adjusted based on new target size.
         _settings->adjust_settings(do_print ? this : 0);
         
-        // Update temporal blocking info.
+        // Update temporal tiling info.
         // (Normally called from update_var_info().)
+        _context->update_wf_angles();
         _context->update_tb_info();
 
         // Reallocate scratch vars based on new micro-block size.
diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 2ecaadd..5097535 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -307,18 +307,6 @@ namespace yask {
             //                      |XXXXXX|         |XXXXX|  <- redundant calculations.
             // XXXXXX|  <- areas outside of outer ranks not calculated ->  |XXXXXXX
             //
-            if (wf_steps > 0) {
-                DOMAIN_VAR_LOOP_FAST(i, j) {
-
-                    // The end should be adjusted only if an extension doesn't
-                    // exist.  Extentions exist between ranks, so additional
-                    // adjustments are only needed at the end of the right-most
-                    // rank in each dim.  See "(adj)" in diagram above.
-                    if (right_wf_exts[j] == 0)
-                        end[i] += wf_shift_pts[j];
-                }
-            }
-
             // At this point, 'begin' and 'end' should describe the *max* range
             // needed in the domain for this rank for the first time step.  At
             // any subsequent time step, this max may be shifted for temporal
@@ -328,17 +316,35 @@ namespace yask {
 
             // Indices needed for the 'rank' loops.
             ScanIndices rank_idxs(true, &rank_domain_offsets);
-            rank_idxs.begin = begin;
-            rank_idxs.end = end;
-            rank_idxs.stride = stride;
-            rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
-            rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
-                                           actl_opts->_rank_tile_sizes,
-                                           actl_opts->_mega_block_sizes);
-            TRACE_MSG("after adjustment for " << num_wf_shifts <<
-                      " wave-front shift(s): " <<
-                      rank_idxs.make_range_str(true));
-           
+
+            // Set the indices based on the current settings.
+            auto set_rank_idxs = [&]() {
+                stride.set_vals(actl_opts->_mega_block_sizes, false);
+                stride[step_posn] = stride_t;
+                rank_idxs.begin = begin;
+                rank_idxs.end = end;
+                if (wf_steps > 0) {
+                    DOMAIN_VAR_LOOP_FAST(i, j) {
+
+                        // The end should be adjusted only if an extension doesn't
+                        // exist.  Extentions exist between ranks, so additional
+                        // adjustments are only needed at the end of the right-most
+                        // rank in each dim.  See "(adj)" in diagram above.
+                        if (right_wf_exts[j] == 0)
+                            rank_idxs.end[i] += wf_shift_pts[j];
+                    }
+                }
+                rank_idxs.stride = stride;
+                rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
+                rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
+                                               actl_opts->_rank_tile_sizes,
+                                               actl_opts->_mega_block_sizes);
+                TRACE_MSG("after adjustment for " << num_wf_shifts <<
+                          " wave-front shift(s): " <<
+                          rank_idxs.make_range_str(true));
+            };
+            set_rank_idxs();
+
             // Make sure threads are set properly for a mega-block.
             set_num_outer_threads();
 
@@ -599,6 +605,7 @@ namespace yask {
                 auto this_time = _at.timer.stop();
                 _at.steps_done += this_num_t;
                 eval_auto_tuner();
+                set_rank_idxs(); // because sizes may have been changed.
                 TRACE_MSG("did " << this_num_t << " step(s) in " << this_time << " secs.");
 
             } // step loop.
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index 2e8306c..e47ed00 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -454,6 +454,10 @@ namespace yask {
         virtual void update_var_info(bool force);
         void _update_var_info(bool force);
 
+        // Set wave-front angles.
+        // This should be called anytime a mega-block size is changed.
+        virtual void update_wf_angles();
+
         // Set temporal blocking data.
         // This should be called anytime a block size is changed.
         virtual void update_tb_info();
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index e43f397..58c56fe 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -767,30 +767,11 @@ namespace yask {
         assert(num_wf_shifts >= 0);
 
         // Calculate angles and related settings.
+        update_wf_angles();
         for (auto& dim : domain_dims) {
             auto& dname = dim._get_name();
-            auto rnsize = actl_opts->_mega_block_sizes[dname];
             auto rksize = actl_opts->_rank_sizes[dname];
-            auto nranks = actl_opts->_num_ranks[dname];
-
-            // Req'd shift in this dim based on max halos.
-            idx_t angle = ROUND_UP(max_halos[dname], dims->_fold_pts[dname]);
-
-            // Determine the spatial skewing angles for WF tiling.  We
-            // only need non-zero angles if the mega-block size is less than the
-            // rank size or there are other ranks in this dim, i.e., if
-            // the mega-block covers the *global* domain in a given dim, no
-            // wave-front shifting is needed in that dim.
-            idx_t wf_angle = 0;
-            if (rnsize < rksize || nranks > 1)
-                wf_angle = angle;
-            wf_angles.add_dim_back(dname, wf_angle);
-            assert(angle >= 0);
-
-            // Determine the total WF shift to be added in each dim.
-            idx_t shifts = wf_angle * num_wf_shifts;
-            wf_shift_pts[dname] = shifts;
-            assert(shifts >= 0);
+            auto shifts = wf_shift_pts[dname];
 
             // Is domain size at least as large as halo + wf_ext in direction
             // when there are multiple ranks? (Cannot be checked until the
@@ -836,6 +817,39 @@ namespace yask {
 
     } // update_var_info().
 
+    // Set wave-front angles and shifts. This should be called anytime a
+    // mega-block size is changed. Sizes that depend on the existence of
+    // other ranks are not affected by the mega-block sizes.
+    void StencilContext::update_wf_angles() {
+        STATE_VARS(this);
+
+        for (auto& dim : domain_dims) {
+            auto& dname = dim._get_name();
+            auto rnsize = actl_opts->_mega_block_sizes[dname];
+            auto rksize = actl_opts->_rank_sizes[dname];
+            auto nranks = actl_opts->_num_ranks[dname];
+
+            // Req'd shift in this dim based on max halos.
+            idx_t angle = ROUND_UP(max_halos[dname], dims->_fold_pts[dname]);
+
+            // Determine the spatial skewing angles for WF tiling.  We
+            // only need non-zero angles if the mega-block size is less than the
+            // rank size or there are other ranks in this dim, i.e., if
+            // the mega-block covers the *global* domain in a given dim, no
+            // wave-front shifting is needed in that dim.
+            idx_t wf_angle = 0;
+            if (rnsize < rksize || nranks > 1)
+                wf_angle = angle;
+            wf_angles.add_dim_back(dname, wf_angle);
+            assert(angle >= 0);
+
+            // Determine the total WF shift to be added in each dim.
+            idx_t shifts = wf_angle * num_wf_shifts;
+            wf_shift_pts[dname] = shifts;
+            assert(shifts >= 0);
+        }
+    }
+
     // Adjust offsets of scratch vars based on thread number 'thread_idx'
     // and beginning point of micro-block 'idxs'.  Each scratch-var is
     // assigned to a thread, so it must "move around" as the thread is
-- 
2.43.0


From a1130f53502faf84a91c4bfacbf6209c809ceac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 43/43] fix: count the work of conditional parts only in the
 steps they run

---
 src/kernel/lib/context.cpp      |  4 ++--
 src/kernel/lib/soln_apis.cpp    |  8 ++++----
 src/kernel/lib/stencil_calc.cpp | 28 ++++++++++++++++++++++++++--
 src/kernel/lib/stencil_calc.hpp | 19 +++++++++++++++++--
 4 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 5097535..963977d 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -590,12 +590,12 @@ namespace yask {
                 // Overall steps.
                 steps_done += this_num_t;
 
-                // Count steps for each stage to properly account for
+                // Count steps and work for each stage to properly account for
                 // step conditions when using temporal tiling.
                 for (auto& bp : st_stages) {
 
                     // Add to steps done for this stage.
-                    bp->add_steps(this_num_t);
+                    bp->add_steps(start_t, stop_t);
                 }
 
                 // Call the auto-tuner to evaluate these steps and change
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 5e98e31..dd5f124 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -488,9 +488,9 @@ namespace yask {
             auto& ps = sp->stats;
             ps.nsteps = ns;
             ps.npts = tot_domain_pts; // NOT sum over steps.
-            ps.nreads = sp->tot_reads_per_step * ns;
-            ps.nwrites = sp->tot_writes_per_step * ns;
-            ps.nfpops = sp->tot_fpops_per_step * ns;
+            ps.nreads = sp->reads_done;
+            ps.nwrites = sp->writes_done;
+            ps.nfpops = sp->fpops_done;
 
             // Add to total work.
             psteps += ns;
@@ -645,7 +645,7 @@ namespace yask {
         steps_done = 0;
         for (auto& sp : st_stages) {
             sp->timer.clear();
-            sp->steps_done = 0;
+            sp->clear_steps();
         }
     }
 
diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index abdf630..4e5b227 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -445,8 +445,27 @@ namespace yask {
     void Stage::stop_timers() {
         timer.stop();
     }
-    void Stage::add_steps(idx_t num_steps) {
-        steps_done += num_steps;
+    // Count steps from 'start_t' to, but not including, 'stop_t' and
+    // the work done by the parts that are valid in each one.
+    void Stage::add_steps(idx_t start_t, idx_t stop_t) {
+        const idx_t dir = (start_t <= stop_t) ? 1 : -1;
+        for (idx_t t = start_t; t != stop_t; t += dir) {
+            for (auto& pw : part_work) {
+                if (pw.nonscratch_part->is_in_valid_step(t) &&
+                    pw.part->is_in_valid_step(t)) {
+                    reads_done += pw.reads;
+                    writes_done += pw.writes;
+                    fpops_done += pw.fpops;
+                }
+            }
+            steps_done++;
+        }
+    }
+    void Stage::clear_steps() {
+        steps_done = 0;
+        reads_done = 0;
+        writes_done = 0;
+        fpops_done = 0;
     }
 
     static void print_var_list(ostream& os, const VarPtrs& gps, const string& type) {
@@ -475,6 +494,7 @@ namespace yask {
         num_reads_per_step = 0;
         num_writes_per_step = 0;
         num_fpops_per_step = 0;
+        part_work.clear();
 
         DEBUG_MSG("Stage '" << get_name() << "':\n" <<
                   " num non-scratch parts:     " << size() << endl <<
@@ -526,6 +546,10 @@ namespace yask {
                 num_reads_per_step += reads[bname];
                 num_writes_per_step += writes[bname];
                 num_fpops_per_step += fpops[bname];
+                part_work.push_back({ sg, rsg,
+                        env->sum_over_ranks(reads[bname]),
+                        env->sum_over_ranks(writes[bname]),
+                        env->sum_over_ranks(fpops[bname]) });
 
                 if (actl_opts->_verbose) {
                     DEBUG_MSG("  part '" << rsg->get_name() << "':");
diff --git a/src/kernel/lib/stencil_calc.hpp b/src/kernel/lib/stencil_calc.hpp
index 2c1628e..fca863a 100644
--- a/src/kernel/lib/stencil_calc.hpp
+++ b/src/kernel/lib/stencil_calc.hpp
@@ -899,12 +899,26 @@ namespace yask {
         idx_t steps_done = 0;
         Stats stats;
 
+        // Work per step across all ranks for each needed part.
+        struct PartWork {
+            StencilPartBase* nonscratch_part;
+            StencilPartBase* part; // 'nonscratch_part' or one of its scratch parts.
+            idx_t reads, writes, fpops;
+        };
+        std::vector<PartWork> part_work;
+
+        // Work done across all ranks in 'steps_done', considering step
+        // conditions.
+        idx_t reads_done = 0;
+        idx_t writes_done = 0;
+        idx_t fpops_done = 0;
+
         // Work needed across points in this rank.
         idx_t num_reads_per_step = 0;
         idx_t num_writes_per_step = 0;
         idx_t num_fpops_per_step = 0;
 
-        // Work done across all ranks.
+        // Work per step across all ranks, ignoring step conditions.
         idx_t tot_reads_per_step = 0;
         idx_t tot_writes_per_step = 0;
         idx_t tot_fpops_per_step = 0;
@@ -929,7 +943,8 @@ namespace yask {
         // Perf-tracking methods.
         void start_timers();
         void stop_timers();
-        void add_steps(idx_t num_steps);
+        void add_steps(idx_t start_t, idx_t stop_t);
+        void clear_steps();
 
     }; // Stage.
 
-- 
2.43.0

