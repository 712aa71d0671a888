From 60ca19c951884e517edeb6e3ed69ad47a3e0493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 01/19] fix: honor 'begin' in nested-thread branch of
 yask_parallel_for()

---
 src/common/common_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index d89100a..df45dca 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -267,8 +267,8 @@ namespace yask {
                     idx_t n0 = omp_get_thread_num();
 
                     // Calculate begin and end points for this thread.
-                    idx_t tbegin = div_equally_cumu_size_n(niter, nthr0, n0 - 1) * stride;
-                    idx_t tend = div_equally_cumu_size_n(niter, nthr0, n0) * stride;
+                    idx_t tbegin = begin + div_equally_cumu_size_n(niter, nthr0, n0 - 1) * stride;
+                    idx_t tend = begin + div_equally_cumu_size_n(niter, nthr0, n0) * stride;
                     tend = std::min(tend, end);
 
                     #ifdef DEBUG_PAR_FOR
-- 
2.43.0


From 091282c1f87e8d6eeb16172187942ef2b272c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 02/19] fix: reduction results: initial max, sum-of-squares
 value and join, min request check

---
 src/kernel/lib/yk_var.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 156a92f..ef395ba 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -575,7 +575,7 @@ namespace yask {
             double _sum = 0.0;
             double _sum_sq = 0.0;
             double _prod = 1.0;
-            double _max = std::numeric_limits<double>::min();
+            double _max = std::numeric_limits<double>::lowest();
             double _min = std::numeric_limits<double>::max();
 
             virtual ~red_res() { }
@@ -598,7 +598,7 @@ namespace yask {
             }
             double get_sum_squares() const {
                 if (_mask & yk_var::yk_sum_squares_reduction)
-                    return _sum;
+                    return _sum_sq;
                 THROW_YASK_EXCEPTION("Sum-of-squares reduction result was not requested in reduction_mask");
             }
             double get_product() const {
@@ -612,7 +612,7 @@ namespace yask {
                 THROW_YASK_EXCEPTION("Max reduction result was not requested in reduction_mask");
             }
             double get_min() const {
-                if (_mask & yk_var::yk_sum_reduction)
+                if (_mask & yk_var::yk_min_reduction)
                     return _min;
                 THROW_YASK_EXCEPTION("Min reduction result was not requested in reduction_mask");
             }
@@ -1437,7 +1437,7 @@ namespace yask {
                 auto* p = resp.get();
                 auto* resp = &rrv.at(i);
                 p->_sum += resp->_sum;
-                p->_sum_sq += resp->_sum;
+                p->_sum_sq += resp->_sum_sq;
                 p->_prod *= resp->_prod;
                 p->_max = std::max(p->_max, resp->_max);
                 p->_min = std::min(p->_min, resp->_min);
-- 
2.43.0


From 3342ed3bacd72aaffeda2f8f1eadf83b11204a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 03/19] fix: non-strict slice wholly outside the allocation
 touches no elements

---
 src/kernel/lib/yk_var.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index ef395ba..e4a7f71 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1113,6 +1113,14 @@ namespace yask {
                       make_index_string(first_indices) << " ... " <<
                       make_index_string(last_indices) << "]");
 
+            // If the slice is entirely outside the allocation in any dim,
+            // clipping moved a bound inward past the other one, so there is
+            // nothing to visit.
+            for (int i = 0; i < get_num_dims(); i++)
+                if (first_indices[i] < in_first_indices[i] ||
+                    last_indices[i] > in_last_indices[i])
+                    return 0;
+
             // Find range.
             auto range = get_slice_range(first_indices, last_indices);
             auto ne = range.product();
-- 
2.43.0


From 860c7b97490226cc3da34d8a39fbe01bc887f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 04/19] fix: set_elements_in_slice_same() marks only the steps
 it wrote

---
 src/kernel/lib/yk_var.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index e4a7f71..6712968 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1358,12 +1358,19 @@ namespace yask {
                                                            first_indices, last_indices,
                                                            on_device);
             
-            // Set appropriate dirty flags.
+            // Set appropriate dirty flags for the steps actually written.
             if (on_device)
                 _coh.mod_dev();
             else
                 _coh.mod_host();
-            set_dirty_in_slice(first_indices, last_indices);
+            if (n > 0) {
+                Indices first_set, last_set;
+                check_indices(first_indices, SetElem::fname(), strict_indices,
+                              true, false, &first_set);
+                check_indices(last_indices, SetElem::fname(), strict_indices,
+                              true, false, &last_set);
+                set_dirty_in_slice(first_set, last_set);
+            }
 
             // Return number of writes.
             return n;
-- 
2.43.0


From c6dc150d733dd16e58fa56aaee9d7af437e7f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 05/19] fix: set_element() updates the valid step indices as
 documented

---
 src/kernel/lib/yk_var_apis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index ec8f2ba..4f8c67f 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -406,6 +406,7 @@ namespace yask {
             // Don't check step index because this is a write-only API
             // that updates the step index.
             gb().check_indices(indices, "set_element", strict_indices, false, false)) {
+            gb().update_valid_step(indices);
             idx_t asi = gb().get_alloc_step_index(indices);
 
             gb().copy_data_from_device(); // TODO: make more efficient.
-- 
2.43.0


From 2d3d61aaaa945c166ae9ab9ba61de90632fb1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 06/19] fix: fuse_vars() layout check applies to the solution's
 own vars, not user vars

---
 src/kernel/lib/yk_var_apis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 4f8c67f..175e0c7 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -342,7 +342,7 @@ namespace yask {
 
         // Check conditions for fusing into a non-user var.
         bool force_native = false;
-        if (gb().is_user_var()) {
+        if (!gb().is_user_var()) {
             force_native = true;
             if (!is_storage_layout_identical(sp, false))
                 THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
-- 
2.43.0


From d0e3a63963397c46ceb912b870ebe1b4b0d12b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 07/19] fix: round the data-binding slab width up to the fold
 length

---
 src/kernel/lib/stencil_calc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index aad3e76..869a536 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -69,7 +69,9 @@ namespace yask {
         // and binding is enabled.
         bool bind_threads = nbt > 1 && settings.bind_inner_threads;
         int bind_posn = settings._bind_posn;
-        idx_t bind_slab_pts = settings._nano_block_sizes[bind_posn]; // Other sizes not used.
+        // Round up so that normalizing won't break later.
+        idx_t bind_slab_pts = ROUND_UP(settings._nano_block_sizes[bind_posn], // Other sizes not used.
+                                       stencil_fold_pts[bind_posn]);
 
         // Get the parts that need to be processed in
         // this block. This will be any prerequisite scratch-var
-- 
2.43.0


From 53d0f72fa18d5e53cf1a49ede4986f2d7106cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 08/19] fix: limit temporal-block steps by the size of a narrow
 last block

---
 src/kernel/lib/setup.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6b22fa6..1c3c5cb 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -936,6 +936,20 @@ namespace yask {
                               ", TB angle of " << tb_angle <<
                               ", and " << st_stages.size() << " stage(s)");
                     max_steps = min(max_steps, nsteps);
+
+                    // The last block may be narrower than the others.  When
+                    // there is no WF shift to trim its shapes, it must also
+                    // be wide enough for its trapezoid because the bridge on
+                    // its left depends on it. (Exception: nothing remains of
+                    // a block that fits in one shift after the first shift.)
+                    idx_t last_sz = actl_opts->_rank_sizes[i] % blksize;
+                    if (wf_angles[j] == 0 && last_sz > tb_angle) {
+                        nsteps = (max(last_sz, tb_angle * 2) + tb_angle * 2) / sh_pts;
+                        TRACE_MSG("update_tb_info: max TB steps in dim '" <<
+                                  dname << "' = " << nsteps <<
+                                  " due to last block size of " << last_sz);
+                        max_steps = min(max_steps, nsteps);
+                    }
                 }
             }
             tb_steps = min(tb_steps, max_steps);
-- 
2.43.0


From 127a444f395659c2e44cfe222feb60aa34499aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 09/19] fix: allow for micro-block shifts in the size of
 scratch vars

---
 src/kernel/lib/alloc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 87611df..a201654 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1118,7 +1118,8 @@ namespace yask {
                                 gp->_set_domain_size(dname, mblksize[dname]);
 
                                 // Conservative allowance for WF exts and/or temporal shifts.
-                                idx_t shift_pts = max(wf_shift_pts[dname], tb_angles[dname] * num_tb_shifts) * 2;
+                                idx_t shift_pts = max(wf_shift_pts[dname],
+                                                      max(tb_angles[dname], mb_angles[dname]) * num_tb_shifts) * 2;
                                 gp->_set_left_wf_ext(dname, shift_pts);
                                 gp->_set_right_wf_ext(dname, shift_pts);
 
-- 
2.43.0


From b1a12f65d678743ca6ea966884e7962da8c8be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 10/19] fix: size each scratch memory slot for the largest var
 that uses it

---
 src/kernel/lib/alloc.cpp | 63 +++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index a201654..8ac81ce 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1064,6 +1064,41 @@ namespace yask {
         using ThreadAndSlot = pair<int, int>;
         map<ThreadAndSlot, AllocData> mem_slot_data;
         
+        // Set sizes in vars and find the size needed by the largest var that
+        // uses each mem slot. Vars sharing a slot may have different sizes.
+        map<int, size_t> mem_slot_bytes;
+        for (auto* sgv : scratch_vecs) {
+            assert(sgv);
+            for (auto gp : *sgv) {
+                assert(gp);
+
+                // Loop through each domain dim.
+                for (auto& dim : domain_dims) {
+                    auto& dname = dim._get_name();
+
+                    if (gp->is_dim_used(dname)) {
+
+                        // Set domain size of scratch var to micro-block size.
+                        gp->_set_domain_size(dname, mblksize[dname]);
+
+                        // Conservative allowance for WF exts and/or temporal shifts.
+                        idx_t shift_pts = max(wf_shift_pts[dname],
+                                              max(tb_angles[dname], mb_angles[dname]) * num_tb_shifts) * 2;
+                        gp->_set_left_wf_ext(dname, shift_pts);
+                        gp->_set_right_wf_ext(dname, shift_pts);
+
+                        // For pads, use the max halos instead of the options.
+                        gp->update_extra_pad_size(dname, 0);
+                        gp->update_left_min_pad_size(dname, max_write_halo_left[dname]);
+                        gp->update_right_min_pad_size(dname, max_write_halo_right[dname]);
+                    }
+                } // dims.
+
+                auto& slot_bytes = mem_slot_bytes[gp->gb().get_scratch_mem_slot()];
+                slot_bytes = max(slot_bytes, size_t(gp->get_num_storage_bytes()));
+            }
+        }
+
         // Pass 0: count required size, allocate chunk of memory at end.
         // Pass 1: distribute parts of already-allocated memory chunk.
         for (int pass = 0; pass < 2; pass++) {
@@ -1105,32 +1140,6 @@ namespace yask {
                     if (new_slot)
                         mem_slots_seen[thr_num].insert(mem_slot);
 
-                    // Set sizes in var.
-                    if (pass == 0) {
-                    
-                        // Loop through each domain dim.
-                        for (auto& dim : domain_dims) {
-                            auto& dname = dim._get_name();
-
-                            if (gp->is_dim_used(dname)) {
-
-                                // Set domain size of scratch var to micro-block size.
-                                gp->_set_domain_size(dname, mblksize[dname]);
-
-                                // Conservative allowance for WF exts and/or temporal shifts.
-                                idx_t shift_pts = max(wf_shift_pts[dname],
-                                                      max(tb_angles[dname], mb_angles[dname]) * num_tb_shifts) * 2;
-                                gp->_set_left_wf_ext(dname, shift_pts);
-                                gp->_set_right_wf_ext(dname, shift_pts);
-
-                                // For pads, use the max halos instead of the options.
-                                gp->update_extra_pad_size(dname, 0);
-                                gp->update_left_min_pad_size(dname, max_write_halo_left[dname]);
-                                gp->update_right_min_pad_size(dname, max_write_halo_right[dname]);
-                            }
-                        } // dims.
-                    }
-
                     // If not bundling allocations, increase sequence number.
                     if (new_slot && !actl_opts->_bundle_allocs)
                         seq_num++;
@@ -1158,7 +1167,7 @@ namespace yask {
                     // Determine size used (also offset to next location).
                     size_t nbytes = gp->get_num_storage_bytes();
                     if (new_slot) {
-                        req_data->nbytes += ROUND_UP(nbytes + _data_buf_pad,
+                        req_data->nbytes += ROUND_UP(mem_slot_bytes.at(mem_slot) + _data_buf_pad,
                                                      CACHELINE_BYTES);
                         req_data->nvars++;
                         if (pass == 0)
-- 
2.43.0


From 79f85c029ccf094b7a77d3064cd300c96ebca709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 11/19] fix: get_compact_factors() with one item and
 conflicting hints

---
 src/common/tuple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/tuple.cpp b/src/common/tuple.cpp
index d7e8540..7e9f034 100644
--- a/src/common/tuple.cpp
+++ b/src/common/tuple.cpp
@@ -433,7 +433,7 @@ namespace yask {
                      return true; // keep looking.
                  });
 
-            if (best.product() == N)
+            if (best.get_num_dims() && best.product() == N)
                 break;          // done.
 
         } // keep or not.
-- 
2.43.0


From 8d35a384cddd492adc167ef7f7511f84e8dfe365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 12/19] fix: vector_set::erase() repairs the positions of later
 items

---
 src/common/common_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index df45dca..cf5f0e8 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -420,7 +420,7 @@ namespace yask {
                 _items.erase(_items.begin() + op);
 
                 // Repair positions of items after 'val'.
-                for (auto pi : _posn) {
+                for (auto& pi : _posn) {
                     auto& p = pi.second;
                     if (p > op)
                         p--;
-- 
2.43.0


From 6242fa74496d2b9d827691c5b124e2cbe1afb4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 13/19] fix: room for any set size in n_choose_k_set()

---
 src/common/combo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/combo.cpp b/src/common/combo.cpp
index a7e2f94..25553e1 100644
--- a/src/common/combo.cpp
+++ b/src/common/combo.cpp
@@ -86,7 +86,7 @@ namespace yask {
         }
 
         // Pick k items.
-        int ca[sizeof(size_t)];
+        int ca[sizeof(size_t) * 8];
         int j = 0;
         for (int i = 0; i < k-1; i++) {
             ca[i] = (i == 0) ? -1 : ca[i-1];
-- 
2.43.0


From adb9ff9308b189024673992f78122ac22d024df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 14/19] fix: fd_coeff() reads past its table when the order is
 not below the number of points

---
 src/contrib/coefficients/fd_coeff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrib/coefficients/fd_coeff.cpp b/src/contrib/coefficients/fd_coeff.cpp
index ca2a1b8..587188b 100644
--- a/src/contrib/coefficients/fd_coeff.cpp
+++ b/src/contrib/coefficients/fd_coeff.cpp
@@ -55,9 +55,9 @@ namespace yask {
         double c1, c2, c3;
         double x_0 = eval_point;
 
-        int m_idx = (order+1)*num_points;
+        int m_idx = num_points*num_points;
         int n_idx = num_points;
-        int dsz = m_idx * n_idx;
+        int dsz = m_idx * (order+1);
         vector<double> d(dsz);
     
         for (int i = 1; i < dsz; i++)
-- 
2.43.0


From abf5258128c43d8ac66a4088e71cec0dacd8ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 15/19] fix: use the rank indices requested by set_rank_index()
 and -ri

---
 src/kernel/lib/setup.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 1c3c5cb..86e9c62 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -172,6 +172,18 @@ namespace yask {
         auto me = env->my_rank;
         auto nr = env->num_ranks;
 
+        // Need to find rank indices unless they were requested by the user.
+        // Only one rank can be at the origin, so no rank has a non-zero
+        // index when they were not requested.
+        idx_t num_req = 0;
+        DOMAIN_VAR_LOOP(i, j) {
+            if (req_opts->_rank_indices[j] != 0)
+                num_req++;
+        }
+        actl_opts->find_loc = env->sum_over_ranks(num_req) == 0;
+        if (!actl_opts->find_loc)
+            actl_opts->_rank_indices = req_opts->_rank_indices;
+
         // All ranks should have the same settings for certain options.
         env->assert_equality_over_ranks(nr, "total number of MPI ranks");
         env->assert_equality_over_ranks(idx_t(actl_opts->use_shm), "use_shm setting");
-- 
2.43.0


From 67e134e0c7c134d0314eed1423fde4c83014a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 16/19] fix: no vectorized halo exchange when a rank does not
 begin on a vector boundary

---
 src/kernel/lib/alloc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 8ac81ce..ef084af 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -484,6 +484,14 @@ namespace yask {
                      mpi_info->has_all_vlen_mults[mpi_info->my_neighbor_index] &&
                      mpi_info->has_all_vlen_mults[neigh_idx];
 
+                 // My domain must also begin on a vector boundary because
+                 // indices are rounded below. Given the sizes, my neighbor's
+                 // does when mine does.
+                 DOMAIN_VAR_LOOP(i, j) {
+                     if (imod_flr(rank_domain_offsets[j], fold_pts[j]) != 0)
+                         vec_ok = false;
+                 }
+
                  // Determine size of MPI buffers between neigh_rank and my
                  // rank for each var and create those that are needed.  It
                  // is critical that the number, size, and shape of my
-- 
2.43.0


From a92a3d238023fb39095d8bba1daaba5fcf064769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 17/19] fix: all ranks of a shared-memory group allocate the
 shared halo buffers

---
 src/kernel/lib/alloc.cpp     | 14 ++++++++++++--
 src/kernel/lib/context.hpp   |  5 +++++
 src/kernel/lib/soln_apis.cpp |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index ef084af..94a553a 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -872,7 +872,9 @@ namespace yask {
         // A table for send-buffer offsets for all rank pairs for every var:
         // [var-name][sending-rank][receiving-rank]
         map<string, vector<vector<size_t>>> sb_ofs;
-        bool do_shm = false;
+        // All ranks in a shm group must take part in allocating and sharing,
+        // even those with no neighbor in the group.
+        bool do_shm = actl_opts->use_shm && env->num_shm_ranks > 1;
         auto my_shm_rank = env->my_shm_rank;
         assert(my_shm_rank == mpi_info->shm_ranks.at(mpi_info->my_neighbor_index));
 
@@ -1029,8 +1031,16 @@ namespace yask {
             } // vars.
 
             // Alloc for each mem type.
-            if (pass == 0)
+            if (pass == 0) {
+                auto shm_key = make_pair(_shmem_key, 0);
+                if (do_shm) {
+                    auto& shm_data = alloc_reqs[shm_key];
+                    shm_data.nbytes = max<size_t>(shm_data.nbytes, CACHELINE_BYTES);
+                }
                 _alloc_data(alloc_reqs, "MPI buffer");
+                if (do_shm)
+                    mpi_shm_base = alloc_reqs.at(shm_key).ptr;
+            }
 
             MPI_Barrier(env->shm_comm);
         } // MPI passes.
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index cb12985..83e353c 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -350,6 +350,10 @@ namespace yask {
         // Map key: var name.
         std::map<std::string, MPIData> mpi_data;
 
+        // MPI shm for halo buffers.  Kept here because it must be freed by
+        // all ranks in a shm group, even by those with no buffers in it.
+        std::shared_ptr<char> mpi_shm_base;
+
         // Constructor.
         StencilContext(KernelEnvPtr& kenv,
                        KernelSettingsPtr& actl_settings,
@@ -399,6 +403,7 @@ namespace yask {
         virtual void alloc_mpi_data();
         virtual void free_mpi_data() {
             mpi_data.clear();
+            mpi_shm_base.reset();
         }
 
         // Alloc scratch-var memory.
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 7af6e26..de2e151 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -255,7 +255,7 @@ namespace yask {
 
         // Release any MPI data.
         env->global_barrier();
-        mpi_data.clear();
+        free_mpi_data();
 
         // Release var data.
         for (auto gp : all_var_ptrs) {
-- 
2.43.0


From 886eff1b4e2143ad5a8b6d258ff251ef9311e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 18/19] fix: forget the neighbor ranks found by a previous
 prepare_solution()

---
 src/kernel/lib/setup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 86e9c62..76ea724 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -270,6 +270,11 @@ namespace yask {
         // Init starting indices for this rank.
         rank_domain_offsets.set_vals_same(0);
 
+        // Forget any neighbors from a previous call.
+        auto nsize = mpi_info->neighborhood_size;
+        mpi_info->my_neighbors.assign(nsize, MPI_PROC_NULL);
+        mpi_info->shm_ranks.assign(nsize, MPI_PROC_NULL);
+
         // Tables to share data across ranks.
         vector<vector<idx_t>> coords(nr); // rank indices.
         vector<vector<idx_t>> rsizes(nr); // rank sizes.
-- 
2.43.0


From ad399812795a0019392cf5546b0b28e6dc8b8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:11 +0000
Subject: [PATCH 19/19] fix: recompute wave-front angles and mega-block strides
 when the auto-tuner changes mega-block sizes

---
 src/kernel/lib/auto_tuner.cpp |  3 +-
 src/kernel/lib/context.cpp    | 65 +++++++++++++++++++++--------------
 src/kernel/lib/context.hpp    |  3 ++
 src/kernel/lib/setup.cpp      | 62 +++++++++++++++++++++------------
 4 files changed, 84 insertions(+), 49 deletions(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 25d2056..b511160 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -494,8 +494,9 @@ namespace yask {
         // Make sure everything is adjusted based on new target size.
         _settings->adjust_settings(do_print ? this : 0);
         
-        // Update temporal blocking info.
+        // Update wave-front and temporal blocking info.
         // (Normally called from update_var_info().)
+        _context->update_wf_angles();
         _context->update_tb_info();
 
         // Reallocate scratch vars based on new micro-block size.
diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index fd8d592..9ec6b4b 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -306,34 +306,44 @@ namespace yask {
             //                      |XXXXXX|         |XXXXX|  <- redundant calculations.
             // XXXXXX|  <- areas outside of outer ranks not calculated ->  |XXXXXXX
             //
-            if (wf_steps > 0) {
-                DOMAIN_VAR_LOOP_FAST(i, j) {
-
-                    // The end should be adjusted only if an extension doesn't
-                    // exist.  Extentions exist between ranks, so additional
-                    // adjustments are only needed at the end of the right-most
-                    // rank in each dim.  See "(adj)" in diagram above.
-                    if (right_wf_exts[j] == 0)
-                        end[i] += wf_shift_pts[j];
+            // These settings may be changed by the auto-tuner, so they are
+            // set before the first step and after each tuner evaluation.
+            ScanIndices rank_idxs(true, &rank_domain_offsets);
+            auto set_rank_idxs = [&]() {
+                IdxTuple adj_end(end);
+                if (wf_steps > 0) {
+                    DOMAIN_VAR_LOOP_FAST(i, j) {
+
+                        // The end should be adjusted only if an extension doesn't
+                        // exist.  Extentions exist between ranks, so additional
+                        // adjustments are only needed at the end of the right-most
+                        // rank in each dim.  See "(adj)" in diagram above.
+                        if (right_wf_exts[j] == 0)
+                            adj_end[i] += wf_shift_pts[j];
+                    }
                 }
-            }
 
-            // At this point, 'begin' and 'end' should describe the *max* range
-            // needed in the domain for this rank for the first time step.  At
-            // any subsequent time step, this max may be shifted for temporal
-            // wavefronts or blocking. Also, for each time step, the *actual*
-            // range will be adjusted as needed before any actual stencil
-            // calculations are made.
-
-            // Indices needed for the 'rank' loops.
-            ScanIndices rank_idxs(true, &rank_domain_offsets);
-            rank_idxs.begin = begin;
-            rank_idxs.end = end;
-            rank_idxs.stride = stride;
-            rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
-            rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
-                                           actl_opts->_rank_tile_sizes,
-                                           actl_opts->_mega_block_sizes);
+                // Stride by mega-block sizes.
+                stride.set_vals(actl_opts->_mega_block_sizes, false);
+                stride[step_posn] = stride_t;
+
+                // At this point, 'begin' and 'adj_end' should describe the *max* range
+                // needed in the domain for this rank for the first time step.  At
+                // any subsequent time step, this max may be shifted for temporal
+                // wavefronts or blocking. Also, for each time step, the *actual*
+                // range will be adjusted as needed before any actual stencil
+                // calculations are made.
+
+                // Indices needed for the 'rank' loops.
+                rank_idxs.begin = begin;
+                rank_idxs.end = adj_end;
+                rank_idxs.stride = stride;
+                rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
+                rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
+                                               actl_opts->_rank_tile_sizes,
+                                               actl_opts->_mega_block_sizes);
+            };
+            set_rank_idxs();
             TRACE_MSG("after adjustment for " << num_wf_shifts <<
                       " wave-front shift(s): " <<
                       rank_idxs.make_range_str(true));
@@ -598,6 +608,9 @@ namespace yask {
                 auto this_time = _at.timer.stop();
                 _at.steps_done += this_num_t;
                 eval_auto_tuner();
+
+                // Use new sizes, if any.
+                set_rank_idxs();
                 TRACE_MSG("did " << this_num_t << " step(s) in " << this_time << " secs.");
 
             } // step loop.
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index 83e353c..1b53dbf 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -443,6 +443,9 @@ namespace yask {
         // This should be called anytime a setting or offset is changed.
         virtual void update_var_info(bool force);
 
+        // Set wave-front angles and shifts.
+        virtual void update_wf_angles();
+
         // Set temporal blocking data.
         // This should be called anytime a block size is changed.
         virtual void update_tb_info();
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 76ea724..870c940 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -752,31 +752,14 @@ namespace yask {
         }
         assert(num_wf_shifts >= 0);
 
-        // Calculate angles and related settings.
+        // Calculate angles.
+        update_wf_angles();
+
+        // Calculate related settings.
         for (auto& dim : domain_dims) {
             auto& dname = dim._get_name();
-            auto rnsize = actl_opts->_mega_block_sizes[dname];
             auto rksize = actl_opts->_rank_sizes[dname];
-            auto nranks = actl_opts->_num_ranks[dname];
-
-            // Req'd shift in this dim based on max halos.
-            idx_t angle = ROUND_UP(max_halos[dname], dims->_fold_pts[dname]);
-
-            // Determine the spatial skewing angles for WF tiling.  We
-            // only need non-zero angles if the mega-block size is less than the
-            // rank size or there are other ranks in this dim, i.e., if
-            // the mega-block covers the *global* domain in a given dim, no
-            // wave-front shifting is needed in that dim.
-            idx_t wf_angle = 0;
-            if (rnsize < rksize || nranks > 1)
-                wf_angle = angle;
-            wf_angles.add_dim_back(dname, wf_angle);
-            assert(angle >= 0);
-
-            // Determine the total WF shift to be added in each dim.
-            idx_t shifts = wf_angle * num_wf_shifts;
-            wf_shift_pts[dname] = shifts;
-            assert(shifts >= 0);
+            auto shifts = wf_shift_pts[dname];
 
             // Is domain size at least as large as halo + wf_ext in direction
             // when there are multiple ranks?
@@ -821,6 +804,41 @@ namespace yask {
 
     } // update_var_info().
 
+    // Calculate wave-front angles and shifts based on 'max_halos' and
+    // 'num_wf_shifts'.  Must be called from update_var_info() and whenever
+    // a mega-block size is changed.  Does not affect the wave-front
+    // extensions because the angle does not depend on the mega-block size in
+    // any dim with more than one rank.
+    void StencilContext::update_wf_angles() {
+        STATE_VARS(this);
+
+        for (auto& dim : domain_dims) {
+            auto& dname = dim._get_name();
+            auto rnsize = actl_opts->_mega_block_sizes[dname];
+            auto rksize = actl_opts->_rank_sizes[dname];
+            auto nranks = actl_opts->_num_ranks[dname];
+
+            // Req'd shift in this dim based on max halos.
+            idx_t angle = ROUND_UP(max_halos[dname], dims->_fold_pts[dname]);
+
+            // Determine the spatial skewing angles for WF tiling.  We
+            // only need non-zero angles if the mega-block size is less than the
+            // rank size or there are other ranks in this dim, i.e., if
+            // the mega-block covers the *global* domain in a given dim, no
+            // wave-front shifting is needed in that dim.
+            idx_t wf_angle = 0;
+            if (rnsize < rksize || nranks > 1)
+                wf_angle = angle;
+            wf_angles.add_dim_back(dname, wf_angle);
+            assert(angle >= 0);
+
+            // Determine the total WF shift to be added in each dim.
+            idx_t shifts = wf_angle * num_wf_shifts;
+            wf_shift_pts[dname] = shifts;
+            assert(shifts >= 0);
+        }
+    } // update_wf_angles().
+
     // Adjust offsets of scratch vars based on thread number 'thread_idx'
     // and beginning point of micro-block 'idxs'.  Each scratch-var is
     // assigned to a thread, so it must "move around" as the thread is
-- 
2.43.0

