From cf4ab6ab38dcfab5baa1b5619634d5a008156d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:14 +0000
Subject: [PATCH 01/84] fix: interval_map lower_bound/upper_bound did not
 compile and dereferenced end() for right-infinite maps

---
 anifem++/interval/interval_map.inl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..be57d0d 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -158,9 +158,8 @@ namespace Ani{
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
+            it_ed = std::prev(m_map_list.end());
+            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return it;
@@ -172,9 +171,8 @@ namespace Ani{
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
+            it_ed = std::prev(m_map_list.end());
+            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         if (it == it_ed) return it_ed;
-- 
2.43.0


From 4233eb32f703f6142e3f476ee2a0cd8466964f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 02/84] fix: interval_map treated the placeholder ends of
 infinite intervals as real bounds (conflicting inserts accepted, keys lost)

---
 anifem++/interval/interval_map.inl | 47 ++++++++++++------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index be57d0d..09b805e 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -61,7 +61,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return true;
+            if (((boundary_status & 1) && it_ed == m_map_list.begin()) || !m_comp(key, it_ed->first.m_start)) return true;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
@@ -128,8 +128,8 @@ namespace Ani{
     template<typename Key, typename T, typename Compare, typename Allocator>
     bool interval_map<Key, T, Compare, Allocator>::contains(const std::pair<interval<key_type>, mapped_type>* it, const key_type& key) const {
         if (m_map_list.empty()) return false;
-        // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
-        //     return true;
+        if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
+            return it == &(*m_map_list.begin());
         if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
             return !m_comp(key, it->first.m_start);
         if ((boundary_status & 1) && it == &(*m_map_list.begin()))
@@ -144,7 +144,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
+            if (((boundary_status & 1) && it_ed == m_map_list.begin()) || !m_comp(key, it_ed->first.m_start)) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
         if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
@@ -194,36 +194,25 @@ namespace Ani{
         if (m_comp(end_interval, start_interval) || (bnd_type == 0 && start_interval == end_interval)) 
             return {m_map_list.end(), false};
         // if (!m_comp(start_interval, end_interval)) return {m_map_list.end(), false};
-        if (boundary_status & 1)
-            m_map_list.front().first.m_start = std::min(m_map_list.front().first.m_start, start_interval, m_comp);
-        if (boundary_status & 2)
-            m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
-        
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
-        auto it_st0 = it_st;
+        // the outer ends of the infinite intervals are only placeholders, so they must not take part in the search
+        const bool left_inf = (boundary_status & 1) && !m_map_list.empty();
+        const bool right_inf = (boundary_status & 2) && !m_map_list.empty();
+        // first interval that is not entirely before the new one
+        auto it_st0 = m_map_list.begin();
+        if (!(bnd_type & 1))
+            it_st0 = std::upper_bound(m_map_list.begin(), right_inf ? std::prev(m_map_list.end()) : m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
+        // first interval that is entirely after the new one
+        auto it_end0 = m_map_list.end();
+        if (!(bnd_type & 2))
+            it_end0 = std::lower_bound((left_inf && it_st0 == m_map_list.begin()) ? std::next(it_st0) : it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); });
+        // join with the adjacent intervals of the same value
+        auto it_st = it_st0;
         if (it_st != m_map_list.begin()){
             auto it_prev = std::prev(it_st);
             if (it_prev->first.m_end == start_interval && it_prev->second == value)
                 it_st = it_prev;     
         }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
-        }
-        auto it_end0 = it_end;
+        auto it_end = it_end0;
         if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
         
-- 
2.43.0


From 5e0124f8085f33aa565791544261277e57f3fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 03/84] fix: interval_map parser assumed delimiters of the
 default lengths

---
 anifem++/interval/interval_map.inl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 09b805e..85663e0 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -256,11 +256,11 @@ namespace Ani{
         auto st = input.find_first_not_of(spaces, pos);
         pos = st;
         while (pos < end){
-            auto lend = input.find(traits.elem_delimiter, pos);
+            auto lend = traits.elem_delimiter.empty() ? std::string::npos : input.find(traits.elem_delimiter, pos);
             auto colon_pos = input.find(traits.interval_delimiter, pos);
             if (colon_pos == std::string::npos || colon_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.interval_delimiter + "\" separator");
-            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+1);
+            auto arrow_pos = input.find(traits.map_delimiter, colon_pos + traits.interval_delimiter.size());
             if (arrow_pos == std::string::npos || arrow_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.map_delimiter + "\" operator");
             
@@ -271,13 +271,13 @@ namespace Ani{
             else
                 left_st = std::max(colon_pos, left_ed+1);
     
-            auto right_st = colon_pos+1, right_ed = colon_pos;
-            right_st = input.find_first_not_of(spaces, colon_pos+1);
+            auto right_st = colon_pos, right_ed = colon_pos;
+            right_st = input.find_first_not_of(spaces, colon_pos + traits.interval_delimiter.size());
             if (right_st < arrow_pos)
                 right_ed = input.find_last_not_of(spaces, arrow_pos - 1);
             
-            auto value_st = arrow_pos+2, value_ed = arrow_pos+1;
-            value_st = input.find_first_not_of(spaces, arrow_pos+2);
+            auto value_st = arrow_pos, value_ed = arrow_pos;
+            value_st = input.find_first_not_of(spaces, arrow_pos + traits.map_delimiter.size());
             if (value_st == std::string::npos || value_st >= lend)
                 throw std::invalid_argument("Missing mapping value");
             value_ed = input.find_last_not_of(spaces, lend - 1);
@@ -294,7 +294,7 @@ namespace Ani{
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
-            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+1);
+            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend + traits.elem_delimiter.size());
         }
     
         return m;
-- 
2.43.0


From 0c86f42cad0cd20923f289f90ab5aefa7acc543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:00 +0000
Subject: [PATCH 04/84] fix: DynMem gave back memory of live parts when parts
 were released out of order

---
 anifem++/fem/fem_memory.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..e9462b7 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::vector<bool> alive; //alive[i] is true if i-th part placed on the chunk is still in use
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +486,8 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->alive.size();
+            chunk->alive.push_back(true);
             chunk->nparts++;
             return res;
         }
@@ -509,10 +511,16 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
+            chunk.alive[part_id] = false;
+            // only the last placed part may be given back at once, otherwise memory of the parts placed after it would be given back
+            if (part_id + 1 == chunk.alive.size()){
                 chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
-            if (chunk.nparts == 0)
+                chunk.alive.pop_back();
+            }
+            if (chunk.nparts == 0){
                 chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.alive.clear();
+            }
         }
     public:    
     //protected:
-- 
2.43.0


From feabce6b9b602cf1a8c89e9dd67fb64fbe86213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:00 +0000
Subject: [PATCH 05/84] fix: DynMemParallel::get read the pool vector without
 the mutex while alloc may reallocate it

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..85f2308 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){ 
+        std::lock_guard<MutexType> lock(m_mutex);
+        return m_mem[mem_id].get(); 
+    }
 
 
 protected:
-- 
2.43.0


From a3d5388ad12ac9c9781c9ff61df11cc65bd1a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:00 +0000
Subject: [PATCH 06/84] fix: std::thread variant of parallel_for did not
 compile and did not pass the loop body

---
 anifem++/fem/mutex_type.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..92fd543 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -7,6 +7,10 @@
 
 #include <thread>
 #include <mutex>
+#include <vector>
+#include <algorithm>
+#include <functional>
+#include <cassert>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -120,12 +124,12 @@ namespace ThreadPar{
             unsigned batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
+            auto batch_begin = [&](unsigned i){ return beg + (batch_size*i + std::min(i, batch_remainder)); };
             for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
-                                beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
-            perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
+                work_threads[i] = std::thread([&f, &args..., i, lbeg = batch_begin(i), lend = batch_begin(i+1)](){ 
+                    perform_for_on_thread(i+1, std::ref(f), lbeg, lend, args...); 
+                });
+            perform_for_on_thread(0, std::ref(f), batch_begin(nthreads - 1), end, args...);
             std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
         }
     };
-- 
2.43.0


From ecdba1069f2e0607b642316834d356a3e0cc45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 07/84] fix: fully pivoted LU (no Eigen) mis-permuted
 solutions, wrote outside the matrix for singular input, lost small rows,
 destroyed input of in-place inverse

---
 anifem++/fem/geometry.h | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..80f687a 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -286,6 +286,9 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            //rest of the matrix is zero
+            if (pi < 0)
+                break;
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
@@ -294,20 +297,14 @@ namespace Ani{
             std::swap(q[k], q[pj]);
             for (int i = 0; i < N; i++)
                 std::swap(A(i, k), A(i, pj));
-            Scalar max1 = 0.0;
-            for (int i = k+1; i < N; i++) 
-                max1 = std::max(max1, std::fabs(A(i, k)));    
             //END PIVOT
     
-            //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
-                for (int i = k+1; i < N; i++){
-                    //Column normalisation
-                    Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-                    for (int j = k+1; j < N; j++){
-                        //a(ik)*a(kj) subtracted from lower right submatrix elements
-                        A(i, j) -= (tmp * A(k, j));
-                    }
+            for (int i = k+1; i < N; i++){
+                //Column normalisation
+                Scalar tmp = ( A(i,k) /= A(k,k) ) ;
+                for (int j = k+1; j < N; j++){
+                    //a(ik)*a(kj) subtracted from lower right submatrix elements
+                    A(i, j) -= (tmp * A(k, j));
                 }
             }
             //END DECOMPOSE
@@ -353,7 +350,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
@@ -398,10 +395,16 @@ namespace Ani{
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
         Invm = Am.fullPivLu().inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
-        for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+        Scalar *Am = mem, *Bm = mem + N*N;
+        int *p = imem, *q = imem + N;
+        std::copy(A, A + N*N, Am);
+        std::fill(Bm, Bm + N*N, 0);
+        for (int i = 0; i < N; ++i){
+            Bm[i+i*N] = 1;
+            p[i] = q[i] = i;
+        }
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From 5ec771e254df6e628a3c02ce344ed1cfb489163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 08/84] fix: Householder QR (no Eigen) skipped columns of small
 absolute norm

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 80f687a..3f43baa 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -438,7 +438,7 @@ namespace Ani{
             for (int i = k; i < N; ++i)
                 norm += W(i, k) * W(i, k);
             norm = std::sqrt(norm);
-            if (norm <= std::numeric_limits<Scalar>::epsilon()){
+            if (norm == 0){
                 tau[k] = 0;
                 v[k] = 1;
                 for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From d62d7e0e384c3801e353a03af3e6c22b3246c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 09/84] fix: singular value decomposition (no Eigen) returned
 non-orthogonal factors for rank-deficient matrices, could fail to converge,
 used absolute tolerances

---
 anifem++/fem/geometry.h | 131 ++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 67 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3f43baa..33a9b16 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -505,7 +505,10 @@ namespace Ani{
                 for (int i = 0; i < n; ++i)
                     evecs[i + j*n] = (i == j) ? 1 : 0;
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
+            Scalar scale = 0;
+            for (int i = 0; i < n; ++i)
+                scale = std::max(scale, std::fabs(sym[i + i*n]));
+            const Scalar tol = n * std::numeric_limits<Scalar>::epsilon() * scale;
             int err = 1;
             for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
                 Scalar off = 0;
@@ -520,13 +523,15 @@ namespace Ani{
                 for (int p = 0; p < n; ++p){
                     for (int q = p + 1; q < n; ++q){
                         Scalar apq = sym[p + q*n];
-                        if (std::fabs(apq) <= tol)
+                        if (apq == 0)
                             continue;
                         Scalar app = sym[p + p*n];
                         Scalar aqq = sym[q + q*n];
-                        Scalar theta = Scalar(0.5) * std::atan2(Scalar(2) * apq, aqq - app);
-                        Scalar c = std::cos(theta);
-                        Scalar s = std::sin(theta);
+                        // the smaller of the two rotations, it guarantees convergence of the sweeps
+                        Scalar tau = (aqq - app) / (Scalar(2) * apq);
+                        Scalar t = ((tau >= 0) ? Scalar(1) : Scalar(-1)) / (std::fabs(tau) + std::sqrt(Scalar(1) + tau*tau));
+                        Scalar c = Scalar(1) / std::sqrt(Scalar(1) + t*t);
+                        Scalar s = t * c;
 
                         for (int k = 0; k < n; ++k){
                             if (k == p || k == q)
@@ -573,12 +578,10 @@ namespace Ani{
             }
         }
 
+        /// Remove from column j its projections on the first j columns (twice, for accuracy), return norm of the rest
         template<typename Scalar>
-        inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
-            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
-            for (int j = n_done; j < n; ++j){
-                for (int i = 0; i < n; ++i)
-                    q[i + j*n] = (i == (j - n_done) % n) ? 1 : 0;
+        inline Scalar orthogonalize_col(Scalar* q, int n, int j){
+            for (int rep = 0; rep < 2; ++rep)
                 for (int c = 0; c < j; ++c){
                     Scalar dot = 0;
                     for (int i = 0; i < n; ++i)
@@ -586,29 +589,60 @@ namespace Ani{
                     for (int i = 0; i < n; ++i)
                         q[i + j*n] -= dot * q[i + c*n];
                 }
+            Scalar norm = 0;
+            for (int i = 0; i < n; ++i)
+                norm += q[i + j*n] * q[i + j*n];
+            return std::sqrt(norm);
+        }
+
+        /// Complete first n_done orthonormal columns to orthonormal basis
+        template<typename Scalar>
+        inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
+            for (int j = n_done; j < n; ++j){
+                // at least one unit vector has the distance >= 1/sqrt(n) to the span of the first j < n columns
+                const Scalar min_norm = Scalar(0.5) / std::sqrt(Scalar(n));
                 Scalar norm = 0;
-                for (int i = 0; i < n; ++i)
-                    norm += q[i + j*n] * q[i + j*n];
-                norm = std::sqrt(norm);
-                if (norm <= eps){
+                for (int k = 0; k < n && norm < min_norm; ++k){
                     for (int i = 0; i < n; ++i)
-                        q[i + j*n] = (i == (j + 1) % n) ? 1 : 0;
-                    for (int c = 0; c < j; ++c){
-                        Scalar dot = 0;
-                        for (int i = 0; i < n; ++i)
-                            dot += q[i + c*n] * q[i + j*n];
-                        for (int i = 0; i < n; ++i)
-                            q[i + j*n] -= dot * q[i + c*n];
+                        q[i + j*n] = (i == k) ? 1 : 0;
+                    norm = orthogonalize_col(q, n, j);
+                }
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] /= norm;
+            }
+        }
+
+        /// Given orthonormal columns w (size r x r, sorted by decreasing of norms of A*w_j) compute singular values S_j = |A*w_j| 
+        /// and, if q != nullptr, orthonormal columns q (size l x l) such that A*w_j = S_j*q_j
+        /// @param at(i, t) is element of A of l x r size
+        template<typename Scalar, typename Elem>
+        inline void svd_second_factor(const Elem& at, int l, int r, const Scalar* w, Scalar* S, Scalar* q){
+            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
+            int rank = 0;
+            for (int j = 0; j < r; ++j){
+                Scalar norm = 0;
+                for (int i = 0; i < l; ++i){
+                    Scalar sum = 0;
+                    for (int t = 0; t < r; ++t)
+                        sum += at(i, t) * w[t + j*r];
+                    norm += sum * sum;
+                    if (q != nullptr && rank == j)
+                        q[i + j*l] = sum;
+                }
+                S[j] = std::sqrt(norm);
+                if (j > 0)
+                    S[j] = std::min(S[j], S[j-1]);
+                if (q != nullptr && rank == j && S[j] > 10 * std::max(l, r) * eps * S[0]){
+                    norm = orthogonalize_col(q, l, j);
+                    if (norm > S[j] / 2){
+                        for (int i = 0; i < l; ++i)
+                            q[i + j*l] /= norm;
+                        ++rank;
                     }
-                    norm = 0;
-                    for (int i = 0; i < n; ++i)
-                        norm += q[i + j*n] * q[i + j*n];
-                    norm = std::sqrt(norm);
                 }
-                if (norm > eps)
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] /= norm;
             }
+            if (q != nullptr)
+                complete_orthonormal_cols(q, l, rank);
         }
 
         template<typename Scalar>
@@ -671,7 +705,6 @@ namespace Ani{
         }
         return 0;
 #else
-        const Scalar eps = std::numeric_limits<Scalar>::epsilon();
         Scalar* gram = mem;
         Scalar* evecs_buf = mem + K*K;
         Scalar* eval = mem + 2*K*K;
@@ -682,50 +715,14 @@ namespace Ani{
             if (detail::jacobi_symmetric_eigen(gram, M, eval, evecs))
                 return 1;
             detail::sort_eigen_desc(eval, evecs, M);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (U != nullptr){
-                for (int j = 0; j < M; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < N; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < M; ++t)
-                                sum += A[i + t*N] * evecs[t + j*M];
-                            U[i + j*N] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < N; ++i)
-                            U[i + j*N] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(U, N, M);
-            }
+            detail::svd_second_factor([A, N](int i, int t){ return A[i + t*N]; }, N, M, evecs, S, U);
         } else {
             detail::gram_aat(A, N, M, gram);
             Scalar* evecs = (U != nullptr) ? U : evecs_buf;
             if (detail::jacobi_symmetric_eigen(gram, N, eval, evecs))
                 return 1;
             detail::sort_eigen_desc(eval, evecs, N);
-            for (int i = 0; i < K; ++i)
-                S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
-
-            if (V != nullptr){
-                for (int j = 0; j < N; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < M; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < N; ++t)
-                                sum += A[t + i*N] * evecs[t + j*N];
-                            V[i + j*M] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < M; ++i)
-                            V[i + j*M] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(V, M, N);
-            }
+            detail::svd_second_factor([A, N](int i, int t){ return A[t + i*N]; }, M, N, evecs, S, V);
         }
         return 0;
 #endif
-- 
2.43.0


From 977e9fb35b206afd874eef3f08b749161235d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 10/84] fix: Tetra::normal_direction did not compile

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 33a9b16..4d25c9a 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -174,7 +174,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From c75eeef81e0cf1a4563d64a2442a4d7ca3531e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 11/84] fix: applying operators on a batch of tetrahedra did
 not clear the output of all cells and mixed cells for block operators

---
 anifem++/fem/operations/core.inl | 79 +++++++++-----------------------
 1 file changed, 21 insertions(+), 58 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..6df059f 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + ARow * BCol * fuse, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
@@ -91,6 +91,23 @@ namespace Ani{
 #endif
     }
 
+    /// @brief Multiply matrix stored as set of blocks on vectors of coefficients for every tetrahedron
+    template<typename BandMatrix, typename Scalar>
+    inline void fusive_band_mul_vec(const BandMatrix& M, std::size_t nparts, std::size_t fuse, std::size_t q, 
+                                    std::size_t dim, std::size_t nfa, const Scalar* dofs, Scalar* R){
+        std::fill(R, R + dim * q * fuse, 0);
+        for (std::size_t db = 0; db < nparts; ++db){
+            const std::size_t row = M.stRow[db], ldim = M.stRow[db+1] - M.stRow[db];
+            const std::size_t col = M.stCol[db], lnfa = M.stCol[db+1] - M.stCol[db];
+            const Scalar* A = M.data[db].data;
+            for (std::size_t r = 0; r < fuse; ++r)
+                for (std::size_t j = 0; j < lnfa; ++j)
+                    for (std::size_t n = 0; n < q; ++n)
+                        for (std::size_t i = 0; i < ldim; ++i)
+                            R[row + i + dim*(n + q*r)] += A[i + ldim*(n + q*(j + lnfa*r))] * dofs[col + j + nfa*r];
+        }
+    }
+
     template<typename ScalarType>
     void getBaryCoord(
                   const ScalarType* XY0/*[3]*/, const ScalarType* XY1/*[3]*/,
@@ -381,25 +398,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(opU.nRow <= 8 || nf <= 16, mem.f, nf, Vm.data[0].data, opU.nRow, dofs.data, 1, opU.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? opU.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
-                    double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
-                    double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }    
+            fusive_band_mul_vec(Vm, nparts, mem.f, mem.q, dim, nf, dofs.data, opU.data);
         }
     }
 
@@ -490,25 +489,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(dimA * mem.q <= 8 || nfA <= 16, mem.f, nfA, U.data[0].data, dimA * mem.q, const_cast<double*>(dofs.data), 1, opU.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? opU.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
-                    double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
-                    double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }     
+            fusive_band_mul_vec(U, nparts, mem.f, mem.q, dimA, nfA, dofs.data, opU.data);
         }
 #ifdef OPTIMIZER_TIMERS_FEM3DTET
         Inter_end1 = std::chrono::high_resolution_clock::now();
@@ -536,25 +517,7 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
         if (nparts == 1) {
             fusive_A_mul_B(dimA * mem.q <= 8 || nfA <= 16, mem.f, nfA, U.data[0].data, dimA * mem.q, const_cast<double*>(dofs.data), 1, mem.V.data);
         } else {
-            double* tmp_opU = (mem.q <= 1) ? mem.V.data : mem.extraR.data;
-            for (std::size_t db = 0; db < nparts; ++db)
-                for (std::size_t r = 0; r < mem.f; ++r){
-                    auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
-                    double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
-                    const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
-                    double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
-                }
-            if (mem.q > 1) {
-                for (std::size_t n = 0; n < mem.q; ++n)
-                for (std::size_t db = 0; db < nparts; ++db){
-                    auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
-                    std::copy(from, from + ldim, to);
-                }
-            }    
+            fusive_band_mul_vec(U, nparts, mem.f, mem.q, dimA, nfA, dofs.data, mem.V.data);
         }
 #ifdef OPTIMIZER_TIMERS_FEM3DTET
         Inter_end1 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From fb5cdbab391c8ff31b2fe1f36d8dd9c9e3b31724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 12/84] fix: advertised polynomial order of composed
 compile-time operators counted dimensions instead of orders

---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From 94d5471ddfd1b197dc23042a0423059f5fa768ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 13/84] fix: compile-time union with a face or edge space
 dereferenced missing cell data

---
 anifem++/fem/operators.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 0647c90..6f1e5a8 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -348,12 +348,13 @@ namespace Ani{
                 Tetra<const double> XYZ(XYZa + 0, XYZa + 3, XYZa + 6, XYZa + 9);
                 AniMemory<double, int> mem;
                 std::array<double, 4> xyl{1, 0, 0, 0};
+                double one = 1;
                 mem.XYP.Init(XYZa, 3 * 4);
                 mem.PSI.Init(XYZa + 3, 3 * 3);
                 mem.XYG.Init(nullptr, 3);
-                mem.DET.Init(nullptr, 0);
+                mem.DET.Init(&one, 1);
                 mem.XYL.Init(xyl.data(), 4);
-                mem.WG.Init(nullptr, 0);
+                mem.WG.Init(&one, 1);
                 mem.U.Init(dmem.data(), reqUsz);
                 mem.extraR.Init(dmem.data() + reqUsz, reqExtraR);
                 mem.q = 1;
-- 
2.43.0


From dad07d4e0467116ed95350de05d4d97cc2155474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 14/84] fix: run-time vector and composed spaces advertised
 order 0 for divergence and curl

---
 anifem++/fem/fem_space.cpp | 5 +++--
 anifem++/fem/fem_space.h   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..16f4ab9 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -899,8 +899,9 @@ namespace Ani{
         for(uint i = 0; i < m_spaces.size(); ++i) {
             m_dim += m_spaces[i]->dim();
             m_poly_order = std::max(m_poly_order, m_spaces[i]->order());
-            m_poly_order_DIV = std::max(m_poly_order_DIV, m_spaces[i]->orderDIV());
-            m_poly_order_CURL = std::max(m_poly_order_CURL, m_spaces[i]->orderCURL());
+            bool is_vec = (m_spaces[i]->dim() % 3 == 0);
+            m_poly_order_DIV = std::max(m_poly_order_DIV, is_vec ? m_spaces[i]->orderDIV() : m_spaces[i]->orderGRAD());
+            m_poly_order_CURL = std::max(m_poly_order_CURL, is_vec ? m_spaces[i]->orderCURL() : m_spaces[i]->orderGRAD());
             for (int k = 0; k < 3; ++k)
                 m_poly_order_DUDX[k] = std::max(m_poly_order_DUDX[k], m_spaces[i]->orderDUDX(k));
         }
diff --git a/anifem++/fem/fem_space.h b/anifem++/fem/fem_space.h
index cc92f77..506b9e5 100644
--- a/anifem++/fem/fem_space.h
+++ b/anifem++/fem/fem_space.h
@@ -294,10 +294,10 @@ namespace Ani{
         OpMemoryRequirements memGRAD(uint nquadpoints, uint fusion = 1) const override;
         BandDenseMatrixX<> applyDIV(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memDIV(uint nquadpoints, uint fusion = 1) const override;
-        uint orderDIV() const override{ return m_base->orderDIV(); }
+        uint orderDIV() const override{ return m_base->dim() % 3 == 0 ? m_base->orderDIV() : orderDiff(); }
         BandDenseMatrixX<> applyCURL(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memCURL(uint nquadpoints, uint fusion = 1) const override;
-        uint orderCURL() const override{ return m_base->orderCURL(); }
+        uint orderCURL() const override{ return m_base->dim() % 3 == 0 ? m_base->orderCURL() : orderDiff(); }
         BandDenseMatrixX<> applyDUDX(AniMemoryX<> &mem, ArrayView<> &U, uchar k) const override;
         OpMemoryRequirements memDUDX(uint nquadpoints, uint fusion, uchar k) const override;
         uint orderDUDX(uchar k) const override { return m_base->orderDUDX(k); }
-- 
2.43.0


From cc103605f89db4888bd824e5cffdccd9567fd5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 15/84] fix: divergence of composed run-time spaces left block
 bounds uninitialized, default divergence declared three rows

---
 anifem++/fem/fem_space.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 16f4ab9..f3a7b28 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -263,7 +263,7 @@ namespace Ani{
         mem.busy_mtx_parts = st_busy + 1;
         Vx.nparts = 1;
         Vx.data[0] = lU;
-        Vx.stRow[1] = 3;
+        Vx.stRow[1] = 1;
         Vx.stCol[1] = nfa;
         return Vx;
     }
@@ -765,8 +765,8 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -822,8 +822,8 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From d13b25dd769f353bf8c60180fd4b11a769a5b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 16/84] fix: per-selection tensors: coefficient functor got
 cell number 0 for all cells of a batch

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From cb628785657c3103a8d24c07b78e98cf2201598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 17/84] fix: vector FEM spaces of different dimension compared
 equal

---
 anifem++/fem/fem_space.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index f3a7b28..c0d767e 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -405,6 +405,7 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
+        if (o.vec_dim() != vec_dim()) return false;
         return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-- 
2.43.0


From 68dca6a3f98c20dd5524cfbf4f1fcdf5423a67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 18/84] fix: divergence of composed run-time spaces did not
 register its matrix part, so the next operator overwrote it

---
 anifem++/fem/fem_space.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index c0d767e..349091f 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -768,6 +768,7 @@ namespace Ani{
         bres.data[0] = res;
         bres.stRow[0] = 0; bres.stRow[1] = 1;
         bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -825,6 +826,7 @@ namespace Ani{
         bres.data[0] = res;
         bres.stRow[0] = 0; bres.stRow[1] = 1;
         bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From ccb6b57c98ce7eff5824fb9d0d6aa8a62cbff09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 19/84] fix: stack versions of fem3Dapply accepted four times
 more points than their storage holds

---
 anifem++/fem/operations/eval.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..77c2c3d 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -49,7 +49,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
-- 
2.43.0


From 67e194a6f01bd339b3ad36437a9388b3e705e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 20/84] fix: interpolateByRegion of compile-time spaces did not
 compile and left unset barycentric coordinates on edges and faces

---
 anifem++/fem/operations/interpolate.inl | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 3d14e76..5ddd0d6 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -36,8 +36,8 @@ namespace Ani{
         res.iSize += 0;
         auto pnt_mem0 = fem3DpntL_memory_requirements<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
         auto pnt_mem1 = fem3DpntL_memory_requirements<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
-        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<IndexType>(NFA*(NFA+1)/2)});
-        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<IndexType>(NFA)});
+        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(NFA*(NFA+1)/2)});
+        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<decltype(pnt_mem0.iSize)>(NFA)});
 
         return res;
     }
@@ -47,13 +47,13 @@ namespace Ani{
         DofT::TetGeomSparsity sp;
         if (elem_type == DofT::NODE){
             sp.setNode(ielem);
-            interpolateByDOFs(XYZ, func, udofs, sp, user_data, max_quad_order);
+            interpolateByDOFs<FEMTYPE>(XYZ, func, udofs, sp, user_data, max_quad_order);
             return;
         }
 
         constexpr auto NFA = Operator<IDEN, FEMTYPE>::Nfa::value;
         auto d_alloc = [&plainMemory](auto sz)->ScalarType*{ 
-            if (plainMemory.dSize > sz){
+            if (plainMemory.dSize >= static_cast<std::size_t>(sz)){
                 plainMemory.dSize -= sz;
                 auto res = plainMemory.ddata;
                 plainMemory.ddata += sz;
@@ -63,7 +63,7 @@ namespace Ani{
             return nullptr;    
         };
         auto i_alloc = [&plainMemory](auto sz)->IndexType*{ 
-            if (plainMemory.iSize > sz){
+            if (plainMemory.iSize >= static_cast<std::size_t>(sz)){
                 plainMemory.iSize -= sz;
                 auto res = plainMemory.idata;
                 plainMemory.idata += sz;
@@ -74,7 +74,7 @@ namespace Ani{
         };
         ScalarType* am = d_alloc(NFA*NFA);
         ScalarType* fm = d_alloc(NFA);
-        ScalarType* xyl = nullptr, wg = nullptr;
+        ScalarType *xyl = nullptr, *wg = nullptr;
         IndexType nquads = 0;
         switch(DofT::DimToGeomType(DofT::GeomTypeDim(elem_type))) {
             case DofT::EDGE:{
@@ -83,6 +83,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, ScalarType(0));
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -96,6 +97,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, ScalarType(0));
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
@@ -122,8 +124,8 @@ namespace Ani{
 
         DenseMatrix<ScalarType> A(am, NFA, NFA), F(fm, NFA, 1);
         ArrayView<ScalarType> XYL(xyl, nquads*4), WG(wg, nquads);
-        fem3DpntL<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, DfuncTraits<TENSOR_NULL, true>>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, XYL, WG, TensorNull<ScalarType>, A, plainMemory, nullptr);
-        fem3DpntL<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>>(XYZ.XY0, XYZ.XY1, XYZ.XY2, XYZ.XY3, XYL, WG,
+        fem3DpntL<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, DfuncTraits<TENSOR_NULL, true>>(XYZ, XYL, WG, TensorNull<ScalarType>, A, plainMemory, nullptr);
+        fem3DpntL<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>>(XYZ, XYL, WG,
             [&func](const std::array<ScalarType, 3>& x, ScalarType* Dmem, TensorDims Ddims, void* user_data, int iTet)->TensorType{
                 (void) iTet;
                 func(x, Dmem, Ddims.first, user_data);
-- 
2.43.0


From 12e3f0325dedfba927374bfbe5f76ff498a19ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 21/84] fix: interpolateOnRegion used uninitialized barycentric
 coordinates on edges and faces, a dangling space and a short workspace for
 vertices

---
 anifem++/fem/fem_space.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 349091f..d92a1cb 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -81,18 +81,8 @@ namespace Ani{
         return ApplyOpFromSpaceView(op, this);
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
-        if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
-        }
+        if (elem_type == DofT::NODE)
+            return interpolateByDOFs_mem_req(max_quad_order);
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
@@ -114,7 +104,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +125,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
@@ -158,6 +150,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -171,6 +164,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
-- 
2.43.0


From 1407a4bf0fbb81138fdb26639b2b64dee9f6738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 22/84] fix: selective traversal of composed and vector
 numberings skipped degrees of freedom of later parts

---
 anifem++/fem/tetdofmap.cpp | 77 +++++++++++++++-----------------------
 anifem++/fem/tetdofmap.inl | 76 +++++++++++++++----------------------
 2 files changed, 62 insertions(+), 91 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..4ee2499 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -513,23 +513,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
@@ -706,15 +692,17 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
+        for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            for (uint dim = 0; dim < m_spaces.size(); ++dim){
+                LocalOrder ll, lend;
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
+                }
             }
         }
         EndByGeomSparsity(lo);
@@ -735,8 +723,7 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            for (++dim; dim < m_spaces.size(); ++dim){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
@@ -760,26 +747,24 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
             return;
         } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
+            for (++dim; dim < m_spaces.size(); ++dim){
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                if (lgo != lend){
+                    lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[GeomTypeToNum(lgo.etype)][dim], lgo.stype, lgo.lsid);
+                    return;
                 }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
             }
+            auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+            if (!next_pos.isValid()) { 
+                EndByGeomSparsity(lo); 
+                return; 
+            }
+            ss = sp;
+            for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+            for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+            BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+            return;
         }
     }
 }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..c1048e9 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -490,23 +490,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
@@ -748,15 +734,17 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
+            for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+                TetGeomSparsity ss;
+                ss.set(pos.elem_dim, pos.elem_num);
+                for (uint dim = 0; dim < s.size(); ++dim){
+                    LocalOrder ll, lend;
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
+                    }
                 }
             }
             EndByGeomSparsity(lo);
@@ -779,8 +767,7 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                for (++dim; dim < s.size(); ++dim){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
@@ -804,25 +791,24 @@ namespace FemComDetails{
                 lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
                 return;
             } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
+                for (++dim; dim < s.size(); ++dim){
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                    if (lgo != lend){
+                        lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[GeomTypeToNum(lgo.etype)][dim], lgo.stype, lgo.lsid);
+                        return;
                     }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
                 }
+                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+                if (!next_pos.isValid()) { 
+                    EndByGeomSparsity(lo); 
+                    return; 
+                }
+                ss = sp;
+                for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+                for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+                return;
             }
         }
     }
-- 
2.43.0


From 062e6c76dde39366e50d8065a572a3f1af97b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 23/84] fix: location to number of vector numberings divided by
 the count on the whole tetrahedron instead of on one element

---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 anifem++/fem/tetdofmap.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 4ee2499..036ec2f 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index c1048e9..48b598f 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -402,14 +402,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From 0ef43f98babe49596f9052c55f397415bb334207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:43 +0000
Subject: [PATCH 24/84] fix: selective traversal of a vector of composed
 numberings started in the middle of its first component

---
 anifem++/fem/tetdofmap.h   | 1 +
 anifem++/fem/tetdofmap.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..feaeacd 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override { if (m_dim > 0) base->BeginByGeomSparsity(sp, lo, preferGeomOrdering); else EndByGeomSparsity(lo); }
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 48b598f..8a5f99c 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -385,6 +385,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override { if (m_dim > 0) m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering); else EndByGeomSparsity(lo); }
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
-- 
2.43.0


From 19718ea39fa0acb42d6b1336a695cfc4d0ca4416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:43 +0000
Subject: [PATCH 25/84] fix: validity of local indices rejected valid locations
 and all symmetry orders

---
 anifem++/fem/tetdofmap.h   | 2 +-
 anifem++/fem/tetdofmap.inl | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index feaeacd..8dc9305 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -99,7 +99,7 @@ namespace Ani{
             uchar nelem;    ///< number of geometrical element on the tetrahedron (from 0 to 3 for NODE or FACE, from 0 to 6 for EDGE, always 0 for CELL)
             LocGeomOrder(): leid(uint(-1)), etype(UNDEF), nelem(0) {}
             LocGeomOrder(uchar etype, uchar nelem, uint leid): leid{leid}, etype{etype}, nelem{nelem} {} 
-            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && leid < GeomTypeTetElems(etype); }
+            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && nelem < GeomTypeTetElems(etype); }
             bool operator==(const LocGeomOrder& a) const { return etype == a.etype && nelem == a.nelem && leid == a.leid; }
             bool operator!=(const LocGeomOrder& a) const { return !(*this == a); }
         };
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 8a5f99c..62a226e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -33,7 +33,8 @@ inline bool BaseDofMap::isValidIndex(LocalOrder dof_id, bool with_sym_order) con
     auto r = isValidIndex(dof_id.getTetOrder()) && isValidIndex(dof_id.getGeomOrder());
     if (r && with_sym_order){
         auto m = SymComponents(dof_id.etype);
-        r = ((m | DofSymmetries::MASK_UNDEF) || dof_id.lsid >= DofSymmetries::symmetries_amount(dof_id.etype)) ? false : (m | (1 << dof_id.stype));
+        r = dof_id.stype < DofSymmetries::symmetries_amount(dof_id.etype) && 
+            (m & (1 << dof_id.stype)) && dof_id.lsid < DofSymmetries::symmetry_volume(dof_id.etype, dof_id.stype);
     } 
     return r; 
 }
-- 
2.43.0


From 2ec937cf78692d3e37274f048d6dcfd8a0c4f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 26/84] fix: access by location to a part of a numbering gave
 the location inside the part

---
 anifem++/fem/tetdofmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 8dc9305..eb3f62e 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -299,7 +299,7 @@ namespace Ani{
             /// Convert tetrahedron contiguous index into d.o.f. index  
             virtual LocalOrder LocalOrderOnTet(TetOrder dof_id) const = 0; 
             /// Convert geometric locus into d.o.f. index 
-            LocalOrder LocalOrderOnTet(LocGeomOrder dof_id) const {auto id = TetDofIDExt(dof_id); return LocalOrder(TetOrder(id.first), dof_id, id.second); } 
+            virtual LocalOrder LocalOrderOnTet(LocGeomOrder dof_id) const {auto id = TetDofIDExt(dof_id); return LocalOrder(TetOrder(id.first), dof_id, id.second); } 
             /// Compute geometrical type of element by its tetrahedron contiguous index
             virtual uint TypeOnTet(uint dof) const { assert(isValidIndex(TetOrder(dof)) && "Wrong index"); return LocalOrderOnTet(TetOrder(dof)).etype; }
             /// Get tetrahedron contiguous index from geometric locus
@@ -428,7 +428,7 @@ namespace Ani{
             /// Convert tetrahedron contiguous subvector index into d.o.f. index in vector
             LocalOrder LocalOrderOnTet(TetOrder dof_id) const override; 
             /// Convert geometric locus of subvector index into d.o.f. index in vector
-            LocalOrder LocalOrderOnTet(LocGeomOrder dof_id) const;
+            LocalOrder LocalOrderOnTet(LocGeomOrder dof_id) const override;
             /// Is vector index point to position in subvector?
             inline bool isValidOutputIndex(TetOrder dof_id) const { return base()->isValidIndex(TetOrder(dof_id.gid - m_shiftOnTet)); }
             /// Is vector index point to position in subvector?
-- 
2.43.0


From 7139959f5c4984d516f2369a6bc0965996b941e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 27/84] fix: numberings with different symmetries compared
 equal

---
 anifem++/fem/tetdofmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 036ec2f..2ab2678 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -415,7 +415,7 @@ void DofT::UniteDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Local
 bool DofT::UniteDofMap::operator==(const BaseDofMap& o) const {
     if (o.ActualType() != ActualType()) return false;
     auto& a = static_cast<const UniteDofMap&>(o);
-    return m_shiftDof == a.m_shiftDof; //&& m_shiftTetDof == a.m_shiftTetDof
+    return m_shiftDof == a.m_shiftDof && m_symmetries.m_sym == a.m_symmetries.m_sym; //&& m_shiftTetDof == a.m_shiftTetDof
 }
 
 std::array<uint, DofT::NGEOM_TYPES> DofT::VectorDofMap::NumDofs() const  { 
-- 
2.43.0


From a1e6ca38927a66efa3924c0f6c8bd8c6ed98e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 28/84] fix: complement of a selection kept bits of elements
 that do not exist

---
 anifem++/fem/tetdofmap.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 62a226e..c8656cc 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -23,9 +23,10 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
     return res;
 }
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
+    const static uchar lookup_sz[] = {4, 6, 4, 1};
     TetGeomSparsity res; 
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.elems[d] = ~a.elems[d] & ((1 << lookup_sz[d]) - 1);
     return res;
 }
 
-- 
2.43.0


From 89add52e02b5e5041a400db5f55f5419b0d98344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 29/84] fix: setting a part of a composed numbering again added
 its degrees of freedom to the former ones

---
 anifem++/fem/tetdofmap.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index c8656cc..1645684 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -591,14 +591,14 @@ namespace FemComDetails{
     ComplexDofMapCImpl<true, DofMapT...>& ComplexDofMapCImpl<true, DofMapT...>::set(const typename std::tuple_element<I, Base>::type& v){ 
         for (uint t = 0; t < NGEOM_TYPES; ++t) {
             auto etype = NumToGeomType(t);
-            uint nd = v.NumDof(etype);
-            uint ndt = v.NumDofOnTet(etype);
+            uint nd = v.NumDof(etype) - (m_spaceNumDof[t][I+1] - m_spaceNumDof[t][I]);
+            uint ndt = v.NumDofOnTet(etype) - (m_spaceNumDofTet[t][I+1] - m_spaceNumDofTet[t][I]);
             for (uint i = I; i < Size::value; ++i){
                 m_spaceNumDofTet[t][i+1] += ndt;
                 m_spaceNumDof[t][i+1] += nd;
             }
         }
-        uint ndts = v.NumDofOnTet();
+        uint ndts = v.NumDofOnTet() - (m_spaceNumDofsTet[I+1] - m_spaceNumDofsTet[I]);
         for (uint i = I; i < Size::value; ++i)
             m_spaceNumDofsTet[i+1] += ndts;
         std::get<I>(static_cast<Base&>(*this)) = v;
-- 
2.43.0


From 2e9780d6128558e3f45508ffdad330b509e9e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 30/84] fix: permutations of tetrahedron degrees of freedom
 confused components and orbits and face orders

---
 anifem++/fem/tetdofmap.inl | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 1645684..dd6726f 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -214,7 +214,7 @@ inline SymmetryTypeKey symmetry_type_key(const LocalOrder& lo){
     return key;
 }
 inline bool same_geom_sym(const LocalOrder& a, const LocalOrder& b){
-    return a.etype == b.etype && a.nelem == b.nelem && a.stype == b.stype && a.lsid == b.lsid;
+    return a.etype == b.etype && a.nelem == b.nelem && a.leid == b.leid && a.stype == b.stype && a.lsid == b.lsid;
 }
 inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
     LocalOrder r = lo;
@@ -228,10 +228,18 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
         uchar a = face_vertex(lo.nelem, 0), b = face_vertex(lo.nelem, 1), c = face_vertex(lo.nelem, 2);
         r.nelem = find_face_elem(sigma[a], sigma[b], sigma[c]);
     }
-    if (r.stype != uchar(-1))
+    if (r.stype != uchar(-1)){
         r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+        if (dim == 2){
+            // index on the face with ascending order of nodes => index on the image face
+            const auto id = identity_perm();
+            const uchar sorted_lsid = r.lsid, vol = DofSymmetries::symmetry_volume(lo.etype, lo.stype);
+            for (r.lsid = 0; r.lsid < vol; ++r.lsid)
+                if (DofSymmetries::index_on_reorderd_elem(lo.etype, r.nelem, lo.stype, r.lsid, id.data()) == sorted_lsid) break;
+        }
+        r.leid = lo.leid - lo.lsid + r.lsid;
+    }
     r.gid = uint(-1);
-    r.leid = uint(-1);
     return r;
 }
 inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target){
-- 
2.43.0


From f4f097501d1927d961ee566219c7c2eb77d2b6a6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 31/84] fix: interval_enum iterators: wrong operator>=, wrapped
 difference for unsigned numbers, no arithmetic on constant iterators

---
 anifem++/interval/interval_enum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..0ec4218 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -68,19 +68,19 @@ struct interval_external_memory{
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
         const_iterator& operator+=(difference_type n) { m_p += 2*n; return *this; }
         const_iterator& operator-=(difference_type n) { m_p -= 2*n; return *this; }
-        difference_type operator- (const const_iterator& b) { return (m_p - b.m_p)/2; }
+        difference_type operator- (const const_iterator& b) const { return (m_p - b.m_p)/2; }
         bool operator==(const const_iterator & other) const { return m_p == other.m_p; }
         bool operator!=(const const_iterator & other) const { return !operator==(other); }
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-        friend const_iterator operator+(const_iterator& a, difference_type n) { const_iterator b(a); return b+=n; }
-        friend const_iterator operator+(difference_type n, const_iterator& a) { return a + n; }
-        friend const_iterator operator-(const_iterator& a, difference_type n) { const_iterator b(a); return b-=n; }
+        friend const_iterator operator+(const const_iterator& a, difference_type n) { const_iterator b(a); return b+=n; }
+        friend const_iterator operator+(difference_type n, const const_iterator& a) { return a + n; }
+        friend const_iterator operator-(const const_iterator& a, difference_type n) { const_iterator b(a); return b-=n; }
 
         friend class interval_external_memory<Int>;
     };
@@ -120,7 +120,7 @@ struct interval_enum{
         const_iterator& operator--();
         const_iterator  operator++(int) {const_iterator ret(*this); operator++(); return ret;}
         const_iterator  operator--(int) {const_iterator ret(*this); operator--(); return ret;}
-        difference_type operator- (const const_iterator& b) { return (m_it->first - b.m_it->first) + m_shift - b.m_shift; }
+        difference_type operator- (const const_iterator& b) const { return difference_type(m_it->first + m_shift) - difference_type(b.m_it->first + b.m_shift); }
         reference operator*() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return m_val; }
         pointer operator ->() const { m_val = *m_it; m_val.first += m_shift, m_val.second += m_shift; return &m_val; }
         bool operator==(const const_iterator & other) const { return m_it == other.m_it && m_shift == other.m_shift; }
-- 
2.43.0


From ec8e5d7827bfe3993f2672ab112c86406fa54409 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 32/84] fix: ext_array_enum iterators: wrong operator>=,
 operator-= moved forward, end() could not be decremented

---
 anifem++/interval/ext_array_enum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..907aa04 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -113,7 +113,7 @@ public:
     bool contains(const std::array<UInt, N+1>& i) const;
     std::size_t count(const std::array<UInt, N+1>& i) const { return contains(i) ? 1 : 0; }
     iterator begin(GInt i = 0) const;
-    iterator end() const{ iterator x; x.id.first = m_size; return x; }
+    iterator end() const{ iterator x; x.ptr = this; x.id.first = m_size; return x; }
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
-- 
2.43.0


From 82b4b2d9b8bea83e615edd4a1ed5bffd7bda71c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 33/84] fix: ext_range_array_enum::setup of an empty base set
 did not terminate

---
 anifem++/interval/ext_array_enum.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..af673eb 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -11,6 +11,11 @@ namespace Ani{
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
 ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFunc, UInt, GInt>::setup() {
+    if (m_ord.empty()){
+        m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear();
+        m_size = 0;
+        return *this;
+    }
     auto make_check = [](UInt t){
         return [t](const std::array<UInt, N>& a, const std::array<UInt, N>& b){
             for (unsigned i = 0; i < t; ++i)
-- 
2.43.0


From e5905fe83db047112b5815c83b7336c83626511b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:10 +0000
Subject: [PATCH 34/84] fix: ext_range_array_enum iterator stopped at tuples
 with empty ranges

---
 anifem++/interval/ext_array_enum.inl | 42 ++--------------------------
 1 file changed, 3 insertions(+), 39 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index af673eb..bb44bb6 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -621,6 +621,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator
             }
         }
         auto rit = x.rit;
+        while (rit != m_r.end() && make_check(m)(id, rit->first) && rg_size(rit->first[m]) == 0) ++rit;
         if (rit != m_r.end() && make_check(m)(id, rit->first)){
             x.rit = std::next(rit);
             auto v = id; 
@@ -640,27 +641,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator
             }
             return x;
         }
-        if (m > 0){
-            auto wit = x.wit;
-            if (wit != m_w.end()){
-                x.wit = std::next(wit);
-                auto v = x.wit->first;
-                std::fill(v.data() + m, v.data() + v.size(), 0);
-                auto st = std::lower_bound(std::next(x.ked), m_ord.end(), v, compare_arr);
-                v[m] = (*st)[m];
-                x.rit = std::next(std::lower_bound(x.rit, m_r.end(), v, compare_arr_key));
-                auto vv = *st;
-                std::copy(vv.data() + 0, vv.data() + n, res.data() + 0);
-                std::copy(vv.data() + n, vv.data() + vv.size(), res.data() + n + 1);
-                x.ked = x.kst = x.qit.h = st;
-                if (n > m + 1){
-                    v = vv; v[n-1]++;
-                    std::fill(v.data() + n, v.data() + v.size(), 0);
-                    x.pit = std::lower_bound(std::next(x.ked), m_ord.end(), v, compare_arr);
-                }
-                return x;
-            }
-        }
+        if (m > 0) return begin(x.id.first);
     } else {
         auto check_st = make_check(n);
         // auto check_ed = make_check(m);
@@ -694,24 +675,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator
             std::copy(v.data() + n, v.data() + v.size(), res.data() + n + 1);
             return x;
         }
-        if (n > 0){
-            auto wit = x.wit;
-            if (wit != m_w.end()){
-                x.wit = std::next(wit);
-                auto v = x.wit->first;
-                std::fill(v.data() + n, v.data() + v.size(), 0);
-                x.qit.q = std::lower_bound(m_qr.begin(), m_qr.end(), v, compare_arr_key);
-                auto st = std::lower_bound(x.ked, m_ord.end(), v, compare_arr);
-                x.ked = x.kst = st;
-                v = *st;
-                std::copy(v.data(), v.data() + n, res.data());
-                res[n] = 0;
-                std::copy(v.data()+n, v.data() + v.size(), res.data()+n+1);
-                std::fill(v.data() + n, v.data() + v.size(), 0);
-                x.rit = std::next(std::lower_bound(m_r.begin(), m_r.end(), v, compare_arr_key));
-                return x;
-            }
-        }
+        if (n > 0) return begin(x.id.first);
     }
 
     assert("Reached unreacheable code");
-- 
2.43.0


From a0d8f06e211a5d77bbec765ea221fee52b7fc7ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:10 +0000
Subject: [PATCH 35/84] fix: ext_range_array_enum lower_bound/upper_bound
 returned wrong elements or aborted

---
 anifem++/interval/ext_array_enum.h   |   2 +-
 anifem++/interval/ext_array_enum.inl | 123 +++------------------------
 2 files changed, 14 insertions(+), 111 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 907aa04..93b7c5b 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -119,7 +119,7 @@ public:
     /// Returns an iterator to the first element not less than the given key
     iterator lower_bound(const std::array<UInt, N+1>& i) const;
     /// Returns an iterator to the first element greater than the given key
-    iterator upper_bound(const std::array<UInt, N+1>& i) const { auto j = i; ++j[N]; return lower_bound(j); }
+    iterator upper_bound(const std::array<UInt, N+1>& i) const;
     ///Straight mapping
     GInt operator[](const std::array<UInt, N+1>& i) const;
     ///Reverse mapping
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index bb44bb6..ff8a1a2 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -704,118 +704,21 @@ bool ext_range_array_enum<N, RangeFunc, UInt, GInt>::contains(const std::array<U
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
 typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_array_enum<N, RangeFunc, UInt, GInt>::lower_bound(const std::array<UInt, N+1>& i) const{
-    auto make_check = [](UInt t){
-        return [t](const std::array<UInt, N>& a, const std::array<UInt, N>& b){
-            for (unsigned i = 0; i < t; ++i)
-                if (a[i] != b[i]) return false;
-            return true;    
-        };
-    };
-    auto compare_arr = [](const auto& a, const auto& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); };
-    auto compare_arr_key = [compare_arr](const auto& a, const auto& b) { return compare_arr(a.first, b); };
-
-    auto res = i;
-    auto beta = [&id = res, n = insert_pos]() -> UInt& { return id[n]; };
-    auto alpha = [&id = res, n = insert_pos](UInt k) -> UInt& { return id[k + (k >= n ? 1 : 0)]; };
-    UInt n = insert_pos, m = depends_on;
-    std::array<UInt, N> id;
-    std::copy(i.data(), i.data() + insert_pos, id.data());
-    std::copy(i.data() + insert_pos+1, i.data() + i.size(), id.data()+insert_pos);
-    
-    auto jt = m_ord.begin();
-    if (n > 0){
-        auto jd = id;
-        std::fill(jd.begin() + n, jd.end(), 0);
-        jt = std::lower_bound(m_ord.begin(), m_ord.end(), jd, compare_arr);
-        if (jt == m_ord.end())
-            return end(); 
-        if (!make_check(n)(id, *jt)){  
-            std::copy(jt->begin(), jt->begin()+n, res.begin()); 
-            beta() = 0;
-            std::copy(jt->begin()+n, jt->end(), res.begin()+n+1);
-            return begin(this->operator[](res));
-        }      
+    // numbering of the elements is lexicographical
+    GInt st = 0, ed = m_size;
+    while (st < ed){
+        GInt mid = st + (ed - st) / 2;
+        if (this->operator[](mid) < i) st = mid + 1;
+        else ed = mid;
     }
-    if (n > m){
-        if (beta() >= rg_size(id[m])){
-            auto jd = id;
-            std::fill(jd.begin() + n, jd.end(), 0);
-            jd[n-1]++;
-            jt = std::lower_bound(jt, m_ord.end(), jd, compare_arr);
-            if (jt == m_ord.end())
-                return end();
-            beta() = 0;
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*jt)[k];
-            return begin(this->operator[](res));
-        }
-        auto it = std::lower_bound(jt, m_ord.end(), id, compare_arr);
-        if (it != m_ord.end() && make_check(n)(id, *it)){
-            std::copy(it->begin() + n, it->end(), res.begin() + n + 1);
-            return begin(this->operator[](res));
-        } else if (beta()+1 < rg_size(id[m])){
-            std::copy(jt->begin() + n, jt->end(), res.begin() + n + 1);
-            ++beta();
-            return begin(this->operator[](res));
-        } else {
-            if (it == m_ord.end()) return end();
-            std::copy(it->begin(), it->begin()+n, res.begin()); 
-            beta() = 0;
-            std::copy(it->begin()+n, it->end(), res.begin()+n+1);
-            return begin(this->operator[](res));
-        }
-    } else {
-        auto set_next_start = [&](){
-            if (n == 0) return end();
-            auto iid = id;
-            std::fill(iid.begin() + n, iid.end(), 0);
-            iid[n-1]++;
-            auto iit = std::lower_bound(jt, m_ord.end(), iid, compare_arr);
-            if (iit == m_ord.end())
-                return end();
-            beta() = 0;  
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*iit)[k];
-            return begin(this->operator[](res));  
-        };
-
-        auto jd = id;
-        std::fill(jd.begin() + n, jd.end(), 0);
-        auto it_qr = std::lower_bound(m_qr.begin(), m_qr.end(), jd, compare_arr_key);
-        auto b = m_qrb[it_qr->second.second - 1].first;
-        
-        if (beta() >= b)
-            return set_next_start();
-
-        auto it_r = std::lower_bound(m_r.begin(), m_r.end(), jd, compare_arr_key);
-        auto check_st = make_check(n);
-        auto check_ed = make_check(m+1);
-        auto it_add = m_r.end();
-        jd = id; 
-        std::fill(jd.begin() + m+1, jd.end(), 0);
-        for (auto it = it_r; it != m_r.end() && check_st(it->first, jd); ++it){
-            if (beta() >= rg_size(it->first[m])) continue;
-            if (!compare_arr(it->first, jd)){
-                auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
-                    for (unsigned k = 0; k < N; ++k)
-                        alpha(k) = (*kt)[k];
-                    return begin(this->operator[](res));    
-                }
-            }
-            if (it_add == m_r.end() && beta()+1 < rg_size(it->first[m]))
-                it_add = it;
-        }
-        if (it_add != m_r.end()){
-            beta()++;
-            auto kt = std::lower_bound(jt, m_ord.end(), it_add->first, compare_arr);
-            for (unsigned k = 0; k < N; ++k)
-                alpha(k) = (*kt)[k];
-            return begin(this->operator[](res));
-        }
+    return begin(st);
+}
 
-        return set_next_start();
-    }
+template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
+typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_array_enum<N, RangeFunc, UInt, GInt>::upper_bound(const std::array<UInt, N+1>& i) const{
+    auto it = lower_bound(i);
+    if (it != end() && it->second == i) ++it;
+    return it;
 }
 
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
-- 
2.43.0


From d6c87072f2366b6b9a8b9da9eadb2d7efce92433 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:10 +0000
Subject: [PATCH 36/84] fix: ext_array_enum::contains used an unset tuple,
 lower_bound/upper_bound/clear did not compile

---
 anifem++/interval/ext_array_enum.h   |  4 ++--
 anifem++/interval/ext_array_enum.inl | 24 ++++++++++--------------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 93b7c5b..8c989fa 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -200,12 +200,12 @@ public:
     iterator find(GInt i) const;
     iterator find(const std::array<UInt, N+1>& i) const ;
     iterator lower_bound(const std::array<UInt, N+1>& i) const;
-    iterator upper_bound(const std::array<UInt, N+1>& i) const { auto j = i; ++j[N]; return lower_bound(j); }
+    iterator upper_bound(const std::array<UInt, N+1>& i) const;
     // ///Straight mapping
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
-    void clear() { m_arr_enum.clear(); m_int_enum.clear(); }
+    void clear() { m_arr_enum.clear(); for (auto& e: m_int_enum) e.clear(); }
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index ff8a1a2..615655b 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -6,6 +6,7 @@
 #define CARNUM_EXT_ARRAY_ENUM_INL
 
 #include "ext_array_enum.h"
+#include <limits>
 
 namespace Ani{
 
@@ -786,7 +787,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
@@ -831,20 +832,9 @@ typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, N
     auto n = m_arr_enum.insert_pos;
     auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
     auto j = i;
-    if (m < n){
+    if (i[m] < NV){
         auto it1 = m_int_enum[i[m]].lower_bound_right(i[n]);
-        j[n] = (it1 == m_int_enum.end()) ? std::numeric_limits<UInt>::max() : UInt(it1->first);
-    } else {
-        int l = std::numeric_limits<int>::max();
-        typename IntervalEnum::const_iterator it1;
-        for (unsigned r = 0; r < NV; ++r){
-            auto lit = m_int_enum[r].lower_bound_right(i[n]);
-            if (lit != m_int_enum[r].end() && m_int_enum[r]->first < l){
-                l = m_int_enum[r]->first;
-                it1 = lit;
-            }
-        }
-        j[n] = (l != std::numeric_limits<int>::max()) ? l : std::numeric_limits<UInt>::max();
+        j[n] = (it1 == m_int_enum[i[m]].end()) ? std::numeric_limits<UInt>::max() : UInt(it1->first);
     }
     auto it2 = m_arr_enum.lower_bound(j);
     if (it2 == m_arr_enum.end()) return end();
@@ -852,6 +842,12 @@ typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, N
     return iterator(this, _it1, it2);
 }
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
+typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::upper_bound(const std::array<UInt, N+1>& i) const{
+    auto it = lower_bound(i);
+    if (it != end() && it->second == i) ++it;
+    return it;
+}
+template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
 GInt ext_array_enum<N, NV, T1, UInt, GInt, T4>::operator[](const std::array<UInt, N+1>& i) const { 
     auto n = m_arr_enum.insert_pos;
     auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
-- 
2.43.0


From 9b9de4be85e94d98b4e5a5eca55e44dc22465195 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:10 +0000
Subject: [PATCH 37/84] fix: setVectorDirMtx used a wrong column,
 setVectorDirRhs let later conditions change values already set

---
 anifem++/fem/operations/dc_on_dof.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..ade2e23 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
@@ -107,8 +107,9 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k]; 
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From 3085abd6f35d0c62db50537b0ee6095c901835f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:10 +0000
Subject: [PATCH 38/84] fix: union of spaces accepted parts with linearly
 dependent functions (NaN was ignored in the check)

---
 anifem++/fem/fem_space.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index d92a1cb..1609ac6 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -1135,18 +1135,22 @@ namespace Ani{
 
         // Verify W*G ≈ I; throw if bases/functionals are linearly dependent
         {
-            double max_err = 0.0, max_g = 0.0;
+            double max_err = 0.0, max_g = 0.0, max_w = 0.0;
             for (uint i = 0; i < nf; ++i)
             for (uint k = 0; k < nf; ++k){
                 double s = 0.0;
                 for (uint j = 0; j < nf; ++j)
                     s += A(i, j) * B(j, k);
                 double target = (i == k) ? 1.0 : 0.0;
-                max_err = std::max(max_err, std::abs(s - target));
+                // a singular matrix may give NaN, which compares as no error at all
+                double err = std::abs(s - target);
+                max_err = std::isnan(err) ? std::numeric_limits<double>::infinity() : std::max(max_err, err);
                 max_g = std::max(max_g, std::abs(B(i, k)));
+                max_w = std::max(max_w, std::abs(A(i, k)));
             }
             const double tol = 1e-8;
-            if (max_err > tol * (1.0 + max_g))
+            // an inverse this large means that pivots were rounding errors, then W*G ≈ I may hold by chance
+            if (max_err > tol * (1.0 + max_g) || max_w * max_g > 1.0 / tol)
                 throw std::runtime_error("UnionFemSpace: input bases or interpolating functionals are linearly dependent (Gram matrix is singular)");
         }
 
-- 
2.43.0


From 1301bee9a9e77aed8437cbeb2d6fcf8daf206650 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:09:13 +0000
Subject: [PATCH 39/84] fix: ext_array_enum iterator dereferenced the end when
 moved to or from it

---
 anifem++/interval/ext_array_enum.inl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 615655b..84c2439 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -745,13 +745,13 @@ template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, ty
 typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator& ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator::operator --(){
     auto n = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
-    auto x = (it2 != ptr->m_arr_enum.end()) ? it2->second[m] : UInt(-1);
+    bool from_end = (it2 == ptr->m_arr_enum.end());
+    auto x = !from_end ? it2->second[m] : UInt(-1);
     --it2;
     auto v2 = *it2;
-    auto v1 = *it1;
-    if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(v1.first))
+    if (!from_end && v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(it1->first))
         --it1;
-    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(v1.first))
+    else if (from_end || v2.second[m] != x || v2.second[n] != static_cast<UInt>(it1->first))
         it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
     val = std::move(v2);
     val.second[n] = it1->second;
@@ -762,6 +762,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 += n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
-- 
2.43.0


From 4d1ebfdbc8db24724c3951a96fc8fa9a45856bbb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 40/84] fix: bisymmetric tensors of dimension other than three
 did not compile and lost the last index

---
 anifem++/autodiff/physical_tensors.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..bfaa5f3 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,12 +427,12 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
-- 
2.43.0


From fcbe66767bc952c2879b1bca520701f35709084d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 41/84] fix: second derivative of a quotient by an expression
 linear in the variables was lost

---
 anifem++/autodiff/autodiff.h   | 11 +++++++++--
 anifem++/autodiff/autodiff.inl | 13 ++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..239ce66 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,13 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +183,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +202,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+DivVal<_EXParam<EX1>, EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..4a9cfb1 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -154,17 +154,16 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
         }
     }
     HT r;
-    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
+    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv || 
         (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
         && dif >= 2){
         CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
-            auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
-        }
+        CONSTIF (EX2::State::NotTrivialDeriv ) 
+            r += (2 * av / (bv * bv * bv)) * HT::TensorSquare(bm);
+        CONSTIF (EX2::State::NotTrivialSecondDeriv ) 
+            r -= av / (bv * bv) * b.DD();
     }
     return {dif, v, m, r};
 }
-- 
2.43.0


From 26c24a7bff15b1e7b9835d2b76dcfca19eb8e1fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 42/84] fix: derivatives of a real power at zero base

---
 anifem++/autodiff/autodiff.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 4a9cfb1..8418590 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -181,13 +181,13 @@ FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q){
     CONSTIF (EX1::State::NotTrivialDeriv)
         if (dif >= 1){
             am = a.D();
-            m = (q * v / av) * am;
+            m = (av != VT(0) ? q * v / av : (q == 1 ? VT(1) : q * EX1::Storage::MathOps::pow(av, q - 1))) * am;
         }    
     HT r;
     if (dif >= 2){
-        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(0)) * HT::TensorSquare(am);
+        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(q == 2 ? 2 : 0)) * HT::TensorSquare(am);
         CONSTIF (EX1::State::NotTrivialSecondDeriv )
-            r += (av != VT(0) ? q * v / av : VT(0)) * a.DD();    
+            r += (av != VT(0) ? q * v / av : VT(q == 1 ? 1 : 0)) * a.DD();    
     } 
     return {dif, v, m, r};
 }
-- 
2.43.0


From 7ece8980088e9115072be0629304e86db119019e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 43/84] fix: hypot of one argument kept its sign and hypot of
 several took the order of derivatives of the first

---
 anifem++/autodiff/autodiff.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8418590..dbecdb9 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -341,14 +341,19 @@ template<typename EX1, typename ADCheck1<EX1>::type* Dummy>
 FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     using VT = typename EX1::Storage::ValueType; using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     if (nvec == 0) return FuncVal<EX1>();
-    if (nvec == 1) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+    if (nvec == 1) {
+        auto r = abs(vec[0]);
+        return FuncVal<EX1>(r.m_dif, r(), r.D(), r.DD());
+    }
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
         v2 = std::accumulate(vec, vec+nvec, 0.0, [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
         v = EX1::Storage::MathOps::sqrt(v2);
     }
-    unsigned char dif = vec[0].m_dif;
+    unsigned char dif = 0;
+    for (::std::size_t i = 0; i < nvec; ++i)
+        dif = std::max<unsigned char>(dif, vec[i].m_dif);
     GT m;
     HT r;
     CONSTIF (EX1::State::NotTrivialDeriv){
-- 
2.43.0


From e1129a275c4ac445578c5b7d6a0d042f100eae30 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:33:17 +0000
Subject: [PATCH 44/84] fix: index_duplication of bisymmetric tensors of
 dimension two did not compile

---
 anifem++/autodiff/physical_tensors.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index bfaa5f3..34ed4f1 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -442,11 +442,10 @@ struct BiSymTensor4Rank{
 
     constexpr std::size_t rank() const { return 4U; }
     constexpr std::size_t continuous_size() const { return N*(N+1)/2 * (N*(N+1)/2 + 1) / 2; }
-    constexpr std::size_t index_duplication(std::size_t continuous_index) const { 
-        constexpr typename SymMtx<N*(N+1)/2, FT>::IndexMap a{}; 
-        constexpr typename SymMtx<N, FT>::IndexMap b{};
-        auto q = typename SymMtx<N*(N+1)/2, FT>::Index{a.imap[continuous_index], a.jmap[continuous_index]};
-        return (a.imap[continuous_index] != a.jmap[continuous_index] ? 2 : 1) * (b.imap[q.i] != b.jmap[q.i] ? 2 : 1) * (b.imap[q.j] != b.jmap[q.j] ? 2 : 1);
+    std::size_t index_duplication(std::size_t continuous_index) const { 
+        auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index);
+        auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
+        return (q.i != q.j ? 2 : 1) * (ti.i != ti.j ? 2 : 1) * (tj.i != tj.j ? 2 : 1);
     }
 
     template <typename DataType = FT>
-- 
2.43.0


From eee944a787326fef6783285131f8f8b9440ac790 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 45/84] fix: iterators of symmetric tensors measured distances
 in a char

---
 anifem++/autodiff/physical_tensors.h      | 12 ++++++------
 anifem++/autodiff/physical_tensors_3d.inl |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 34ed4f1..990c918 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -107,8 +107,8 @@ struct SymMtx{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -335,8 +335,8 @@ struct SymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -470,8 +470,8 @@ struct BiSymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 860e0df..8424d95 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -68,8 +68,8 @@ struct SymMtx<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -491,8 +491,8 @@ struct BiSymTensor4Rank<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
-- 
2.43.0


From 6b0ff05091cd46c904d84d24fecc99b3b3c930aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 46/84] fix: determinants of matrices with large entries or of
 symmetric matrices with a zero leading entry

---
 anifem++/autodiff/physical_tensors.inl | 33 ++------------------------
 1 file changed, 2 insertions(+), 31 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 38d09ed..062ba5b 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -350,7 +350,7 @@ namespace Ani{
             ret *= sign * A(r, d);
             for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
                 FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
+                if(abs(coef) > 0)
                     for (std::size_t j = 0; j < N; ++j)
                         A(i, j) = A(i, j) - coef * A(r, j);
             }
@@ -359,36 +359,7 @@ namespace Ani{
     }
 
     template<std::size_t N, typename FT>
-    FT SymMtx<N, FT>::Det() const {
-        using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
-        SymMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
-        FT ret(1);
-        for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = i; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
-            }
-        }
-        return ret;
-    }
+    FT SymMtx<N, FT>::Det() const { return PhysMtx<N, FT>(*this).Det(); }
     template<std::size_t N, typename FT>
     inline PhysMtx<N, FT> PhysMtx<N, FT>::TensorSymMul2(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s){
         PhysMtx<N, FT> r;
-- 
2.43.0


From 11169122ca205e2d7a5172c6da621521df54b62f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:51:16 +0000
Subject: [PATCH 47/84] fix: second derivatives of strain invariants did not
 compile for types other than double

---
 anifem++/autodiff/cauchy_strain_invariants.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 34c7483..1bfb0aa 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -51,7 +51,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I1_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE<FT>(); }
 
         /// @return I2(C) = (tr(C)^2 - tr(C^2)) / 2
         template<typename FT = double>
@@ -63,7 +63,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I2_ddE();
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE<FT>(); }
 
         /// @return I3(C) = det(C)
         template<typename FT = double>
@@ -97,9 +97,9 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I4fs_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE<FT>(); }
     
         /// @return I5fs(C) = f^T*C^2*s
         template<typename FT = double>
-- 
2.43.0


From db370b64a78d6af437a55b2bdac61bed146fbcd0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:51:16 +0000
Subject: [PATCH 48/84] fix: assignment of an implementation to a symbolic
 expression did not compile

---
 anifem++/fem/expr_interface.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 12034ac..c7db111 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -119,7 +119,7 @@ namespace Ani{
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
         Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker->makeCopy(), *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const ExprT& x){ 
             if (m_invoker)
                 m_invoker->set_val(x);
@@ -127,9 +127,9 @@ namespace Ani{
                 m_invoker = std::move(x.makeCopy()); 
             return *this; 
         }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(std::shared_ptr<ExprT>&& x){ m_invoker = std::move(x); return *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const std::shared_ptr<ExprT>& x){ m_invoker = std::move(x->makeCopy()); return *this; }
         
         Expr& operator=(double x){ 
-- 
2.43.0


From 023bf5711571731ffdfaf3868edf15a960df03ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:53:20 +0000
Subject: [PATCH 49/84] fix: symbolic basis functions of RT0, ND0 and the face
 functions of P3

---
 anifem++/fem/spaces/nedelec_0.h        | 14 +++++++-------
 anifem++/fem/spaces/poly_3.h           |  6 +-----
 anifem++/fem/spaces/raviant_thomas_0.h | 12 +++++-------
 3 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index 5a460fc..d5fd172 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -229,15 +229,15 @@ namespace Ani{
     struct Basis<FemFix<FEM_ND0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)}));
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             static const unsigned char IPR[4*6] = {0,1,2,3, 0,2,3,1, 0,3,1,2, 1,2,0,3, 1,3,2,0, 2,3,0,1};
             for (int i = 0; i < 6; ++i){
-                auto l0 = grad_lmb.col(IPR[6*i+0]).T();
-                auto l1 = grad_lmb.col(IPR[6*i+1]).T();
-                auto l2 = grad_lmb.col(IPR[6*i+2]).T();
-                auto l3 = grad_lmb.col(IPR[6*i+3]).T();
-                auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[6*i+0], 0)*l1 - lmb(IPR[6*i+1], 0)*l0);
+                auto l0 = grad_lmb.row(IPR[4*i+0]);
+                auto l1 = grad_lmb.row(IPR[4*i+1]);
+                auto l2 = grad_lmb.row(IPR[4*i+2]);
+                auto l3 = grad_lmb.row(IPR[4*i+3]);
+                auto e = norm(cross(l2, l3)) / abs(V);
+                phi[i] = e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
diff --git a/anifem++/fem/spaces/poly_3.h b/anifem++/fem/spaces/poly_3.h
index 74557ac..c6aba7b 100644
--- a/anifem++/fem/spaces/poly_3.h
+++ b/anifem++/fem/spaces/poly_3.h
@@ -186,11 +186,7 @@ namespace Ani{
                     ++phi;
                 }   
             for (int j = 0; j < 4; ++j)
-            for (int k = j+1; k < 4; ++k)
-                for (int l = k+1; l < 4; ++l){
-                    *phi = 27 * lmb(j, 0) * lmb(k, 0) * lmb(l, 0); 
-                    ++phi;
-                }
+                phi[j] = 27 * lmb(j, 0) * lmb((j+1)%4, 0) * lmb((j+2)%4, 0);
         }
     };
 
diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index 1d330b6..b824c6c 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,13 +236,11 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)})));
-            for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.col((i+3)%4))/V * (
-                        lmb((i+0)%4, 0)*cross( grad_lmb.col((i+1)%4).T(), grad_lmb.col((i+2)%4).T() ) + 
-                        lmb((i+1)%4, 0)*cross( grad_lmb.col((i+2)%4).T(), grad_lmb.col((i+0)%4).T() ) +
-                        lmb((i+2)%4, 0)*cross( grad_lmb.col((i+0)%4).T(), grad_lmb.col((i+1)%4).T() )
-                        ); 
+            for (int i = 0; i < 4; ++i){
+                Expr l0 = grad_lmb.row((i+0)%4), l1 = grad_lmb.row((i+1)%4), l2 = grad_lmb.row((i+2)%4);
+                Expr c = norm(grad_lmb.row((i+3)%4)) / det3x3(vertcat({l0, l1, l2}));
+                phi[i] = c * (lmb((i+0)%4, 0)*cross(l1, l2) + lmb((i+1)%4, 0)*cross(l2, l0) + lmb((i+2)%4, 0)*cross(l0, l1));
+            }
         }
     };
 
-- 
2.43.0


From 954c975c8cface58724b481276d7267f8f5ff214 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:53:20 +0000
Subject: [PATCH 50/84] fix: operator>= of symbolic expressions, default row
 and column, bounds of element access

---
 anifem++/fem/expr_interface.h   | 6 +++---
 anifem++/fem/expr_interface.inl | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index c7db111..8e530ed 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -34,8 +34,8 @@ namespace Ani{
         virtual BaseExpr& set_sub_matrix(const BaseExpr& val, std::size_t i_start, long i_inc, std::size_t j_start, long j_inc) = 0;
         virtual BaseExpr& set_horzcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_vertcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
-        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, size1(), 0, 1); }
-        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, size2()); }
+        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, val.size1(), 0, 1); }
+        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, val.size2()); }
         virtual BaseExpr& set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs) = 0;
         virtual BaseExpr& set_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_sum(const BaseExpr& a, const BaseExpr& b){ const BaseExpr* arr[2]{&a, &b}; return set_sum(arr, arr+2); }
@@ -164,7 +164,7 @@ namespace Ani{
             return *this;          
         }
         Expr operator()(std::size_t i, std::size_t j) const {
-            if (i > nrows() || j > ncols())
+            if (i >= nrows() || j >= ncols())
                 throw std::runtime_error("Sizes of expression: " + std::to_string(nrows()) + "x" + std::to_string(ncols()) 
                     + ", but requested value at (" + std::to_string(i) + ", " + std::to_string(j) + ")");
             Expr res = zeroes();
diff --git a/anifem++/fem/expr_interface.inl b/anifem++/fem/expr_interface.inl
index f5adc38..f9fea98 100644
--- a/anifem++/fem/expr_interface.inl
+++ b/anifem++/fem/expr_interface.inl
@@ -99,7 +99,7 @@ namespace Ani{
     APPL_OP_FULL2(operator<, lt)
     APPL_OP_FULL2(operator<=, le)
     APPL_OP_FULL2(operator>, gt)
-    APPL_OP_FULL2(operator>=, le)
+    APPL_OP_FULL2(operator>=, ge)
     APPL_OP_FULL2(operator==, eq)
     APPL_OP_FULL2(operator!=, ne)
     APPL_OP_FULL2(operator&&, and)
-- 
2.43.0


From 3d32b622c87a28f2d45c40f385388aad8a9e58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 51/84] fix: orientation of faces depended on the opposite node
 and on the number of the face

---
 anifem++/inmost_interface/ordering.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 8b4f432..eaa6324 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -155,10 +155,12 @@ namespace Ani{
             const static std::array<unsigned char, 12> lookup_nds = {0, 1, 0, 2, 0, 3, 1, 2, 1, 3, 2, 3};
             return (node_permutation[lookup_nds[2*elid]] < node_permutation[lookup_nds[2*elid+1]]);
         } else if (etype & DofT::FACE){
+            //sign of the permutation of the nodes of the face
             char change = 0;
             for (int k = 0; k < 3; ++k)
-                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+k+1) % 4]) ++change;
-            return change == 1;    
+                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+(k+1)%3) % 4]) ++change;
+            //the nodes elid, elid+1, elid+2 bypass even and odd faces in opposite directions relative to outer normal
+            return (change == 1) == (elid % 2 == 0);    
         } else if (etype & DofT::NODE)
             return true;
         else if (etype & DofT::CELL){
-- 
2.43.0


From 97c2d286d2789640d39b507a06562d16a78f4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 52/84] fix: connectivity of a cell filled four of the six
 edges

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index eaa6324..f384355 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -123,7 +123,7 @@ namespace Ani{
         INMOST::Mesh * m = cell.GetMeshLink();
         std::transform(hnodes, hnodes + 4, nodes, [m](INMOST::HandleType h)->INMOST::Node{ return INMOST::Node(m, h); });
         if (prepare_edges_and_faces){
-            std::transform(hedges, hedges + 4, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
+            std::transform(hedges, hedges + 6, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
             std::transform(hfaces, hfaces + 4, faces, [m](INMOST::HandleType h)->INMOST::Face{ return INMOST::Face(m, h); });
         }
     }
-- 
2.43.0


From 4eecdab8371802e70a9dea4204f04704d39880a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 53/84] fix: gathering of a component from tags of variables
 wrote it behind the other variables

---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index f384355..b962837 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -339,7 +339,7 @@ namespace Ani{
             int ext_dim = v;
             auto view = dmap.GetNestedDofMapView(&ext_dim, 1);
             GatherDataOnElement<OnlyIfDataAvailable, RandomIt>(var_tags[v], *view.m_base, mlink, cell, faces, edges, nodes, canonical_node_indexes, 
-                                    out + view.m_shiftOnTet, next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
+                                    out + (ncomp == 0 ? view.m_shiftOnTet : 0), next_component, next_ncomp, local_face_index, local_edge_index, local_node_index);
         }
     }
     template<bool OnlyIfDataAvailable, class RandomIt>
-- 
2.43.0


From 63001f568a97adf948835dda3db919d43b13ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:30 +0000
Subject: [PATCH 54/84] fix: reordering of mesh functions lost the signs of
 oriented degrees of freedom

---
 anifem++/inmost_interface/ordering.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index b962837..f0f4f68 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -359,7 +359,8 @@ namespace Ani{
         Mesh* m = ts[0].GetMeshLink();
         uint nontrivial_symmetry_geom_mask = DofT::UNDEF;
         for (uint geom_num = 0; geom_num < DofT::NGEOM_TYPES; ++geom_num)
-            if (dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+            if ((dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+                || (dmap.NumDof(DofT::NumToGeomType(geom_num)) > 0 && (DofT::NumToGeomType(geom_num) & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT))) )
                 nontrivial_symmetry_geom_mask |= DofT::NumToGeomType(geom_num);
         if (nontrivial_symmetry_geom_mask == DofT::UNDEF) return; 
         auto gmask = GeomMaskToInmostElementType(nontrivial_symmetry_geom_mask);
@@ -396,7 +397,7 @@ namespace Ani{
                 auto st_data = tv.data() + elem_data_shift[ielem_type_num];
                 for (std::size_t i = 0; i < inum_dofs[ielem_type_num]; ++i){
                     std::copy(st_data + block_sz*(abs(reord[i])-1), st_data + block_sz*abs(reord[i]), r.data() + block_sz*i);
-                    if (reord[i] < 0) std::for_each(r.data() + block_sz*i, r.data() + block_sz*(i+1), std::negate<double>());
+                    if (reord[i] < 0) std::transform(r.data() + block_sz*i, r.data() + block_sz*(i+1), r.data() + block_sz*i, std::negate<double>());
                 }
                 std::copy(r.data(), r.data() + block_sz*inum_dofs[ielem_type_num], st_data);
             }
-- 
2.43.0


From 784d540cb858e82349adf4136bb36c66cab61dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 55/84] fix: operator>= and arithmetic of constant iterators
 over numbers of d.o.f.'s

---
 anifem++/inmost_interface/global_enumerator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index 70c291e..c64508b 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -120,13 +120,13 @@ public:
         bool operator < (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
         bool operator > (const iteratorByVector & other) const { return m_val.eid.id > other.m_val.eid.id; }
         bool operator <= (const iteratorByVector & other) const { return m_val.eid.id <= other.m_val.eid.id; }
-        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id < other.m_val.eid.id; }
+        bool operator >= (const iteratorByVector & other) const { return m_val.eid.id >= other.m_val.eid.id; }
         iteratorByVector& operator += (difference_type n) { m_val.eid.id += n; m_val.nid.clear(); return *this; }
         iteratorByVector& operator -= (difference_type n) { m_val.eid.id -= n; m_val.nid.clear(); return *this; }
-        friend iteratorByVector operator+(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
-        friend iteratorByVector operator+(difference_type n, iteratorByVector& a) { return a + n; }
-        friend iteratorByVector operator-(iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b-=n; }
-        difference_type operator-(const iteratorByVector& b) { return static_cast<difference_type>(m_val.eid.id - b.m_val.eid.id); }
+        friend iteratorByVector operator+(const iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b+=n; }
+        friend iteratorByVector operator+(difference_type n, const iteratorByVector& a) { return a + n; }
+        friend iteratorByVector operator-(const iteratorByVector& a, difference_type n) { iteratorByVector b(a); return b-=n; }
+        difference_type operator-(const iteratorByVector& b) const { return static_cast<difference_type>(m_val.eid.id - b.m_val.eid.id); }
         reference operator*() const { return m_val; }
         pointer operator ->() const { return &m_val; }
         value_type operator[](difference_type n) const {  value_type res(m_val); if (n != 0) { res.eid.id += n; res.nid.clear(); } return res; }
-- 
2.43.0


From 400f2c18ff46fc0f30c428d4da76960c101b2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 56/84] fix: OrderedEnumerator refused the first number of a
 process

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 3bbc4b4..28ec758 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -777,7 +777,7 @@ PGE::EnumerateIndex OrderedEnumerator::index_byMap(const NaturalIndex& physIndex
 }
     
 PGE::NaturalIndex OrderedEnumerator::operator()(EnumerateIndex vi) const {
-    assert(vi.id > BegInd && "Element is GHOST");
+    assert(vi.id >= BegInd && vi.id < EndInd && "Element is GHOST");
     auto id = loc_emap[reverse ? (loc_emap.size() - 1 - (vi.id - BegInd)) : (vi.id - BegInd)];
     NaturalIndex res;
     res.var_id = id[perm[0]];
-- 
2.43.0


From 6d611098479dc114ca89db26adeda6dcf34f5aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 57/84] fix: first oriented d.o.f. of an edge or a face was
 taken for an unoriented one

---
 anifem++/inmost_interface/global_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 28ec758..6dc6026 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -231,7 +231,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, int elem_dof_id) co
     uint tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < elem_dof_id){
+        if (static_cast<int>(lnumdofs) <= elem_dof_id){
             tshift = lnumdofs;
             ++elem_num; 
         }
@@ -281,7 +281,7 @@ PGE::NaturalIndexExt PGE::getFullIndex(INMOST::Element elem, uint var_id, int vl
     uint tshift = 0, tvshift = 0;
     if (e_num == 1 || e_num == 2){
         auto lnumdofs = vars.m_spaces[var_id]->NumDof(DofT::NumToGeomType(elem_num));
-        if (static_cast<int>(lnumdofs) < vledi){
+        if (static_cast<int>(lnumdofs) <= vledi){
             tvshift = lnumdofs;
             vledi -= lnumdofs;
             tshift = vars.NumDof(DofT::NumToGeomType(elem_num));
-- 
2.43.0


From 5e813b3c674be219cccacf6409c9c0597cf3a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 58/84] fix: MINIBLOCKS numbering gave equal numbers to
 different d.o.f.'s

---
 anifem++/inmost_interface/global_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 6dc6026..5bfa007 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -827,7 +827,7 @@ PGE::EnumerateIndex SimpleEnumerator::operator()(const NaturalIndex& physIndex)
         auto iodf = getFullIndex(physIndex).GetElemDofId();
         switch (m_t){
             case ANITYPE: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim]) + iodf * NumElem[edim]; break;
-            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf * NumElem[edim]; break;
+            case MINIBLOCKS: res.id = InitElemIndex[edim] + (physIndex.elem.GlobalID() - BegElemID[edim])*getInmostMeshNumDof()[edim] + iodf; break;
         }
     }
 
@@ -854,7 +854,7 @@ PGE::NaturalIndex SimpleEnumerator::operator()(EnumerateIndex vi) const {
             auto nd = getInmostMeshNumDof();
             iodf = (vi.id - InitElemIndex[edim]) % nd[edim];
             gid = (vi.id - InitElemIndex[edim]) / nd[edim];
-            assert(iodf >= 0 && gid >= 0 && gid < EndElemID[edim] && "Call with number on ghost element");
+            assert(iodf >= 0 && gid >= 0 && gid < EndElemID[edim] - BegElemID[edim] && "Call with number on ghost element");
             break;
         }
     }
-- 
2.43.0


From 19cdec2a6efb4825e5730e0878e6a7ba49130fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 59/84] fix: enumerator given by user was replaced by the
 default one

---
 anifem++/inmost_interface/global_enumerator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index c64508b..d856dc7 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -407,11 +407,11 @@ struct GlobEnumeration: public IGlobEnumeration{
     T* base(){ return reinterpret_cast<T*>(m_invoker.get()); }
     template<typename T = IGlobEnumeration>
     const T* base() const { return reinterpret_cast<T*>(m_invoker.get()); }
-    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (m_t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
+    GlobEnumeration& setAssemblingType(ASSEMBLING_TYPE t){ if (t == NOSPECIFIED) throw std::runtime_error("Set NOSPECIFIED assembling type is not allowed"); return m_t = t, *this;} 
     ASSEMBLING_TYPE getAssemblingType() const { return m_t; }
-    GlobEnumeration& setBaseEnumerator(std::shared_ptr<IGlobEnumeration> base){ return m_invoker = std::move(base), *this; }
+    GlobEnumeration& setBaseEnumerator(std::shared_ptr<IGlobEnumeration> base){ m_t = NOSPECIFIED; return m_invoker = std::move(base), *this; }
     template<typename GlobEnumerationT>
-    GlobEnumeration& setBaseEnumerator(GlobEnumerationT&& f, typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ return m_invoker = std::make_unique<GlobEnumerationT>(std::move(f)), *this; }
+    GlobEnumeration& setBaseEnumerator(GlobEnumerationT&& f, typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(std::move(f)), *this; }
     template<typename GlobEnumerationT>
     GlobEnumeration& setBaseEnumerator(typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(), *this; }
 
-- 
2.43.0


From 30514f53312b7624cb0fb0c68c6a1180f6797010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 60/84] fix: iteration over oriented d.o.f.'s visited
 unoriented ones

---
 anifem++/inmost_interface/global_enumerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 5bfa007..21208ee 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -314,8 +314,8 @@ void PGE::iteratorByGeom::find_begin(){
     j.dim_elem_dof_id = sid.dim_elem_dof_id == ANY ? 0 : sid.dim_elem_dof_id;
     INMOST::Storage::integer lid = sid.loc_elem_id == ANY ? 0 : sid.loc_elem_id;
     for (int dim = 0; dim <= 3; ++dim){
-        auto etype = DofT::DimToGeomType(dim);
-        if (!(sid.etype & etype)) continue; 
+        auto etype = DofT::DimToGeomType(dim) & sid.etype;
+        if (!etype) continue; 
         if (etype & DofT::EDGE_UNORIENT) etype = DofT::EDGE_UNORIENT;
         else if (etype & DofT::FACE_UNORIENT) etype = DofT::FACE_UNORIENT;
         j.elem_type = etype;
@@ -425,8 +425,8 @@ PGE::iteratorByGeom& PGE::iteratorByGeom::operator ++() {
     }
     ++dim;
     for (; dim <= 3; ++dim){
-        auto etype = DofT::DimToGeomType(dim);
-        if (!(sid.etype & etype)) continue;
+        auto etype = DofT::DimToGeomType(dim) & sid.etype;
+        if (!etype) continue;
         if (etype & DofT::EDGE_UNORIENT) etype = DofT::EDGE_UNORIENT;
         else if (etype & DofT::FACE_UNORIENT) etype = DofT::FACE_UNORIENT;
         j.elem_type = etype;
-- 
2.43.0


From fa85491eaf1e9643e504ff428c991f52c76f7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 61/84] fix: collective call made only by processes without
 elements

---
 anifem++/inmost_interface/global_enumerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 21208ee..9090328 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -508,7 +508,7 @@ PGE::GlobToLocIDMap PGE::createGlobalToLocalIDMap(INMOST::Mesh* m, INMOST::Eleme
         if (gid >= EndElemID[dim]) EndElemID[dim] = gid + 1;
     }
     for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d) && BegElemID[d] == LONG_MAX){
-        BegElemID[d] = EndElemID[d] = m->TotalNumberOf(INMOST::ElementTypeFromDim(d));
+        BegElemID[d] = EndElemID[d] = 0;
     }
 
     auto mHdl = m->GetHandle();
-- 
2.43.0


From 050a3aff51594fd2dec38078e7afd6174ad07dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 62/84] fix: numbers of a process without elements of some
 dimension overlapped numbers of other processes

---
 anifem++/inmost_interface/global_enumerator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/global_enumerator.cpp b/anifem++/inmost_interface/global_enumerator.cpp
index 9090328..0233f6c 100644
--- a/anifem++/inmost_interface/global_enumerator.cpp
+++ b/anifem++/inmost_interface/global_enumerator.cpp
@@ -588,8 +588,11 @@ void PGE::setupIGlobEnumeration(){
     std::array<long, 4> total_geom_elements = {0, 0, 0, 0};
     for (int d = 0; d < 4; ++d) if (et & INMOST::ElementTypeFromDim(d))
         total_geom_elements[d] = mesh->TotalNumberOf(INMOST::ElementTypeFromDim(d));
-    for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d) && BegElemID[d] == LONG_MAX){
-        BegElemID[d] = EndElemID[d] = total_geom_elements[d];
+    for (auto d = 0; d <= 3; ++d) if (et & INMOST::ElementTypeFromDim(d)){
+        // process without elements is placed between its neighbours
+        long elements_before = mesh->ExclusiveSum(NumElem[d]);
+        if (BegElemID[d] == LONG_MAX)
+            BegElemID[d] = EndElemID[d] = elements_before;
     }
     MatrSize = 0, BegInd = 0, EndInd = 0;
     for (int i = 0; i < DofT::NGEOM_TYPES; ++i) if (NumDof[i] > 0){
-- 
2.43.0


From 5b18e15f0d9aaab81bc2f8164847550cd891a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:24 +0000
Subject: [PATCH 63/84] fix: assignment of owned tag left the previous tag on
 the mesh

---
 anifem++/inmost_interface/global_enumerator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index d856dc7..cd5b74d 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -76,7 +76,7 @@ public:
         uint GetElemDofId() const { return elem_type_shift + var_dof_shift + dim_dof_shift + dim_elem_dof_id; } 
         /// Number of d.o.f. on the INMOST mesh element if element store only reference variable
         uint GetSingleVarDofId() const { return elem_var_type_shift + dim_dof_shift + dim_elem_dof_id; }
-        void clear() { NaturalIndex::clear();  elem_type_shift = var_dof_shift = dim_dof_shift = uint(-1); }
+        void clear() { NaturalIndex::clear();  elem_type_shift = elem_var_type_shift = var_dof_shift = dim_dof_shift = uint(-1); }
     };
 
     /// Iterator moving by contiguous index 
@@ -310,6 +310,7 @@ struct TagOwned{
     }
     TagOwned& operator=(TagOwned&& t) noexcept{
         if (this == &t) return *this;
+        Clear();
         tag = t.tag;
         t.tag = INMOST::Tag();
         return *this;
-- 
2.43.0


From d8083980a93698d27aba7e222a5df5b992634073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 64/84] fix: wrappers of element functions did not compile for
 some kinds of functions

---
 anifem++/inmost_interface/func_wrap.h   | 4 ++--
 anifem++/inmost_interface/func_wrap.inl | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 8d46bee..e8c7636 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -231,9 +231,9 @@ namespace Ani{
         MatFuncWrapHolder(std::shared_ptr<Base> f): m_invoker(std::move(f)) {}
         
         MatFuncWrapHolder& operator=(std::shared_ptr<Base> f){ return m_invoker = std::move(f), *this; }
-        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = 0>
+        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value, int>::type U = 0>
         MatFuncWrapHolder& operator=(T&& f){ return m_invoker = std::make_shared<T>(std::move(f)), *this; }
-        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = 0>
+        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value, int>::type U = 0>
         MatFuncWrapHolder& operator=(const T& f){ return m_invoker = std::make_shared<T>(f), *this; }
         MatFuncWrapHolder& operator=(const MatFuncWrapHolder&) = default;
         MatFuncWrapHolder& operator=(MatFuncWrapHolder&&) = default;
diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6b6a076..b87b936 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -125,7 +125,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMatRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol)), MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -157,7 +157,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMat(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol))},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -189,14 +189,14 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F)> f, size_t nRow){
         return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ (void) w; (void) iw; (void) user_data; (void) dyn_mem; return f(args, res[0]), 0; },
-                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow))}, 0, 0, false, false };
+                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)}, 0, 0, false, false };
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F, void* user_data)> f, size_t nRow){
-- 
2.43.0


From 96b83b1846768fea40c70b9dc39f67316b96827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:20 +0000
Subject: [PATCH 65/84] fix: sparse view of matrix lost the number of its
 elements

---
 anifem++/inmost_interface/func_wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index e8c7636..086a1e8 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -45,7 +45,7 @@ namespace Ani{
         template<typename RandAccBoolIter, typename TVal = bool>
         void fillTemplate(RandAccBoolIter beg) const;
         static MatSparsityView<Int> make_as_dense(Int sz1, Int sz2) { return MatSparsityView<Int>(DENSE, sz1*sz2, sz1, sz2, nullptr, nullptr); }
-        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, sz1*sz2, sz1, sz2, colind, row); }
+        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, nnz, sz1, sz2, colind, row); }
     };
 
     template <typename TInt = long>
-- 
2.43.0


From 57d92330bbcf09969849a0b0f88f8a9abd38c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 66/84] fix: assignment of wrapper mixed sizes of work arrays

---
 anifem++/inmost_interface/func_wrap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index b87b936..5097ff6 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -118,7 +118,7 @@ namespace Ani{
         if (this == &a) return *this;
         m_sp_in = a.m_sp_in, m_sp_out = a.m_sp_out;
         m_f = a.m_f; 
-        m_sz_w = a.m_sz_w, m_sz_w = a.m_sz_iw; 
+        m_sz_w = a.m_sz_w, m_sz_iw = a.m_sz_iw; 
         m_user_data_required = a.m_user_data_required, m_dyn_mem_required = a.m_dyn_mem_required;
         return *this;
     }
-- 
2.43.0


From 3ef641cfdf9d3f4ee24da7766ddf85c426f96d70 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:42:40 +0000
Subject: [PATCH 67/84] fix: internal memory of separate matrix and rhs
 functions was mixed up

Assembling by separate matrix and right-hand side functions took the number
of the thread for the identificator of the memory of both of them: the memory
of the rhs function was not allocated when the matrix function did not need
any, was shared by all threads otherwise.
---
 anifem++/inmost_interface/assembler.h   |  5 +-
 anifem++/inmost_interface/assembler.inl | 89 +++++++++++--------------
 2 files changed, 43 insertions(+), 51 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 163aa11..976ddf0 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -175,8 +175,9 @@ namespace internals{
 
         int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const;
         int operator()(Memory mem) const;
-        static Int encode_id(Int id1, Int id2) { return id1 + (id2 << 16); }
-        static std::pair<Int, Int> decode_id(Int encoded_ids){ return {encoded_ids & 0xFFFF, (encoded_ids >> 16)}; }
+        ///Identificators of memory of the matrix function and of the rhs function for every allocated identificator
+        std::vector<std::pair<Int, Int>> m_ids;
+        std::pair<Int, Int> decode_id(Int mem_id) const { return mem_id >= 0 ? m_ids[mem_id] : std::pair<Int, Int>(mem_id, mem_id); }
         Int setup_and_alloc_memory();
         void release_memory(Int mem_id);
         void defragment_memory(Int mem_id);
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index f4ad1fb..87d4841 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -347,7 +347,7 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
     
     auto cycle_body_func = [&row_index_buffers, &swap_rows, use_ordered_insert = opts.use_ordered_insert, is_mtx_include_template = opts.is_mtx_include_template,
-                            &func, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data) mutable {
+                            &func, func_internal_mem_ids, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data) mutable {
         auto& m_w = m_wm[nthread];
         if (m_w.status < 0) return;
         INMOST::Cell cell = m_mesh->CellByLocalID(lid);
@@ -366,7 +366,8 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
         TIMER_SCOPE( m_w.m_timers.m_time_fill_map_template += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (!has_active) return;
 
-        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
+        const Int func_mem_id = func_internal_mem_ids.first >= 0 ? func_internal_mem_ids.first + nthread : Int(-1);
+        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, func_mem_id};
         auto tp1 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         auto tp2 = func.out_nnz(1) == func.out_size1(1)*func.out_size2(1) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, 
@@ -379,7 +380,7 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
         dat.update();
         TIMER_SCOPE(  m_w.m_timers.m_time_init_val_setter += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         m_prob_handler(dat);
-        func.defragment_memory(nthread);
+        func.defragment_memory(func_mem_id);
         m_w.pool.defragment();
         TIMER_SCOPE(  m_w.m_timers.m_time_proc_user_handler += m_w.m_timers.m_timer.elapsed_and_reset(); )
         // std::array<int, 4> cni1; std::copy(canonical_node_indexes.data(), canonical_node_indexes.data()+4, cni1.begin());
@@ -519,7 +520,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
     TIMER_SCOPE( for (int i = 0; i < nthreads; ++i) m_wm[i].m_timers.reset(); )
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
     
-    auto cycle_body_func = [&func, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &L, nthreads, this](INMOST::Storage::integer lid, int nthread, void* user_data){
+    auto cycle_body_func = [&func, func_internal_mem_ids, nRows, reord_nds, prep_ef, comp_node_perm, &rhs, &L, nthreads, this](INMOST::Storage::integer lid, int nthread, void* user_data){
         auto& m_w = m_wm[nthread];
         if (m_w.status < 0) 
             return;
@@ -538,7 +539,8 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
         TIMER_SCOPE( m_w.m_timers.m_time_fill_map_template += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (!has_active) return;
 
-        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
+        const Int func_mem_id = func_internal_mem_ids.first >= 0 ? func_internal_mem_ids.first + nthread : Int(-1);
+        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, func_mem_id};
         auto tp2 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, ElementalAssembler::RHS,
                            SparsedData<>(MatSparsityView<Int>::make_as_dense(0, 0), nullptr),
@@ -549,7 +551,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
         dat.update();
         TIMER_SCOPE(  m_w.m_timers.m_time_init_val_setter += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         m_prob_handler(dat);
-        func.defragment_memory(nthread);
+        func.defragment_memory(func_mem_id);
         m_w.pool.defragment();
         TIMER_SCOPE(  m_w.m_timers.m_time_proc_user_handler += m_w.m_timers.m_timer.elapsed_and_reset(); )  
         for(int i = 0; i < nRows; i++){
@@ -740,7 +742,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
     TIMER_SCOPE( m_timers.m_time_init_assemble_dat += m_timers.m_timer.elapsed_and_reset(); )
     
     auto cycle_body_func = [&row_index_buffers, &swap_rows, use_ordered_insert = opts.use_ordered_insert, is_mtx_include_template = opts.is_mtx_include_template,
-                            &func, nRows, reord_nds, prep_ef, comp_node_perm, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data){
+                            &func, func_internal_mem_ids, nRows, reord_nds, prep_ef, comp_node_perm, &matrix,  &L, nthreads, drp_val = opts.drop_val, this](INMOST::Storage::integer lid, int nthread, void* user_data){
         auto& m_w = m_wm[nthread];
         if (m_w.status < 0) return;
         INMOST::Cell cell = m_mesh->CellByLocalID(lid);
@@ -758,7 +760,8 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
         TIMER_SCOPE( m_w.m_timers.m_time_fill_map_template += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (!has_active) return;
 
-        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, nthread};
+        const Int func_mem_id = func_internal_mem_ids.first >= 0 ? func_internal_mem_ids.first + nthread : Int(-1);
+        typename Traits::MatFuncT::Memory fmem{m_w.m_iw.data(), m_w.m_w.data(), const_cast<const typename Traits::MatFuncT::Real **>(m_w.m_args.data()), m_w.m_res.data(), user_data, func_mem_id};
         auto tp1 = func.out_nnz(0) == func.out_size1(0)*func.out_size2(0) ? MatSparsityView<Int>::DENSE : MatSparsityView<Int>::SPARSE_CSC;
         ElementalAssembler dat(&func, ElementalAssembler::MAT,
                            SparsedData<>(MatSparsityView<Int>(tp1, func.out_nnz(0), func.out_size1(0), func.out_size2(0), m_fd.colindA.data(), m_fd.rowA.data()), m_w.m_A.data()),
@@ -769,7 +772,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
         dat.update();
         TIMER_SCOPE(  m_w.m_timers.m_time_init_val_setter += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         m_prob_handler(dat);
-        func.defragment_memory(nthread);
+        func.defragment_memory(func_mem_id);
         m_w.pool.defragment();
         TIMER_SCOPE(  m_w.m_timers.m_time_proc_user_handler += m_w.m_timers.m_timer.elapsed_and_reset(); ) 
         if (use_ordered_insert){
@@ -969,74 +972,62 @@ namespace internals{
 
 template<typename MatFuncT>
 int SystemFromMatRhsFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
+    if (!m_rhs) return m_mat->operator()(args, res, w, iw, user_data, mem_id);
+    auto ids = decode_id(mem_id);
     Real* rhs_p = res[1];
-    int stat1 = m_mat->operator()(args, res, w, iw, user_data, mem_id); 
+    int stat1 = m_mat->operator()(args, res, w, iw, user_data, ids.first); 
     int stat2 = 0;
-    if (stat1 == 0 && m_rhs){
+    if (stat1 == 0){
         res[1] = rhs_p;
-        stat2 = m_rhs->operator()(args, res+1, w, iw, user_data, mem_id);
+        stat2 = m_rhs->operator()(args, res+1, w, iw, user_data, ids.second);
     }
     return stat1+stat2;
 }
 
 template<typename MatFuncT>
 int SystemFromMatRhsFWrap<MatFuncT>::operator()(Memory mem) const { 
-    Real* rhs_p = mem.m_res[1];
-    int stat1 = m_mat->operator()(mem); 
-    int stat2 = 0;
-    if (stat1 == 0 && m_rhs){
-        mem.m_res[1] = rhs_p;
-        stat2 = m_rhs->operator()(mem.m_args, mem.m_res+1, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
-    }
-    return stat1+stat2;
+    return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
 }
 template<typename MatFuncT>
 typename SystemFromMatRhsFWrap<MatFuncT>::Int SystemFromMatRhsFWrap<MatFuncT>::setup_and_alloc_memory(){ 
     Int id1 = m_mat->setup_and_alloc_memory(); 
-    Int id2 = 0;
-    if (id1 >= 0 && m_rhs){
-        id2 = m_rhs->setup_and_alloc_memory();
-        if (id2 < 0){
-            m_mat->release_memory(id1);
-            return id2;
-        }
-    }
-    return encode_id(id1, id2);
+    if (!m_rhs) return id1;
+    m_ids.emplace_back(id1, m_rhs->setup_and_alloc_memory());
+    return static_cast<Int>(m_ids.size()) - 1;
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::release_memory(Int mem_id) { 
+    if (!m_rhs) return m_mat->release_memory(mem_id);
     auto ids = decode_id(mem_id);
-    m_mat->release_memory(m_rhs ? ids.first : mem_id);
-    if (m_rhs){
-        m_rhs->release_memory(ids.second);
-    } 
+    if (ids.first >= 0) m_mat->release_memory(ids.first);
+    if (ids.second >= 0) m_rhs->release_memory(ids.second);
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::defragment_memory(Int mem_id){ 
+    if (!m_rhs) return m_mat->defragment_memory(mem_id);
     auto ids = decode_id(mem_id);
-    m_mat->defragment_memory(m_rhs ? ids.first : mem_id);
-    if (m_rhs)
-        m_rhs->defragment_memory(ids.second);
+    if (ids.first >= 0) m_mat->defragment_memory(ids.first);
+    if (ids.second >= 0) m_rhs->defragment_memory(ids.second);
 }
 template<typename MatFuncT>
 std::pair<typename SystemFromMatRhsFWrap<MatFuncT>::Int, typename SystemFromMatRhsFWrap<MatFuncT>::Int> SystemFromMatRhsFWrap<MatFuncT>::setup_and_alloc_memory_range(Int num_threads){ 
     auto id1 = m_mat->setup_and_alloc_memory_range(num_threads); 
-    std::pair<Int, Int> id2{0, 0};
-    if (id1.first >= 0 && id1.second >= 0 && m_rhs){
-        id2 = m_rhs->setup_and_alloc_memory_range(num_threads);
-        if (id2.first < 0 || id2.second < 0){
-            m_mat->release_memory_range(id1);
-            return id2;
-        }
-    }
-    return {encode_id(id1.first, id2.first), encode_id(id1.second, id2.second)};
+    if (!m_rhs) return id1;
+    //function which does not require the memory returns range with negative begin 
+    auto id2 = m_rhs->setup_and_alloc_memory_range(num_threads);
+    Int st = static_cast<Int>(m_ids.size());
+    for (Int i = 0; i < num_threads; ++i)
+        m_ids.emplace_back(id1.first >= 0 ? id1.first + i : Int(-1), id2.first >= 0 ? id2.first + i : Int(-1));
+    return {st, st + num_threads};
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::release_memory_range(std::pair<Int, Int> id_range){ 
-    auto ids1 = decode_id(id_range.first), ids2 = decode_id(id_range.second);
-    m_mat->release_memory_range(m_rhs ? std::pair<Int, Int>{ids1.first, ids2.first} : id_range); 
-    if (m_rhs)
-        m_rhs->release_memory_range(std::pair<Int, Int>{ids1.second, ids2.second});
+    if (!m_rhs) return m_mat->release_memory_range(id_range);
+    auto num_threads = id_range.second - id_range.first;
+    if (num_threads <= 0) return;
+    auto ids = decode_id(id_range.first);
+    if (ids.first >= 0) m_mat->release_memory_range({ids.first, ids.first + num_threads});
+    if (ids.second >= 0) m_rhs->release_memory_range({ids.second, ids.second + num_threads});
 }
 template<typename MatFuncT>
 void SystemFromMatRhsFWrap<MatFuncT>::release_all_memory(){ 
-- 
2.43.0


From d0b40e1e19b88e81dd24f263507f23b3325bf1b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:43:55 +0000
Subject: [PATCH 68/84] fix: matrix or right-hand side taken from function of
 system overwrote foreign memory

The function of the system wrote the unneeded result to a wild pointer, and
the matrix to the array of the right-hand side; the right-hand side took the
values of the matrix.
---
 anifem++/inmost_interface/assembler.h   | 16 +++++++++++----
 anifem++/inmost_interface/assembler.inl | 26 ++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index 976ddf0..d48b798 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -94,8 +94,8 @@ namespace internals{
         bool is_mat_func = true;
         MatFuncT* m_f = nullptr;
 
-        int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const{ return m_f->operator()(args, res, w, iw, user_data, mem_id); }
-        int operator()(Memory mem) const { return m_f->operator()(std::move(mem));}
+        int operator()(const Real** args, Real** res, Real* w = nullptr, Int* iw = nullptr, void* user_data = nullptr, Int mem_id = -1) const;
+        int operator()(Memory mem) const;
         Int setup_and_alloc_memory(){ return m_f->setup_and_alloc_memory(); }
         void release_memory(Int mem_id) { return m_f->release_memory(mem_id); }
         void defragment_memory(Int mem_id){ return m_f->defragment_memory(mem_id); }
@@ -103,7 +103,11 @@ namespace internals{
         void release_memory_range(std::pair<Int, Int> id_range){ return m_f->release_memory_range(id_range); }
         void release_all_memory(){ return m_f->release_all_memory(); }
         void clear_memory(){ return m_f->clear_memory(); }
-        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ return m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw); }
+        ///@note if the wrapper is generated from function of the system then the tail of w stores the unneeded result of that function
+        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ 
+            m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw);
+            if (!is_mat_func) sz_w += m_f->out_nnz(1); 
+        }
         bool is_user_data_required() const{ return m_f->is_user_data_required(); }
         size_t n_in() const{ return m_f->n_in(); }
         size_t n_out() const{ return 1; }
@@ -143,7 +147,11 @@ namespace internals{
         void release_memory_range(std::pair<Int, Int> id_range){ return m_f->release_memory_range(id_range); }
         void release_all_memory(){ return m_f->release_all_memory(); }
         void clear_memory(){ return m_f->clear_memory(); }
-        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ return m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw); }
+        ///@note if the wrapper is generated from function of the system then the tail of w stores the unneeded result of that function
+        void working_sizes(size_t& sz_args, size_t& sz_res, size_t& sz_w, size_t& sz_iw) const{ 
+            m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw);
+            if (!is_rhs_func) sz_w += m_f->out_nnz(0); 
+        }
         bool is_user_data_required() const{ return m_f->is_user_data_required(); }
         size_t n_in() const{ return m_f->n_in(); }
         size_t n_out() const{ return 1; }
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 87d4841..6aaf776 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -1063,16 +1063,32 @@ std::ostream& SystemFromMatRhsFWrap<MatFuncT>::print_signature(std::ostream& out
     return res;    
 }
 template<typename MatFuncT>
+int MatFromSystemFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
+    if (is_mat_func) return m_f->operator()(args, res, w, iw, user_data, mem_id);
+    size_t sz_args = 0, sz_res = 0, sz_w = 0, sz_iw = 0;
+    m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw);
+    res[1] = w + sz_w;
+    auto ret = m_f->operator()(args, res, w, iw, user_data, mem_id);
+    return ret;
+}
+template<typename MatFuncT>
+int MatFromSystemFWrap<MatFuncT>::operator()(Memory mem) const { 
+    return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
+}
+template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(const Real** args, Real** res, Real* w, Int* iw, void* user_data, Int mem_id) const{ 
-    auto ret = m_f->operator()(args, res, w, iw, user_data, mem_id); 
-    if (!is_rhs_func) std::swap(res[0], res[1]);
+    if (is_rhs_func) return m_f->operator()(args, res, w, iw, user_data, mem_id);
+    size_t sz_args = 0, sz_res = 0, sz_w = 0, sz_iw = 0;
+    m_f->working_sizes(sz_args, sz_res, sz_w, sz_iw);
+    Real* rhs_p = res[0];
+    res[0] = w + sz_w, res[1] = rhs_p;
+    auto ret = m_f->operator()(args, res, w, iw, user_data, mem_id);
+    res[0] = rhs_p;
     return ret;
 }
 template<typename MatFuncT>
 int RhsFromSystemFWrap<MatFuncT>::operator()(Memory mem) const { 
-    auto res = m_f->operator()(mem);
-    if (!is_rhs_func) std::swap(mem.m_res[0], mem.m_res[1]);
-    return res;
+    return operator()(mem.m_args, mem.m_res, mem.m_w, mem.m_iw, mem.user_data, mem.mem_id);
 }
 
 } //end namespace internals
-- 
2.43.0


From df6c3ef43630e628758063987f6f5cead0db12de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 69/84] fix: sparsity of local matrix and right-hand side was
 taken from another function

Only sparsity of the function of the system was stored if there is one, even
when the matrix or the right-hand side is assembled by its own function, and
sparsity of the right-hand side was skipped if the matrix is dense.
---
 anifem++/inmost_interface/assembler.h   |  2 ++
 anifem++/inmost_interface/assembler.inl | 33 ++++++++++---------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.h b/anifem++/inmost_interface/assembler.h
index d48b798..eee6d7b 100644
--- a/anifem++/inmost_interface/assembler.h
+++ b/anifem++/inmost_interface/assembler.h
@@ -443,6 +443,8 @@ private:
     void resize_work_memory(int size);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes);
     bool fill_assemble_templates(const INMOST::ElementArray<INMOST::Node>& nodes, const INMOST::ElementArray<INMOST::Edge>& edges, const INMOST::ElementArray<INMOST::Face>& faces, const INMOST::Cell& cell, std::vector<long>& indexesC, std::vector<long>& indexesR, const unsigned char* canonical_node_indexes, bool is_same_template);
+    ///Store csc indexes of result of the function, set empty arrays if the result is dense
+    static void prepare_sparsity(const MatFuncWrap<Real, Int>& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row);
     int _return_assembled_status(int nthreads);
     internals::SystemFromMatRhsFWrap<typename Traits::MatFuncT> generate_mat_rhs_func();
     internals::MatFromSystemFWrap<typename Traits::MatFuncT> generate_mat_func();
diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 6aaf776..64489cb 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -219,26 +219,6 @@ void AssemblerT<Traits>::PrepareProblem(){
     extend_memory_for_fem_func(mat_func);
     extend_memory_for_fem_func(rhs_func);
     extend_memory_for_fem_func(mat_rhs_func);
-    if (mat_func && !mat_rhs_func){
-        if (mat_func.out_nnz(0) != mat_func.out_size1(0) * mat_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_func.out_size2(0) + 1), m_fd.rowA.resize(mat_func.out_nnz(0));
-            mat_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-        }
-    }
-    if (rhs_func && !mat_rhs_func){
-        if (rhs_func.out_nnz(0) != rhs_func.out_size1(0) * rhs_func.out_size2(0)) {
-            m_fd.colindF.resize(rhs_func.out_size2(0) + 1), m_fd.rowF.resize(rhs_func.out_nnz(0));
-            rhs_func.out_csc(0, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
-    if (mat_rhs_func){
-        if (mat_rhs_func.out_nnz(0) != mat_rhs_func.out_size1(0) * mat_rhs_func.out_size2(0)) {
-            m_fd.colindA.resize(mat_rhs_func.out_size2(0) + 1), m_fd.rowA.resize(mat_rhs_func.out_nnz(0));
-            mat_rhs_func.out_csc(0, m_fd.colindA.data(), m_fd.rowA.data());
-            m_fd.colindF.resize(mat_rhs_func.out_size2(1) + 1), m_fd.rowF.resize(mat_rhs_func.out_nnz(1));
-            mat_rhs_func.out_csc(1, m_fd.colindF.data(), m_fd.rowF.data());
-        }
-    }
     if (!rhs_func && !mat_func && !mat_rhs_func) throw std::runtime_error("Fem expression evaluator is not set");
     orderR.resize(0); orderC.resize(0);
     orderR.reserve(nRows); orderC.reserve(nRows);
@@ -274,6 +254,14 @@ void AssemblerT<Traits>::PrepareProblem(){
         prepareOrder(m_info.TestFuncs(), orderR);
 }
 
+template <typename Traits>
+void AssemblerT<Traits>::prepare_sparsity(const MatFuncWrap<Real, Int>& func, Int res_id, std::vector<Int>& colind, std::vector<Int>& row){
+    colind.clear(), row.clear();
+    if (func.out_nnz(res_id) == func.out_size1(res_id) * func.out_size2(res_id)) return;
+    colind.resize(func.out_size2(res_id) + 1), row.resize(func.out_nnz(res_id));
+    func.out_csc(res_id, colind.data(), row.data());
+}
+
 template <typename Traits>
 int AssemblerT<Traits>::_return_assembled_status(int nthreads){
     int status = 0;
@@ -316,6 +304,8 @@ int AssemblerT<Traits>::Assemble(INMOST::Sparse::Matrix &matrix, INMOST::Sparse:
     if (!mat_rhs_func && (!mat_func || !rhs_func))
         throw std::runtime_error("System local evaluator is not specified");
     auto func = generate_mat_rhs_func();
+    prepare_sparsity(func, 0, m_fd.colindA, m_fd.rowA);
+    prepare_sparsity(func, 1, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -505,6 +495,7 @@ int AssemblerT<Traits>::AssembleRHS(INMOST::Sparse::Vector &rhs, const AssmOpts&
             throw std::runtime_error("Right-hand side local evaluator is not specified");
     }
     auto func = generate_rhs_func();
+    prepare_sparsity(func, 0, m_fd.colindF, m_fd.rowF);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -594,6 +585,7 @@ int AssemblerT<Traits>::AssembleTemplate(INMOST::Sparse::Matrix &matrix){
     if (!mat_func && !mat_rhs_func)
         throw std::runtime_error("Matrix local evaluator is not specified");
     auto func = generate_mat_func();
+    prepare_sparsity(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
@@ -713,6 +705,7 @@ int AssemblerT<Traits>::AssembleMatrix(INMOST::Sparse::Matrix &matrix, const Ass
             throw std::runtime_error("Matrix local evaluator is not specified");
     }
     auto func = generate_mat_func();
+    prepare_sparsity(func, 0, m_fd.colindA, m_fd.rowA);
     int nRows = m_info.TrialFuncs().NumDofOnTet();
     int nthreads = ThreadPar::get_num_threads<Traits::MatFuncT::parallel_type>(m_assm_traits.num_threads);
     resize_work_memory(nthreads);
-- 
2.43.0


From a696065edbbaad14a0ceb610ac7eb506e8097aa4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:48:19 +0000
Subject: [PATCH 70/84] fix: degrees of freedom of one orbit were permuted in
 the wrong direction

Assembling put the index of the stored degree of freedom in the inverse place
of the orbit compared with gathering of the values, what differs if the
permutation is not an involution.
---
 anifem++/inmost_interface/assembler.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index 64489cb..fa473e4 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -160,8 +160,8 @@ bool AssemblerT<Traits>::fill_assemble_templates(
             auto reordered_lsid = DofT::DofSymmetries::index_on_reorderd_elem(tl.etype, tl.nelem, tl.stype, tl.lsid, canonical_node_indexes); 
             auto elem = INMOST::Element(m, h[edim][tl.nelem]);
             bool is_active = (elem.GetStatus() != INMOST::Element::Ghost);
-            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id);
-            indexes[i - tl.lsid + reordered_lsid] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
+            IGlobEnumeration::NaturalIndex ind(elem, tl.etype, tl.var_id, tl.dim_id, tl.lde_id - tl.lsid + reordered_lsid);
+            indexes[i] = internals::assemble_index_encode(sign, compute_order_from_nat_index(ind).id);
             if (is_active) has_active = true;
         }
         return has_active;
-- 
2.43.0


From 9e33b25b79c340f632a65d8b1e5abb81520d7e82 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:50:55 +0000
Subject: [PATCH 71/84] fix: rows of ghost elements were assembled for
 differently described test spaces

Indexes of rows of ghost elements were left defined if descriptions of trial
and test spaces differ, so that their values got to foreign rows or out of
the matrix.
---
 anifem++/inmost_interface/assembler.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/assembler.inl b/anifem++/inmost_interface/assembler.inl
index fa473e4..362e8ab 100644
--- a/anifem++/inmost_interface/assembler.inl
+++ b/anifem++/inmost_interface/assembler.inl
@@ -168,7 +168,11 @@ bool AssemblerT<Traits>::fill_assemble_templates(
     };
     bool has_active = set_indexes(orderC, indexesC, [&m_enum = this->m_enum](const IGlobEnumeration::NaturalIndex& ind){ return m_enum.OrderC(ind); });
     if (!is_same_template){
-        auto has_active1 = set_indexes(orderR, indexesR, [&m_enum = this->m_enum](const IGlobEnumeration::NaturalIndex& ind){ return m_enum.OrderR(ind); });
+        //rows of ghost elements are not assembled and order of rows is not defined for them
+        auto has_active1 = set_indexes(orderR, indexesR, [&m_enum = this->m_enum](const IGlobEnumeration::NaturalIndex& ind){ 
+            if (ind.elem.GetStatus() == INMOST::Element::Ghost) return IGlobEnumeration::EnumerateIndex(IGlobEnumeration::EnumerateIndex::UnValid); //it is encoded by CODE_UNDEF
+            return m_enum.OrderR(ind); 
+        });
         has_active = has_active || has_active1;
     } else {
         std::copy(indexesC.begin(), indexesC.end(), indexesR.begin());
-- 
2.43.0


From a9767cb44dd6679e727d88d20e9a0742ceaa983c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:54:42 +0000
Subject: [PATCH 72/84] fix: cleared enumerator stayed bound to the mesh
 without any numbering

So an assembler used again after Clear() took it for a prepared one.
---
 anifem++/inmost_interface/global_enumerator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/global_enumerator.h b/anifem++/inmost_interface/global_enumerator.h
index cd5b74d..c49ac51 100644
--- a/anifem++/inmost_interface/global_enumerator.h
+++ b/anifem++/inmost_interface/global_enumerator.h
@@ -417,7 +417,12 @@ struct GlobEnumeration: public IGlobEnumeration{
     GlobEnumeration& setBaseEnumerator(typename std::enable_if<std::is_base_of<IGlobEnumeration, GlobEnumerationT>::value>::type* = 0){ m_t = NOSPECIFIED; return m_invoker = std::make_unique<GlobEnumerationT>(), *this; }
 
     INMOST::Storage::integer GNodeIndex(const INMOST::Node& n) const override { return m_invoker->GNodeIndex(n); }
-    void Clear() override { if (m_invoker) m_invoker->Clear(); m_invoker.reset(); }
+    void Clear() override { 
+        if (m_invoker) m_invoker->Clear(); 
+        m_invoker.reset(); 
+        if (m_t == NOSPECIFIED) m_t = NATURAL; //there is no more base enumerator
+        IGlobEnumeration::Clear(); 
+    }
     EnumerateIndex OrderC (const NaturalIndex& physIndex) const override { return m_invoker->OrderC(physIndex); }
     EnumerateIndex operator()(const NaturalIndex& physIndex) const override { return m_invoker->operator()(physIndex); }
     NaturalIndex operator()(EnumerateIndex vi) const override { return m_invoker->operator()(vi); }
-- 
2.43.0


From e4b6807b13603b8b0835bd125d4d7e8008feeaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 73/84] fix: SUNMatMatvec_Inmost stored the product in a copy
 of y instead of y

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index fd5a428..19e46a5 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -780,7 +780,7 @@ int SUNMatCopy_Inmost(SUNMatrix A, SUNMatrix B) {
 
 int SUNMatMatvec_Inmost(SUNMatrix A, N_Vector x, N_Vector y) {
     INMOST::Sparse::Matrix& m = *SM_DATA_P(A);
-    INMOST::Sparse::Vector& xv = *NV_DATA_P(x), yv = *NV_DATA_P(y);
+    INMOST::Sparse::Vector &xv = *NV_DATA_P(x), &yv = *NV_DATA_P(y);
 #if defined(USE_MPI)
     INMOST::Solver::OrderInfo info;
     info.PrepareMatrix(m, SM_CONTENT_P(A)->overlap);
-- 
2.43.0


From 44a42b145df5421b5a54ab7a5709a472197ea2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 74/84] fix: SUNLinSolSolve_Inmost mixed up SUNLS_RES_REDUCED
 and SUNLS_CONV_FAIL

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 19e46a5..95cc4c5 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -938,8 +938,8 @@ int SUNLinSolSolve_Inmost(SUNLinearSolver S, SUNMatrix A, N_Vector x, N_Vector b
         if (resid <= tol) return SUNLS_SUCCESS;
         else {
             realtype init_resid = std::sqrt(N_VDotProd_Inmost(b, b));
-            if (init_resid >= resid) return SUNLS_CONV_FAIL;
-            else return SUNLS_RES_REDUCED;
+            if (init_resid >= resid) return SUNLS_RES_REDUCED;
+            else return SUNLS_CONV_FAIL;
         }
     }
 
-- 
2.43.0


From 2c5eb569e304e1a23e95cc5f6f6b3d884adf59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 75/84] fix: length and weighted RMS norms of a distributed
 N_Vector used the local size instead of the global one

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 95cc4c5..256587f 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -144,7 +144,11 @@ N_Vector_ID N_VGetVectorID_Inmost(N_Vector v) {
     (void) v; return SUNDIALS_NVEC_CUSTOM;
 }
 sunindextype N_VGetLength_Inmost(N_Vector v){
-    return NV_DATA_P(v)->Size();
+    long long llen = NV_DATA_P(v)->Size(), glen = llen;
+#ifdef USE_MPI
+    MPI_Allreduce(&llen, &glen, 1, MPI_LONG_LONG, MPI_SUM, NV_DATA_P(v)->GetCommunicator());
+#endif
+    return glen;
 }
 
 void N_VDestroy_Inmost(N_Vector v) {
@@ -382,7 +386,7 @@ realtype N_VWrmsNorm_Inmost(N_Vector x, N_Vector w) {
 #else
     gsum = lsum;
 #endif    
-    return std::sqrt(gsum / xv->Size());
+    return std::sqrt(gsum / N_VGetLength_Inmost(x));
 }
 
 realtype N_VWSqrSumMaskLocal_Inmost(N_Vector x, N_Vector w, N_Vector id) {
@@ -405,7 +409,7 @@ realtype N_VWrmsNormMask_Inmost(N_Vector x, N_Vector w, N_Vector id) {
 #else
     gsum = lsum;
 #endif    
-    return std::sqrt(gsum / xv->Size());
+    return std::sqrt(gsum / N_VGetLength_Inmost(x));
 }
 
 realtype N_VMinLocal_Inmost(N_Vector x) {
-- 
2.43.0


From 9f3037d52348475aaf7956e2257bb60700982287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 76/84] fix: N_VClone_Inmost aborted on a process without
 unknowns

---
 anifem++/kinsol_interface/SUNNonlinearSolver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index 256587f..e3743f6 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -216,7 +216,6 @@ N_Vector N_VClone_Inmost(N_Vector w) {
             name = wname + "_cln" + std::to_string(++id);
         }
         content->data = new INMOST::Sparse::Vector(name, wdat->GetFirstIndex(), wdat->GetLastIndex(), wdat->GetCommunicator());
-        assert(!content->data->Empty());
         content->own_data = true;
     }
     return v;
-- 
2.43.0


From be4db42d5cb9864ecc7e74ef5a6f28b7abc66cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 77/84] fix: a moved-from SUNNonlinearSolver destroyed the
 objects it had handed over, KINSOL kept its address

---
 .../kinsol_interface/SUNNonlinearSolver.cpp     | 17 +++++++++++++++++
 anifem++/kinsol_interface/SUNNonlinearSolver.h  |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
index e3743f6..a0aecf1 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.cpp
@@ -997,6 +997,23 @@ SUNNonlinearSolver::SUNNonlinearSolver(SUNNonlinearSolver::Solver &s, SUNNonline
     kin = KINCreate(SUNNLS_CTX); if (!kin) throw std::runtime_error("Error in initialization of KINCreate");
 }
 
+SUNNonlinearSolver::SUNNonlinearSolver(SUNNonlinearSolver&& o) noexcept:
+    assm(std::move(o.assm)), assmRHS(std::move(o.assmRHS)), assmMAT(std::move(o.assmMAT)), x(o.x), A(o.A), LS(o.LS),
+#if SUNDIALS_VERSION_MAJOR >= 6
+    m_ctx(std::move(o.m_ctx)),
+#endif
+    kin(o.kin), ihand(std::move(o.ihand)), ehand(std::move(o.ehand)), u_scale(o.u_scale),
+    _lmat_assm_time(o._lmat_assm_time), _lrhs_assm_time(o._lrhs_assm_time),
+    _gmat_assm_time(o._gmat_assm_time), _grhs_assm_time(o._grhs_assm_time),
+    reason_flag(o.reason_flag), _egamma(o._egamma), _ealpha(o._ealpha), _wmin(o._wmin), _wmax(o._wmax) {
+    o.x = nullptr; o.A = nullptr; o.LS = nullptr; o.kin = nullptr; o.u_scale = nullptr;
+    if (!kin) return;
+    // KINSOL keeps the address of the object
+    KINSetUserData(kin, this);
+    if (ehand) KINSetErrHandlerFn(kin, errorHandler, this);
+    if (ihand) KINSetInfoHandlerFn(kin, infoHandler, this);
+}
+
 SUNNonlinearSolver::~SUNNonlinearSolver() {
     KINFree(&kin);
     SUNLinSolFree_Inmost(LS); LS = nullptr;
diff --git a/anifem++/kinsol_interface/SUNNonlinearSolver.h b/anifem++/kinsol_interface/SUNNonlinearSolver.h
index 22a57b5..8e968bf 100644
--- a/anifem++/kinsol_interface/SUNNonlinearSolver.h
+++ b/anifem++/kinsol_interface/SUNNonlinearSolver.h
@@ -263,7 +263,7 @@ public:
 #if SUNDIALS_VERSION_MAJOR >= 6
     SUNNonlinearSolver(sundials::Context&& ctx);
 #endif 
-    SUNNonlinearSolver(SUNNonlinearSolver&&) noexcept = default;
+    SUNNonlinearSolver(SUNNonlinearSolver&& other) noexcept;
     SUNNonlinearSolver(Solver& s, Matrix& m, Vector& x);
     ~SUNNonlinearSolver();
 
-- 
2.43.0


From 42eb0a80d4b2e5056473cb61f0dbe78c9c231048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:36 +0000
Subject: [PATCH 78/84] fix: parallel_for over a range of int did not compile
 with std::thread

---
 anifem++/fem/mutex_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index 92fd543..55c8a0b 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -124,7 +124,7 @@ namespace ThreadPar{
             unsigned batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
-            auto batch_begin = [&](unsigned i){ return beg + (batch_size*i + std::min(i, batch_remainder)); };
+            auto batch_begin = [&](unsigned i) -> RandAccIterator { return beg + (batch_size*i + std::min(i, batch_remainder)); };
             for (int i = 0; i < nthreads - 1; ++i)
                 work_threads[i] = std::thread([&f, &args..., i, lbeg = batch_begin(i), lend = batch_begin(i+1)](){ 
                     perform_for_on_thread(i+1, std::ref(f), lbeg, lend, args...); 
-- 
2.43.0


From 8336039c137890bcf27066d503933feeb051f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 79/84] fix: values of variables with several d.o.f. on an edge
 or face read in node order

eval_op_var_by_barycentric_points ordered the nodes of the cell only for d.o.f.
with a sign, so that the two edge values of e.g. P3 were swapped on a part of
the cells.
---
 anifem++/utils/utils.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 6ed79ec..1415aaf 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -137,7 +137,14 @@ void eval_op_var_by_barycentric_points(Ani::DenseMatrix<> out/*Dim x N*/, Ani::D
     collectConnectivityInfo(c, nds.data(), eds.data(), fcs.data(), true, prep_ef);
 
     std::array<unsigned char, 4> canonical_node_indexes{0, 1, 2, 3};
-    const bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    bool comp_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    for (unsigned i = 0; i < DofT::NGEOM_TYPES && !comp_node_perm; ++i) {
+        auto etype = DofT::NumToGeomType(i);
+        if (dmap.NumDof(etype) > 0) {
+            auto smask = dmap.SymComponents(etype);
+            comp_node_perm = (smask == DofT::DofSymmetries::MASK_UNDEF || (smask >> 1));
+        }
+    }
     if (comp_node_perm){
         std::array<long, 4> gni;
         for (int i = 0; i < 4; ++i)
-- 
2.43.0


From 466aab7ef95116a449635d066af8f8db36f94d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 80/84] fix: GenerateParallelepiped leaves surplus processes
 without cells

With e.g. 5 cells along an axis and 4 processes the first cell of the last
process lay outside of the box or the number of its cells wrapped around.
---
 anifem++/utils/mesh_utils.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/anifem++/utils/mesh_utils.cpp b/anifem++/utils/mesh_utils.cpp
index f21a92a..e7aa571 100644
--- a/anifem++/utils/mesh_utils.cpp
+++ b/anifem++/utils/mesh_utils.cpp
@@ -100,11 +100,9 @@ std::unique_ptr<Mesh> GenerateParallelepiped(INMOST_MPI_Comm comm, std::array<un
 
     for(int j = 0; j < 3; j++)
     {
-        localstart[j] = avgsize[j] * proc_coords[j];
-        if( proc_coords[j] == procs_per_axis[j] - 1 )
-            localsize[j] = sizes[j] - avgsize[j] * (procs_per_axis[j]-1);
-        else localsize[j] = avgsize[j];
-        localend[j] = localstart[j] + localsize[j];
+        localstart[j] = std::min(avgsize[j] * proc_coords[j], sizes[j]);
+        localend[j] = std::min(localstart[j] + avgsize[j], sizes[j]);
+        localsize[j] = localend[j] - localstart[j];
     }
 
     // Create i-j-k structure of nodes
-- 
2.43.0


From b99599d3f743d7cded03c63b8f5afc679416dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 81/84] fix: solve_stationary_diffusion takes Neumann data into
 account for every space

Boundary faces were looked at only if the space has d.o.f. on faces, so that
the fluxes were ignored for e.g. P1 and P2.
---
 anifem++/utils/utils.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index 1415aaf..b72fef2 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -406,13 +406,16 @@ void solve_stationary_diffusion(
         if (geom_mask & DofT::EDGE)
             for (unsigned i = 0; i < 6U; ++i) if (is_dirichlet((*p.edges)[i]))
                 data.sp.setEdge(i);
-        if (geom_mask & DofT::FACE)
-            for (unsigned i = 0; i < 4U; ++i) {
-                if (is_dirichlet((*p.faces)[i]))
+        for (unsigned i = 0; i < 4U; ++i) {
+            const bool is_boundary = (*p.faces)[i].GetMarker(bmrk);
+            if (!(geom_mask & DofT::FACE) && !is_boundary)
+                continue;
+            if (is_dirichlet((*p.faces)[i])) {
+                if (geom_mask & DofT::FACE)
                     data.sp.setFace(i);
-                else if ((*p.faces)[i].GetMarker(bmrk))
-                    data.is_neumann |= (1 << i);
-            }
+            } else if (is_boundary)
+                data.is_neumann |= (1 << i);
+        }
         if ((geom_mask & DofT::CELL) && is_dirichlet(*p.cell) )
             data.sp.setCell();
         data.node_permutation = p.node_permutation;
-- 
2.43.0


From 03c9a91a62c489ca077bf45e89b5deb955cda960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 82/84] fix: print_linear_solver_status with 1000 iterations or
 more

The number was written before the begin of the string.
---
 anifem++/utils/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.cpp b/anifem++/utils/utils.cpp
index b72fef2..d37b04d 100644
--- a/anifem++/utils/utils.cpp
+++ b/anifem++/utils/utils.cpp
@@ -90,7 +90,8 @@ void print_linear_solver_status(INMOST::Solver& s, const std::string& prob_name,
         if(pRank == 0) {
             std::cout << prob_name << ":\n";
             std::string _s_its = std::to_string(s.Iterations()), s_its = "    ";
-            std::copy(_s_its.begin(), _s_its.end(), s_its.begin() + 3 - _s_its.size());
+            if (_s_its.size() > 3) s_its.resize(_s_its.size() + 1, ' ');
+            std::copy(_s_its.begin(), _s_its.end(), s_its.end() - 1 - _s_its.size());
 
             std::cout << "\tsolved_succesful: #lits " << s_its << " residual " << s.Residual() << ", "
                       << "preconding = " << s.PreconditionerTime() << "s, solving = " << s.IterationsTime() << "s" << std::endl;
-- 
2.43.0


From 6aab943ec0f8db72cc4ee2c0ccc98bba9123a4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:47 +0000
Subject: [PATCH 83/84] fix: metrics of variables with several d.o.f. on an
 edge or face

The nodes of the cell were ordered only for d.o.f. with a sign, so that the two
edge values of e.g. P3 were swapped on a part of the cells.
---
 anifem++/utils/adapt_mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anifem++/utils/adapt_mesh.cpp b/anifem++/utils/adapt_mesh.cpp
index 21326d3..573a4d0 100644
--- a/anifem++/utils/adapt_mesh.cpp
+++ b/anifem++/utils/adapt_mesh.cpp
@@ -593,7 +593,14 @@ void construct_metrics(FemSpace fem, Tag var, Tag& metrics, MetricsConstructTrai
     const auto grad_op = fem.getOP(GRAD);
     const int quad_order = std::max(1, traits.max_quad_order);
     const bool prep_ef = dmap.GetGeomMask() & (DofT::EDGE | DofT::FACE);
-    const bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    bool need_node_perm = dmap.GetGeomMask() & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT);
+    for (unsigned i = 0; i < DofT::NGEOM_TYPES && !need_node_perm; ++i) {
+        auto etype = DofT::NumToGeomType(i);
+        if (dmap.NumDof(etype) > 0) {
+            auto smask = dmap.SymComponents(etype);
+            need_node_perm = (smask == DofT::DofSymmetries::MASK_UNDEF || (smask >> 1));
+        }
+    }
 
     {
         const char* tmp_name = "___tmp_cell_absH_svals";
-- 
2.43.0


From e97aada8f7475ecf1ecd9f257921b5781ba10e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:31 +0000
Subject: [PATCH 84/84] fix: eval_op_var_at_point<N> without components was
 ambiguous

---
 anifem++/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/utils/utils.h b/anifem++/utils/utils.h
index fe04a80..a55393c 100644
--- a/anifem++/utils/utils.h
+++ b/anifem++/utils/utils.h
@@ -48,7 +48,7 @@ void eval_op_var_at_point(double* out, INMOST::Cell c, std::array<double, 3> x_p
 template<std::size_t N, typename Traits>
 std::array<double, N> eval_op_var_at_point(INMOST::Cell c, std::array<double, 3> x_point, const Ani::ApplyOpBase& op, Ani::AssemblerT<Traits>& discr, INMOST::Tag problem_tag, const int* component = nullptr, unsigned int ncomp = 0);
 template<std::size_t N, typename Traits>
-std::array<double, N> eval_op_var_at_point(INMOST::Cell c, std::array<double, 3> x_point, const Ani::ApplyOpBase& op, Ani::AssemblerT<Traits>& discr, INMOST::Tag problem_tag, std::initializer_list<int> components = {});
+std::array<double, N> eval_op_var_at_point(INMOST::Cell c, std::array<double, 3> x_point, const Ani::ApplyOpBase& op, Ani::AssemblerT<Traits>& discr, INMOST::Tag problem_tag, std::initializer_list<int> components);
 
 /// @brief Compute approximate integral of function over mesh domain.
 /// @return \sum_{cell \in mesh} |cell| * \sum_{q \in quad_formula} w_q * f(cell, X_q)
-- 
2.43.0

