From 0ea51b91d8a549d576f1fdfcb8968343fe506296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 01/20] fix: continue chunk numbering after loading an existing
 index

Reopening a distributed array left the chunk id counter at zero, so that the
first chunks registered afterwards reused the ids of existing chunks.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e1c985..91ed58b 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -719,6 +719,9 @@ void ChunkIndex<dims>::load_and_rebuild_index() {
 
   for(metadata_t& cur_meta : chunk_list) {
     m_chunk_tree.InsertElement(cur_meta, cur_meta.start_ind, cur_meta.end_ind);
+
+    // chunks registered from now on must not reuse any of the loaded ids
+    m_next_chunk_id = std::max<std::size_t>(m_next_chunk_id, cur_meta.chunk_id + 1);
   }  
 }
 
-- 
2.43.0


From 92c01e540eca0ac3936c936b19bced29da99bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 02/20] fix: make rebuilding chunks without overlap usable

The placeholder boundary evaluator passed by the overlap-free overloads of
`RebuildChunks` and `RebuildChunksPartial` matched neither of the supported
signatures, so that calling them did not compile.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 91ed58b..c7f81fe 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1181,7 +1181,7 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
 									    const ind_t& requested_chunk_shape, std::filesystem::path outdir, const ChunkHints& hints) {
 
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
@@ -1368,7 +1368,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape,
 								     std::filesystem::path tmpdir, const ChunkHints& hints) {
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
-- 
2.43.0


From b1c8a277c97f6cd820ff2e89c4ec7bbe780412c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/20] fix: reserve space for the terminating zero of a chunk
 file name

`uuid_unparse` writes 37 bytes.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index c7f81fe..44c1e5b 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -516,7 +516,7 @@ namespace {
   std::filesystem::path get_chunkfile_path() {
     uuid_t uuid_binary;
     uuid_generate_random(uuid_binary);
-    char uuid_string[36];
+    char uuid_string[UUID_STR_LEN]; // includes the trailing zero byte
     uuid_unparse(uuid_binary, uuid_string);
     return std::string(uuid_string);    
   }  
-- 
2.43.0


From 539ea84f8127313136fbf62744be6f7e599652c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 04/20] fix: restore all-null chunks including their overlap
 region

An all-null chunk with overlap that is fetched again after having been evicted
from the cache (or after reopening) was given a buffer without the overlap, so
that accessing its elements ran out of bounds.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 44c1e5b..9ad0158 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -288,8 +288,8 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   }
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
-    // Make sure the cache element has the correct shape ...
-    insert_location.chunk_data.resize(chunk_meta.shape);
+    // Make sure the cache element has the correct shape (including the overlap region) ...
+    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);
 
     // ... and fill it with zeroes
     insert_location.chunk_data = (T)(0.0);
-- 
2.43.0


From be5fbdf7d36744528d4f74d1368a7148ac336657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 05/20] fix: skip the output samples covered by an empty chunk

Samples following those determined by an all-null chunk were accumulated at
the wrong (too early) position in the output signal.
---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 10a788d..8ed548a 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -431,6 +431,10 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
 	std::advance(result, 1);
       }
     }
+    else {
+      // A chunk without any content does not contribute to these samples; skip over them
+      std::advance(result, samples_to_request);
+    }
       
     cur_sample_ind += samples_to_request;
   }
-- 
2.43.0


From 78ce269d2f74dcc5fcc893202992bc6ab9fe982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 06/20] fix: raise an error for out-of-bounds tracks if
 requested

With `OutOfBoundsBehavior::RaiseError`, leaving the domain dereferenced a null
pointer instead of raising an error.
---
 eisvogel/core/impl/GreensFunction.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 8ed548a..f895884 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -383,6 +383,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
       return;
     }
 
+    // ... or flag this as an error
+    if(meta == nullptr) {
+      throw std::runtime_error("Error: track outside of Green's function domain!");
+    }
+
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
-- 
2.43.0


From e18bbb650df868fde2030fb49267b32e8a0ced36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 07/20] fix: sample the last chunk when evaluating a Green's
 function on a grid

`fill_array` did not visit a chunk starting at the integer part of the end
position, leaving the samples in it at zero. Also do not attempt to
interpolate in chunks that lie between two sampling points.
---
 eisvogel/core/impl/GreensFunction.hxx | 7 ++++++-
 eisvogel/core/impl/IteratorUtils.hh   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index f895884..186622d 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -121,7 +121,7 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
     
   // Get all chunks that contribute to the range spanned by `start_f_ind` and `end_f_ind`
   RZTIndexVector start_ind = start_f_ind.template as_type<std::size_t>();
-  RZTIndexVector end_ind = end_f_ind.template as_type<std::size_t>();
+  RZTIndexVector end_ind = end_f_ind.template as_type<std::size_t>() + 1; // exclusive, i.e. the chunk containing `end_f_ind` is needed as well
   std::vector<std::reference_wrapper<const metadata_t>> required_chunks = m_index.GetChunks(start_ind, end_ind);  
 
   // std::cout << "start_ind = " << start_ind << std::endl;
@@ -150,6 +150,11 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
     RZTIndexVector output_start_ind = VectorUtils::ceil_nonneg(VectorUtils::max(output_start_f_ind, 0.0f));
     RZTIndexVector output_end_ind = VectorUtils::floor_nonneg(VectorUtils::min(output_end_f_ind + 1, num_samples.template as_type<scalar_t>()));
 
+    // This chunk might lie in between the sampling points
+    if(IteratorUtils::empty_range(output_start_ind, output_end_ind)) {
+      continue;
+    }
+
     // std::cout << chunk_meta << std::endl;
 
     // std::cout << "provides output_start_f_ind = " << output_start_f_ind << std::endl;
diff --git a/eisvogel/core/impl/IteratorUtils.hh b/eisvogel/core/impl/IteratorUtils.hh
index 4d950ce..d678fb2 100644
--- a/eisvogel/core/impl/IteratorUtils.hh
+++ b/eisvogel/core/impl/IteratorUtils.hh
@@ -102,7 +102,7 @@ namespace IteratorUtils {
   bool empty_range(const Vector<std::size_t, dims>& begin, const Vector<std::size_t, dims>& end) {
     
     for(std::size_t i = 0; i < dims; i++) {
-      if(begin >= end) {
+      if(begin[i] >= end[i]) {
 	return true;
       }
     }
-- 
2.43.0


From 090ee5640e21433ecd4113eadbea20bd69ef314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 08/20] fix: refuse to append slices the serialization layout
 cannot represent

Appending along an axis that is not the outermost one of the serialization
chunk loop, or to an array with partial serialization chunks, wrote a file
that could not be read back correctly. Implements the conditions that were
already listed as a TODO.
---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index fdcb8ff..0c36fba 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -271,13 +271,19 @@ namespace stor {
     }
 
     // --------
-    // TODO: Finish implementing checks
     // must satisfy that it(part1) + it(part2) === it(part1 + part2) for the given chunk size and dimensions of part1, part2
 
-    // Better conditions:
     // 1) must have no gaps and no automatically-growing chunks along concatenation dimension: i.e. must not have partial chunks along concat dimension
-    //       (ser_chunk_shape[concat_dim] <= array_shape[concat_dim]) && (array_shape[concat_dim] % ser_chunk_shape[concat_dim] == 0)
+    if((meta.ser_chunk_shape[axis] > meta.array_shape[axis]) || (meta.array_shape[axis] % meta.ser_chunk_shape[axis] != 0)) {
+      throw std::runtime_error("Error: array contains partial serialization chunks along the concatenation axis, cannot append!");
+    }
+
     // 2) concat dimension must not be after the outermost changing dimension
+    for(std::size_t ind = 0; ind < axis; ind++) {
+      if(meta.ser_chunk_shape[ind] < meta.array_shape[ind]) {
+	throw std::runtime_error("Error: concatenation axis is not the outermost axis of the serialization chunk loop, cannot append!");
+      }
+    }
     // --------
     
     // // check if the serialization chunk is a `slice`, i.e. the chunk fully "slices through" the array along a particular dimension
-- 
2.43.0


From 9622d596ab286d1d4007ce7e2a204894a3e03d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 09/20] fix: keep chunk and metadata consistent when appending
 along different axes

Changing the concatenation axis while a slice was still pending appended the
full chunk to itself, and a rejected append nevertheless enlarged the recorded
chunk shape.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 36 +++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 9ad0158..23a4917 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -119,9 +119,10 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     throw std::runtime_error("Error: dimensions not compatible for concatenation!");
   }
   
-  // Update the metadata
+  // Update the metadata; becomes effective only once the slice has been appended successfully
   std::size_t shape_growth = slice.GetShape()[axis];
-  chunk_meta.template GrowChunk<axis>(shape_growth);
+  chunk_meta_t updated_meta = chunk_meta;
+  updated_meta.template GrowChunk<axis>(shape_growth);
   
   id_t index = chunk_meta.chunk_id;
   if(!m_cache.contains(index)) {
@@ -130,19 +131,26 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     
     // Cache does not have the chunk to which the new slice should be appended; simply insert the slice as a new element into the cache using the `append` status
     // so that it will be appended to disk whenever it goes out of scope
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
+    insert_into_cache(updated_meta, slice, CacheStatus::Append(axis));
 
     // Immediately synchronize to disk if we're asked to operate without cache
     if(m_cache_size == 0) {      
       FlushCache();
     }
-    
+
+    chunk_meta = updated_meta;
     return;
   }
 
   // Cache already contains the chunk, how to proceed depends on its status
   cache_entry_t& cached_chunk = m_cache.get(index);
   status_t& status = cached_chunk.op_to_perform;
+
+  // The chunk is scheduled for concatenation along a different axis, need to synchronize with disk first
+  if(std::holds_alternative<CacheStatus::Append>(status) && (std::get<CacheStatus::Append>(status).axis != axis)) {
+    sync_cache_element_with_disk(cached_chunk);
+  }
+
   if(std::holds_alternative<CacheStatus::Nothing>(status)) {
     
     // The chunk is in the cache, but is marked as being in sync with the information on disk.
@@ -150,7 +158,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     m_cache.evict(index);
     
     // ... and insert it with `append` status, as done above
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
+    insert_into_cache(updated_meta, slice, CacheStatus::Append(axis));
   }
   else if(std::holds_alternative<CacheStatus::Serialize>(status)) {
 
@@ -158,30 +166,24 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     
     // The cache already contains a chunk that is to be serialized from scratch; just concatenate in memory and write to disk whenever
     // this chunk is evicted from the cache
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);      
+    cached_chunk.chunk_data.template Append<axis>(slice);
+    cached_chunk.chunk_meta = updated_meta;
   }
   else if(std::holds_alternative<CacheStatus::Append>(status)) {
 
     // std::cout << "AAA: concatenated in memory to append" << std::endl;
     
-    // The cache already contains a chunk scheduled for concatenation with the on-disk chunk
-    if(std::get<CacheStatus::Append>(status).axis != axis) {
-      
-      // Concatenation axis changed, need to synchronize
-      sync_cache_element_with_disk(cached_chunk);
-      cached_chunk.op_to_perform = CacheStatus::Append(axis); // record the new concatenation axis
-    }
-
-    // Now have the fully up-to date chunk in the cache, can append
-    cached_chunk.chunk_meta = chunk_meta;
+    // The cache already contains a slice scheduled for concatenation with the on-disk chunk along the same axis, can simply extend it
     cached_chunk.chunk_data.template Append<axis>(slice);
+    cached_chunk.chunk_meta = updated_meta;
   }
 
   // Immediately synchronize to disk if we're asked to operate without cache
   if(m_cache_size == 0) {      
     FlushCache();
   }
+
+  chunk_meta = updated_meta;
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From adc129deb42f03d1fa066dba4141845d7d0d002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 10/20] fix: handle lookups of chunks that do not exist

Searching an empty tree accessed an invalid node, and appending to a chunk that
does not exist dereferenced a null pointer.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++++
 eisvogel/core/impl/RStarTree.hxx             | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 23a4917..69da14e 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -877,6 +877,10 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::AppendSlice(const ind_t& start_ind
   // Get the metadata describing that chunk
   metadata_t* meta = m_index.GetChunk(ind_existing_chunk);
 
+  if(meta == nullptr) {
+    throw std::runtime_error("Error: no chunk found to append to!");
+  }
+
   if(meta -> chunk_type != ChunkType::specified) {
 
     // This is not yet a fully-specified chunk; depending on `hints`, might need to promote it to a fully-specified chunk here
diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 27a8d18..f852d89 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -1078,6 +1078,11 @@ PayloadT* RStarTree<CoordT, dims, PayloadT>::Search(const Vector<CoordT, dims>&
     }
   }
   
+  // An empty tree does not contain anything
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return nullptr;
+  }
+
   std::size_t entry_slot = search_entry(m_root_slot, coords);
   if(entry_slot != NodePool::INVALID_SLOT) {
     m_last_accessed_entry_slot = entry_slot;
-- 
2.43.0


From a5388878874b03de68475061395019a21980d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 11/20] fix: respect offset and strides when copying from a
 view

Copying, assigning or appending a view took the data of the underlying array
from the wrong location, and so did indexing into a view of a 1-dim. array.
---
 eisvogel/core/impl/NDVecArray.hh  |  2 +-
 eisvogel/core/impl/NDVecArray.hxx | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hh b/eisvogel/core/impl/NDVecArray.hh
index 1ac6f3f..a6e4c81 100644
--- a/eisvogel/core/impl/NDVecArray.hh
+++ b/eisvogel/core/impl/NDVecArray.hh
@@ -145,7 +145,7 @@ public:
 
   view_t operator[](const std::size_t ind) requires(dims == 1) {
     assert(index_within_bounds(ind));
-    return view_t(m_data -> begin() + vec_dims * ind);
+    return view_t(m_data -> begin() + m_offset + m_strides[0] * ind);
   }
 
   // T& operator[](const ind_t& ind) requires(vec_dims == 1) {
diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index b36070b..fcb325c 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -30,7 +30,7 @@ NDVecArray<T, dims, vec_dims>::NDVecArray(std::size_t len, const T& value) requi
 // coppy constructor
 template <typename T, std::size_t dims, std::size_t vec_dims>
 NDVecArray<T, dims, vec_dims>::NDVecArray(const NDVecArray<T, dims, vec_dims>& other) :  
-  m_owns_data(true), m_strides(other.m_strides), m_offset(other.m_offset), m_number_elements(other.m_number_elements), m_volume(other.m_volume), m_shape(other.m_shape)  {
+  m_owns_data(true), m_strides(other.m_strides), m_offset(0), m_number_elements(other.m_number_elements), m_volume(other.m_volume), m_shape(other.m_shape)  {
   
   // reserve the required memory
   m_data = std::make_shared<data_t>(GetVolume());
@@ -83,9 +83,9 @@ NDVecArray<T, dims, vec_dims>& NDVecArray<T, dims, vec_dims>::operator=(const ND
   // copy a region of memory that is guaranteed to be contiguous in both `other` and `this`
   auto copy_chunk_contiguous = [&](const Vector<std::size_t, dims>& chunk_begin, const Vector<std::size_t, dims>&) {
     
-    std::size_t offset = ComputeFlatInd(chunk_begin);
-    auto src = other.m_data -> begin() + offset;
-    auto dest = m_data -> begin() + offset;
+    // `other` may be a view, whose strides and offset differ from the ones of this array
+    auto src = other.m_data -> begin() + other.ComputeFlatInd(chunk_begin);
+    auto dest = m_data -> begin() + ComputeFlatInd(chunk_begin);
     
     std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);
   };
@@ -217,16 +217,17 @@ void NDVecArray<T, dims, vec_dims>::Append(const NDVecArray<T, dims, vec_dims>&
   assert(ShapeAllowsConcatenation(m_shape, other.m_shape, axis));
   
   // new elements will be appended at the very back
-  std::size_t app_offset = m_data -> size();
+  ind_t app_ind(0u);
+  app_ind[axis] = m_shape[axis];
 
   // compute new shape and resize
   shape_t new_shape = m_shape;
   new_shape[axis] += other.m_shape[axis];
   resize(new_shape);
   
-  // copy the new data
-  auto it_app = m_data -> begin() + app_offset;
-  std::copy(std::execution::unseq, other.m_data -> begin(), other.m_data -> end(), it_app);
+  // copy the new data (`other` may be a view)
+  ind_t other_start(0u);
+  fill_from(other, other_start, other.m_shape, app_ind);
 }
 
 template <typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 5c05170814e3e94ebff1e1e19b6e83c202a3202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 12/20] fix: fill chunk corners at negative radius from
 boundary elements that are in place

A margin element that lies both at r < 0 and beyond another face of the array
is filled with the element at the mirrored radius. That element is itself
filled by the boundary evaluator, but only afterwards, so the corner of the
chunk received whatever the chunk buffer contained before.
---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 24 +++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 69da14e..1a43fc5 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1312,17 +1312,9 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::index_loop_over_penetrati
   ind_t intersect_end_ind = VectorUtils::min(end_ind, chunk_end_ind);
 
   // Check penetrating slices along all directions
-  for(std::size_t dim = 0; dim < dims; dim++) {
-
-    // Chunk starts "to the left" of the array along this direction ...
-    if(std::cmp_less(chunk_start_ind[dim], start_ind[dim])) {
-
-      // ... need to iterate over the region that starts at the `chunk_start_ind` and extends up to the
-      // `intersect_start_ind` along the direction of `dim`
-      signed_ind_t boundary_slice_end_ind = chunk_end_ind;
-      boundary_slice_end_ind[dim] = intersect_start_ind[dim];      
-      IteratorUtils::index_loop_over_elements(chunk_start_ind, boundary_slice_end_ind, worker);
-    }
+  // Note: the slices overlap in the corners of the chunk. Go through them in an order such that those on the "left" along the
+  // outermost direction come last: everything else is then already in place for a worker that refers to other chunk elements.
+  for(std::size_t dim = dims; dim-- > 0;) {
 
     // Chunk ends "to the right" of the array along this direction ...
     if(std::cmp_greater(chunk_end_ind[dim], end_ind[dim])) {
@@ -1333,6 +1325,16 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::index_loop_over_penetrati
       boundary_slice_start_ind[dim] = intersect_end_ind[dim];
       IteratorUtils::index_loop_over_elements(boundary_slice_start_ind, chunk_end_ind, worker);
     }
+
+    // Chunk starts "to the left" of the array along this direction ...
+    if(std::cmp_less(chunk_start_ind[dim], start_ind[dim])) {
+
+      // ... need to iterate over the region that starts at the `chunk_start_ind` and extends up to the
+      // `intersect_start_ind` along the direction of `dim`
+      signed_ind_t boundary_slice_end_ind = chunk_end_ind;
+      boundary_slice_end_ind[dim] = intersect_start_ind[dim];      
+      IteratorUtils::index_loop_over_elements(chunk_start_ind, boundary_slice_end_ind, worker);
+    }
   }  
 }
 
-- 
2.43.0


From bd86f71f8d9d158931a90cc393a94885306fa579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 13/20] fix: do not abort if the first causal sample precedes
 the integration point by a rounding error

---
 eisvogel/core/impl/GreensFunction.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 186622d..1a9a53c 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -311,8 +311,9 @@ void CylindricalGreensFunction::apply_accumulate(const LineCurrentSegment& seg,
 	// Time of the first output sample that we are computing in this block
 	scalar_t block_t_sig_start = block_sample_ind_start * t_sig_samp + t_sig_start;
 	
-	// start time in integration block
-	scalar_t convolution_t_start = block_t_sig_start - t_p;
+	// start time in integration block; the first causal sample can coincide with `t_p`, in which case rounding must not take
+	// us outside of the causal part of the Green's function
+	scalar_t convolution_t_start = std::max<scalar_t>(block_t_sig_start - t_p, 0.0);
 
 	// std::cout << " . . . . . . . . " << std::endl;
 	// std::cout << "start to call accumulate_inner_product" << std::endl;
-- 
2.43.0


From faab25c0ee73ac65b8dea362fc2491d0d9e90783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 14/20] fix: treat positions less than one sampling interval in
 front of the Green's function as outside

---
 eisvogel/core/impl/GreensFunction.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 1a9a53c..9ad0596 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -372,9 +372,12 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // Time coordinate of the current sample
     cur_f_ind.t() = t_start_f_ind + cur_sample_ind * t_samp_f_ind;
     
-    // Fetch the chunk that contains this current location ...
-    RZTIndexVector cur_ind = cur_f_ind.template as_type<std::size_t>();
-    const metadata_t* meta = m_index.GetChunk(cur_ind);
+    // Fetch the chunk that contains this current location (locations in front of the domain do not have an array index) ...
+    const metadata_t* meta = nullptr;
+    if((cur_f_ind.r() >= 0) && (cur_f_ind.z() >= 0) && (cur_f_ind.t() >= 0)) {
+      RZTIndexVector cur_ind = cur_f_ind.template as_type<std::size_t>();
+      meta = m_index.GetChunk(cur_ind);
+    }
 
     // std::cout << "start_ind = " << m_index.get_start_ind() << std::endl;
     // std::cout << "end_ind = " << m_index.get_end_ind() << std::endl;
-- 
2.43.0


From 3af0526d554771ecd0d6c9402866b516b0c8ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 15/20] fix: keep accumulating once a track with ignored
 out-of-bounds samples has entered the Green's function

---
 eisvogel/core/impl/GreensFunction.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 9ad0596..9ad704b 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -389,7 +389,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // (Silently) ignore (part of) this track if this is what we're asked to do
     if((oob_mode == Green::OutOfBoundsBehavior::Ignore) && (meta == nullptr)) {
       // std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
-      return;
+      
+      // Only this sample is known to be outside; the following ones may be inside
+      std::advance(result, 1);
+      cur_sample_ind++;
+      continue;
     }
 
     // ... or flag this as an error
-- 
2.43.0


From fd2e01130b5698ecb28da91de998e0ab50bcec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 16/20] fix: let the (z, r) view of a (t, z, r) vector show z
 and r instead of t and z

---
 eisvogel/core/impl/Vector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/Vector.hh b/eisvogel/core/impl/Vector.hh
index 6bed49d..ae14f10 100644
--- a/eisvogel/core/impl/Vector.hh
+++ b/eisvogel/core/impl/Vector.hh
@@ -356,7 +356,7 @@ struct TZRVector : public Vector3D<T> {
   T& z() { return this -> operator[](1); };
   T& r() { return this -> operator[](2); };
 
-  ZRVectorView<T> zr_view() { return ZRVectorView<T>( this -> begin()); };
+  ZRVectorView<T> zr_view() { return ZRVectorView<T>( this -> begin() + 1); };
   ZRVector<T> zr() const { return ZRVector<T>{z(), r()}; };
 };
 
-- 
2.43.0


From 645b31a55ae881fd0cf1bc611ae0777f00ea4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 17/20] fix: store the requested region if it lies on the
 simulation grid

Rounding in the conversion from positions to cell numbers moved the beginning
of the stored region to the preceding cell, and dropped its last cell, for
some requests whose ends lie on cell boundaries.
---
 .../MEEPCylindricalGreensFunctionCalculator.hxx     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index 76ba4da..9def457 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -502,13 +502,18 @@ namespace GreensFunctionCalculator::MEEP {
         
     // Figure out which index range gives us the region that we are asked to store
     ZRVector<std::size_t> calc_domain_shape{(std::size_t)(meep_gv -> nz()), (std::size_t)(meep_gv -> nr())};
+    // (positions on a cell boundary must not be pushed into the preceding cell by rounding)
+    auto to_num_cells = [](scalar_t length, scalar_t domain_length, std::size_t domain_cells) -> std::size_t {
+      constexpr scalar_t rounding_allowance = 1e-2f;   // in units of cells
+      return std::size_t(length / domain_length * domain_cells + rounding_allowance);
+    };
     ZRIndexVector storage_domain_start_ind{
-      std::size_t((m_request_to_store.GetZMin() - m_geom.GetZMin()) / m_geom.GetZSize() * calc_domain_shape.z()),
-      std::size_t((m_request_to_store.GetRMin() - m_geom.GetRMin()) / m_geom.GetRSize() * calc_domain_shape.r())
+      to_num_cells(m_request_to_store.GetZMin() - m_geom.GetZMin(), m_geom.GetZSize(), calc_domain_shape.z()),
+      to_num_cells(m_request_to_store.GetRMin() - m_geom.GetRMin(), m_geom.GetRSize(), calc_domain_shape.r())
     };
     ZRVector<std::size_t> storage_domain_shape{
-      std::size_t(m_request_to_store.GetZSize() / m_geom.GetZSize() * calc_domain_shape.z()),
-      std::size_t(m_request_to_store.GetRSize() / m_geom.GetRSize() * calc_domain_shape.r()),
+      to_num_cells(m_request_to_store.GetZSize(), m_geom.GetZSize(), calc_domain_shape.z()),
+      to_num_cells(m_request_to_store.GetRSize(), m_geom.GetRSize(), calc_domain_shape.r())
     };
 
     // Communicate back which region we are actually storing now
-- 
2.43.0


From 4785b448847cb88af918c712b1f00ede309396ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:08 +0000
Subject: [PATCH 18/20] fix: scale the charge of the first point of a shower
 like that of all others

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index 6fdc400..d4a1ca3 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -61,7 +61,7 @@ void showers::Shower1D::get_shower(
 	(*x)[0] = start_position[0];
 	(*y)[0] = start_position[1];
 	(*z)[0] = start_position[2];
-	(*ce)[0] = charge_excess_profile.charge_excess[0];
+	(*ce)[0] = charge_excess_profile.charge_excess[0] * charge_excess_profile_scaling;
 	integrated_grammage = 0;
 	int grammage_i = 0;
 	double delta_ce;
-- 
2.43.0


From 287e46ed9d5ce1cd462a205ecf711c6aa95b1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:08 +0000
Subject: [PATCH 19/20] fix: do not add an empty shower to the library at the
 end of the file

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 3f7c739..8b80d67 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -32,6 +32,9 @@ showers::ShowerCreator::ShowerCreator(
 				&profile.grammage,
 				&profile.charge_excess
 				);
+		if (reading_complete != 0) {
+			break;
+		}
 		int find_shower = ce_profiles[profile.hadronic].count(profile.energy);
 		if (find_shower == 0) {
 			ce_profiles[profile.hadronic][profile.energy] = std::vector<showers::ChargeExcessProfile>();
-- 
2.43.0


From a6df7fbf67c9dda7b5ac8c0ba98c1798f12a42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:08 +0000
Subject: [PATCH 20/20] fix: a randomly picked shower is one of the library

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 8b80d67..b41f498 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -67,18 +67,18 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 	if (i_shower < 0) {
 		std::random_device rand_dev;
 		std::default_random_engine generator(rand_dev());
-		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size());
+		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size() - 1);
 		shower_index = dist(generator);
 	} else {
 		shower_index = i_shower;
 	}
-        std::cout << "Pick shower " << i_shower << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
+        std::cout << "Pick shower " << shower_index << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
 	return showers::Shower1D(
 			pos,
 			en,
 			zen,
 			az,
-			ce_profiles[had][closest_energy][i_shower],
+			ce_profiles[had][closest_energy][shower_index],
 			en / closest_energy,
 			density_profile
 	);
-- 
2.43.0

