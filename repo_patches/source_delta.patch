From 8d10c5cf06e65a07b501f419eaa9ce5135e55177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 01/46] fix: honor range_start in ASYNC
 DynamicParallelForRangeLoop

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From 171bc5e7c7a49d0f017e8ba6ed22b568faa73766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 02/46] fix: keep OwningMaybe destructible when a contained
 copy or move throws

---
 include/common_robotics_utilities/maybe.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..74482c2 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -33,6 +33,10 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
   }
 
@@ -52,6 +56,10 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
   }
 
@@ -69,7 +77,13 @@ private:
         value_b_.~B();
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
+    // Until a new value is successfully constructed, no value is stored.
+    type_ = TYPE_NONE;
   }
 
 public:
@@ -79,7 +93,7 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  enum {TYPE_NONE, TYPE_A, TYPE_B} type_{TYPE_NONE};
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
-- 
2.43.0


From 6e703e0120b33ec676a6fc28e4009bdfb966d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 03/46] fix: reject serialized size headers larger than the
 provided buffer

---
 .../serialization.hpp                         | 26 +++++++++++++++++--
 .../serialization.cpp                         | 11 ++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..c1ce3b2 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -368,6 +368,10 @@ inline Deserialized<std::basic_string<CharType>> DeserializeString(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  if (size > (buffer.size() - current_position) / sizeof(CharType))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   std::basic_string<CharType> deserialized;
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
@@ -418,6 +422,11 @@ inline Deserialized<VectorLike> DeserializeVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  // Every item reads at least one byte.
+  if (size > (buffer.size() - current_position))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized;
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
@@ -473,11 +482,11 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
+  if (size > (buffer.size() - current_position) / sizeof(T))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(T) * size;
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
@@ -899,6 +908,10 @@ DeserializeNetworkString(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  if (size > (buffer.size() - current_position) / sizeof(CharType))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   std::basic_string<CharType> deserialized;
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
@@ -950,6 +963,11 @@ DeserializeNetworkVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  // Every item reads at least one byte.
+  if (size > (buffer.size() - current_position))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized;
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
@@ -1004,6 +1022,10 @@ DeserializeNetworkMemcpyableVectorLike(const std::vector<uint8_t>& buffer,
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  if (size > (buffer.size() - current_position) / sizeof(T))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized(size);
   for (size_t idx = 0; idx < deserialized.size(); idx++)
   {
diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..03364aa 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,8 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -136,11 +138,16 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  const uint64_t max_items =
+      (buffer.size() - current_position) / sizeof(double);
+  const uint64_t max_dimension =
+      static_cast<uint64_t>(std::numeric_limits<ssize_t>::max());
+  if (rows > max_dimension || cols > max_dimension ||
+      (cols > 0 && rows > max_items / cols))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
   memcpy(deserialized.data(), &buffer[current_position], serialized_length);
-- 
2.43.0


From 886046a8635b457b3be3951248bde7dbcbc1d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 04/46] fix: avoid null memcpy when serializing empty matrices

---
 src/common_robotics_utilities/serialization.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 03364aa..a021619 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -51,8 +51,12 @@ uint64_t SerializeMatrixXd(
   const size_t serialized_length = sizeof(double) * rows * cols;
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
-  // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Serialize the contained items. Only memcpy if a non-zero number of bytes
+  // will be copied, since memcpy on nullptr dst/src is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -150,7 +154,12 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From 4ba23209ccb3885d4f2a1bde0133d531beb49ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 05/46] fix: index base64 decode table with unsigned bytes

---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 6729ca55bc73e6b02575ffb572ee3f3d43bcdfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 06/46] fix: report failed writes in CompressAndWriteToFile

---
 src/common_robotics_utilities/zlib_helpers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 4ea45b5..1bcf77e 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -156,9 +156,18 @@ void CompressAndWriteToFile(
 {
   const auto compressed = CompressBytes(uncompressed);
   std::ofstream output_file(filename, std::ios::out | std::ios::binary);
+  if (!output_file.is_open())
+  {
+    throw std::runtime_error("Failed to open file [" + filename + "]");
+  }
   output_file.write(reinterpret_cast<const char*>(compressed.data()),
                     static_cast<std::streamsize>(compressed.size()));
   output_file.close();
+  if (!output_file)
+  {
+    throw std::runtime_error(
+        "Failed to write entire contents to file [" + filename + "]");
+  }
 }
 } // namespace zlib_helpers
 CRU_NAMESPACE_END
-- 
2.43.0


From 9b7a774494c440dc6d6dc5a66fc86794564d551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 07/46] fix: reset XorShift1024StarPRNG position when reseeding

---
 include/common_robotics_utilities/simple_prngs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..ba6ae8a 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -173,6 +173,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From 2cce1faac34b3d16eab60f0ba7614dc4df0f7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 08/46] fix: support full-width ranges in
 GetUniformRandomInRange

---
 include/common_robotics_utilities/utility.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/utility.hpp b/include/common_robotics_utilities/utility.hpp
index 72d9a62..37e8806 100644
--- a/include/common_robotics_utilities/utility.hpp
+++ b/include/common_robotics_utilities/utility.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstdlib>
@@ -261,10 +262,14 @@ SizeType GetUniformRandomInRange(
   {
     throw std::invalid_argument("start must be <= end");
   }
-  const SizeType range = end - start;
-  const SizeType offset =
-      GetUniformRandomIndex<SizeType>(uniform_unit_real_fn, range + 1);
-  return start + offset;
+  // Unsigned arithmetic avoids overflow for ranges that SizeType cannot hold.
+  using UnsignedType = typename std::make_unsigned<SizeType>::type;
+  const UnsignedType range = static_cast<UnsignedType>(
+      static_cast<UnsignedType>(end) - static_cast<UnsignedType>(start));
+  const UnsignedType offset = static_cast<UnsignedType>(std::floor(
+      uniform_unit_real_fn() * (static_cast<double>(range) + 1.0)));
+  return static_cast<SizeType>(
+      static_cast<UnsignedType>(start) + std::min(range, offset));
 }
 
 template <class T>
-- 
2.43.0


From 5eebafab104bec84b390db87ea1eb7197ab2ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 09/46] fix: make the graph interface of OwningGraphOverlay
 accessible

---
 include/common_robotics_utilities/simple_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..8cc47c5 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -946,7 +946,8 @@ public:
 };
 
 template<typename NodeValueType, typename GraphType>
-class OwningGraphOverlay : NonOwningGraphOverlay<NodeValueType, GraphType>
+class OwningGraphOverlay
+    : public NonOwningGraphOverlay<NodeValueType, GraphType>
 {
 private:
   std::shared_ptr<const GraphType> owned_base_graph_;
-- 
2.43.0


From cdc78d201d5dc5b490f3a9aadf26d662c2a3253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 10/46] fix: use the cheapest neighbor in DTW when two
 neighbors tie

---
 .../common_robotics_utilities/simple_dtw.hpp    | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..9835612 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -85,24 +86,12 @@ public:
         const SecondDatatype& second_item
             = second_sequence[static_cast<size_t>(j - 1)];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the next neighboring values from the matrix to use for the update
         const double im1j = dtw_matrix_(i - 1, j);
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
-        // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
-        {
-          prev_cost = im1j;
-        }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
-        {
-          prev_cost = ijm1;
-        }
-        else
-        {
-          prev_cost = im1jm1;
-        }
+        // Take the cheapest, including when two neighbors tie
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 55c7f5d6dee8be184847a531150a9773c68b3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 11/46] fix: keep every range's neighbors when one thread runs
 several KNN ranges

---
 .../simple_knearest_neighbors.hpp                      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_knearest_neighbors.hpp b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
index 3e2cec3..da407c5 100644
--- a/include/common_robotics_utilities/simple_knearest_neighbors.hpp
+++ b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
@@ -196,11 +196,19 @@ inline std::vector<IndexAndDistance> GetKNearestNeighborsInRangeParallel(
       const auto per_range_work = [&](
           const parallelism::ThreadWorkRange& work_range)
       {
-        per_thread_nearests[work_range.GetThreadNum()] =
+        const std::vector<IndexAndDistance> range_nearests =
             GetKNearestNeighborsInRangeSerial<Item, Value, Container>(
                 items, static_cast<size_t>(work_range.GetRangeStart()),
                 static_cast<size_t>(work_range.GetRangeEnd()), current,
                 distance_fn, K);
+
+        // A thread may be given more than one range if fewer threads are
+        // available than requested, so results must be accumulated.
+        std::vector<IndexAndDistance>& thread_nearests =
+            per_thread_nearests[work_range.GetThreadNum()];
+        thread_nearests.insert(
+            thread_nearests.end(), range_nearests.begin(),
+            range_nearests.end());
       };
 
       // Dispatch, preferably using OpenMP if available, std::async otherwise.
-- 
2.43.0


From 961e8a385c3504e0c1b576c30de35d30ee0714c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 12/46] fix: reject more k-means clusters than datapoints

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..529bab6 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,10 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (static_cast<int64_t>(data.size()) < num_clusters)
+  {
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From e4204217aa622ffb81114ce15fbe1d18fd28343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 13/46] fix: keep the center of k-means clusters that lose all
 their elements

---
 .../simple_kmeans_clustering.hpp              | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index 529bab6..a653b49 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -58,7 +58,8 @@ std::vector<int32_t> PerformSingleClusteringIteration(
 /// data_weights. @param num_clusters specifies the number of clusters, and is
 /// used to preallocate storage. @return the new cluster centers.
 /// @param parallelism selects if/how cluster centers should be computed in
-/// parallel.
+/// parallel. @param fallback_cluster_centers, if not empty, provides the centers
+/// of clusters that have no elements to average.
 template<typename DataType, typename Container=std::vector<DataType>>
 Container ComputeClusterCentersWeighted(
     const Container& data,  const std::vector<double>& data_weights,
@@ -66,7 +67,8 @@ Container ComputeClusterCentersWeighted(
     const std::function<DataType(
         const Container&, const std::vector<double>&)>& weighted_average_fn,
     const int32_t num_clusters,
-    const parallelism::DegreeOfParallelism& parallelism)
+    const parallelism::DegreeOfParallelism& parallelism,
+    const Container& fallback_cluster_centers = Container())
 {
   if (data.size() == cluster_labels.size())
   {
@@ -94,8 +96,16 @@ Container ComputeClusterCentersWeighted(
           = clustered_data.at(static_cast<size_t>(cluster));
       const std::vector<double>& cluster_data_weights
           = clustered_data_weights.at(static_cast<size_t>(cluster));
-      cluster_centers.at(static_cast<size_t>(cluster))
-          = weighted_average_fn(cluster_data, cluster_data_weights);
+      if (cluster_data.empty() && !fallback_cluster_centers.empty())
+      {
+        cluster_centers.at(static_cast<size_t>(cluster))
+            = fallback_cluster_centers.at(static_cast<size_t>(cluster));
+      }
+      else
+      {
+        cluster_centers.at(static_cast<size_t>(cluster))
+            = weighted_average_fn(cluster_data, cluster_data_weights);
+      }
     };
 
     parallelism::StaticParallelForIndexLoop(
@@ -247,7 +257,7 @@ std::vector<int32_t> ClusterWeighted(
     cluster_centers
         = ComputeClusterCentersWeighted(
             random_subset, random_subset_weights, random_subset_labels,
-            weighted_average_fn, num_clusters, parallelism);
+            weighted_average_fn, num_clusters, parallelism, random_subset);
   }
   else
   {
@@ -288,7 +298,7 @@ std::vector<int32_t> ClusterWeighted(
     cluster_centers
         = ComputeClusterCentersWeighted(
             data, data_weights, cluster_labels, weighted_average_fn,
-            num_clusters, parallelism);
+            num_clusters, parallelism, cluster_centers);
     // Cluster with the new centers
     const std::vector<int32_t> new_cluster_labels
         = PerformSingleClusteringIteration(
-- 
2.43.0


From 85ae2ad638e121bc7b3eb3b5e2503117dccb9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 14/46] fix: restore the OpenMP thread setting rather than the
 last team size

---
 include/common_robotics_utilities/openmp_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index f10557c..4cf0d06 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -162,7 +162,9 @@ public:
     {
       throw std::invalid_argument("num_threads must be greater than zero");
     }
-    starting_num_omp_threads_ = GetNumOmpThreads();
+    // Save the thread count setting itself, since the number of threads in an
+    // actual parallel region may be smaller (thread limit, dynamic adjustment).
+    starting_num_omp_threads_ = GetContextMaxNumOmpThreads();
 #if defined(_OPENMP)
     omp_set_num_threads(num_threads);
 #endif
-- 
2.43.0


From c92d23c1ba9cb24b5b62e510ad3c199fd7e50bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 15/46] fix: use the right distance and validity directions
 when adding starts to roadmaps

---
 .../simple_prm_planner.hpp                    | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..c53424f 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,6 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +281,30 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(nearest_neighbor.Distance(),
+                           nearest_neighbor.Distance());
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
-      const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+      // KNN already computed the distance in the direction it was performed
+      const bool knn_is_graph_to_node =
+          (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE);
+      const double graph_to_node_distance = (knn_is_graph_to_node)
+          ? nearest_neighbor.Distance()
+          : distance_fn(nearest_neighbor_state, state);
+      const double node_to_graph_distance = (knn_is_graph_to_node)
+          ? distance_fn(state, nearest_neighbor_state)
+          : nearest_neighbor.Distance();
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From 774c46f4a144e7ca84d276d615a7b1ce396c5971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 16/46] fix: reject negative neighbor indices from graph KNN
 providers

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index c53424f..6b17f4a 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -115,7 +115,7 @@ private:
   {
     for (const auto& neighbor : nearest_neighbors)
     {
-      if (neighbor.Index() >= roadmap_size ||
+      if (neighbor.Index() < 0 || neighbor.Index() >= roadmap_size ||
           neighbor.Index() >= max_node_index_for_knn)
       {
         throw std::runtime_error(
-- 
2.43.0


From 50e46e97562e81098506f8247541373c7c7a96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 17/46] fix: migrate overlay nodes before updating roadmap
 edges in parallel

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 6b17f4a..f27b3cc 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -690,6 +690,13 @@ void UpdateRoadMapEdges(
     throw std::invalid_argument("Provided roadmap has invalid linkage");
   }
 
+  // Mutable access to a graph overlay migrates nodes into the overlay, which is
+  // not thread-safe, so make sure it has happened before the parallel loop.
+  for (int64_t index = 0; index < roadmap.Size(); index++)
+  {
+    roadmap.GetNodeMutable(index);
+  }
+
   const auto per_item_work = [&](
       const int32_t thread_num, const int64_t current_node_index)
   {
-- 
2.43.0


From bff246ace572be18009f68bdb471956ff4ca06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 18/46] fix: allow empty goal callbacks when initial RRT states
 meet the goal

---
 .../simple_rrt_planner.hpp                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..235d3d4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -705,7 +705,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
@@ -958,10 +961,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From 80047d7350052892ade5324e71576b4afdc0a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 19/46] fix: reject parents outside the planner tree before
 adding a node

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 235d3d4..087d2f5 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,10 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    if (parent_index < 0 || parent_index >= Size())
+    {
+      throw std::out_of_range("parent_index is not in the tree");
+    }
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From aede8e925632ac3343e6da719680d7940598fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 20/46] fix: pass the Z index to the voxel grid mutable access
 callback

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From 487803fb4c27575e29da980942b3a3720b4e869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 21/46] fix: allow resetting a voxel grid with one of its own
 values

---
 include/common_robotics_utilities/voxel_grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7752a26..343ed10 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -576,7 +576,8 @@ private:
     }
   }
 
-  void SetContents(const T& value)
+  // Note: value is taken by copy, since it may refer to an element of data_.
+  void SetContents(const T value)
   {
     data_.clear();
     data_.resize(static_cast<typename BackingStore::size_type>(
-- 
2.43.0


From 4cf3b7f366690b4701f027508b6f7661bc242fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 22/46] fix: allow setting chunks and cells with values stored
 in the same chunk

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..e27e277 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -246,7 +246,8 @@ private:
     fill_status_ = DSHVGFillStatus::CELL_FILLED;
   }
 
-  void SetChunkFilledContents(const T& value)
+  // Note: value is taken by copy, since it may refer to an element of data_.
+  void SetChunkFilledContents(const T value)
   {
     data_.clear();
     data_.resize(1, value);
@@ -506,9 +507,11 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // Expanding to cells replaces data_, which value may refer to.
+      const T new_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
-      fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, new_value);
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
-- 
2.43.0


From 93c12e9b33ee36509fc107465217e7158d7afaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 23/46] fix: refuse to allocate voxel grid chunks at non-finite
 locations

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index e27e277..1250215 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -742,6 +742,10 @@ private:
   void AllocateChunkAt(
       const ChunkRegion& chunk_region, const DSHVGFillType fill_type)
   {
+    if (!chunk_region.Base().allFinite())
+    {
+      throw std::invalid_argument("Cannot allocate chunk at non-finite location");
+    }
     const auto result = chunks_.emplace(
         chunk_region,
         GridChunk(chunk_region, chunk_sizes_, fill_type, default_value_));
-- 
2.43.0


From 5cffe8c2fb592b767d98848f82397f4ae98db640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 24/46] fix: make mutable chunk accessors non-const so that
 they compile

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1250215..e5aaebd 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -418,7 +418,7 @@ public:
   }
 
   DynamicSpatialHashedGridQuery<T> GetIndexMutable(
-      const GridIndex& internal_cell_index) const
+      const GridIndex& internal_cell_index)
   {
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -1065,7 +1065,7 @@ public:
     return chunks_;
   }
 
-  ChunkMap& GetMutableInternalChunks() const
+  ChunkMap& GetMutableInternalChunks()
   {
     if (OnMutableRawAccess())
     {
-- 
2.43.0


From 7046d3b40e4bbc19bf1df4aca2beb58e21cf37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 25/46] fix: accept locations at rounded voxel grid chunk
 boundaries

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 64 ++++++++++++-------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index e5aaebd..51c321d 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -176,37 +178,51 @@ private:
   GridSizes sizes_;
   DSHVGFillStatus fill_status_ = DSHVGFillStatus::NOT_FILLED;
 
+  // Returns the cell containing the provided location along a single axis of
+  // the chunk, or -1 if the chunk does not contain it.
+  static int64_t GetAxisCellIndex(
+      const double location, const double base, const double chunk_size,
+      const double cell_size, const int64_t num_cells)
+  {
+    // Chunk bases are subject to rounding error, so locations at the boundary
+    // of the chunk that contains them may be computed to be just outside it.
+    const double tolerance = 4.0 * std::numeric_limits<double>::epsilon()
+        * std::max(std::abs(base), chunk_size);
+    const double offset = location - base;
+    if (offset > -tolerance && offset < chunk_size + tolerance)
+    {
+      const int64_t cell
+          = static_cast<int64_t>(std::floor(offset / cell_size));
+      return std::max(
+          static_cast<int64_t>(0),
+          std::min(cell, static_cast<int64_t>(num_cells - 1)));
+    }
+    else
+    {
+      return -1;
+    }
+  }
+
   int64_t GetLocationDataIndex(const Eigen::Vector4d& location) const
   {
-    const Eigen::Vector4d location_wrt_chunk = location - region_.Base();
-    // First, make sure the location is in the range this chunk covers
-    if (location_wrt_chunk(0) < 0.0
-        || location_wrt_chunk(1) < 0.0
-        || location_wrt_chunk(2) < 0.0
-        || location_wrt_chunk(0) >= sizes_.XSize()
-        || location_wrt_chunk(1) >= sizes_.YSize()
-        || location_wrt_chunk(2) >= sizes_.ZSize())
+    const Eigen::Vector4d& base = region_.Base();
+    const int64_t x_cell = GetAxisCellIndex(
+        location(0), base(0), sizes_.XSize(), sizes_.CellXSize(),
+        sizes_.NumXCells());
+    const int64_t y_cell = GetAxisCellIndex(
+        location(1), base(1), sizes_.YSize(), sizes_.CellYSize(),
+        sizes_.NumYCells());
+    const int64_t z_cell = GetAxisCellIndex(
+        location(2), base(2), sizes_.ZSize(), sizes_.CellZSize(),
+        sizes_.NumZCells());
+    // Make sure the location is in the range this chunk covers
+    if (x_cell < 0 || y_cell < 0 || z_cell < 0)
     {
       return -1;
     }
-    // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
-          || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
-      {
-        return -1;
-      }
-      else
-      {
-        return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0


From bb7f7fd9df32a45958c4f7a564f7f2d98d9e0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 26/46] fix: reject grid sizes whose cell counts cannot be
 represented

---
 .../common_robotics_utilities/voxel_grid.hpp  | 51 +++++++++++--------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 343ed10..7303e38 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <stdexcept>
@@ -84,6 +85,16 @@ private:
     return (param > 0);
   }
 
+  // Check that the total number of cells can be represented.
+  static bool CheckTotalCells(
+      const int64_t num_x_cells, const int64_t num_y_cells,
+      const int64_t num_z_cells)
+  {
+    const int64_t max_cells = std::numeric_limits<int64_t>::max();
+    return (num_x_cells <= max_cells / num_y_cells &&
+            num_x_cells * num_y_cells <= max_cells / num_z_cells);
+  }
+
   bool Initialize(
       const double cell_x_size,
       const double cell_y_size,
@@ -97,27 +108,22 @@ private:
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(x_size) &&
         CheckPositiveValid(y_size) && CheckPositiveValid(z_size))
     {
-      // Set
-      cell_x_size_ = cell_x_size;
-      cell_y_size_ = cell_y_size;
-      cell_z_size_ = cell_z_size;
-      inv_cell_x_size_ = 1.0 / cell_x_size_;
-      inv_cell_y_size_ = 1.0 / cell_y_size_;
-      inv_cell_z_size_ = 1.0 / cell_z_size_;
-      num_x_cells_
-          = static_cast<int64_t>(std::ceil(x_size / cell_x_size));
-      num_y_cells_
-          = static_cast<int64_t>(std::ceil(y_size / cell_y_size));
-      num_z_cells_
-          = static_cast<int64_t>(std::ceil(z_size / cell_z_size));
-      x_size_ = static_cast<double>(num_x_cells_) * cell_x_size_;
-      y_size_ = static_cast<double>(num_y_cells_) * cell_y_size_;
-      z_size_ = static_cast<double>(num_z_cells_) * cell_z_size_;
-      stride1_ = num_y_cells_ * num_z_cells_;
-      stride2_ = num_z_cells_;
-      valid_ = true;
-
-      return true;
+      // Cell counts too large to represent as integers are not valid
+      const double num_x_cells = std::ceil(x_size / cell_x_size);
+      const double num_y_cells = std::ceil(y_size / cell_y_size);
+      const double num_z_cells = std::ceil(z_size / cell_z_size);
+      const double max_num_cells
+          = static_cast<double>(std::numeric_limits<int64_t>::max());
+      if (num_x_cells >= max_num_cells || num_y_cells >= max_num_cells ||
+          num_z_cells >= max_num_cells)
+      {
+        return false;
+      }
+      return Initialize(
+          cell_x_size, cell_y_size, cell_z_size,
+          static_cast<int64_t>(num_x_cells),
+          static_cast<int64_t>(num_y_cells),
+          static_cast<int64_t>(num_z_cells));
     }
     else
     {
@@ -136,7 +142,8 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(num_x_cells) &&
-        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells))
+        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells) &&
+        CheckTotalCells(num_x_cells, num_y_cells, num_z_cells))
     {
       // Set
       cell_x_size_ = cell_x_size;
-- 
2.43.0


From 270a03607b71b6124a6ec23148912b37d67139fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 27/46] fix: do not dereference the end of the TOTP switching
 points

---
 .../time_optimal_trajectory_parametrization.cpp                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..9052969 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -886,7 +886,8 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory,
       if (GetAccelerationMaxPathVelocity(after)
           < GetVelocityMaxPathVelocity(after))
       {
-        if (after > next_discontinuity->first)
+        if ((next_discontinuity != switching_points.end())
+            && (after > next_discontinuity->first))
         {
           return false;
         }
-- 
2.43.0


From 1243ff2081e110a51ca9f4f1958d27e17c2058e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 28/46] fix: clamp the TOTP corner angle to the domain of acos

---
 .../time_optimal_trajectory_parametrization.cpp               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 9052969..ed3500e 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -157,7 +157,9 @@ public:
     }
     double distance = std::min((start - intersection).norm(),
                                (end - intersection).norm());
-    const double angle = std::acos(start_direction.dot(end_direction));
+    // Rounding can push the dot product slightly outside the domain of acos
+    const double angle = std::acos(utility::ClampValue(
+        start_direction.dot(end_direction), -1.0, 1.0));
     // Enforce max deviation limit
     const double deviation_limited_distance
         = max_deviation * std::sin(0.5 * angle) / (1.0 - std::cos(0.5 * angle));
-- 
2.43.0


From 76351f151d2c296ea362d24e14b7d27ec9feb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 29/46] fix: do not share the cached segment between TOTP
 trajectory copies

---
 .../time_optimal_trajectory_parametrization.cpp       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index ed3500e..98cee27 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -275,6 +275,17 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // The cached segment refers to the trajectory that cached it, so copies start
+  // without a cached segment.
+  Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
-- 
2.43.0


From c7729426b5a758eddce96feac762e7a7955dfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 30/46] fix: reject negative and NaN TOTP query times

---
 .../time_optimal_trajectory_parametrization.cpp               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 98cee27..2f6bbfa 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1134,6 +1134,10 @@ Trajectory::GetTrajectorySegment(double time) const
 std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(
     const double time) const
 {
+  if (!(time >= 0.0))
+  {
+    throw std::invalid_argument("time must be >= 0");
+  }
   std::list<TrajectoryStep>::const_iterator it = GetTrajectorySegment(time);
   std::list<TrajectoryStep>::const_iterator previous = it;
   previous--;
-- 
2.43.0


From 011f70a381fab36c6c186c8ec264994889e0bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 31/46] fix: ignore repeated waypoints in TOTP paths

---
 .../time_optimal_trajectory_parametrization.cpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 2f6bbfa..2593f33 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1160,7 +1160,15 @@ std::list<Eigen::VectorXd> MakeWaypointListFromWaypointVector(
     const std::vector<Eigen::VectorXd>& path)
 {
   std::list<Eigen::VectorXd> waypoint_list;
-  waypoint_list.insert(waypoint_list.end(), path.begin(), path.end());
+  for (const Eigen::VectorXd& waypoint : path)
+  {
+    // Repeated waypoints do not change the path, but the tangent between them
+    // is not defined.
+    if (waypoint_list.empty() || waypoint_list.back() != waypoint)
+    {
+      waypoint_list.push_back(waypoint);
+    }
+  }
   return waypoint_list;
 }
 
-- 
2.43.0


From e35aa95c82b30a727d486932c31058f6d9e05fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 32/46] fix: reject non-positive TOTP time steps

---
 .../time_optimal_trajectory_parametrization.cpp               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 2593f33..4bd4ecb 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -555,6 +555,10 @@ Trajectory::Trajectory(const Path& path,
   {
     throw std::invalid_argument("timestep must be finite");
   }
+  if (time_step_ <= 0.0)
+  {
+    throw std::invalid_argument("timestep must be > 0");
+  }
 
   trajectory_.push_back(TrajectoryStep(0.0, 0.0));
   double after_acceleration = GetMinMaxPathAcceleration(0.0, 0.0, true);
-- 
2.43.0


From e44a7d205bbaad5aa821e03a6f51e5865a81e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 33/46] fix: reject non-finite or mismatched TOTP waypoints

---
 .../time_optimal_trajectory_parametrization.cpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 4bd4ecb..cf079bc 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1216,6 +1216,19 @@ std::unique_ptr<PositionVelocityTrajectoryInterface> ParametrizePathTOTP(
     const Eigen::VectorXd& max_acceleration,
     const double max_deviation, const double timestep)
 {
+  for (const Eigen::VectorXd& waypoint : path)
+  {
+    if (waypoint.size() != max_velocity.size()
+        || waypoint.size() != max_acceleration.size())
+    {
+      throw std::invalid_argument(
+          "waypoints and limits must be the same size");
+    }
+    if (!waypoint.array().isFinite().all())
+    {
+      throw std::invalid_argument("waypoints must be finite");
+    }
+  }
   return std::unique_ptr<PositionVelocityTrajectoryInterface>(
       new TOTPTrajectoryImpl(
           path, max_velocity, max_acceleration, max_deviation, timestep));
-- 
2.43.0


From eb577559e496d94eee11d6391aee50d9945c2371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 34/46] fix: keep the end of a continuous revolute range in the
 range

---
 src/common_robotics_utilities/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 108a219..9a884c3 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -636,9 +636,9 @@ bool CheckInContinuousRevoluteRange(const double start,
                                     const double range,
                                     const double val)
 {
-  const double real_val = EnforceContinuousRevoluteBounds(val);
-  const double real_start = EnforceContinuousRevoluteBounds(start);
-  const double delta = ContinuousRevoluteSignedDistance(real_start, real_val);
+  // This must be computed the same way as in GetContinuousRevoluteRange, so that
+  // the end of the range is in the range.
+  const double delta = ContinuousRevoluteSignedDistance(start, val);
   if (delta >= 0.0)
   {
     if (delta <= range)
-- 
2.43.0


From fed8602c83397d1035c670db82c37190e7c6c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 35/46] fix: reject quaternion averages whose weights are all
 zero

---
 src/common_robotics_utilities/math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 9a884c3..40557c5 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include <Eigen/Eigenvalues>
 #include <unsupported/Eigen/MatrixFunctions>
 #include <common_robotics_utilities/math.hpp>
@@ -799,6 +801,13 @@ Eigen::Quaterniond AverageEigenQuaterniond(const VectorQuaterniond& quaternions,
     }
     return quaternions[0];
   }
+  // If all weights are zero, result is undefined
+  if (use_weights
+      && std::all_of(weights.begin(), weights.end(),
+                     [](const double weight) { return weight == 0.0; }))
+  {
+    throw std::invalid_argument("Provided weights are all zero");
+  }
   // Build the averaging matrix
   Eigen::MatrixXd q_matrix(4, quaternions.size());
   for (size_t idx = 0; idx < quaternions.size(); idx++)
-- 
2.43.0


From 6533015ce17b162f6178b43ec24323ca874b3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 36/46] fix: return an orthogonal vector, not numerical noise,
 from GetArbitraryOrthogonalVector

---
 include/common_robotics_utilities/math.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 5e885d5..a1a16c2 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -446,10 +446,14 @@ template <typename DerivedV>
 Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
 GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
 {
-  // We're going to try arbitrary possibilities until one of them works
+  // We're going to try all unit vectors and keep the one that is furthest from
+  // parallel, since for the others the rejection may be only numerical error.
   const ssize_t vector_size = vector.size();
   if (vector_size > 0)
   {
+    Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1> best_vector
+        = Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
+        ::Zero(vector_size);
     for (ssize_t idx = 0; idx < vector_size; idx++)
     {
       Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1> test_vector
@@ -457,13 +461,16 @@ GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
           ::Zero(vector_size);
       test_vector(idx) = static_cast<typename DerivedV::Scalar>(1.0);
       const auto rejected_vector = VectorRejection(vector, test_vector);
-      const typename DerivedV::Scalar rejected_vector_squared_norm
-          = rejected_vector.squaredNorm();
-      if (rejected_vector_squared_norm > 0)
+      if (rejected_vector.squaredNorm() > best_vector.squaredNorm())
       {
-        return rejected_vector;
+        best_vector = rejected_vector;
       }
     }
+    // The rejection of the best unit vector has squared norm of at least 0.5.
+    if (best_vector.squaredNorm() > 0.25)
+    {
+      return best_vector;
+    }
     throw std::runtime_error("Vector rejection failed to find orthogonal"
                              " vector, probably numerical error");
   }
-- 
2.43.0


From 89a78ef754cbf6d6e6ba60df31aceff5ed5feaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 37/46] fix: make printing of forward_list compile

---
 include/common_robotics_utilities/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/print.hpp b/include/common_robotics_utilities/print.hpp
index f844797..9897c90 100644
--- a/include/common_robotics_utilities/print.hpp
+++ b/include/common_robotics_utilities/print.hpp
@@ -507,7 +507,7 @@ inline std::string Print(const std::forward_list<T, Allocator>& listtoprint,
                          const std::string& separator)
 {
   std::ostringstream strm;
-  if (listtoprint.size() > 0)
+  if (!listtoprint.empty())
   {
     if (add_delimiters)
     {
-- 
2.43.0


From bc986bb27481f8150dd61411af2bb8dd35fdb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 38/46] fix: return a valid color from InterpolateHotToCold
 with an empty range

---
 include/common_robotics_utilities/color_builder.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/color_builder.hpp b/include/common_robotics_utilities/color_builder.hpp
index 03b993d..14d4196 100644
--- a/include/common_robotics_utilities/color_builder.hpp
+++ b/include/common_robotics_utilities/color_builder.hpp
@@ -146,7 +146,13 @@ inline ColorType InterpolateHotToCold(
   double g = 1.0;
   double b = 1.0;
   // Interpolate
-  if (real_value < (min_value + (0.25 * range)))
+  if (range == 0.0)
+  {
+    // The only value in an empty range is its minimum
+    r = 0.0;
+    g = 0.0;
+  }
+  else if (real_value < (min_value + (0.25 * range)))
   {
     r = 0.0;
     g = 4.0 * (real_value - min_value) / range;
-- 
2.43.0


From 803d0835f187697656a5652950fd5bd0d35886a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:53 +0000
Subject: [PATCH 39/46] fix: in-place serialization wrote out of bounds when
 the position wrapped around

---
 include/common_robotics_utilities/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index c1ce3b2..61c35ad 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -756,7 +756,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     memcpy(&temp_buffer[0], &swapped, 8);
   }
   // Move to buffer
-  if ((buffer_position + sizeof(item_to_serialize)) <= buffer.size())
+  if (buffer_position <= buffer.size()
+      && sizeof(item_to_serialize) <= buffer.size() - buffer_position)
   {
     memcpy(&buffer[buffer_position],
            temp_buffer.data(),
-- 
2.43.0


From c13b9596d4f0389b31259223be948aaa7dcf191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 40/46] fix: reject NaN RRT step sizes, goal biases and
 timeouts

---
 .../common_robotics_utilities/simple_rrt_planner.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 087d2f5..778f9b4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1377,7 +1377,7 @@ private:
 public:
   explicit TimeoutCheckHelper(const double timeout)
   {
-    if (timeout <= 0.0)
+    if (!(timeout > 0.0))
     {
       throw std::runtime_error("timeout <= 0.0");
     }
@@ -1553,7 +1553,7 @@ SamplingFunction<SampleType> MakeStateAndGoalsSamplingFunction(
           uniform_unit_real_fn_(uniform_unit_real_fn),
           state_sampling_fn_(state_sampling_fn)
     {
-      if ((goal_bias_ < 0.0) || (goal_bias_ > 1.0))
+      if (!((goal_bias_ >= 0.0) && (goal_bias_ <= 1.0)))
       {
         throw std::invalid_argument(
             "goal_bias is not a valid probability");
@@ -1731,7 +1731,7 @@ MakeKinematicRRTExtendPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1775,7 +1775,7 @@ MakeKinematicBiRRTExtendPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1821,7 +1821,7 @@ MakeKinematicRRTConnectPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1901,7 +1901,7 @@ MakeKinematicBiRRTConnectPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
-- 
2.43.0


From 3c7614bd563e5aeac2addc023e1e70858f3a0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 41/46] fix: reject a NaN resampling distance

---
 include/common_robotics_utilities/path_processing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/path_processing.hpp b/include/common_robotics_utilities/path_processing.hpp
index 4d787cd..8e0195d 100644
--- a/include/common_robotics_utilities/path_processing.hpp
+++ b/include/common_robotics_utilities/path_processing.hpp
@@ -290,7 +290,7 @@ inline Container ResamplePath(
   {
     return path;
   }
-  if (resampled_state_distance <= 0.0)
+  if (!(resampled_state_distance > 0.0))
   {
     throw std::invalid_argument("resampled_state_distance must be > 0");
   }
-- 
2.43.0


From a238768277bac6f5cf66c0fc091563f83e22099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:41 +0000
Subject: [PATCH 42/46] fix: keep path states when the resampling distance is
 infinite

---
 include/common_robotics_utilities/path_processing.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/path_processing.hpp b/include/common_robotics_utilities/path_processing.hpp
index 8e0195d..6676673 100644
--- a/include/common_robotics_utilities/path_processing.hpp
+++ b/include/common_robotics_utilities/path_processing.hpp
@@ -309,11 +309,13 @@ inline Container ResamplePath(
     const uint32_t num_segments
         = static_cast<uint32_t>(std::ceil(raw_num_intervals));
     // If there's only one segment, we just add the end state of the window
-    if (num_segments == 0u)
+    if (distance == 0.0)
     {
-      // Do nothing because this means distance was exactly 0
+      // Do nothing because the states are the same
     }
-    else if (num_segments == 1u)
+    // Note: the number of segments is zero if resampled_state_distance is
+    // infinite.
+    else if (num_segments <= 1u)
     {
       // Add a single point for the other end of the segment
       resampled_path.push_back(current_state);
-- 
2.43.0


From d1f15c1e4b517b44ce21daab55a021d7b66fa56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:54 +0000
Subject: [PATCH 43/46] fix: connect to the sampled state when the RRT step
 size is infinite

---
 .../simple_rrt_planner.hpp                         | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 778f9b4..af34283 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1830,10 +1830,11 @@ MakeKinematicRRTConnectPropagationFunction(
   {
     ForwardPropagation<StateType> propagated_states;
     int64_t parent_offset = -1;
-    // Compute a maximum number of steps to take
+    // Compute a maximum number of steps to take (at least one, since dividing by
+    // an infinite step_size gives zero)
     const double total_distance = distance_fn(nearest, sampled);
-    const int32_t total_steps =
-        static_cast<int32_t>(std::ceil(total_distance / step_size));
+    const int32_t total_steps = std::max(
+        1, static_cast<int32_t>(std::ceil(total_distance / step_size)));
     StateType current = nearest;
     int32_t steps = 0;
     bool completed = false;
@@ -1912,10 +1913,11 @@ MakeKinematicBiRRTConnectPropagationFunction(
   {
     ForwardPropagation<StateType> propagated_states;
     int64_t parent_offset = -1;
-    // Compute a maximum number of steps to take
+    // Compute a maximum number of steps to take (at least one, since dividing by
+    // an infinite step_size gives zero)
     const double total_distance = distance_fn(nearest, sampled);
-    const int32_t total_steps =
-        static_cast<int32_t>(std::ceil(total_distance / step_size));
+    const int32_t total_steps = std::max(
+        1, static_cast<int32_t>(std::ceil(total_distance / step_size)));
     StateType current = nearest;
     int32_t steps = 0;
     bool completed = false;
-- 
2.43.0


From dfa429ee59a63ac703d09d800520cc7668ed1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 44/46] fix: give the default values of an empty voxel grid a
 definite value

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 2 +-
 include/common_robotics_utilities/voxel_grid.hpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 51c321d..edb8b23 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -643,7 +643,7 @@ private:
 
   Eigen::Isometry3d origin_transform_ = Eigen::Isometry3d::Identity();
   Eigen::Isometry3d inverse_origin_transform_ = Eigen::Isometry3d::Identity();
-  T default_value_;
+  T default_value_{};
   GridSizes chunk_sizes_;
   ChunkMap chunks_;
   bool initialized_ = false;
diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7303e38..d6c4ff5 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -549,8 +549,8 @@ class VoxelGridBase
 private:
   Eigen::Isometry3d origin_transform_ = Eigen::Isometry3d::Identity();
   Eigen::Isometry3d inverse_origin_transform_ = Eigen::Isometry3d::Identity();
-  T default_value_;
-  T oob_value_;
+  T default_value_{};
+  T oob_value_{};
   BackingStore data_;
   GridSizes sizes_;
   bool initialized_ = false;
-- 
2.43.0


From f869af8e64d1595295263eec33f077f871bc9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:26 +0000
Subject: [PATCH 45/46] fix: continue TOTP forward integration from the
 max-velocity curve

After grazing the curve, the integration went on from the overshoot above it
and then joined distant steps, breaking the acceleration limits in between.
---
 .../time_optimal_trajectory_parametrization.cpp        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index cf079bc..f6ddc58 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -926,6 +926,16 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory,
           return false;
         }
       }
+      // The trajectory only grazes the max-velocity curve. Continue from the
+      // point found on the curve, not from the overshoot above it.
+      if (before <= old_path_pos)
+      {
+        return false;
+      }
+      path_pos = before;
+      path_vel = before_path_vel;
+      mutable_acceleration
+          = GetMinMaxPathAcceleration(path_pos, path_vel, true);
     }
   }
 }
-- 
2.43.0


From e2bbce450970b5b1991797ecb19e2c1b62d361b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:43 +0000
Subject: [PATCH 46/46] fix: do not overflow when one thread's static range is
 INT64_MAX long

---
 include/common_robotics_utilities/parallelism.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index d8e02bc..8e3cdf0 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -81,7 +81,9 @@ inline std::pair<int64_t, int64_t> CalcStaticThreadRangeStartAndEnd(
   const int64_t remainder = range_size % num_threads;
 
   const int64_t nominal_range = quotient;
-  const int64_t remainder_range = nominal_range + 1;
+  // Without a remainder no thread gets an additional element, and a single
+  // thread's nominal range may already be as large as int64_t allows.
+  const int64_t remainder_range = nominal_range + ((remainder > 0) ? 1 : 0);
 
   if (thread_num < remainder)
   {
-- 
2.43.0

