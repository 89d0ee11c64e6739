From c9c8312037f0472ea15c9fbc2cb37abe550beb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:40 +0000
Subject: [PATCH 01/13] fix: fast_getline appended the stale buffer again when
 the last line has no newline

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..c2ffcdb 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break;
                 }
             }
             line += buffer;
-- 
2.43.0


From 583e1efa9de7d3d589f5b5da16967b192acdcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:40 +0000
Subject: [PATCH 02/13] fix: line_iterator yielded a spurious empty first line
 because the constructor read nothing

---
 util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c2ffcdb..822ee04 100644
--- a/util.hpp
+++ b/util.hpp
@@ -62,7 +62,9 @@ namespace succinct { namespace util {
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            increment();
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From f4948a29215a835429895bb5bf58114e4d7de339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:30 +0000
Subject: [PATCH 03/13] fix: uleq_step_8 gave wrong results for bytes with the
 top bit set

---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From b9b5f869a141ef6af6b261043957e7e1fe1d092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:30 +0000
Subject: [PATCH 04/13] fix: int2nat/nat2int overflowed at the extreme values

---
 util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index 822ee04..ccfdaee 100644
--- a/util.hpp
+++ b/util.hpp
@@ -249,16 +249,16 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return ~(uint64_t(x) << 1);
         } else {
-            return uint64_t(2 * x);
+            return uint64_t(x) << 1;
         }
     }
 
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From 00ed959f4e2bfb26b8b79ebc38653b290e8e8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:21 +0000
Subject: [PATCH 05/13] fix: enumerator::take(64) left the consumed word in the
 buffer, breaking a following skip_zeros()

---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..cb98b2b 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -383,6 +383,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0;
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From a93920535eed7b4a456efd5e1d6fc9516de96dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:21 +0000
Subject: [PATCH 06/13] fix: reserve() on a non-empty builder left m_cur_word
 dangling after reallocation

---
 bit_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index cb98b2b..137ea9d 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,9 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (m_size) {
+                m_cur_word = &m_bits.back();
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From a15d8a9feba488ac4f6d2655fbd1775b7c27f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 07/13] fix: initialise m_internal_nodes of empty and
 default-constructed bp_vector

---
 bp_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
-- 
2.43.0


From 00e7c5ebc05045dcb50d0e587c71efec80611dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 08/13] fix: initialise m_l of default-constructed elias_fano

---
 elias_fano.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..6c0ef69 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From d1af7e9c4eb3cf30a6359bc884ec25eb7ccb7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 09/13] fix: gamma and compressed lists widen a value before
 incrementing it

The largest values of 32-bit ranges wrapped to zero before being coded.
---
 elias_fano_compressed_list.hpp | 4 ++--
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 51d1848..3067baf 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -20,7 +20,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                s += broadword::msb(*iter + 1);
+                s += broadword::msb(value_type(*iter) + 1);
                 n += 1;
             }
 
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                size_t val = *iter + 1;
+                size_t val = value_type(*iter) + 1;
                 size_t l = broadword::msb(val);
                 bits_builder.append_bits(val ^ (uint64_t(1) << l), l);
                 ef_builder.push_back(bits_builder.size());
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 89d5fb6..037beff 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(vals);
                  iter != boost::end(vals);
                  ++iter) {
-                const uint64_t val = *iter + 2; // increment the second bit
+                const uint64_t val = uint64_t(*iter) + 2; // increment the second bit
 
                 uint8_t l = broadword::msb(val);
 
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 9da8114..8a460f1 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -26,7 +26,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                const value_type val = *iter + 1;
+                const value_type val = value_type(*iter) + 1;
 
                 uint8_t l = broadword::msb(val);
 
-- 
2.43.0


From eb72bab788537f58d6c39a3a5a447488772137ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 10/13] fix: num_ones() of a default-constructed rs_bit_vector
 read before its missing rank directory

rank(0) and the other queries of an empty vector were affected as well.
---
 rs_bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs_bit_vector.hpp b/rs_bit_vector.hpp
index 1197ffb..776abe2 100644
--- a/rs_bit_vector.hpp
+++ b/rs_bit_vector.hpp
@@ -41,6 +41,7 @@ namespace succinct {
         }
 
         inline uint64_t num_ones() const {
+            if (!size()) return 0; // there may be no rank directory
             return *(m_block_rank_pairs.end() - 2);
         }
 
-- 
2.43.0


From 7918d6cbdf0e3ae8d3483839e2b64145f434acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 11/13] fix: default-constructed lists and cartesian trees
 reported a size of 2^64 - 1

---
 cartesian_tree.hpp             | 2 +-
 elias_fano_compressed_list.hpp | 2 +-
 elias_fano_list.hpp            | 2 +-
 gamma_bit_vector.hpp           | 3 ++-
 gamma_vector.hpp               | 3 ++-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/cartesian_tree.hpp b/cartesian_tree.hpp
index 8d62142..bf7c33b 100644
--- a/cartesian_tree.hpp
+++ b/cartesian_tree.hpp
@@ -143,7 +143,7 @@ namespace succinct {
 
         uint64_t size() const
         {
-            return m_bp.size() / 2 - 1;
+            return m_bp.size() ? m_bp.size() / 2 - 1 : 0; // no super-root when default-constructed
         }
 
         template <typename Visitor>
diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 3067baf..9812c3c 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -49,7 +49,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_ef.num_ones() - 1;
+            return m_ef.num_ones() ? m_ef.num_ones() - 1 : 0;
         }
 
         void swap(elias_fano_compressed_list& other)
diff --git a/elias_fano_list.hpp b/elias_fano_list.hpp
index e8191c8..cd7a110 100644
--- a/elias_fano_list.hpp
+++ b/elias_fano_list.hpp
@@ -46,7 +46,7 @@ namespace succinct {
         }
 
         size_t sum() const {
-            return m_ef.size() - 1;
+            return m_ef.size() ? m_ef.size() - 1 : 0;
         }
 
         void swap(elias_fano_list& other)
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 037beff..bc1e127 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -53,7 +53,8 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            // a default-constructed vector does not have the first one
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_bit_vector& other)
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 8a460f1..7531915 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -47,7 +47,8 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            // a default-constructed vector does not have the first one
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_vector& other)
-- 
2.43.0


From 0f8fa84b3bf6e201cc948e99afa4f709efe22c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:23 +0000
Subject: [PATCH 12/13] fix: buffer_line_iterator asserted on an empty buffer
 without an address

---
 util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index ccfdaee..f701e04 100644
--- a/util.hpp
+++ b/util.hpp
@@ -169,7 +169,8 @@ namespace succinct { namespace util {
             , m_end(buffer + size)
             , m_cur_pos(buffer)
         {
-            increment();
+            // an empty mapped file has no buffer
+            if (m_cur_pos) increment();
         }
 
     private:
-- 
2.43.0


From 864abdf159b2e974239c299b735980509d973615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 13/13] fix: mmap_lines threw on an empty file

---
 util.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util.hpp b/util.hpp
index f701e04..1104e4b 100644
--- a/util.hpp
+++ b/util.hpp
@@ -217,8 +217,13 @@ namespace succinct { namespace util {
         typedef buffer_line_iterator const_iterator;
 
         mmap_lines(std::string filename)
-            : m_map(filename)
-        {}
+        {
+            // an empty file cannot be mapped
+            FILE* file = fopen(filename.c_str(), "rb");
+            bool empty = file && fgetc(file) == EOF && feof(file);
+            if (file) fclose(file);
+            if (!empty) m_map.open(filename);
+        }
 
         const_iterator begin() const
         {
-- 
2.43.0

