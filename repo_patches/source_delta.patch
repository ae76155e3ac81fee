From 0ada20747ce7f304f937f5b2c6ccdbf432340dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 1/7] fix: do not shift by the full word width in
 BIT_MASK(type, 0)

---
 include/packed_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/packed_array.hpp b/include/packed_array.hpp
index 8f21537..43a9395 100644
--- a/include/packed_array.hpp
+++ b/include/packed_array.hpp
@@ -7,7 +7,7 @@
 // https://stackoverflow.com/questions/22899466/this-declaration-has-no-storage-class-or-type-specifier-in-c
 #define BIT_MASK(__TYPE__, __ONE_COUNT__) \
     ((__TYPE__) (-((__ONE_COUNT__) != 0))) \
-    & (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__)))
+    & (((__TYPE__) -1) >> ((__ONE_COUNT__) != 0 ? (sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__) : 0))
 
 namespace flbwt {
 
-- 
2.43.0


From 56547b72914e8f961ed70692f78206eae37914dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 2/7] fix: transform strings of one and two bytes

---
 src/flbwt.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..98aa986 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,10 +320,6 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
-        return container;
-
     // Initialize hash table where unique substrings are stored
     container->hashtable = new HashTable(67777, n);
 
@@ -526,7 +522,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (uint64_t i = n - 1; i-- > 0;)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -553,9 +549,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From fab0814384428f62f63a19e93e6255f461364ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 3/7] fix: detect incomplete reads of the input file and
 release its resources

---
 src/flbwt.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 98aa986..65fb9aa 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -35,7 +35,13 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
     fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
+    long length = ftell(fp);
+    if (length < 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("ftell failed(): Could not determine the size of the input file");
+    }
+    n = length;
     rewind(fp);
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
@@ -46,8 +52,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        fclose(fp);
+        free(T);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From 50c516af21e7d199f16b83b4feb615ec1c145111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 4/7] fix: report failed writes of the output file and release
 the result on every exit

---
 src/flbwt.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 65fb9aa..ba758df 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -73,7 +73,16 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        if (B != NULL)
+        {
+            delete[] B->BWT;
+            free(B);
+        }
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
+
+    bool written = true; // did every write succeed
 
     if (B != NULL && B->BWT != NULL)
     {
@@ -87,26 +96,32 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[5] = (0x0000000000ff0000 & B->last) >> 16;
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
-        fwrite(rank, sizeof(uint8_t), 8, fp);
+        if (fwrite(rank, sizeof(uint8_t), 8, fp) != 8)
+            written = false;
         delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
         {
-            fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
+            if (fwrite(B->BWT + 1, sizeof(uint8_t), n, fp) != n)
+                written = false;
         }
         else if (B->last == n)
         {
-            fwrite(B->BWT, sizeof(uint8_t), n, fp);
+            if (fwrite(B->BWT, sizeof(uint8_t), n, fp) != n)
+                written = false;
         }
         else
         {
-            fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
-            fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
+            if (fwrite(B->BWT, sizeof(uint8_t), B->last, fp) != B->last)
+                written = false;
+            if (fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp) != n - B->last)
+                written = false;
         }
     }
 
-    fclose(fp);
+    if (fclose(fp) != 0)
+        written = false;
 
     // Release result resources
     if (B != NULL)
@@ -115,6 +130,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (!written)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From 4cb857df16f0843bb17310f0547c188707b58dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 5/7] fix: do not left-shift negative values when loading
 split-width integers

---
 include/sais40bit.hpp | 2 +-
 include/sais48bit.hpp | 2 +-
 include/sais56bit.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sais40bit.hpp b/include/sais40bit.hpp
index 2ff72c3..3ec4c45 100644
--- a/include/sais40bit.hpp
+++ b/include/sais40bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_40bit_value(uint32_t *L, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32) | L[index];
     }
 
     /**
diff --git a/include/sais48bit.hpp b/include/sais48bit.hpp
index edb2c19..a6325ee 100644
--- a/include/sais48bit.hpp
+++ b/include/sais48bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_48bit_value(uint32_t *L, int16_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32) | L[index];
     }
 
     /**
diff --git a/include/sais56bit.hpp b/include/sais56bit.hpp
index 2616b8f..9cfe577 100644
--- a/include/sais56bit.hpp
+++ b/include/sais56bit.hpp
@@ -20,7 +20,7 @@ namespace flbwt
 
     inline int64_t get_56bit_value(uint32_t *L, uint16_t *M, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 48 | (int64_t)M[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 48) | (int64_t)M[index] << 32 | L[index];
     }
 
     /**
-- 
2.43.0


From 5b7c0061576aef4b0d4db0e112b209668e5afb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 6/7] Guarded hook: lower bound of the integer width
 (FLBWT_VERIFY_HOOKS)

---
 src/flbwt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index ba758df..a04dc04 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -24,6 +24,11 @@
  */
 flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T);
 
+#ifdef FLBWT_VERIFY_HOOKS
+// lower bound of the integer width chosen in bwt_is (lets small inputs reach the wider types)
+uint8_t flbwt_verify_min_bits = 0;
+#endif
+
 void flbwt::bwt_file(const char *input_filename, const char *output_filename)
 {
     // Read content from the input file
@@ -178,6 +183,10 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
         max_value = total_substring_count;
 
     uint8_t bits = flbwt::position_of_msb(max_value);
+#ifdef FLBWT_VERIFY_HOOKS
+    if (bits < flbwt_verify_min_bits)
+        bits = flbwt_verify_min_bits;
+#endif
     uint64_t T1_length = container->num_of_substrings + 1;
     uint64_t k = container->num_of_unique_substrings + 2;
 
-- 
2.43.0


From 49bc7466664c2bdb3d302c9e2f9b57f86839b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 7/7] fix: write every byte of the length header, including
 trailing zero bytes

---
 src/hashtable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..2e03798 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,7 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    for (uint8_t i = *r; i > 0; i--)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0

