From 3de6ce7529024871681fd4b459b8a2c818597bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 1/5] fix: write the trailing zero bytes of a record length

HashTable::set_length stopped at the last non-zero byte of the length, so for
lengths such as 256 the low-order bytes of the record were left as whatever the
(uninitialised) buffer held. get_length then returned a wrong length, and
bwt_string/bwt_file crashed or produced a wrong result when the first substring
of a hash block had such a length.
---
 src/hashtable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..478c1ce 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,8 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    // write every length byte (also the trailing zeros)
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From 0986bdcdd2f076c4b81c9f5ba91d41908dc9c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 2/5] fix: transform strings of one and two characters

extract_LMS_strings returned early without a hash table for n <= 2, and the
following stages dereferenced it (and create_shortened_string wrapped around for
n == 1), so bwt_string and bwt_file crashed on such inputs. The general code
handles them.
---
 src/flbwt.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..fea9d89 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,10 +320,6 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
-        return container;
-
     // Initialize hash table where unique substrings are stored
     container->hashtable = new HashTable(67777, n);
 
@@ -526,7 +522,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (int64_t i = (int64_t)n - 2; i >= 0; i--)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -553,9 +549,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From e217c5fc9bd3ce30472a037b85150a586b906f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 3/5] fix: reject input files that cannot be read completely

bwt_file used the -1 that ftell returns for a pipe as the input length (heap
overflow in fread), and accepted a short read as success, transforming
uninitialised memory. The buffer and the stream are released on that path too.
---
 src/flbwt.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index fea9d89..360f877 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -34,8 +34,17 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
+    long filesize = -1; // stays negative if the input is not seekable (pipe)
+    if (fseek(fp, 0L, SEEK_END) == 0)
+        filesize = ftell(fp);
+
+    if (filesize < 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("ftell failed(): Could not get the size of the input file");
+    }
+
+    n = filesize;
     rewind(fp);
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
@@ -46,8 +55,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        free(T);
+        fclose(fp);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From 3973296e9c3914801a53a000bc9d744eab0c6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 4/5] fix: report output that could not be written completely

bwt_file ignored the results of fwrite and fclose, so a full disk or a file size
limit left a truncated output file and the call still returned normally. The
result is now released when the output file cannot be opened, too.
---
 src/flbwt.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 360f877..2574da1 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -76,7 +76,16 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        if (B != NULL)
+        {
+            delete[] B->BWT;
+            free(B);
+        }
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
+
+    uint64_t written = 0; // bytes written successfully to the output file
 
     if (B != NULL && B->BWT != NULL)
     {
@@ -90,26 +99,26 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[5] = (0x0000000000ff0000 & B->last) >> 16;
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
-        fwrite(rank, sizeof(uint8_t), 8, fp);
+        written += fwrite(rank, sizeof(uint8_t), 8, fp);
         delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
         {
-            fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
+            written += fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
         }
         else if (B->last == n)
         {
-            fwrite(B->BWT, sizeof(uint8_t), n, fp);
+            written += fwrite(B->BWT, sizeof(uint8_t), n, fp);
         }
         else
         {
-            fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
-            fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
+            written += fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
+            written += fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
         }
     }
 
-    fclose(fp);
+    bool closed = fclose(fp) == 0; // flushes the buffered output
 
     // Release result resources
     if (B != NULL)
@@ -118,6 +127,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (written != n + 8 || !closed)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From 559d6cee22f1af0dba64d5d8efd388735820f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 5/5] hooks: observe the integer width and the result behind
 FLBWT_VERIF_HOOKS

---
 src/flbwt.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 2574da1..d3fa62a 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -14,6 +14,17 @@
 #include "sais56bit.hpp"
 #include "sais64bit.hpp"
 
+#ifdef FLBWT_VERIF_HOOKS
+// Verification hooks, defined by the harness that compiles this file with the guard on.
+extern "C" uint64_t flbwt_verif_max_value(uint64_t max_value);      // may replace the largest suffix array value
+extern "C" void flbwt_verif_width(int width);                       // integer width chosen for the suffix array
+extern "C" void flbwt_verif_result(flbwt::BWT_result *B, uint64_t n); // result about to be written to a file
+#else
+#define flbwt_verif_max_value(max_value) (max_value)
+#define flbwt_verif_width(width)
+#define flbwt_verif_result(B, n)
+#endif
+
 /**
  * @brief Algorithm 1 from the research paper (simplified version).
  * 
@@ -69,6 +80,7 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     // Construct the bwt for input string
     // clock_t begin = clock();
     flbwt::BWT_result *B = flbwt::bwt_string(T, n, true);
+    flbwt_verif_result(B, n);
     // clock_t end = clock();
     // std::cout << "Running time: " << ((double)(end - begin) / CLOCKS_PER_SEC) << std::endl;
 
@@ -173,6 +185,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     uint64_t max_value = container->sa_max_value;
     if (total_substring_count > max_value)
         max_value = total_substring_count;
+    max_value = flbwt_verif_max_value(max_value);
 
     uint8_t bits = flbwt::position_of_msb(max_value);
     uint64_t T1_length = container->num_of_substrings + 1;
@@ -186,6 +199,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
 
     if (bits < 32U)
     { // SA can be stored into array of 32 bit integers
+        flbwt_verif_width(32);
 
         // Compute SA
         SA_32bit = new int32_t[total_substring_count];
@@ -213,6 +227,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     }
     else if (bits < 40U)
     { // SA can be stored into two integer arrays (32 + 8 bits)
+        flbwt_verif_width(40);
 
         // Compute SA
         SA_u32bit = new uint32_t[total_substring_count]; // first 32 bits
@@ -244,6 +259,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     }
     else if (bits < 48U)
     { // SA can be stored into two integer arrays (32 + 16 bits)
+        flbwt_verif_width(48);
 
         // Compute SA
         SA_u32bit = new uint32_t[total_substring_count]; // first 32 bits
@@ -275,6 +291,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     }
     else if (bits < 56U)
     { // SA can be stored into three integer arrays (32 + 16 + 8bits)
+        flbwt_verif_width(56);
 
         // Compute SA
         SA_u32bit = new uint32_t[total_substring_count]; // first 32 bits
@@ -307,6 +324,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     }
     else if (bits < 64)
     { // SA can be stored into array of 64 bit integers
+        flbwt_verif_width(64);
 
         // Compute SA
         SA_64bit = new int64_t[total_substring_count];
-- 
2.43.0

