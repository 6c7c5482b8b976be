From a482d2b2d7fe5846c54dcf120b492e8f94fd46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:21 +0000
Subject: [PATCH 01/15] job: let LIBRSYNC_VERIF_MAX_DELTA_CMD override
 MAX_DELTA_CMD for verification builds

---
 src/job.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/job.h b/src/job.h
index fb22461..a5e1c5c 100644
--- a/src/job.h
+++ b/src/job.h
@@ -41,7 +41,11 @@
 /** Max length of a singled delta command is including command bytes.
  *
  * This is used to constrain and set the internal buffer sizes. */
-#  define MAX_DELTA_CMD (1<<16)
+#  ifdef LIBRSYNC_VERIF_MAX_DELTA_CMD
+#    define MAX_DELTA_CMD LIBRSYNC_VERIF_MAX_DELTA_CMD
+#  else
+#    define MAX_DELTA_CMD (1<<16)
+#  endif
 
 /** The contents of this structure are private. */
 struct rs_job {
-- 
2.43.0


From 1ffa6dfdc4a7d76b3b1b35297e7af01cee85d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:03 +0000
Subject: [PATCH 02/15] fix: loadsig: report a signature truncated inside a
 weak sum

A stream ending 1-3 bytes into a block's weak sum was accepted as a
complete signature. Only end of input between blocks is a normal end.
---
 src/readsums.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..2669fb7 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,8 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
-            return RS_DONE;
+        if (result == RS_INPUT_ENDED && rs_scoop_eof(job))
+            return RS_DONE;     /* ending here is OK */
         return result;
     }
     job->weak_sig = l;
-- 
2.43.0


From 7f0c744f1aa027f8a81eb82aa49af213b1e5d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:03 +0000
Subject: [PATCH 03/15] fix: loadsig: reject a zero signature magic

Zero means "use the recommended format" to rs_signature_init(), so a
stream starting with four zero bytes was accepted as an RK_BLAKE2
signature instead of failing with RS_BAD_MAGIC.
---
 src/readsums.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/readsums.c b/src/readsums.c
index 2669fb7..09c063f 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -127,6 +127,12 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
     rs_trace("got signature magic %#x", l);
+    /* Zero selects the default for rs_signature_init(), but is not a valid
+       magic in a signature. */
+    if (l == 0) {
+        rs_error("invalid signature magic %#x", l);
+        return RS_BAD_MAGIC;
+    }
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
     return RS_RUNNING;
-- 
2.43.0


From 628bdd0c243d21dc8e23a6066e4d64583c47de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:03 +0000
Subject: [PATCH 04/15] fix: loadsig: reject a zero strong sum length

Zero means "use the maximum" to rs_signature_init(), so a signature
claiming zero-length strong sums was read as if it had full-length ones.
---
 src/readsums.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 09c063f..656c38f 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -86,7 +86,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
-- 
2.43.0


From ebcc323eb8cb01ea5f2a75ae93745b4c0a2e3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 05/15] fix: delta: split slack literals that do not fit an int

With no signature, an input buffer of 2 GiB or more was emitted as a
literal command whose length had been truncated to a (possibly negative)
int, producing a corrupt delta.
---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..3a74ed6 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* The length of a literal command is an int. */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From e6f900fdaf1958e0b9713b59694649678ea919db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:54 +0000
Subject: [PATCH 06/15] fix: sig_args: never accept or choose a strong_len
 above the hash length

For very large files with small blocks the recommended minimum can exceed
the 16 bytes of MD4: strong_len -1 then selected it, and an explicit
strong_len below it skipped the maximum check, so the signature job was
given a length that reads past the strong sum.
---
 src/sumset.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..836f827 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -166,15 +166,16 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     if (*strong_len == 0)
         *strong_len = max_strong_len;
     else if (*strong_len == -1)
-        *strong_len = min_strong_len;
-    else if (old_fsize >= 0 && *strong_len < min_strong_len) {
-        rs_warn("strong_len=" FMT_SIZE " smaller than recommended minimum "
-                FMT_SIZE " for old_fsize=" FMT_LONG " with block_len=" FMT_SIZE,
-                *strong_len, min_strong_len, old_fsize, *block_len);
-    } else if (*strong_len > max_strong_len) {
+        *strong_len =
+            min_strong_len < max_strong_len ? min_strong_len : max_strong_len;
+    else if (*strong_len > max_strong_len) {
         rs_error("invalid strong_len=" FMT_SIZE " for magic=%#x", *strong_len,
                  (int)*magic);
         return RS_PARAM_ERROR;
+    } else if (old_fsize >= 0 && *strong_len < min_strong_len) {
+        rs_warn("strong_len=" FMT_SIZE " smaller than recommended minimum "
+                FMT_SIZE " for old_fsize=" FMT_LONG " with block_len=" FMT_SIZE,
+                *strong_len, min_strong_len, old_fsize, *block_len);
     }
     rs_sig_args_check(*magic, *block_len, *strong_len);
     return RS_DONE;
-- 
2.43.0


From d4fc0fa40be14bc1cb1e11b870b2b5132ecfd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:39 +0000
Subject: [PATCH 07/15] fix: file_open: do not overwrite an existing file that
 cannot be read

---
 src/fileutil.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..2a3a27e 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -106,6 +106,12 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
             fclose(f);
             exit(RS_IO_ERROR);
         }
+        if (errno != ENOENT) {
+            // It may exist even though we can't read it.
+            rs_error("Error checking for \"%s\": %s", filename,
+                     strerror(errno));
+            exit(RS_IO_ERROR);
+        }
     }
 
     if (!(f = fopen(filename, mode))) {
-- 
2.43.0


From 46700e539d021a5bc2f7345dbfa5d4dcb5e8be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:00 +0000
Subject: [PATCH 08/15] fix: unbase64: return the number of bytes that were
 encoded

---
 src/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 873746e..1430576 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,11 +31,11 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i, n;
+    int bit_offset, byte_offset, idx, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
-    n = i = 0;
+    i = 0;
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
@@ -44,16 +44,15 @@ size_t rs_unbase64(char *s)
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
-            n = byte_offset + 1;
         } else {
             d[byte_offset] |= (unsigned char)(idx >> (bit_offset - 2));
             d[byte_offset + 1] = (unsigned char)(idx << (8 - (bit_offset - 2)));
-            n = byte_offset + 2;
         }
         s++;
         i++;
     }
-    return n;
+    /* Leftover bits are padding, not another byte. */
+    return (size_t)i * 6 / 8;
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
-- 
2.43.0


From bae19d3de27d44ab18c01a866540c47d8dccca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:29 +0000
Subject: [PATCH 09/15] fix: format_stats: stop at the end of a buffer that is
 too small

---
 src/stats.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..a9a10b0 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -47,6 +47,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
         op = "noop";
 
     len = snprintf(buf, size, "%s statistics: ", op);
+    if ((size_t)len >= size)
+        return buf;             /* full, the rest is cut off */
 
     if (stats->lit_cmds) {
         len +=
@@ -54,6 +56,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
+        if ((size_t)len >= size)
+            return buf;
     }
 
     if (stats->sig_cmds) {
@@ -61,6 +65,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
+        if ((size_t)len >= size)
+            return buf;
     }
 
     if (stats->copy_cmds || stats->false_matches) {
@@ -70,6 +76,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes, %d false]", stats->copy_cmds,
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
+        if ((size_t)len >= size)
+            return buf;
     }
 
     if (stats->sig_blocks) {
@@ -77,6 +85,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
+        if ((size_t)len >= size)
+            return buf;
     }
 
     sec = (int)(stats->end - stats->start);
-- 
2.43.0


From 59cd697bf5ee5d4c11036d2a346137b926d29beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:29 +0000
Subject: [PATCH 10/15] fix: strerror: describe RS_PARAM_ERROR

---
 src/msg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msg.c b/src/msg.c
index 1d9e1f5..0fc239b 100644
--- a/src/msg.c
+++ b/src/msg.c
@@ -68,6 +68,8 @@ char const *rs_strerror(rs_result r)
         return "bad command line syntax";
     case RS_INTERNAL_ERROR:
         return "library internal error";
+    case RS_PARAM_ERROR:
+        return "bad parameter value";
 
     default:
         return "unexplained problem";
-- 
2.43.0


From aa2288becea1b3950da9b0c05961a3d1b80de977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 11/15] fix: rdiff: fail when the output cannot be written out
 at close

---
 src/fileutil.c |  4 +++-
 src/rdiff.c    | 14 +++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 2a3a27e..1f0840f 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -125,8 +125,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..40053c6 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -190,6 +190,14 @@ static void rdiff_options(poptContext opcon)
     }
 }
 
+/** Close the output file, failing if it could not all be written. */
+static rs_result rdiff_close_output(FILE *f, rs_result result)
+{
+    if (rs_file_close(f) && result == RS_DONE)
+        return RS_IO_ERROR;
+    return result;
+}
+
 /** Generate signature from remaining command line arguments. */
 static rs_result rdiff_sig(poptContext opcon)
 {
@@ -223,7 +231,7 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    result = rdiff_close_output(sig_file, result);
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +274,7 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    result = rdiff_close_output(delta_file, result);
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +310,7 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    result = rdiff_close_output(new_file, result);
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From a21455eda0ee5e03ccda9cafe9a0015368a5d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:16 +0000
Subject: [PATCH 12/15] fix: sig_args: refuse block lengths that do not fit an
 int

Block and strong sum lengths above INT_MAX, such as a negative rdiff
--block-size, were truncated or accepted and then aborted.
---
 src/job.h    | 4 ++--
 src/mksum.c  | 4 ++--
 src/sumset.c | 5 +++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/job.h b/src/job.h
index a5e1c5c..cd61f0f 100644
--- a/src/job.h
+++ b/src/job.h
@@ -65,8 +65,8 @@ struct rs_job {
     /* Arguments for initializing the signature used by mksum.c and readsums.c.
      */
     int sig_magic;
-    int sig_block_len;
-    int sig_strong_len;
+    size_t sig_block_len;
+    size_t sig_strong_len;
 
     /** The size of the signature file if available. Used by loadsums.c when
      * initializing the signature to preallocate memory. */
diff --git a/src/mksum.c b/src/mksum.c
index a7bcf84..04d5243 100644
--- a/src/mksum.c
+++ b/src/mksum.c
@@ -116,7 +116,7 @@ rs_job_t *rs_sig_begin(size_t block_len, size_t strong_len,
     job->signature = rs_alloc_struct(rs_signature_t);
     job->job_owns_sig = 1;
     job->sig_magic = sig_magic;
-    job->sig_block_len = (int)block_len;
-    job->sig_strong_len = (int)strong_len;
+    job->sig_block_len = block_len;
+    job->sig_strong_len = strong_len;
     return job;
 }
diff --git a/src/sumset.c b/src/sumset.c
index 836f827..b5f67c1 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    if (*block_len > INT_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
-- 
2.43.0


From 0ad975b1d1cebc6b91f93774cb0e48f28eb80160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 13/15] fix: whole: do not overflow the buffer length for huge
 blocks

Block lengths from 2^29 up, valid in signatures, made the buffer length
negative or zero and the file functions abort or fail.
---
 src/whole.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/whole.c b/src/whole.c
index ebce253..08e9c34 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include "librsync.h"
@@ -64,6 +65,12 @@ rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
     return result;
 }
 
+/** Get the buffer length for 4 times len, limited to what fits an int. */
+static int rs_whole_buflen(size_t len)
+{
+    return len < INT_MAX / 4 ? 4 * (int)len : INT_MAX;
+}
+
 rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
                       size_t strong_len, rs_magic_number sig_magic,
                       rs_stats_t *stats)
@@ -78,7 +85,7 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
+    r = rs_whole_run(job, old_file, sig_file, rs_whole_buflen(block_len),
                      12 + 4 * (4 + (int)strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
@@ -114,7 +121,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     rs_whole_buflen((size_t)MAX_DELTA_CMD + sig->block_len),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
-- 
2.43.0


From 4c8df9ce7e1ae5245262e20006b8844ae318ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:58 +0000
Subject: [PATCH 14/15] fix: hashtable: do not overflow when sizing large
 tables

---
 src/hashtable.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..3bcc7b2 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -38,8 +38,13 @@ hashtable_t *_hashtable_new(int size)
     hashtable_t *t;
     unsigned size2, bits2;
 
+    /* Refuse what needs more buckets than fit in an int. */
+    if (size >= (1 << 30) / HASHTABLE_LOADFACTOR_DEN * HASHTABLE_LOADFACTOR_NUM)
+        return NULL;
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    size =
+        1 + (int)((long long)size * HASHTABLE_LOADFACTOR_DEN /
+                  HASHTABLE_LOADFACTOR_NUM);
     /* Use next power of 2 larger than the requested size and get mask bits. */
     for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
-- 
2.43.0


From 3613ff69f2c456e0f40007bf45f83294acb350eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 15/15] fix: job: a job that has ended stays ended

Calling rs_job_iter() again on a failed job ran its current state once
more: after RS_BAD_MAGIC a patch read the next four bytes as a new magic
and could go on to succeed. On a finished job with input and output areas
it returned RS_INTERNAL_ERROR.
---
 src/job.c | 5 +++++
 src/job.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/job.c b/src/job.c
index 462e772..a937be2 100644
--- a/src/job.c
+++ b/src/job.c
@@ -46,6 +46,7 @@ rs_job_t *rs_job_new(char const *job_name, rs_result (*statefn)(rs_job_t *))
     job->job_name = job_name;
     job->dogtag = RS_JOB_TAG;
     job->statefn = statefn;
+    job->final_result = RS_RUNNING;
 
     job->stats.op = job_name;
     job->stats.start = time(NULL);
@@ -90,6 +91,10 @@ rs_result rs_job_iter(rs_job_t *job, rs_buffers_t *buffers)
     rs_job_check(job);
     assert(buffers);
 
+    /* A job that has ended stays ended, with the same result. */
+    if (job->final_result != RS_RUNNING)
+        return job->final_result;
+
     orig_in = buffers->avail_in;
     orig_out = buffers->avail_out;
     result = rs_job_work(job, buffers);
diff --git a/src/job.h b/src/job.h
index cd61f0f..68b81eb 100644
--- a/src/job.h
+++ b/src/job.h
@@ -59,7 +59,7 @@ struct rs_job {
     /** Callback for each processing step. */
     rs_result (*statefn)(rs_job_t *);
 
-    /** Final result of processing job. Used by rs_job_s_failed(). */
+    /** Final result of processing job, RS_RUNNING until it has ended. */
     rs_result final_result;
 
     /* Arguments for initializing the signature used by mksum.c and readsums.c.
-- 
2.43.0

