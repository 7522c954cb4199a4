From 069a6e26dc813bf6fc0eaf4e84a96a1fceae81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 01/28] fix: inserting zero bytes into an empty buffer is not
 an error

buffer_insert_raw() returned NULL (the data pointer of the unallocated
buffer), which callers have to take for an out-of-memory error.
---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..d43101c 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -108,7 +108,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(buf->data == NULL || buf->size + n > buf->alloc) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 6a5b29679c095bbd5d919855d5d778cc9dc0bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 02/28] fix: refuse to grow a buffer beyond the address space

buf->size + n could wrap around, so that buffer_reserve() and
buffer_insert_raw() reported success without having the space, and
buffer_good_alloc_size() never ended for sizes close to SIZE_MAX.
---
 data/buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/buffer.c b/data/buffer.c
index d43101c..c3a917b 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -47,8 +47,11 @@ buffer_good_alloc_size(size_t requested_alloc)
          * be little bit more conservative.)
          */
         good_alloc = 512;
-        while(good_alloc-32 < requested_alloc)
+        while(good_alloc-32 < requested_alloc) {
+            if(good_alloc > SIZE_MAX / 2)
+                return requested_alloc;
             good_alloc *= 2;
+        }
         good_alloc -= 32;
     }
 
@@ -86,6 +89,9 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
+    if(n > SIZE_MAX - buf->size)
+        return -1;
+
     if(buf->size + n < buf->alloc)
         return 0;
 
@@ -108,7 +114,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->data == NULL || buf->size + n > buf->alloc) {
+    if(buf->data == NULL || n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From ace796ecfa202c9f9b117b69137c2bfa80f9159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 03/28] fix: buffer_remove() with a huge count removes up to
 the end

off + n could wrap around, and memmove() then ran out of the buffer.
---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index c3a917b..b38c7d7 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -142,7 +142,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(off < buf->size  &&  n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From 2ebdcccede6c22a77711baf871c985eaaa148479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 04/28] fix: array_ptr_insert() takes an ARRAY_ptr

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..43d942d 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -502,7 +502,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From c2a2089c4b5f8549cf2954186d2fe8503b932b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 05/28] fix: hex_decode() accepts hexadecimal digits only

It took all the letters, e.g. "zz" was decoded instead of refused.
---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From 5bdff432cc9275bb22ce827c3e34ee48687e3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 06/28] fix: hex_encode() refuses blobs whose encoding does not
 fit into int

in_size * 2 wrapped around, so the check of the output buffer size passed
and a truncated (even empty) output was reported as a success.
---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..ce32129 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The result would not fit into int. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From 5976df5ef0ba54b6b06f260d3070abc57be6b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 07/28] fix: base64_decode() of bytes above 0x7f

Where char is signed, these were used as negative indexes of the table.
---
 encode/base64.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..d237bfd 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -154,12 +154,12 @@ base64_decode(const char* in_buf, unsigned in_size,
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
         table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From 7b641a17aebc5e76695ef75b950c9ba162aa0794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 08/28] fix: base64_encode() refuses blobs whose encoding does
 not fit into int

The computation of the needed output size wrapped around for blobs of 3 GB
and more, and the encoder then wrote beyond the end of the output buffer.
---
 encode/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index d237bfd..0e0cef8 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The size of the output (with the terminator) has to fit into int. */
+    if(in_size > (INT_MAX - 1) / 4 * 3)
+        return -EINVAL;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
-- 
2.43.0


From 58b62961454cc933dedb82a165846e23ca86832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 09/28] fix: crc32() of more than 2 GB of data

The index was an int and overflowed.
---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 223a3b2f38160f80ea8acff532e1589f48074ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 10/28] fix: memchunk_alloc() fails for impossible sizes

free_off + size, 4 * size and sizeof(MEMCHUNK_BLOCK) + size could wrap
around and the caller then got a much smaller piece of memory.
---
 mem/memchunk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..fc32c65 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -48,8 +48,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +63,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > (size_t) -1 - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From 77728f3a5bffa3a4c3498f84196192516168b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 11/28] fix: MALLOCA_() parenthesizes the size

E.g. MALLOCA_(cond ? a : b, threshold) allocated less than asked for.
---
 mem/malloca.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..be4cecd 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -83,8 +83,8 @@ malloca_set_mark__(void* ptr, int mark)
  */
 #define MALLOCA_(size, threshold)                                           \
     ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From a003058791339c5c01ee8a0a86797319155b425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 12/28] fix: MALLOCA_() with a tiny threshold or an impossible
 size

threshold - sizeof(void*) wrapped around for the thresholds below the size
of a pointer so that even a huge block was allocated on the stack, and
size + sizeof(void*) wrapped around for sizes close to SIZE_MAX.
---
 mem/malloca.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index be4cecd..e10012e 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -82,9 +82,12 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
+    ((threshold) > sizeof(void*)  &&                                        \
+     (size) < (threshold) - sizeof(void*)                                   \
         ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
-        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
+        : (size) > (size_t) -1 - sizeof(void*)                              \
+            ? NULL                                                          \
+            : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 1f1ef97f32cd0ddc83ba0736c2dcf6b7200d8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 13/28] fix: FREEA() of a variable named x

The variable of the macro shadowed that of the caller.
---
 mem/malloca.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index e10012e..e862f23 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -96,9 +96,9 @@ malloca_set_mark__(void* ptr, int mark)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* malloca_mark__ = (int*)((char*)(ptr) - sizeof(void*));     \
+            if(*malloca_mark__ == 0xdddd)                                   \
+                free(malloca_mark__);                                       \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From 9b4320d961be03155bcedf53af66407d8b019e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 14/28] fix: cmdline: a short name of a compiler-like option is
 ignored in groups too

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..7dd2c61 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  arggroup[i] == opt->shortname)
                 break;
         }
 
-- 
2.43.0


From a5ac21102995f79f7b3fe163fbed175679d02ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 15/28] fix: memstream: CopyTo() of everything from the middle
 of the stream

pos + n wrapped around when asked for ULLONG_MAX bytes.
---
 win32/memstream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..78ca42d 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -180,8 +180,10 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(s->pos >= s->size)
+        n.QuadPart = 0;
+    else if(n.QuadPart > s->size - s->pos)
+        n.QuadPart = s->size - s->pos;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0


From 8c24df6c8472647aed7ddf729dff5a4cc42eb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 16/28] fix: memstream_create() reports out-of-memory as a
 HRESULT

ERROR_OUTOFMEMORY is positive, i.e. SUCCEEDED().
---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 78ca42d..92e4754 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -291,7 +291,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From d2468e68cbd6dd449c3052d76d5a3331f8b61f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 17/28] fix: memstream does not implement IDispatch

A caller asking for it got an object without the methods of IDispatch.
---
 win32/memstream.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 92e4754..f5dc5d0 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -52,7 +52,6 @@ static HRESULT STDMETHODCALLTYPE
 memstream_QueryInterface(IStream* self, REFIID riid, void** obj)
 {
     if(IsEqualGUID(riid, &IID_IUnknown)  ||
-       IsEqualGUID(riid, &IID_IDispatch)  ||
        IsEqualGUID(riid, &IID_ISequentialStream)  ||
        IsEqualGUID(riid, &IID_IStream))
     {
-- 
2.43.0


From e3b27c4dfa6b1f30c0044ef5b10e603303ce81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 18/28] fix: value_string_length() of strings of 2 GB and more

The shift was done in int.
---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..55b2384 100644
--- a/data/value.c
+++ b/data/value.c
@@ -707,11 +707,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t)payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From f6f7cfed7e7b18334f0853210b40b9ca7e65c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 19/28] fix: value: rounding of float and double to integers

Adding one half to the value is itself rounded: 8388609.0f was converted to
8388610 (and hence it was also said to be incompatible with the integer
types) and the float preceding 0.5f to 1.
---
 data/value.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 55b2384..2583f1c 100644
--- a/data/value.c
+++ b/data/value.c
@@ -92,8 +92,11 @@ struct DICT_tag {
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
  * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+#define ROUND(inttype, x, half)                                         \
+        ((inttype)((x) - (inttype)(x) >= (half) ? (x) + (half) :        \
+                  ((x) - (inttype)(x) <= -(half) ? (x) - (half) : (x))))
+#define ROUNDF(inttype, x)   ROUND(inttype, (x), 0.5f)
+#define ROUNDD(inttype, x)   ROUND(inttype, (x), 0.5)
 
 
 static void*
-- 
2.43.0


From ed52507e09a9dd5c69f67dd35841191c89f93f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 20/28] fix: value_path(): an index beyond the range of size_t
 is out of bounds

It wrapped around, and another item was returned.
---
 data/value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/value.c b/data/value.c
index 2583f1c..9d6a7b3 100644
--- a/data/value.c
+++ b/data/value.c
@@ -268,6 +268,8 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
+                if(index > (SIZE_MAX - (*token_beg - '0')) / 10)
+                    return NULL;
                 index = index * 10 + (*token_beg - '0');
                 token_beg++;
             }
-- 
2.43.0


From 0443710ebca6b6f4bd3bb3c0c0a087e9684ad590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 21/28] fix: value_array_remove_range() with a huge count

index + count could wrap around.
---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 9d6a7b3..31037b1 100644
--- a/data/value.c
+++ b/data/value.c
@@ -851,7 +851,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  count > a->size  ||  index > a->size - count)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From 402634696c3d6b3e49f222fbe650a0f6ad905851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 22/28] fix: value_dict_add() of a key which is already used

If the value of the key was still not initialized by the caller since it has
been added, it was returned instead of NULL.
---
 data/value.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 31037b1..f6824e5 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1149,9 +1149,11 @@ VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
     VALUE* res;
+    size_t old_size;
 
+    old_size = value_dict_size(v);
     res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return (value_dict_size(v) > old_size ? res : NULL);
 }
 
 VALUE*
-- 
2.43.0


From 8dc0c2be90bcb3789adf693604883f85ec2a203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 23/28] fix: value_init_string_() takes NULL as an empty string

As the documentation says. With a non-zero length, it crashed.
---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index f6824e5..7a2a6e4 100644
--- a/data/value.c
+++ b/data/value.c
@@ -421,6 +421,9 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     if(v == NULL)
         return -1;
 
+    if(str == NULL)
+        len = 0;
+
     tmplen = len;
     off = 0;
     while(tmplen >= 128) {
@@ -441,7 +444,8 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     }
     payload[off++] = tmplen & 0x7f;
 
-    memcpy(payload + off, str, len);
+    if(len > 0)
+        memcpy(payload + off, str, len);
     payload[off + len] = '\0';
     return 0;
 }
-- 
2.43.0


From e5c02657805e13da09413d93c2fd903977b20ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 24/28] fix: value_build_path() keeps a value marked as new if
 it cannot be initialized

When memory was refused while turning a new value into an array or a
dictionary, the value lost its mark and building the path could never
succeed afterwards.
---
 data/value.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 7a2a6e4..a1ffdc7 100644
--- a/data/value.c
+++ b/data/value.c
@@ -235,6 +235,8 @@ value_is_new(const VALUE* v)
 }
 
 
+static void value_init_new(VALUE* v);
+
 static VALUE*
 value_path_ex(VALUE* root, const char* path, int allow_build)
 {
@@ -277,8 +279,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-                if(value_init_array(v) != 0)
+                if(value_init_array(v) != 0) {
+                    value_init_new(v);
                     return NULL;
+                }
             }
 
             if(sign < 0) {
@@ -299,8 +303,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
         } else if(token_end - token_beg > 0) {
             if(allow_build) {
                 if(value_is_new(v)) {
-                    if(value_init_dict(v) != 0)
+                    if(value_init_dict(v) != 0) {
+                        value_init_new(v);
                         return NULL;
+                    }
                 }
                 v = value_dict_get_or_add_(v, token_beg, token_end - token_beg);
             } else {
-- 
2.43.0


From 3f9a4be9be461db03317a22429eeed9d7ecaf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 25/28] fix: memstream_create_from_resource() never reports
 success without a stream

---
 win32/memstream.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index f5dc5d0..50f9317 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -329,8 +329,11 @@ memstream_create_from_resource(HINSTANCE instance,
        (res_global = LoadResource(instance, res)) == NULL  ||
        (res_data = LockResource(res_global)) == NULL)
     {
+        /* An empty resource, or LockResource(), need not set any error. */
+        DWORD err = GetLastError();
+
         *p_stream = NULL;
-        return HRESULT_FROM_WIN32(GetLastError());
+        return (err != ERROR_SUCCESS) ? HRESULT_FROM_WIN32(err) : E_FAIL;
     }
 
     return memstream_create(res_data, res_size, p_stream);
-- 
2.43.0


From 0b9135a6f41b5179b3f0014d3ed148dd20a615c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 26/28] fix: typed arrays: a count of items whose size is not
 representable

---
 data/buffer.h | 59 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index 43d942d..475e46e 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -266,6 +266,11 @@ struct ARRAY_ptr        { BUFFER buf; };
 #define ARRAY_uint64_INITIALIZER    { BUFFER_INITIALIZER }
 #define ARRAY_ptr_INITIALIZER       { BUFFER_INITIALIZER }
 
+/* Helper. Do not use directly.
+ * Size of n items in bytes, or the maximal size_t if it is not representable. */
+BUFFER_INLINE__ size_t array_byte_count__(size_t n, size_t item_size)
+        { return (n <= (size_t) -1 / item_size) ? n * item_size : (size_t) -1; }
+
 
 BUFFER_INLINE__ void array_int8_init(ARRAY_int8* array)
         { buffer_init(&array->buf); }
@@ -512,23 +517,23 @@ BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), array_byte_count__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), array_byte_count__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), array_byte_count__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), array_byte_count__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), array_byte_count__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), array_byte_count__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), array_byte_count__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), array_byte_count__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), array_byte_count__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -623,23 +628,23 @@ BUFFER_INLINE__ int array_ptr_append(ARRAY_ptr* array, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(int8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(uint8_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(int16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(uint16_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(int32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(uint32_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(int64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(uint64_t))) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (buffer_append_raw(&array->buf, array_byte_count__(n, sizeof(void*))) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
@@ -661,23 +666,23 @@ BUFFER_INLINE__ void array_ptr_remove(ARRAY_ptr* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(void*), sizeof(void*)); }
 
 BUFFER_INLINE__ void array_int8_remove_n(ARRAY_int8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int8_t), array_byte_count__(n, sizeof(int8_t))); }
 BUFFER_INLINE__ void array_uint8_remove_n(ARRAY_uint8* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint8_t), array_byte_count__(n, sizeof(uint8_t))); }
 BUFFER_INLINE__ void array_int16_remove_n(ARRAY_int16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int16_t), array_byte_count__(n, sizeof(int16_t))); }
 BUFFER_INLINE__ void array_uint16_remove_n(ARRAY_uint16* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint16_t), array_byte_count__(n, sizeof(uint16_t))); }
 BUFFER_INLINE__ void array_int32_remove_n(ARRAY_int32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int32_t), array_byte_count__(n, sizeof(int32_t))); }
 BUFFER_INLINE__ void array_uint32_remove_n(ARRAY_uint32* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint32_t), array_byte_count__(n, sizeof(uint32_t))); }
 BUFFER_INLINE__ void array_int64_remove_n(ARRAY_int64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(int64_t), array_byte_count__(n, sizeof(int64_t))); }
 BUFFER_INLINE__ void array_uint64_remove_n(ARRAY_uint64* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)); }
+        { buffer_remove(&array->buf, index * sizeof(uint64_t), array_byte_count__(n, sizeof(uint64_t))); }
 BUFFER_INLINE__ void array_ptr_remove_n(ARRAY_ptr* array, size_t index, size_t n)
-        { buffer_remove(&array->buf, index * sizeof(void*), n * sizeof(void*)); }
+        { buffer_remove(&array->buf, index * sizeof(void*), array_byte_count__(n, sizeof(void*))); }
 
 BUFFER_INLINE__ int8_t* array_int8_acquire(ARRAY_int8* array, size_t* p_size)
         { void* data; data = buffer_acquire(&array->buf, p_size);
-- 
2.43.0


From 7241659b7e63a7f8189c0fbead7b49648bec94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 27/28] fix: base64_decode() refuses texts whose bytes do not
 fit into int

For texts near 4 GB the loop condition wrapped around, and the decoder wrote
far behind the output buffer.
---
 encode/base64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index 0e0cef8..3ce105b 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -146,6 +146,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The size of the output has to fit into int. */
+    if(in_size > INT_MAX / 3 * 4u)
+        return -EINVAL;
+
     /* Ignore any padding. */
     if(options->pad != '\0'  &&  in_size > 0  &&  in_size % 4 == 0) {
         /* Valid Base64 can have up to two characters of padding. */
-- 
2.43.0


From 6780956b22ce4e9229af89e7d3317b8255568fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 28/28] fix: memchunk: Refuse blocks whose size with the header
 overflows size_t

---
 mem/memchunk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index fc32c65..f15ecb5 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -83,6 +83,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > (size_t) -1 - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0

