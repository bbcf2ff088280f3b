From 29aa322168ba9ea31dc90282553f2e1de6f3baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 01/49] fix: reject UTF-8 input which ends in a truncated
 sequence

---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..f4989ad 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -75,6 +75,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    // the input ended in the middle of a multi-byte sequence.
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     *output += output_offset;
     *input += input_offset;
 
-- 
2.43.0


From e4bf02e8adb76b040a1a0ae36dded3765ea4047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 02/49] fix: do not write past the output when encoding UTF-8
 into a small buffer

---
 src/util/utf8.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index f4989ad..dec8c7b 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -1,5 +1,7 @@
 #include "passgen/util/utf8.h"
 
+#include <string.h>
+
 // Copyright (c) 2008-2009 Bjoern Hoehrmann <bjoern@hoehrmann.de>
 // See http://bjoern.hoehrmann.de/utf-8/decoder/dfa/ for details.
 
@@ -141,12 +143,19 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
-        int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
+    while(*in_pos < in_len) {
+        uint8_t encoded[4];
+        int ret = passgen_utf8_encode_codepoint(encoded, in[*in_pos]);
         if(ret < 0) {
             return ret;
         }
 
+        // make sure the encoded codepoint fits into the output
+        if((size_t) ret > out_len - *out_pos) {
+            break;
+        }
+
+        memcpy(&out[*out_pos], encoded, ret);
         *in_pos += 1;
         *out_pos += ret;
     }
-- 
2.43.0


From 7b916704d3d5b0a2200a024c7fc1f78ab7959793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 03/49] fix: refuse to encode surrogates as UTF-8

---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index dec8c7b..ce23c41 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -115,6 +115,11 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
         return 2;
     }
 
+    if(utf >= 0xD800 && utf <= 0xDFFF) {
+        // surrogates cannot be represented in UTF-8
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     if(utf <= 0xFFFF) {
         // 3-byte unicode
         out[0] = (uint8_t) (((utf >> 12) & 0x0F) | 0xE0);
-- 
2.43.0


From 729047ccadaa3fd077310e982d37df484b2f9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 04/49] fix: deliver the unread tail of the randomness buffer
 before reloading it

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From 1c9a8885098100b18afcd180c2d1d4b44fcdf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 05/49] fix: do not use stale data when the randomness source
 fails in release builds

---
 src/random/random.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..1ad70c2 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,19 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
 
-    // make sure we've read enough.
+    // make sure we've read enough, there is no way to continue with a buffer
+    // that is not entirely filled with fresh random data.
     passgen_assert(bytes == sizeof(random->buffer));
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu\n",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From 5c75247e11666ceca5a5d612b1fa643335ad74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 06/49] fix: reject overlong fields in chacha20 randomness
 descriptions

---
 src/random/random.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index 1ad70c2..0b9bf5b 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -113,6 +113,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -145,6 +148,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             if(!end) { \
                 end = start + strlen(start); \
             } \
+            if((size_t) (end - start) >= sizeof(name)) { \
+                return NULL; \
+            } \
             memcpy(name, start, end - start); \
         }
 
-- 
2.43.0


From 61030eb2c2849f088f74a58684463145804312a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 07/49] fix: clear the xorshift state when closing it

---
 src/random/xorshift.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..f295674 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,3 +1,4 @@
+#include "passgen/config.h"
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
@@ -34,6 +35,8 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
     free(context);
 }
 
-- 
2.43.0


From 6993a9e6f35551421c34c9af3d95ee6bdb2f947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 08/49] fix: do not insert a key into the hashmap a second time

---
 src/container/hashmap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..13549f2 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -125,6 +125,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         passgen_hashmap_realloc(map, hashmap_sizes[0]);
     }
 
+    // if this key exists in either of its locations, replace it there
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     size_t hash;
 
     hash = passgen_hashmap_position(map, key, true);
-- 
2.43.0


From 8e6d362362f3d02f5428f70ac31c51a7e68406d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 09/49] fix: removing from an empty hashmap divides by zero

---
 src/container/hashmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index 13549f2..96e21aa 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -182,6 +182,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // there is nothing to remove from an empty hashmap
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From 118c52297a05d04c485650d9277898f5079909dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 10/49] fix: catch reading one element past the end of an array

---
 src/container/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/container/array.c b/src/container/array.c
index edb4ebc..5bcf316 100644
--- a/src/container/array.c
+++ b/src/container/array.c
@@ -38,7 +38,7 @@ void passgen_array_push(passgen_array *array, void *pointer) {
 // Retrieve an item from the array.
 void *passgen_array_get(passgen_array *array, size_t pos) {
 #ifdef PASSGEN_DEBUG
-    passgen_assert(pos <= array->items);
+    passgen_assert(pos < array->items);
 #endif
 
     return array->data[pos];
-- 
2.43.0


From d91798dab4f554a7860125144f8b0acb45e7d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 11/49] fix: do not mistake characters beyond ASCII for pattern
 syntax

---
 src/parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..02ff7a6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From e81980f13506482472f7559091985bb2c0899709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 12/49] fix: allow escaping the question mark

---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 02ff7a6..957b56c 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -239,6 +239,7 @@ int passgen_parse_group(
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
         switch(codepoint) {
             case '|':
+            case '?':
             case '(':
             case ')':
             case '{':
-- 
2.43.0


From 07e9703ee4f9b2e848d52e4b6622e17f2593ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 13/49] fix: handle escaped characters in sets and at the end
 of ranges

---
 src/parser/parser.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 957b56c..45d0f04 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -351,6 +351,25 @@ int passgen_parse_group(
     return 0;
 }
 
+// get the codepoint of a token inside of a set. the only characters which may
+// be escaped are those which would otherwise do something.
+static int set_codepoint(const passgen_token *token, uint32_t *codepoint) {
+    *codepoint = token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
+
+    if(token->codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        switch(*codepoint) {
+            case '-':
+            case '[':
+            case ']':
+                break;
+            default:
+                return -1;
+        }
+    }
+
+    return 0;
+}
+
 int passgen_parse_set(
     passgen_parser *parser,
     passgen_token *token,
@@ -378,16 +397,9 @@ int passgen_parse_set(
         return 0;
     }
 
-    uint32_t codepoint = token->codepoint;
-    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
-        switch(codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
-            case '-':
-                codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-                break;
-            default:
-                return -1;
-        }
+    uint32_t codepoint;
+    if(set_codepoint(token, &codepoint) != 0) {
+        return -1;
     }
 
     passgen_pattern_range *range = passgen_pattern_set_range_append(set);
@@ -409,11 +421,16 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint;
+    if(set_codepoint(token, &codepoint) != 0) {
+        return -1;
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From 123a0f7e1beec333ab7528a3d4593045d2e7ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 14/49] fix: keep the sum of segment multipliers consistent

---
 src/parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 45d0f04..e8b3d76 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -274,6 +274,7 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum += 1;
                 }
                 return 0;
             case ')':
@@ -309,8 +310,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 8261b2aa7530bc8ab77efa35385fe3261dda51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 15/49] fix: apply modifiers following an empty group to that
 group

---
 src/parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index e8b3d76..78d1888 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -233,7 +233,10 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // modifiers belong to the last item, even if that is an empty group
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From 02d0cd4d9c9ee19fdd01843fe0fcc6703d6b5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 16/49] fix: refuse repetitions and multipliers which are not
 representable

---
 src/parser/parser.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 78d1888..ac1c7ed 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -441,11 +441,31 @@ int passgen_parse_set_range(
     return 0;
 }
 
+// append a decimal digit to a number, fails if it does not fit anymore.
+// SIZE_MAX itself is refused so that the size of a range is representable.
+static int append_digit(size_t *value, uint8_t digit) {
+    if(*value > (SIZE_MAX - 1 - digit) / 10) {
+        return -1;
+    }
+
+    *value *= 10;
+    *value += digit;
+
+    return 0;
+}
+
 int passgen_parse_multiplier(
     passgen_parser *parser,
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // make sure the sum does not overflow, leaving space for more segments
+        if(*state->data.multiplier.sum > SIZE_MAX / 2 ||
+           *state->data.multiplier.value >
+               SIZE_MAX / 2 - *state->data.multiplier.sum) {
+            return -1;
+        }
+
         *state->data.multiplier.sum += *state->data.multiplier.value;
         passgen_stack_pop(&parser->state, NULL);
         return 0;
@@ -454,10 +474,7 @@ int passgen_parse_multiplier(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        *state->data.multiplier.value *= 10;
-        *state->data.multiplier.value += digit;
-
-        return 0;
+        return append_digit(state->data.multiplier.value, digit);
     }
 
     return -1;
@@ -483,10 +500,7 @@ int passgen_parse_repeat(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        state->data.repeat.repeat->min *= 10;
-        state->data.repeat.repeat->min += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->min, digit);
     }
 
     return -1;
@@ -497,6 +511,10 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        if(state->data.repeat.repeat->max < state->data.repeat.repeat->min) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
@@ -504,10 +522,7 @@ int passgen_parse_repeat_range(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        state->data.repeat.repeat->max *= 10;
-        state->data.repeat.repeat->max += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->max, digit);
     }
 
     return -1;
-- 
2.43.0


From 0f9c3ad0fe42c8f9a289cacd5af1a3187873077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 17/49] fix: refuse unicode literals which are empty or not a
 codepoint

---
 src/parser/token.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/token.c b/src/parser/token.c
index a032cda..d8c3b5a 100644
--- a/src/parser/token.c
+++ b/src/parser/token.c
@@ -114,6 +114,15 @@ static inline void token_parse_unicode_payload(
     // once we read the closing brace, the payload is over and we can emit the
     // token.
     if(codepoint == '}') {
+        // an empty payload, or one beyond the last unicode codepoint, does not
+        // denote a character.
+        if(parser->data.unicode_payload.length == 0 ||
+           parser->data.unicode_payload.codepoint > 0x10FFFF) {
+            parser->state = PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD;
+
+            return;
+        }
+
         token->codepoint = parser->data.unicode_payload.codepoint;
         parser->state = PASSGEN_TOKEN_INIT;
 
-- 
2.43.0


From 87154126b3417fa5d30e2242a79f4b0f36a59c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 18/49] fix: refuse surrogates in patterns

---
 src/parser/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index ac1c7ed..a7e8784 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -189,6 +189,12 @@ int passgen_parse_token(passgen_parser *parser, passgen_token *token) {
         return -1;
     }
 
+    // surrogates are not characters, there is no way to output them.
+    uint32_t codepoint = token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        return -1;
+    }
+
     switch(state->type) {
         case PASSGEN_PARSER_GROUP:
             return passgen_parse_group(parser, token, state);
-- 
2.43.0


From c972df1760f680573f017a0d50e4162f8b747e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 19/49] fix: refuse empty names of wordlists and presets

---
 src/parser/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index a7e8784..48937c1 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -555,7 +555,15 @@ int passgen_parse_special_name(
     (void) parser;
 
     if(token->codepoint == '}') {
+        // without a name there is nothing to look up
+        if(state->data.special.special->parameters_len == 0) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
+    } else if(token->codepoint == 0) {
+        // names are NULL-terminated
+        return -1;
     } else {
         passgen_pattern_special_push(
             state->data.special.special,
-- 
2.43.0


From 56769bc39dce75038714ce2557d2e7785b359685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 20/49] fix: report invalid and incomplete tokens when parsing
 codepoints

---
 src/parser/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 48937c1..28b49bb 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -602,6 +602,10 @@ int passgen_parser_unicode(
     for(size_t pos = 0; pos < length; pos++) {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
+        if(ret < 0) {
+            return ret;
+        }
+
         if(ret == PASSGEN_TOKEN_INIT) {
             ret = passgen_parse_token(parser, &token);
 
@@ -611,5 +615,10 @@ int passgen_parser_unicode(
         }
     }
 
+    // make sure we aren't still parsing a token
+    if(token_parser.state != PASSGEN_TOKEN_INIT) {
+        return -1;
+    }
+
     return 0;
 }
-- 
2.43.0


From b2a35ecc5a6306646aa5d0807e746be1c39cc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 21/49] fix: report how much was decoded before invalid UTF-8

---
 src/util/utf8.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index ce23c41..caf5f72 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -57,7 +57,7 @@ int passgen_utf8_decode(
             utf8_decode(&state, &codepoint, (*input)[input_offset]);
 
         if(status == UTF8_REJECT) {
-            return PASSGEN_UTF8_INVALID_CHAR;
+            break;
         }
 
         if(status == UTF8_ACCEPT) {
@@ -77,8 +77,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
-    // the input ended in the middle of a multi-byte sequence.
+    // the input is invalid or ended in the middle of a multi-byte sequence.
+    // everything up to that sequence has been processed.
     if(state != UTF8_ACCEPT) {
+        *output += output_offset;
+        *input += input_offset - codepoint_width;
         return PASSGEN_UTF8_INVALID_CHAR;
     }
 
-- 
2.43.0


From 3512addbd56cf031920239b853557a7bbe2a2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 22/49] fix: report the first error of a pattern and its
 position

---
 src/passgen.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/passgen.c b/src/passgen.c
index d20c4b6..ae667ae 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -43,14 +43,6 @@ int passgen_parse(
         pattern_pos = pattern_cur - &pattern[0];
         pattern_pos_total += pattern_pos;
 
-        // make sure utf8 decoding was successful
-        if(decode_ret < PASSGEN_UTF8_SUCCESS) {
-            passgen_error_init(error, passgen_utf8_error(decode_ret));
-            passgen_error_offset_set(error, pattern_pos_total, pattern_raw_pos);
-            passgen_parser_free(&parser);
-            return -1;
-        }
-
         // parse tokens and pattern
         for(size_t i = 0; i < pattern_pos; i++) {
             int ret = passgen_token_parse(
@@ -86,6 +78,14 @@ int passgen_parse(
                 assert(ret == 0);
             }
         }
+
+        // make sure utf8 decoding was successful
+        if(decode_ret < PASSGEN_UTF8_SUCCESS) {
+            passgen_error_init(error, passgen_utf8_error(decode_ret));
+            passgen_error_offset_set(error, pattern_pos_total, pattern_raw_pos);
+            passgen_parser_free(&parser);
+            return -1;
+        }
     } while(decode_ret > PASSGEN_UTF8_SUCCESS);
 
     // make sure we aren't still parsing tokens
-- 
2.43.0


From 74cc44a87beb60d4e18fc84b1d3131af68cea85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 23/49] fix: limit the nesting depth of patterns

---
 src/passgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/passgen.c b/src/passgen.c
index ae667ae..119becb 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -7,6 +7,10 @@
 #include <passgen/passgen.h>
 #include <string.h>
 
+// deepest nesting of a pattern. freeing a pattern and generating from it are
+// recursive, so that without a limit a pattern could exhaust the stack.
+#define PARSE_DEPTH_LIMIT 10000
+
 int passgen_parse(
     passgen_pattern *output,
     passgen_error *error,
@@ -15,6 +19,7 @@ int passgen_parse(
     passgen_token_parser token_parser = {0};
     passgen_token token = {0};
     passgen_parser_init(&parser, output);
+    parser.limit = PARSE_DEPTH_LIMIT;
 
     const uint8_t *pattern_raw = (const uint8_t *) string;
     size_t pattern_len = 256;
-- 
2.43.0


From de9154584368402272fc72d5719e69bee64f9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 24/49] fix: count optional items in the entropy

---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..606d2e3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // keep track of entropy
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From cd4161949b3a9d1f2276282430afc489fdcd8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 25/49] fix: escape all control characters in JSON output

---
 src/generate.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 606d2e3..5c6bbbe 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -17,6 +17,7 @@
 #include "passgen/wordlist.h"
 #include "try.h"
 
+#include <stdio.h>
 #include <string.h>
 
 typedef struct {
@@ -156,8 +157,8 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
-    size_t bytes = 2;
+    char buffer[8] = {'\\', 0};
+    int bytes = 2;
     switch(codepoint) {
         case '"':
             buffer[1] = '"';
@@ -181,18 +182,27 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
+            if(codepoint < 0x20) {
+                // other control characters have no short form.
+                bytes = snprintf(
+                    buffer,
+                    sizeof(buffer),
+                    "\\u%04x",
+                    (unsigned int) codepoint);
+            } else {
+                bytes = passgen_utf8_encode_codepoint(
+                    (uint8_t *) &buffer[0],
+                    codepoint);
+            }
     }
 
     // check that no error happened.
-    if(!bytes) {
+    if(bytes < 0) {
         return -1;
     }
 
     // make sure it fits.
-    if(bytes <= (fillpos->len - fillpos->cur)) {
+    if((size_t) bytes <= (fillpos->len - fillpos->cur)) {
         memcpy(&fillpos->buffer[fillpos->cur], &buffer[0], bytes);
         fillpos->cur += bytes;
     } else {
-- 
2.43.0


From 625976a6682af8867f44c43a025f6a81c641827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 26/49] fix: do not free the last segment on an unmatched
 parenthesis

---
 src/parser/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 28b49bb..005ba24 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -287,13 +287,13 @@ int passgen_parse_group(
                 }
                 return 0;
             case ')':
+                if(parser->state.len <= 1) {
+                    return -1;
+                }
                 if(state->data.group.segment->multiplier == 0) {
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_stack_pop(&state->data.group.group->segments, NULL);
                 }
-                if(parser->state.len <= 1) {
-                    return -1;
-                }
                 passgen_pattern_group_finish(state->data.group.group);
                 passgen_stack_pop(&parser->state, NULL);
                 return 0;
-- 
2.43.0


From e3eebc0ea1f3e73cd8b39e6479b279da950e58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 27/49] fix: report wordlists which cannot be read

---
 src/generate.c |  4 ++--
 src/wordlist.c | 44 +++++++++++++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 5c6bbbe..74439fc 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -374,7 +374,7 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
@@ -412,7 +412,7 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
 
     // pick word at random
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..19f95cc 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -17,15 +17,19 @@ void passgen_wordlist_init(
     wordlist->parsed_markov = false;
     wordlist->file = file;
     wordlist->should_close_file = true;
+    wordlist->data = NULL;
+    wordlist->size = 0;
+    wordlist->words = NULL;
+    wordlist->count = 0;
     passgen_markov_init(&wordlist->markov, markov_length);
 }
 
 int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed);
-    wordlist->parsed = true;
     try(passgen_wordlist_read(wordlist, wordlist->file));
     wordlist->file = NULL;
     passgen_wordlist_scan(wordlist);
+    wordlist->parsed = true;
     return 0;
 }
 
@@ -65,26 +69,38 @@ void passgen_wordlist_load(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist_init(wordlist, file, markov_length);
-    passgen_wordlist_parse(wordlist);
-    passgen_wordlist_parse_markov(wordlist);
+    if(0 == passgen_wordlist_parse(wordlist)) {
+        passgen_wordlist_parse_markov(wordlist);
+    }
 }
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
-    // get size of file
-    fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
-    fseek(file, 0, SEEK_SET);
+    // get size of file (this fails for files which are not seekable)
+    if(0 != fseek(file, 0, SEEK_END)) {
+        return 1;
+    }
+    long size = ftell(file);
+    if(size < 0 || 0 != fseek(file, 0, SEEK_SET)) {
+        return 1;
+    }
 
     // allocate buffer to hold entire file and read in (plus zero termination)
-    wordlist->data = malloc(wordlist->size + 1);
-    passgen_assert(wordlist->data);
+    char *data = malloc((size_t) size + 1);
+    passgen_assert(data);
+    if(!data) {
+        return 1;
+    }
 
     // read in entire wordlist
-    size_t read = fread(wordlist->data, 1, wordlist->size, file);
-    if(read != wordlist->size) {
+    size_t read = fread(data, 1, size, file);
+    if(read != (size_t) size) {
+        free(data);
         return 1;
     }
 
+    wordlist->data = data;
+    wordlist->size = size;
+
     // null-terminate wordlist
     wordlist->data[wordlist->size] = 0;
 
@@ -136,10 +152,8 @@ passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
 void passgen_wordlist_free(passgen_wordlist *wordlist) {
     passgen_markov_free(&wordlist->markov);
 
-    if(wordlist->parsed) {
-        free(wordlist->words);
-        free(wordlist->data);
-    }
+    free(wordlist->words);
+    free(wordlist->data);
 
     if(wordlist->should_close_file && wordlist->file) {
         fclose(wordlist->file);
-- 
2.43.0


From a3f7d31668638327ab8d37ed2923de9415230bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 28/49] fix: fail to generate words from an empty wordlist

---
 src/generate.c | 11 ++++++++++-
 src/wordlist.c |  8 +++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 74439fc..e55227b 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -380,6 +380,10 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
+    if(!markov->count) {
+        // there are no words to learn from
+        return -1;
+    }
     uint32_t word[128];
     size_t pos = markov->level;
     memset(word, 0, pos * sizeof(uint32_t));
@@ -416,7 +420,12 @@ static int passgen_generate_special_wordlist(
     }
 
     // pick word at random
-    const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
+    const char *word =
+        passgen_wordlist_random(wordlist, context->env->random);
+    if(!word) {
+        // there are no words to choose from
+        return -1;
+    }
 
     // UTF8-decode word and write codepoints
     // TODO: handle longer words
diff --git a/src/wordlist.c b/src/wordlist.c
index 19f95cc..27f8fac 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -136,13 +136,15 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
     }
 
     // resize array finally (shrink it down to what is really needed)
-    wordlist->words =
-        realloc(wordlist->words, sizeof(char *) * wordlist->count);
+    if(wordlist->count) {
+        wordlist->words =
+            realloc(wordlist->words, sizeof(char *) * wordlist->count);
+    }
 }
 
 const char *
 passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
-    if(!wordlist->parsed) {
+    if(!wordlist->parsed || !wordlist->count) {
         return NULL;
     }
     size_t index = passgen_random_u64_max(random, wordlist->count);
-- 
2.43.0


From c28fdd3bfb43ca1c0feb1e5d3d72a3cb40e5fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 29/49] fix: do not limit the length of words generated by
 markov chains

---
 src/generate.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index e55227b..28f0914 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -384,26 +384,24 @@ static int passgen_generate_special_markov(
         // there are no words to learn from
         return -1;
     }
-    uint32_t word[128];
-    size_t pos = markov->level;
-    memset(word, 0, pos * sizeof(uint32_t));
-    double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
-        word[pos] = passgen_markov_generate(
+
+    // only the last few characters determine the next one. there is no limit
+    // on the length of the generated word.
+    uint32_t window[UINT8_MAX + 1] = {0};
+    passgen_assert(markov->level <= UINT8_MAX);
+    for(;;) {
+        uint32_t codepoint = passgen_markov_generate(
             markov,
-            &word[pos - markov->level],
+            window,
             context->env->random,
-            entropy);
-        pos++;
-    } while(word[pos - 1]);
-
-    pos = markov->level;
-    while(word[pos]) {
-        try(emit(context, word[pos]));
-        pos++;
+            context->entropy);
+        if(!codepoint) {
+            return 0;
+        }
+        try(emit(context, codepoint));
+        window[markov->level] = codepoint;
+        memmove(&window[0], &window[1], markov->level * sizeof(window[0]));
     }
-
-    return 0;
 }
 
 static int passgen_generate_special_wordlist(
-- 
2.43.0


From d764bd1d581a04163176881f854c47bb44c21d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 30/49] fix: generate words longer than 128 characters

---
 src/generate.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 28f0914..722845c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -426,14 +426,23 @@ static int passgen_generate_special_wordlist(
     }
 
     // UTF8-decode word and write codepoints
-    // TODO: handle longer words
-    size_t word_len = strlen(word);
-    const char *word_pos = &word;
-    uint32_t codepoints[128];
-    uint32_t *codepoints_pos = &codepoints[0];
-    try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
-        try(emit(context, codepoints[i]));
+    const uint8_t *word_pos = (const uint8_t *) word;
+    const uint8_t *word_end = word_pos + strlen(word);
+    while(word_pos != word_end) {
+        uint32_t codepoints[128];
+        uint32_t *codepoints_pos = &codepoints[0];
+        int ret = passgen_utf8_decode(
+            &codepoints_pos,
+            128,
+            NULL,
+            &word_pos,
+            word_end - word_pos);
+        if(ret < 0) {
+            return ret;
+        }
+        for(size_t i = 0; &codepoints[i] < codepoints_pos; i++) {
+            try(emit(context, codepoints[i]));
+        }
     }
 
     if(context->entropy) {
-- 
2.43.0


From 6c783e6068f33f9ca30a89ddf6acb41d947ed42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 31/49] fix: refuse markov chains of invalid words, allow words
 of any length

---
 include/passgen/wordlist.h |  5 +++--
 src/generate.c             |  2 +-
 src/wordlist.c             | 39 ++++++++++++++++++++++++++++++++++----
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/passgen/wordlist.h b/include/passgen/wordlist.h
index 7683e21..cbfc309 100644
--- a/include/passgen/wordlist.h
+++ b/include/passgen/wordlist.h
@@ -51,10 +51,11 @@ void passgen_wordlist_init(passgen_wordlist *wordlist, FILE *file, size_t markov
 /// @memberof passgen_wordlist
 int passgen_wordlist_parse(passgen_wordlist *wordlist);
 
-/// Generate markov chain from wordlist.
+/// Generate markov chain from wordlist. Fails if the wordlist contains words
+/// which are not valid UTF-8.
 ///
 /// @memberof passgen_wordlist
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
 
 /// Generate random word from this wordlist.
 ///
diff --git a/src/generate.c b/src/generate.c
index 722845c..9253374 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -377,7 +377,7 @@ static int passgen_generate_special_markov(
         try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
-        passgen_wordlist_parse_markov(wordlist);
+        try(passgen_wordlist_parse_markov(wordlist));
     }
     passgen_markov *markov = &wordlist->markov;
     if(!markov->count) {
diff --git a/src/wordlist.c b/src/wordlist.c
index 27f8fac..5f05374 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -33,12 +33,39 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     return 0;
 }
 
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
-    wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
+    // make sure the buffer is large enough to hold every word.
+    size_t unicode_buffer_len = 1;
+    for(size_t i = 0; i < wordlist->count; i++) {
+        size_t word_length = strlen(wordlist->words[i]);
+        if(unicode_buffer_len < word_length) {
+            unicode_buffer_len = word_length;
+        }
+    }
+
+    uint32_t *unicode_buffer = malloc(unicode_buffer_len * sizeof(uint32_t));
+    if(!unicode_buffer) {
+        return 1;
+    }
+
+    // make sure all words can be decoded before adding any of them.
+    for(size_t i = 0; i < wordlist->count; i++) {
+        uint32_t *unicode_buffer_pos = &unicode_buffer[0];
+        const uint8_t *word = (const uint8_t *) wordlist->words[i];
+        int ret = passgen_utf8_decode(
+            &unicode_buffer_pos,
+            unicode_buffer_len,
+            NULL,
+            &word,
+            strlen(wordlist->words[i]));
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            free(unicode_buffer);
+            return ret;
+        }
+    }
+
     for(size_t i = 0; i < wordlist->count; i++) {
         uint32_t *unicode_buffer_pos = &unicode_buffer[0];
         const uint8_t *word = (const uint8_t *) wordlist->words[i];
@@ -62,6 +89,10 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             unicode_buffer_pos - &unicode_buffer[0],
             1);
     }
+
+    free(unicode_buffer);
+    wordlist->parsed_markov = true;
+    return 0;
 }
 
 void passgen_wordlist_load(
-- 
2.43.0


From 90026b4f3aeefdf06df92dce0133f338aeffd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 32/49] fix: release the previous wordlist of the same name

---
 src/env.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 756ab4f..8a3a7c4 100644
--- a/src/env.c
+++ b/src/env.c
@@ -38,9 +38,15 @@ int passgen_env_wordlist_add(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist *wordlist = malloc(sizeof(passgen_wordlist));
-    passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    passgen_hashmap_entry previous =
+        passgen_hashmap_insert(&env->wordlists, name, wordlist);
     passgen_wordlist_init(wordlist, file, markov_length);
 
+    // release the wordlist which previously had this name
+    if(previous.key) {
+        wordlist_entry_free(NULL, &previous);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 16cae75a8df40fe362b2c8953411a32e7d46c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 33/49] fix: report wordlists which do not fit into memory

---
 src/wordlist.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wordlist.c b/src/wordlist.c
index 5f05374..4039c02 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -117,7 +117,6 @@ int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
 
     // allocate buffer to hold entire file and read in (plus zero termination)
     char *data = malloc((size_t) size + 1);
-    passgen_assert(data);
     if(!data) {
         return 1;
     }
-- 
2.43.0


From 494f695120dab442de61461c893d5d5e60b6091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 34/49] fix: read configuration files of any size

---
 src/cli/passgen.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..6408c56 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -522,9 +522,23 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
-    size_t read = fread(config, 1, 10240, file);
-    config[read] = 0;
+    size_t capacity = 10240;
+    size_t length = 0;
+    char *config = NULL;
+
+    do {
+        // always keep space for the NUL terminator
+        capacity *= 2;
+        char *larger = realloc(config, capacity + 1);
+        if(!larger) {
+            free(config);
+            return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+        }
+        config = larger;
+        length += fread(config + length, 1, capacity - length, file);
+    } while(length == capacity);
+
+    config[length] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
     return ret;
-- 
2.43.0


From d29a43c103dab43f9c1e3f41dc81b760dbf60634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 35/49] fix: do not limit the length of the configuration path

---
 src/cli/passgen.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 6408c56..2d37678 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -608,19 +608,25 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
-    char config_path[256];
-    const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
-    if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
-    } else {
-        const char *home = getenv("HOME");
-        if(!home) {
+    const char *suffix = "/passgen.conf";
+    const char *directory = getenv("XDG_CONFIG_PATH");
+    if(!directory) {
+        directory = getenv("HOME");
+        suffix = "/.config/passgen.conf";
+        if(!directory) {
             fprintf(stderr, "warning: cannot locate home directory\n");
             return 0;
         }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
     }
+
+    char *config_path = malloc(strlen(directory) + strlen(suffix) + 1);
+    if(!config_path) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
+    strcpy(config_path, directory);
+    strcat(config_path, suffix);
     FILE *file = fopen(config_path, "r");
+    free(config_path);
     if(file) {
         int ret = passgen_cli_opts_config_load(opts, file);
         fclose(file);
-- 
2.43.0


From b6d4b6f87019996b1bdaa6c83bc4ac3f80ba7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 36/49] fix: report wordlists which cannot be opened

---
 src/cli/passgen.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 2d37678..6f9a052 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -150,28 +150,40 @@ int passgen_cli_generate(passgen_cli_opts opts, passgen_pattern *pattern) {
 int passgen_cli_opts_wordlist(passgen_cli_opts *opt, const char *input) {
     char *colon = strstr(input, ":");
     if(!colon) {
+        printf(
+            "Error: expected name:path for wordlist definition `%s`\n",
+            input);
         return 1;
     }
     size_t offset = colon - input;
 
-    char *name = malloc(offset + 1);
-    memcpy(name, input, offset);
-    name[offset] = 0;
-
     FILE *file = fopen(colon + 1, "r");
     if(!file) {
+        printf("Error: cannot open wordlist `%s`\n", colon + 1);
         return 1;
     }
 
+    char *name = malloc(offset + 1);
+    if(!name) {
+        fclose(file);
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
+    memcpy(name, input, offset);
+    name[offset] = 0;
+
     return passgen_env_wordlist_add(&opt->env, name, file, opt->markov_length);
 }
 
 int passgen_cli_opts_preset(passgen_cli_opts *opts, const char *arg) {
     size_t arg_len = strlen(arg);
     char *arg_copy = malloc(arg_len + 1);
+    if(!arg_copy) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
     memcpy(arg_copy, arg, arg_len + 1);
     char *colon = strstr(arg_copy, ":");
     if(!colon) {
+        free(arg_copy);
         printf(
             "Error: expected preset:value for preset definition `%s`\n",
             arg);
-- 
2.43.0


From d023bd886df7c098fa220b180dd4249d14f832f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 37/49] fix: interpret configuration files line by line and as
 documented

---
 src/cli/passgen.c | 84 ++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 6f9a052..9647283 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -27,7 +27,6 @@
 #include "passgen/wordlist.h"
 
 #define UNUSED(x)              (void) x
-#define strprefix(prefix, str) memcmp(prefix, str, strlen(prefix))
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
@@ -150,7 +149,8 @@ int passgen_cli_generate(passgen_cli_opts opts, passgen_pattern *pattern) {
 int passgen_cli_opts_wordlist(passgen_cli_opts *opt, const char *input) {
     char *colon = strstr(input, ":");
     if(!colon) {
-        printf(
+        fprintf(
+            stderr,
             "Error: expected name:path for wordlist definition `%s`\n",
             input);
         return 1;
@@ -159,7 +159,7 @@ int passgen_cli_opts_wordlist(passgen_cli_opts *opt, const char *input) {
 
     FILE *file = fopen(colon + 1, "r");
     if(!file) {
-        printf("Error: cannot open wordlist `%s`\n", colon + 1);
+        fprintf(stderr, "Error: cannot open wordlist `%s`\n", colon + 1);
         return 1;
     }
 
@@ -184,7 +184,8 @@ int passgen_cli_opts_preset(passgen_cli_opts *opts, const char *arg) {
     char *colon = strstr(arg_copy, ":");
     if(!colon) {
         free(arg_copy);
-        printf(
+        fprintf(
+            stderr,
             "Error: expected preset:value for preset definition `%s`\n",
             arg);
         return 1;
@@ -557,46 +558,53 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
 }
 
 int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
-    // TODO: this code is a mess.
-    for(size_t pos = 0; data[pos]; pos++) {
-        if(data[pos] == '#') {
-            // skip this line, it's a comment
-            while(data[pos] && data[pos] != '\n') pos++;
-            continue;
+    while(*data) {
+        // split off the next line
+        char *line = data;
+        data += strcspn(data, "\n");
+        if(*data) {
+            *data = 0;
+            data++;
         }
-        if(data[pos] == '\n') {
-            // skip this newline
+
+        // skip empty lines and comments
+        line += strspn(line, " \t");
+        if(!*line || *line == '#') {
             continue;
         }
-        if(0 == strprefix("random", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_random(opts, &data[pos]);
-            pos += length;
-            continue;
+
+        // split the line into a keyword and its argument
+        char *arg = line + strcspn(line, " \t");
+        if(*arg) {
+            *arg = 0;
+            arg++;
+            arg += strspn(arg, " \t");
         }
-        if(0 == strprefix("wordlist", &data[pos])) {
-            pos += 8;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_wordlist(opts, &data[pos]);
-            pos += length;
+
+        if(0 == strcmp(line, "random")) {
+            try(passgen_cli_opts_random(opts, arg));
             continue;
         }
-        if(0 == strprefix("preset", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_preset(opts, &data[pos]);
-            pos += length;
-            continue;
+
+        // names can be followed by a colon or by blanks
+        size_t name_len = strcspn(arg, ": \t");
+        if(arg[name_len] && arg[name_len] != ':') {
+            char *value = &arg[name_len];
+            value += strspn(value, " \t");
+            memmove(&arg[name_len + 1], value, strlen(value) + 1);
+            arg[name_len] = ':';
+        }
+
+        // broken definitions are reported but do not prevent using passgen
+        if(0 == strcmp(line, "wordlist")) {
+            passgen_cli_opts_wordlist(opts, arg);
+        } else if(0 == strcmp(line, "preset")) {
+            passgen_cli_opts_preset(opts, arg);
+        } else {
+            fprintf(
+                stderr,
+                "warning: unknown keyword `%s` in configuration\n",
+                line);
         }
     }
     return 0;
-- 
2.43.0


From f6afd73dc49895e5f3d48d52f4a619d4e36f1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 38/49] fix: report randomness sources which cannot be opened

---
 src/cli/passgen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 9647283..8259d94 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -40,7 +40,7 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
         printf(
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
-        return 1;
+        return PASSGEN_ERROR_RANDOM_ALLOC;
     }
 
     return 0;
@@ -413,12 +413,17 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
 #ifdef PASSGEN_MONOCYPHER
     if(!opts->env.random && opts->master_passphrase) {
         opts->env.random = passgen_random_chacha20_argon2_open(NULL, opts->master_passphrase, opts->master_domain, opts->master_token, NULL);
+        if(!opts->env.random) {
+            return passgen_cli_bail(PASSGEN_ERROR_RANDOM_ALLOC, NULL);
+        }
     }
 #endif
 
     if(!opts->env.random) {
         opts->env.random = passgen_random_open(NULL, NULL);
-        assert(opts->env.random);
+        if(!opts->env.random) {
+            return passgen_cli_bail(PASSGEN_ERROR_RANDOM_ALLOC, NULL);
+        }
     }
 
     return 0;
-- 
2.43.0


From a85b1c7b34e67790f24bab9110b4e08b32eb3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 39/49] fix: refuse amounts and markov chain lengths which are
 not numbers

---
 src/cli/passgen.c | 51 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 8259d94..909fce1 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -28,6 +28,27 @@
 
 #define UNUSED(x)              (void) x
 
+/// Parse a number which may be at most @p max, returns false if it is not one.
+static bool
+passgen_cli_parse_number(const char *string, size_t max, size_t *number) {
+    size_t value = 0;
+    if(!*string) {
+        return false;
+    }
+    for(; *string; string++) {
+        if(*string < '0' || *string > '9') {
+            return false;
+        }
+        size_t digit = *string - '0';
+        if(digit > max || value > (max - digit) / 10) {
+            return false;
+        }
+        value = 10 * value + digit;
+    }
+    *number = value;
+    return true;
+}
+
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
         passgen_random_free(opts->env.random);
@@ -316,11 +337,15 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
             case 'h':
                 return PASSGEN_SHOW_HELP;
             case 'a':
-                opt = atoi(optarg);
-                if(opt < 1) {
-                    return passgen_cli_bail(PASSGEN_ERROR_ILLEGAL_AMOUNT, &opt);
+                if(!passgen_cli_parse_number(
+                       optarg,
+                       SIZE_MAX,
+                       &opts->amount) ||
+                   !opts->amount) {
+                    return passgen_cli_bail(
+                        PASSGEN_ERROR_ILLEGAL_AMOUNT,
+                        optarg);
                 }
-                opts->amount = opt;
                 break;
             case 'm':
                 opts->master_passphrase = optarg;
@@ -353,13 +378,15 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 try(passgen_cli_opts_wordlist(opts, optarg));
                 break;
             case 'M':
-                opt = atoi(optarg);
-                if(opt < 1) {
+                if(!passgen_cli_parse_number(
+                       optarg,
+                       UINT8_MAX,
+                       &opts->markov_length) ||
+                   !opts->markov_length) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
-                        &opt);
+                        optarg);
                 }
-                opts->markov_length = opt;
                 break;
             case 'r':
                 try(passgen_cli_opts_random(opts, optarg));
@@ -509,14 +536,14 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
             break;
         case PASSGEN_ERROR_ILLEGAL_AMOUNT:
             printf(
-                "\033[1;31merror\033[0m: illegal amount entered (%i)\n",
-                *((const int *) data));
+                "\033[1;31merror\033[0m: illegal amount entered (%s)\n",
+                (const char *) data);
             break;
         case PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH:
             printf(
                 "\033[1;31merror\033[0m: illegal markov chain length entered "
-                "(%i)\n",
-                *((const int *) data));
+                "(%s)\n",
+                (const char *) data);
             break;
         case PASSGEN_ERROR_UNRECOGNIZED:
             break;
-- 
2.43.0


From 6968ec5e4afa7d0fb39466e41117ff8f9e063f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 40/49] fix: apply the depth limit given on the command line

---
 man/passgen.1.in  |  2 ++
 src/cli/passgen.c | 14 ++++++++++++--
 src/cli/passgen.h |  1 +
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/man/passgen.1.in b/man/passgen.1.in
index cfa48e2..7654300 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -251,6 +251,8 @@ Unrecognized argument flag. Make sure that you are not using an incorrect flag.
 Preset not found. Make sure that the preset you have specified exists. When it doubt, use the
 .Fl -list
 command to see the full list of all presets that the tool knows about.
+.It Ar 9
+Illegal depth has been specified. The depth must be a number.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 909fce1..770c5a3 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -360,8 +360,13 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 preset = optarg;
                 break;
             case 'D':
-                opt = atoi(optarg);
-                opts->depth = opt;
+                if(!passgen_cli_parse_number(
+                       optarg,
+                       SIZE_MAX,
+                       &opts->depth)) {
+                    return passgen_cli_bail(PASSGEN_ERROR_ILLEGAL_DEPTH, optarg);
+                }
+                opts->env.depth_limit = opts->depth;
                 break;
             case 'z':
                 opts->null = true;
@@ -545,6 +550,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "(%s)\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_ILLEGAL_DEPTH:
+            printf(
+                "\033[1;31merror\033[0m: illegal depth entered (%s)\n",
+                (const char *) data);
+            break;
         case PASSGEN_ERROR_UNRECOGNIZED:
             break;
         case PASSGEN_ERROR_PRESET_NOT_FOUND:
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b3c1bad..17ffd3d 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -26,6 +26,7 @@ typedef enum {
     PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
+    PASSGEN_ERROR_ILLEGAL_DEPTH,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From 85453c062a0edf729e520b92500dbe029217ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 41/49] fix: report failing generation and output, print NUL
 characters

---
 include/passgen/generate.h | 22 ++++++++++++++++
 man/passgen.1.in           |  5 ++++
 src/cli/passgen.c          | 52 +++++++++++++++++++++++++++++---------
 src/cli/passgen.h          |  2 ++
 src/generate.c             | 42 +++++++++++++++++++++---------
 5 files changed, 99 insertions(+), 24 deletions(-)

diff --git a/include/passgen/generate.h b/include/passgen/generate.h
index 831fefb..67e7548 100644
--- a/include/passgen/generate.h
+++ b/include/passgen/generate.h
@@ -55,6 +55,28 @@ size_t passgen_generate_fill_json_utf8(
     uint8_t *buffer,
     size_t len);
 
+/// Like @ref passgen_generate_fill_utf8, but returns zero on success and stores
+/// the number of bytes in @p written. This allows for telling apart an empty
+/// password from a failure.
+int passgen_generate_utf8(
+    const passgen_pattern *pattern,
+    passgen_env *env,
+    double *entropy,
+    uint8_t *buffer,
+    size_t len,
+    size_t *written);
+
+/// Like @ref passgen_generate_fill_json_utf8, but returns zero on success and
+/// stores the number of bytes in @p written. This allows for telling apart an
+/// empty password from a failure.
+int passgen_generate_json_utf8(
+    const passgen_pattern *pattern,
+    passgen_env *env,
+    double *entropy,
+    uint8_t *buffer,
+    size_t len,
+    size_t *written);
+
 /// Generate a password from a pattern, calling the provided callback function
 /// with the provided data pointer as well as each codepoint as it is generated.
 int passgen_generate(
diff --git a/man/passgen.1.in b/man/passgen.1.in
index 7654300..3894050 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -253,6 +253,11 @@ Preset not found. Make sure that the preset you have specified exists. When it d
 command to see the full list of all presets that the tool knows about.
 .It Ar 9
 Illegal depth has been specified. The depth must be a number.
+.It Ar 10
+Generating a sequence failed. Make sure that all wordlists used by the pattern exist and that
+the generated sequence is not longer than 256 bytes.
+.It Ar 11
+The generated sequences could not be written to the standard output.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 770c5a3..f9e93bf 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -81,6 +81,14 @@ int passgen_cli_run(passgen_cli_opts opts) {
     return ret;
 }
 
+/// Make sure that everything has been written.
+static int passgen_cli_flush(void) {
+    if(fflush(stdout) != 0 || ferror(stdout)) {
+        return passgen_cli_bail(PASSGEN_ERROR_OUTPUT, NULL);
+    }
+    return 0;
+}
+
 int passgen_cli_generate_normal(
     passgen_cli_opts opts,
     passgen_pattern *pattern) {
@@ -98,31 +106,35 @@ int passgen_cli_generate_normal(
     }
 
     for(size_t i = 0; i < opts.amount; ++i) {
-        // get a NULL-terminated, random pass.
+        // get a random pass.
         double entropy;
-        size_t written = passgen_generate_fill_utf8(
+        size_t written;
+        int ret = passgen_generate_utf8(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
             pass,
-            pass_len);
-        pass[written] = '\0';
+            pass_len,
+            &written);
+        if(ret != 0) {
+            free(pass);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
 
         if(opts.entropy) {
             fprintf(stderr, "entropy: %.2lf bits\n", log(entropy) / log(2));
         }
 
-        if(i == 0) {
-            printf("%s", pass);
-        } else {
-            printf("%c%s", sep, pass);
+        if(i != 0) {
+            printf("%c", sep);
         }
+        fwrite(pass, 1, written, stdout);
     }
 
     printf("\n");
     free(pass);
 
-    return 0;
+    return passgen_cli_flush();
 }
 
 int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
@@ -138,12 +150,18 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
     for(size_t i = 0; i < opts.amount; ++i) {
         double entropy;
         // get a NULL-terminated, random pass.
-        size_t written = passgen_generate_fill_json_utf8(
+        size_t written;
+        int ret = passgen_generate_json_utf8(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
             pass,
-            pass_len);
+            pass_len,
+            &written);
+        if(ret != 0) {
+            free(pass);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
         pass[written] = '\0';
         printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
 
@@ -156,7 +174,7 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
     printf("]\n");
 
     free(pass);
-    return 0;
+    return passgen_cli_flush();
 }
 
 int passgen_cli_generate(passgen_cli_opts opts, passgen_pattern *pattern) {
@@ -555,6 +573,16 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: illegal depth entered (%s)\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_GENERATE:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: cannot generate from this pattern. "
+                "Make sure that the wordlists it uses exist and that it is "
+                "neither too long nor too deeply nested.\n");
+            break;
+        case PASSGEN_ERROR_OUTPUT:
+            fprintf(stderr, "\033[1;31merror\033[0m: cannot write output\n");
+            break;
         case PASSGEN_ERROR_UNRECOGNIZED:
             break;
         case PASSGEN_ERROR_PRESET_NOT_FOUND:
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index 17ffd3d..c6d5425 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -27,6 +27,8 @@ typedef enum {
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
     PASSGEN_ERROR_ILLEGAL_DEPTH,
+    PASSGEN_ERROR_GENERATE,
+    PASSGEN_ERROR_OUTPUT,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
diff --git a/src/generate.c b/src/generate.c
index 9253374..45f65c8 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -238,12 +238,13 @@ size_t passgen_generate_fill_unicode(
     return fillpos.cur;
 }
 
-size_t passgen_generate_fill_utf8(
+int passgen_generate_utf8(
     const passgen_pattern *pattern,
     passgen_env *env,
     double *entropy,
     uint8_t *buffer,
-    size_t len) {
+    size_t len,
+    size_t *written) {
     struct fillpos_utf8 fillpos = {
         .buffer = buffer,
         .len = len,
@@ -257,19 +258,28 @@ size_t passgen_generate_fill_utf8(
         &fillpos,
         passgen_generate_write_buffer_utf8);
 
-    if(ret != 0) {
-        return 0;
-    }
-
-    return fillpos.cur;
+    *written = ret ? 0 : fillpos.cur;
+    return ret;
 }
 
-size_t passgen_generate_fill_json_utf8(
+size_t passgen_generate_fill_utf8(
     const passgen_pattern *pattern,
     passgen_env *env,
     double *entropy,
     uint8_t *buffer,
     size_t len) {
+    size_t written;
+    passgen_generate_utf8(pattern, env, entropy, buffer, len, &written);
+    return written;
+}
+
+int passgen_generate_json_utf8(
+    const passgen_pattern *pattern,
+    passgen_env *env,
+    double *entropy,
+    uint8_t *buffer,
+    size_t len,
+    size_t *written) {
     struct fillpos_utf8 fillpos = {
         .buffer = buffer,
         .len = len,
@@ -283,11 +293,19 @@ size_t passgen_generate_fill_json_utf8(
         &fillpos,
         passgen_generate_write_buffer_json_utf8);
 
-    if(ret != 0) {
-        return 0;
-    }
+    *written = ret ? 0 : fillpos.cur;
+    return ret;
+}
 
-    return fillpos.cur;
+size_t passgen_generate_fill_json_utf8(
+    const passgen_pattern *pattern,
+    passgen_env *env,
+    double *entropy,
+    uint8_t *buffer,
+    size_t len) {
+    size_t written;
+    passgen_generate_json_utf8(pattern, env, entropy, buffer, len, &written);
+    return written;
 }
 
 static size_t passgen_generate_repeat(
-- 
2.43.0


From 7826886621d50aceb0cfef9d243a1eb733ab06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 42/49] fix: output valid JSON if the entropy exceeds the range
 of numbers

---
 src/cli/passgen.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index f9e93bf..ecad815 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -166,7 +166,13 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
         printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
 
         if(opts.entropy) {
-            printf(",\"entropy\":%lf", log(entropy) / log(2));
+            double bits = log(entropy) / log(2);
+            if(isfinite(bits)) {
+                printf(",\"entropy\":%lf", bits);
+            } else {
+                // JSON cannot represent infinity
+                printf(",\"entropy\":null");
+            }
         }
 
         printf("}");
-- 
2.43.0


From 2ac3e5c17c655e0a91799d9048f33a0a02bd13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 43/49] fix: mark the position of the error in the pattern

---
 src/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index d48c6f2..ffccd13 100644
--- a/src/error.c
+++ b/src/error.c
@@ -30,7 +30,7 @@ void passgen_error_print(passgen_error *error, const char *pattern) {
     }
     fprintf(stderr, "\033[1;33mpattern\033[0m: %s\n", pattern);
     fprintf(stderr, "         ");
-    for(size_t i = 1; i < error->offset.byte; i++) {
+    for(size_t i = 0; i < error->offset.codepoint; i++) {
         fprintf(stderr, " ");
     }
     fprintf(stderr, "\033[1;31m^\033[0m\n");
-- 
2.43.0


From 40c1a0632741a83320cb069de37ca59543d9fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 44/49] fix: close the randomness source when failing

---
 src/cli/main.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 38c9ef1..a04c48f 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -5,14 +5,6 @@
 #include <sys/mman.h>
 #endif
 
-#define try(statement)            \
-    do {                          \
-        int ret = statement;      \
-        if(ret != EXIT_SUCCESS) { \
-            return ret;           \
-        }                         \
-    } while(0)
-
 int main(int argc, char *argv[]) {
     int ret;
     passgen_cli_opts opts;
@@ -37,7 +29,11 @@ int main(int argc, char *argv[]) {
 
     // load values from a config file (located at /etc/passgen.conf, or
     // $HOME/.config/passgen.conf).
-    try(passgen_cli_opts_config(&opts));
+    ret = passgen_cli_opts_config(&opts);
+    if(ret != EXIT_SUCCESS) {
+        passgen_cli_opts_free(&opts);
+        return ret;
+    }
 
     // parse CLI options, which override the previously loaded configuration.
     ret = passgen_cli_opts_parse(&opts, argc, argv);
@@ -50,12 +46,13 @@ int main(int argc, char *argv[]) {
         passgen_cli_opts_free(&opts);
         return 0;
     } else if(ret != PASSGEN_ERROR_NONE) {
+        passgen_cli_opts_free(&opts);
         return ret;
     }
 
     // run the cli commands and free memory.
-    try(passgen_cli_run(opts));
+    ret = passgen_cli_run(opts);
     passgen_cli_opts_free(&opts);
 
-    return EXIT_SUCCESS;
+    return ret;
 }
-- 
2.43.0


From 15d9e1833e13a6cc47f74dfc95523ab0c75c7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 45/49] fix: allow using character devices which are not
 terminals in the sandbox

---
 src/cli/passgen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index ecad815..4d3996c 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -844,6 +844,14 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 1),
         SCMP_CMP(1, SCMP_CMP_EQ, TIOCGWINSZ));
 
+    // allow checking if a character device is a terminal (used by stdio)
+    seccomp_rule_add(
+        ctx,
+        SCMP_ACT_ALLOW,
+        SCMP_SYS(ioctl),
+        1,
+        SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
+
     // apply rules
     seccomp_load(ctx);
     seccomp_release(ctx);
-- 
2.43.0


From f87585e8b0336d25df5a6e93680ebf549f90b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 46/49] fix: do not continue without the sandbox

---
 src/cli/passgen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 4d3996c..cff0cdd 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -743,6 +743,10 @@ int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
 void passgen_cli_seccomp_init() {
     scmp_filter_ctx ctx;
     ctx = seccomp_init(SCMP_ACT_KILL);
+    if(!ctx) {
+        fprintf(stderr, "error: cannot set up the sandbox\n");
+        exit(EXIT_FAILURE);
+    }
 
     // allow open syscalls, as long as they are read-only.
     seccomp_rule_add(
@@ -853,7 +857,10 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
 
     // apply rules
-    seccomp_load(ctx);
+    if(seccomp_load(ctx) != 0) {
+        fprintf(stderr, "error: cannot enter the sandbox\n");
+        exit(EXIT_FAILURE);
+    }
     seccomp_release(ctx);
 }
 #endif
-- 
2.43.0


From 95a77ef324a51bc33718a1bcbf075c7743b14d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 47/49] fix: do not leak randomness sources when memory runs
 out

---
 src/random/deterministic.c | 13 ++++++++-----
 src/random/xorshift.c      | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index 273e30a..370ec62 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -69,17 +69,20 @@ passgen_random *passgen_random_chacha20_open(
     passgen_random *random,
     const uint8_t key[CHACHA20_KEY_SIZE],
     const uint8_t iv[8]) {
-    if(!random) {
-        random = malloc(sizeof(passgen_random));
-        if(!random) return NULL;
-    }
-
     passgen_random_chacha20_context *data =
         malloc(sizeof(passgen_random_chacha20_context));
     if(!data) {
         return NULL;
     }
 
+    if(!random) {
+        random = malloc(sizeof(passgen_random));
+        if(!random) {
+            free(data);
+            return NULL;
+        }
+    }
+
     memset(data, 0, sizeof(*data));
     memcpy(data->key, key, CHACHA20_KEY_SIZE);
     memcpy(data->iv, iv, 8);
diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index f295674..5715434 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -42,15 +42,18 @@ static void passgen_random_xorshift_close(void *context) {
 
 passgen_random *
 passgen_random_xorshift_open(passgen_random *random, uint64_t seed) {
-    if(!random) {
-        random = malloc(sizeof(passgen_random));
-        if(!random) return NULL;
-    }
-
     // create state
     uint64_t *state = malloc(sizeof(uint64_t));
     if(!state) return NULL;
 
+    if(!random) {
+        random = malloc(sizeof(passgen_random));
+        if(!random) {
+            free(state);
+            return NULL;
+        }
+    }
+
     // initialise state
     *state = seed;
 
-- 
2.43.0


From 2fdb60d4769a8d93545c94d3fea97fcf19c83c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 48/49] fix: close the randomness file when memory runs out

---
 src/random/system.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/system.c b/src/random/system.c
index e58c038..098cc1e 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -74,7 +74,10 @@ passgen_random_path_open(passgen_random *random, const char *path) {
 
     if(!random) {
         random = malloc(sizeof(passgen_random));
-        if(!random) return NULL;
+        if(!random) {
+            fclose(device);
+            return NULL;
+        }
     }
 
     return passgen_random_file_open(random, device);
-- 
2.43.0


From a8462dffce49c7caf4bc49ce235baf2d6c4a5eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 49/49] fix: check the work area of the master passphrase was
 allocated

---
 src/random/deterministic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index 370ec62..08599a5 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -146,6 +146,7 @@ passgen_random *passgen_random_chacha20_argon2_open(
     size_t hash_size = CHACHA20_KEY_SIZE;
     uint8_t hash[hash_size];
     void *work_area = malloc(1024 * config.nb_blocks);
+    if(!work_area) return NULL;
     passgen_argon2(&hash[0], hash_size, work_area, config, inputs, extras);
     free(work_area);
 
-- 
2.43.0

