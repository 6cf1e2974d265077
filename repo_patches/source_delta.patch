From 203a0498ce0919082df36f96c20376efede85f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 01/29] fix: vt_str_remove_last reports a missing substring and
 removes the right one

---
 src/vita/container/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..3b9430f 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -573,7 +573,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     const size_t zLen = strlen(z);
     char *p = strstr(s->ptr, z);
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -583,7 +583,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     }
 
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = lastInstance - (char*)(s->ptr);
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
-- 
2.43.0


From dbee304c2d84e4d0a5dd990d4a120c2aa040e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 02/29] fix: vt_str_replace_last leaves the string alone when
 the substring is missing

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 3b9430f..88e923d 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -719,7 +719,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From 54b971df4e4ca96b255e39153828b900981ea4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 03/29] fix: vt_str_strip on a string with nothing left to keep

---
 src/vita/container/str.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 88e923d..b2b03a9 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -787,10 +787,8 @@ void vt_str_strip(vt_str_t *const s) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace(p[*len + offset - 1])) {
         (*len)--;
-        curr = p + (*len + offset - 1);
     }
 
     // move string to the begining
-- 
2.43.0


From 140abbd4f317ce3de3c6d14c3a3fd0c51474ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 04/29] fix: vt_str_strip_punct on a string with nothing left
 to keep

---
 src/vita/container/str.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b2b03a9..f8639a8 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -819,10 +819,8 @@ void vt_str_strip_punct(vt_str_t *const s) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace(p[*len + offset - 1]) || ispunct(p[*len + offset - 1]))) {
         (*len)--;
-        curr = p + (*len + offset - 1);
     }
 
     // move string to the begining
-- 
2.43.0


From de828d88759580663c7be30d7313982888c81cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 05/29] fix: vt_str_strip_c with an empty character set or
 nothing left to keep

---
 src/vita/container/str.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index f8639a8..022149a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -846,6 +846,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
     // strip leading whitespace and control symbols
     while (!stop) {
+        stop = true;
         for (size_t i = 0; i < cLen; i++) {
             if (*curr == c[i]) {
                 offset++;
@@ -856,8 +857,6 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
                 break;
             }
-
-            stop = true;
         }
     }
 
@@ -866,20 +865,17 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
     // strip tailing whitespace and control symbols
     stop = false;
-    curr = p + (*len + offset - 1);
-    while (!stop) {
+    while (!stop && *len > 0) {
+        stop = true;
         for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
+            if (p[*len + offset - 1] == c[i]) {
                 (*len)--;
-                curr = p + (*len + offset - 1);
 
                 // continue looping
                 stop = false;
 
                 break;
             }
-
-            stop = true;
         }
     }
 
-- 
2.43.0


From bf38b1574e5d4a319b4b46395f6706893204453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 06/29] fix: vt_str_split stops at the end of a string that
 ends with separators

---
 src/vita/container/str.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 022149a..41a290a 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -950,7 +950,7 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
     const size_t sepLen = strlen(sep);
     const char *head = s->ptr;
     const char *current = head;
-    while (true) {
+    while (*head != '\0') {
         // find sep
         current = strstr(head, sep);
 
@@ -967,14 +967,14 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
             vt_str_set_n(tempStr, head, copyLen);
             vt_plist_push_back(p, tempStr);
             
+            // break from loop when no more sep is found
+            if (current == NULL) {
+                break;
+            }
+
             // update head
             head = current + sepLen;
         }
-
-        // break from loop when no more sep is found or we are at the end of string
-        if (current == NULL || current[sepLen] == '\0') {
-            break;
-        }
     }
 
     return p;
-- 
2.43.0


From 213dfa00681950c3b5415a9fbd3b198a798c8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 07/29] fix: vt_str_split_between looks for the right substring
 after the left one

---
 src/vita/container/str.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 41a290a..2e18636 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -993,7 +993,7 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
     }
 
     // find r - right substring
-    const char *const rsub = strstr(z, zr);
+    const char *const rsub = strstr(lsub + strlen(zl), zr);
     if (rsub == NULL) {
         return NULL;
     }
@@ -1004,18 +1004,14 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
-        ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    // append sub if there is anything between
+    const ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    if (sub_len > 0) {
         vt_str_resize(st, sub_len);
-
-        // append sub
         vt_str_append_n(st, rsub - sub_len, sub_len);
-
-        return st;
     }
 
-    return NULL;
+    return st;
 }
 
 vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t *const p) {
-- 
2.43.0


From 157504b6a8b43488f8fb9817a4b003ec20248712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 08/29] fix: vt_str_insert_after when the substring ends the
 string

---
 src/vita/container/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 2e18636..1c1aa73 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -503,7 +503,9 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
     }
 
     // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    const size_t at = idx + strlen(sub);
+    if (at < s->len) vt_str_insert(s, z, at);
+    else vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From a26da3016e6e1e080145c3cc421c6c31cd03512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 09/29] fix: sliding backwards visits the elements from last to
 first

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From e82bec081b04fb8b8ddb3cc18b02340f81e92a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 10/29] fix: vt_span_from_to accepts a range that starts at
 index 0

---
 src/vita/container/span.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vita/container/span.c b/src/vita/container/span.c
index c2a7892..6482021 100644
--- a/src/vita/container/span.c
+++ b/src/vita/container/span.c
@@ -16,8 +16,7 @@ vt_span_t vt_span_from(void *ptr, const size_t length, const size_t elsize) {
 vt_span_t vt_span_from_to(void *ptr, const size_t from_idx, const size_t to_idx, const size_t elsize) {
     // check for invalid input
     VT_DEBUG_ASSERT(ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(from_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(to_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(from_idx < to_idx, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     return (vt_span_t) {
-- 
2.43.0


From 6693ed388a6e68628c6f2551d6be98f4e45a129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 11/29] fix: vt_vec_dup and vt_plist_dup of an empty container

---
 src/vita/container/plist.c | 2 +-
 src/vita/container/vec.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dd99da8..c962748 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -42,7 +42,7 @@ vt_plist_t *vt_plist_dup(const vt_plist_t *const p, struct VitaBaseAllocatorType
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // allocate a new vt_vec_t instance
-    vt_plist_t *pdup = vt_plist_create(p->len, alloctr);
+    vt_plist_t *pdup = vt_plist_create(p->len ? p->len : 1, alloctr);
     pdup->len = p->len;
 
     // copy values
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..12c6331 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -43,7 +43,7 @@ vt_vec_t *vt_vec_dup(const vt_vec_t *const v, struct VitaBaseAllocatorType *cons
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // allocate a new vt_vec_t instance
-    vt_vec_t *vdup = vt_vec_create(v->len, v->elsize, alloctr);
+    vt_vec_t *vdup = vt_vec_create(v->len ? v->len : 1, v->elsize, alloctr);
     vdup->len = v->len;
 
     // copy values
-- 
2.43.0


From 8939f8c2fa641cf51fb67ae0775875790bb056e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:54 +0000
Subject: [PATCH 12/29] fix: shrinking an empty vector or list

---
 src/vita/container/plist.c | 11 +++++++----
 src/vita/container/vec.c   | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index c962748..1671e5d 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -87,19 +87,22 @@ void vt_plist_shrink(vt_plist_t *const p) {
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // an empty list keeps room for one element, so that it can grow again
+    const size_t n = p->len ? p->len : 1;
+
     // if length and capacity are the same, exit the function
-    if (p->len == p->capacity) {
+    if (n == p->capacity) {
         return;
     }
 
     // shrink to length
     p->ptr2 = p->alloctr 
-        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, p->len * p->elsize) 
-        : VT_REALLOC(p->ptr2, p->len * p->elsize);
+        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, n * p->elsize) 
+        : VT_REALLOC(p->ptr2, n * p->elsize);
 
     
     // update
-    p->capacity = p->len;
+    p->capacity = n;
 }
 
 void vt_plist_resize(vt_plist_t *const p, const size_t n) {
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index 12c6331..81415e8 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -73,18 +73,21 @@ void vt_vec_shrink(vt_vec_t *const v) {
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // an empty vector keeps room for one element, so that it can grow again
+    const size_t n = v->len ? v->len : 1;
+
     // if length and capacity are the same, exit the function
-    if (v->len == v->capacity) {
+    if (n == v->capacity) {
         return;
     }
 
     // shrink the array capacity to length
     v->ptr = v->alloctr 
-        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, v->len * v->elsize) 
-        : VT_REALLOC(v->ptr, v->len * v->elsize);
+        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, n * v->elsize) 
+        : VT_REALLOC(v->ptr, n * v->elsize);
 
     // update
-    v->capacity = v->len;
+    v->capacity = n;
 }
 
 void vt_vec_clear(vt_vec_t *const v) {
-- 
2.43.0


From b7a0bd99a3e8d0a367a3b829142858075b86b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 13/29] fix: vt_vec_can_findr compares values, not padding
 bytes

---
 src/vita/container/vec.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index 81415e8..b725029 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -401,9 +401,20 @@ VT_INSTANTIATE_VEC_CAN_FIND(int64_t, i64)
 VT_INSTANTIATE_VEC_CAN_FIND(uint64_t, u64)
 VT_INSTANTIATE_VEC_CAN_FIND(float, f)
 VT_INSTANTIATE_VEC_CAN_FIND(double, d)
-VT_INSTANTIATE_VEC_CAN_FIND(real, r)
 #undef VT_INSTANTIATE_VEC_CAN_FIND
 
+// the padding bytes of a real are unspecified, so compare values instead of memory
+int64_t vt_vec_can_findr(const vt_vec_t *const v, const real val) {
+    const size_t len = vt_vec_len(v);
+    for (size_t i = 0; i < len; i++) {
+        if (vt_vec_getr(v, i) == val) {
+            return i;
+        }
+    }
+
+    return -1;
+}
+
 void *vt_vec_slide_front(vt_vec_t *const v) {
     // check for invalid input
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-- 
2.43.0


From 50a90f6cb78cb0a93236c5d56f182a732df7193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 14/29] fix: vt_math_gcd and vt_math_lcm of zero

Both divided by zero when an argument was 0; gcd(a, 0) is a and lcm(a, 0) is 0.
---
 src/vita/math/math.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..1a6f5ca 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -102,16 +102,16 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
     high_val = a >= b ? a : b;
 
     // find gcd
-    do {
+    while (low_val != 0) {
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
     return high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
-    return a / vt_math_gcd(a, b) * b;
+    return (a == 0 || b == 0) ? 0 : a / vt_math_gcd(a, b) * b;
 }
 
-- 
2.43.0


From 2e73658f16ae1fec890242e47791b277100f2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 15/29] fix: vt_conv_str_to_* accept negative numbers

Conversions to signed and floating point types returned 0 for every negative
number, so that a value written by vt_conv_*_to_str could not be read back.
---
 src/vita/core/conv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/core/conv.c b/src/vita/core/conv.c
index 24d8390..31a711e 100644
--- a/src/vita/core/conv.c
+++ b/src/vita/core/conv.c
@@ -8,7 +8,8 @@ static real vt_strtold(const char *z, char **zend, int base) { (void)base; retur
     T vt_conv_str_to_##t(const char *const z) {                                                     \
         VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));    \
                                                                                                     \
-        const vt_str_t s = vt_str_create_static(z);                                                 \
+        /* a signed number may start with '-' */                                                    \
+        const vt_str_t s = vt_str_create_static(((T)-1 < (T)1 && z[0] == '-' && z[1]) ? z + 1 : z); \
         if (!vt_str_is_numeric(&s)) {                                                               \
             VT_DEBUG_PRINTF(                                                                        \
                 "%s: Must be digits only, not \"<%s>\".\n",                                         \
-- 
2.43.0


From 15255c4571615035ba0936b28cdf1190a8498d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 16/29] fix: leap years follow the Gregorian rule

1900, 2100, 2200 and 2300 were reported as leap years.
---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..3cd175f 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0));
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From af8e7f88d74bdd1d2b0e9eaeaba66c57ac34d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 17/29] fix: week day and year day of dates before 1970

mktime returns a negative number for those, which was taken for a failure, and
the message printed then read an argument that was not passed.
---
 src/vita/time/datetime.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 3cd175f..bb0862d 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,9 +151,10 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_yday = -1;
+    mktime(&stm);
+    if (stm.tm_yday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
         return -1;
     }
 
@@ -162,9 +163,10 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1;
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
         return -1;
     }
 
-- 
2.43.0


From 510146b3c75c5009954b4b6ed4412da19736df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 18/29] fix: an invalid year stands for 1900, not 3800

tm_year counts from 1900, so the documented default is 0.
---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index bb0862d..c419a14 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -327,7 +327,7 @@ static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm) {
 */
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
     return (struct tm) {
-        .tm_year = vdt.year ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : VT_DATETIME_MIN_YEAR_RANGE,
+        .tm_year = vdt.year > 0 ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : 0,
         .tm_mon = vdt.month - 1,
         .tm_mday = vdt.month_day,
         .tm_hour = vdt.hour, 
-- 
2.43.0


From 3913415af3b0e07a62f03bd22b2e950076da2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 19/29] fix: timestamp validation checks the separators

Separators were skipped, so that a text shorter than the format was read past
its end, and texts with wrong separators were accepted and then misread.
---
 src/vita/time/datetime.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index c419a14..27c010b 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -396,7 +396,13 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+        // the text may continue after the timestamp
+        if (fmt[i] == '\0') {
+            break;
+        }
+
+        const bool is_digit_expected = fmt[i] != 'T' && isalpha(fmt[i]);
+        if (is_digit_expected ? !isdigit(timebuf[i]) : timebuf[i] != fmt[i]) {
             return false;
         }
     }
-- 
2.43.0


From 00bf2108a951b68799c4ef427947f6d4b1ee431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 20/29] fix: week day and year day of a parsed timestamp

They were always Sunday and 1, which the pretty text then showed.
---
 src/vita/time/datetime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 27c010b..569b0bc 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -378,7 +378,12 @@ static struct VitaDateTime vt_datetime_from_text_fmt(const char *timebuf, const
     stm.tm_mon -= 1;
     stm.tm_isdst = 0;
 
-    return vt_datetime_tm_to_vdt(stm);
+    // the text has no week day and year day
+    struct VitaDateTime vdt = vt_datetime_tm_to_vdt(stm);
+    vdt.week_day = vt_datetime_find_week_day(vdt);
+    vdt.year_day = vt_datetime_find_year_day(vdt);
+
+    return vdt;
 }
 
 /** Checks if timestamp is valid format
-- 
2.43.0


From a0a2c299bf11cc690d8a602668ab0ea6b9e0d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:16 +0000
Subject: [PATCH 21/29] fix: basename of a path whose only separator is its
 first or last character

---
 src/vita/system/path.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..ba5a373 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -234,11 +234,11 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         : s;
 
     // find the basename
-    const char *ptr = NULL;
+    const char *ptr = z;
     const size_t zLen = strlen(z);
     for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+        if (z[i-1] == VT_PATH_SEPARATOR[0]) {
+            ptr = &z[i];
             break;
         }
     }
@@ -249,8 +249,8 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         vt_str_reserve(st, zLen - sLen);
     }
 
-    // save the basename
-    if (ptr) {
+    // save the basename, unless the string is the basename already
+    if (ptr != st->ptr) {
         vt_str_clear(st);
         vt_str_append(st, ptr);
     }
-- 
2.43.0


From f01b18ca1c8bf11b4016a144261a4115bfa8005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:16 +0000
Subject: [PATCH 22/29] fix: expanding a path that is only a tilda

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ba5a373..89ca83a 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -491,8 +491,8 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
     }
 
     // expand tilda
-    vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);                  // insert HOME path in front of tilda
+    vt_str_remove(s_tilda, (size_t)tilda_pos + strlen(z_homepath), 1);      // remove tilda
 
     return s_tilda;
 }
-- 
2.43.0


From 24e1e2f5fbcc139b2f048cf39079945ed05f9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:16 +0000
Subject: [PATCH 23/29] fix: terminate the path of the executable

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 89ca83a..6ced39a 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -522,6 +522,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[spath->len] = '\0';
 
     return spath;
 }
-- 
2.43.0


From ed8b2e6037c3fc661e6dd52fdeaa76ac2968c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:16 +0000
Subject: [PATCH 24/29] fix: vt_path_pop of an empty path

---
 src/vita/system/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 6ced39a..388029d 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -536,6 +536,9 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
+    if (len == 0) {
+        return;
+    }
     if (z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
-- 
2.43.0


From 1874bd76e5f8339aca046f0781f61cc59c847b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:16 +0000
Subject: [PATCH 25/29] fix: vt_path_get_cwd returns NULL if there is no
 current directory

---
 src/vita/system/path.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 388029d..c1746fa 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,13 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    const char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    return vt_str_take_ownership(z, alloctr);
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From 5ea2db2b3448101b463aeae4e2564bc5e8bd3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:55 +0000
Subject: [PATCH 26/29] fix: reading an empty file

---
 src/vita/system/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..83d29fa 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -26,7 +26,7 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -74,7 +74,7 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From d531c23f69b82c5623d2659bffe76a356864dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:55 +0000
Subject: [PATCH 27/29] fix: file writing reports write errors

---
 src/vita/system/fileio.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 83d29fa..b4d6a36 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,13 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +234,16 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    status = (fprintf(fp, "\n") >= 0) && status;
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +261,18 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
     if (add_ln) {
-        fprintf(fp, "\n");
+        status = (fprintf(fp, "\n") >= 0) && status;
     }
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From 8a460e34b4579b787135092116a55c713e2161f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:30 +0000
Subject: [PATCH 28/29] fix: do not close stderr if the debug file cannot be
 opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From 28f68f978361c86688c50754853e8bcdf25891b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:30 +0000
Subject: [PATCH 29/29] fix: log to stderr if the log file cannot be opened

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..99b6d27 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr;
             }
 
             // logging data
-- 
2.43.0

