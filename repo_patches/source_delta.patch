From ee07b6551dfb1dbf880b7ee7679c1a996959e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 01/39] fix: vt_math_gcd/lcm divide by zero when an operand is
 0

---
 src/vita/math/math.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..b06b2fd 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -102,16 +102,21 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
     high_val = a >= b ? a : b;
 
     // find gcd
-    do {
+    while (low_val != 0) {
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
     return high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
+    // lcm of anything and 0 is 0
+    if (a == 0 || b == 0) {
+        return 0;
+    }
+
     return a / vt_math_gcd(a, b) * b;
 }
 
-- 
2.43.0


From d32bf4ddf7c5285e7bbb88edb9f576168b3debb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 02/39] fix: vt_math_is_close with a negative rtol uses
 __FLT_EPSILON__ as documented

---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index b06b2fd..568322e 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -93,7 +93,7 @@ float vt_math_random_f32_normal(const float mu, const float std) {
 }
 
 bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
-    return fabs(lhs - rhs) < fabs(rtol);
+    return fabs(lhs - rhs) < (rtol < 0 ? __FLT_EPSILON__ : rtol);
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-- 
2.43.0


From d0db1db5ddd7ff2491d86d0fd9ce44563a472862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:32 +0000
Subject: [PATCH 03/39] fix: vt_math_random_f32/_uniform may return their
 excluded upper bound

---
 src/vita/math/math.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 568322e..2b6dbbf 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -58,12 +58,18 @@ uint64_t vt_math_random_u64(void) {
 
 float vt_math_random_f32(const uint32_t bound) {
     const float randval = sin(vt_math_random_u64());
-    return bound * fabs(randval);
+    const float val = bound * fabs(randval);
+
+    // |sin| may round to 1 (and `bound` may round up): stay in [0; ubound)
+    return (val < (double)bound || bound == 0) ? val : nextafterf((float)bound, 0);
 }
 
 float vt_math_random_f32_uniform(const float lbound, const float ubound) {
     const float randval = sin(vt_math_random_u64() * vt_math_random_u64());
-    return lbound + (ubound - lbound) * fabs(randval);
+    const float val = lbound + ((double)ubound - lbound) * fabs(randval);
+
+    // |sin| may round to 1: stay in [lbound; ubound)
+    return (val < ubound) ? val : nextafterf(ubound, lbound);
 }
 
 float vt_math_random_f32_normal(const float mu, const float std) {
-- 
2.43.0


From 1234ae42e91f5e8834039cfe6bd649b1f6bffa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:59 +0000
Subject: [PATCH 04/39] fix: slide_back of arrays and plists indexes out of
 bounds and skips elements

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From c50443a96614e2001ac1424a6c9d1a0477754f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:59 +0000
Subject: [PATCH 05/39] fix: shrinking or duplicating an empty vec/plist exits
 the program

---
 src/vita/container/plist.c | 17 ++++++++++-------
 src/vita/container/vec.c   | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dd99da8..d5aefca 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -41,8 +41,8 @@ vt_plist_t *vt_plist_dup(const vt_plist_t *const p, struct VitaBaseAllocatorType
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    // allocate a new vt_vec_t instance
-    vt_plist_t *pdup = vt_plist_create(p->len, alloctr);
+    // allocate a new vt_plist_t instance (an empty one keeps room for one element)
+    vt_plist_t *pdup = vt_plist_create(p->len ? p->len : 1, alloctr);
     pdup->len = p->len;
 
     // copy values
@@ -87,19 +87,22 @@ void vt_plist_shrink(vt_plist_t *const p) {
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    // if length and capacity are the same, exit the function
-    if (p->len == p->capacity) {
+    // an empty vt_plist_t keeps room for one element
+    const size_t capacity = p->len ? p->len : 1;
+
+    // if there is nothing to shrink, exit the function
+    if (capacity == p->capacity) {
         return;
     }
 
     // shrink to length
     p->ptr2 = p->alloctr 
-        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, p->len * p->elsize) 
-        : VT_REALLOC(p->ptr2, p->len * p->elsize);
+        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, capacity * p->elsize) 
+        : VT_REALLOC(p->ptr2, capacity * p->elsize);
 
     
     // update
-    p->capacity = p->len;
+    p->capacity = capacity;
 }
 
 void vt_plist_resize(vt_plist_t *const p, const size_t n) {
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..e4136e3 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -42,8 +42,8 @@ vt_vec_t *vt_vec_dup(const vt_vec_t *const v, struct VitaBaseAllocatorType *cons
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    // allocate a new vt_vec_t instance
-    vt_vec_t *vdup = vt_vec_create(v->len, v->elsize, alloctr);
+    // allocate a new vt_vec_t instance (an empty one keeps room for one element)
+    vt_vec_t *vdup = vt_vec_create(v->len ? v->len : 1, v->elsize, alloctr);
     vdup->len = v->len;
 
     // copy values
@@ -73,18 +73,21 @@ void vt_vec_shrink(vt_vec_t *const v) {
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    // if length and capacity are the same, exit the function
-    if (v->len == v->capacity) {
+    // an empty vt_vec_t keeps room for one element
+    const size_t capacity = v->len ? v->len : 1;
+
+    // if there is nothing to shrink, exit the function
+    if (capacity == v->capacity) {
         return;
     }
 
     // shrink the array capacity to length
     v->ptr = v->alloctr 
-        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, v->len * v->elsize) 
-        : VT_REALLOC(v->ptr, v->len * v->elsize);
+        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, capacity * v->elsize) 
+        : VT_REALLOC(v->ptr, capacity * v->elsize);
 
     // update
-    v->capacity = v->len;
+    v->capacity = capacity;
 }
 
 void vt_vec_clear(vt_vec_t *const v) {
-- 
2.43.0


From 8e4d32bc5781f248c3d67e09282c4f7bfb9efd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:59 +0000
Subject: [PATCH 06/39] fix: vt_span_from_to rejects ranges starting at 0 and
 accepts reversed ones

---
 src/vita/container/span.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vita/container/span.c b/src/vita/container/span.c
index c2a7892..6482021 100644
--- a/src/vita/container/span.c
+++ b/src/vita/container/span.c
@@ -16,8 +16,7 @@ vt_span_t vt_span_from(void *ptr, const size_t length, const size_t elsize) {
 vt_span_t vt_span_from_to(void *ptr, const size_t from_idx, const size_t to_idx, const size_t elsize) {
     // check for invalid input
     VT_DEBUG_ASSERT(ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(from_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(to_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(from_idx < to_idx, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     return (vt_span_t) {
-- 
2.43.0


From 29ebc31db858fbbaf56a2318485b7d0d8b38e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 07/39] fix: creating, duplicating, setting or appending an
 empty string exits the program

---
 src/vita/container/str.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..5419cd7 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -22,8 +22,13 @@ vt_str_t *vt_str_create(const char *const z, struct VitaBaseAllocatorType *const
     // check for invalid input
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // create str
+    // an empty string has nothing to copy
     const size_t zLen = strlen(z);
+    if (!zLen) {
+        return vt_str_create_capacity(1, alloctr);
+    }
+
+    // create str
     vt_str_t *s = vt_str_create_len(zLen, alloctr);
 
     // set z to str
@@ -233,7 +238,9 @@ void vt_str_set(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    vt_str_set_n(s, z, strlen(z));
+    const size_t zLen = strlen(z);
+    if (zLen) vt_str_set_n(s, z, zLen);
+    else vt_str_clear(s);
 }
 
 enum VitaStatus vt_str_set_at(vt_str_t *const s, const char *z, const size_t at) {
@@ -263,7 +270,7 @@ enum VitaStatus vt_str_set_at(vt_str_t *const s, const char *z, const size_t at)
     vt_str_remove(s, at, s->len - at);
 
     // append new string
-    vt_str_append_n(s, z, zLen);
+    vt_str_append(s, z);
 
     return VT_STATUS_OPERATION_SUCCESS;
 }
@@ -318,7 +325,11 @@ void vt_str_append(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    vt_str_append_n(s, z, strlen(z));
+    // nothing to append
+    const size_t zLen = strlen(z);
+    if (!zLen) return;
+
+    vt_str_append_n(s, z, zLen);
 }
 
 enum VitaStatus vt_str_appendf(vt_str_t *const s, const char *const fmt, ...) {
-- 
2.43.0


From 4518e8d38e3eff7196588a336841560401b454be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 08/39] fix: vt_str_insert_after exits when the substring ends
 the string

---
 src/vita/container/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 5419cd7..85d5398 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -513,8 +513,10 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
         return;
     }
 
-    // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    // insert z (if the substring is at the very end, append)
+    const size_t at = idx + strlen(sub);
+    if (at < vt_str_len(s)) vt_str_insert(s, z, at);
+    else vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From fa056194c343df649ead94e9bd108690c38ada2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 09/39] fix: vt_str_insert_n accepts positions beyond the
 string and overruns memory

---
 src/vita/container/str.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 85d5398..a853c25 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -463,6 +463,13 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(
+        at <= s->len,
+        "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
+        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
+        at, 
+        s->len
+    );
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
-- 
2.43.0


From cb771f59d03e3279ad74c95c00a4122742eba03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 10/39] fix: vt_str_remove_last removes at the wrong position
 and crashes if not found

---
 src/vita/container/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index a853c25..ec7f318 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -593,7 +593,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     const size_t zLen = strlen(z);
     char *p = strstr(s->ptr, z);
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -603,7 +603,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     }
 
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = lastInstance - (char*)(s->ptr);
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
-- 
2.43.0


From c742472da756ad96b2c7f4ec914bb43e7ab9f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 11/39] fix: vt_str_replace_last crashes if the substring is
 not found

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ec7f318..92d4487 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -739,7 +739,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From 2ed021873cae9d13199a33f6c87e626e59f23133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 12/39] fix: vt_str_strip* read out of bounds when every
 character is stripped; strip_c("") never ends

---
 src/vita/container/str.c | 57 ++++++++++------------------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 92d4487..11a19d6 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -798,7 +798,7 @@ void vt_str_strip(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr)) {
+    while (offset < *len && isspace(*curr)) {
         offset++;
         curr = p + offset;
     }
@@ -807,10 +807,10 @@ void vt_str_strip(vt_str_t *const s) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    curr = p + offset + *len;
+    while (*len > 0 && isspace(curr[-1])) {
         (*len)--;
-        curr = p + (*len + offset - 1);
+        curr--;
     }
 
     // move string to the begining
@@ -832,7 +832,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (offset < *len && (isspace(*curr) || ispunct(*curr))) {
         offset++;
         curr = p + offset;
     }
@@ -841,10 +841,10 @@ void vt_str_strip_punct(vt_str_t *const s) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    curr = p + offset + *len;
+    while (*len > 0 && (isspace(curr[-1]) || ispunct(curr[-1]))) {
         (*len)--;
-        curr = p + (*len + offset - 1);
+        curr--;
     }
 
     // move string to the begining
@@ -861,50 +861,21 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // prepare
-    bool stop = false;
     size_t offset = 0;
-    size_t cLen = strlen(c);
     size_t *len = &s->len;
     const char *p = s->ptr;
-    const char *curr = p + offset;
-
-    // strip leading whitespace and control symbols
-    while (!stop) {
-        for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
-                offset++;
-                curr = p + offset;
 
-                // continue looping
-                stop = false;
-
-                break;
-            }
-
-            stop = true;
-        }
+    // strip leading characters
+    while (offset < *len && strchr(c, p[offset]) != NULL) {
+        offset++;
     }
 
     // update length
     *len -= offset;
 
-    // strip tailing whitespace and control symbols
-    stop = false;
-    curr = p + (*len + offset - 1);
-    while (!stop) {
-        for (size_t i = 0; i < cLen; i++) {
-            if (*curr == c[i]) {
-                (*len)--;
-                curr = p + (*len + offset - 1);
-
-                // continue looping
-                stop = false;
-
-                break;
-            }
-
-            stop = true;
-        }
+    // strip tailing characters
+    while (*len > 0 && strchr(c, p[offset + *len - 1]) != NULL) {
+        (*len)--;
     }
 
     // move string to the begining
-- 
2.43.0


From 242cfdab2b30357f72cdd09c0abb0e0046a7e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 13/39] fix: vt_str_split reads past the string on repeated
 trailing separators

---
 src/vita/container/str.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 11a19d6..d32d55f 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -956,6 +956,7 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
         // count copy length
         const size_t copyLen = strlen(head) - (current == NULL ? 0 : strlen(current));
         if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
+            if (current == NULL) break; // end of string
             head += sepLen;
             continue;
         } else {
@@ -965,15 +966,15 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
             // set the value and push it to the list
             vt_str_set_n(tempStr, head, copyLen);
             vt_plist_push_back(p, tempStr);
-            
-            // update head
-            head = current + sepLen;
         }
 
         // break from loop when no more sep is found or we are at the end of string
         if (current == NULL || current[sepLen] == '\0') {
             break;
         }
+
+        // update head
+        head = current + sepLen;
     }
 
     return p;
-- 
2.43.0


From 56f04841b464d65e3861d82266d66357e363d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 14/39] fix: vt_str_split_between exits on overlapping or
 adjacent markers and leaks when there is no match

---
 src/vita/container/str.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index d32d55f..9b41173 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -998,24 +998,25 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         return NULL;
     }
 
+    // check that zr comes after zl
+    const ptrdiff_t sub_len = rsub - lsub - (ptrdiff_t)strlen(zl);
+    if (sub_len < 0) {
+        return NULL;
+    }
+
     // prepare
     vt_str_t *st = (s == NULL) 
         ? vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, NULL)
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
-        ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    // append sub
+    if (sub_len > 0) {
         vt_str_resize(st, sub_len);
-
-        // append sub
         vt_str_append_n(st, rsub - sub_len, sub_len);
-
-        return st;
     }
 
-    return NULL;
+    return st;
 }
 
 vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t *const p) {
-- 
2.43.0


From b2198bde8d5e8d63cb90604a69e7a23906195b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 15/39] fix: appending to a string view writes past its buffer
 (capacity was 0)

---
 src/vita/container/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 9b41173..6aaa3c2 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -11,6 +11,7 @@ vt_str_t vt_str_create_static(const char *const z) {
     vt_str_t s = {
         .ptr = (void*)z,
         .len = strlen(z),
+        .capacity = strlen(z),
         .elsize = sizeof(char),
         .is_view = true,
     };
-- 
2.43.0


From 2c104a5768f0feeb311bba5fd59bda82847a8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 16/39] fix: vt_datetime_is_leap_year treats every century as a
 leap year

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..3cd175f 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0));
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From 893e077aaddf85d0a1b6ecf2844f50e925d80ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 17/39] fix: vt_datetime_find_year_day/week_day fail for dates
 before 1970 and print a missing argument

---
 src/vita/time/datetime.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 3cd175f..6a34028 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,9 +151,11 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_hour = 12;   // the date alone matters: stay clear of DST changes
+    stm.tm_wday = -1;   // mktime returns -1 both upon failure and for a second before 1970
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
         return -1;
     }
 
@@ -162,9 +164,11 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_hour = 12;   // the date alone matters: stay clear of DST changes
+    stm.tm_wday = -1;   // mktime returns -1 both upon failure and for a second before 1970
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
         return -1;
     }
 
-- 
2.43.0


From 8487ef6090bd148c7a2573858bf88a1e6a0c5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 18/39] fix: datetime text validators read past short text and
 accept wrong separators

---
 src/vita/time/datetime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 6a34028..2fc64db 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -397,8 +397,12 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(timebuf != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+    for (size_t i = 0; i < len && fmt[i] != '\0'; i++) {
+        if (fmt[i] != 'T' && isalpha(fmt[i])) {
+            // must be a digit
+            if (!isdigit(timebuf[i])) return false;
+        } else if (timebuf[i] != fmt[i]) {
+            // must be the same separator
             return false;
         }
     }
-- 
2.43.0


From ae2cac4020e49ce7755a5319da1e466077430061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 19/39] fix: vt_datetime_from_text* always report Sunday,
 January 1st as week_day and year_day

---
 src/vita/time/datetime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 2fc64db..1a70a01 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -378,9 +378,13 @@ static struct VitaDateTime vt_datetime_from_text_fmt(const char *timebuf, const
     // adjust
     stm.tm_year -= VT_DATETIME_MIN_YEAR_RANGE;
     stm.tm_mon -= 1;
-    stm.tm_isdst = 0;
 
-    return vt_datetime_tm_to_vdt(stm);
+    // fill in the rest from date
+    struct VitaDateTime vdt = vt_datetime_tm_to_vdt(stm);
+    vdt.week_day = vt_datetime_find_week_day(vdt);
+    vdt.year_day = vt_datetime_find_year_day(vdt);
+
+    return vdt;
 }
 
 /** Checks if timestamp is valid format
-- 
2.43.0


From c695b91bc2149dfcd04b395c25e01d171cba8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 20/39] fix: vt_datetime_to_secs and vt_datetime_op are off by
 an hour during daylight saving time

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 1a70a01..5754c0e 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -337,7 +337,7 @@ static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
         .tm_sec = vdt.second,
         .tm_wday = (vdt.week_day == 7) ? 0 : vdt.week_day,
         .tm_yday = vdt.year_day - 1,
-        .tm_isdst = 0
+        .tm_isdst = -1 // let mktime find out
     };
 }
 
-- 
2.43.0


From c89b4db4f9caf8c75502382f0f80eb93f932b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 21/39] fix: debug output closes stderr when the redirect file
 cannot be opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From 6b12ce4cce1d6ea1ea7ec4ad20a5a070a7fa3656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 22/39] fix: vt_log drops the message and does not exit on
 fatal/assert if its file cannot be opened

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..99b6d27 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr;
             }
 
             // logging data
-- 
2.43.0


From 475cc03ae220d26689c15ca4d1a82087d441c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 23/39] fix: vt_argopt_parse overflows or leaves stale text in
 an already set CSTR option

---
 src/vita/util/argopt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..96acf8c 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
-                    // copy values
-                    memcpy(*zvalue, value, len);
+                    // copy values (including '\0')
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0


From 6088b8eaf13390d1b7580c2bc67407f6d8b0a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 24/39] fix: reading an empty file exits the program instead of
 returning an empty string

---
 src/vita/system/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..e827996 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -26,7 +26,7 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -74,7 +74,7 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From 3e84451685263b8d88bd5e0c72719db0bcbb9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 25/39] fix: vt_file_write* report success when the data could
 not be stored

---
 src/vita/system/fileio.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index e827996..a0f564f 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,13 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +234,16 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    status = fprintf(fp, "\n") >= 0 && status;
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +261,18 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
     if (add_ln) {
-        fprintf(fp, "\n");
+        status = fprintf(fp, "\n") >= 0 && status;
     }
     
     // close file
-    fclose(fp); 
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From 7e5260898f43bf982dce77e0570284a90c2d5d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 26/39] fix: vt_path_get_cwd hands the allocator memory it does
 not own and exits on failure

---
 src/vita/system/path.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..c75dbce 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,17 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s: Failed to get current working directory!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    // copy it, so that the allocator knows about the memory
+    vt_str_t *const s = vt_str_create(z, alloctr);
+    free(z);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From 98aaa0f3489ad07c8dce1be12731c8bea470e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 27/39] fix: vt_path_basename returns garbage for entries of
 the root directory and exits on empty text

---
 src/vita/system/path.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index c75dbce..b64f439 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -233,8 +233,7 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // check if path separator is present
-    vt_str_t sz = vt_str_create_static(z);
-    if (!vt_str_can_find(&sz, VT_PATH_SEPARATOR)) {
+    if (strchr(z, VT_PATH_SEPARATOR[0]) == NULL) {
         return s;
     }
 
@@ -244,11 +243,11 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         : s;
 
     // find the basename
-    const char *ptr = NULL;
+    const char *ptr = z;
     const size_t zLen = strlen(z);
     for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+        if (z[i-1] == VT_PATH_SEPARATOR[0]) {
+            ptr = &z[i];
             break;
         }
     }
@@ -260,7 +259,7 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
     }
 
     // save the basename
-    if (ptr) {
+    if (ptr != st->ptr) {
         vt_str_clear(st);
         vt_str_append(st, ptr);
     }
-- 
2.43.0


From f6afb9ccac4c31b50a852081378d9ba845b4c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 28/39] fix: vt_path_mkdir and vt_path_mkdir_parents report
 success without a directory; mkdir_parents fails without a separator

---
 src/vita/system/path.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index b64f439..356fffa 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -273,7 +273,7 @@ bool vt_path_mkdir(const char *const z) {
 
     // if directory exists, don't do anything
     if (vt_path_exists(z)) {
-        return true;
+        return vt_path_is_dir(z);
     }
 
     int status = mkdir(z, VT_DIR_PERMISSIONS);
@@ -297,7 +297,7 @@ bool vt_path_mkdir_parents(const char *const z) {
 
     // if directory exists, don't do anything
     if (vt_path_exists(z)) {
-        return true;
+        return vt_path_is_dir(z);
     }
 
     // create variables
@@ -331,10 +331,8 @@ bool vt_path_mkdir_parents(const char *const z) {
 
     // split string into directories
     dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
-    if (dir_list == NULL) {
-        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
-
-        status = false;
+    if (dir_list == NULL) { // no parents
+        status = vt_path_mkdir(z);
         goto vt_label_path_mkdir_parents__;
     }
 
@@ -349,7 +347,10 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        if (!vt_path_mkdir(vt_str_z(sfull))) {
+            status = false;
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From 47b3e8bbf050210a8bd7302add5b7b5e02676e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 29/39] fix: recursive listing and removal follow symbolic
 links out of the directory and fail on dangling ones

---
 src/vita/system/path.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 356fffa..487d9c0 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,7 @@
 #include "vita/system/path.h"
 
+static bool vt_path_is_link(const char *const z);
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -187,9 +189,9 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, VT_PATH_SEPARATOR);
         vt_str_append(st, dirtree->d_name);
 
-        // check if current path is a directory; if false, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
-            break;
+        // check if current path is a directory (but not a link to one)
+        if (vt_path_is_dir(vt_str_z(st)) && !vt_path_is_link(vt_str_z(st))) {
+            vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles);
         }
 
         // save directory name
@@ -419,14 +421,14 @@ bool vt_path_rmdir_recurse(const char *const z) {
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
         // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        status = vt_path_is_dir(vt_str_z(path)) && !vt_path_is_link(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
 
         // check status
         if (!status) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
@@ -449,7 +451,7 @@ bool vt_path_remove(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // check if path exists
-    if (!vt_path_exists(z)) {
+    if (!vt_path_exists(z) && !vt_path_is_link(z)) {
         VT_DEBUG_PRINTF("%s: Path does not exist <%s>\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
         return false;
     }
@@ -589,5 +591,18 @@ void vt_path_validate(char *const z) {
     }
 }
 
+// -------------------------- PRIVATE -------------------------- //
 
-
+/** Checks if path is a symbolic link
+    @param z path
+    @returns `true` if it is a link, its target need not exist
+*/
+static bool vt_path_is_link(const char *const z) {
+    #if defined(_WIN32) || defined(_WIN64)
+        (void)z;
+        return false;
+    #else
+        struct stat info;
+        return (lstat(z, &info) == 0 && S_ISLNK(info.st_mode));
+    #endif
+}
-- 
2.43.0


From c7cc668556734fcfb6ad87aeab0290b9d048c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 30/39] fix: vt_path_expand_tilda("~") exits the program

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 487d9c0..750b48b 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -503,8 +503,8 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
     }
 
     // expand tilda
-    vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);                   // insert HOME path before tilda
+    vt_str_remove(s_tilda, (size_t)tilda_pos + strlen(z_homepath), 1);       // remove tilda
 
     return s_tilda;
 }
-- 
2.43.0


From b3744321f8bbfc1deabde841ddb32f58c284ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 31/39] fix: vt_path_get_this_exe_location returns text without
 a terminator

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 750b48b..53b75ae 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -534,6 +534,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[pathLen] = '\0';
 
     return spath;
 }
-- 
2.43.0


From 3352a4285b27e6d4907cc8788f4351fb09cb1eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 32/39] fix: vt_path_pop reads and writes before an empty path

---
 src/vita/system/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 53b75ae..1e869f5 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -548,6 +548,9 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
+    if (len == 0) {
+        return;
+    }
     if (z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
-- 
2.43.0


From 0f108053a528f14edfc3e72b73dde6fc38df3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:49 +0000
Subject: [PATCH 33/39] fix: failing to start a server or client leaks the
 socket descriptor

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From 54aac39befcbb1babf803bb01b87b7c6a37d1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 34/39] fix: vt_path_mkdir_parents exits the program on empty
 text

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 1e869f5..ffcd9a5 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -332,7 +332,7 @@ bool vt_path_mkdir_parents(const char *const z) {
     }
 
     // split string into directories
-    dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
+    dir_list = vt_str_len(s) ? vt_str_split(NULL, s, VT_PATH_SEPARATOR) : NULL;
     if (dir_list == NULL) { // no parents
         status = vt_path_mkdir(z);
         goto vt_label_path_mkdir_parents__;
-- 
2.43.0


From 4168d8eaf632ea209ad182b23809ecca4bf78700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:06 +0000
Subject: [PATCH 35/39] fix: vt_vec_can_findr compares padding bytes and misses
 values that are present

---
 src/vita/container/vec.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index e4136e3..585d77f 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -401,9 +401,20 @@ VT_INSTANTIATE_VEC_CAN_FIND(int64_t, i64)
 VT_INSTANTIATE_VEC_CAN_FIND(uint64_t, u64)
 VT_INSTANTIATE_VEC_CAN_FIND(float, f)
 VT_INSTANTIATE_VEC_CAN_FIND(double, d)
-VT_INSTANTIATE_VEC_CAN_FIND(real, r)
 #undef VT_INSTANTIATE_VEC_CAN_FIND
 
+int64_t vt_vec_can_findr(const vt_vec_t *const v, const real val) {
+    // real may contain padding bytes, so compare by value
+    const size_t len = vt_vec_len(v);
+    for (size_t i = 0; i < len; i++) {
+        if (vt_vec_getr(v, i) == val) {
+            return i;
+        }
+    }
+
+    return -1;
+}
+
 void *vt_vec_slide_front(vt_vec_t *const v) {
     // check for invalid input
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-- 
2.43.0


From 5d0485c7a2d45845921502eec2d4af4e3dce0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:55 +0000
Subject: [PATCH 36/39] fix: vt_math_gcd crashes for INT64_MIN and -1

---
 src/vita/math/math.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 2b6dbbf..9c1fe4c 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -109,6 +109,11 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
 
     // find gcd
     while (low_val != 0) {
+        // -1 divides everything (and INT64_MIN % -1 overflows)
+        if (low_val == -1) {
+            return 1;
+        }
+
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-- 
2.43.0


From e7e293b3c83143a91f201cf93901057cab682ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:41 +0000
Subject: [PATCH 37/39] fix: vt_path_dir_free leaks the entries a half finished
 slide has passed

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ffcd9a5..3f1453a 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -221,6 +221,7 @@ void vt_path_dir_free(vt_plist_t *p) {
     // check if list is not empty
     if (vt_plist_len(p)) {
         vt_str_t *item = NULL;
+        vt_plist_slide_reset(p); // start from the first item, the caller may have stopped halfway
         while((item = vt_plist_slide_front(p)) != NULL) {
             vt_str_destroy(item);
         }
-- 
2.43.0


From e19ec221613c6dae99abbb5441d6b8404058866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:33 +0000
Subject: [PATCH 38/39] fix: a timed receive on a failed socket reports a
 timeout instead of the error

---
 src/vita/network/sockets.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 199ac57..a0538ff 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -218,8 +218,8 @@ int32_t vt_socket_receive_timed(const vt_socket_t sock_fd, char *data_buf, const
     const int32_t poll_ret = vt_socket_poll(&pfd, 1, timeout);
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
-    // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    // receive data (or the pending error)
+    if (poll_ret > 0) {
         return vt_socket_receive(sock_fd, data_buf, data_len);
     }
 
@@ -237,8 +237,8 @@ int32_t vt_socket_receive_timed_from(const vt_socket_t sock_fd, struct VitaSocke
     const int32_t poll_ret = vt_socket_poll(&pfd, 1, timeout);
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
-    // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    // receive data (or the pending error)
+    if (poll_ret > 0) {
         return vt_socket_receive_from(sock_fd, address, data_buf, data_len);
     }
 
-- 
2.43.0


From 7623fb0345ae6c7290a44e5d7ccf8ee24e854391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:43 +0000
Subject: [PATCH 39/39] fix: sending to a peer that closed ends the program
 instead of returning an error

---
 src/vita/network/sockets.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a0538ff..ac78208 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -1,5 +1,12 @@
 #include "vita/network/sockets.h"
 
+// report a closed peer through the return value, instead of ending the program with SIGPIPE
+#if defined(MSG_NOSIGNAL)
+    #define VT_SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+    #define VT_SOCKET_SEND_FLAGS 0
+#endif
+
 bool vt_socket_init(void) {
     #if defined(_WIN32) || defined(_WIN64)
         WSADATA wsa;
@@ -130,7 +137,7 @@ bool vt_socket_close(const vt_socket_t sock_fd) {
 
 int32_t vt_socket_send(const vt_socket_t sock_fd, const char *const data_buf, const size_t data_len) {
     // send data
-    const int32_t size_sent = send(sock_fd, data_buf, data_len, 0);
+    const int32_t size_sent = send(sock_fd, data_buf, data_len, VT_SOCKET_SEND_FLAGS);
 
     // check for errors
     if (size_sent < 0) {
@@ -149,7 +156,7 @@ int32_t vt_socket_send_to(const vt_socket_t sock_fd, const struct VitaSocketAddr
     dst_addr.sin_port = address.port;
 
     // send data
-    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, 0, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
+    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, VT_SOCKET_SEND_FLAGS, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
     
     // check for errors
     if (size_sent < 0) {
-- 
2.43.0

