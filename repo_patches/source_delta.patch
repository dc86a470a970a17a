From 8a385bbf3f6e5aad7f28e81b0abbccb1512083b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 01/35] fix: tm: loadstore copies from the load to the store
 address

tm_vmem_tx_ldst() copied the store page's content into the load page and
ignored that both regions can cross block boundaries at different
positions. Copy in the right direction and advance both addresses by the
number of bytes that have been copied.
---
 modules/tm/src/vmem_tx.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..0358200 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -325,11 +325,12 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
 
         uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        size_t diff = lpage_diff < spage_diff ? lpage_diff : spage_diff;
+        memcpy(smem + spage_head, lmem + lpage_head, diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += diff;
+        saddr += diff;
+        siz   -= diff;
     }
 }
 
-- 
2.43.0


From b685908d066abd675f667a7598835092b0881eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 02/35] fix: tm: restore privatized pages on roll-back even if
 discarded

A page that has been privatized for storing and later been discarded, for
example by free_tx(), kept the transaction's writes after a roll-back.
---
 modules/tm/src/vmem_tx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0358200..4cba8ce 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -595,8 +595,7 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
         tm_page_st(page, copy_all_bits(), vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
-- 
2.43.0


From fbe3eb5992318e755881b409ef714d26d24d9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 03/35] fix: tm: privatize_c searches the transaction's own
 values up to the character

---
 modules/tm/src/page.c    | 14 +++++++++-----
 modules/tm/src/vmem_tx.c | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..8e57b5e 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -116,14 +116,18 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
     unsigned long bit = 1ul;
 
     for (buf = buf_beg; buf < buf_end; ++buf, ++mem, bit <<= 1) {
-        if ((bits & bit) && !(page->buf_bits & bit)) {
+        if (!(bits & bit)) {
+            continue;
+        }
+        if (!(page->buf_bits & bit)) {
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
-            if (*mem == c) {
-                break;
-            }
+        /* The transaction's current value is in the region's memory for
+         * write-through pages and in the page's buffer for write-back pages. */
+        uint8_t cur = (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) ? *mem : *buf;
+        if (cur == (uint8_t)c) {
+            break;
         }
     }
 
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 4cba8ce..10c62c8 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -445,6 +445,11 @@ prepare_page_privatize_c(struct tm_page* page,
 {
     bool found_c;
 
+    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+        picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
+        return false;
+    }
+
     if (flags & PICOTM_TM_PRIVATIZE_STORE) {
 
         /* Page requires a writer lock. */
@@ -492,11 +497,11 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
-        uintptr_t page_addr = tm_page_address(page);
-        size_t page_head = addr - page_addr;
-        const uint8_t* mem = tm_page_buffer(page);
-        found_c = !!memchr(mem + page_head, c, page_diff);
-
+        found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
+                               error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         page->flags |= TM_PAGE_FLAG_DISCARDED;
 
     } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
-- 
2.43.0


From afd0047ab5d56be978a580c916edb904d5e2d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 04/35] fix: tm: keep pending stores when a page is switched to
 write-through

---
 modules/tm/src/vmem_tx.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 10c62c8..4e733ef 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -334,6 +334,25 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Switches a page to write-through mode. Stores that are still pending in
+ * the page's buffer are moved to the region's memory; the buffer keeps the
+ * region's original content for roll-back. */
+static void
+enable_write_through(struct tm_page* page, struct tm_vmem* vmem,
+                     struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        return;
+    }
+    if (tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -360,7 +379,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -378,7 +400,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (!flags) {
 
@@ -466,7 +491,10 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -483,7 +511,10 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        enable_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (!flags) {
 
-- 
2.43.0


From 994250ce81e5821e8e9b3008c83e53eab4b20448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 05/35] fix: tabresize: detect sizes that overflow

The size of the resized table in bytes was computed without checking for
overflows, so that a huge number of elements resulted in a table that was
too small, or in the old table being released.
---
 src/table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/table.c b/src/table.c
index 0503a6d..4d9168c 100644
--- a/src/table.c
+++ b/src/table.c
@@ -22,6 +22,7 @@
 #include <errno.h>
 #include <limits.h>
 #include <stdbool.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "picotm/picotm-error.h"
@@ -52,6 +53,12 @@ tabresize(void* restrict base, size_t nelems, size_t newnelems, size_t siz,
 
     void* mem;
 
+    /* The size in bytes, rounded up to a power of 2, must not overflow. */
+    if (siz && newnelems > (SIZE_MAX / 2) / siz) {
+        picotm_error_set_errno(error, ENOMEM);
+        return NULL;
+    }
+
 do_alloc:
 
     if (!s_lowmem) {
-- 
2.43.0


From 9ba9d7ed2673681598473e4862b512c994e2d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 06/35] fix: tabrwalk: don't walk before the beginning of the
 table

The loop's end pointer was decremented to before the table's first element.
For an empty table at address 0, it wrapped around and invalid elements were
visited.
---
 src/table.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/table.c b/src/table.c
index 4d9168c..c8afb4b 100644
--- a/src/table.c
+++ b/src/table.c
@@ -174,10 +174,8 @@ tabrwalk_1(void* restrict base, size_t nelems, size_t siz,
     const unsigned char* beg = base;
     unsigned char* end = base + nelems * siz;
 
-    end -= siz;
-
-    while (end >= beg) {
-        size_t dec = walk(end, error);
+    while (end > beg) {
+        size_t dec = walk(end - siz, error);
 
         if (picotm_error_is_set(error)) {
             return pos;
@@ -200,10 +198,8 @@ tabrwalk_2(void* restrict base, size_t nelems, size_t siz,
     const unsigned char* beg = base;
     unsigned char* end = base + nelems * siz;
 
-    end -= siz;
-
-    while (end >= beg) {
-        size_t dec = walk(end, data, error);
+    while (end > beg) {
+        size_t dec = walk(end - siz, data, error);
 
         if (picotm_error_is_set(error)) {
             return pos;
-- 
2.43.0


From 553dbcb596886e4403f0a90d6cc75e16794a7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 07/35] fix: picotm_os_sub_timespec: subtract the borrow from
 the seconds

The borrow of a second for the nanoseconds was added to the result's
seconds instead of being subtracted.
---
 src/picotm_os_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picotm_os_timespec.c b/src/picotm_os_timespec.c
index d1e06ab..10c6a01 100644
--- a/src/picotm_os_timespec.c
+++ b/src/picotm_os_timespec.c
@@ -90,7 +90,7 @@ picotm_os_sub_timespec(struct timespec* lhs,
 
     time_t carry = rhs->tv_nsec > lhs->tv_nsec;
 
-    lhs->tv_sec -= rhs->tv_sec - carry;
+    lhs->tv_sec -= rhs->tv_sec + carry;
     lhs->tv_nsec -= rhs->tv_nsec;
     lhs->tv_nsec += (MAX_NSEC + 1) * !!carry;
 
-- 
2.43.0


From 9947c80c4a2e486273388780c38a040fe2eed264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 08/35] fix: rwlock: make room for every waiter index

The lock word kept the index of its first waiter in 4 bits, but lock
owners have 10-bit indexes. With more than 15 threads, waiters got lost
or the wrong thread was woken up.
---
 include/picotm/picotm-lib-rwlock.h |  2 +-
 src/picotm-lib-rwlock.c            | 44 +++++++++++++++---------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/picotm/picotm-lib-rwlock.h b/include/picotm/picotm-lib-rwlock.h
index 244108f..1b6b17c 100644
--- a/include/picotm/picotm-lib-rwlock.h
+++ b/include/picotm/picotm-lib-rwlock.h
@@ -99,7 +99,7 @@ struct picotm_error;
  */
 struct picotm_rwlock {
     /** counter variable */
-    atomic_uint_least8_t  n;
+    atomic_uint_least16_t n;
 };
 
 /**
diff --git a/src/picotm-lib-rwlock.c b/src/picotm-lib-rwlock.c
index 75be7b1..6f4a5b3 100644
--- a/src/picotm-lib-rwlock.c
+++ b/src/picotm-lib-rwlock.c
@@ -36,10 +36,10 @@ enum {
 };
 
 /** \brief Bitmask of the waiter index in 'struct picotm_rwlock::n' */
-static const uint8_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
+static const uint16_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
 
 /** \brief Writer is present if this counter value is set. */
-static const uint8_t WRITER_COUNTER = COUNTER_BIT_MASK;
+static const uint16_t WRITER_COUNTER = COUNTER_BIT_MASK;
 
 PICOTM_EXPORT
 void
@@ -82,7 +82,7 @@ static const struct picotm_lock_slist_funcs s_picotm_rwlock_slist_funcs = {
     cmpxchg_first_index
 };
 
-static uint8_t
+static uint16_t
 rw_counter_bits(unsigned long value)
 {
     assert((value & COUNTER_BIT_MASK) == value);
@@ -91,19 +91,19 @@ rw_counter_bits(unsigned long value)
 }
 
 static unsigned long
-rw_counter(uint8_t n)
+rw_counter(uint16_t n)
 {
     return n & COUNTER_BIT_MASK;
 }
 
-static uint8_t
+static uint16_t
 rw_index_bits(unsigned long value)
 {
     return (value << INDEX_BIT_SHIFT) & INDEX_BIT_MASK;
 }
 
-static uint8_t
-rw_index(uint8_t n)
+static uint16_t
+rw_index(uint16_t n)
 {
     return (n & INDEX_BIT_MASK) >> INDEX_BIT_SHIFT;
 }
@@ -170,7 +170,7 @@ try_lock_or_wait(struct picotm_rwlock* self,
 static bool
 try_rdlock(struct picotm_rwlock* self)
 {
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
         if (rw_counter(n) == WRITER_COUNTER) {
@@ -184,8 +184,8 @@ try_rdlock(struct picotm_rwlock* self)
             return false;
         }
 
-        uint8_t expected = rw_counter_bits(rw_counter(n));
-        uint8_t desired  = rw_counter_bits(rw_counter(n) + 1);
+        uint16_t expected = rw_counter_bits(rw_counter(n));
+        uint16_t desired  = rw_counter_bits(rw_counter(n) + 1);
 
         bool succ = atomic_compare_exchange_strong_explicit(&self->n,
                                                             &expected, desired,
@@ -213,7 +213,7 @@ try_wrlock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
 
@@ -226,8 +226,8 @@ try_wrlock(struct picotm_rwlock* self)
         }
 
         /* Expect us to be the only transaction. */
-        uint8_t expected = rw_counter_bits(0);
-        uint8_t desired  = rw_counter_bits(WRITER_COUNTER);
+        uint16_t expected = rw_counter_bits(0);
+        uint16_t desired  = rw_counter_bits(WRITER_COUNTER);
 
         bool succ = atomic_compare_exchange_strong_explicit(&self->n,
                                                             &expected, desired,
@@ -247,7 +247,7 @@ try_uplock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
 
@@ -262,10 +262,10 @@ try_uplock(struct picotm_rwlock* self)
          * transactions can be ignored as we already hold the lock in
          * reader mode. */
 
-        uint8_t expected = rw_index_bits(rw_index(n)) |
+        uint16_t expected = rw_index_bits(rw_index(n)) |
                            rw_counter_bits(1);
 
-        uint8_t desired = rw_index_bits(rw_index(n)) |
+        uint16_t desired = rw_index_bits(rw_index(n)) |
                           rw_counter_bits(WRITER_COUNTER);
 
         bool succ =
@@ -307,7 +307,7 @@ picotm_rwlock_unlock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     assert(rw_counter(n) != 0);
 
@@ -375,7 +375,7 @@ picotm_rwlock_get_index(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     return rw_index(n);
 }
@@ -387,22 +387,22 @@ picotm_rwlock_cmpxchg_index(struct picotm_rwlock* self,
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
         /* Test and ... */
 
-        uint8_t current_index = rw_index(n);
+        uint16_t current_index = rw_index(n);
         if (current_index != expected_index) {
             return current_index;
         }
 
         /* ... Test-And-Set. */
 
-        uint8_t expected = rw_counter_bits(rw_counter(n)) |
+        uint16_t expected = rw_counter_bits(rw_counter(n)) |
                            rw_index_bits(expected_index);
 
-        uint8_t desired = rw_counter_bits(rw_counter(n)) |
+        uint16_t desired = rw_counter_bits(rw_counter(n)) |
                           rw_index_bits(desired_index);
 
         bool succ =
-- 
2.43.0


From d1f513eb390b08a67374c224cdb03454c062a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 09/35] fix: lock manager: unlock the picked waiter once if
 waking it up fails

---
 src/picotm_lock_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/picotm_lock_manager.c b/src/picotm_lock_manager.c
index 172e817..0f1c629 100644
--- a/src/picotm_lock_manager.c
+++ b/src/picotm_lock_manager.c
@@ -813,7 +813,9 @@ out:
     return;
 
 err_picotm_lock_owner_wake_up:
-    picotm_lock_owner_unlock(picked_waiter);
+    if (picked_waiter != first_waiter) {
+        picotm_lock_owner_unlock(picked_waiter);
+    }
 err_pick_next:
     picotm_lock_owner_unlock(first_waiter);
 err_get_first_waiter:
-- 
2.43.0


From 8bf9e8d874d99994ef2555544425b8b9e17426d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 10/35] fix: lock manager: refuse lock owners beyond the last
 valid index

---
 src/picotm_lock_manager.c | 6 ++++++
 src/picotm_lock_owner.h   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/picotm_lock_manager.c b/src/picotm_lock_manager.c
index 0f1c629..dfbffe7 100644
--- a/src/picotm_lock_manager.c
+++ b/src/picotm_lock_manager.c
@@ -21,6 +21,7 @@
 
 #include "picotm_lock_manager.h"
 #include <assert.h>
+#include <errno.h>
 #include <search.h>
 #include <string.h>
 #include "picotm_lock_owner.h"
@@ -81,6 +82,11 @@ grow_lo_array(struct picotm_lock_manager* self, struct picotm_error* error)
      * lock owners. */
     size_t new_nlos = !(self->nlos) + self->nlos + 1;
 
+    if (new_nlos > LOCK_OWNER_NINDICES) {
+        picotm_error_set_errno(error, EAGAIN);
+        return;
+    }
+
     struct picotm_lock_owner** new_lo = tabresize(self->lo, self->nlos,
                                                   new_nlos, sizeof(self->lo),
                                                   error);
diff --git a/src/picotm_lock_owner.h b/src/picotm_lock_owner.h
index 014194a..e71b685 100644
--- a/src/picotm_lock_owner.h
+++ b/src/picotm_lock_owner.h
@@ -35,6 +35,9 @@
 
 struct picotm_error;
 
+/** \brief Number of distinct lock-owner indices */
+static const unsigned long LOCK_OWNER_NINDICES = 1ul << 10;
+
 /** \brief Lock owner is waiting */
 static const unsigned long LOCK_OWNER_WT = 1ul << 29;
 /** \brief Lock owner is waiting to acquire a reader lock */
-- 
2.43.0


From 5c9d9a16e7445d5e1b726ba702710fd8ca8eade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 11/35] fix: treemap: don't shift keys by more bits than they
 have

---
 src/picotm-lib-treemap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/picotm-lib-treemap.c b/src/picotm-lib-treemap.c
index 16318d5..ac74757 100644
--- a/src/picotm-lib-treemap.c
+++ b/src/picotm-lib-treemap.c
@@ -225,7 +225,10 @@ static unsigned long long
 key_depth_prefix(unsigned long long key, unsigned long depth,
                  unsigned long level_nbits)
 {
-    return key >> (depth * level_nbits);
+    unsigned long nbits = depth * level_nbits;
+
+    /* The prefix is empty if the tree covers all of the key's bits. */
+    return nbits < (sizeof(key) * CHAR_BIT) ? key >> nbits : 0;
 }
 
 static unsigned long
-- 
2.43.0


From 4fc862aa73f675a5c44b4b0d3b69b7834a6353a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 12/35] fix: arithmetic: detect overflows of zero minus the
 minimum

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8b753dc..db5a8c3 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -267,12 +267,8 @@ __picotm_arithmetic_error_underflow_tx(void);
                 __picotm_arithmetic_error_underflow_tx();                   \
             }                                                               \
         } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
+            if (__add(maxval, rhs) < lhs) {                                 \
+                __picotm_arithmetic_error_overflow_tx();                    \
             }                                                               \
         }                                                                   \
         return __sub(lhs, rhs);                                             \
-- 
2.43.0


From 36725e27a8dd1937dddd42da452eda9dd1042541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 13/35] fix: arithmetic: multiply positive and negative values
 by negative ones

---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index db5a8c3..326f0bc 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -426,13 +426,14 @@ __picotm_arithmetic_error_underflow_tx(void);
             if (lhs == idtval) {                                            \
                 return rhs;                                                 \
             } else if (lhs > idtval) {                                      \
-                if (__div(-maxval, -rhs) < -lhs) {                          \
+                /* Dividing the minimum by minus one overflows. */          \
+                if ((rhs != -idtval) && (__div(minval, rhs) < lhs)) {       \
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             } else /* (lhs < idtval) */ {                                   \
                 if (lhs == minval) {                                        \
                     __picotm_arithmetic_error_overflow_tx();                \
-                } else if (__div(maxval, rhs) < lhs) {                      \
+                } else if (__div(maxval, rhs) > lhs) {                      \
                     __picotm_arithmetic_error_overflow_tx();                \
                 }                                                           \
             }                                                               \
-- 
2.43.0


From e943c2881bc03cd78edf1e49d1a859b55b640ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 14/35] fix: arithmetic: test floating-point results instead of
 estimating them

---
 .../include/picotm/picotm-arithmetic.h        | 112 ++++--------------
 1 file changed, 25 insertions(+), 87 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 326f0bc..bdc59a0 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -202,23 +202,13 @@ __picotm_arithmetic_error_underflow_tx(void);
         /* Instanciating constants avoids compiler warnings. */             \
         static const __type minval = -(__ext);                              \
         static const __type maxval =  (__ext);                              \
-        static const __type idtval =  (__idt);                              \
-        if (rhs == idtval) {                                                \
-            return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (__sub(maxval, rhs) < lhs) {                                 \
-                __picotm_arithmetic_error_overflow_tx();                    \
-            }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return rhs;                                                 \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__sub(minval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
+        const __type res = __add(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
         }                                                                   \
-        return __add(lhs, rhs);                                             \
+        return res;                                                         \
     }
 
 /*
@@ -345,23 +335,13 @@ __picotm_arithmetic_error_underflow_tx(void);
         /* Instanciating constants avoids compiler warnings. */             \
         static const __type minval = -(__ext);                              \
         static const __type maxval =  (__ext);                              \
-        static const __type idtval =  (__idt);                              \
-        if (rhs == idtval) {                                                \
-            return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (__add(minval, rhs) > lhs) {                                 \
-                __picotm_arithmetic_error_underflow_tx();                   \
-            }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
+        const __type res = __sub(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
         }                                                                   \
-        return __sub(lhs, rhs);                                             \
+        return res;                                                         \
     }
 
 /*
@@ -519,34 +499,13 @@ __picotm_arithmetic_error_underflow_tx(void);
         /* Instanciating constants avoids compiler warnings. */             \
         static const __type minval = -(__ext);                              \
         static const __type maxval =  (__ext);                              \
-        static const __type idtval =  (__idt);                              \
-        static const __type asbval =  (__asb);                              \
-        if ((rhs == asbval) || (lhs == asbval)) {                           \
-            return asbval;                                                  \
-        } else if (rhs == idtval) {                                         \
-            return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (lhs > asbval) {                                             \
-                if (__div(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            } else /* (lhs < absval) */ {                                   \
-                if (__div(minval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
-        } else /* (rhs < -idtval) */ {                                      \
-            if (lhs > asbval) {                                             \
-                if (__div(minval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            } else /* (lhs < absval) */ {                                   \
-                if (__div(maxval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
+        const __type res = __mul(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
         }                                                                   \
-        return __mul(lhs, rhs);                                             \
+        return res;                                                         \
     }
 
 /*
@@ -676,39 +635,18 @@ __picotm_arithmetic_error_underflow_tx(void);
         /* Instanciating constants avoids compiler warnings. */             \
         static const __type minval = -(__ext);                              \
         static const __type maxval =  (__ext);                              \
-        static const __type idtval =  (__idt);                              \
         static const __type asbval =  (__asb);                              \
         if (rhs == asbval) {                                                \
             /* Dividing by 0 is an error. */                                \
             __picotm_arithmetic_error_divbyzero_tx();                       \
-        } else if ((rhs > asbval) && (rhs < idtval)) {                      \
-            /* Dividing without integral part is a multiplication. */       \
-            if (lhs > asbval) {                                             \
-                const __type limit = __mul(maxval, rhs);                    \
-                if (lhs > limit) {                                          \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            } else if (lhs < asbval) {                                      \
-                const __type limit = __mul(minval, rhs);                    \
-                if (lhs < limit) {                                          \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
-        } else if ((rhs < asbval) && (rhs > -idtval)) {                     \
-            /* Division without integral part is a multiplication. */       \
-            if (lhs > asbval) {                                             \
-                const __type limit = __mul(minval, rhs);                    \
-                if (lhs > limit) {                                          \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            } else if (lhs < asbval) {                                      \
-                const __type limit = __mul(maxval, rhs);                    \
-                if (lhs < limit) {                                          \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __div(lhs, rhs);                                             \
+        const __type res = __div(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 PICOTM_END_DECLS
-- 
2.43.0


From f944ea3236b6df6dc571d94acc2f72e2f1f04a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 15/35] fix: libc: memccpy_tx copies up to and including the
 character

---
 modules/libc/src/string.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..38077b7 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -49,9 +49,10 @@ memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
         load_tx(src8, buf, siz);
 
         for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
-                dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
+            if (buf[i] == (uint8_t)c) {
+                siz = i + 1; /* Copy including 'c'; stop looping */
+                n = siz;
+                dest = dest8 + siz; /* Return the location after 'c' */
             }
         }
 
-- 
2.43.0


From 9c0aeb823087f0967c9faa45312ed821b6c256a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 16/35] fix: libc: memmove_tx copies backwards if the regions
 overlap

---
 modules/libc/src/string.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 38077b7..d6f7707 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -105,19 +105,24 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
-    while (n) {
+    /* Start at the end if writing the destination's beginning would
+     * overwrite parts of the source region that have to be read later. */
+    const bool backwards = ((uintptr_t)dest > (uintptr_t)src) &&
+                           ((uintptr_t)dest - (uintptr_t)src < n);
+
+    for (size_t off = 0; off < n;) {
 
         uint8_t buf[32];
 
-        size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+        size_t siz = (n - off) > sizeof(buf) ? sizeof(buf) : (n - off);
+        size_t pos = backwards ? n - off - siz : off;
 
-        load_tx(src8, buf, siz);
-        store_tx(dest8, buf, siz);
+        load_tx(src8 + pos, buf, siz);
+        store_tx(dest8 + pos, buf, siz);
 
-        dest8 += siz;
-        src8 += siz;
-        n -= siz;
+        off += siz;
     }
+
     return dest;
 }
 #endif
-- 
2.43.0


From a8b4e902395d899480d30406d974faadbac5c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 17/35] fix: libc: stpcpy_tx and stpncpy_tx return the end of
 the copied string

---
 modules/libc/src/string.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index d6f7707..1f2a01f 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -178,8 +178,9 @@ char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
@@ -196,7 +197,7 @@ stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     } else {
         store_tx(dest, src, n);
     }
-    return dest;
+    return dest + (len - 1 < n ? len - 1 : n);
 }
 #endif
 
-- 
2.43.0


From 08b6ba46cc20f239372af0b9c687accd94a5be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 18/35] fix: libc: strncpy_tx pads the destination with zeros

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 1f2a01f..3a0cec2 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -345,6 +345,7 @@ strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     size_t len = strlen(src) + 1;
     if (len < n) {
         store_tx(dest, src, len);
+        memset_tx(dest + len, 0, n - len);
     } else {
         store_tx(dest, src, n);
     }
-- 
2.43.0


From ac163bd436348af8bea86e015f298cd61ec0df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 19/35] fix: libc: strchr_tx doesn't search behind the end of
 the string

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 3a0cec2..ee0c369 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -220,7 +220,7 @@ PICOTM_EXPORT
 char*
 strchr_tx(const char* s, int c)
 {
-    privatize_c_tx(s, c, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strchr_tm(s, c);
 }
 #endif
-- 
2.43.0


From f830fb9fe2a412ff1b763c3fd19a2c46e7fd4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 20/35] fix: libc: strcspn_tx privatizes the rejected
 characters

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index ee0c369..e7ab283 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -264,6 +264,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From 14a097461fe7289ef655b3597df3e4144cf1463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 21/35] fix: libc: strtok_r_tx stores the saved position and
 the tokens' ends transactionally

---
 modules/libc/src/string.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index e7ab283..96ca126 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -423,12 +423,17 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    char* ptr = load_ptr_tx(saveptr);
+
+    /* strtok_r() continues at the saved position without string. */
+    char* beg = str ? str : ptr;
+    if (beg) {
+        privatize_c_tx(beg, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
+    }
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
-    char* ptr = load_ptr_tx(saveptr);
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From 37778c525ce293a8222012501e8884ee5ce54662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 22/35] fix: libc: bounded string functions don't read behind
 the bound

---
 modules/libc/src/string.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 96ca126..2822d7c 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -172,6 +172,25 @@ rawmemchr_tx(const void* s, int c)
  * String functions
  */
 
+/* Privatizes a string of at most |n| characters for loading, including the
+ * terminating \0 character if there is one among them. Returns the string's
+ * length. */
+static size_t
+privatize_strn_tx(const char* s, size_t n)
+{
+    size_t len = 0;
+
+    while (len < n) {
+        privatize_tx(s + len, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!s[len]) {
+            break;
+        }
+        ++len;
+    }
+
+    return len;
+}
+
 #if defined(PICOTM_LIBC_HAVE_STPCPY) && PICOTM_LIBC_HAVE_STPCPY
 PICOTM_EXPORT
 char*
@@ -189,8 +208,7 @@ PICOTM_EXPORT
 char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
+    size_t len = privatize_strn_tx(src, n) + 1;
     if (len < n) {
         store_tx(dest, src, len);
         memset_tx(dest + len, 0, n - len);
@@ -313,9 +331,8 @@ char*
 strncat_tx(char* restrict dest, const char* restrict src, size_t n)
 {
     privatize_c_tx(dest, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     size_t dlen = strlen(dest);
-    size_t slen = strlen(src) + 1;
+    size_t slen = privatize_strn_tx(src, n) + 1;
     if (n < slen) {
         store_tx(dest + dlen, src, n);
         memset_tx(dest + dlen + n, '\0', 1);
@@ -331,8 +348,8 @@ PICOTM_EXPORT
 int
 strncmp_tx(const char* s1, const char* s2, size_t n)
 {
-    privatize_c_tx(s1, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(s2, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_strn_tx(s1, n);
+    privatize_strn_tx(s2, n);
     return strncmp(s1, s2, n);
 }
 #endif
@@ -342,8 +359,7 @@ PICOTM_EXPORT
 char*
 strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
+    size_t len = privatize_strn_tx(src, n) + 1;
     if (len < n) {
         store_tx(dest, src, len);
         memset_tx(dest + len, 0, n - len);
@@ -359,7 +375,7 @@ PICOTM_EXPORT
 char*
 strndup_tx(const char* s, size_t n)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_strn_tx(s, n);
     return strndup_tm(s, n);
 }
 #endif
@@ -369,7 +385,7 @@ PICOTM_EXPORT
 size_t
 strnlen_tx(const char* s, size_t maxlen)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_strn_tx(s, maxlen);
     return strnlen(s, maxlen);
 }
 #endif
-- 
2.43.0


From 60e22525fc509d488dd627a3acc942efa39415d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 23/35] fix: libc: strndup_tm terminates the duplicate within
 its memory

---
 modules/libc/src/string-tm.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..b3f5fc2 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,14 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
-    if (n < len) {
-        len = n + sizeof(*s);
-    }
+    size_t len = strnlen(s, n);
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*),
+                                        len + sizeof(*s), &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +372,8 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
+
     return s2;
 }
 #endif
-- 
2.43.0


From e5dcf68afd399d22ceba3d184fce78a6c4f30045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 24/35] fix: libc: calloc_tx detects sizes that overflow

---
 modules/libc/src/stdlib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..f99b5cc 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -30,6 +30,7 @@
 #elif defined (HAVE_MALLOC_H) && HAVE_MALLOC_H
 #include <malloc.h>
 #endif
+#include <stdint.h>
 #include <string.h>
 #include "allocator/module.h"
 #include "compat/malloc_usable_size.h"
@@ -70,6 +71,10 @@ calloc_tx(size_t nmemb, size_t size)
         picotm_recover_from_error(&error);
     } while (true);
 
+    while (size && (nmemb > SIZE_MAX / size)) {
+        picotm_recover_from_errno(ENOMEM);
+    }
+
     size_t alloc_size = nmemb * size;
 
     do {
-- 
2.43.0


From 66ff0b45f9b2b737418483b66dd2d1e68fbc9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 25/35] fix: libc: posix_memalign_tx privatizes the stored
 pointer

---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index f99b5cc..34f0975 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -171,7 +171,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From 19bfbabf15a3d12c1bb1b1f19147584c2352172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 26/35] fix: libc: realloc_tx copies the transaction's own
 stores

---
 modules/libc/src/stdlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 34f0975..fe4df95 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -204,7 +204,7 @@ realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
     if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
+        privatize_tx(ptr, usiz, PICOTM_TM_PRIVATIZE_LOAD);
     }
 
     do {
@@ -240,6 +240,9 @@ realloc_tx(void* ptr, size_t size)
         memcpy(mem, ptr, size < usiz ? size : usiz);
     }
 
+    if (usiz) {
+        privatize_tx(ptr, usiz, 0); /* discard memory region */
+    }
     if (ptr) {
         do {
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-- 
2.43.0


From f8df249d7db97af4a85b72a356705fe6a9f1af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 27/35] fix: libc: allocate blocks of 4 GiB and more in full

---
 modules/libc/src/allocator/allocator_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/allocator/allocator_tx.c b/modules/libc/src/allocator/allocator_tx.c
index fc9c5c8..23be297 100644
--- a/modules/libc/src/allocator/allocator_tx.c
+++ b/modules/libc/src/allocator/allocator_tx.c
@@ -22,6 +22,7 @@
 #include "picotm/picotm-error.h"
 #include <assert.h>
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "allocator_log.h"
 
@@ -31,8 +32,11 @@
 static size_t
 rnd2wb(size_t size)
 {
-    const unsigned int mask = sizeof(void*) - 1;
+    const size_t mask = sizeof(void*) - 1;
 
+    if (size > SIZE_MAX - mask) {
+        return SIZE_MAX & ~mask; /* too large to be allocated */
+    }
     return (size + mask) & ~mask;
 }
 
-- 
2.43.0


From 7285729b29ae4ffe42931224eb694db6f6d3f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 28/35] fix: txlib: bounds of multisets delimit exactly the
 key's entries

---
 modules/txlib/src/txmultiset_state.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..575ec47 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
 
         entry = pos;
@@ -194,13 +194,11 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return pos;
 }
 
 size_t
-- 
2.43.0


From c3ff30fd621a39ecc609b23ece9a1385285cd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 29/35] fix: txlib: move the smaller entries when inserting an
 equal multiset entry

---
 modules/txlib/src/txmultiset_entry.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..28815b7 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -212,7 +212,12 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
         position->internal.parent->internal.ge = entry;
     }
 
+    position->internal.lt = NULL;
     position->internal.parent = entry;
+
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+    }
 }
 
 void
-- 
2.43.0


From 84b686e9b8e3b46706dc8290eeb97931a4d5fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 30/35] fix: txlib: revert container operations that cannot be
 logged

---
 modules/txlib/src/txlib_tx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/txlib/src/txlib_tx.c b/modules/txlib/src/txlib_tx.c
index d8c5e89..48482a4 100644
--- a/modules/txlib/src/txlib_tx.c
+++ b/modules/txlib/src/txlib_tx.c
@@ -301,6 +301,9 @@ txlib_tx_append_events3(struct txlib_tx* self, size_t nevents,
 
         picotm_append_event(self->module, 0, beg - self->event, error);
         if (picotm_error_is_set(error)) {
+            /* the log doesn't know about the executed operation */
+            struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+            txlib_event_undo(beg, &undo_error);
             return;
         }
     }
-- 
2.43.0


From dda90ee8bed4546234bc6b5f24c83d9e221de86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 31/35] fix: libm: restore exception flags from before the
 transaction

Exception flags saved after the environment were those of the
transaction, and overwrote the restored environment's on abort.
---
 modules/libm/src/fpu_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libm/src/fpu_tx.c b/modules/libm/src/fpu_tx.c
index 9fa8dd4..63609c2 100644
--- a/modules/libm/src/fpu_tx.c
+++ b/modules/libm/src/fpu_tx.c
@@ -98,6 +98,11 @@ fpu_tx_save_fexcept(struct fpu_tx* self, struct picotm_error* error)
     if (self->flags & FPU_TX_FLAG_FEXCEPT_SAVED) {
         return;
     }
+    if (self->flags & FPU_TX_FLAG_FENV_SAVED) {
+        /* The saved environment already contains the exception flags
+         * from before the first change. */
+        return;
+    }
 
     int res = fegetexceptflag(&self->saved_fexcept, FE_ALL_EXCEPT);
     if (res < 0) {
-- 
2.43.0


From f05cae953ca5cc69d8fa3e404adf63d45b462f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 32/35] fix: libm: clear exceptions before calling a math
 function

The function returned before it did, so that exceptions raised earlier
were reported as errors of the call.
---
 modules/libm/src/matherr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..39d789c 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -43,7 +43,7 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
-- 
2.43.0


From d2b648c86603d7221cedec0ff908ba2e202af5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 33/35] fix: libc: restore the thread's locale if uselocale()
 cannot be logged

---
 modules/libc/src/locale/locale_tx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..bd8acc5 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -762,10 +762,16 @@ uselocale_wr_exec(struct locale_tx* self, locale_t newloc,
 
     locale_log_append(self->log, LOCALE_OP_USELOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        goto err_locale_log_append;
     }
 
     return oldloc;
+
+err_locale_log_append:
+    if (uselocale(oldloc) == (locale_t)0) {
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return (locale_t)0;
 }
 
 locale_t
-- 
2.43.0


From 3ef2ec06f102ea7dc7ced882b0cd39fcb8a84bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 34/35] fix: libc: release locks of locale objects at the end
 of a transaction

---
 modules/libc/src/locale/locale_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index bd8acc5..6ded613 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -301,6 +301,8 @@ release_locale_state_tx(struct locale_state_tx* lstate_tx,
         return;
     }
 
+    picotm_rwstate_unlock(&lstate_tx->rwstate, &lstate_tx->lstate->rwlock);
+
     release_locale_state(lstate_tx->locobj, lstate_tx->lstate, global, error);
     if (picotm_error_is_set(error)) {
         return;
-- 
2.43.0


From 2b279bb15bdb61d24b2247b94f8dd9ce8800e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 35/35] fix: libc: handle errors while acquiring the state of a
 locale object

---
 modules/libc/src/locale/locale_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 6ded613..d406fc8 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -179,7 +179,10 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     do {
         picotm_spinlock_lock(&global->locale_state_lock);
         lstate = ptr_get_shared_data(locobj, error);
-        if (lstate) {
+        if (picotm_error_is_set(error)) {
+            picotm_spinlock_unlock(&global->locale_state_lock);
+            return NULL;
+        } else if (lstate) {
             ++lstate->ref_count;
             picotm_spinlock_unlock(&global->locale_state_lock);
             return lstate;
@@ -208,6 +211,7 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     /* not reachable */
 
 err_ptr_test_and_set_shared_data:
+    --lstate->ref_count;
     locale_state_uninit(lstate);
     free(lstate);
     return NULL;
-- 
2.43.0

