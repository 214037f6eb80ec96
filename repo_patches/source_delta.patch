From c55fc8223302a79a3bc43b40d02bdb4d5eb28a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 01/61] fix: prefix: pass the last item of the trimmed list to
 the underlying socket

When the message ended before the last item of the user's list the original
last item was passed along with a list that does not contain it.
---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 1746872..8095097 100644
--- a/prefix.c
+++ b/prefix.c
@@ -180,7 +180,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From 44bf1b8e2f9b02cbbeb4d0847e5b68139af48597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 02/61] fix: prefix: refuse messages whose size does not fit
 into the header

The size was silently truncated, breaking the framing.
---
 prefix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prefix.c b/prefix.c
index 8095097..71a5008 100644
--- a/prefix.c
+++ b/prefix.c
@@ -140,6 +140,8 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    /* The message is too long to have its size stored in the header. */
+    if(dill_slow(sz > 0)) {self->outerr = 1; errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
-- 
2.43.0


From a0ddd55dd8a29a71ddd361f0175af53ae2a59326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 03/61] fix: release the protocol handle on detach

Detaching PREFIX, SUFFIX, TERM, HTTP and WebSocket sockets freed the object
but left its handle alive, pointing to the freed memory. Also, failed
ws_detach now closes the socket, as documented.
---
 http.c   |  7 +++++--
 prefix.c |  5 ++++-
 suffix.c |  5 ++++-
 term.c   |  7 +++++--
 ws.c     | 22 +++++++++++++++++-----
 5 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..ae08a46 100644
--- a/http.c
+++ b/http.c
@@ -113,11 +113,14 @@ int dill_http_detach(int s, int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     int u = dill_term_detach(obj->u, deadline);
+    /* TERM socket is gone now, even if detaching have failed. */
+    obj->u = -1;
     if(dill_slow(u < 0)) {err = errno; goto error;}
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
-error:
-    if(!obj->mem) free(obj);
+error:;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
diff --git a/prefix.c b/prefix.c
index 71a5008..a94ab5c 100644
--- a/prefix.c
+++ b/prefix.c
@@ -117,7 +117,10 @@ int dill_prefix_detach(int s) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle but keep the underlying socket open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index 1dce9e8..50e3206 100644
--- a/suffix.c
+++ b/suffix.c
@@ -121,7 +121,10 @@ int dill_suffix_detach(int s, int64_t deadline) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle but keep the underlying socket open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index 5c91677..e86a620 100644
--- a/term.c
+++ b/term.c
@@ -145,10 +145,13 @@ int dill_term_detach(int s, int64_t deadline) {
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle but keep the underlying socket open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:;
-    int rc = dill_hclose(s);
+    rc = dill_hclose(s);
     dill_assert(rc == 0);
     errno = err;
     return -1;
diff --git a/ws.c b/ws.c
index 013a516..6f2bcc0 100644
--- a/ws.c
+++ b/ws.c
@@ -541,11 +541,12 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
 
 int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
+    int err;
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(!self->outdone) {
         int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) goto error;
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
@@ -553,18 +554,29 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
             deadline);
         if(sz < 0) {
              if(errno == EPIPE) break;
-             return -1;
+             goto error;
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle but keep the underlying socket open. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
+error:;
+    err = errno;
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From 57de79d0f3c5c5ac9ea0f8a61e940ffbc7524da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 04/61] fix: release the handle when cleanly closing TCP, IPC
 and TLS sockets

tcp_close, ipc_close and tls_detach freed the object but left its handle
alive, pointing to the freed memory.
---
 ipc.c |  8 +++++---
 tcp.c | 12 +++++++-----
 tls.c |  8 +++++---
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..cb7e822 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,12 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return 0;
-error:
-    dill_ipc_hclose(&self->hvfs);
+error:;
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index cdc72c9..113880c 100644
--- a/tcp.c
+++ b/tcp.c
@@ -213,7 +213,7 @@ int dill_tcp_done(int s, int64_t deadline) {
 }
 
 int dill_tcp_close(int s, int64_t deadline) {
-    int err;
+    int err, rc;
     /* Listener socket needs no special treatment. */
     if(dill_hquery(s, dill_tcp_listener_type)) {
         return dill_hclose(s);
@@ -230,13 +230,15 @@ int dill_tcp_close(int s, int64_t deadline) {
     /* Now we are going to read all the inbound data until we reach end of the
        stream. That way we can be sure that the peer either received all our
        data or consciously closed the connection without reading all of it. */
-    int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
+    rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return 0;
-error:
-    dill_tcp_hclose(&self->hvfs);
+error:;
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/tls.c b/tls.c
index 958b10e..7025460 100644
--- a/tls.c
+++ b/tls.c
@@ -277,10 +277,12 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
-error:
-    dill_tls_hclose(&self->hvfs);
+error:;
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 8f9ca431403667007579de17da6e266528945db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 05/61] fix: suffix: honour the size of the user's buffers when
 receiving

Messages longer than the supplied buffers were silently truncated while their
full size was returned, only the first item of the iolist was ever filled in
and receiving into an empty iolist crashed.
---
 suffix.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/suffix.c b/suffix.c
index 50e3206..371b514 100644
--- a/suffix.c
+++ b/suffix.c
@@ -159,19 +159,22 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    struct dill_iolist it = {0};
+    if(first) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
-        /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
-            if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
-            it = *it.iol_next;
-        }
-        /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
-            ((uint8_t*)it.iol_base)[0] = self->buf[0];
-            it.iol_base = ((uint8_t*)it.iol_base) + 1;
+        if(first) {
+            /* Ignore empty iolist items. */
+            while(it.iol_len == 0) {
+                if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
+                it = *it.iol_next;
+            }
+            /* Move one character to the user's iolist. */
+            if(it.iol_base) {
+                ((uint8_t*)it.iol_base)[0] = self->buf[0];
+                it.iol_base = ((uint8_t*)it.iol_base) + 1;
+            }
             it.iol_len--;
         }
         /* Read new character into the temporary buffer. */
-- 
2.43.0


From 5acf8e46299c371738808e48ee79d3ebad228794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 06/61] fix: term: refuse terminal messages longer than the
 internal buffer

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index e86a620..0bd3e5f 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From 8b86c34f9e46c7fd946d8e9fe5fbbb839b003bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 07/61] fix: term: don't send after term_done or receive past
 the terminal message

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index 0bd3e5f..b3228a8 100644
--- a/term.c
+++ b/term.c
@@ -160,6 +160,7 @@ error:;
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -167,6 +168,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From bc7e271c6215bfe57b6d76c8477dcac9979434fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 08/61] fix: term: receive messages of any size into any iolist

Wrong last item was passed to the underlying socket when the trimmed item was
the last one, uninitialised bytes were stored into the user's buffers for
messages shorter than the terminal message, messages not fitting into the
buffers were reported as received and messages couldn't be skipped.
---
 term.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/term.c b/term.c
index b3228a8..82ab4ad 100644
--- a/term.c
+++ b/term.c
@@ -179,11 +179,18 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
-    struct dill_iolist trimmed = {0};
-    int rc = dill_ioltrim(first, self->len, &trimmed);
+    /* The initial part of the message goes to a temporary buffer, the rest
+       directly to the user's iolist or, if there is none, it is dropped. */
     uint8_t buf[self->len];
-    struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    struct dill_iolist rest = {NULL, SIZE_MAX - self->len, NULL, 0};
+    struct dill_iolist iol = {buf, self->len, &rest, 0};
+    struct dill_iolist *end = &rest;
+    if(first) {
+        int rc = dill_ioltrim(first, self->len, &rest);
+        if(rc < 0) {iol.iol_next = NULL; end = &iol;}
+        else if(rest.iol_next) end = last;
+    }
+    ssize_t sz = dill_mrecvl(self->u, &iol, end, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -191,7 +198,10 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    if(first) {
+        int rc = dill_iolto(buf, sz < self->len ? sz : self->len, first);
+        if(dill_slow(rc < 0)) {errno = EMSGSIZE; return -1;}
+    }
     return sz;
 }
 
-- 
2.43.0


From 9ead9e037a9a3c04c177f1279257ab16627c9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 09/61] fix: term: detach fails if the underlying socket is
 closed before the terminal message

---
 term.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 82ab4ad..13dab36 100644
--- a/term.c
+++ b/term.c
@@ -138,7 +138,8 @@ int dill_term_detach(int s, int64_t deadline) {
             struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
             ssize_t sz = dill_term_mrecvl(&self->mvfs, &iol, &iol, deadline);
             if(sz < 0) {
-                if(errno == EPIPE) break;
+                /* EPIPE can also come from the underlying socket. */
+                if(self->indone) break;
                 err = errno;
                 goto error;
             }
-- 
2.43.0


From 1704fccc045bd2a59cafe8fc36d392079708f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 10/61] fix: don't truncate poll timeouts longer than INT_MAX
 milliseconds

The distance to the first deadline was cast to int. For deadlines more than
2^31 ms away the result could be negative, i.e. an infinite wait.
---
 cr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..bab2e48 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -466,7 +467,10 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    int64_t left = nw >= deadline ? 0 : deadline - nw;
+                    /* If the deadline is too far away for the poll we'll
+                       simply retry later. */
+                    timeout = left > INT_MAX ? INT_MAX : (int)left;
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From b271918abd5286f2d4f2272787fd732e87f234f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 11/61] fix: bundle_mem sets errno when memory is missing

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index bab2e48..aec571d 100644
--- a/cr.c
+++ b/cr.c
@@ -86,8 +86,7 @@ DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From d11bfd9d724eeae1f5f8c3197b4420e45a8ea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 12/61] fix: go_mem and bundle_go_mem refuse blocks that are
 too small

The size computations could underflow, in which case the check for a too small
block passed and memory outside of the block was overwritten.
---
 cr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index aec571d..d5a9cf1 100644
--- a/cr.c
+++ b/cr.c
@@ -250,6 +250,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -274,10 +276,11 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
+        if(dill_slow(top < (uintptr_t)*ptr ||
+              top - (uintptr_t)*ptr < sizeof(struct dill_cr))) {
+            err = ENOMEM; goto error2;}
         stacksz = top - (uintptr_t)*ptr;
         cr = (struct dill_cr*)top;
-        if(dill_slow(stacksz < sizeof(struct dill_cr))) {
-            err = ENOMEM; goto error2;}
     }
 #if defined DILL_CENSUS
     /* Mark the bytes in the stack as unused. */
-- 
2.43.0


From 4a590da34b9e3c5a0cd794e3610e256613732ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 13/61] fix: closing a coroutine that is itself waiting inside
 hclose

The wait of the inner hclose was canceled, which made the process crash.
---
 cr.c | 20 ++++++++++++++------
 cr.h |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cr.c b/cr.c
index d5a9cf1..2cc5e50 100644
--- a/cr.c
+++ b/cr.c
@@ -300,6 +300,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     cr->no_blocking2 = 0;
     cr->done = 0;
     cr->mem = *ptr ? 1 : 0;
+    cr->closing = 0;
 #if defined DILL_VALGRIND
     cr->sid = VALGRIND_STACK_REGISTER((char*)(cr + 1) - stacksz, cr);
 #endif
@@ -383,10 +384,19 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
     struct dill_cr *cr = dill_cont(vfs, struct dill_cr, vfs);
     /* If the coroutine has already finished, we are done. */
     if(!cr->done) {
+        /* This assertion triggers when coroutine tries to close a bundle that
+           it is part of, whether directly or via coroutines waiting for each
+           other to shut down. There's no sane way to handle that so let's just
+           crash the process. */
+        struct dill_cr *it;
+        for(it = ctx->r; it; it = it->closer)
+            dill_assert(it != cr);
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
-        /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* Resume the coroutine if it was blocked. If it is itself waiting for
+           a different coroutine to shut down it will be resumed once that is
+           done. */
+        if(!cr->ready.next && !cr->closing)
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
@@ -394,12 +404,10 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
+        ctx->r->closing = 1;
         int rc = dill_wait();
-        /* This assertion triggers when coroutine tries to close a bundle that
-           it is part of. There's no sane way to handle that so let's just
-           crash the process. */
-        dill_assert(!(rc == -1 && errno == ECANCELED));
         dill_assert(rc == -1 && errno == 0);
+        ctx->r->closing = 0;
     }
 #if defined DILL_CENSUS
     /* Find the first overwritten byte on the stack.
diff --git a/cr.h b/cr.h
index 627bd72..b94073b 100644
--- a/cr.h
+++ b/cr.h
@@ -68,6 +68,8 @@ struct dill_cr {
     unsigned int done : 1;
     /* If true, the coroutine was launched with go_mem. */
     unsigned int mem : 1;
+    /* Set while the coroutine waits for a different coroutine to shut down. */
+    unsigned int closing : 1;
     /* When the coroutine handle is being closed, this points to the
        coroutine that is doing the hclose() call. */
     struct dill_cr *closer;
-- 
2.43.0


From 700581d2966eeadb127e9987d5399db0d7c60424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 14/61] fix: several coroutines waiting for a bundle, bundle
 closed while waited for

Only the last one to start waiting was resumed when the coroutines in the
bundle finished. If the bundle was closed by a different coroutine the waiter
was never resumed and, on timeout, wrote into the memory of the closed bundle.
---
 cr.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/cr.c b/cr.c
index 2cc5e50..627f2ab 100644
--- a/cr.c
+++ b/cr.c
@@ -75,9 +75,9 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* List of clauses to trigger when all coroutines are finished. There's one
+       for each bundle_wait() being done on this bundle. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
@@ -85,13 +85,19 @@ struct dill_bundle {
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
+struct dill_bundle_clause {
+    struct dill_clause cl;
+    /* An item in dill_bundle::waiters. */
+    struct dill_list item;
+};
+
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
     if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -117,6 +123,21 @@ static void *dill_bundle_query(struct dill_hvfs *vfs, const void *type) {
     return NULL;
 }
 
+/* Resumes everybody waiting for the bundle to finish. */
+static void dill_bundle_finished(struct dill_bundle *self) {
+    while(!dill_list_empty(&self->waiters)) {
+        struct dill_bundle_clause *bcl = dill_cont(
+            dill_list_next(&self->waiters), struct dill_bundle_clause, item);
+        dill_trigger(&bcl->cl, 0);
+    }
+}
+
+static void dill_bundle_waitcancel(struct dill_clause *cl) {
+    struct dill_bundle_clause *bcl =
+        dill_cont(cl, struct dill_bundle_clause, cl);
+    dill_list_erase(&bcl->item);
+}
+
 static void dill_bundle_close(struct dill_hvfs *vfs) {
     struct dill_bundle *self = (struct dill_bundle*)vfs;
     struct dill_list *it = &self->crs;
@@ -124,6 +145,7 @@ static void dill_bundle_close(struct dill_hvfs *vfs) {
         struct dill_cr *cr = dill_cont(it, struct dill_cr, bundle);
         dill_cr_close(&cr->vfs);
     }
+    dill_bundle_finished(self);
     if(!self->mem) free(self);
 }
 
@@ -135,13 +157,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundle_clause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_waitcancel);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -361,7 +382,7 @@ void dill_epilogue(void) {
         if(dill_list_oneitem(&ctx->r->bundle)) {
             struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
                 struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
+            dill_bundle_finished(b);
         }
         dill_list_erase(&ctx->r->bundle);
         dill_cr_close(&ctx->r->vfs);
-- 
2.43.0


From 47840854e409f833570cf35dc5f0c8f0de1d23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 15/61] fix: restore the iolist if it is malformed

---
 iol.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iol.c b/iol.c
index c1d4d12..f77e688 100644
--- a/iol.c
+++ b/iol.c
@@ -50,8 +50,9 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     if(nbytes) *nbytes = nbt;
     return 0;
 error:;
-    struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    /* Restore the items visited so far. If there's a loop in the list the
+       offending item may be one of them. */
+    for(it = first; nbf; it = it->iol_next, --nbf) it->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From 137bd3bc46ed31bf6b16519499457907176cb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 16/61] fix: report errors when skipping data on a bytestream
 socket

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From cccfa75b5a2a16010e558d83bb031f1394d9af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 17/61] fix: brecvl crashes if both ends of the list are NULL

---
 bsock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..00895be 100644
--- a/bsock.c
+++ b/bsock.c
@@ -58,7 +58,8 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
+    if(dill_slow((first && !last) || (!first && last) ||
+          (last && last->iol_next))) {
         errno = EINVAL; return -1;}
     return b->brecvl(b, first, last, deadline);
 }
-- 
2.43.0


From 1403e103de7f91973daad165a34fb2dff85a08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 18/61] fix: close the descriptor if creating a handle for it
 fails

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index cb7e822..0d6577c 100644
--- a/ipc.c
+++ b/ipc.c
@@ -106,12 +106,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -401,12 +403,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index 113880c..b904ae1 100644
--- a/tcp.c
+++ b/tcp.c
@@ -100,12 +100,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -313,12 +315,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From 60f08822d6f77a3dedf00d15fdd3dd804012ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 19/61] fix: free the second object if ipc_pair fails

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 0d6577c..b61904f 100644
--- a/ipc.c
+++ b/ipc.c
@@ -565,6 +565,7 @@ int dill_ipc_pair(int s[2]) {
     return 0;
 error6:
     rc = dill_hclose(s[0]);
+    free(conn1);
     goto error2;
 error5:
     free(conn1);
-- 
2.43.0


From b18b1db904166fccd2bf591344d14177624ef978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 20/61] fix: report failure to bind in udp_open

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From a3de681bc20c8d57b995951a6487073564fc36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 21/61] fix: ipc_listen_mem crashes without memory

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index b61904f..b86148a 100644
--- a/ipc.c
+++ b/ipc.c
@@ -419,6 +419,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
-- 
2.43.0


From 568149d1b48c19924fb50843c987cd604424467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 22/61] fix: connection reset in ipc_recvfd breaks the inbound
 direction

---
 ipc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc.c b/ipc.c
index b86148a..2b6547a 100644
--- a/ipc.c
+++ b/ipc.c
@@ -268,7 +268,7 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     ssize_t sz = recvmsg(self->fd, &msg, 0);
     if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
     if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
+       if(errno == ECONNRESET) {self->inerr = 1; return -1;}
        dill_assert(0);
     }
     /* Loop over the auxiliary data to find the embedded file descriptor. */
-- 
2.43.0


From 680bc7240bba081a64124686e55813e4854b83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:17 +0000
Subject: [PATCH 23/61] fix: ipc_sendfd kills the process if the peer has
 closed the connection

---
 ipc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipc.c b/ipc.c
index 2b6547a..6ce18f2 100644
--- a/ipc.c
+++ b/ipc.c
@@ -33,6 +33,12 @@
 #include "fd.h"
 #include "utils.h"
 
+#if defined MSG_NOSIGNAL
+#define IPC_NOSIGNAL MSG_NOSIGNAL
+#else
+#define IPC_NOSIGNAL 0
+#endif
+
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
 dill_unique_id(dill_ipc_listener_type);
@@ -236,9 +242,10 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     msg.msg_controllen = cmsg->cmsg_len;
     int rc = dill_fdout(self->fd, deadline);
     if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
+    ssize_t sz = sendmsg(self->fd, &msg, IPC_NOSIGNAL);
     if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
     if(dill_slow(sz < 0)) {
+       if(errno == EPIPE) errno = ECONNRESET;
        if(errno == ECONNRESET) {self->outerr = 1; return -1;}
        dill_assert(0);
     }
-- 
2.43.0


From 7a59e465036ba9073ea418cb10d5f5737dea0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 24/61] fix: udp_recv reports EMSGSIZE for packets that do not
 fit

---
 udp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udp.c b/udp.c
index bc7b22c..24c4bcd 100644
--- a/udp.c
+++ b/udp.c
@@ -187,6 +187,7 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 1e9daf734c020080f2fccb920a2e835a3a75ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 25/61] fix: HTTP protocol version is checked properly

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index ae08a46..507cbd8 100644
--- a/http.c
+++ b/http.c
@@ -180,7 +180,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -229,7 +229,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 6e592c25531e681961c8be8864fdff2538d735a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 26/61] fix: HTTP receive functions overflow zero-sized buffers

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index 507cbd8..67135e9 100644
--- a/http.c
+++ b/http.c
@@ -165,7 +165,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -173,7 +173,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -247,7 +247,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -297,7 +297,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -307,7 +307,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From b463edc50f8feac4df8ca01717d7546eeb7841e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 27/61] fix: trailing spaces are not removed from received HTTP
 field values

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 67135e9..497b20a 100644
--- a/http.c
+++ b/http.c
@@ -306,7 +306,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-- 
2.43.0


From 57911cfedcd6653bdb00276cdcaa4a1430dcb026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 28/61] fix: http_sendfield aborts if the value consists of
 spaces

---
 http.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http.c b/http.c
index 497b20a..a85597e 100644
--- a/http.c
+++ b/http.c
@@ -260,7 +260,7 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     /* Check whether name contains only valid characters. */
     if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
         errno = EINVAL; return -1;}
-    if (strlen(value) == 0) {errno = EPROTO; return -1;}
+    if (*dill_lstrip(value, ' ') == 0) {errno = EPROTO; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
@@ -272,7 +272,6 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_rsvd = 0;
     const char *start = dill_lstrip(value, ' ');
     const char *end = dill_rstrip(start, ' ');
-    dill_assert(start < end);
     iol[2].iol_base = (void*)start;
     iol[2].iol_len = end - start;
     iol[2].iol_next = NULL;
-- 
2.43.0


From 52f2afca7299d55e045a7a22c7495ba75125b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 29/61] fix: HTTP arguments that would not form a single line
 are refused

---
 http.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http.c b/http.c
index a85597e..73b5f55 100644
--- a/http.c
+++ b/http.c
@@ -131,6 +131,7 @@ int dill_http_sendrequest(int s, const char *command, const char *resource,
     if(dill_slow(!obj)) return -1;
     if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
     if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if (!*command || !*resource) {errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -192,6 +193,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if(dill_slow(strpbrk(reason, "\r\n") != NULL)) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -260,6 +262,7 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     /* Check whether name contains only valid characters. */
     if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
         errno = EINVAL; return -1;}
+    if (strpbrk(value, "\r\n") != NULL) {errno = EINVAL; return -1;}
     if (*dill_lstrip(value, ' ') == 0) {errno = EPROTO; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
-- 
2.43.0


From f8e28a95a0e6feb791fad11eb16ec718837c68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 30/61] fix: WebSocket header of a large message sent by a
 client overflows the buffer

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6f2bcc0..e105466 100644
--- a/ws.c
+++ b/ws.c
@@ -324,7 +324,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From 240e0ac14d1737e046ded7948274d265970fdb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 31/61] fix: WebSocket client refused by the server leaks the
 socket

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index e105466..76e6fd0 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 078d509e8569f80da9fe1a7715f369c575474a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 32/61] fix: WebSocket masking of received frames

---
 ws.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 76e6fd0..32648ff 100644
--- a/ws.c
+++ b/ws.c
@@ -438,17 +438,20 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
         }
         /* Frame may be read into multiple iolist elements. */
+        size_t pos = 0;
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
                 if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
+                if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                        ((uint8_t*)it.iol_base)[i] ^=
+                            mask[(pos + i) % 4];
                 }
             }
+            pos += toread;
             sz -= toread;
             if(sz == 0) break;
             if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
-- 
2.43.0


From 98bfb293db3103ec4da8261b23406123ce524089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 33/61] fix: fragments of a WebSocket message overwrite each
 other

---
 ws.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ws.c b/ws.c
index 32648ff..8a789e5 100644
--- a/ws.c
+++ b/ws.c
@@ -451,6 +451,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
                             mask[(pos + i) % 4];
                 }
             }
+            if(it.iol_base) it.iol_base = (uint8_t*)it.iol_base + toread;
+            it.iol_len -= toread;
             pos += toread;
             sz -= toread;
             if(sz == 0) break;
-- 
2.43.0


From a76116717967cc3a63726d199ff9a10f2aaff130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 34/61] fix: skipping WebSocket messages

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 8a789e5..03a7c82 100644
--- a/ws.c
+++ b/ws.c
@@ -380,7 +380,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
     /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    /* If there's no list the message is skipped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
         struct dill_iolist iol_msg;
-- 
2.43.0


From 274d99200e6d865a0bb37f54a4012df56484c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 35/61] fix: order of WebSocket fragments is checked

---
 ws.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ws.c b/ws.c
index 03a7c82..364a4bf 100644
--- a/ws.c
+++ b/ws.c
@@ -383,6 +383,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     /* If there's no list the message is skipped. */
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
+    int fragment = 0;
     while(1) {
         struct dill_iolist iol_msg;
         uint8_t hdr1[2];
@@ -393,11 +394,14 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!fragment)) {errno = EPROTO; return -1;}
             break;
         case 1:
+            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
+            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
@@ -461,6 +465,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
+        fragment = 1;
     }
     if(dill_slow(self->indone)) {
         if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
-- 
2.43.0


From 6e41d5d3b8aa5d497898708ce0f873ab00e5c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 36/61] fix: WebSocket close frame inside of a fragmented
 message

---
 ws.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 364a4bf..71db1f9 100644
--- a/ws.c
+++ b/ws.c
@@ -384,6 +384,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     int fragment = 0;
+    int closing = 0;
     while(1) {
         struct dill_iolist iol_msg;
         uint8_t hdr1[2];
@@ -413,7 +414,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             iol_msg.iol_len = sizeof(self->msg);
             iol_msg.iol_next = NULL;
             iol_msg.iol_rsvd = 0;
-            self->indone = 1;
+            closing = 1;
+            res = 0;
             break;
         default:
             errno = EPROTO;
@@ -467,7 +469,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         if(hdr1[0] & 0x80) break;
         fragment = 1;
     }
-    if(dill_slow(self->indone)) {
+    if(dill_slow(closing)) {
         if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
         if(res >= 2) {
            self->status = dill_gets((uint8_t*)&self->status);
@@ -476,6 +478,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
+        self->indone = 1;
         errno = EPIPE;
         return -1;
     }
-- 
2.43.0


From dc2302efae42cc92c7320a5f5863a03dd66e4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 37/61] fix: overlong WebSocket messages

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 71db1f9..be4e91b 100644
--- a/ws.c
+++ b/ws.c
@@ -435,6 +435,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
             sz = dill_getll(hdr2);
         }
+        if(dill_slow(sz > SIZE_MAX / 2 - res)) {errno = EPROTO; return -1;}
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-- 
2.43.0


From 50969517019263e94e83ba784de25ff27bf3d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 38/61] fix: data following a failed WebSocket receive are
 taken for a frame

---
 ws.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/ws.c b/ws.c
index be4e91b..7a674ed 100644
--- a/ws.c
+++ b/ws.c
@@ -41,6 +41,7 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -82,6 +83,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -204,6 +206,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -376,6 +379,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
@@ -389,20 +393,20 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         struct dill_iolist iol_msg;
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
-        if(dill_slow(rc < 0)) return -1;
-        if(hdr1[0] & 0x70) {errno = EPROTO; return -1;}
+        if(dill_slow(rc < 0)) goto error;
+        if(hdr1[0] & 0x70) {errno = EPROTO; goto error;}
         int opcode = hdr1[0] & 0x0f;
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
-            if(dill_slow(!fragment)) {errno = EPROTO; return -1;}
+            if(dill_slow(!fragment)) {errno = EPROTO; goto error;}
             break;
         case 1:
-            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
+            if(dill_slow(fragment)) {errno = EPROTO; goto error;}
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
-            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
+            if(dill_slow(fragment)) {errno = EPROTO; goto error;}
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
@@ -419,31 +423,31 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             break;
         default:
             errno = EPROTO;
-            return -1;
+            goto error;
         }
-        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; return -1;}
+        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; goto error;}
         size_t sz = hdr1[1] & 0x7f;
         if(sz == 126) {
             uint8_t hdr2[2];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
             sz = dill_gets(hdr2);
         }
         else if(sz == 127) {
             uint8_t hdr2[8];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
             sz = dill_getll(hdr2);
         }
-        if(dill_slow(sz > SIZE_MAX / 2 - res)) {errno = EPROTO; return -1;}
+        if(dill_slow(sz > SIZE_MAX / 2 - res)) {errno = EPROTO; goto error;}
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-            errno = EPROTO; return -1;}
+            errno = EPROTO; goto error;}
         uint8_t mask[4];
         if(self->server) {
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
         }
         /* Frame may be read into multiple iolist elements. */
         size_t pos = 0;
@@ -451,7 +455,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
-                if(dill_slow(rc < 0)) return -1;
+                if(dill_slow(rc < 0)) goto error;
                 if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
@@ -464,18 +468,18 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             pos += toread;
             sz -= toread;
             if(sz == 0) break;
-            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
+            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; goto error;}
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
         fragment = 1;
     }
     if(dill_slow(closing)) {
-        if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
+        if(dill_slow(res == 1)) {errno = EPROTO; goto error;}
         if(res >= 2) {
            self->status = dill_gets((uint8_t*)&self->status);
            if(dill_slow(self->status < 1000 || self->status > 4999)) {
-               errno = EPROTO; return -1;}
+               errno = EPROTO; goto error;}
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
@@ -484,6 +488,10 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         return -1;
     }
     return res;
+error:
+    /* There's no way to find the start of the next frame. */
+    self->inerr = 1;
+    return -1;
 }
 
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
-- 
2.43.0


From 8fda40b0b5ce49b17799fd9a13d329a20218b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 39/61] fix: WebSocket close frames the protocol can't carry
 are refused

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 7a674ed..e47e331 100644
--- a/ws.c
+++ b/ws.c
@@ -548,6 +548,7 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
         (!buf && len > 0))) {errno = EINVAL; return -1;}
+    if(dill_slow(len > (status ? 123 : 0))) {errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From 5505926c2c1eb8a5b79079cf881ac6a58215bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 40/61] fix: ws_detach succeeds if the connection ends without
 the closing handshake

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index e47e331..4452254 100644
--- a/ws.c
+++ b/ws.c
@@ -577,7 +577,7 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
         ssize_t sz = dill_ws_recvl_base(&self->mvfs, NULL, &iol, &iol,
             deadline);
         if(sz < 0) {
-             if(errno == EPIPE) break;
+             if(self->indone) break;
              goto error;
         }
     }
-- 
2.43.0


From bd730c786758a51a8afd533d7d07730972237a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 41/61] fix: base64 decoder reads out of bounds if the input is
 not ASCII

---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..8a2af60 100644
--- a/utils.c
+++ b/utils.c
@@ -166,11 +166,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((uint8_t)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)(in[ii])];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From afb1961254f01d45c0c027fa6c834c31f53548a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 42/61] fix: WebSocket server accepts requests without host

The Host field is mandatory. Without it the host buffer supplied by the
user was left uninitialised although the function succeeded.
---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 4452254..bf9c48d 100644
--- a/ws.c
+++ b/ws.c
@@ -274,7 +274,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From 3a23c68462724de2821633de956865e1b8768509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 43/61] fix: ws_attach_server aborts if the socket is not a
 valid handle

---
 ws.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index bf9c48d..d736989 100644
--- a/ws.c
+++ b/ws.c
@@ -295,10 +295,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     if(dill_slow(h < 0)) {err = errno; goto error;}
     return h;
 error:
-    if(s >= 0) {
-        int rc = dill_hclose(s);
-        dill_assert(rc == 0);
-    }
+    if(s >= 0) dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From ef8aa1d1ec7fd283ea29a54c6fd74342fb8c5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 44/61] fix: SOCKS5 client overflows a buffer if both user and
 password have 255 bytes

---
 socks5.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..04bd591 100644
--- a/socks5.c
+++ b/socks5.c
@@ -106,8 +106,9 @@ static int s5_client_auth(int s, const char *username, const char *password,
             dill_assert(!!username);
             dill_assert(!!password);
             // USER/PASS AUTH - per RFC 1929
-            // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
-            uint8_t upauth[513];
+            // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN
+            // and terminating null written by strcpy)
+            uint8_t upauth[514];
             // previously range checked, safe to cast to uint8_t
             uint8_t ulen = (uint8_t)strlen(username);
             uint8_t plen = (uint8_t)strlen(password);
-- 
2.43.0


From 31a8308b24997fd8397e1d809b2676ad1fb0b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:29 +0000
Subject: [PATCH 45/61] fix: SOCKS5 proxy can abort the client by choosing a
 method that was not offered

---
 socks5.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/socks5.c b/socks5.c
index 04bd591..169349d 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // proxy must not choose a method that wasn't offered
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN
             // and terminating null written by strcpy)
@@ -129,9 +129,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
-    return -1;
 }
 
 int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
-- 
2.43.0


From 224412092df8daeb82d370b21e2483fc13291ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:29 +0000
Subject: [PATCH 46/61] fix: SOCKS5 functions fail without setting errno

---
 socks5.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socks5.c b/socks5.c
index 169349d..f56e6a5 100644
--- a/socks5.c
+++ b/socks5.c
@@ -203,6 +203,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -210,6 +211,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
@@ -248,6 +250,7 @@ static int s5_ipaddr_to_s5addr(_socks5_addr *s5, struct dill_ipaddr *addr) {
             memcpy((void *)s5->addr, (void *)&ipv6->sin6_addr, s5->alen);
             return 0;}
     }
+    errno = EINVAL;
     return -1;
 }
 
-- 
2.43.0


From 6bab979ac76983fd261aaccb259bf623d784d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 47/61] fix: SOCKS5 proxy truncates names and passwords at
 embedded nulls

User 'a\0b' was verified as 'a'.
---
 socks5.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index f56e6a5..51f8652 100644
--- a/socks5.c
+++ b/socks5.c
@@ -193,8 +193,10 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         authr[3+ulen+plen] = 0x00;
         char *uname = (char *)&authr[2];
         char *passwd = (char *)&authr[3+ulen];
+        // name or password containing a null can't be passed as a string
+        int null = memchr(uname, 0, ulen) || memchr(passwd, 0, plen);
         // attempt to determine source address
-        if((*auth_fn)(uname, passwd)) {
+        if(!null && (*auth_fn)(uname, passwd)) {
             // auth accepted based on uname, passwd, ipaddr
             goto pwauth_success;
         }
@@ -452,6 +454,8 @@ int dill_socks5_proxy_recvcommand(int s, struct dill_ipaddr *ipaddr,
             port = (uint16_t *)&(conn[4 + S5ADDR_IPV6_SZ]);
             break;
         case S5ADDR_NAME:
+            // name containing a null can't be returned as a string
+            if(memchr(conn + 5, 0, conn[4])) {errno = EPROTO; return -1;}
             // first octet is len
             memcpy((void *)&(s5addr.addr), (void *)&(conn[5]), conn[4]);
             // add null terminator
@@ -487,6 +491,8 @@ int dill_socks5_proxy_recvcommandbyname(int s, char *host, int *port,
             s5port = (uint16_t *)&(conn[4 + S5ADDR_IPV6_SZ]);
             break;
         case S5ADDR_NAME:
+            // name containing a null can't be returned as a string
+            if(memchr(conn + 5, 0, conn[4])) {errno = EPROTO; return -1;}
             // first octet is len
             memcpy((void *)host, (void *)&(conn[5]), conn[4]);
             // add null terminator
-- 
2.43.0


From d5a9f6f710aeb598d6bd6ff7009616572ca6882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 48/61] fix: fdclean accesses memory out of bounds if the
 descriptor is out of range

---
 epoll.c.inc  | 2 ++
 kqueue.c.inc | 2 ++
 poll.c.inc   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..c06701c 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* Nothing is ever cached for descriptors that are out of range. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..06b54ed 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* Nothing is ever cached for descriptors that are out of range. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index a575799..7eec3fc 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -166,6 +166,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* Nothing is ever cached for descriptors that are out of range. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From 27a2b3cafdb2e3d152d5b40c4b0e5993cdd65bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 49/61] fix: descriptor added to the pollset of poll(2)
 inherits events of another one

---
 poll.c.inc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poll.c.inc b/poll.c.inc
index 7eec3fc..75d7e4a 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,8 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
+        ctx->pollset[fdi->idx].revents = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +157,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
+        ctx->pollset[fdi->idx].revents = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
-- 
2.43.0


From dcba134efeb21173d777a7bb35276e66b2f9ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 50/61] fix: event on a descriptor nobody waits for crashes the
 scheduler (poll)

If waiting for a descriptor was cancelled the descriptor stays in the
pollset for one more iteration. If an error was reported for it then,
dill_pollset_poll pretended that a coroutine was resumed and the
scheduler took one from the empty ready queue.
---
 poll.c.inc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index 75d7e4a..a8aba79 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -197,6 +197,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int fired = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -206,11 +207,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -228,6 +231,7 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* There may be events on descriptors nobody is waiting for any more. */
+    return fired;
 }
 
-- 
2.43.0


From 588a8b7ea52b5210855c46d63fb3201a1ea40a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 51/61] fix: name resolution crashes if the system reports an
 error

dns_ai_nextent may fail with any errno value, for example if the network
of the nameserver is unreachable. No entry is returned in that case.
---
 ipaddr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..1ecf0ed 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -374,6 +374,12 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            /* System error, e.g. the nameserver is unreachable. */
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From 8fcd2aa4078e1f419b786e93c715e10fde0062e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 52/61] fix: invalid port and mode of an address are refused

ipaddr_local with a name of an interface used the port modulo 65536 or
aborted if the mode was invalid. ipaddr_remote aborted if the port was
invalid.
---
 ipaddr.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 1ecf0ed..4f4e320 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -179,7 +179,21 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
-    if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    if(dill_slow(!addr || port < 0 || port > 0xffff)) {
+        errno = EINVAL; return -1;}
+    switch(mode) {
+    case 0:
+        mode = DILL_IPADDR_PREF_IPV4;
+        break;
+    case DILL_IPADDR_IPV4:
+    case DILL_IPADDR_IPV6:
+    case DILL_IPADDR_PREF_IPV4:
+    case DILL_IPADDR_PREF_IPV6:
+        break;
+    default:
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
@@ -267,7 +281,8 @@ int dill_ipaddr_remote(struct dill_ipaddr *addr, const char *name, int port,
 int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
-    if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(!addrs || naddrs <= 0 || !name || port < 0 ||
+          port > 0xffff)) {errno = EINVAL; return -1;}
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
-- 
2.43.0


From ab28f14cc68d29eec097d833d99db34a9035b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 53/61] fix: ipaddr_local aborts if the interface has several
 addresses

---
 ipaddr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 4f4e320..3ec91a2 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -219,12 +219,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From 8e1efcdf50c512f5b54ea9ed037e66335a89e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 54/61] fix: Happy Eyeballs launches attempts at once if name
 resolution is slow

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..adecbb0 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -113,10 +113,10 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
+        nw = dill_now();
 use_address:
         /* Ignore 0.0.0.0 addresses. */
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
-- 
2.43.0


From fe651a46c54af7176633babd462b9ab42111e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:22 +0000
Subject: [PATCH 55/61] fix: happyeyeballs_connect accepts ports out of range

---
 happyeyeballs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index adecbb0..2593c2a 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -151,7 +151,8 @@ cancel:
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int res = -1;
     int err = 0;
-    if(dill_slow(!name || port <= 0)) {err = EINVAL; goto exit1;}
+    if(dill_slow(!name || port <= 0 || port > 65535)) {
+        err = EINVAL; goto exit1;}
     int chconns[2];
     struct dill_chstorage chconns_storage;
     int rc = dill_chmake_mem(&chconns_storage, chconns);
-- 
2.43.0


From d6b558a61c1cc31d2bf111e11494224233d99dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:46 +0000
Subject: [PATCH 56/61] fix: Happy Eyeballs aborts if there is not enough
 memory

---
 happyeyeballs.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 2593c2a..5c004d4 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -74,25 +74,24 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     /* According to the RFC, IPv4 and IPv6 DNS queries should be done in
        parallel. Create two coroutines and two channels to pass
        the addresses from them. */
+    int err = 0;
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit1;}
     int chipv4[2];
     struct dill_chstorage chipv4_storage;
     rc = dill_chmake_mem(&chipv4_storage, chipv4);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit2;}
     struct dill_bundle_storage bndl_storage;
     int bndl = dill_bundle_mem(&bndl_storage);
-    dill_assert(bndl >= 0);
+    if(dill_slow(bndl < 0)) {err = errno; goto exit3;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV6, chipv6[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit4;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV4, chipv4[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit4;}
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
     struct dill_ipaddr addr;
@@ -102,7 +101,7 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     };
     rc = dill_chrecv(chipv6[0], &addr, sizeof(struct dill_ipaddr),
         dill_now() + 50);
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
+    if(dill_slow(rc < 0 && errno == ECANCELED)) goto exit4;
     int idx;
     int64_t nw;
     if(dill_fast(rc == 0)) {
@@ -114,7 +113,7 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     /* From now we can use any address. */
     while(1) {
         idx = dill_choose(cls, 2, -1);
-        if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
+        if(dill_slow(idx < 0 && errno == ECANCELED)) goto exit4;
         dill_assert(idx >= 0 && errno == 0);
         nw = dill_now();
 use_address:
@@ -122,8 +121,7 @@ use_address:
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
         /* Launch the connect attempt. */
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-        dill_assert(rc == 0);
+        if(dill_slow(rc < 0)) {err = errno; goto exit4;}
         /* Alternate between IPv4 and IPv6 addresses. */
         if(idx == 0) {
             int tmp = cls[0].ch;
@@ -132,20 +130,28 @@ use_address:
         }
         /* Wait for 300ms before launching next connection attempt. */
         rc = dill_msleep(nw + 300);
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
+        if(dill_slow(rc < 0 && errno == ECANCELED)) goto exit4;
         dill_assert(rc == 0);
     }
-cancel:
+exit4:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
+exit3:
     rc = dill_hclose(chipv4[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv4[1]);
     dill_assert(rc == 0);
+exit2:
     rc = dill_hclose(chipv6[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv6[1]);
     dill_assert(rc == 0);
+exit1:
+    if(dill_fast(!err || err == ECANCELED)) return;
+    /* Out of resources. Let the main function fail. */
+    int res = -err;
+    rc = dill_chsend(ch, &res, sizeof(int), -1);
+    dill_assert(rc == 0 || errno == ECANCELED);
 }
 
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
@@ -162,6 +168,7 @@ int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int conn;
     rc = dill_chrecv(chconns[0], &conn, sizeof(int), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto exit3;}
+    if(dill_slow(conn < 0)) {err = -conn; goto exit3;}
     res = conn;
 exit3:
     rc = dill_hclose(coord);
-- 
2.43.0


From 6d38b38080e4d47ad72cc1ce62e6544c5557d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:24 +0000
Subject: [PATCH 57/61] fix: TLS aborts on unknown BIO operations

---
 tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index 7025460..ee9c247 100644
--- a/tls.c
+++ b/tls.c
@@ -457,7 +457,8 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     case BIO_CTRL_POP:
         return 0;
     default:
-        dill_assert(0);
+        /* Operations unknown to the BIO are supposed to be ignored. */
+        return 0;
     }
 }
 
-- 
2.43.0


From 4f42b4b1fb5b254cad4bb737f29a524cac350b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 58/61] fix: failed TLS handshake is reported as success

---
 tls.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index ee9c247..054e64e 100644
--- a/tls.c
+++ b/tls.c
@@ -116,15 +116,15 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     while(1) {
         ERR_clear_error();
         int rc = SSL_connect(ssl);
-        if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_tls_followup(self, rc)) {
+            if(dill_slow(errno != 0)) {err = errno; goto error3;}
+            break;
+        }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
@@ -202,15 +202,15 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     while(1) {
         ERR_clear_error();
         rc = SSL_accept(ssl);
-        if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_tls_followup(self, rc)) {
+            if(dill_slow(errno != 0)) {err = errno; goto error3;}
+            break;
+        }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
-- 
2.43.0


From fac6b1c987823351357438fd190200f1088248ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 59/61] fix: TLS handshakes ignore the deadline

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 054e64e..11d122d 100644
--- a/tls.c
+++ b/tls.c
@@ -106,7 +106,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -192,7 +192,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -244,6 +244,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->deadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -268,6 +269,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
+        self->deadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
-- 
2.43.0


From 014583c57d46233cda97c3c84e3ea03c42c5096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 60/61] fix: leak if TLS can't take over the underlying socket

---
 tls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 11d122d..5f1c539 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -182,7 +182,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
-- 
2.43.0


From 7587549ffcbeac0b35123b9de5ff1b53e2cec977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 61/61] fix: TLS receive crashes if data are to be dropped or
 the buffer is empty

---
 tls.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tls.c b/tls.c
index 5f1c539..c33216b 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -301,7 +302,8 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
-            int rc = SSL_write(self->ssl, base, len);
+            int rc = SSL_write(self->ssl, base,
+                len > INT_MAX ? INT_MAX : (int)len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -327,17 +329,21 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     while(1) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
+            /* If there's no buffer the data are dropped. */
+            uint8_t skip[512];
+            size_t toread = len;
+            if(!base && toread > sizeof(skip)) toread = sizeof(skip);
+            if(toread > INT_MAX) toread = INT_MAX;
             ERR_clear_error();
-            int rc = SSL_read(self->ssl, base, len);
+            int rc = SSL_read(self->ssl, base ? base : skip, (int)toread);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-- 
2.43.0

