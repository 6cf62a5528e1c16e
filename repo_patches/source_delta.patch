From 7fa47d9ca786e837fea09e3d22ed4eaeaa25df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 01/32] fix: kevent() must not drop EV_RECEIPT/EV_ERROR entries
 when the wait times out

---
 src/common/kevent.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 51f347b..b3946ac 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -459,8 +459,9 @@ kevent(int kqfd,
                 rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
             }
         } else if (rv == 0) {
-            /* Timeout reached */
+            /* Timeout reached, still report any entries added by copyin */
             dbg_printf("(%u) kevent_wait timedout", myid);
+            rv = el_p - eventlist;
         } else {
             dbg_printf("(%u) kevent_wait failed", myid);
             goto out;
-- 
2.43.0


From 1eadad3afcec004c476133ce48b4ccd97de54be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 02/32] fix: never dequeue more events than there are free
 eventlist slots

---
 src/common/kevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index b3946ac..5bc37d5 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -446,7 +446,7 @@ kevent(int kqfd,
             pthread_testcancel();
         }
 #endif
-        rv = kqops.kevent_wait(kq, nevents, timeout);
+        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
 #ifndef _WIN32
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
 #endif
-- 
2.43.0


From 6621e7ea8b759da61e37e78a082a48c37f9f36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 03/32] fix: do not deliver events for disabled
 EVFILT_READ/EVFILT_WRITE knotes

---
 src/linux/platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index ac69799..20568eb 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -883,7 +883,8 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
+            if ((kn = fds->fds_read) && KNOTE_ENABLED(kn) &&
+                (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
@@ -894,7 +895,8 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
+            if ((kn = write) && KNOTE_ENABLED(kn) &&
+                (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-- 
2.43.0


From 08bfa8b41591157a987e483ad18e72fbc538f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 04/32] fix: EV_ADD | EV_DISABLE must create a knote that is
 really disabled

---
 src/common/kevent.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 5bc37d5..1ee373b 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~EV_ENABLE;
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE); /* disabled (if requested) below */
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
@@ -216,8 +216,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
             if (src->flags & EV_DISABLE) {
-                kn->kev.flags |= EV_DISABLE;
-                return filt->kn_disable(filt, kn);
+                if (knote_disable(filt, kn) < 0) return (-1);
             }
             //........................................
             return (rv);
-- 
2.43.0


From 74d1e895d2e3ea416331dad9a49df59e0c872278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 05/32] fix: ignore the output only EV_EOF/EV_ERROR flags when
 creating knotes

---
 src/common/kevent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 1ee373b..bd267f5 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -197,6 +197,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
             kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE); /* disabled (if requested) below */
+            kn->kev.flags &= ~(EV_ERROR | EV_EOF); /* output only flags */
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
-- 
2.43.0


From 2b08584406bd5ad90293533629b7e082276bfbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 06/32] fix: honour EV_ONESHOT and EV_DISPATCH for EVFILT_READ
 on regular files

---
 src/linux/read.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linux/read.c b/src/linux/read.c
index a769f65..d534bc0 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -99,8 +99,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             }
             /* FIXME: race here, should we check the EOF status again ? */
 #endif
+            return (1);
         }
 
+        if (knote_copyout_flag_actions(filt, src) < 0) return -1;
+
         return (1);
     }
 
-- 
2.43.0


From e8aa076e1be5f289adc8d98cdcd8b5d0a50c9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 07/32] fix: allow EVFILT_READ on a regular file to be disabled
 after it reached EOF

---
 src/linux/read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index d534bc0..a17d8ba 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -273,7 +273,8 @@ int
 evfilt_read_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        /* Already removed from epoll if we hit the end of the file */
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
-- 
2.43.0


From 74c5375326be88ca3f714d7f53ffbb6536a32aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 08/32] fix: EVFILT_WRITE must not leave stale upper bits in
 data

---
 src/linux/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linux/write.c b/src/linux/write.c
index d253604..6989e66 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -61,10 +61,15 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     }
 
     /* On return, data contains the the amount of space remaining in the write buffer */
-    if (!(dst->flags & EV_EOF) && (ioctl(dst->ident, SIOCOUTQ, &dst->data) < 0)) {
+    if (!(dst->flags & EV_EOF)) {
+        int i;
+        if (ioctl(dst->ident, SIOCOUTQ, &i) < 0) {
             /* race condition with socket close, so ignore this error */
             dbg_puts("ioctl(2) of socket failed");
             dst->data = 0;
+        } else {
+            dst->data = i;
+        }
     }
 
 done:
-- 
2.43.0


From 711b44658cbd37bda485eb1095d345e2fd903faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 09/32] fix: do not leave a dangling knote in the fd_state if
 its fd number was reused

---
 src/linux/platform.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 20568eb..e6bc5b3 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1515,10 +1515,11 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         case EPOLL_CTL_DEL:
         case EPOLL_CTL_MOD:
             /*
-             * File descriptor went away and we weren't notified
+             * File descriptor went away (and possibly was reused
+             * for something else) and we weren't notified
              * not necessarily an error.
              */
-            if (errno == EBADF) {
+            if ((errno == EBADF) || (errno == ENOENT)) {
                 int kn_ev = 0;
 
                 if (kn == fds->fds_read) {
-- 
2.43.0


From 1d3af9ce619dc4c1ac58b729c832634ec0771558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 10/32] fix: ignore the output only EV_EOF/EV_ERROR flags when
 modifying knotes too

---
 src/common/kevent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index bd267f5..ca355f3 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -174,8 +174,13 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 {
     struct knote  *kn = NULL;
     struct filter *filt;
+    struct kevent  change = *src;
     int rv = 0;
 
+    /* EV_EOF and EV_ERROR are output only, don't let them into the knote */
+    change.flags &= ~(EV_EOF | EV_ERROR);
+    src = &change;
+
     if (src->flags & EV_DISPATCH && src->flags & EV_ONESHOT) {
         dbg_puts("Error: EV_DISPATCH and EV_ONESHOT are mutually exclusive");
         errno = EINVAL;
@@ -197,7 +202,6 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
             kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE); /* disabled (if requested) below */
-            kn->kev.flags &= ~(EV_ERROR | EV_EOF); /* output only flags */
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
-- 
2.43.0


From fbc92baffed97cca5cceed61d3c58b5ef5910895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 11/32] fix: do not register a NULL fd_state with epoll if
 allocating it fails

---
 src/linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index e6bc5b3..0361983 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1489,7 +1489,7 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     want_ev = EV_EPOLLINOUT(want);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
-        epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
+        if (epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev) < 0) return (-1);
     }
     else if (have_ev && !want_ev)       /* We have events registered but don't want any */
         opn = EPOLL_CTL_DEL;
-- 
2.43.0


From c7084658baca8fa7db2af142c341115aa982084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 12/32] fix: long timeouts must not overflow the millisecond
 value passed to epoll_wait()

---
 src/linux/platform.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 0361983..60db7ba 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -15,6 +15,7 @@
  */
 
 #define _GNU_SOURCE
+#include <limits.h>
 #include <poll.h>
 #include <signal.h>
 
@@ -664,7 +665,10 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
 
     /* Use a high-resolution syscall if the timeout value's tv_nsec value has a resolution
      * finer than a millisecond. */
-    if (ts != NULL && (ts->tv_nsec % 1000000 != 0)) {
+    if (ts != NULL &&
+        ((ts->tv_nsec % 1000000 != 0) ||
+         /* Not representable as milliseconds in an int */
+         (ts->tv_sec < 0) || (ts->tv_sec >= INT_MAX / 1000))) {
         nret = linux_kevent_wait_hires(kq, ts);
         if (nret <= 0)
             return (nret);
-- 
2.43.0


From fa87f8c2fe41730a4dc118690cf992315f612800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 13/32] fix: linux_kqueue_init must not release the kq_mtx it
 does not own on failure

---
 src/linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 60db7ba..de6f545 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -554,7 +554,7 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        tracing_mutex_unlock(&kq_mtx);
+        fd_use_cnt[kq->kq_id]--;
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From fcec4c22a716f4940720e32c54ed8d1f12335d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 14/32] fix: file descriptor 0 is a valid descriptor

---
 src/linux/platform.c | 8 ++++----
 src/linux/signal.c   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index de6f545..8070c7c 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -401,11 +401,11 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[0] = -1;
 
-        if ((kq->pipefd[1] > 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[1] >= 0) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[1] = -1;
     }
@@ -576,7 +576,7 @@ linux_kqueue_free(struct kqueue *kq)
     ssize_t ret;
     int pipefd;
 
-    if (kq->epollfd > 0) {
+    if (kq->epollfd >= 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
         if (close(kq->epollfd) < 0)
@@ -609,7 +609,7 @@ linux_kqueue_free(struct kqueue *kq)
     }
 
     pipefd = kq->pipefd[0];
-    if (pipefd > 0) {
+    if (pipefd >= 0) {
         if (close(pipefd) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index dccb03f..1ccc3b4 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -149,7 +149,7 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
     int fd;
 
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
-    if (fd > 0) {
+    if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
         kn->kn_signalfd = fd;
         return (0);
-- 
2.43.0


From 91c77573d58b00e753974468226a74291067b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 15/32] fix: modifying a timer must respect its new oneshot
 state and whether it is disabled

---
 src/linux/timer.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 2e2082d..427607a 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -209,12 +209,25 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
     convert_timedata_to_itimerspec(&ts, kev->data, kev->fflags,
                                    kev->flags & EV_ONESHOT);
     flags = (kev->fflags & NOTE_ABSOLUTE) ? TFD_TIMER_ABSTIME : 0;
-    if (timerfd_settime(kn->kn_timerfd, flags, &ts, NULL) < 0) {
-        dbg_printf("timerfd_settime(2): %s", strerror(errno));
-        return (-1);
+    /* If the knote is disabled there's no timerfd, the timer is started on enable */
+    if (KNOTE_ENABLED(kn)) {
+        int events = EPOLLIN | EPOLLET;
+
+        if (timerfd_settime(kn->kn_timerfd, flags, &ts, NULL) < 0) {
+            dbg_printf("timerfd_settime(2): %s", strerror(errno));
+            return (-1);
+        }
+
+        /* The new timer may differ in whether it should fire more than once */
+        if (kev->flags & (EV_ONESHOT | EV_DISPATCH))
+            events |= EPOLLONESHOT;
+        if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_MOD, kn->kn_timerfd, EPOLL_EV_KN(events, kn)) < 0) {
+            dbg_printf("epoll_ctl(2): %s", strerror(errno));
+            return (-1);
+        }
     }
 
-    kn->kev.flags = kev->flags | EV_CLEAR;
+    kn->kev.flags = kev->flags | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
     kn->kev.data = kev->data;
 
-- 
2.43.0


From 4838b39f36c8233ff2a4bfe3b4446227f89ff0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 16/32] fix: EVFILT_PROC must not abort if the process was
 already reaped

---
 src/linux/proc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ba7d2a2..db0c2d3 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -42,7 +42,15 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
         dbg_printf("waitid(2): %s", strerror(errno));
-        return (-1);
+        if (errno != ECHILD)
+            return (-1);
+
+        /*
+         *  The process exited, but it's not our child, or it was
+         *  already reaped, so its exit status isn't available.
+         */
+        info.si_code = CLD_EXITED;
+        info.si_status = 0;
     }
 
     /*
-- 
2.43.0


From cfa67f7bcebf3243b6a25b840250b8bba4a8804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 17/32] fix: EVFILT_PROC knotes without NOTE_EXIT can be
 deleted, enabled and disabled

---
 src/linux/proc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index db0c2d3..6600f29 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -91,6 +91,8 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0); /* not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, kn->kn_procfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return -1;
@@ -101,6 +103,8 @@ evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_disable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0); /* not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_DEL, kn->kn_procfd, NULL) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return (-1);
@@ -164,6 +168,8 @@ evfilt_proc_knote_delete(struct filter *filt, struct knote *kn)
 {
     int rv = 0;
 
+    if (kn->kn_procfd < 0) return (0); /* not monitoring anything */
+
     /* If it's enabled, we need to remove the pidfd from epoll */
     if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_disable(filt, kn) < 0)) rv = -1;
 
-- 
2.43.0


From 149e7ea01d764820415162d8ee80b319af784645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 18/32] fix: re-adding an EVFILT_PROC knote must keep it
 oneshot (and disabled), and not leak the pidfd on failure

---
 src/linux/proc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index 6600f29..9554c40 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -132,6 +132,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
     }
     if (fcntl(pfd, F_SETFD, FD_CLOEXEC) < 0) {
         dbg_perror("fcntl(2)");
+        (void) close(pfd);
         return (-1);
     }
     dbg_printf("created pidfd=%i monitoring pid=%u", pfd, (unsigned int)kn->kev.ident);
@@ -148,14 +149,23 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    return evfilt_proc_knote_enable(filt, kn);
+    /* Modifying a disabled knote must not enable it */
+    if (KNOTE_DISABLED(kn)) return (0);
+
+    if (evfilt_proc_knote_enable(filt, kn) < 0) {
+        (void) close(pfd);
+        kn->kn_procfd = -1;
+        return (-1);
+    }
+
+    return (0);
 }
 
 int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
     /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = kev->flags;
+    kn->kev.flags = kev->flags | (kn->kev.flags & (EV_ONESHOT | EV_CLEAR | EV_DISABLE));
     kn->kev.fflags = kev->fflags;
 
     if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
-- 
2.43.0


From 6ddd99c9bd00cb9a1831c40572ec564b686343bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 19/32] fix: do not leak the eventfd if creating an EVFILT_USER
 knote fails

---
 src/linux/user.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linux/user.c b/src/linux/user.c
index a24d0e9..0379598 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -129,8 +129,11 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
     kn->kn_eventfd = evfd;
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (KNOTE_ENABLED(kn))
-        return linux_evfilt_user_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (linux_evfilt_user_knote_enable(filt, kn) < 0)) {
+        (void) close(evfd);
+        kn->kn_eventfd = -1;
+        return (-1);
+    }
 
     return (0);
 }
-- 
2.43.0


From dc576b6866a53df32fcfff25609817f14d2f2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 20/32] fix: EVFILT_VNODE must not report events for which none
 of the requested fflags occurred

---
 src/linux/vnode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3c28575..e824cbf 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -137,8 +137,6 @@ add_watch(struct filter *filt, struct knote *kn)
         mask |= IN_ATTRIB;
     if (kn->kev.fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
-    if (kn->kev.flags & EV_ONESHOT)
-        mask |= IN_ONESHOT;
 
     /* Create an inotify descriptor */
     ifd = inotify_init1(IN_CLOEXEC);
@@ -261,6 +259,12 @@ scriptors reference the same file.
     if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
         dst->fflags |= NOTE_DELETE;
 
+    /* Nothing the caller asked for happened */
+    if (dst->fflags == 0) {
+        dst->filter = 0; /* KLUDGE: causes the event to be discarded */
+        return (0);
+    }
+
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
 
     return (1);
-- 
2.43.0


From 13cb2051e779e8f70b5b8d38adff105cb193201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 21/32] fix: closing another descriptor of a watched file must
 not make the EVFILT_VNODE knote oneshot

---
 src/linux/vnode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index e824cbf..3639b9d 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -217,7 +217,8 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
 scriptors reference the same file.
     */
     if (evt->mask & IN_CLOSE_WRITE || evt->mask & IN_CLOSE_NOWRITE) {
-        src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
+        if (fstat(src->kev.ident, &sb) < 0 && errno == EBADF)
+            src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
         dst->filter = 0; /* KLUDGE: causes the event to be discarded */
         return (0);
     }
-- 
2.43.0


From c494e402e1baf38d1847bf5415b722011e3d3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 22/32] fix: map indexes equal to the size of the map are out
 of bounds

---
 src/common/map.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/map.c b/src/common/map.c
index 991cda5..ef4ecbf 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -58,7 +58,7 @@ map_new(size_t len)
 int
 map_insert(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), NULL, ptr)) {
@@ -74,7 +74,7 @@ map_insert(struct map *m, int idx, void *ptr)
 int
 map_remove(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), ptr, NULL)) {
@@ -89,7 +89,7 @@ map_remove(struct map *m, int idx, void *ptr)
 int
 map_replace(struct map *m, int idx, void *oldp, void *newp)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), oldp, newp)) {
@@ -105,7 +105,7 @@ map_replace(struct map *m, int idx, void *oldp, void *newp)
 void *
 map_lookup(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
         return (NULL);
 
     return (void *)atomic_ptr_load(&m->data[idx]);
@@ -114,8 +114,8 @@ map_lookup(struct map *m, int idx)
 void *
 map_delete(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
-           return ((void *)-1);
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
+           return (NULL);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
 }
-- 
2.43.0


From efd6e7681553a17b39460b812a82444c10932858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 23/32] fix: restore the cancellation state if allocating a
 kqueue fails

---
 src/common/kqueue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c532258..9497627 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -364,8 +364,12 @@ kqueue(void)
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
-    if (kq == NULL)
+    if (kq == NULL) {
+#ifndef _WIN32
+        pthread_setcancelstate(prev_cancel_state, NULL);
+#endif
         return (-1);
+    }
 
     tracing_mutex_init(&kq->kq_mtx, NULL);
 
-- 
2.43.0


From 8faae37792ae0caa6f20ec4c446be871d7e2fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 24/32] fix: refuse kqueue descriptors beyond the FD tables of
 the monitoring thread

fd_map and fd_use_cnt are sized from the descriptor limit at the time the
monitoring thread starts.  When the limit is raised later, a kqueue whose
descriptors lie beyond them was recorded out of bounds.
---
 src/linux/platform.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 8070c7c..a605978 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -535,6 +535,16 @@ linux_kqueue_init(struct kqueue *kq)
             goto error;
     }
 
+    /*
+     * The FD tables were sized when the monitoring thread was started,
+     * the limit may have been raised since.
+     */
+    if ((kq->pipefd[0] >= nb_max_fd) || (kq->kq_id >= nb_max_fd)) {
+        dbg_printf("kq=%p - fd=%i out of range of the FD map", kq, kq->kq_id);
+        errno = EMFILE;
+        goto error;
+    }
+
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-- 
2.43.0


From 213f53041e3e2a589c0185ee42b5aea41ff1c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:36 +0000
Subject: [PATCH 25/32] fix: don't close an application descriptor in the
 forked child

When a kqueue is closed and its number reused before the monitoring thread
has noticed, a fork in between made the child close whatever had taken over
the number of the kqueue.
---
 src/linux/platform.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index a605978..f248c49 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -358,6 +358,7 @@ static void
 linux_libkqueue_fork(void)
 {
     struct kqueue *kq, *kq_tmp;
+    char buffer;
 
     /*
      * We don't have to cancel the monitor thread here
@@ -401,13 +402,20 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
+        /*
+         * EOF means the application closed the kqueue before the
+         * fork, and the monitoring thread hadn't noticed yet.
+         * The FD may already be in use for something else, so it's
+         * not ours to close.
+         */
+        if ((kq->pipefd[1] >= 0) && (read(kq->pipefd[0], &buffer, 1) != 0) &&
+            (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[0] = -1;
+        kq->pipefd[1] = -1;
 
-        if ((kq->pipefd[1] >= 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[1] = -1;
+        kq->pipefd[0] = -1;
     }
 }
 
-- 
2.43.0


From 3196d1cef87fab89641cbeba4ba32a36c2678c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:03 +0000
Subject: [PATCH 26/32] fix: don't wait forever for a monitoring thread that
 failed to start

---
 src/linux/platform.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index f248c49..a81a257 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -41,6 +41,7 @@ static pid_t monitoring_tid; /* Monitoring thread */
 
 static pthread_mutex_t monitoring_thread_mtx = PTHREAD_MUTEX_INITIALIZER;
 static pthread_cond_t monitoring_thread_cond = PTHREAD_COND_INITIALIZER;
+static int monitoring_thread_started; /* 0 starting, 1 started, -1 failed to start */
 
 enum thread_exit_state {
     THREAD_EXIT_STATE_SELF_CANCEL = 0,
@@ -262,6 +263,18 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
     error:
+        /*
+         * Tell linux_kqueue_start_thread() that we failed,
+         * otherwise it'd wait for us forever.
+         */
+        monitoring_tid = 0;
+        pthread_detach(pthread_self());
+
+        pthread_mutex_lock(&monitoring_thread_mtx);
+        monitoring_thread_started = -1;
+        pthread_cond_signal(&monitoring_thread_cond);
+        pthread_mutex_unlock(&monitoring_thread_mtx);
+
         return NULL;
     }
     for (i = 0; i < nb_max_fd; i++)
@@ -270,6 +283,7 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
     if (fd_use_cnt == NULL){
         free(fd_map);
+        fd_map = NULL;
         goto error;
     }
 
@@ -277,6 +291,7 @@ monitoring_thread_loop(UNUSED void *arg)
      * Now that thread is initialized, let kqueue init resume
      */
     pthread_mutex_lock(&monitoring_thread_mtx);    /* Must try to lock to ensure parent is waiting on signal */
+    monitoring_thread_started = 1;
     pthread_cond_signal(&monitoring_thread_cond);
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
@@ -336,7 +351,10 @@ monitoring_thread_loop(UNUSED void *arg)
 static int
 linux_kqueue_start_thread(void)
 {
+    int started;
+
     pthread_mutex_lock(&monitoring_thread_mtx);
+    monitoring_thread_started = 0;
     if (pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL)) {
          dbg_perror("linux_kqueue_start_thread failure");
          pthread_mutex_unlock(&monitoring_thread_mtx);
@@ -344,10 +362,11 @@ linux_kqueue_start_thread(void)
          return (-1);
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
-    pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    while ((started = monitoring_thread_started) == 0)
+        pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
-    return (0);
+    return (started == 1 ? 0 : -1);
 }
 
 /** Free kqueues on fork
-- 
2.43.0


From 63529c493af1851fcdac5418375b4997a18b3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:33 +0000
Subject: [PATCH 27/32] fix: a late closure notification must not free a kqueue
 that's still in use

If the read side of the pipe of a closed kqueue was reused by a new kqueue
before the monitoring thread handled the notification, the new kqueue was
freed (or the library asserted), and the use counts were wrong from then on.
Ask the pipe whether the kqueue was really closed instead of counting.
---
 src/linux/platform.c | 91 +++++++++++---------------------------------
 1 file changed, 23 insertions(+), 68 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index a81a257..892d118 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -58,18 +58,11 @@ static enum thread_exit_state monitoring_thread_state;
  * Map for kqueue pipes where index is the read side (for which signals are received)
  * and value is the write side that gets closed and corresponds to the kqueue id.
  *
- * @note Values in the fd_map are never cleared, as we still need to decrement
- * fd_use_cnt when signals for a particular FD are received.
+ * @note Values in the fd_map are never cleared, and may have been overwritten by the
+ * time a signal is received, as both sides of the pipe can be reused by new kqueues.
  */
 static int *fd_map;
 
-/*
- * Map kqueue id to counter for kq cleanups.
- * When use counter is at 0, cleanup can be performed by signal handler.
- * Otherwise, it means cleanup was already performed for this FD in linux_kqueue_reused.
- */
-static unsigned int *fd_use_cnt;
-
 static int nb_max_fd;
 
 static void
@@ -123,25 +116,13 @@ monitoring_thread_cleanup(UNUSED void *arg)
              */
             dbg_printf("kq=%p - fd=%i explicitly checking for closeure", kq, kq->kq_id);
             if (fcntl(kq->kq_id, F_GETFD) < 0) {
-                dbg_printf("kq=%p - fd=%i forcefully cleaning up, current use_count=%u: %s",
-                           kq,
-                           kq->kq_id, fd_use_cnt[kq->kq_id],
+                dbg_printf("kq=%p - fd=%i forcefully cleaning up: %s",
+                           kq, kq->kq_id,
                            errno == EBADF ? "File descriptor already closed" : strerror(errno));
-                fd_use_cnt[kq->kq_id] = 0;
-            } else {
-                /*
-                 * If there's no use cnt for the kqueue then something
-                 * has gone very wrong.
-                 */
-                assert(fd_use_cnt[kq->kq_id] > 0);
-            }
-
-            if (fd_use_cnt[kq->kq_id] == 0) {
-                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
                 kqueue_free(kq);
             } else {
-                dbg_printf("kq=%p - fd=%i is alive use_count=%u.  Skipping, this is likely a leak...",
-                           kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+                dbg_printf("kq=%p - fd=%i is alive.  Skipping, this is likely a leak...",
+                           kq, kq->kq_id);
             }
         }
 
@@ -155,8 +136,6 @@ monitoring_thread_cleanup(UNUSED void *arg)
     /* Free thread resources */
     free(fd_map);
     fd_map = NULL;
-    free(fd_use_cnt);
-    fd_use_cnt = NULL;
 
     /* Reset so that thread can be restarted */
     monitoring_tid = 0;
@@ -175,6 +154,7 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
 {
     int fd;
     struct kqueue *kq;
+    char buffer;
 
     /*
      * Signal is received for read side of pipe
@@ -187,44 +167,33 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
         return;
     }
 
+    /*
+     * The kqueue the signal was sent for may already have
+     * been freed by kqueue(), because its id was reused.
+     */
     kq = kqueue_lookup(fd);
     if (!kq) {
-        /* Should not happen */
         dbg_printf("fd=%i - no kqueue associated", fd);
-        assert(0);
         return;
     }
 
     /*
-     * We should never have more pending signals than we have
-     * allocated kqueues against a given ID.
-     */
-    assert(fd_use_cnt[kq->kq_id] > 0);
-
-    /*
-     * Decrement use counter as signal handler has been run for
-     * this FD.  We rely on using an RT signal so that multiple
-     * signals are queued.
-     *
-     * Use count is tracked with the kq_id.
-     */
-    fd_use_cnt[kq->kq_id]--;
-
-    /*
-     * If kqueue instance for this FD hasn't been cleaned up yet
-     *
-     * When the main kqueue code frees a kq, the file descriptor
-     * of the kq often gets reused.
+     * When the main kqueue code frees a kq, both the file
+     * descriptor of the kq and that of the read side of its
+     * pipe often get reused, possibly by different kqueues,
+     * so the kqueue we found may not be the one the signal
+     * was sent for.
      *
-     * We maintain a count of how many allocations have been
-     * performed against a given file descriptor ID, and only
-     * free the kqueue here if that count is zero.
+     * Reading EOF means the write side has been closed, and
+     * the kqueue can be freed, whichever signal told us.
+     * Otherwise it's still in use, and we'll receive another
+     * signal when it is closed.
      */
-    if (fd_use_cnt[kq->kq_id] == 0) {
-        dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, fd, fd_use_cnt[kq->kq_id]);
+    if (read(kq->pipefd[0], &buffer, 1) == 0) {
+        dbg_printf("kq=%p - fd=%i cleaning up...", kq, fd);
         kqueue_free(kq);
     } else {
-        dbg_printf("kq=%p - fd=%i use_count=%u skipping...", kq, fd, fd_use_cnt[kq->kq_id]);
+        dbg_printf("kq=%p - fd=%i still in use, skipping...", kq, fd);
     }
 }
 
@@ -262,7 +231,6 @@ monitoring_thread_loop(UNUSED void *arg)
 
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
-    error:
         /*
          * Tell linux_kqueue_start_thread() that we failed,
          * otherwise it'd wait for us forever.
@@ -280,13 +248,6 @@ monitoring_thread_loop(UNUSED void *arg)
     for (i = 0; i < nb_max_fd; i++)
         fd_map[i] = -1;
 
-    fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
-    if (fd_use_cnt == NULL){
-        free(fd_map);
-        fd_map = NULL;
-        goto error;
-    }
-
     /*
      * Now that thread is initialized, let kqueue init resume
      */
@@ -575,11 +536,6 @@ linux_kqueue_init(struct kqueue *kq)
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-    /* Mark this id as in use */
-    fd_use_cnt[kq->kq_id]++;
-
-    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
-
     assert(monitoring_tid != 0);
 
     /*
@@ -591,7 +547,6 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        fd_use_cnt[kq->kq_id]--;
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From 4aa140be07a600194715aca12534cca2c634ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:00 +0000
Subject: [PATCH 28/32] fix: don't close a descriptor that took over the number
 of a closed kqueue

If another reference to the write end of its pipe exists (dup(2), fork(2))
when a closed kqueue is released, its number isn't ours to close: kqueue()
releases it because the number now belongs to the kqueue being created.
---
 src/linux/platform.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 892d118..e0a84ce 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -584,15 +584,10 @@ linux_kqueue_free(struct kqueue *kq)
      */
     ret = read(kq->pipefd[0], &buffer, 1);
     if (ret == -1 && errno == EWOULDBLOCK) {
-        // Shoudn't happen unless kqops.kqueue_free is called on an open FD
-        dbg_puts("kqueue wasn't closed");
-
-        if (close(kq->pipefd[1]) < 0) {
-            dbg_perror("close(2) - pipefd[1]=%i", kq->pipefd[1]);
-        } else {
-            dbg_printf("pipefd[1]=%i - closed", kq->pipefd[1]);
-        }
-        kq->pipefd[1] = -1;
+        // Another reference to the write end exists (dup(2), fork(2)),
+        // the FD itself was closed by the application, and may since
+        // have been reused, so it's not ours to close.
+        dbg_puts("kqueue pipe wasn't closed");
     } else if (ret > 0) {
         // Shouldn't happen unless data is written to kqueue FD
         // Ignore write and continue with close
-- 
2.43.0


From 5a5f7cd9c13a85e71c288f449a5e02927991885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:02 +0000
Subject: [PATCH 29/32] fix: release everything when a new kqueue doesn't fit
 in the map

The filters were unregistered without holding the lock of the kqueue (which
is asserted), and the descriptors of the back end were never closed.
---
 src/common/kqueue.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 9497627..722da0a 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -400,7 +400,13 @@ kqueue(void)
 
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
+        kqueue_lock(kq);
         filter_unregister_all(kq);
+        kqops.kqueue_free(kq);
+        kqueue_unlock(kq);
+#ifdef __linux__
+        close(kq->kq_id);               /* Usually left to the application */
+#endif
         tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
-- 
2.43.0


From 279b3b2d5ec116cdd07ea673acec29d90a8b6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 30/32] fix: EVFILT_VNODE must not evaluate a stat buffer that
 fstat(2) did not fill

---
 src/linux/vnode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3639b9d..d2dcc00 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -229,8 +229,8 @@ scriptors reference the same file.
 
     /* No error checking because fstat(2) should rarely fail */
     //FIXME: EINTR
-    if (fstat(src->kev.ident, &sb) < 0 && errno == ENOENT) {
-        if (src->kev.fflags & NOTE_DELETE)
+    if (fstat(src->kev.ident, &sb) < 0) {
+        if (errno == ENOENT && src->kev.fflags & NOTE_DELETE)
             dst->fflags |= NOTE_DELETE;
     } else {
         if ((evt->mask & IN_ATTRIB || evt->mask & IN_MODIFY)) {
-- 
2.43.0


From 69b67e97f1f2d93efcca41f322691522e5512b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 31/32] fix: don't lose events which didn't fit because a
 descriptor was both readable and writable

---
 src/linux/platform.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index e0a84ce..db909aa 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -809,6 +809,34 @@ epoll_event_dump(const struct epoll_event *ev)
     return ((const char *) buf);
 }
 
+/** Have epoll report a file descriptor again
+ *
+ * Used where there's no space to report that a file descriptor is writable,
+ * epoll wouldn't repeat an edge triggered event by itself.
+ *
+ * @param[in] kq    the file descriptor was registered with.
+ * @param[in] fds   to report again.
+ */
+static void
+linux_kevent_copyout_defer(struct kqueue *kq, struct fd_state *fds)
+{
+    int    events = 0, et = EPOLLET;
+
+    if (fds->fds_read && KNOTE_ENABLED(fds->fds_read)) {
+        events |= fds->fds_read->epoll_events;
+        et &= fds->fds_read->epoll_events;
+    }
+    if (fds->fds_write && KNOTE_ENABLED(fds->fds_write)) {
+        events |= fds->fds_write->epoll_events;
+        et &= fds->fds_write->epoll_events;
+    }
+    events = (events & ~EPOLLET) | et;
+
+    dbg_printf("fd=%i deferring write event", fds->fds_fd);
+    if (epoll_ctl(kqueue_epoll_fd(kq), EPOLL_CTL_MOD, fds->fds_fd, EPOLL_EV_FDS(events, fds)) < 0)
+        dbg_perror("epoll_ctl(2)");
+}
+
 int
 linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int nevents)
 {
@@ -888,7 +916,15 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
              */
             if ((kn = write) && KNOTE_ENABLED(kn) &&
                 (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
-                if (el_p >= el_end) goto oos;
+                /*
+                 * There must be a slot left for each of the events
+                 * we've not looked at yet, as epoll may not report
+                 * them again.
+                 */
+                if ((el_end - el_p) < (nready - i)) {
+                    linux_kevent_copyout_defer(kq, fds);
+                    break;
+                }
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
                 if (rv < 0) goto done;
-- 
2.43.0


From eb7d7cfdada087aea19e4fc1bf69ca19d10a2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 32/32] fix: a registration of a descriptor must keep its epoll
 options when the other one changes

---
 src/linux/platform.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index db909aa..f033276 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1510,6 +1510,21 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         return (-1);
     }
 
+    /*
+     * The FD is only registered once, so the registration needs the
+     * options of the other knote too, and can only be edge triggered
+     * if that's what both knotes asked for.
+     */
+    if (fds && (op != EPOLL_CTL_MOD)) {
+        struct knote *other = (ev & EPOLLIN) ? fds->fds_write : fds->fds_read;
+
+        if (other && KNOTE_ENABLED(other)) {
+            want |= other->epoll_events;
+            if (!(other->epoll_events & EPOLLET) || ((op == EPOLL_CTL_ADD) && !(ev & EPOLLET)))
+                want &= ~EPOLLET;
+        }
+    }
+
     /*
      * We only want the read/write flags for comparisons.
      */
-- 
2.43.0

