/* Ghost kernel bodies: see kernel.h.  Compiled without the vp.h redirections. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/wait.h>
#include <linux/sockios.h>
#include "kernel.h"

struct kernel K;

#define FOREACH_FD(i) for (int i = 0; i < NKFD; i++)

int k_slot(int fd)
{
    if (fd < 0) return -1;
    FOREACH_FD(i) if (K.fd[i].open && K.fd[i].num == fd) return i;
    return -1;
}
int k_owned(void)
{
    int n = 0;
    FOREACH_FD(i) if (K.fd[i].open && K.fd[i].own) n++;
    return n;
}
_Bool k_in_range(const void *p, const void *lo, const void *hi)
{
#ifdef VP_CBMC
    return __CPROVER_same_object(p, lo) && __CPROVER_POINTER_OFFSET(p) >= __CPROVER_POINTER_OFFSET(lo) &&
           __CPROVER_POINTER_OFFSET(p) < __CPROVER_POINTER_OFFSET(hi);
#else
    return (uintptr_t)p >= (uintptr_t)lo && (uintptr_t)p < (uintptr_t)hi;
#endif
}
int k_refs(const void *lo, const void *hi)
{
    int n = 0;
    FOREACH_FD(i) if (K.fd[i].open && K.fd[i].reg && k_in_range(K.fd[i].ptr, lo, hi)) n++;
    return n;
}
int k_regs(void)
{
    int n = 0;
    FOREACH_FD(i) if (K.fd[i].open && K.fd[i].reg) n++;
    return n;
}
_Bool k_clean(void)
{
    return !K.bad_close && !K.foreign_close && !K.would_block && !K.null_event && !K.alien_epfd && !K.aborted;
}

int k_new_fd(int kind)
{
    int s = -1;
    FOREACH_FD(i) if (s < 0 && !K.fd[i].open) s = i;
    CHECK(s >= 0, "MODEL: ghost descriptor table full");
    if (s < 0) return -1;
    int num = ND_INT(newfd);
    ASSUME(num >= 0 && num <= 1000000 && k_slot(num) < 0);
    AT(s) {
        kF.open = 1;
        kF.own = 1;
        kF.kind = kind;
        kF.num = num;
        kF.reg = 0;
        kF.nonblock = 0;
        kF.cloexec = 0;
        kF.cnt = 0;
        kF.timer_set = 0;
        kF.inmask = 0;
        kF.wd = -1;
        kF.sigs = 0;
        kF.pid = 0;
    }
    return s;
}
static int new_fd_or_fail(int kind)
{
    if (K.syscalls_may_fail && ND_BOOL(newfd_fails)) { K.err = EMFILE; return -1; }
    return k_new_fd(kind);
}

void k_abort(void) { K.aborted = 1; CHECK(0, "library called abort()"); ASSUME(0); }

void *k_calloc(size_t n, size_t s)
{
    if (K.alloc_may_fail && ND_BOOL(alloc_fails)) { K.err = ENOMEM; return NULL; }
    void *p = calloc(n, s);
    ASSUME(p != NULL);
    K.nalloc++;
    return p;
}
void *k_malloc(size_t s)
{
    if (K.alloc_may_fail && ND_BOOL(alloc_fails)) { K.err = ENOMEM; return NULL; }
    void *p = malloc(s);
    ASSUME(p != NULL);
    K.nalloc++;
    return p;
}
char *k_strdup(const char *s)
{
    size_t n = 0;
    while (n < 15 && s[n]) n++;     /* the strings of the harnesses are short */
    char *p = k_malloc(n + 1);
    if (p == NULL) return NULL;
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    p[n] = 0;
    return p;
}
void k_free(void *p) { if (p != NULL) K.nalloc--; free(p); }

int k_close(int fd)
{
    int s = k_slot(fd);
    if (s < 0) {
        if (fd >= 0) K.bad_close = 1;
        K.err = EBADF;
        return -1;
    }
    AT(s) {
        if (!kF.own) K.foreign_close = 1;
        kF.open = 0;
        kF.reg = 0;
        return 0;
    }
    return -1;
}

ssize_t k_read(int fd, void *buf, size_t n)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        CHECK(kF.own || kF.kind == KF_KQPIPE, "[C12 C16] the application's descriptor is not read");
        switch (kF.kind) {
        case KF_EVENTFD:
        case KF_TIMERFD:
            if (n < 8) { K.err = EINVAL; return -1; }
            if (kF.cnt == 0) {
                if (!kF.nonblock) K.would_block = 1;
                K.err = EAGAIN;
                return -1;
            }
            *(uint64_t *)buf = kF.cnt;
            kF.cnt = 0;
            return 8;
        case KF_SIGNALFD:
            if (n < sizeof(struct signalfd_siginfo)) { K.err = EINVAL; return -1; }
            if (kF.cnt == 0) {
                if (!kF.nonblock) K.would_block = 1;
                K.err = EAGAIN;
                return -1;
            }
            kF.cnt--;
            return sizeof(struct signalfd_siginfo);
        case KF_INOTIFY:
            if (K.in_eintr) { K.in_eintr = 0; K.err = EINTR; return -1; }
            K.in_reads++;
            if (n < sizeof(struct inotify_event) + K.in_len) { K.err = EINVAL; return -1; }
            ((struct inotify_event *)buf)->wd = kF.wd;
            ((struct inotify_event *)buf)->mask = K.in_mask;
            ((struct inotify_event *)buf)->cookie = 0;
            ((struct inotify_event *)buf)->len = K.in_len;
            return sizeof(struct inotify_event) + K.in_len;
        case KF_KQPIPE:
            if (kF.cnt == 0) { K.err = EWOULDBLOCK; return -1; }
            return 0; /* write side closed */
        default:
            K.would_block = 1;
            K.err = EINVAL;
            return -1;
        }
    }
    return -1;
}

ssize_t k_write(int fd, const void *buf, size_t n)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        if (kF.kind == KF_EVENTFD) {
            if (n < 8) { K.err = EINVAL; return -1; }
            uint64_t v = *(const uint64_t *)buf;
            if (v > 0xfffffffffffffffeULL - kF.cnt) {
                if (!kF.nonblock) K.would_block = 1;
                K.err = EAGAIN;
                return -1;
            }
            kF.cnt += v;
            return 8;
        }
        CHECK(kF.own || kF.kind == KF_KQPIPE, "[C12 C16] the application's descriptor is not written");
        K.err = EINVAL;
        return -1;
    }
    return -1;
}
int k_eventfd_write(int fd, uint64_t v) { return k_write(fd, &v, 8) == 8 ? 0 : -1; }
int k_eventfd_read(int fd, uint64_t *v) { return k_read(fd, v, 8) == 8 ? 0 : -1; }
ssize_t k_recv(int fd, void *buf, size_t n, int flags)
{
    (void)buf; (void)n;
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        CHECK(flags & MSG_PEEK, "[C12 C16] the application's descriptor is not read");
        if (kF.kind != KF_SOCK) { K.err = ENOTSOCK; return -1; }
    }
    if (K.inq_fails || K.inq < 0) { K.err = EAGAIN; return -1; }
    return K.inq;
}
int k_setsockopt(int fd, int level, int opt, const void *v, socklen_t n)
{
    (void)fd; (void)level; (void)opt; (void)v; (void)n;
    CHECK(0, "[C16 C22] no option of the application's descriptor is changed");
    return 0;
}

off_t k_lseek(int fd, off_t off, int whence)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    if (K.lseek_fails) { K.err = ESPIPE; return -1; }
    CHECK(whence == SEEK_CUR && off == 0, "library must not move the application's file offset");
    return K.file_pos;
}

int k_fstat(int fd, struct stat *sb)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    if (K.fstat_fails) { K.err = K.fstat_err; return -1; }
    AT(s) {
        switch (kF.kind) {
        case KF_REG:  sb->st_mode = S_IFREG; break;
        case KF_DIR:  sb->st_mode = S_IFDIR; break;
        case KF_PIPE: sb->st_mode = S_IFIFO; break;
        case KF_BLK:  sb->st_mode = S_IFBLK; break;
        case KF_CHR:  sb->st_mode = S_IFCHR; break;
        case KF_SOCK: sb->st_mode = S_IFSOCK; break;
        default:      sb->st_mode = 0; break;
        }
        sb->st_mode |= 0600;
        sb->st_size = K.file_size;
        sb->st_nlink = K.file_nlink;
        return 0;
    }
    return -1;
}

int k_fcntl(int fd, int cmd, long arg, int dummy)
{
    int s = k_slot(fd);
    (void)dummy;
    int call = K.fcntl_calls++;
    if (s < 0) { K.err = EBADF; return -1; }
    if (call == K.fcntl_fail_at) { K.err = EINVAL; return -1; }
    AT(s) {
        CHECK(kF.own || kF.kind == KF_KQPIPE || cmd == F_GETFD || cmd == F_GETFL, "[C16 C22] no setting of the application's descriptor is changed");
        switch (cmd) {
        case F_GETFL: return kF.nonblock ? O_NONBLOCK : 0;
        case F_GETFD: return kF.cloexec ? FD_CLOEXEC : 0;
        case F_SETFD: kF.cloexec = (arg & FD_CLOEXEC) != 0; return 0;
        case F_SETFL:
            kF.nonblock = (arg & O_NONBLOCK) != 0;
            if (arg & O_ASYNC) K.async_fd = fd;
            return 0;
        case F_SETSIG: K.setsig = (int)arg; K.setsig_fd = fd; return 0;
        case F_SETOWN_EX: K.setown_tid = ((struct f_owner_ex *)arg)->pid; K.setown_type = ((struct f_owner_ex *)arg)->type; K.setown_fd = fd; return 0;
        }
    }
    return 0;
}

int k_ioctl(int fd, unsigned long req, void *arg)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    if (req == SIOCINQ) {
        if (K.inq_fails) { K.err = EINVAL; return -1; }
        *(int *)arg = K.inq;
        return 0;
    }
    if (req == SIOCOUTQ) {
        if (K.outq_fails) { K.err = EINVAL; return -1; }
        *(int *)arg = K.outq;
        return 0;
    }
    K.err = EINVAL;
    return -1;
}

long k_syscall(long n, long a, long b)
{
    if (n == SYS_pidfd_open) {
        if (b != 0) { K.err = EINVAL; return -1; }
        if (K.pid_gone) { K.err = ESRCH; return -1; }
        int s = new_fd_or_fail(KF_PIDFD);
        AT(s) {
            kF.pid = (int)a;
            kF.cloexec = 1;
            return kF.num;
        }
        return -1;
    }
    if (n == SYS_gettid) return 77;
    K.err = ENOSYS;
    return -1;
}

int k_getsockopt(int fd, int level, int opt, void *val, socklen_t *len)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        if (kF.kind != KF_SOCK) { K.err = ENOTSOCK; return -1; }
        if (level != SOL_SOCKET) { K.err = EINVAL; return -1; }
        switch (opt) {
        case SO_TYPE:
            if (K.sock_type_fails) { K.err = K.sock_opt_err; return -1; }
            *(int *)val = K.sock_type;
            return 0;
        case SO_ACCEPTCONN:
            if (K.sock_listen_fails) { K.err = K.sock_opt_err; return -1; }
            *(int *)val = K.sock_listen;
            return 0;
        case SO_ERROR:
            if (K.sock_error_fails) { K.err = K.sock_opt_err; return -1; }
            *(int *)val = K.sock_error;
            return 0;
#ifdef SO_GET_FILTER
        case SO_GET_FILTER:
            if (K.sock_filter_fails) { K.err = K.sock_opt_err; return -1; }
            *len = K.sock_filter_len;
            return 0;
#endif
        }
        K.err = ENOPROTOOPT;
        return -1;
    }
    return -1;
}

int k_eventfd(unsigned cnt, int flags)
{
    int s = new_fd_or_fail(KF_EVENTFD);
    if (s < 0) return -1;
    AT(s) {
        kF.cnt = cnt;
        kF.nonblock = (flags & EFD_NONBLOCK) != 0;
        kF.cloexec = (flags & EFD_CLOEXEC) != 0;
        return kF.num;
    }
    return -1;
}

int k_epoll_create1(int flags);
int k_epoll_create(int n) { (void)n; return k_epoll_create1(0); }
int k_epoll_create1(int flags)
{
    int s = new_fd_or_fail(KF_EPOLL);
    if (s < 0) return -1;
    AT(s) {
        kF.cloexec = (flags & EPOLL_CLOEXEC) != 0;
        K.epfd = kF.num;
        return kF.num;
    }
    return -1;
}

/* epoll_ctl(2), including the exact errno protocol the library relies on */
int k_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
    int e = k_slot(ep);
    if (ep != K.epfd || e < 0) {
        if (ep >= 0) K.alien_epfd = 1;
        K.err = EBADF;
        return -1;
    }
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        if (kF.kind == KF_REG || kF.kind == KF_DIR) { K.err = EPERM; return -1; }
        switch (op) {
        case EPOLL_CTL_ADD:
            if (ev == NULL) { K.null_event = 1; K.err = EFAULT; return -1; }
            if (kF.reg) { K.err = EEXIST; return -1; }
            if (K.syscalls_may_fail && ND_BOOL(epoll_add_fails)) { K.err = ND_BOOL(epoll_enomem) ? ENOMEM : ENOSPC; return -1; }
            kF.reg = 1;
            kF.ev = ev->events;
            kF.ptr = ev->data.ptr;
            kF.armed = 1;
            return 0;
        case EPOLL_CTL_MOD:
            if (ev == NULL) { K.null_event = 1; K.err = EFAULT; return -1; }
            if (!kF.reg) { K.err = ENOENT; return -1; }
            kF.ev = ev->events;
            kF.ptr = ev->data.ptr;
            kF.armed = 1;
            return 0;
        case EPOLL_CTL_DEL:
            if (!kF.reg) { K.err = ENOENT; return -1; }
            kF.reg = 0;
            return 0;
        }
        K.err = EINVAL;
        return -1;
    }
    return -1;
}

int k_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout)
{
    k_cancel_point();
    CHECK(max > 0, "[C15] epoll_wait is given room");
#ifdef VP_CBMC
    CHECK(__CPROVER_w_ok(evs, (size_t)max * sizeof(*evs)), "[C15 C16] the kernel writes only into the event buffer");
#endif
    (void)evs;
    K.wait_calls++;
    K.wait_timeout = timeout;
    K.wait_max = max;
    K.wait_on_epfd = (ep == K.epfd);
    int r = ND_INT(epoll_wait_ret);
    ASSUME(r >= -1 && r <= max);
    if (r < 0) K.err = ND_BOOL(wait_eintr) ? EINTR : EINVAL;
    K.wait_ret = r;
    return r;
}
int k_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
    (void)ss;
    k_cancel_point();
    K.ppoll_calls++;
    K.ppoll_null = (ts == NULL);
    if (ts) { K.ppoll_sec = ts->tv_sec; K.ppoll_nsec = ts->tv_nsec; }
    K.ppoll_on_epfd = (n == 1 && fds[0].fd == K.epfd && (fds[0].events & POLLIN));
    int r = ND_INT(ppoll_ret);
    ASSUME(r >= -1 && r <= 1);
    if (r < 0) K.err = ND_BOOL(wait_eintr) ? EINTR : EINVAL;
    K.ppoll_ret = r;
    return r;
}

int k_poll(struct pollfd *fds, nfds_t n, int ms)
{
    struct timespec ts = { ms / 1000, (long)(ms % 1000) * 1000000 };
    return k_ppoll(fds, n, ms < 0 ? NULL : &ts, NULL);
}
int k_epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *ss) { (void)ss; return k_epoll_wait(ep, evs, max, timeout); }

int k_pipe2(int p[2], int flags)
{
    int a = new_fd_or_fail(KF_KQPIPE);
    if (a < 0) return -1;
    int b = k_new_fd(KF_KQPIPE);
    if (b < 0) return -1;
    AT(a) { kF.cloexec = (flags & O_CLOEXEC) != 0; kF.nonblock = (flags & O_NONBLOCK) != 0; p[0] = kF.num; }
    AT(b) { kF.cloexec = (flags & O_CLOEXEC) != 0; kF.nonblock = (flags & O_NONBLOCK) != 0; p[1] = kF.num; }
    K.pipe_fd[0] = p[0];
    K.pipe_fd[1] = p[1];
    return 0;
}
int k_pipe(int p[2]) { return k_pipe2(p, 0); }

int k_timerfd_create(int clk, int flags)
{
    int s = new_fd_or_fail(KF_TIMERFD);
    if (s < 0) return -1;
    AT(s) {
        kF.clk = clk;
        kF.nonblock = (flags & TFD_NONBLOCK) != 0;
        kF.cloexec = (flags & TFD_CLOEXEC) != 0;
        return kF.num;
    }
    return -1;
}
int k_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    (void)o;
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        if (kF.kind != KF_TIMERFD ||
            n->it_value.tv_sec < 0 || n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 ||
            n->it_interval.tv_sec < 0 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec > 999999999) {
            K.err = EINVAL;
            return -1;
        }
        kF.ts = *n;
        kF.tflags = flags;
        kF.timer_set = 1;
        kF.cnt = 0;
        return 0;
    }
    return -1;
}

int k_timerfd_gettime(int fd, struct itimerspec *cur)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) { if (kF.kind != KF_TIMERFD) { K.err = EINVAL; return -1; } *cur = kF.ts; return 0; }
    return -1;
}

int k_inotify_init1(int flags);
int k_inotify_init(void) { return k_inotify_init1(0); }
int k_inotify_init1(int flags)
{
    int s = new_fd_or_fail(KF_INOTIFY);
    if (s < 0) return -1;
    AT(s) {
        kF.nonblock = (flags & IN_NONBLOCK) != 0;
        kF.cloexec = (flags & IN_CLOEXEC) != 0;
        return kF.num;
    }
    return -1;
}
int k_inotify_add_watch(int fd, const char *path, uint32_t mask)
{
    (void)path;
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        if (kF.kind != KF_INOTIFY || mask == 0) { K.err = EINVAL; return -1; }
        if (K.syscalls_may_fail && ND_BOOL(watch_fails)) { K.err = ENOSPC; return -1; }
        kF.inmask = mask;
        kF.wd = 1;
        return 1;
    }
    return -1;
}
int k_inotify_rm_watch(int fd, int wd)
{
    int s = k_slot(fd);
    if (s < 0) { K.err = EBADF; return -1; }
    AT(s) {
        if (kF.wd != wd || wd < 0) { K.err = EINVAL; return -1; }
        kF.inmask = 0;
        kF.wd = -1;
        return 0;
    }
    return -1;
}

/* signal sets: only the low 64 bits (signals 1..64) exist on Linux */
int k_sigemptyset(sigset_t *s) { ((uint64_t *)s)[0] = 0; return 0; }
int k_sigfillset(sigset_t *s)  { ((uint64_t *)s)[0] = ~0ULL; return 0; }
int k_sigaddset(sigset_t *s, int n)
{
    if (n <= 0 || n > 64) { K.err = EINVAL; return -1; }
    ((uint64_t *)s)[0] |= 1ULL << (n - 1);
    return 0;
}
int k_sigdelset(sigset_t *s, int n)
{
    if (n <= 0 || n > 64) { K.err = EINVAL; return -1; }
    ((uint64_t *)s)[0] &= ~(1ULL << (n - 1));
    return 0;
}
int k_sigismember(const sigset_t *s, int n)
{
    if (n <= 0 || n > 64) { K.err = EINVAL; return -1; }
    return (((const uint64_t *)s)[0] >> (n - 1)) & 1;
}
int k_signalfd(int fd, const sigset_t *set, int flags)
{
    if (fd != -1) { K.err = EBADF; return -1; }
    if (K.signalfd_einval && flags != 0) { K.err = EINVAL; return -1; }
    int s = new_fd_or_fail(KF_SIGNALFD);
    if (s < 0) return -1;
    AT(s) {
        kF.sigs = ((const uint64_t *)set)[0];
        kF.nonblock = (flags & SFD_NONBLOCK) != 0;
        kF.cloexec = (flags & SFD_CLOEXEC) != 0;
        return kF.num;
    }
    return -1;
}
int k_sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
    if (old) ((uint64_t *)old)[0] = K.sigmask;
    if (set == NULL) return 0;
    if (how == SIG_BLOCK) K.sigmask |= ((const uint64_t *)set)[0];
    else if (how == SIG_UNBLOCK) K.sigmask &= ~((const uint64_t *)set)[0];
    else if (how == SIG_SETMASK) K.sigmask = ((const uint64_t *)set)[0];
    else { K.err = EINVAL; return -1; }
    return 0;
}

int k_waitid(idtype_t t, id_t id, siginfo_t *si, int opts)
{
    K.w_calls++;
    K.w_type = t;
    K.w_id = (long)id;
    K.w_options = opts;
    if (K.w_fails) { K.err = K.w_err; return -1; }
    if (K.w_none) { /* WNOHANG, nothing to report: si_pid and si_signo are zeroed */
        si->si_code = 0;
        si->si_status = 0;
        return 0;
    }
    si->si_code = K.w_code;
    si->si_status = K.w_status;
    return 0;
}

pid_t k_waitpid(pid_t pid, int *status, int opts)
{
    K.w_calls++;
    K.w_type = P_PID;
    K.w_id = pid;
    K.w_options = opts;          /* waitpid always reaps */
    if (K.w_fails) { K.err = K.w_err; return -1; }
    if (K.w_none) return 0;
    if (status) *status = K.w_code == CLD_EXITED ? K.w_status << 8 : K.w_status & 0x7f;
    return pid;
}

ssize_t k_readlink(const char *path, char *buf, size_t n)
{
    (void)path;
    if (k_slot(K.in_path_fd) < 0 || (K.syscalls_may_fail && ND_BOOL(readlink_fails))) { K.err = ENOENT; return -1; }
    if (n > 0) buf[0] = '/';
    return 1;
}
int k_snprintf(char *buf, size_t n, const char *fmt, long arg)
{
    (void)fmt;
    K.in_path_fd = (int)arg;     /* the descriptor whose /proc entry is named */
    if (n > 0) buf[0] = '/';
    if (n > 1) buf[1] = 0;
    return 1;
}
pid_t k_getpid(void) { return 4242; }
int k_getrlimit(int res, struct rlimit *r)
{
    (void)res;
    if (K.rlim_fails) { K.err = EFAULT; return -1; }
    r->rlim_max = K.rlim;
    r->rlim_cur = ND_ULONG(soft_limit);
    ASSUME(r->rlim_cur <= r->rlim_max);
    return 0;
}
char *k_getenv(const char *n) { (void)n; return NULL; }
int k_atexit(void (*f)(void)) { (void)f; return 0; }

/* ---- mutexes -------------------------------------------------------------- */
int k_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int k_mutex_destroy(pthread_mutex_t *m)
{
    if ((void *)m == K.lk_kq) { if (K.kq_held) K.lk_error = 1; K.kq_destroyed++; }
    return 0;
}
int k_mutex_lock(pthread_mutex_t *m)
{
    if ((void *)m == K.lk_global) {
        if (K.g_held) K.lk_error = 1;
        K.g_held = 1;
    } else if ((void *)m == K.lk_kq) {
        if (K.kq_held || K.kq_destroyed) K.lk_error = 1;
        K.kq_held = 1;
        K.n_kq_lock++;
    } else K.lk_other++;
    return 0;
}
int k_mutex_unlock(pthread_mutex_t *m)
{
    if ((void *)m == K.lk_global) {
        if (!K.g_held) K.lk_error = 1;
        K.g_held = 0;
    } else if ((void *)m == K.lk_kq) {
        if (!K.kq_held || K.kq_destroyed) K.lk_error = 1;
        K.kq_held = 0;
        K.n_kq_unlock++;
    } else K.lk_other--;
    return 0;
}
int k_mutex_trylock(pthread_mutex_t *m)
{
    if (ND_BOOL(trylock_busy)) return EBUSY;
    return k_mutex_lock(m);
}

/* ---- cancellation ---------------------------------------------------------- */
int k_setcancelstate(int s, int *old)
{
    if (old) *old = K.cancel_state;
    K.cancel_state = s;
    return 0;
}
static void cancel(_Bool now)
{
    if (K.cancel_state == PTHREAD_CANCEL_ENABLE && K.cancel_pending && now) {
        /* the thread unwinds: run the handler, after which no lock may be held */
        if (K.cl_depth == 1) K.cl_fn(K.cl_arg);
        CHECK(!K.lk_error, "[C18] cancellation handler: mutex misuse");
        CHECK(K.kq_held == 0, "[C18] cancelled thread leaves the kqueue locked");
        CHECK(K.g_held == 0, "[C18] cancelled thread leaves the global mutex locked");
        ASSUME(0);
    }
}
void k_cancel_point(void) { cancel(ND_BOOL(cancelled_here)); }
void k_testcancel(void) { cancel(1); }
void k_cleanup_push(void (*f)(void *), void *a)
{
    if (K.cl_depth != 0) K.cl_error = 1;
    K.cl_fn = f;
    K.cl_arg = a;
    K.cl_depth++;
}
void k_cleanup_pop(int run)
{
    if (K.cl_depth != 1) K.cl_error = 1;
    K.cl_depth--;
    if (run) K.cl_fn(K.cl_arg);
}
int k_once(pthread_once_t *o, void (*f)(void)) { (void)o; K.once_fn = f; K.n_once++; K.once_locked = K.g_held; return 0; }
int k_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { K.at_pre = a; K.at_parent = b; K.at_child = c; K.n_atfork++; return 0; }
pthread_t k_pthread_self(void) { return (pthread_t)77; }
#ifdef VP_CBMC
int __libc_current_sigrtmin(void) { return 34; }
/* no effect on anything the library is responsible for */
int sched_yield(void) { return 0; }
int usleep(unsigned us) { (void)us; return 0; }
unsigned sleep(unsigned s) { (void)s; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return 0; }
int fflush(FILE *f) { (void)f; return 0; }
void perror(const char *s) { (void)s; }
int puts(const char *s) { (void)s; return 0; }
#endif
