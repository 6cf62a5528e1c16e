/*
 * Ghost kernel: the assumed contracts of the system calls libkqueue depends
 * on, written as executable C over one ghost state K so that the same text
 * serves CBMC (all choices nondeterministic) and native replay.
 */
#ifndef VP_KERNEL_H
#define VP_KERNEL_H

/* ---- nondeterminism ---------------------------------------------------- */
#ifdef VP_CBMC
int nondet_int(void); unsigned nondet_uint(void); long nondet_long(void);
unsigned long nondet_ulong(void); _Bool nondet_bool(void); short nondet_short(void);
unsigned short nondet_ushort(void);
#define ND_INT(tag)    ({ int vp_nd_##tag = nondet_int(); vp_nd_##tag; })
#define ND_UINT(tag)   ({ unsigned vp_nd_##tag = nondet_uint(); vp_nd_##tag; })
#define ND_LONG(tag)   ({ long vp_nd_##tag = nondet_long(); vp_nd_##tag; })
#define ND_ULONG(tag)  ({ unsigned long vp_nd_##tag = nondet_ulong(); vp_nd_##tag; })
#define ND_SHORT(tag)  ({ short vp_nd_##tag = nondet_short(); vp_nd_##tag; })
#define ND_USHORT(tag) ({ unsigned short vp_nd_##tag = nondet_ushort(); vp_nd_##tag; })
#define ND_BOOL(tag)   ({ _Bool vp_nd_##tag = nondet_bool(); vp_nd_##tag; })
#define ASSUME(c)      __CPROVER_assume(c)
#define CHECK(c, msg)  __CPROVER_assert((c), msg)
#define COVER(msg)     __CPROVER_cover(1)
#else
unsigned long nd_native(const char *tag, int bits);
void vp_discard(void);
void vp_fail(const char *msg);
#define ND_INT(tag)    ((int)nd_native(#tag, 32))
#define ND_UINT(tag)   ((unsigned)nd_native(#tag, 32))
#define ND_LONG(tag)   ((long)nd_native(#tag, 64))
#define ND_ULONG(tag)  ((unsigned long)nd_native(#tag, 64))
#define ND_SHORT(tag)  ((short)nd_native(#tag, 16))
#define ND_USHORT(tag) ((unsigned short)nd_native(#tag, 16))
#define ND_BOOL(tag)   ((_Bool)(nd_native(#tag, 1) & 1))
#define ASSUME(c)      do { if (!(c)) vp_discard(); } while (0)
#define CHECK(c, msg)  do { if (!(c)) vp_fail(msg); } while (0)
#define COVER(msg)     do { } while (0)
#endif

/* ---- ghost state -------------------------------------------------------- */
enum { KF_NONE, KF_REG, KF_DIR, KF_PIPE, KF_BLK, KF_CHR, KF_SOCK, KF_ANON,
       KF_EVENTFD, KF_TIMERFD, KF_INOTIFY, KF_SIGNALFD, KF_PIDFD, KF_EPOLL, KF_KQPIPE };

#define NKFD 5

struct kfd {
    _Bool    open;
    _Bool    own;        /* created by the library (not an application fd)   */
    unsigned char kind;
    int      num;
    /* registration with the kqueue's epoll instance */
    _Bool    reg;
    uint32_t ev;
    void    *ptr;
    _Bool    armed;      /* registered or modified since the harness cleared this */
    /* kind specific */
    _Bool    nonblock;
    _Bool    cloexec;
    uint64_t cnt;        /* eventfd counter / timer expirations / pending signals */
    _Bool    timer_set;
    struct itimerspec ts;
    int      tflags;
    int      clk;
    uint32_t inmask;     /* inotify watch mask, 0 = no watch */
    int      wd;
    uint64_t sigs;       /* signalfd set */
    int      pid;        /* pidfd */
};

struct kernel {
    int err;                 /* errno */
    struct kfd fd[NKFD];
    int  epfd;               /* the epoll descriptor of the kqueue under test */

    /* evidence of misbehaviour by the library (must stay false) */
    _Bool bad_close;         /* close() of a descriptor that is not open */
    _Bool foreign_close;     /* close() of an application descriptor */
    _Bool would_block;       /* a blocking read with nothing to read, while holding the lock */
    _Bool null_event;        /* epoll_ctl ADD/MOD without an event */
    _Bool alien_epfd;        /* epoll_ctl on some other descriptor */

    /* allocation ghost */
    int  nalloc;             /* live heap allocations made by the library */
    _Bool alloc_may_fail;
    int   pipe_fd[2];        /* the pipe made last */
    _Bool pid_gone;          /* the process to watch does not exist */
    _Bool syscalls_may_fail; /* resource exhaustion (EMFILE, ENOMEM, ENOSPC) allowed */

    /* application file state */
    off_t    file_size, file_pos;
    nlink_t  file_nlink;
    _Bool    fstat_fails; int fstat_err;
    _Bool    lseek_fails;
    int      sock_type; _Bool sock_type_fails;
    _Bool    sock_listen; _Bool sock_listen_fails;
    unsigned sock_filter_len; _Bool sock_filter_fails; int sock_opt_err;
    int      sock_error; _Bool sock_error_fails;
    int      inq;  _Bool inq_fails;
    int      outq; _Bool outq_fails;

    /* inotify queue: the one event at its head */
    uint32_t in_mask; uint32_t in_len;
    _Bool    in_eintr;
    int      in_path_fd;     /* which fd the watched path was derived from */
    int      in_reads;

    /* processes */
    int      w_code, w_status, w_err; _Bool w_fails; _Bool w_none;
    int      w_calls; int w_type; long w_id; int w_options;

    /* signals */
    uint64_t sigmask;        /* blocked signals */
    _Bool    signalfd_einval; /* kernel without signalfd flags */

    /* waiting */
    int      wait_calls, wait_timeout, wait_max, wait_ret; _Bool wait_on_epfd;
    int      ppoll_calls, ppoll_ret; time_t ppoll_sec; long ppoll_nsec; _Bool ppoll_null; _Bool ppoll_on_epfd;

    /* locks: ghost owner state of the mutexes of interest */
    void    *lk_global, *lk_kq;
    int      g_held, kq_held;
    _Bool    lk_error;       /* relock, unlock of a free mutex, or unknown mutex */
    int      lk_other;
    int      n_kq_lock, n_kq_unlock;
    int      kq_destroyed;

    /* cancellation */
    int      cancel_state;   /* PTHREAD_CANCEL_ENABLE / DISABLE */
    _Bool    cancel_pending;
    void   (*cl_fn)(void *); void *cl_arg; int cl_depth;
    _Bool    cl_error;

    rlim_t   rlim;
    _Bool    rlim_fails;
    /* process-wide hooks */
    void   (*once_fn)(void); int n_once; _Bool once_locked;
    void   (*at_pre)(void), (*at_parent)(void), (*at_child)(void); int n_atfork;
    int      fcntl_fail_at;  /* which fcntl fails (-1: none) */
    int      fcntl_calls;
    int      setsig, setown_tid, setown_type, setown_fd, setsig_fd, async_fd;
    uint32_t nonblock_fds;
    _Bool    aborted;
};
extern struct kernel K;
/* runs its body with kF the descriptor in slot s (constant indices are much cheaper to reason about) */
#define AT(s) for (int i_ = 0; i_ < NKFD; i_++) if (i_ != (s)) { } else
#define kF    K.fd[i_]

/* ghost helpers (pure) */
int  k_slot(int fd);                 /* index of the open descriptor fd, -1 if none */
int  k_owned(void);                  /* open descriptors created by the library */
int  k_refs(const void *lo, const void *hi); /* registrations whose pointer lies in [lo,hi) */
int  k_regs(void);                   /* registrations */
_Bool k_clean(void);                 /* none of the misbehaviour flags is set */
int  k_new_fd(int kind);             /* used by harnesses too */
_Bool k_in_range(const void *p, const void *lo, const void *hi);

/* ---- entry points -------------------------------------------------------- */
void  k_abort(void);
void *k_calloc(size_t n, size_t s);
void *k_malloc(size_t s);
void  k_free(void *p);
char *k_strdup(const char *s);
int   k_close(int fd);
ssize_t k_read(int fd, void *buf, size_t n);
ssize_t k_write(int fd, const void *buf, size_t n);
off_t k_lseek(int fd, off_t off, int whence);
int   k_fstat(int fd, struct stat *sb);
int   k_fcntl(int fd, int cmd, long arg, int dummy);
int   k_ioctl(int fd, unsigned long req, void *arg);
long  k_syscall(long n, long a, long b);
int   k_getsockopt(int fd, int level, int opt, void *val, socklen_t *len);
int   k_eventfd(unsigned cnt, int flags);
int   k_eventfd_write(int fd, uint64_t v);
int   k_epoll_create1(int flags);
int   k_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
int   k_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout);
int   k_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss);
int   k_pipe2(int p[2], int flags);
int   k_timerfd_create(int clk, int flags);
int   k_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o);
int   k_inotify_init1(int flags);
int   k_inotify_add_watch(int fd, const char *path, uint32_t mask);
int   k_inotify_rm_watch(int fd, int wd);
int   k_signalfd(int fd, const sigset_t *set, int flags);
int   k_sigprocmask(int how, const sigset_t *set, sigset_t *old);
int   k_sigemptyset(sigset_t *s);
int   k_sigfillset(sigset_t *s);
int   k_sigaddset(sigset_t *s, int n);
int   k_sigwaitinfo(const sigset_t *s, siginfo_t *si);
int   k_waitid(idtype_t t, id_t id, siginfo_t *si, int opts);
int   k_snprintf(char *buf, size_t n, const char *fmt, long arg);
ssize_t k_readlink(const char *path, char *buf, size_t n);
pid_t k_getpid(void);
int   k_getrlimit(int res, struct rlimit *r);
char *k_getenv(const char *n);
int   k_atexit(void (*f)(void));
void *k_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off);
int   k_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int   k_mutex_destroy(pthread_mutex_t *m);
int   k_mutex_lock(pthread_mutex_t *m);
int   k_mutex_unlock(pthread_mutex_t *m);
int   k_mutex_trylock(pthread_mutex_t *m);
int   k_setcancelstate(int s, int *old);
void  k_testcancel(void);
void  k_cancel_point(void);
void  k_cleanup_push(void (*f)(void *), void *a);
void  k_cleanup_pop(int run);
int   k_once(pthread_once_t *o, void (*f)(void));
int   k_atfork(void (*a)(void), void (*b)(void), void (*c)(void));
int   k_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
int   k_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int   k_cond_signal(pthread_cond_t *c);
int   k_pthread_detach(pthread_t t);
pthread_t k_pthread_self(void);
int   k_pthread_cancel(pthread_t t);
int   k_pthread_join(pthread_t t, void **rv);
/* not called by the library today; modelled so that an equivalent rewrite can be judged */
int   k_pipe(int p[2]);
int   k_poll(struct pollfd *fds, nfds_t n, int ms);
int   k_epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *ss);
int   k_epoll_create(int n);
int   k_eventfd_read(int fd, uint64_t *v);
ssize_t k_recv(int fd, void *buf, size_t n, int flags);
int   k_setsockopt(int fd, int level, int opt, const void *v, socklen_t n);
int   k_timerfd_gettime(int fd, struct itimerspec *cur);
int   k_inotify_init(void);
pid_t k_waitpid(pid_t pid, int *status, int opts);
int   k_sigdelset(sigset_t *s, int n);
int   k_sigismember(const sigset_t *s, int n);
#endif
