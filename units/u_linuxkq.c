/*
 * The Linux back end of a kqueue (src/linux/platform.c): creation, release and
 * the descriptors it owns; what a forked child closes.
 *
 * JOB create MAIN=main_create ENFORCE=vp_create
 * JOB free   MAIN=main_free ENFORCE=vp_free
 * JOB fork   MAIN=main_fork ENFORCE=vp_fork BOUNDED=at_most_2_kqueues
 * JOB exit   MAIN=main_exit ENFORCE=vp_exit
 * DEFAULT: C16 C17
 */
#include "env.h"
#include "trees.h"
#include "../src/linux/platform.c"

/* ---- what platform.c calls in the common code ---- */
tracing_mutex_t kq_mtx;
struct kqueue_head kq_list;
unsigned int kq_cnt;
bool libkqueue_debug, libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_fork_cleanup_active;
static struct {
    _Bool reg_fails, thr_fails, init_fails;
    unsigned spurious;
    unsigned n_reg, n_unreg, n_thr, n_wait, n_cancel, n_join, n_freed, n_started;
    _Bool wrong;
} B;
int filter_register_all(struct kqueue *kq)
{
    if (s_slot(kq->epollfd) < 0) B.wrong = 1;
    B.n_reg++;
    return B.reg_fails ? -1 : 0;
}
void filter_unregister_all(struct kqueue *kq) { (void)kq; B.n_unreg++; }
struct kqueue *kqueue_lookup(int id) { (void)id; B.wrong = 1; return NULL; }
void kqueue_free(struct kqueue *kq) { (void)kq; B.n_freed++; }
unsigned int get_fd_limit(void) { return 1024; }
static void *(*THREAD)(void *);
int k_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    (void)a; (void)arg;
    if (K.lk_other != 1) B.wrong = 1;      /* so that the thread cannot signal before it is waited for */
    B.n_thr++;
    if (B.thr_fails) return EAGAIN;
    *t = (pthread_t)1;
    THREAD = f;
    return 0;
}
/* what the monitoring thread has done by the time it signals (proved in u_monitor.c) */
static int LIMIT, W;
static int *NEWMAP;
int k_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    (void)c; (void)m;
    if (K.lk_other != 1 || B.n_thr != 1 || B.thr_fails) B.wrong = 1;
    B.n_wait++;
    if (B.spurious) { B.spurious--; return 0; }    /* waits may end for no reason */
    if (B.n_started++) B.wrong = 1;                /* nobody would wake us again */
    if (B.init_fails) { monitoring_tid = 0; fd_map = NULL; monitoring_thread_started = -1; return 0; }
    monitoring_tid = 77;
    monitoring_thread_started = 1;
    nb_max_fd = LIMIT;
    fd_map = NEWMAP;
    return 0;
}
int k_pthread_cancel(pthread_t t) { (void)t; B.n_cancel++; if (!K.g_held) B.wrong = 1; return 0; }
int k_pthread_join(pthread_t t, void **rv) { (void)t; *rv = NULL; B.n_join++; if (K.g_held) B.wrong = 1; return ND_BOOL(join_fails) ? ESRCH : 0; }
pid_t k_getpid_(void);

static pid_t TID0;
static int MAP0;           /* the kqueue the pipe of the witness number belonged to */
static struct kqueue *Q, *Q2;
#define Kfd(fd)       s_at(s_slot(fd))
#define OPEN(fd)      (s_slot(fd) >= 0)
#define OURS(fd, k)   (OPEN(fd) && Kfd(fd).own && Kfd(fd).kind == (k) && Kfd(fd).cloexec)
#define INB(fd)       ((fd) >= 0 && (fd) < nb_max_fd)

int vp_create(struct kqueue *kq)
REQ(kq == Q && K.g_held && PRE(kq))
ASG(K, *kq, B, THREAD, monitoring_thread, monitoring_thread_started, monitoring_tid, nb_max_fd, fd_map, monitoring_thread_mtx, monitoring_thread_cond, __CPROVER_object_whole(fd_map), __CPROVER_object_whole(NEWMAP))
ENS(C17, "it succeeds unless something it needs fails", RV == 0 || RV == -1)
ENS(C17, "it fails only if something it needs fails", IMP(!K.syscalls_may_fail && K.fcntl_fail_at < 0 && !B.reg_fails && !B.thr_fails && (TID0 || !B.init_fails) && INB(K.pipe_fd[0]) && INB(K.pipe_fd[1]), RV == 0))
ENS(C17 C16, "a kqueue has three descriptors of its own that no exec inherits", IMP(RV == 0, s_owned() == O.owned + 3 && OURS(kq->epollfd, KF_EPOLL) && OURS(kq->pipefd[0], KF_KQPIPE) && OURS(kq->pipefd[1], KF_KQPIPE)))
ENS(C17 C20, "it is known by the end of the pipe that the application closes", IMP(RV == 0, kq->kq_id == kq->pipefd[1] && kq->pipefd[0] != kq->pipefd[1]))
ENS(C20, "closing it notifies the monitoring thread, and it alone", IMP(RV == 0, K.async_fd == kq->pipefd[0] && K.setsig_fd == kq->pipefd[0] && K.setsig == SIGRTMIN + 1 && K.setown_fd == kq->pipefd[0] && K.setown_tid == monitoring_tid && K.setown_type == F_OWNER_TID && monitoring_tid != 0))
ENS(C17 C16, "neither end of the pipe can block", IMP(RV == 0, Kfd(kq->pipefd[0]).nonblock && Kfd(kq->pipefd[1]).nonblock))
ENS(C20, "the pipe is recorded as that of the kqueue", IMP(RV == 0, INB(kq->pipefd[0]) && INB(kq->kq_id) && fd_map[kq->pipefd[0]] == kq->kq_id))
ENS(C20, "the pipes of other kqueues stay recorded", IMP(monitoring_tid != 0 && INB(W) && (W != kq->pipefd[0]) && RV == 0, fd_map[W] == (TID0 ? MAP0 : -1)))
ENS(C17 C19, "a monitoring thread is started if there is none, and waited for", B.n_thr <= 1 && IMP(B.n_thr, TID0 == 0 && THREAD == (B.thr_fails ? NULL : monitoring_thread_loop)) && B.n_started == (B.n_thr && !B.thr_fails) && IMP(RV == 0 && TID0 == 0, B.n_thr == 1))
ENS(C17, "the filters are registered before success is reported", IMP(RV == 0, B.n_reg == 1 && B.n_unreg == 0))
ENS(C17 C18, "a monitoring thread that could not start is not waited for forever and fails the creation", IMP(B.n_thr && (B.thr_fails || B.init_fails), RV == -1 && monitoring_tid == 0))
ENS(C16 C17, "a failure leaves no descriptor behind", IMP(RV < 0, s_owned() == O.owned && kq->epollfd < 0))
ENS(C16, "no invalid system call, no memory", s_clean() && K.nalloc == O.nalloc)
ENS(C18, "the global lock is still held and no other", K.g_held && !K.lk_error && K.lk_other == 0 && !B.wrong)
{ return kqops.kqueue_init(kq); }

/* CLOSED: closed, and its pipe at its end; SHUT: nothing is open under its number */
static _Bool CLOSED, CUT, SHUT;
static int E0, P0, P1;
void vp_free(struct kqueue *kq)
REQ(kq == Q && PRE(kq))
ASG(K, *kq, B)
ENS(C16 C17 C20, "the event and monitoring descriptors are closed", IMP(!CUT, !OPEN(E0) && !OPEN(P0)))
ENS(C16 C17 C20, "its own number, or what took it over, is left alone", IMP(!CUT, s_owned() == O.owned - 2 && (SHUT || OPEN(P1))))
ENS(C16, "no descriptor of the application is closed and none twice", s_clean() && IMP(CUT, s_owned() == O.owned) && K.nalloc == O.nalloc)
{ kqops.kqueue_free(kq); }

void vp_fork(void)
REQ(K.g_held && PRE(Q))
ASG(K, monitoring_tid, *Q, *Q2, B)
ENS(C19, "every descriptor of every kqueue is closed", IMP(!CUT, !OPEN(E0) && !OPEN(P0) && IMP(!CLOSED, !OPEN(P1))))
ENS(C19 C16, "each exactly once, and none of the application", s_clean() && s_owned() == 0)
ENS(C19, "the descriptors are forgotten", Q->epollfd < 0 && Q->pipefd[0] < 0 && Q->pipefd[1] < 0 && Q2->epollfd < 0)
ENS(C19, "the child will start a monitoring thread of its own", monitoring_tid == 0)
ENS(C19, "no memory is allocated or released in the child", K.nalloc == O.nalloc && B.n_freed == 0)
ENS(C19 C18, "the lock is left to the fork handler", K.g_held && !K.lk_error)
{ kqops.libkqueue_fork(); }

void vp_exit(void)
REQ(!K.g_held && B.n_cancel == 0 && B.n_join == 0)
ASG(K, B, kq_mtx)
ENS(C17 C18, "the monitoring thread, if any, is stopped and waited for without the lock", B.n_cancel == (TID0 != 0) && B.n_join == (TID0 != 0) && !B.wrong)
ENS(C18, "the global lock is released", !K.g_held && !K.lk_error && K.lk_other == 0)
{ kqops.libkqueue_free(); }

static struct kqueue *make(void)
{
    struct kqueue *kq = (calloc)(1, sizeof(*kq));
    ASSUME(kq != NULL);
    K.nalloc++;
    return kq;
}
static void world(void)
{
    env_kernel();
    K.alloc_may_fail = 0;
    K.lk_global = &kq_mtx.mtx_lock;
    K.setsig_fd = K.setown_fd = K.async_fd = -1;
    B.reg_fails = ND_BOOL(register_fails);
    B.thr_fails = ND_BOOL(thread_fails);
    B.init_fails = ND_BOOL(thread_init_fails);
    B.spurious = ND_BOOL(spurious);
    B.n_started = 0;
    monitoring_thread_started = ND_INT(stale_started);
    B.n_reg = B.n_unreg = B.n_thr = B.n_wait = B.n_cancel = B.n_join = B.n_freed = B.wrong = 0;
    THREAD = NULL;
    TID0 = monitoring_tid = ND_BOOL(running) ? 77 : 0;
    Q = make();
    Q2 = make();
    LIST_INIT(&kq_list);
}
static void hold(void) { K.g_held = 1; kq_mtx.mtx_status = MTX_LOCKED; kq_mtx.mtx_owner = THREAD_ID; }
#ifdef VP_CBMC
#define TABLE(n) ((malloc)((size_t)(n) * sizeof(int)))
#else
static void *table_of(int n) { int *p = (malloc)((size_t)n * sizeof(int)); for (int i = 0; i < n; i++) p[i] = ND_INT(cell); return p; }
#define TABLE(n) table_of(n)
#endif
void main_create(void)
{
    world();
    K.fcntl_fail_at = ND_INT(fcntl_fails);
    ASSUME(K.fcntl_fail_at >= -1);
    LIMIT = ND_INT(limit);
    ASSUME(LIMIT >= 1 && LIMIT <= 2000000);
    W = ND_INT(witness);
    ASSUME(W >= 0 && W < LIMIT);
    fd_map = TABLE(LIMIT);
    NEWMAP = TABLE(LIMIT);
    ASSUME(fd_map && NEWMAP);
    if (TID0) nb_max_fd = LIMIT; else nb_max_fd = ND_INT(stale);
    MAP0 = fd_map[W];
#ifndef VP_CBMC
    for (int i = 0; i < LIMIT; i++) NEWMAP[i] = -1;
#endif
    ASSUME(NEWMAP[W] == -1);   /* as every other cell */
    hold();
    env_snap(NULL, -1);
    vp_create(Q);
    REACH("create");
}
/* a kqueue in use: its own descriptors, the last possibly closed by the application
 * (and its number possibly in use for another descriptor of the application) */
static void alive(struct kqueue *kq)
{
    CUT = ND_BOOL(cut_off);
    CLOSED = ND_BOOL(closed);
    kq->epollfd = kq->pipefd[0] = kq->pipefd[1] = -1;
    if (CUT) return;
    kq->epollfd = K.epfd;
    int a = env_fd(KF_KQPIPE, 1), b = env_fd(KF_KQPIPE, 1);
    kq->pipefd[0] = s_at(a).num;
    kq->pipefd[1] = s_at(b).num;
    kq->kq_id = kq->pipefd[1];
    AT(a) { kF.nonblock = 1; kF.cnt = CLOSED; }
    SHUT = 0;
    if (CLOSED) {
        if (ND_BOOL(reused)) AT(b) { kF.own = 0; kF.kind = KF_ANON; }
        else { AT(b) { kF.open = 0; } SHUT = 1; }
    }
    E0 = kq->epollfd;
    P0 = kq->pipefd[0];
    P1 = kq->pipefd[1];
}
void main_free(void)
{
    world();
    alive(Q);
    /* the application closed it, but its pipe is not at its end as long as somebody else holds it */
    if (!CUT && ND_BOOL(held_elsewhere)) for (int i = 0; i < NKFD; i++) if (K.fd[i].open && K.fd[i].num == P0) K.fd[i].cnt = 0;
    env_snap(NULL, -1);
    vp_free(Q);
    REACH("free");
}
void main_fork(void)
{
    world();
    alive(Q);
    if (CUT) AT(0) kF.open = 0;
    Q2->epollfd = Q2->pipefd[0] = Q2->pipefd[1] = -1;
    if (ND_BOOL(second)) {
        _Bool first = ND_BOOL(first);
        if (first) LIST_INSERT_HEAD(&kq_list, Q, kq_entry);
        LIST_INSERT_HEAD(&kq_list, Q2, kq_entry);
        if (!first) LIST_INSERT_HEAD(&kq_list, Q, kq_entry);
        int e = env_fd(KF_EPOLL, 1);
        Q2->epollfd = s_at(e).num;
    } else LIST_INSERT_HEAD(&kq_list, Q, kq_entry);
    hold();
    env_snap(NULL, -1);
    vp_fork();
    REACH("fork");
}
void main_exit(void) { world(); vp_exit(); REACH("exit"); }
