/*
 * The thread that notices that a kqueue was closed (src/linux/platform.c):
 * monitoring_thread_loop and its clean-up handler.
 *
 * One round of its loop is proved from an arbitrary state: the wait for signals
 * (k_sigwaitinfo) installs the state before the round, the next wait checks the
 * state after it.  The kqueues are seen through two: A, whose closure may be
 * notified, and W, any other.
 *
 * JOB start   MAIN=main_start ENFORCE=vp_loop PROPS=C17
 * LOOP start monitoring_thread_loop 0 ASSIGNS i, __CPROVER_object_whole(fd_map) INV 0 <= i && i <= nb_max_fd && __CPROVER_same_object(fd_map, __CPROVER_loop_entry(fd_map)) && (CELL < 0 || CELL >= i || fd_map[CELL] == -1)
 * JOB start_b MAIN=main_start ENFORCE=vp_loop DEFS=SMALL UNWIND=6 BOUNDED=tables_of_at_most_4_cells PROPS=C17
 * JOB round   MAIN=main_round ENFORCE=vp_loop DEFS=SMALL UNWIND=6 PROPS=C18,C20
 * JOB cleanup MAIN=main_cleanup ENFORCE=vp_cleanup UNWIND=4 BOUNDED=at_most_2_kqueues
 * DEFAULT: C20
 */
#include "env.h"
#include "trees.h"
#undef sigwaitinfo
#define sigwaitinfo(s, i) (k_sigwaitinfo((s), (i)) + 0)     /* the caller's local is assigned after the call */
#include "../src/linux/platform.c"

tracing_mutex_t kq_mtx;
struct kqueue_head kq_list;
unsigned int kq_cnt;
bool libkqueue_debug, libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_fork_cleanup_active;

static struct {
    int phase;                  /* 0 starting, 1 in the round, 2 after it */
    _Bool start;                /* the start is what is proved */
    unsigned n_freed, n_detach, n_signal, n_lookup;
    struct kqueue *freed;
    _Bool wrong;
} B;
static struct kqueue *A, *W;
static int LIMIT, CELL;         /* size of the tables, an arbitrary cell of them */
static int *MAP;
static int SIG;                 /* the pipe that is notified */
static _Bool FAILS;             /* or the wait fails */
static int KNOWN;               /* the kqueue its number last belonged to, -1 if none; A, W or one that is gone */
static _Bool ENDED_A;           /* A was closed: its pipe is at its end */
static unsigned CNT0;
static int OWNALLOC;

int filter_register_all(struct kqueue *kq) { (void)kq; return 0; }
void filter_unregister_all(struct kqueue *kq) { (void)kq; }
unsigned int get_fd_limit(void) { return (unsigned)LIMIT; }
struct kqueue *kqueue_lookup(int id)
{
    if (!K.g_held) B.wrong = 1;
    return id == A->kq_id && !B.n_freed ? A : id == W->kq_id ? W : NULL;
}
/* contract proved in u_kqueue.c */
void kqueue_free(struct kqueue *kq)
{
    if (!K.g_held || K.cancel_state != PTHREAD_CANCEL_DISABLE) B.wrong = 1;
    B.n_freed++;
    B.freed = kq;
    kq_cnt--;
    LIST_REMOVE(kq, kq_entry);
}
int k_pthread_detach(pthread_t t) { (void)t; B.n_detach++; return 0; }
int k_cond_signal(pthread_cond_t *c) { (void)c; B.n_signal++; if (K.lk_other != 1) B.wrong = 1; return 0; }

static _Bool cell_ok(void) { return CELL < 0 || CELL >= LIMIT || fd_map[CELL] == -1; }
static void started(void)
{
    CHECK(monitoring_thread_started == 1, "[C17 C18] the creator of the first kqueue learns that the thread started");
    CHECK(monitoring_tid == 77, "[C17 C20] the thread says who it is before it says it is ready");
    CHECK(nb_max_fd == LIMIT && fd_map && cell_ok(), "[C17 C20] the tables are empty and as large as descriptors can get");
    CHECK(B.n_signal == 1 && K.lk_other == 0 && !K.g_held && !K.lk_error && !B.wrong, "[C17 C18] the creator of the first kqueue is woken once, and can be");
    CHECK(K.cl_depth == 1 && K.cl_fn == monitoring_thread_cleanup && monitoring_thread_state == THREAD_EXIT_STATE_CANCEL_UNLOCKED, "[C20] the clean-up handler is in place");
    CHECK(K.sigmask == ~0ULL, "[C11 C20] the thread takes no signal of the application");
}
static void round_over(void)
{
    CHECK(!K.g_held && !K.lk_error && K.lk_other == 0, "[C18 C20] the global lock is released after a notification");
    CHECK(K.cancel_state == PTHREAD_CANCEL_ENABLE, "[C18] the thread can be stopped while it waits");
    CHECK(!B.wrong, "[C18 C20] a kqueue is released with the global lock held and cannot be interrupted");
    CHECK(IMP(FAILS, B.n_freed == 0), "[C20] a failed wait releases nothing");
    CHECK(IMP(!FAILS && KNOWN == A->kq_id && ENDED_A, B.n_freed == 1 && B.freed == A), "[C20 C17] a kqueue that was closed is released, once, when its closure is notified");
    CHECK(IMP(B.n_freed, B.n_freed == 1 && B.freed == A && ENDED_A), "[C20 C17] a kqueue that is still open is not released, whatever is notified");
    CHECK(fd_map[SIG] == KNOWN, "[C20] the numbers of the pipes stay known");
    CHECK(s_clean() && s_owned() == O.owned, "[C16 C20] no descriptor is closed or waited for");
    CHECK(kq_cnt >= 1, "[C20] the thread goes on only while there are kqueues");
}
int k_sigwaitinfo(const sigset_t *s, siginfo_t *si)
{
    k_cancel_point();
    CHECK(((const uint64_t *)s)[0] == 1ULL << (SIGRTMIN + 1 - 1), "[C20] exactly the notification signal is waited for");
    CHECK(!K.g_held && !K.kq_held && K.lk_other == 0, "[C18] no lock is held while waiting");
    B.phase++;
    if (B.start) { started(); ASSUME(0); }
    if (B.phase == 2) { round_over(); ASSUME(0); }
    /* the state before the round */
    LIMIT = ND_INT(limit2);
    ASSUME(LIMIT >= 1 && LIMIT <= 2000000 && SIG < LIMIT && A->kq_id < LIMIT && W->kq_id < LIMIT);
    OWNALLOC = K.nalloc;
    MAP = malloc((size_t)LIMIT * sizeof(int));
    ASSUME(MAP);
#ifndef VP_CBMC
    for (int i = 0; i < LIMIT; i++) MAP[i] = -1;
    MAP[SIG] = ND_BOOL(known) ? A->kq_id : ND_BOOL(other) ? W->kq_id : -1;
#endif
    free(fd_map);
    fd_map = MAP;
    nb_max_fd = LIMIT;
    KNOWN = MAP[SIG];
    ASSUME(KNOWN >= -1);
    if (FAILS) { K.err = EINTR; return -1; }
    si->si_fd = SIG;
    si->si_signo = SIGRTMIN + 1;
    return SIGRTMIN + 1;
}

void *vp_loop(void *arg)
REQ(fd_map == NULL && monitoring_tid == 0)
ASG(K, B, kq_mtx, kq_list, kq_cnt, *A, *W, monitoring_tid, monitoring_thread_started, nb_max_fd, fd_map, monitoring_thread_state, monitoring_thread_mtx, monitoring_thread_cond, LIMIT, MAP, KNOWN, OWNALLOC)
ENS(C20, "the thread ends only when no memory is left or no kqueue", IMP(RV == NULL && B.phase == 1, kq_cnt == 0 && B.n_freed == 1 && B.freed == A && ENDED_A && !FAILS))
ENS(C17 C18, "if it cannot start the creator of the first kqueue is woken and learns it", IMP(RV == NULL && B.phase == 0, B.n_signal == 1 && !B.wrong && monitoring_thread_started == -1))
ENS(C16 C20, "its tables are released", K.nalloc == O.nalloc && fd_map == NULL)
ENS(C17 C19 C20, "the next kqueue will start another", monitoring_tid == 0)
ENS(C18 C20, "it holds no lock", !K.g_held && !K.lk_error && K.lk_other == 0 && K.cl_depth == 0)
ENS(C16 C20, "its thread resources are released", B.n_detach == 1)
{ return monitoring_thread_loop(arg); }

static struct kqueue *make(void)
{
    struct kqueue *kq = (calloc)(1, sizeof(*kq));
    ASSUME(kq != NULL);
    kq->kq_id = ND_INT(id);
    ASSUME(kq->kq_id >= 0 && kq->kq_id <= 2000000);
    return kq;
}
static void world(void)
{
    env_kernel();
    K.lk_global = &kq_mtx.mtx_lock;
    kq_mtx.mtx_status = MTX_UNLOCKED;
    K.cancel_state = PTHREAD_CANCEL_ENABLE;
    B.phase = 0; B.start = 0; B.n_freed = B.n_detach = B.n_signal = B.n_lookup = 0; B.freed = NULL; B.wrong = 0;
    fd_map = NULL;
    monitoring_tid = 0;
    monitoring_thread_started = 0;
    nb_max_fd = 0;
    A = make();
    W = make();
    ASSUME(A->kq_id != W->kq_id);
    LIST_INIT(&kq_list);
}
void main_start(void)
{
    world();
    B.start = 1;
    LIMIT = ND_INT(limit);
#ifdef SMALL
    ASSUME(LIMIT >= 1 && LIMIT <= 4);
#else
    ASSUME(LIMIT >= 1 && LIMIT <= 0x7fffffff / 4);
#endif
    CELL = ND_INT(cell);
    env_snap(NULL, -1);
    vp_loop(NULL);
    REACH("start");      /* no memory */
}
void main_round(void)
{
    world();
    LIMIT = 1;
    CELL = -1;
    SIG = ND_INT(si_fd);
    ASSUME(SIG >= 0 && SIG <= 2000000);
    FAILS = ND_BOOL(wait_fails);
    K.alloc_may_fail = 0;
    /* the read ends of the pipes of A and W */
    int a = env_fd(KF_KQPIPE, 1), w = env_fd(KF_KQPIPE, 1);
    ENDED_A = ND_BOOL(a_closed);
    AT(a) { kF.nonblock = 1; kF.cnt = ENDED_A; A->pipefd[0] = kF.num; }
    AT(w) { kF.nonblock = 1; kF.cnt = 0; W->pipefd[0] = kF.num; }
    _Bool more = ND_BOOL(more);
    LIST_INSERT_HEAD(&kq_list, A, kq_entry);
    kq_cnt = 1;
    if (more) { LIST_INSERT_HEAD(&kq_list, W, kq_entry); kq_cnt = ND_UINT(count); ASSUME(kq_cnt >= 2); }
    CNT0 = kq_cnt;
    env_snap(NULL, -1);
    vp_loop(NULL);
    REACH("round");
}

/* the process ends: the kqueues that were closed but not noticed are released */
static _Bool SHUT_A, SHUT_W;
static int STATE0;
void vp_cleanup(void *arg)
REQ(B.n_freed == 0 && (monitoring_thread_state == THREAD_EXIT_STATE_CANCEL_LOCKED) == K.g_held)
ASG(K, B, kq_mtx, kq_list, kq_cnt, *A, *W, monitoring_tid, fd_map)
FREES(fd_map)
ENS(C20 C17, "kqueues that were closed are released, each once; those still open are not", B.n_freed == (STATE0 == THREAD_EXIT_STATE_SELF_CANCEL ? 0 : SHUT_A + SHUT_W) && IMP(B.n_freed == 1, B.freed == (SHUT_A ? A : W)))
ENS(C20 C18, "with the global lock held, which is released", !B.wrong && !K.g_held && !K.lk_error && K.lk_other == 0)
ENS(C16 C20, "the tables are released", fd_map == NULL && K.nalloc == O.nalloc - 1)
ENS(C19 C20, "the next kqueue will start another thread", monitoring_tid == 0)
ENS(C16, "no descriptor is touched", s_clean() && s_owned() == O.owned)
{ monitoring_thread_cleanup(arg); }
void main_cleanup(void)
{
    world();
    K.cancel_state = PTHREAD_CANCEL_DISABLE;
    K.alloc_may_fail = 0;
    LIMIT = ND_INT(limit);
    ASSUME(LIMIT >= 1 && LIMIT <= 2000000 && A->kq_id < LIMIT && W->kq_id < LIMIT);
    MAP = malloc((size_t)LIMIT * sizeof(int));
    ASSUME(MAP);
    int st = ND_INT(state);
    ASSUME(st >= 0 && st <= 2);
    STATE0 = monitoring_thread_state = st;
    if (st == THREAD_EXIT_STATE_CANCEL_LOCKED) { K.g_held = 1; kq_mtx.mtx_status = MTX_LOCKED; }
    fd_map = MAP;
    nb_max_fd = LIMIT;
    monitoring_tid = 77;
    LIST_INSERT_HEAD(&kq_list, A, kq_entry);
    if (ND_BOOL(second)) LIST_INSERT_HEAD(&kq_list, W, kq_entry);
    kq_cnt = 2;
    SHUT_A = !ND_BOOL(a_open);
    SHUT_W = !ND_BOOL(w_open);
    int a = env_fd(KF_KQPIPE, 1), w = env_fd(KF_KQPIPE, 1);
    if (SHUT_A) { AT(a) kF.open = 0; ASSUME(s_slot(A->kq_id) < 0); } else ASSUME(s_at(a).num == A->kq_id);
    if (SHUT_W) { AT(w) kF.open = 0; ASSUME(s_slot(W->kq_id) < 0); } else ASSUME(s_at(w).num == W->kq_id);
    if (kq_list.lh_first == A) SHUT_W = 0;
    env_snap(NULL, -1);
    vp_cleanup(NULL);
    REACH("cleanup");
}
