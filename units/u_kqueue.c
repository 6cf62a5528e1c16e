/*
 * The life of a kqueue (src/common/kqueue.c): creation, lookup, release and the
 * handlers run around a fork.  The filters and the back end are known by their
 * contracts only (log L); the table of kqueues is seen through one witness cell
 * with the contracts proved in u_map.c.
 *
 * JOB create  MAIN=main_create ENFORCE=vp_create
 * JOB nofit   MAIN=main_nofit ENFORCE=vp_nofit
 * JOB free    MAIN=main_free ENFORCE=vp_free
 * JOB by_id   MAIN=main_by_id ENFORCE=vp_by_id
 * JOB lookup  MAIN=main_lookup ENFORCE=vp_lookup
 * JOB pre     MAIN=main_pre ENFORCE=vp_pre
 * JOB parent  MAIN=main_parent ENFORCE=vp_parent
 * JOB child   MAIN=main_child ENFORCE=vp_child
 * JOB init    MAIN=main_init ENFORCE=vp_init
 * JOB limit   MAIN=main_limit ENFORCE=vp_limit
 * JOB atexit  MAIN=main_atexit ENFORCE=vp_atexit
 * DEFAULT: C17
 */
#include "env.h"
#include "../src/common/kqueue.c"

/* ---- the log ---- */
struct life {
    unsigned n_init, n_free, n_unreg;        /* back end: kqueues initialised, freed; filters unregistered */
    struct kqueue *init_kq, *free_kq, *unreg_kq;
    _Bool wrong;                             /* without the locks required, or in the wrong order */
    _Bool init_fails, early;                 /* early: its descriptor was closed before its monitoring end */
    unsigned f_init, f_fork, f_free, b_init, b_fork, b_free;   /* library-wide hooks */
    unsigned n_map;
    size_t map_len;
} L;
/* ---- the table, through one cell ---- */
static char TOKEN;
int    MI;               /* the witness index ... */
void  *MC;               /* ... and its content   */
size_t MLEN;
_Bool  MELSE;            /* some other cell was touched */
static _Bool in(int i) { return i >= 0 && (size_t)i < MLEN; }
static _Bool at(struct map *m, int i) { CHECK(m == (struct map *)&TOKEN, "[C17] there is one table of kqueues"); if (i != MI) MELSE = 1; return in(i) && i == MI; }
struct map *map_new(size_t n) { L.n_map++; L.map_len = n; return (struct map *)&TOKEN; }
int map_insert(struct map *m, int i, void *p) { if (!at(m, i) || MC) return -1; MC = p; return 0; }
int map_remove(struct map *m, int i, void *p) { if (!at(m, i) || MC != p) return -1; MC = NULL; return 0; }
int map_replace(struct map *m, int i, void *o, void *p) { if (!at(m, i) || MC != o) return -1; MC = p; return 0; }
void *map_lookup(struct map *m, int i) { return at(m, i) ? MC : NULL; }
void *map_delete(struct map *m, int i) { void *p; if (!at(m, i)) return NULL; p = MC; MC = NULL; return p; }

void filter_init_all(void) { L.f_init++; }
void filter_fork_all(void) { L.f_fork++; if (!K.g_held) L.wrong = 1; }
void filter_free_all(void) { L.f_free++; }
int  knote_mark_disabled_all(struct filter *f) { (void)f; return 0; }
static _Bool listed(struct kqueue *kq);
void filter_unregister_all(struct kqueue *kq)
{
    if (!K.g_held || (kq == (struct kqueue *)MC) || (L.n_free && L.free_kq == kq)) L.wrong = 1;
    if (kq->kq_mtx.mtx_status != MTX_LOCKED) L.wrong = 1;
    L.n_unreg++;
    L.unreg_kq = kq;
}
static int b_init(struct kqueue *kq)
{
    if (!K.g_held || kq->epollfd || kq->kq_id || kq->kq_filt[0].kf_id || kq->kq_entry.le_prev) L.wrong = 1;
    L.n_init++;
    L.init_kq = kq;
    if (L.init_fails) return -1;
    kq->kq_id = MI;
    int s = env_fd(KF_KQPIPE, 1);       /* the descriptor the caller will get */
    ASSUME(s_at(s).num == MI);
    return 0;
}
static void b_free(struct kqueue *kq)
{
    if (!K.g_held) L.wrong = 1;
    if (kq->kq_mtx.mtx_status != MTX_LOCKED) L.wrong = 1;
    if (kq->kq_id == MI && L.n_init && L.init_kq == kq && s_slot(MI) < 0) L.early = 1;
    L.n_free++;
    L.free_kq = kq;
}
static void l_fork(void) { L.b_fork++; if (!K.g_held) L.wrong = 1; }
static void l_free(void) { L.b_free++; }
static void l_init(void) { L.b_init++; }
const struct kqueue_vtable kqops = { .libkqueue_init = l_init, .libkqueue_fork = l_fork, .libkqueue_free = l_free, .kqueue_init = b_init, .kqueue_free = b_free };

/* ---- the world: kqueue A and B exist; A is the one at the witness cell, if any ---- */
static struct kqueue *A, *B;
static _Bool HAVE_A;
static unsigned CNT0;
static int CANCEL0;
static struct kqueue_head LIST0;
static _Bool listed(struct kqueue *kq)
{
    struct kqueue *e = kq_list.lh_first;
    for (int i = 0; i < 3 && e; i++, e = e->kq_entry.le_next) if (e == kq) return 1;
    return 0;
}
static unsigned length(void)
{
    unsigned n = 0;
    for (struct kqueue *e = kq_list.lh_first; n < 4 && e; e = e->kq_entry.le_next) n++;
    return n;
}
#define LOCKS_OK   (!K.g_held && !K.kq_held && !K.lk_error && K.lk_other == 0 && !L.wrong)
#define A_GONE     (L.n_free == 1 && L.free_kq == A && L.n_unreg == 1 && L.unreg_kq == A && K.kq_destroyed == 1)
#define A_KEPT     (L.n_free == 0 && K.kq_destroyed == 0)
#define NEW        ((struct kqueue *)MC)

int vp_create(void)
REQ(in(MI) && L.n_init == 0 && L.n_free == 0 && L.n_unreg == 0)
ASG(K, L, MC, MELSE, kq_list, kq_cnt, kq_mtx, __CPROVER_object_whole(A), __CPROVER_object_whole(B), kqmap)
FREES(A)
ENS(C17, "it succeeds unless memory or the back end fails", IMP(!L.init_fails && !K.alloc_may_fail, RV >= 0) && RV >= -1)
ENS(C17, "success returns the descriptor, under which the new kqueue is found", IMP(RV >= 0, RV == MI && L.n_init == 1 && NEW == L.init_kq && NEW->kq_id == RV && NEW != A))
ENS(C17 C19 C20, "the new kqueue is among the active ones", IMP(RV >= 0, kq_list.lh_first == NEW && length() == 2 && listed(B) && kq_cnt == CNT0 + 1 - HAVE_A))
ENS(C17 C20, "a kqueue still recorded under that number is released, exactly once", IMP(RV >= 0 && HAVE_A, A_GONE) && IMP(RV >= 0 && !HAVE_A, A_KEPT && L.n_unreg == 0))
ENS(C17 C16, "failure returns -1 and leaves everything as it was", IMP(RV < 0, RV == -1 && MC == (HAVE_A ? (void *)A : NULL) && length() == 1u + HAVE_A && kq_cnt == CNT0 && A_KEPT && K.nalloc == O.nalloc))
ENS(C16 C17, "its descriptor is open, and no other is touched", s_clean() && s_owned() == O.owned + (RV >= 0))
ENS(C16 C17, "memory is one kqueue, less the one released", IMP(RV >= 0, K.nalloc == O.nalloc + 1 - HAVE_A))
ENS(C17, "other kqueues are untouched", !MELSE)
ENS(C17, "the library is initialised before anything else", K.n_once == 1 && K.once_fn == libkqueue_init && K.once_locked)
ENS(C18, "locks are taken, held and released as required", LOCKS_OK)
ENS(C18, "the cancellation state is as it was found", K.cancel_state == CANCEL0)
{ return kqueue(); }

/* a descriptor beyond the table */
int vp_nofit(void)
REQ(!in(MI) && L.n_init == 0 && L.n_free == 0 && L.n_unreg == 0 && !L.init_fails && !K.alloc_may_fail)
ASG(K, L, MC, MELSE, kq_list, kq_cnt, kq_mtx, __CPROVER_object_whole(B), kqmap)
ENS(C17, "a kqueue that cannot be recorded is refused", RV == -1)
ENS(C17, "and not among the active ones", length() == 1 && listed(B) && kq_cnt == CNT0 && K.nalloc == O.nalloc)
ENS(C17 C16, "what the back end made for it is released", L.n_free == 1 && L.n_unreg == 1 && L.free_kq == L.init_kq && L.unreg_kq == L.init_kq)
ENS(C17 C16, "its descriptor is closed, and no other", s_clean() && s_owned() == O.owned)
ENS(C17 C16, "which the monitoring thread is not told", L.n_free == 1 && !L.early)
ENS(C18, "locks are taken, held and released as required", LOCKS_OK)
ENS(C18, "the cancellation state is as it was found", K.cancel_state == CANCEL0)
{ return kqueue(); }

void vp_free(struct kqueue *kq)
REQ(kq == A && HAVE_A && K.g_held && L.n_free == 0 && L.n_unreg == 0)
ASG(K, L, MC, MELSE, kq_list, kq_cnt, kq_mtx, __CPROVER_object_whole(A), __CPROVER_object_whole(B))
FREES(A)
ENS(C17 C20, "the kqueue is no longer among the active ones, the others still are", length() == 1 && listed(B) && kq_cnt == CNT0 - 1)
ENS(C17 C20, "its registrations and descriptors are released, exactly once", A_GONE && !L.wrong)
ENS(C17, "it is no longer found; a newer kqueue of that number still is", MC == (O.gdel ? (void *)B : NULL) && !MELSE)
ENS(C16 C17, "its memory is released", K.nalloc == O.nalloc - 1)
ENS(C18, "its lock is free, the global one still held", K.g_held && !K.kq_held && !K.lk_error && K.lk_other == 0 && K.n_kq_lock == 1)
{ kqueue_free(kq); }

void vp_by_id(int id)
REQ(K.g_held && id == MI && L.n_free == 0 && L.n_unreg == 0)
ASG(K, L, MC, MELSE, kq_list, kq_cnt, kq_mtx, __CPROVER_object_whole(A), __CPROVER_object_whole(B))
FREES(A)
ENS(C17, "a kqueue recorded under the number is released, exactly once", IMP(HAVE_A && in(id), A_GONE && MC == NULL && kq_cnt == CNT0 - 1 && K.nalloc == O.nalloc - 1))
ENS(C17, "otherwise nothing happens", IMP(!(HAVE_A && in(id)), A_KEPT && L.n_unreg == 0 && kq_cnt == CNT0 && K.nalloc == O.nalloc))
ENS(C17 C18, "other kqueues are untouched and the lock is still held", !MELSE && length() >= 1 && listed(B) && K.g_held && !K.kq_held && !K.lk_error && !L.wrong)
{ kqueue_free_by_id(id); }

struct kqueue *vp_lookup(int id)
REQ(id == MI)
ASG(K, MELSE)
ENS(C17 C02, "the kqueue recorded under the number is found, and no other", RV == (in(id) ? (struct kqueue *)MC : NULL) && !MELSE)
{ return kqueue_lookup(id); }

static _Bool ACT0, SET0;
void vp_pre(void)
REQ(!K.g_held && !K.lk_error)
ASG(K, libkqueue_fork_cleanup_active, kq_mtx)
ENS(C19, "the setting in force is the one at the start of the fork", libkqueue_fork_cleanup_active == SET0 && libkqueue_fork_cleanup == SET0)
ENS(C19 C18, "the global lock is held across the fork exactly if clean-up is active", K.g_held == SET0 && !K.lk_error && K.lk_other == 0)
{ libkqueue_pre_fork(); }

void vp_parent(void)
REQ(K.g_held == ACT0 && !K.lk_error && libkqueue_fork_cleanup_active == ACT0)
ASG(K, kq_mtx)
ENS(C19 C18, "the parent comes out with the global lock released", !K.g_held && !K.lk_error && K.lk_other == 0)
ENS(C19, "the parent stays the parent and keeps its kqueues", !libkqueue_in_child && L.f_fork + L.b_fork == 0)
{ libkqueue_parent_fork(); }

void vp_child(void)
REQ(K.g_held == ACT0 && !K.lk_error && libkqueue_fork_cleanup_active == ACT0 && !L.wrong)
ASG(K, L, kq_mtx, libkqueue_in_child)
ENS(C19 C18, "the child comes out with the global lock released", !K.g_held && !K.lk_error && K.lk_other == 0)
ENS(C19, "the child cuts itself off exactly if clean-up is active, with the lock held", L.b_fork == ACT0 && L.f_fork == ACT0 && !L.wrong)
ENS(C19, "the child knows it is one", libkqueue_in_child)
{ libkqueue_child_fork(); }

void vp_init(void)
REQ(L.n_map == 0 && L.f_init == 0 && L.b_init == 0 && K.n_atfork == 0)
ASG(K, L, kqmap, libkqueue_debug)
ENS(C17, "one table with a place for every descriptor", L.n_map == 1 && L.map_len == (K.rlim_fails ? 65536 : (unsigned)K.rlim) && kqmap == (struct map *)&TOKEN)
ENS(C17, "filters and back end are initialised once", L.f_init == 1 && L.b_init == 1)
ENS(C19, "the fork handlers are installed once, each in its place", K.n_atfork == 1 && K.at_pre == libkqueue_pre_fork && K.at_parent == libkqueue_parent_fork && K.at_child == libkqueue_child_fork)
{ libkqueue_init(); }

unsigned vp_limit(void)
REQ(1)
ASG(K)
ENS(C17 C16, "the limit is the one no descriptor of the process can ever reach", RV == (K.rlim_fails ? 65536 : (unsigned)K.rlim))
{ return get_fd_limit(); }

void vp_atexit(void)
REQ(L.f_free == 0 && L.b_free == 0)
ASG(K, L)
ENS(C19, "a forked child leaves the resources of its parent alone", IMP(libkqueue_in_child, L.f_free + L.b_free == 0))
ENS(C17, "the process releases its own, once", IMP(!libkqueue_in_child, L.f_free == 1 && L.b_free == 1))
{ libkqueue_free(); }

static struct kqueue *make(int id)
{
    struct kqueue *kq = (calloc)(1, sizeof(*kq));
    ASSUME(kq != NULL);
    K.nalloc++;
    kq->kq_id = id;
    return kq;
}
static void world(void)
{
    env_kernel();
    K.lk_global = &kq_mtx.mtx_lock;
    kq_mtx.mtx_status = MTX_UNLOCKED;
    K.cancel_state = ND_BOOL(cancelable) ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE;
    K.cancel_pending = ND_BOOL(cancel_pending);
    CANCEL0 = K.cancel_state;
    K.alloc_may_fail = ND_BOOL(memory_short);
    L = (struct life){ 0 };
    L.init_fails = ND_BOOL(init_fails);
    MELSE = 0;
    kqmap = (struct map *)&TOKEN;
    MLEN = ND_ULONG(table);
    ASSUME(MLEN >= 1 && MLEN <= 0x7fffffff);
    MI = ND_INT(witness);
    MC = NULL;
    LIST_INIT(&kq_list);
    libkqueue_in_child = 0;
    int other = ND_INT(other);
    ASSUME(other >= 0 && other != MI);
    B = make(other);
    A = make(MI);
    K.lk_kq = &A->kq_mtx.mtx_lock;
    HAVE_A = ND_BOOL(recorded);
    _Bool first = ND_BOOL(a_first);
    if (HAVE_A && !first) LIST_INSERT_HEAD(&kq_list, A, kq_entry);
    LIST_INSERT_HEAD(&kq_list, B, kq_entry);
    if (HAVE_A && first) LIST_INSERT_HEAD(&kq_list, A, kq_entry);
    CNT0 = ND_UINT(count);
    ASSUME(CNT0 >= 1u + HAVE_A && CNT0 < 1000000);
    kq_cnt = CNT0;
    if (HAVE_A) MC = A;
    O.gdel = 0;
}
static void hold(void) { K.g_held = 1; kq_mtx.mtx_status = MTX_LOCKED; kq_mtx.mtx_owner = THREAD_ID; }
void main_create(void) { world(); ASSUME(in(MI)); env_snap(NULL, -1); vp_create(); REACH("create"); }
void main_nofit(void)
{
    world();
    ASSUME(MI >= 0 && !in(MI) && !HAVE_A);
    L.init_fails = 0;
    K.alloc_may_fail = 0;
    env_snap(NULL, -1);
    vp_nofit();
    REACH("nofit");
}
void main_free(void)
{
    world();
    ASSUME(in(MI) && HAVE_A);
    hold();
    env_snap(NULL, -1);
    if (ND_BOOL(newer)) { MC = B; O.gdel = 1; }
    vp_free(A);
    REACH("free");
}
void main_by_id(void) { world(); ASSUME(IMP(HAVE_A, in(MI))); hold(); env_snap(NULL, -1); vp_by_id(MI); REACH("by_id"); }
void main_lookup(void) { world(); vp_lookup(MI); REACH("lookup"); }
void main_pre(void) { world(); SET0 = libkqueue_fork_cleanup = ND_BOOL(setting); libkqueue_fork_cleanup_active = ND_BOOL(earlier); vp_pre(); REACH("pre"); }
static void forked(void)
{
    world();
    libkqueue_fork_cleanup = ND_BOOL(setting);
    ACT0 = libkqueue_fork_cleanup_active = ND_BOOL(active);
    if (ACT0) hold();
}
void main_parent(void) { forked(); vp_parent(); REACH("parent"); }
void main_child(void) { forked(); vp_child(); REACH("child"); }
static void limits(void) { world(); K.rlim = ND_ULONG(limit); K.rlim_fails = ND_BOOL(no_limit); ASSUME(K.rlim <= 0x7fffffff); }
void main_init(void) { limits(); kqmap = NULL; vp_init(); REACH("init"); }
void main_limit(void) { limits(); vp_limit(); REACH("limit"); }
void main_atexit(void) { world(); libkqueue_in_child = ND_BOOL(child); vp_atexit(); REACH("atexit"); }
