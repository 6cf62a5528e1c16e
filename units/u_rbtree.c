/*
 * The indexes: the order of their entries (proved for all keys) and the
 * red-black trees over it as RB_GENERATE makes them for knotes and descriptor
 * states (a bounded stand-in: every order of
 * inserting and removing a few keys is executed).
 *
 * JOB knote_cmp MAIN=main_kcmp ENFORCE=vp_kcmp PROPS=C03
 * JOB fd_cmp    MAIN=main_fcmp ENFORCE=vp_fcmp PROPS=C13
 * JOB knotes    MAIN=main_tree ENFORCE=- SOLVER=native DEFS=KNOTES BOUNDED=every_order_of_inserting_up_to_5_of_6_keys_and_of_removing_them PROPS=C03,C17
 * JOB fds       MAIN=main_tree ENFORCE=- SOLVER=native BOUNDED=every_order_of_inserting_up_to_5_of_6_keys_and_of_removing_them PROPS=C13
 */
#include "env.h"
#include "trees.h"
#include "../src/common/knote.c"
#include "../src/linux/platform.c"

tracing_mutex_t kq_mtx;
struct kqueue_head kq_list;
unsigned int kq_cnt;
bool libkqueue_debug, libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_fork_cleanup_active;
int filter_register_all(struct kqueue *kq) { (void)kq; return 0; }
void filter_unregister_all(struct kqueue *kq) { (void)kq; }
unsigned int get_fd_limit(void) { return 1024; }
struct kqueue *kqueue_lookup(int id) { (void)id; return NULL; }
void kqueue_free(struct kqueue *kq) { (void)kq; }

#define SIGN(x) (((x) > 0) - ((x) < 0))
int vp_kcmp(struct knote *a, struct knote *b)
REQ(__CPROVER_r_ok(a, sizeof(*a)) && __CPROVER_r_ok(b, sizeof(*b)))
ASG()
ENS(C03, "registrations are ordered by their whole ident, and equal only if it is equal", SIGN(RV) == (a->kev.ident > b->kev.ident) - (a->kev.ident < b->kev.ident))
{ return knote_cmp(a, b); }
int vp_fcmp(struct fd_state *a, struct fd_state *b)
REQ(__CPROVER_r_ok(a, sizeof(*a)) && __CPROVER_r_ok(b, sizeof(*b)))
ASG()
ENS(C13, "descriptor states are ordered by their descriptor, and equal only if it is equal", SIGN(RV) == (a->fds_fd > b->fds_fd) - (a->fds_fd < b->fds_fd))
{ return epoll_fd_state_cmp(a, b); }

void main_kcmp(void)
{
    struct knote *a = (calloc)(1, sizeof(*a)), *b = (calloc)(1, sizeof(*b));
    ASSUME(a && b);
    a->kev.ident = ND_ULONG(a);
    b->kev.ident = ND_ULONG(b);
    vp_kcmp(a, b);
    REACH("knote_cmp");
}
void main_fcmp(void)
{
    struct fd_state *a = (calloc)(1, sizeof(*a)), *b = (calloc)(1, sizeof(*b));
    ASSUME(a && b);
    a->fds_fd = ND_INT(a);
    b->fds_fd = ND_INT(b);
    ASSUME(a->fds_fd >= -1 && b->fds_fd >= -1);
    vp_fcmp(a, b);
    REACH("fd_cmp");
}

#ifndef VP_CBMC
/* every order of inserting N keys, each followed by every order of removing them;
 * in every state so reached the tree is what a set of its keys would be */
#define KEYS 6
static unsigned long states;
#define EXHAUST(TYPE, HEAD, KEY, SET, TAG) \
    static struct TYPE n[KEYS], twin; \
    static struct HEAD h; \
    static void check(void) \
    { \
        struct TYPE *e, *next; \
        int seen = 0, count = 0; \
        states++; \
        for (int i = 0; i < KEYS; i++) { \
            struct TYPE q; \
            q.KEY = SET[i]; \
            CHECK(RB_FIND(HEAD, &h, &q) == (in[i] ? &n[i] : NULL), TAG " an entry is found exactly under its own key"); \
            count += in[i]; \
        } \
        struct TYPE *prev = NULL; \
        RB_FOREACH_SAFE(e, HEAD, &h, next) { \
            CHECK(seen < count && (!prev || e->KEY > prev->KEY), TAG " every entry is visited exactly once, in order"); \
            prev = e; \
            seen++; \
        } \
        CHECK(seen == count, TAG " every entry is visited exactly once, in order"); \
    } \
    static void removals(void) \
    { \
        struct TYPE keep[KEYS]; \
        struct HEAD hk = h; \
        memcpy(keep, n, sizeof(n)); \
        for (int i = 0; i < KEYS; i++) if (in[i]) { \
            in[i] = 0; \
            RB_REMOVE(HEAD, &h, &n[i]); \
            check(); \
            removals(); \
            in[i] = 1; \
            memcpy(n, keep, sizeof(n)); \
            h = hk; \
        } \
    } \
    static void insertions(int left) \
    { \
        struct TYPE keep[KEYS]; \
        struct HEAD hk = h; \
        memcpy(keep, n, sizeof(n)); \
        if (left == 0) { removals(); return; } \
        for (int i = 0; i < KEYS; i++) if (!in[i]) { \
            n[i].KEY = SET[i]; \
            CHECK(RB_INSERT(HEAD, &h, &n[i]) == NULL, TAG " an entry is inserted if there is none of its key"); \
            in[i] = 1; \
            twin = (struct TYPE){ 0 }; \
            twin.KEY = SET[i]; \
            CHECK(RB_INSERT(HEAD, &h, &twin) == &n[i], TAG " and not if there is one, which is returned"); \
            check(); \
            insertions(left - 1); \
            in[i] = 0; \
            memcpy(n, keep, sizeof(n)); \
            h = hk; \
        } \
    } \
    static void all(void) \
    { \
        RB_INIT(&h); \
        check(); \
        for (size = 1; size <= KEYS - 1; size++) insertions(size); \
        printf("NOTE %lu states\n", states); \
        printf("OBLIGATION " TAG " an entry is found exactly under its own key\n"); \
        printf("OBLIGATION " TAG " every entry is visited exactly once, in order\n"); \
        printf("OBLIGATION " TAG " an entry is inserted if there is none of its key\n"); \
        printf("OBLIGATION " TAG " and not if there is one, which is returned\n"); \
        fflush(stdout); \
    }
static int size;
static _Bool in[KEYS];
#ifdef KNOTES
static const uintptr_t idents[KEYS] = { 0, 1, 0x7fffffff, 0x80000000, 0x100000001, ~0ul };
EXHAUST(knote, knote_index, kev.ident, idents, "[C03 C17]")
#else
static const int fds[KEYS] = { 0, 1, 2, 63, 1023, 0x7fffffff };
EXHAUST(fd_state, fd_st, fds_fd, fds, "[C13]")
#endif
void main_tree(void) { all(); }
#endif
