/*
 * The table of filters of a kqueue (src/common/filter.c).
 *
 * SRC: common/filter.c common/kevent.c common/kqueue.c common/map.c common/debug.c common/libkqueue.c common/knote.c linux/platform.c linux/read.c linux/write.c linux/signal.c linux/vnode.c linux/proc.c linux/timer.c linux/user.c
 * STUB: fds knote dump
 * JOB lookup     MAIN=main_lookup ENFORCE=vp_lookup
 * JOB register   MAIN=main_register ENFORCE=vp_register UNWIND=16
 * JOB unregister MAIN=main_unregister ENFORCE=vp_unregister REPLACE=knote_delete_all UNWIND=16
 * DEFAULT: C03 C17
 */
#include "env.h"
#include "trees.h"

unsigned SEEN, DONE, TWICE;      /* filters whose registrations were (twice) deleted */
static struct filter W0;
int W;                           /* an arbitrary place of the table */

int knote_delete_all(struct filter *filt)
REQ(filt >= KQ.kq_filt && filt < KQ.kq_filt + EVFILT_SYSCOUNT && filt->kf_id != 0)
ASG(SEEN, TWICE)
ENS(-, "", SEEN == (OLD(SEEN) | 1u << (filt - KQ.kq_filt)) && TWICE == (OLD(TWICE) | (OLD(SEEN) & 1u << (filt - KQ.kq_filt))))
;

#ifndef VP_CBMC
int __wrap_knote_delete_all(struct filter *filt)
{
    unsigned b = 1u << (filt - KQ.kq_filt);
    TWICE |= SEEN & b;
    SEEN |= b;
    return 0;
}
#endif

static const struct filter *f_real(int i)
{
    switch (~i) {
    case EVFILT_READ:      return &evfilt_read;
    case EVFILT_WRITE:     return &evfilt_write;
    case EVFILT_SIGNAL:    return &evfilt_signal;
    case EVFILT_VNODE:     return &evfilt_vnode;
    case EVFILT_PROC:      return &evfilt_proc;
    case EVFILT_TIMER:     return &evfilt_timer;
    case EVFILT_USER:      return &evfilt_user;
    case EVFILT_LIBKQUEUE: return &evfilt_libkqueue;
    default:               return NULL;
    }
}
#define F        (&KQ.kq_filt[W])
#define SUPP(i)  (f_real(i) != NULL)
#define OPS(f, r) ((f)->kf_copyout == (r)->kf_copyout && (f)->kn_create == (r)->kn_create && (f)->kn_modify == (r)->kn_modify && (f)->kn_delete == (r)->kn_delete && (f)->kn_enable == (r)->kn_enable && (f)->kn_disable == (r)->kn_disable)
static _Bool f_ready(int i)
{
    const struct filter *r = f_real(i), *f = &KQ.kq_filt[i];
    return f->kf_id == (short)~i && OPS(f, r) && f->kn_create && f->kf_copyout && f->kn_modify && f->kn_delete && f->kn_enable && f->kn_disable &&
           f->kf_kqueue == &KQ && f->kf_index.rbh_root == NULL && f->kf_ready.lh_first == NULL;
}

int vp_lookup(struct filter **filt, struct kqueue *kq, short id)
REQ(kq == &KQ && W >= 0 && W < EVFILT_SYSCOUNT)
ASG(K, *filt)
ENS(C03, "an identifier that names no place of the table is refused with EINVAL", IMP(~id < 0 || ~id >= EVFILT_SYSCOUNT, RV == -1 && K.err == EINVAL && *filt == NULL))
ENS(C03, "a filter that is not there is refused with ENOSYS", IMP(W == ~id && F->kf_copyout == NULL, RV == -1 && K.err == ENOSYS && *filt == NULL))
ENS(C03, "a filter that is there is found at its own place", IMP(W == ~id && F->kf_copyout != NULL, RV == 0 && *filt == F))
{ return filter_lookup(filt, kq, id); }

int vp_register(struct kqueue *kq)
REQ(kq == &KQ && W >= 0 && W < EVFILT_SYSCOUNT)
ASG(K, KQ)
ENS(C17, "the filters of Linux can always be registered", RV == 0)
ENS(C17 C03, "every supported filter is ready at its own place, with no registration", IMP(SUPP(W), f_ready(W)))
ENS(C03 C17, "there is no other filter", IMP(!SUPP(W), F->kf_copyout == NULL && F->kf_id == 0))
ENS(C16, "nothing is allocated", K.nalloc == O.nalloc && s_owned() == O.owned && s_clean())
{ return filter_register_all(kq); }

void vp_unregister(struct kqueue *kq)
REQ(kq == &KQ && W >= 0 && W < EVFILT_SYSCOUNT && SEEN == 0 && TWICE == 0)
ASG(K, KQ, SEEN, TWICE)
ENS(C17 C16, "all registrations of every filter are deleted, once", (SEEN >> W & 1) == (W0.kf_id != 0) && TWICE == 0)
ENS(C17 C03, "and no filter is left", F->kf_id == 0 && F->kf_copyout == NULL)
{ filter_unregister_all(kq); }

static void table(void)
{
    env_kernel();
    K.alloc_may_fail = 0;
    T = (struct trees){ 0 };
    KQ = (struct kqueue){ 0 };
    KQ.epollfd = K.epfd;
    SEEN = TWICE = 0;
    W = ND_INT(place);
    ASSUME(W >= 0 && W < EVFILT_SYSCOUNT);
}
void main_lookup(void)
{
    struct filter *f;
    table();
    for (int i = 0; i < EVFILT_SYSCOUNT; i++) if (ND_BOOL(there)) { KQ.kq_filt[i] = evfilt_user; KQ.kq_filt[i].kf_id = ~i; }
    vp_lookup(&f, &KQ, (short)ND_SHORT(id));
    REACH("lookup");
}
void main_register(void) { table(); env_snap(NULL, -1); vp_register(&KQ); REACH("register"); }
void main_unregister(void)
{
    table();
    for (int i = 0; i < EVFILT_SYSCOUNT; i++) if (SUPP(i) && ND_BOOL(there)) { KQ.kq_filt[i] = *f_real(i); KQ.kq_filt[i].kf_kqueue = &KQ; }
    W0 = KQ.kq_filt[W];
    vp_unregister(&KQ);
    REACH("unregister");
}
