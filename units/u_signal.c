/*
 * EVFILT_SIGNAL (src/linux/signal.c): contracts on the operations of evfilt_signal.
 *
 * SRC: linux/signal.c common/knote.c
 * JOB create  MAIN=main_create ENFORCE=vp_create REPLACE=knote_delete,knote_disable
 * JOB enable  MAIN=main_enable ENFORCE=vp_enable REPLACE=knote_delete,knote_disable
 * JOB modify  MAIN=main_modify ENFORCE=vp_modify REPLACE=knote_delete,knote_disable
 * JOB disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable
 * JOB delete  MAIN=main_delete ENFORCE=vp_delete REPLACE=knote_delete,knote_disable
 * JOB copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable
 * JOB again  MAIN=main_again ENFORCE=- PROPS=C16,C11
 * JOB seq     MAIN=main_seq ENFORCE=- PROPS=C04,C11,C16 WEIGHT=20 BOUNDED=histories_of_a_creation,_at_most_3_operations_and_a_deletion
 * DEFAULT: C11 C16
 */
#include "env.h"

#define VALID(id)   ((int)(id) >= 1 && (int)(id) <= 64)
#define BIT(id)     (1ULL << ((int)(id) - 1))
#define KEEPS(kn)   (SAME_ID(kn, O.kev) && (kn)->kev.data == O.kev.data && (kn)->kev.fflags == O.kev.fflags)
static _Bool g_on(struct knote *kn)
{
    int s = s_slot(kn->kn_signalfd);
    return s >= 0 && s_at(s).kind == KF_SIGNALFD && s_at(s).own && (s_at(s).ev & EPOLLIN) && s_watched(kn->kn_signalfd, kn, s_at(s).ev) && REFS(kn) == 1 &&
           IMP(VALID(kn->kev.ident), s_at(s).sigs == BIT(kn->kev.ident) && (K.sigmask & BIT(kn->kev.ident))) && (kn->kev.flags & EV_CLEAR);
}
static _Bool g_off(struct knote *kn) { return kn->kn_signalfd == -1 && REFS(kn) == 0; }
static _Bool g_inv(struct knote *kn) { return KNOTE_ENABLED(kn) ? g_on(kn) : g_off(kn); }
uint64_t MASK0;
#define OWN_MASK    (VALID(O.kev.ident) ? BIT(O.kev.ident) : 0ULL)

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && REFS(kn) == 0 && PRE(kn))
ASG(K, *kn)
ENS(C03 C11, "a signal can be watched", (RV == 0 || RV == -1) && IMP(VALID(O.kev.ident) && !K.syscalls_may_fail, RV == 0))
ENS(C04 C11, "exactly the requested signal is caught, and its default action suppressed", IMP(RV == 0, g_on(kn)))
ENS(C11, "no other signal is blocked or unblocked", (K.sigmask & ~OWN_MASK) == (MASK0 & ~OWN_MASK))
ENS(C16, "a failed creation leaves nothing behind", IMP(RV != 0, s_owned() == O.owned && s_regs() == O.regs && g_off(kn)))
ENS(C16, "one descriptor per signal, no invalid system call", IMP(RV == 0, s_owned() == O.owned + 1) && s_clean() && K.nalloc == O.nalloc)
ENS(C06 C03 C11, "the registration keeps what the caller supplied", KEEPS(kn) && (kn->kev.flags | EV_CLEAR) == (O.kev.flags | EV_CLEAR))
{ return filt->kn_create(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && !KNOTE_ENABLED(kn) && g_off(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C11, "the signal is watched again", IMP(VALID(O.kev.ident) && !K.syscalls_may_fail, RV == 0) && (RV == 0 ? g_on(kn) : g_off(kn)))
ENS(C11, "no other signal is blocked or unblocked", (K.sigmask & ~OWN_MASK) == (MASK0 & ~OWN_MASK))
ENS(C11 C16, "nothing else changes", s_owned() == O.owned + (RV == 0) && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && (kn->kev.flags | EV_CLEAR) == (O.kev.flags | EV_CLEAR))
{ return filt->kn_enable(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && g_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C11, "re-adding keeps the signal watched", RV == 0 && g_inv(kn) && KNOTE_DISABLED(kn) == (O.kev.flags & EV_DISABLE))
ENS(C11 C16, "nothing else changes", s_owned() == O.owned && s_regs() == O.regs && s_clean() && K.nalloc == O.nalloc && SAME_ID(kn, O.kev) && K.sigmask == MASK0)
{ return filt->kn_modify(filt, kn, kev); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && g_on(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C11, "a disabled registration cannot fire", RV == 0 && g_off(kn))
ENS(C11, "no other signal is blocked or unblocked", (K.sigmask & ~OWN_MASK) == (MASK0 & ~OWN_MASK))
ENS(C16, "its descriptor is released", s_owned() == O.owned - 1 && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && kn->kev.flags == O.kev.flags)
{ return filt->kn_disable(filt, kn); }

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && g_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C16 C04, "a deleted registration leaves nothing in the kernel", RV == 0 && REFS(kn) == 0)
ENS(C11, "no other signal is blocked or unblocked", (K.sigmask & ~OWN_MASK) == (MASK0 & ~OWN_MASK))
ENS(C16, "its descriptor is released", s_owned() == O.owned - (O.kn.kn_signalfd != -1) && s_clean() && K.nalloc == O.nalloc)
{ return filt->kn_delete(filt, kn); }

int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && g_on(kn) && PRE(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0 && O.cnt >= 1)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C05 C14, "the result is one event unless disabling or deleting failed", RV == (G.flag_rv < 0 ? -1 : 1))
ENS(C06 C11, "identity of the delivered event", el->ident == O.kev.ident && el->filter == EVFILT_SIGNAL && el->udata == O.kev.udata && el->flags == O.kev.flags && el->fflags == O.kev.fflags)
ENS(C11, "what is delivered is what was consumed, at least one occurrence", el->data >= 1 && s_at(s_slot(O.kn.kn_signalfd)).cnt < O.cnt && (uint64_t)el->data <= O.cnt - s_at(s_slot(O.kn.kn_signalfd)).cnt)
ENS(C05, "a one-shot registration is deleted, exactly once", G.n_delete == ((O.kev.flags & EV_ONESHOT) != 0))
ENS(C05, "a dispatch registration is disabled, exactly once", G.n_disable == ((O.kev.flags & EV_DISPATCH) != 0))
ENS(C05 C11, "any other registration stays armed", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)), g_on(kn) && KEEPS(kn) && kn->kev.flags == O.kev.flags))
ENS(C16 C11, "no invalid or blocking system call", s_clean() && s_owned() == O.owned && K.sigmask == MASK0)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* ---- arbitrary pre-states ---- */
#define EVF evfilt_signal
#define OBS(kn) ((kn)->kn_signalfd)
static void fresh(struct knote *kn) { (void)kn; MASK0 = K.sigmask = ND_ULONG(sigmask0); K.signalfd_einval = ND_BOOL(old_kernel); }
static void park(struct knote *kn) { fresh(kn); kn->kn_signalfd = -1; }
static void arm(struct knote *kn)
{
    int s = env_fd(KF_SIGNALFD, 1);
    fresh(kn);
    ASSUME(VALID(kn->kev.ident));
    K.sigmask |= BIT(kn->kev.ident);
    MASK0 = K.sigmask;
    AT(s) kF.sigs = BIT(kn->kev.ident);
    AT(s) kF.cnt = ND_ULONG(pending);
    kn->kev.flags |= EV_CLEAR;
    kn->kn_signalfd = s_at(s).num;
    KN_UDATA(kn);
    AT(s) kF.reg = 1;
    AT(s) kF.ev = EPOLLIN;
    AT(s) kF.ptr = &kn->kn_udata;
}
#define INV(kn) g_inv(kn)
#define SEQ_ASSUME(kn) ASSUME(VALID((kn)->kev.ident))
#include "harness1.h"

/* from the start of the process: what one creation, however it ends, leaves to the next */
void main_again(void)
{
    struct knote *kn = start();
    ASSUME(VALID(kn->kev.ident));
    set_flags(kn, 0);
    fresh(kn);
    for (int i = 0; i < 3; i++) {
        if (FILT->kn_create(FILT, kn) != 0) continue;
        struct kfd f = s_at(s_slot(kn->kn_signalfd));
        CHECK(K.signalfd_einval || f.nonblock, "[C16 C11] reading a signal descriptor never blocks, whatever failed before");
        CHECK(K.signalfd_einval || f.cloexec, "[C16] a signal descriptor isn't inherited by other programs, whatever failed before");
        CHECK(FILT->kn_delete(FILT, kn) == 0, "[C16 C04] a deleted registration leaves nothing in the kernel");
    }
    REACH("again");
}
