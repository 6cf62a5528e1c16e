/*
 * EVFILT_USER (src/linux/user.c): contracts on the operations of evfilt_user.
 *
 * SRC: linux/user.c common/knote.c
 * JOB create  MAIN=main_create ENFORCE=vp_create REPLACE=knote_delete,knote_disable
 * JOB enable  MAIN=main_enable ENFORCE=vp_enable REPLACE=knote_delete,knote_disable
 * JOB modify  MAIN=main_modify ENFORCE=vp_modify REPLACE=knote_delete,knote_disable
 * JOB disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable
 * JOB delete  MAIN=main_delete ENFORCE=vp_delete REPLACE=knote_delete,knote_disable
 * JOB copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable
 * JOB seq     MAIN=main_seq ENFORCE=- PROPS=C04,C08,C16 WEIGHT=20 BOUNDED=histories_of_a_creation,_at_most_3_operations_and_a_deletion
 * DEFAULT: C08 C16
 */
#include "env.h"

#define KEEPS(kn)   (SAME_ID(kn, O.kev) && (kn)->kev.data == O.kev.data && (kn)->kev.fflags == O.kev.fflags && (kn)->kev.flags == O.kev.flags)
static _Bool u_fd(struct knote *kn)
{
    int s = s_slot(kn->kn_eventfd);
    return s >= 0 && s_at(s).kind == KF_EVENTFD && s_at(s).own && UD_OK(kn);
}
static uint64_t u_level(struct knote *kn) { int s = s_slot(kn->kn_eventfd); return s < 0 ? 0 : s_at(s).cnt; }
static uint32_t u_mask(struct knote *kn) { int s = s_slot(kn->kn_eventfd); return s < 0 ? 0 : s_at(s).ev; }
static _Bool u_on(struct knote *kn)  { return u_fd(kn) && s_watched(kn->kn_eventfd, kn, u_mask(kn)) && (u_mask(kn) & EPOLLIN) && !(u_mask(kn) & (EPOLLET | EPOLLONESHOT)) && REFS(kn) == 1; }
static _Bool u_off(struct knote *kn) { return u_fd(kn) && REFS(kn) == 0; }
static _Bool u_inv(struct knote *kn) { return KNOTE_ENABLED(kn) ? u_on(kn) : u_off(kn); }
/* the documented meaning of the NOTE_FF* operations, on the caller's 24 flag bits */
static unsigned u_flags(unsigned old, unsigned op)
{
    unsigned v = op & NOTE_FFLAGSMASK, o = old & NOTE_FFLAGSMASK;
    switch (op & NOTE_FFCTRLMASK) {
    case NOTE_FFAND:  return o & v;
    case NOTE_FFOR:   return o | v;
    case NOTE_FFCOPY: return v;
    default:          return o;
    }
}

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && REFS(kn) == 0 && PRE(kn))
ASG(K, *kn)
ENS(C03 C08, "a user event can be created", (RV == 0 || RV == -1) && IMP(!K.syscalls_may_fail, RV == 0))
ENS(C04 C08, "the event is armed but not triggered", IMP(RV == 0, u_on(kn) && u_level(kn) == 0))
ENS(C16, "a failed creation leaves nothing behind", IMP(RV != 0, s_owned() == O.owned && s_regs() == O.regs && REFS(kn) == 0))
ENS(C16, "one descriptor per event, no invalid system call", IMP(RV == 0, s_owned() == O.owned + 1) && s_clean() && K.nalloc == O.nalloc)
ENS(C06 C03 C08, "the registration keeps what the caller supplied", KEEPS(kn))
{ return filt->kn_create(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && !KNOTE_ENABLED(kn) && u_off(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C08, "the event is armed again", IMP(!K.syscalls_may_fail, RV == 0) && (RV == 0 ? u_on(kn) : u_off(kn)))
ENS(C08 C16, "nothing else changes", s_owned() == O.owned && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && u_level(kn) == O.cnt)
{ return filt->kn_enable(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && u_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C08, "the flags are combined as the NOTE_FF operation says", IMP(RV == 0, (kn->kev.fflags & NOTE_FFLAGSMASK) == u_flags(O.kev.fflags, kev->fflags)))
ENS(C08, "a trigger makes an enabled event pending", IMP((kev->fflags & NOTE_TRIGGER) && KNOTE_ENABLED(kn), u_level(kn) >= 1))
ENS(C08, "without a trigger nothing becomes pending", IMP(!(kev->fflags & NOTE_TRIGGER), u_level(kn) == O.cnt))
ENS(C08, "a trigger always succeeds", RV == 0)
ENS(C04 C08, "the event stays enabled or disabled", u_inv(kn) && kn->kev.flags == O.kev.flags && SAME_ID(kn, O.kev) && u_level(kn) >= O.cnt)
ENS(C16, "no invalid or blocking system call", s_owned() == O.owned && s_regs() == O.regs && s_clean() && K.nalloc == O.nalloc)
{ return filt->kn_modify(filt, kn, kev); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && u_on(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C08, "a disabled event cannot fire", RV == 0 && u_off(kn))
ENS(C08 C16, "nothing else changes", s_owned() == O.owned && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && u_level(kn) == O.cnt)
{ return filt->kn_disable(filt, kn); }

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && u_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C16 C04, "a deleted event leaves nothing in the kernel", RV == 0 && REFS(kn) == 0)
ENS(C16, "its descriptor is released", s_owned() == O.owned - 1 && s_clean() && K.nalloc == O.nalloc)
{ return filt->kn_delete(filt, kn); }

int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && u_on(kn) && PRE(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0 && O.cnt >= 1)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C05 C14, "the result is one event unless disabling or deleting failed", RV == (G.flag_rv < 0 ? -1 : 1))
ENS(C06, "identity of the delivered event", el->ident == O.kev.ident && el->filter == EVFILT_USER && el->udata == O.kev.udata && el->flags == O.kev.flags && el->data == O.kev.data)
ENS(C08, "the caller's flags are delivered without the control bits", (el->fflags & NOTE_FFLAGSMASK) == (O.kev.fflags & NOTE_FFLAGSMASK) && (el->fflags & (NOTE_TRIGGER | NOTE_FFCTRLMASK)) == 0)
ENS(C08 C05, "an event with EV_CLEAR, EV_DISPATCH or EV_ONESHOT fires once per trigger", IMP(O.kev.flags & (EV_CLEAR | EV_DISPATCH | EV_ONESHOT), s_at(s_slot(O.kn.kn_eventfd)).cnt == 0))
ENS(C08 C05, "any other event stays pending", IMP(!(O.kev.flags & (EV_CLEAR | EV_DISPATCH | EV_ONESHOT)), s_at(s_slot(O.kn.kn_eventfd)).cnt >= 1))
ENS(C05, "a one-shot registration is deleted, exactly once", G.n_delete == ((O.kev.flags & EV_ONESHOT) != 0))
ENS(C05, "a dispatch registration is disabled, exactly once", G.n_disable == ((O.kev.flags & EV_DISPATCH) != 0))
ENS(C05 C08, "any other registration stays armed", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)), u_on(kn) && kn->kev.flags == O.kev.flags && SAME_ID(kn, O.kev) && (kn->kev.fflags & NOTE_FFLAGSMASK) == (O.kev.fflags & NOTE_FFLAGSMASK)))
ENS(C16, "no invalid or blocking system call", s_clean() && s_owned() == O.owned)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* ---- arbitrary pre-states ---- */
#define EVF evfilt_user
#define OBS(kn) ((kn)->kn_eventfd)
static void fresh(struct knote *kn) { (void)kn; }
static void park(struct knote *kn)
{
    int s = env_fd(KF_EVENTFD, 1);
    AT(s) kF.cnt = ND_ULONG(level);
    ASSUME(s_at(s).cnt < 0xfffffffffffffffeULL);
    kn->kn_eventfd = s_at(s).num;
    KN_UDATA(kn);
}
static void arm(struct knote *kn)
{
    park(kn);
    int s = k_slot(kn->kn_eventfd);
    AT(s) kF.reg = 1;
    AT(s) kF.ev = EPOLLIN;
    AT(s) kF.ptr = &kn->kn_udata;
}
#define INV(kn) u_inv(kn)
#define SEQ_ASSUME(kn) (void)0
#include "harness1.h"
