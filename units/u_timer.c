/*
 * EVFILT_TIMER (src/linux/timer.c): contracts on the operations of evfilt_timer.
 *
 * SRC: linux/timer.c common/knote.c
 * JOB create  MAIN=main_create  ENFORCE=vp_create  REPLACE=knote_delete,knote_disable
 * JOB enable  MAIN=main_enable  ENFORCE=vp_enable  REPLACE=knote_delete,knote_disable
 * JOB modify  MAIN=main_modify  ENFORCE=vp_modify  REPLACE=knote_delete,knote_disable
 * JOB disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable
 * JOB delete  MAIN=main_delete  ENFORCE=vp_delete  REPLACE=knote_delete,knote_disable
 * JOB copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable
 * JOB seq     MAIN=main_seq ENFORCE=- PROPS=C04,C07,C16 WEIGHT=20 BOUNDED=histories_of_a_creation,_at_most_3_operations_and_a_deletion
 * DEFAULT: C07 C16
 */
#include "env.h"

/* The exact conversion of data to seconds and nanoseconds is the subject of
 * u_timerspec.c (64-bit division needs the SMT back end). */
/* the timer of kn runs as its kevent asks, and nothing else of kn is in the kernel */
static _Bool t_runs(struct knote *kn, long data, unsigned fflags, unsigned flags)
{
    int s = s_slot(kn->kn_timerfd);
    if (s < 0 || s_at(s).kind != KF_TIMERFD || !s_at(s).own || !s_at(s).timer_set) return 0;
    if (s_at(s).clk != CLOCK_MONOTONIC) return 0;
    if (s_at(s).ts.it_value.tv_sec < 0 || data < 0) return 0;
    if (s_at(s).tflags != ((fflags & NOTE_ABSOLUTE) ? TFD_TIMER_ABSTIME : 0)) return 0;
    if (flags & EV_ONESHOT) return s_at(s).ts.it_interval.tv_sec == 0 && s_at(s).ts.it_interval.tv_nsec == 0;
    return (fflags & NOTE_ABSOLUTE) || (s_at(s).ts.it_interval.tv_sec == s_at(s).ts.it_value.tv_sec && s_at(s).ts.it_interval.tv_nsec == s_at(s).ts.it_value.tv_nsec);
}
static _Bool t_armed(struct knote *kn)
{
    unsigned fl = kn->kev.flags;
    return t_runs(kn, kn->kev.data, kn->kev.fflags, fl) && REFS(kn) == 1 && (fl & EV_CLEAR) &&
           s_watched(kn->kn_timerfd, kn, EPOLLIN | EPOLLET | ((fl & (EV_ONESHOT | EV_DISPATCH)) ? EPOLLONESHOT : 0));
}
static _Bool t_off(struct knote *kn) { return kn->kn_timerfd == -1 && REFS(kn) == 0; }
static _Bool t_inv(struct knote *kn) { return KNOTE_ENABLED(kn) ? t_armed(kn) : t_off(kn); }
#define CAN_FAIL(data) (K.syscalls_may_fail || (data) < 0)

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && REFS(kn) == 0 && PRE(kn))
ASG(K, *kn)
ENS(C03 C16, "creation reports success or failure", RV == 0 || RV == -1)
ENS(C03 C07, "a valid timer can be created", IMP(!CAN_FAIL(O.kev.data), RV == 0))
ENS(C07 C04, "the timer runs with the requested unit, base and period", IMP(RV == 0, t_armed(kn)))
ENS(C16, "one descriptor per timer", IMP(RV == 0, s_owned() == O.owned + 1))
ENS(C16, "a failed creation leaves nothing behind", IMP(RV != 0, s_owned() == O.owned && s_regs() == O.regs))
ENS(C16, "no invalid system call", s_clean() && K.nalloc == O.nalloc)
ENS(C06 C03 C07, "the registration keeps what the caller supplied", SAME_ID(kn, O.kev) && kn->kev.data == O.kev.data && kn->kev.fflags == O.kev.fflags && (kn->kev.flags | EV_CLEAR) == (O.kev.flags | EV_CLEAR))
{ return filt->kn_create(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && !KNOTE_ENABLED(kn) && t_off(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C07, "enabling restarts the timer", IMP(!CAN_FAIL(O.kev.data), RV == 0) && IMP(RV == 0, t_armed(kn)))
ENS(C16, "one descriptor per timer", s_owned() == O.owned + (RV == 0))
ENS(C16 C04, "a failed enable leaves the timer off", IMP(RV != 0, REFS(kn) == 0 && kn->kn_timerfd == -1))
ENS(C16, "no invalid system call", s_clean() && K.nalloc == O.nalloc)
ENS(C06 C04 C07, "the registration keeps what the caller supplied", SAME_ID(kn, O.kev) && kn->kev.data == O.kev.data && kn->kev.fflags == O.kev.fflags && (kn->kev.flags | EV_CLEAR) == (O.kev.flags | EV_CLEAR))
{ return filt->kn_enable(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && t_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C07, "re-adding a timer restarts it with the new unit, base and period", IMP(RV == 0, t_inv(kn)))
ENS(C07 C04, "a valid timer can be modified", IMP(kev->data >= 0, RV == 0))
ENS(C07, "the new settings are recorded", IMP(RV == 0, kn->kev.data == kev->data && kn->kev.fflags == kev->fflags && kn->kev.flags == (kev->flags | EV_CLEAR | (O.kev.flags & EV_DISABLE))))
ENS(C07 C16, "a failed modification changes nothing", IMP(RV != 0, t_inv(kn) && kn->kev.data == O.kev.data && kn->kev.fflags == O.kev.fflags && kn->kev.flags == O.kev.flags))
ENS(C16, "descriptors unchanged", s_owned() == O.owned && s_regs() == O.regs && s_clean() && K.nalloc == O.nalloc)
ENS(C06, "identity unchanged", SAME_ID(kn, O.kev))
{ return filt->kn_modify(filt, kn, kev); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && t_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04, "a disabled timer cannot fire", RV == 0 && t_off(kn))
ENS(C16, "its descriptor is released", s_owned() == O.owned - 1 && s_clean() && K.nalloc == O.nalloc)
ENS(C06 C04 C07, "the registration keeps what the caller supplied", SAME_ID(kn, O.kev) && kn->kev.data == O.kev.data && kn->kev.fflags == O.kev.fflags && kn->kev.flags == O.kev.flags)
{ return filt->kn_disable(filt, kn); }

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && t_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C16 C04, "a deleted timer leaves nothing in the kernel", RV == 0 && REFS(kn) == 0)
ENS(C16, "its descriptor is released", s_owned() == O.owned - (O.kn.kn_timerfd != -1) && s_clean() && K.nalloc == O.nalloc)
{ return filt->kn_delete(filt, kn); }

int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && t_inv(kn) && PRE(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0)
REQ(s_at(s_slot(kn->kn_timerfd)).cnt >= 1)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C05, "the result is one event unless disabling or deleting failed", RV == (G.flag_rv < 0 ? -1 : 1))
ENS(C07, "data is the number of expirations", el->data == (intptr_t)O.cnt)
ENS(C06, "identity of the delivered event", el->ident == O.kev.ident && el->filter == EVFILT_TIMER && el->udata == O.kev.udata)
ENS(C06 C07, "fflags and flags are those registered", el->flags == O.kev.flags && IMP(!(((struct epoll_event *)ev)->events & EPOLLERR), el->fflags == O.kev.fflags))
ENS(C05, "a one-shot timer is deleted, exactly once", G.n_delete == ((O.kev.flags & EV_ONESHOT) != 0))
ENS(C05, "a dispatch timer is disabled, exactly once", G.n_disable == ((O.kev.flags & EV_DISPATCH) != 0))
ENS(C05 C07, "any other timer keeps running", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)), t_inv(kn) && kn->kev.flags == O.kev.flags && kn->kev.fflags == O.kev.fflags && kn->kev.data == O.kev.data))
ENS(C16, "no invalid or blocking system call", s_clean() && s_owned() == O.owned)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* ---- arbitrary pre-states ---- */
#define EVF evfilt_timer
#define OBS(kn) ((kn)->kn_timerfd)
static void fresh(struct knote *kn) { (void)kn; }
static void park(struct knote *kn) { kn->kn_timerfd = -1; }
static void arm(struct knote *kn)
{
    int s = env_fd(KF_TIMERFD, 1);
    kn->kev.flags |= EV_CLEAR;
    ASSUME(kn->kev.data >= 0);
    AT(s) kF.timer_set = 1;
    AT(s) kF.clk = CLOCK_MONOTONIC;
    AT(s) kF.tflags = (kn->kev.fflags & NOTE_ABSOLUTE) ? TFD_TIMER_ABSTIME : 0;
    AT(s) kF.cnt = ND_ULONG(expirations);
    struct itimerspec its;
    its.it_value.tv_sec = ND_LONG(t_sec);
    its.it_value.tv_nsec = ND_LONG(t_nsec);
    ASSUME(its.it_value.tv_sec >= 0);
    if (kn->kev.flags & EV_ONESHOT) its.it_interval.tv_sec = its.it_interval.tv_nsec = 0;
    else its.it_interval = its.it_value;
    AT(s) kF.ts = its;
    AT(s) kF.reg = 1;
    AT(s) kF.ev = EPOLLIN | EPOLLET | ((kn->kev.flags & (EV_ONESHOT | EV_DISPATCH)) ? EPOLLONESHOT : 0);
    AT(s) kF.ptr = &kn->kn_udata;
    KN_UDATA(kn);
    kn->kn_timerfd = s_at(s).num;
}
#define INV(kn) t_inv(kn)
#define SEQ_ASSUME(kn) (void)0
#include "harness1.h"
