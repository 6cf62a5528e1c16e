/*
 * EVFILT_TIMER (src/linux/timer.c): the exact time a timer is set to.  64-bit
 * division is beyond the SAT back end, so this unit has a kernel of its own that
 * does nothing but capture the setting, and an SMT back end.
 *
 * SRC: linux/timer.c
 * KERNEL: no
 * JOB create MAIN=main_create ENFORCE=vp_create REPLACE=knote_delete,knote_disable SOLVER=smt
 * JOB modify MAIN=main_modify ENFORCE=vp_modify REPLACE=knote_delete,knote_disable SOLVER=smt
 * DEFAULT: C07
 */
#include "contract.h"
extern const struct filter evfilt_timer;
int knote_delete(struct filter *filt, struct knote *kn)
REQ(filt != NULL && kn != NULL)
ASG()
ENS(-, "", RV == 0 || RV == -1)
;
int knote_disable(struct filter *filt, struct knote *kn)
REQ(filt != NULL && kn != NULL)
ASG()
ENS(-, "", RV == 0 || RV == -1)
;
struct kernel K;
struct itimerspec TS;
unsigned NSET;
int k_timerfd_create(int clk, int flags) { (void)clk; (void)flags; return 7; }
int k_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    (void)fd; (void)flags; (void)o;
    TS = *n;
    NSET++;
    return 0;
}
int k_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { (void)ep; (void)op; (void)fd; (void)ev; return 0; }
int k_close(int fd) { (void)fd; return 0; }
ssize_t k_read(int fd, void *buf, size_t n) { (void)fd; (void)buf; (void)n; return -1; }
static struct kqueue KQ0;
static struct filter FL;
static struct knote KN0;

/* the time in the unit asked for; milliseconds unless a flag says otherwise */
static long t_sec(unsigned fflags, long data)
{
    switch (fflags & (NOTE_SECONDS | NOTE_USECONDS | NOTE_NSECONDS)) {
    case NOTE_SECONDS:  return data;
    case NOTE_USECONDS: return data / 1000000;
    case NOTE_NSECONDS: return data / 1000000000;
    default:            return data / 1000;
    }
}
static long t_nsec(unsigned fflags, long data)
{
    switch (fflags & (NOTE_SECONDS | NOTE_USECONDS | NOTE_NSECONDS)) {
    case NOTE_SECONDS:  return 0;
    case NOTE_USECONDS: return (data % 1000000) * 1000;
    case NOTE_NSECONDS: return data % 1000000000;
    default:            return (data % 1000) * 1000000;
    }
}
#define ONE_UNIT(ff) (((ff) & 7u) == 0 || ((ff) & 7u) == NOTE_SECONDS || ((ff) & 7u) == NOTE_USECONDS || ((ff) & 7u) == NOTE_NSECONDS)
#define IS(t, ff, d) ((t).tv_sec == t_sec((ff), (d)) && (t).tv_nsec == t_nsec((ff), (d)))
#define ZERO(t)      ((t).tv_sec == 0 && (t).tv_nsec == 0)
long DATA;
unsigned FF, FL0;

int vp_create(struct filter *filt, struct knote *kn)
REQ(kn == &KN0 && filt == &FL && NSET == 0 && kn->kev.data == DATA && kn->kev.fflags == FF && kn->kev.flags == FL0)
ASG(K, KN0, TS, NSET)
ENS(C07, "it is set once", NSET == 1 && RV == 0)
ENS(C07, "the first expiration is exactly the time requested, in the unit requested", IMP(DATA >= 0, IS(TS.it_value, FF, DATA)))
ENS(C07, "it repeats at exactly the interval requested, or never if one-shot", IMP(DATA >= 0, (FL0 & EV_ONESHOT) ? ZERO(TS.it_interval) : (FF & NOTE_ABSOLUTE) || IS(TS.it_interval, FF, DATA)))
ENS(C07, "a negative time is not turned into a valid one", IMP(DATA < 0, TS.it_value.tv_sec < 0 || TS.it_value.tv_nsec < 0))
{ return filt->kn_create(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(kn == &KN0 && filt == &FL && NSET == 0 && kev->data == DATA && kev->fflags == FF && kev->flags == FL0 && KNOTE_ENABLED(kn))
ASG(K, KN0, TS, NSET)
ENS(C07, "it is set once", NSET == 1 && RV == 0)
ENS(C07, "the first expiration is exactly the new time, in the unit requested", IMP(DATA >= 0, IS(TS.it_value, FF, DATA)))
ENS(C07, "it repeats at exactly the new interval, or never if one-shot", IMP(DATA >= 0, (FL0 & EV_ONESHOT) ? ZERO(TS.it_interval) : (FF & NOTE_ABSOLUTE) || IS(TS.it_interval, FF, DATA)))
ENS(C07, "a negative time is not turned into a valid one", IMP(DATA < 0, TS.it_value.tv_sec < 0 || TS.it_value.tv_nsec < 0))
{ return filt->kn_modify(filt, kn, kev); }

static void start(void)
{
    K = (struct kernel){ 0 };
    KQ0 = (struct kqueue){ 0 };
    FL = evfilt_timer;
    FL.kf_kqueue = &KQ0;
    KN0 = (struct knote){ 0 };
    NSET = 0;
    DATA = ND_LONG(data);
    FF = ND_UINT(fflags);
    FL0 = ND_USHORT(flags);
    ASSUME(ONE_UNIT(FF));
}
void main_create(void)
{
    start();
    KN0.kev.data = DATA;
    KN0.kev.fflags = FF;
    KN0.kev.flags = FL0;
    vp_create(&FL, &KN0);
    REACH("create");
}
void main_modify(void)
{
    start();
    struct kevent kev = { .ident = 1, .filter = EVFILT_TIMER, .flags = FL0, .fflags = FF, .data = DATA };
    KN0.kev.flags = ND_USHORT(old_flags) & ~EV_DISABLE;
    KN0.kev.data = ND_LONG(old_data);
    KN0.kev.fflags = ND_UINT(old_fflags);
    KN0.kn_timerfd = 7;
    vp_modify(&FL, &KN0, &kev);
    REACH("modify");
}
