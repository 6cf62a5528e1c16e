/*
 * Demultiplexing of kernel events (kqops.kevent_copyout in src/linux/platform.c)
 * over filters known by contract.
 *
 * SRC: 
 * STUB: fds dump
 * JOB one  MAIN=main_one  ENFORCE=vp_one
 * JOB list MAIN=main_list ENFORCE=vp_list BOUNDED=at_most_3_kernel_events WEIGHT=60
 * DEFAULT: C14
 */
#include "env.h"
#include "trees.h"
#include "../src/linux/platform.c"

/* ---- the filters, by contract --------------------------------------------- */
#define NCALL 6
struct call { struct knote *kn; struct filter *filt; struct kevent *el; int n; void *ev; int rv; _Bool drop; };
struct calls { unsigned n; struct call c[NCALL]; int rv[NCALL]; _Bool drop[NCALL]; _Bool del[NCALL]; _Bool dis[NCALL]; _Bool stale; } CC;
struct knote *RK, *WK, *XK[3];   /* reading and writing one descriptor, and others */
struct fd_state *FS;
_Bool RGONE, WGONE, XGONE[3];
_Bool R_LEFT, W_LEFT;             /* still there and enabled */
static int sp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
{
    unsigned i = CC.n;
    CHECK(i < NCALL, "[C14] at most one delivery per registration and event");
    CHECK(n >= 1, "[C14 C02] a filter delivers only into free space");
    if ((kn == RK && RGONE) || (kn == WK && WGONE)) CC.stale = 1;
    for (int j = 0; j < 3; j++) if (kn == XK[j] && XGONE[j]) CC.stale = 1;
    if (i >= NCALL) return 0;
    CC.c[i] = (struct call){ .kn = kn, .filt = filt, .el = el, .n = n, .ev = ev, .rv = CC.rv[i], .drop = CC.drop[i] };
    CC.n++;
    el->filter = CC.drop[i] ? 0 : (kn ? kn->kev.filter : EVFILT_USER);
    if (CC.del[i] && kn) {       /* one-shot: the registration is gone after this */
        if (kn == RK && FS) { FS->fds_read = NULL; RGONE = 1; if (WGONE || !WK) { k_free(FS); FS = NULL; } k_free(kn); }
        else if (kn == WK && FS) { FS->fds_write = NULL; WGONE = 1; if (RGONE || !RK) { k_free(FS); FS = NULL; } k_free(kn); }
        else for (int j = 0; j < 3; j++) if (kn == XK[j]) { XGONE[j] = 1; k_free(kn); }
    } else if (CC.dis[i] && kn) kn->kev.flags |= EV_DISABLE;
    if (kn && kn == RK && (CC.del[i] || CC.dis[i])) R_LEFT = 0;
    if (kn && kn == WK && (CC.del[i] || CC.dis[i])) W_LEFT = 0;
    return CC.rv[i];
}
static const struct filter rd = { .kf_id = EVFILT_READ, .kf_copyout = sp_copyout }, wr = { .kf_id = EVFILT_WRITE, .kf_copyout = sp_copyout }, us = { .kf_id = EVFILT_USER, .kf_copyout = sp_copyout };
struct filter *RF, *WF, *XF;
struct kevent EL[5];
struct eventfd EFD;
enum { EV_NONE, EV_KN, EV_FDS, EV_EFD };
int WHAT;
uint32_t EVS;
_Bool R_ON, W_ON;
#define R_DUE   (WHAT == EV_FDS && R_ON && (EVS & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR)))
#define W_DUE   (WHAT == EV_FDS && W_ON && (EVS & (EPOLLOUT | EPOLLHUP | EPOLLERR)))
#define GOT(i)  (CC.c[i].drop ? 0 : CC.c[i].rv)
static int o_sum(void) { int n = 0; for (unsigned i = 0; i < NCALL; i++) if (i < CC.n) n += GOT(i); return n; }
static _Bool o_call(unsigned i, struct knote *kn, struct filter *f)
{
    int at = 0;
    for (unsigned j = 0; j < NCALL; j++) if (j < i) at += GOT(j);
    return i < CC.n && CC.c[i].kn == kn && CC.c[i].filt == f && CC.c[i].el == &EL[at];
}
int ROOM;
struct knote *RK0, *WK0, *XK0;
struct fd_state *FS0;
_Bool R_ET, W_ET;
int FD_NUM;
/* the descriptor of FS is watched and was (re)armed, so a condition that holds is reported (again) */
static _Bool o_again(void)
{
    struct kfd f = s_at(s_slot(FD_NUM));
    uint32_t want = (R_LEFT ? EPOLLIN | EPOLLRDHUP : 0) | (W_LEFT ? EPOLLOUT : 0);
    return f.reg && f.armed && f.ptr == &FS0->fds_udata && (f.ev & (EPOLLIN | EPOLLOUT | EPOLLRDHUP)) == want
        && !!(f.ev & EPOLLET) == (!(R_LEFT && !R_ET) && !(W_LEFT && !W_ET)) && !(f.ev & EPOLLONESHOT);
}

int vp_one(struct kqueue *kq, int nready, struct kevent *el, int n)
REQ(kq == &KQ && nready == 1 && el == EL && n == ROOM && n >= 1 && n <= 4 && CC.n == 0)
ASG(K, CC, EL, RGONE, WGONE, XGONE, R_LEFT, W_LEFT, FS, *RK, *WK, *XK[0], *FS)
FREES(RK, WK, XK[0], FS)
ENS(C14, "an event of one registration goes to that registration", IMP(WHAT == EV_KN, CC.n == 1 && o_call(0, XK0, XF)))
ENS(C14 C13, "an event of a shared descriptor goes to the enabled registrations it concerns", IMP(WHAT == EV_FDS, CC.n == (unsigned)(R_DUE + (W_DUE && (!R_DUE || GOT(0) < ROOM)))))
ENS(C14 C13, "the reader comes first, the writer second", IMP(R_DUE, o_call(0, RK0, RF)) && IMP(W_DUE && CC.n == (unsigned)(1 + R_DUE), o_call(R_DUE ? 1 : 0, WK0, WF)))
ENS(C14, "what there was no space for is reported again", IMP(R_DUE && W_DUE && CC.n == 1, o_again()))
ENS(C14 C13, "otherwise the kernel's watch is left to the filters", IMP(!(R_DUE && W_DUE && CC.n == 1), !s_at(s_slot(FD_NUM)).armed))
ENS(C14, "an event without a registration is ignored", IMP(WHAT == EV_NONE, CC.n == 0))
ENS(C14, "an event of a filter goes to that filter", IMP(WHAT == EV_EFD, CC.n == 1 && o_call(0, NULL, XF)))
ENS(C14 C12, "filters see the kernel event itself", IMP(CC.n >= 1, CC.c[0].ev == &epoll_events[0]) && IMP(CC.n >= 2, CC.c[1].ev == &epoll_events[0]))
ENS(C14 C02, "filters are told the space that is left", IMP(CC.n >= 1, CC.c[0].n == ROOM) && IMP(CC.n >= 2, CC.c[1].n == ROOM - GOT(0)))
ENS(C14 C02, "the count is that of the events not discarded", RV == o_sum())
ENS(C14 C16, "a registration already removed is not used again", !CC.stale)
{ return kqops.kevent_copyout(kq, nready, el, n); }

/* several kernel events: of registrations of their own and (number FAT) of a shared descriptor */
int FAT;
static _Bool l_ok(int nready)
{
    int at = 0, due = 0;
    _Bool late = 0;
    for (int i = 0; i < 3; i++) {
        if (i >= nready) continue;
        for (int h = 0; h < 2; h++) {
            struct knote *kn = i != FAT ? XK[i] : h == 0 ? RK0 : WK0;
            if (h == 1 && i != FAT) continue;
            if (i == FAT && !(h == 0 ? R_DUE : W_DUE)) continue;
            if (h == 1 && R_DUE && !((unsigned)due < CC.n && CC.c[due].kn == kn)) { late = 1; continue; }
            if ((unsigned)due >= CC.n || CC.c[due].kn != kn || CC.c[due].el != &EL[at] || CC.c[due].ev != &epoll_events[i] || CC.c[due].n != ROOM - at) return 0;
            at += GOT(due);
            due++;
        }
    }
    if (late && (ROOM > nready || !o_again())) return 0;
    return (unsigned)due == CC.n;
}
int NR;
int vp_list(struct kqueue *kq, int nready, struct kevent *el, int n)
REQ(kq == &KQ && nready == NR && NR >= 0 && NR <= 3 && NR <= n && el == EL && n == ROOM && n >= 1 && n <= 4 && CC.n == 0)
ASG(K, CC, EL, RGONE, WGONE, XGONE, R_LEFT, W_LEFT, FS, *RK, *WK, *FS, *XK[0], *XK[1], *XK[2])
FREES(RK, WK, FS, XK[0], XK[1], XK[2])
ENS(C14, "every kernel event is delivered in turn, into the next free entry; what there is no space for is reported again", l_ok(NR))
ENS(C14 C02, "the count is that of the events not discarded, never more than the space", RV == o_sum() && RV <= ROOM && RV >= 0)
ENS(C14 C16, "a registration already removed is not used again", !CC.stale)
{ return kqops.kevent_copyout(kq, nready, el, n); }

/* ---- arbitrary pre-states ---- */
static struct filter *put(const struct filter *f)
{
    struct filter *d = &KQ.kq_filt[~f->kf_id];
    *d = *f;
    d->kf_kqueue = &KQ;
    return d;
}
static struct knote *mk(short filter)
{
    struct knote *kn = (calloc)(1, sizeof(*kn));
    ASSUME(kn != NULL);
    K.nalloc++;
    kn->kn_kq = &KQ;
    kn->kn_ref = 1;
    kn->kev.filter = filter;
    kn->kev.flags = ND_USHORT(kn_flags);
    KN_UDATA(kn);
    return kn;
}
static void start(void)
{
    env_kernel();
    env_kq(&us);
    CC = (struct calls){ 0 };
    RF = put(&rd);
    WF = put(&wr);
    XF = put(&us);
    FS = NULL;
    RK = WK = XK[0] = XK[1] = XK[2] = NULL;
    RGONE = WGONE = XGONE[0] = XGONE[1] = XGONE[2] = 0;
    for (int i = 0; i < NCALL; i++) {
        CC.rv[i] = ND_BOOL(filter_rv);
        CC.drop[i] = ND_BOOL(filter_discards);
        CC.del[i] = ND_BOOL(filter_deletes);
        CC.dis[i] = ND_BOOL(filter_disables);
    }
}
static void shared(void)
{
    FS = (calloc)(1, sizeof(*FS));
    ASSUME(FS != NULL);
    K.nalloc++;
    RK = mk(EVFILT_READ);
    WK = mk(EVFILT_WRITE);
    RK0 = RK; WK0 = WK; FS0 = FS;
    _Bool r = ND_BOOL(reader), w = ND_BOOL(writer);
    if (r) FS->fds_read = RK;
    if (w) FS->fds_write = WK;
    RGONE = !r; WGONE = !w;
    FDS_UDATA(FS);
    R_LEFT = R_ON = r && !(RK->kev.flags & EV_DISABLE);
    W_LEFT = W_ON = w && !(WK->kev.flags & EV_DISABLE);
    R_ET = !!(RK->kev.flags & EV_CLEAR);
    W_ET = !!(WK->kev.flags & EV_CLEAR);
    RK->epoll_events = EPOLLIN | EPOLLRDHUP | (R_ET ? EPOLLET : 0);
    WK->epoll_events = EPOLLOUT | (W_ET ? EPOLLET : 0);
    RK->kn_fds = WK->kn_fds = FS;
    int s = env_fd(KF_SOCK, 0);
    AT(s) { kF.reg = 1; kF.ptr = &FS->fds_udata; kF.ev = ND_UINT(watched_events) & ~EPOLLONESHOT; kF.armed = 0; }
    FS->fds_fd = FD_NUM = s_at(s).num;
    RK->kev.ident = WK->kev.ident = FD_NUM;
}
void main_one(void)
{
    start();
    ROOM = ND_INT(nevents);
    ASSUME(ROOM >= 1 && ROOM <= 4);
    WHAT = ND_INT(what);
    ASSUME(WHAT >= EV_NONE && WHAT <= EV_EFD);
    EVS = ND_UINT(events);
    epoll_events[0].events = EVS;
    shared();
    XK[0] = mk(EVFILT_USER);
    XK0 = XK[0];
    EFD.ef_filt = XF;
    EVENTFD_UDATA(&EFD);
    switch (WHAT) {
    case EV_NONE: epoll_events[0].data.ptr = NULL; break;
    case EV_KN:   epoll_events[0].data.ptr = &XK[0]->kn_udata; break;
    case EV_FDS:  epoll_events[0].data.ptr = &FS->fds_udata; break;
    default:      epoll_events[0].data.ptr = &EFD.efd_udata; break;
    }
    vp_one(&KQ, 1, EL, ROOM);
    REACH("one");
}
void main_list(void)
{
    start();
    ROOM = ND_INT(nevents);
    NR = ND_INT(nready);
    FAT = ND_INT(which_is_shared);
    ASSUME(ROOM >= 1 && ROOM <= 4 && NR >= 0 && NR <= 3 && NR <= ROOM && FAT >= 0 && FAT <= 3);
    WHAT = FAT < NR ? EV_FDS : EV_KN;
    shared();
    for (int i = 0; i < 3; i++) {
        XK[i] = mk(EVFILT_USER);
        epoll_events[i].events = ND_UINT(events);
        epoll_events[i].data.ptr = &XK[i]->kn_udata;
        if (i == FAT) { EVS = epoll_events[i].events; epoll_events[i].data.ptr = &FS->fds_udata; }
    }
    vp_list(&KQ, NR, EL, ROOM);
    REACH("list");
}
