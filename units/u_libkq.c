/*
 * EVFILT_LIBKQUEUE (src/common/libkqueue.c): queries and settings of the library.
 *
 * SRC: common/libkqueue.c common/debug.c
 * JOB create MAIN=main_create ENFORCE=vp_create
 * JOB modify MAIN=main_modify ENFORCE=vp_modify
 * JOB copyout MAIN=main_copyout ENFORCE=vp_copyout
 * JOB toggle MAIN=main_toggle ENFORCE=vp_toggle
 * DEFAULT: C21
 */
#include "env.h"
#include "version.h"

bool libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_fork_cleanup_active;
extern bool libkqueue_debug;
static _Bool TS0, FC0, DB0;      /* the settings before the call */
static struct kevent ASK;        /* what was asked */

static _Bool starts(const char *s, const char *p)
{
    for (int i = 0; i < 24 && p[i]; i++) if (s[i] != p[i]) return 0;
    return 1;
}
#ifdef LIBKQUEUE_VERSION_RELEASE
#define RELEASE (uint32_t)LIBKQUEUE_VERSION_RELEASE
#else
#define RELEASE 0u
#endif
#define VERSION ((uint32_t)LIBKQUEUE_VERSION_MAJOR << 24 | (uint32_t)LIBKQUEUE_VERSION_MINOR << 16 | (uint32_t)LIBKQUEUE_VERSION_PATCH << 8 | RELEASE)
#define IS(n)   (ASK.fflags == (n))
#define QUERY   (IS(NOTE_VERSION) || IS(NOTE_VERSION_STR))
#define SETTING (IS(NOTE_THREAD_SAFE) || IS(NOTE_FORK_CLEANUP) || IS(NOTE_DEBUG))
#define KNOWN   (ASK.fflags >= NOTE_VERSION && ASK.fflags <= NOTE_DEBUG_FUNC)
#define RECEIPT (QUERY || (ASK.flags & EV_RECEIPT))
#define ANSWERS \
    IMP(IS(NOTE_VERSION), kn->kev.data == (intptr_t)VERSION) && \
    IMP(IS(NOTE_VERSION_STR), starts((const char *)kn->kev.udata, LIBKQUEUE_VERSION_STRING))
#define TAKES_EFFECT \
    libkqueue_thread_safe == (IS(NOTE_THREAD_SAFE) ? ASK.data > 0 : TS0) && \
    libkqueue_fork_cleanup == (IS(NOTE_FORK_CLEANUP) ? ASK.data > 0 : FC0) && \
    libkqueue_debug == (IS(NOTE_DEBUG) ? ASK.data > 0 : DB0)
#define PREVIOUS \
    IMP(IS(NOTE_THREAD_SAFE), kn->kev.data == TS0) && \
    IMP(IS(NOTE_FORK_CLEANUP), kn->kev.data == FC0) && \
    IMP(IS(NOTE_DEBUG), kn->kev.data == DB0)
/* everything that is not the answer is the caller's */
#define IDENTITY \
    kn->kev.ident == ASK.ident && kn->kev.filter == ASK.filter && kn->kev.fflags == ASK.fflags && \
    IMP(!IS(NOTE_VERSION_STR), kn->kev.udata == ASK.udata) && \
    IMP(!IS(NOTE_VERSION) && !SETTING, kn->kev.data == ASK.data) && \
    (kn->kev.flags | EV_RECEIPT) == (ASK.flags | EV_RECEIPT)

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && kn->kev.fflags == ASK.fflags && kn->kev.data == ASK.data && kn->kev.flags == ASK.flags)
REQ(libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
ASG(*kn, libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_debug)
ENS(C21, "an unknown request is refused", IMP(!KNOWN, RV < 0))
ENS(C21, "a query is always answered, a setting when a receipt is asked for", IMP(KNOWN, RV == (RECEIPT ? 1 : 0)))
ENS(C21, "the version is the one configured", ANSWERS)
ENS(C21, "the setting asked for takes effect and no other changes", TAKES_EFFECT)
ENS(C21, "the previous setting is reported", PREVIOUS)
ENS(C21 C06, "the rest of the answer is what the caller supplied", IDENTITY)
{ return filt->kn_create(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && kev->fflags == ASK.fflags && kev->data == ASK.data && kev->flags == ASK.flags)
REQ(libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
ASG(*kn, libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_debug)
ENS(C21, "an unknown request is refused", IMP(!KNOWN, RV < 0))
ENS(C21, "a query is always answered, a setting when a receipt is asked for", IMP(KNOWN, RV == (RECEIPT ? 1 : 0)))
ENS(C21, "the version is the one configured", ANSWERS)
ENS(C21, "the setting asked for takes effect and no other changes", TAKES_EFFECT)
ENS(C21, "the previous setting is reported", PREVIOUS)
ENS(C21 C06, "the rest of the answer is what the caller supplied", IDENTITY)
{ return filt->kn_modify(filt, kn, kev); }

int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
REQ(filt == FILT && kn == KN)
ASG(*el, *kn)
ENS(C21, "no event is ever delivered for a setting", RV <= 0)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* deleting, disabling or enabling a setting always succeeds and changes none */
int vp_toggle(struct filter *filt, struct knote *kn, int op)
REQ(filt == FILT && kn == KN && op >= 0 && op <= 2)
REQ(libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
ASG(*kn)
ENS(C21 C04, "it succeeds", RV == 0)
ENS(C21, "no setting changes", libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
{ return op == 0 ? filt->kn_delete(filt, kn) : op == 1 ? filt->kn_enable(filt, kn) : filt->kn_disable(filt, kn); }

static struct knote *settings(void)
{
    env_kernel();
    env_kq(&evfilt_libkqueue);
    libkqueue_thread_safe = TS0 = ND_BOOL(thread_safe);
    libkqueue_fork_cleanup = FC0 = ND_BOOL(fork_cleanup);
    libkqueue_debug = DB0 = ND_BOOL(debug);
    return env_knote(&evfilt_libkqueue);
}
/* the debug prefix and function take pointers of the caller: u_debug.c */
static void pick(void) { ASSUME(!IS(NOTE_DEBUG_PREFIX) && !IS(NOTE_DEBUG_FUNC)); }
void main_create(void)
{
    struct knote *kn = settings();
    ASK = kn->kev;
    pick();
    vp_create(FILT, kn);
    REACH("create");
}
void main_modify(void)
{
    struct knote *kn = settings();
    ASK = (struct kevent){ .ident = kn->kev.ident, .filter = kn->kev.filter, .flags = ND_USHORT(new_flags),
                           .fflags = ND_UINT(new_fflags), .data = ND_LONG(new_data), .udata = (void *)ND_ULONG(new_udata) };
    struct kevent kev = ASK;
    pick();
    vp_modify(FILT, kn, &kev);
    REACH("modify");
}
void main_copyout(void)
{
    struct knote *kn = settings();
    struct kevent el;
    struct epoll_event ev = { 0 };
    vp_copyout(&el, ND_INT(room), FILT, kn, &ev);
    REACH("copyout");
}
void main_toggle(void)
{
    struct knote *kn = settings();
    vp_toggle(FILT, kn, ND_INT(op));
    REACH("toggle");
}
