/*
 * The debug settings of EVFILT_LIBKQUEUE that take an address (src/common/libkqueue.c
 * over src/common/debug.c, included so that the copy it keeps can be set up).
 *
 * SRC: common/libkqueue.c
 * JOB prefix MAIN=main_prefix ENFORCE=vp_prefix UNWIND=20
 * JOB func   MAIN=main_func ENFORCE=vp_func
 * DEFAULT: C21
 */
#include "env.h"
#include "../src/common/debug.c"

bool libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_fork_cleanup_active;
static _Bool TS0, FC0, DB0;      /* the settings before the call */
static struct kevent ASK;        /* what was asked */
#define RECEIPT (ASK.flags & EV_RECEIPT)

/* the debug prefix and function, given by address */
static char TEXT[8];
static int LEN;
static _Bool FIRST;              /* no prefix was set before */
static void L0(const char *fmt, ...) { (void)fmt; }
static _Bool same_text(const char *s) { for (int i = 0; i < 8 && i <= LEN; i++) if (s[i] != TEXT[i]) return 0; return 1; }
int vp_prefix(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && kn->kev.fflags == NOTE_DEBUG_PREFIX && kn->kev.data == (intptr_t)TEXT && ASK.flags == kn->kev.flags)
REQ(libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
ASG(*kn, K, libkqueue_debug_ident, libkqueue_debug_ident_copy)
FREES(libkqueue_debug_ident_copy)
ENS(C21, "setting the debug prefix succeeds, with a receipt if asked for", RV == (RECEIPT ? 1 : 0))
ENS(C21, "the prefix becomes the text given", IMP(!K.alloc_may_fail, same_text(libkqueue_debug_ident)))
ENS(C21 C16, "as a copy: the caller's text may go away", (void *)libkqueue_debug_ident != (void *)TEXT)
ENS(C21 C16, "the previous copy is released", IMP(!K.alloc_may_fail, K.nalloc == O.nalloc + FIRST))
ENS(C21, "no other setting changes", libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
{ return filt->kn_create(filt, kn); }

int vp_func(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && kn->kev.fflags == NOTE_DEBUG_FUNC && ASK.flags == kn->kev.flags && ASK.data == kn->kev.data)
REQ(libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
ASG(*kn, libkqueue_debug_func)
ENS(C21, "setting the debug function succeeds, with a receipt if asked for", RV == (RECEIPT ? 1 : 0))
ENS(C21, "messages go to it, or to the default if none is given", ASK.data ? (intptr_t)libkqueue_debug_func == ASK.data : (libkqueue_debug_func != NULL && libkqueue_debug_func != L0))
ENS(C21, "no other setting changes", libkqueue_thread_safe == TS0 && libkqueue_fork_cleanup == FC0 && libkqueue_debug == DB0)
{ return filt->kn_create(filt, kn); }

static struct knote *settings(void)
{
    env_kernel();
    env_kq(&evfilt_libkqueue);
    libkqueue_thread_safe = TS0 = ND_BOOL(thread_safe);
    libkqueue_fork_cleanup = FC0 = ND_BOOL(fork_cleanup);
    libkqueue_debug = DB0 = ND_BOOL(debug);
    libkqueue_debug_ident_copy = NULL;
    return env_knote(&evfilt_libkqueue);
}
void main_prefix(void)
{
    struct knote *kn = settings();
    K.alloc_may_fail = 0;
    FIRST = ND_BOOL(first);
    if (!FIRST) libkqueue_debug_ident_set("old");
    K.alloc_may_fail = ND_BOOL(alloc_may_fail);
    LEN = ND_INT(len);
    ASSUME(LEN >= 0 && LEN < 8);
    for (int i = 0; i < 8; i++) { TEXT[i] = (char)ND_INT(ch); if (i < LEN) ASSUME(TEXT[i] != 0); }
    TEXT[LEN] = 0;
    kn->kev.fflags = NOTE_DEBUG_PREFIX;
    kn->kev.data = (intptr_t)TEXT;
    ASK = kn->kev;
    env_snap(kn, -1);
    vp_prefix(FILT, kn);
    REACH("prefix");
}
void main_func(void)
{
    struct knote *kn = settings();
    libkqueue_debug_func = L0;
    kn->kev.fflags = NOTE_DEBUG_FUNC;
    kn->kev.data = ND_BOOL(given) ? (intptr_t)L0 : 0;
    ASK = kn->kev;
    vp_func(FILT, kn);
    REACH("func");
}
