/*
 * EVFILT_PROC (src/linux/proc.c): contracts on the operations of evfilt_proc.
 *
 * SRC: linux/proc.c common/knote.c
 * JOB create  MAIN=main_create ENFORCE=vp_create REPLACE=knote_delete,knote_disable
 * JOB enable  MAIN=main_enable ENFORCE=vp_enable REPLACE=knote_delete,knote_disable
 * JOB modify  MAIN=main_modify ENFORCE=vp_modify REPLACE=knote_delete,knote_disable
 * JOB disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable
 * JOB delete  MAIN=main_delete ENFORCE=vp_delete REPLACE=knote_delete,knote_disable
 * JOB copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable
 * JOB seq     MAIN=main_seq ENFORCE=- PROPS=C04,C10,C16 WEIGHT=20 BOUNDED=histories_of_a_creation,_at_most_3_operations_and_a_deletion
 * DEFAULT: C10 C16
 */
#include "env.h"

#define WATCHING(kn) ((kn)->kn_procfd >= 0)
static _Bool p_fd(struct knote *kn)
{
    int s = s_slot(kn->kn_procfd);
    return s >= 0 && s_at(s).kind == KF_PIDFD && s_at(s).own && s_at(s).pid == (int)kn->kev.ident && UD_OK(kn) &&
           (kn->kev.flags & EV_ONESHOT) && (kn->kev.flags & EV_CLEAR);
}
static _Bool p_on(struct knote *kn)  { int s = s_slot(kn->kn_procfd); return p_fd(kn) && s_watched(kn->kn_procfd, kn, s < 0 ? 0 : s_at(s).ev) && (s_at(s).ev & EPOLLIN) && REFS(kn) == 1; }
static _Bool p_off(struct knote *kn) { return p_fd(kn) && REFS(kn) == 0; }
static _Bool p_idle(struct knote *kn) { return kn->kn_procfd == -1 && REFS(kn) == 0; }
static _Bool p_inv(struct knote *kn) { return WATCHING(kn) ? (KNOTE_ENABLED(kn) ? p_on(kn) : p_off(kn)) : p_idle(kn); }
#define EXITS(x)    ((x).fflags & NOTE_EXIT)
#define KEEPS(kn)   (SAME_ID(kn, O.kev) && (kn)->kev.data == O.kev.data && (kn)->kev.fflags == O.kev.fflags)
/* the status waitpid() would have reported, for what waitid() reported */
static long p_status(void)
{
    if (K.w_fails) return 0;
    if (K.w_code == CLD_EXITED) return (long)(unsigned)((unsigned)K.w_status << 8);
    return (K.w_status & 0x7f) | (K.w_code == CLD_DUMPED ? 0x80 : 0);
}
static _Bool p_exited(void) { return K.w_fails ? K.w_err == ECHILD : !K.w_none && (K.w_code == CLD_EXITED || K.w_code == CLD_KILLED || K.w_code == CLD_DUMPED); }

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && REFS(kn) == 0 && PRE(kn))
ASG(K, *kn)
ENS(C03 C10, "creation reports success or failure", RV == 0 || RV == -1)
ENS(C10 C04, "with NOTE_EXIT the process is watched", IMP(RV == 0 && EXITS(O.kev), p_on(kn)))
ENS(C03 C10, "a process that exists can be watched", IMP(!K.syscalls_may_fail && !K.pid_gone && K.fcntl_fail_at < 0, RV == 0))
ENS(C10, "without NOTE_EXIT nothing is watched", IMP(!EXITS(O.kev), RV == 0 && p_idle(kn)))
ENS(C16, "a failed creation leaves nothing behind", IMP(RV != 0, s_owned() == O.owned && s_regs() == O.regs && REFS(kn) == 0))
ENS(C16, "one descriptor per watched process, no invalid system call", IMP(RV == 0, s_owned() == O.owned + (EXITS(O.kev) != 0)) && s_clean() && K.nalloc == O.nalloc)
ENS(C06 C03 C10, "the registration keeps what the caller supplied", KEEPS(kn) && (kn->kev.flags | EV_ONESHOT | EV_CLEAR) == (O.kev.flags | EV_ONESHOT | EV_CLEAR) && KNOTE_ENABLED(kn))
{ return filt->kn_create(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && !KNOTE_ENABLED(kn) && p_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C10, "the process is watched again", IMP(!K.syscalls_may_fail, RV == 0) && (!WATCHING(&O.kn) ? p_idle(kn) && RV == 0 : RV == 0 ? p_on(kn) : p_off(kn)))
ENS(C10 C16, "nothing else changes", s_owned() == O.owned && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && kn->kev.flags == O.kev.flags)
{ return filt->kn_enable(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && p_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C10 C04, "asking for NOTE_EXIT watches the process, one shot, unless disabled", IMP(RV == 0, p_inv(kn) && IMP(EXITS(*kev), WATCHING(kn))))
ENS(C03 C10, "a process that exists can be watched", IMP(!K.syscalls_may_fail && !K.pid_gone && K.fcntl_fail_at < 0, RV == 0))
ENS(C10, "a watched process stays watched", IMP(WATCHING(&O.kn), RV == 0 && WATCHING(kn) && kn->kn_procfd == O.kn.kn_procfd))
ENS(C10, "the new fflags are recorded", IMP(RV == 0, kn->kev.fflags == kev->fflags))
ENS(C04 C10, "the registration stays enabled or disabled", KNOTE_DISABLED(kn) == (O.kev.flags & EV_DISABLE))
ENS(C16, "no leak, no invalid system call", s_owned() == O.owned + (WATCHING(kn) && !WATCHING(&O.kn)) && s_clean() && K.nalloc == O.nalloc && IMP(RV != 0, REFS(kn) == 0 && !WATCHING(kn)))
ENS(C06, "identity unchanged", SAME_ID(kn, O.kev))
{ return filt->kn_modify(filt, kn, kev); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && p_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C10, "a disabled registration cannot fire", RV == 0 && (WATCHING(&O.kn) ? p_off(kn) : p_idle(kn)))
ENS(C10 C16, "nothing else changes", s_owned() == O.owned && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && kn->kev.flags == O.kev.flags)
{ return filt->kn_disable(filt, kn); }

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && p_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C16 C04, "a deleted registration leaves nothing in the kernel", RV == 0 && REFS(kn) == 0)
ENS(C16, "its descriptor is released", s_owned() == O.owned - WATCHING(&O.kn) && s_clean() && K.nalloc == O.nalloc)
{ return filt->kn_delete(filt, kn); }

int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && WATCHING(kn) && p_on(kn) && PRE(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0 && K.w_calls == 0)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C10 C14, "one event if the process has exited, none otherwise", p_exited() ? RV == (G.flag_rv < 0 ? -1 : 1) : K.w_fails ? RV == -1 : RV == 0)
ENS(C06 C10, "identity of the delivered event", IMP(p_exited(), el->ident == O.kev.ident && el->filter == EVFILT_PROC && el->udata == O.kev.udata && el->fflags == O.kev.fflags))
ENS(C10, "data is the wait status of the process", IMP(p_exited(), el->data == p_status()))
ENS(C10, "EV_EOF is set and the other flags are those registered", IMP(p_exited(), el->flags == (O.kev.flags | EV_EOF)))
ENS(C10, "the process is not reaped", K.w_calls == 1 && K.w_type == P_PID && K.w_id == (long)(id_t)O.kev.ident && (K.w_options & (WNOWAIT | WNOHANG | WEXITED)) == (WNOWAIT | WNOHANG | WEXITED))
ENS(C05 C10, "the registration is deleted once the exit is reported, exactly once", G.n_delete == p_exited())
ENS(C05 C10, "nothing is deleted or disabled otherwise", IMP(!p_exited(), G.n_disable == 0 && p_on(kn) && KEEPS(kn)))
ENS(C16, "no invalid or blocking system call", s_clean() && s_owned() == O.owned)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* ---- arbitrary pre-states ---- */
#define EVF evfilt_proc
#define OBS(kn) ((kn)->kn_procfd)
static void child(void)
{
    K.w_fails = ND_BOOL(waitid_fails);
    K.w_err = ND_INT(waitid_errno);
    K.w_none = ND_BOOL(waitid_none);
    K.w_code = ND_INT(si_code);
    K.w_status = ND_INT(si_status);
    ASSUME(K.w_err > 0 && K.w_err < 200);
    ASSUME(K.w_status >= 0 && K.w_status <= 255);    /* an exit code or a signal number */
    if (K.w_none) K.w_code = 0;
    K.fcntl_fail_at = ND_BOOL(fcntl_fails) ? 0 : -1;
}
static void fresh(struct knote *kn) { (void)kn; child(); }
static void park(struct knote *kn)
{
    child();
    if (ND_BOOL(idle)) { kn->kn_procfd = -1; return; }
    int s = env_fd(KF_PIDFD, 1);
    AT(s) kF.pid = (int)kn->kev.ident;
    kn->kev.flags |= EV_ONESHOT | EV_CLEAR;
    kn->kn_procfd = s_at(s).num;
    KN_UDATA(kn);
}
static void arm(struct knote *kn)
{
    park(kn);
    if (kn->kn_procfd < 0) return;
    int s = k_slot(kn->kn_procfd);
    AT(s) kF.reg = 1;
    AT(s) kF.ev = EPOLLIN;
    AT(s) kF.ptr = &kn->kn_udata;
}
#define INV(kn) p_inv(kn)
#define SEQ_ASSUME(kn) (void)0
#include "harness1.h"
