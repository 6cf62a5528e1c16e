/*
 * EVFILT_VNODE (src/linux/vnode.c): contracts on the operations of evfilt_vnode.
 *
 * SRC: linux/vnode.c linux/platform.c common/knote.c
 * JOB create  MAIN=main_create ENFORCE=vp_create REPLACE=knote_delete,knote_disable
 * JOB enable  MAIN=main_enable ENFORCE=vp_enable REPLACE=knote_delete,knote_disable
 * JOB modify  MAIN=main_modify ENFORCE=vp_modify REPLACE=knote_delete,knote_disable
 * JOB disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable
 * JOB delete  MAIN=main_delete ENFORCE=vp_delete REPLACE=knote_delete,knote_disable
 * JOB copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable
 * JOB copyout_long MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable UNWINDSET=get_one_event.0:20 DEFS=NAMES=17 TIER=thorough
 * JOB seq     MAIN=main_seq ENFORCE=- PROPS=C04,C09,C16 WEIGHT=20 BOUNDED=histories_of_a_creation,_at_most_3_operations_and_a_deletion
 * DEFAULT: C09 C16
 */
#include "env.h"
#ifndef NAMES
#define NAMES 5      /* inotify records with a name of up to 64 bytes; copyout_long: all */
#endif

#define KEEPS(kn)   (SAME_ID(kn, O.kev) && (kn)->kev.fflags == O.kev.fflags && (kn)->kev.flags == O.kev.flags)
/* inotify events without which a requested note could be missed */
static uint32_t v_need(unsigned ff)
{
    return ((ff & NOTE_DELETE) ? IN_ATTRIB | IN_DELETE_SELF : 0) | ((ff & NOTE_WRITE) ? IN_MODIFY : 0) | ((ff & NOTE_EXTEND) ? IN_MODIFY : 0) |
           ((ff & (NOTE_ATTRIB | NOTE_LINK)) ? IN_ATTRIB : 0) | ((ff & NOTE_RENAME) ? IN_MOVE_SELF : 0);
}
static _Bool v_on(struct knote *kn)
{
    int s = s_slot(kn->kn_vnode.inotifyfd);
    return s >= 0 && s_at(s).kind == KF_INOTIFY && s_at(s).own && (s_at(s).ev & EPOLLIN) && !(s_at(s).ev & (EPOLLET | EPOLLONESHOT)) && s_watched(kn->kn_vnode.inotifyfd, kn, s_at(s).ev) &&
           REFS(kn) == 1 && (s_at(s).inmask & v_need(kn->kev.fflags)) == v_need(kn->kev.fflags);
}
static _Bool v_path(struct knote *kn) { return K.in_path_fd == (int)kn->kev.ident; }
static _Bool v_off(struct knote *kn) { return kn->kn_vnode.inotifyfd == -1 && REFS(kn) == 0; }
static _Bool v_inv(struct knote *kn) { return KNOTE_ENABLED(kn) ? v_on(kn) : v_off(kn); }
#define DISCARD     (K.in_mask & (IN_IGNORED | IN_CLOSE))
#define CHANGED     (K.in_mask & (IN_ATTRIB | IN_MODIFY))
#define F_OPEN      (s_slot((int)O.kev.ident) >= 0 && !K.fstat_fails)
/* what happened, restricted to what was asked for (NOTE_EXTEND comes with NOTE_WRITE) */
static unsigned v_notes(void)
{
    unsigned a = O.kev.fflags, r = 0;
    if (F_OPEN && CHANGED) {
        if (K.file_nlink == 0) r |= a & NOTE_DELETE;
        if (K.file_nlink != O.kn.kn_vnode.nlink) r |= a & NOTE_LINK;
        if (K.file_size > O.kn.kn_vnode.size && (a & NOTE_WRITE)) r |= NOTE_EXTEND;
    }
    if (K.in_mask & IN_MODIFY) r |= a & NOTE_WRITE;
    if (K.in_mask & IN_ATTRIB) r |= a & NOTE_ATTRIB;
    if (K.in_mask & IN_MOVE_SELF) r |= a & NOTE_RENAME;
    if (K.in_mask & IN_DELETE_SELF) r |= a & NOTE_DELETE;
    return r;
}
#define DELIVERED   (!DISCARD && v_notes() != 0)

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && REFS(kn) == 0 && PRE(kn))
ASG(K, *kn)
ENS(C03 C09, "creation reports success or failure", RV == 0 || RV == -1)
ENS(C09 C04, "the file behind the descriptor is watched for everything requested", IMP(RV == 0, v_on(kn) && v_path(kn)))
ENS(C09, "the link count and size at registration are remembered", IMP(RV == 0, kn->kn_vnode.nlink == K.file_nlink && kn->kn_vnode.size == K.file_size))
ENS(C03 C09, "an open file can be watched", IMP(!K.syscalls_may_fail && F_OPEN, RV == 0))
ENS(C09, "a closed descriptor cannot be watched", IMP(!F_OPEN, RV == -1))
ENS(C16, "a failed creation leaves nothing behind", IMP(RV != 0, s_owned() == O.owned && s_regs() == O.regs && REFS(kn) == 0))
ENS(C16, "one descriptor per registration, no invalid system call", IMP(RV == 0, s_owned() == O.owned + 1) && s_clean() && K.nalloc == O.nalloc)
ENS(C06 C03 C09, "the registration keeps what the caller supplied", KEEPS(kn))
{ return filt->kn_create(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && !KNOTE_ENABLED(kn) && v_off(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C09, "the file is watched again for everything requested", IMP(!K.syscalls_may_fail && F_OPEN, RV == 0) && (RV == 0 || RV == -1) && (RV == 0 ? v_on(kn) && v_path(kn) : v_off(kn)))
ENS(C09 C16, "nothing else changes", s_owned() == O.owned + (RV == 0) && s_clean() && K.nalloc == O.nalloc && KEEPS(kn) && kn->kn_vnode.nlink == O.kn.kn_vnode.nlink && kn->kn_vnode.size == O.kn.kn_vnode.size)
{ return filt->kn_enable(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && v_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C09, "the registration stays watched or not", (RV == 0 || RV == -1) && v_inv(kn) && KNOTE_DISABLED(kn) == (O.kev.flags & EV_DISABLE))
ENS(C09, "a refused modification changes nothing", IMP(RV != 0, KEEPS(kn)))
ENS(C09 C16, "no leak", s_owned() == O.owned && s_regs() == O.regs && s_clean() && K.nalloc == O.nalloc && SAME_ID(kn, O.kev))
{ return filt->kn_modify(filt, kn, kev); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && v_on(kn) && PRE(kn))
ASG(K, *kn)
ENS(C04 C09, "a disabled registration cannot fire", RV == 0 && v_off(kn))
ENS(C16, "its descriptor is released", s_owned() == O.owned - 1 && s_clean() && K.nalloc == O.nalloc && KEEPS(kn))
{ return filt->kn_disable(filt, kn); }

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && v_inv(kn) && PRE(kn))
ASG(K, *kn)
ENS(C16 C04, "a deleted registration leaves nothing in the kernel", RV == 0 && REFS(kn) == 0)
ENS(C16, "its descriptor is released", s_owned() == O.owned - (O.kn.kn_vnode.inotifyfd != -1) && s_clean() && K.nalloc == O.nalloc)
{ return filt->kn_delete(filt, kn); }

int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev)
REQ(filt == FILT && kn == KN && KNOTE_ENABLED(kn) && v_on(kn) && PRE(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C09, "a change that could not be looked at is not taken for one seen", IMP(!F_OPEN && !(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)) && G.n_delete == 0, kn->kn_vnode.nlink == O.kn.kn_vnode.nlink && kn->kn_vnode.size == O.kn.kn_vnode.size))
ENS(C09 C14, "one event if something requested happened, none otherwise", DELIVERED ? RV == (G.flag_rv < 0 ? -1 : 1) : (RV >= 0 && (RV == 0 || el->filter == 0)))
ENS(C09, "fflags tells exactly what happened, of what was requested, and data nothing", IMP(DELIVERED, el->data == 0 && el->fflags == v_notes()))
ENS(C09, "nothing unrequested is ever reported", IMP(RV == 1 && el->filter != 0, (el->fflags & ~(O.kev.fflags | ((O.kev.fflags & NOTE_WRITE) ? NOTE_EXTEND : 0))) == 0 && el->fflags != 0))
ENS(C06 C09, "identity of the delivered event", IMP(RV == 1 && el->filter != 0, el->ident == O.kev.ident && el->filter == EVFILT_VNODE && el->udata == O.kev.udata && el->flags == O.kev.flags))
ENS(C09, "changes are measured from the last one seen", IMP(F_OPEN && CHANGED && !DISCARD && !(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)), kn->kn_vnode.nlink == K.file_nlink && kn->kn_vnode.size == K.file_size))
ENS(C06 C09, "its flags are not changed, unless its descriptor was closed", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)) && G.n_delete == 0, kn->kev.flags == O.kev.flags || (DISCARD && s_slot((int)O.kev.ident) < 0 && kn->kev.flags == (O.kev.flags | EV_ONESHOT))))
ENS(C05 C09, "a one-shot registration is deleted when it is delivered, exactly once", IMP(F_OPEN || DELIVERED, G.n_delete == ((O.kev.flags & EV_ONESHOT) && DELIVERED)))
ENS(C05 C09, "a dispatch registration is disabled when it is delivered, exactly once", IMP(F_OPEN || DELIVERED, G.n_disable == ((O.kev.flags & EV_DISPATCH) && DELIVERED)))
ENS(C05 C09, "any other registration stays armed", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)) && F_OPEN, v_on(kn) && KEEPS(kn)))
ENS(C16, "no invalid system call", s_clean() && s_owned() == O.owned)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* ---- arbitrary pre-states ---- */
#define EVF evfilt_vnode
#define OBS(kn) (-1)
static void fresh(struct knote *kn)
{
    kn->kev.ident &= 0xfffff;
    if (ND_BOOL(file_open)) {
        int s = env_fd(ND_BOOL(file_dir) ? KF_DIR : KF_REG, 0);
        ASSUME(k_slot((int)kn->kev.ident) < 0);
        AT(s) kF.num = (int)kn->kev.ident;
    } else ASSUME(k_slot((int)kn->kev.ident) < 0);
    K.fstat_fails = ND_BOOL(fstat_fails);  K.fstat_err = ND_BOOL(estale) ? ESTALE : EIO;
    K.file_size = ND_LONG(file_size);
    K.file_nlink = ND_UINT(file_nlink);
    ASSUME(K.file_size >= 0);
    K.in_path_fd = -1;
    unsigned b = ND_UINT(in_bit) % 13;
    K.in_mask = b == 12 ? IN_IGNORED : (1u << b);     /* inotify reports one event per record */
    if (ND_BOOL(in_isdir)) K.in_mask |= IN_ISDIR;
    K.in_len = (ND_UINT(in_len) % NAMES) * 16;
    K.in_eintr = ND_BOOL(in_eintr);
}
static void park(struct knote *kn)
{
    fresh(kn);
    kn->kn_vnode.nlink = ND_UINT(old_nlink);
    kn->kn_vnode.size = ND_LONG(old_size);
    kn->kn_vnode.inotifyfd = -1;
}
static void arm(struct knote *kn)
{
    park(kn);
    int s = env_fd(KF_INOTIFY, 1);
    kn->kn_vnode.inotifyfd = s_at(s).num;
    AT(s) kF.inmask = v_need(kn->kev.fflags) | IN_CLOSE;
    AT(s) kF.wd = 1;
    kn->kev.data = 1;
    KN_UDATA(kn);
    AT(s) kF.reg = 1;
    AT(s) kF.ev = EPOLLIN;
    AT(s) kF.ptr = &kn->kn_udata;
}
#define INV(kn) v_inv(kn)
#define SEQ_ASSUME(kn) (void)0
#include "harness1.h"
