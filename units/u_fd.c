/*
 * EVFILT_READ and EVFILT_WRITE (src/linux/read.c, write.c) and the multiplexing
 * of both onto one epoll registration (epoll_update & co. in platform.c).
 * Each job is compiled once for EVFILT_READ (DEFS=RD) and once for EVFILT_WRITE.
 *
 * SRC: linux/read.c linux/write.c linux/platform.c common/knote.c
 * STUB: fds knote dump
 * JOB r_create  MAIN=main_create  ENFORCE=vp_create  REPLACE=knote_delete,knote_disable DEFS=RD=1 WEIGHT=20
 * JOB r_enable  MAIN=main_enable  ENFORCE=vp_enable  REPLACE=knote_delete,knote_disable DEFS=RD=1
 * JOB r_disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable DEFS=RD=1
 * JOB r_delete  MAIN=main_delete  ENFORCE=vp_delete  REPLACE=knote_delete,knote_disable DEFS=RD=1
 * JOB r_modify  MAIN=main_modify  ENFORCE=vp_modify  REPLACE=knote_delete,knote_disable DEFS=RD=1
 * JOB r_copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable DEFS=RD=1
 * JOB r_fcopyout MAIN=main_fcopyout ENFORCE=vp_fcopyout REPLACE=knote_delete,knote_disable DEFS=RD=1
 * JOB w_create  MAIN=main_create  ENFORCE=vp_create  REPLACE=knote_delete,knote_disable DEFS=RD=0 WEIGHT=20
 * JOB w_enable  MAIN=main_enable  ENFORCE=vp_enable  REPLACE=knote_delete,knote_disable DEFS=RD=0
 * JOB w_disable MAIN=main_disable ENFORCE=vp_disable REPLACE=knote_delete,knote_disable DEFS=RD=0
 * JOB w_delete  MAIN=main_delete  ENFORCE=vp_delete  REPLACE=knote_delete,knote_disable DEFS=RD=0
 * JOB w_modify  MAIN=main_modify  ENFORCE=vp_modify  REPLACE=knote_delete,knote_disable DEFS=RD=0
 * JOB w_copyout MAIN=main_copyout ENFORCE=vp_copyout REPLACE=knote_delete,knote_disable DEFS=RD=0
 * JOB w_fcopyout MAIN=main_fcopyout ENFORCE=vp_fcopyout REPLACE=knote_delete,knote_disable DEFS=RD=0
 * JOB r_seq     MAIN=main_seq     ENFORCE=- PROPS=C04,C12,C13,C16 DEFS=RD=1 OBJBITS=10 WEIGHT=50 BOUNDED=histories_of_a_creation,_at_most_2_operations_and_a_deletion
 * JOB w_seq     MAIN=main_seq     ENFORCE=- PROPS=C04,C12,C13,C16 DEFS=RD=0 OBJBITS=10 WEIGHT=50 BOUNDED=histories_of_a_creation,_at_most_2_operations_and_a_deletion
 * DEFAULT: C12 C13 C16
 */
#include "env.h"
#include "trees.h"

#if RD
#define EVF     evfilt_read
#define ME      EPOLLIN
#define OTHER   EPOLLOUT
#define SLOT    fds_read
#define OSLOT   fds_write
#define MYEV    (EPOLLIN | EPOLLRDHUP)
#define OTHEREV EPOLLOUT
#else
#define EVF     evfilt_write
#define ME      EPOLLOUT
#define OTHER   EPOLLIN
#define SLOT    fds_write
#define OSLOT   fds_read
#define MYEV    EPOLLOUT
#define OTHEREV (EPOLLIN | EPOLLRDHUP)
#endif

struct other { struct knote *kn; _Bool gone; } KO;   /* the knote of the other filter on the same descriptor, if any */

/* ---- the state of the descriptor T.fd ------------------------------------ */
static _Bool f_other_on(void) { return KO.kn && KNOTE_ENABLED(KO.kn); }
/* the bookkeeping of the descriptor names exactly the knotes that are on it */
static _Bool f_books(struct knote *me, _Bool me_filed)
{
    struct fd_state *f = s_fds();
    if (!me_filed && !KO.kn) return f == NULL && (!me || me->kn_fds == NULL);
    if (f == NULL || f->fds_fd != T.fd || f->fds_udata.ud_type != EPOLL_UDATA_FD_STATE || f->fds_udata.ud_fds != f) return 0;
    if (f->SLOT != (me_filed ? me : NULL) || f->OSLOT != KO.kn) return 0;
    if (me && me->kn_fds != (me_filed ? f : NULL)) return 0;
    return !KO.kn || KO.kn->kn_fds == f;
}
/* what the kernel is asked for: the conditions of the enabled knotes, edge-triggered
 * only if that suits every one of them */
static uint32_t f_want(struct knote *me, _Bool me_on)
{
    uint32_t w = (me_on ? MYEV : 0) | (f_other_on() ? OTHEREV : 0);
    return w && IMP(me_on, me->kev.flags & EV_CLEAR) && IMP(f_other_on(), KO.kn->kev.flags & EV_CLEAR) ? w | EPOLLET : w;
}
/* the kernel watches the descriptor for exactly the enabled knotes, and its
 * events lead to the bookkeeping */
static _Bool f_interest(struct knote *me, _Bool me_on)
{
    uint32_t want = f_want(me, me_on);
    int s = s_slot(T.fd);
    if (want == 0) return s < 0 || !s_at(s).reg;
    return s >= 0 && s_at(s).reg && s_at(s).ev == want && s_fds() && s_at(s).ptr == (void *)&s_fds()->fds_udata;
}
static _Bool f_on(struct knote *kn)  { return f_books(kn, 1) && f_interest(kn, 1); }
static _Bool f_off(struct knote *kn) { return (f_books(kn, 1) || f_books(kn, 0)) && f_interest(NULL, 0); }
/* regular files: a permanently readable eventfd stands in for the descriptor */
static uint32_t f_filemask(struct knote *kn)
{
    return EPOLLIN | EPOLLRDHUP | ((kn->kev.flags & EV_CLEAR) ? EPOLLET : 0) | ((kn->kev.flags & (EV_ONESHOT | EV_DISPATCH)) ? EPOLLONESHOT : 0);
}
static _Bool f_file_fd(struct knote *kn)
{
    int s = s_slot(kn->kn_eventfd);
    return s >= 0 && s_at(s).kind == KF_EVENTFD && s_at(s).own && s_at(s).cnt >= 1;
}
static _Bool f_file_on(struct knote *kn)  { return f_file_fd(kn) && s_watched(kn->kn_eventfd, kn, f_filemask(kn)) && REFS(kn) == 1; }
static _Bool f_file_off(struct knote *kn) { return f_file_fd(kn) && REFS(kn) == 0; }
static _Bool f_file(void) { int s = s_slot(T.fd); return s >= 0 && (s_at(s).kind == KF_REG || s_at(s).kind == KF_DIR); }
static _Bool f_armed(struct knote *kn) { return (kn->kn_flags & KNFL_FILE) ? f_file_on(kn) : f_on(kn); }
#define O_FILE      (O.kn.kn_flags & KNFL_FILE)
/* nothing of the other knote on the descriptor has changed */
struct knote O_other;
static _Bool f_other_same(void)
{
    return KO.kn == NULL || (KO.kn->kev.flags == O_other.kev.flags && KO.kn->kev.ident == O_other.kev.ident && KO.kn->kev.filter == O_other.kev.filter &&
           KO.kn->kev.udata == O_other.kev.udata && KO.kn->kn_flags == O_other.kn_flags && KO.kn->epoll_events == O_other.epoll_events && KO.kn->kn_ref == O_other.kn_ref);
}
/* descriptor queries may fail only because the descriptor is bad or exhausted */
static _Bool f_healthy(void)
{
    int s = s_slot(T.fd);
    return !K.syscalls_may_fail && !K.alloc_may_fail && s >= 0 && !KO.gone && !K.fstat_fails && !K.sock_type_fails && !K.sock_listen_fails && !K.sock_filter_fails &&
           (K.sock_type == SOCK_STREAM || K.sock_type == SOCK_DGRAM || K.sock_type == SOCK_RAW || K.sock_type == SOCK_RDM || K.sock_type == SOCK_SEQPACKET) && s_at(s).kind != KF_DIR;
}
#define KEEPS(kn)   (SAME_ID(kn, O.kev) && (kn)->kev.data == O.kev.data && (kn)->kev.fflags == O.kev.fflags && (kn)->kev.flags == O.kev.flags)
#define FRAME       K, *kn, T, KQ, O, *KO.kn

int vp_create(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && PRE(kn) && REFS(kn) == 0)
ASG(K, *kn, T, KQ.kq_fd_st)
ASG(KO.kn != NULL: *KO.kn; T.fds != NULL: *T.fds)
ENS(C03 C16, "creation reports success or failure", RV == 0 || RV == -1)
ENS(C03 C12, "interest in an open descriptor can be registered", IMP(f_healthy(), RV == 0))
ENS(C04 C12 C13, "the kernel now watches the descriptor for this filter too", IMP(RV == 0, f_armed(kn)))
ENS(C12, "a regular file is recognised", IMP(RV == 0, ((kn->kn_flags & KNFL_FILE) != 0) == f_file()))
ENS(C13, "the other filter on the descriptor is unaffected", f_other_same())
ENS(C16 C13, "a failed creation leaves nothing behind", IMP(RV != 0, s_owned() == O.owned && s_regs() == O.regs && REFS(kn) == 0 && K.nalloc == O.nalloc && IMP(!KO.gone, f_books(NULL, 0) && f_interest(NULL, 0))))
ENS(C16, "descriptors and memory are accounted for", IMP(RV == 0, s_owned() == O.owned + f_file() && K.nalloc == O.nalloc + (!f_file() && !KO.kn)))
ENS(C16, "no invalid system call", s_clean())
ENS(C06 C03, "the registration keeps what the caller supplied", KEEPS(kn))
{ return filt->kn_create(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && PRE(kn) && KNOTE_DISABLED(kn))
ASG(K, *kn, T, KQ.kq_fd_st)
ASG(KO.kn != NULL: *KO.kn; T.fds != NULL: *T.fds)
FREES(T.fds)
ENS(C04 C12, "an open descriptor can be enabled again", IMP(f_healthy(), RV == 0))
ENS(C04 C12 C13, "the kernel now watches the descriptor for this filter too", IMP(RV == 0, f_armed(kn)))
ENS(C13, "the other filter on the descriptor is unaffected", f_other_same())
ENS(C04 C13, "a failed enable leaves the filter off", IMP(RV != 0, O_FILE ? f_file_off(kn) : IMP(!KO.gone, f_off(kn))))
ENS(C16, "descriptors are accounted for", s_owned() == O.owned && s_clean())
ENS(C06 C04, "the registration keeps what the caller supplied", KEEPS(kn))
{ return filt->kn_enable(filt, kn); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && PRE(kn) && KNOTE_ENABLED(kn))
ASG(K, *kn, T, KQ.kq_fd_st)
ASG(KO.kn != NULL: *KO.kn; T.fds != NULL: *T.fds)
FREES(T.fds)
ENS(C04 C13, "disabling succeeds, even if the descriptor is gone", RV == 0)
ENS(C04 C13, "the kernel no longer watches the descriptor for this filter, and still does for the other", O_FILE ? f_file_off(kn) : IMP(!KO.gone, f_off(kn)))
ENS(C13 C16, "no reference to the knote is lost", O_FILE || f_books(kn, 1) || f_books(kn, 0))
ENS(C13, "the other filter on the descriptor is unaffected", f_other_same())
ENS(C16, "descriptors are accounted for", s_owned() == O.owned && s_clean())
ENS(C06 C04, "the registration keeps what the caller supplied", KEEPS(kn))
{ return filt->kn_disable(filt, kn); }

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && PRE(kn))
ASG(K, *kn, T, KQ.kq_fd_st)
ASG(KO.kn != NULL: *KO.kn; T.fds != NULL: *T.fds)
FREES(T.fds)
ENS(C03 C13 C16, "deleting succeeds, even if the descriptor is gone", RV == 0)
ENS(C16 C13, "nothing refers to the knote any more", REFS(kn) == 0 && (O_FILE || f_books(kn, 0)))
ENS(C04 C13, "the kernel still watches the descriptor for the other filter only", O_FILE || KO.gone || f_interest(NULL, 0))
ENS(C13, "the other filter on the descriptor is unaffected", f_other_same())
ENS(C16, "descriptors and memory are released", s_owned() == O.owned - (O_FILE != 0) && s_clean() && IMP(!O_FILE, K.nalloc == O.nalloc - (O.kn.kn_fds != NULL && !KO.kn)))
{ return filt->kn_delete(filt, kn); }

int vp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
REQ(filt == FILT && kn == KN && PRE(kn))
ASG(K, *kn)
ENS(C03 C12, "modification reports success or failure; asking again for EV_CLEAR is accepted", (RV == 0 || RV == -1) && IMP((kev->flags & EV_CLEAR) && !(O.kn.kn_flags & KNFL_FILE), RV == 0))
ENS(C04 C13, "modification leaves the kernel state as it is", O_FILE ? (KNOTE_ENABLED(kn) ? f_file_on(kn) : f_file_off(kn)) : IMP(!KO.gone, KNOTE_ENABLED(kn) ? f_on(kn) : f_off(kn)))
ENS(C13, "the other filter on the descriptor is unaffected", f_other_same())
ENS(C16, "descriptors are accounted for", s_owned() == O.owned && s_regs() == O.regs && s_clean() && K.nalloc == O.nalloc)
ENS(C06, "identity and state unchanged", kn->kev.ident == O.kev.ident && kn->kev.filter == O.kev.filter && KNOTE_DISABLED(kn) == (O.kev.flags & EV_DISABLE))
{ return filt->kn_modify(filt, kn, kev); }

/* sockets, pipes and devices */
#define HUP(e)      ((e) & (RD ? (EPOLLHUP | EPOLLRDHUP) : EPOLLHUP))
#define SOCKERR     (K.sock_error_fails || s_slot(T.fd) < 0 ? 1 : K.sock_error)
#define PASSIVE     (O.kn.kn_flags & KNFL_SOCKET_PASSIVE)
#define AVAIL       (s_slot(T.fd) < 0 || (RD ? K.inq_fails : K.outq_fails) ? 0 : RD ? K.inq : K.outq)
#define DRAINED     (RD && !PASSIVE && (O.kn.kn_flags & KNFL_SOCKET_STREAM) && s_slot(T.fd) >= 0 && !K.inq_fails && K.inq == 0)
int vp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, struct epoll_event *ev)
REQ(filt == FILT && kn == KN && PRE(kn) && KNOTE_ENABLED(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C05 C14, "the result is one event unless disabling or deleting failed", RV == (G.flag_rv < 0 ? -1 : 1))
ENS(C06, "identity of the delivered event", el->ident == O.kev.ident && el->filter == O.kev.filter && el->udata == O.kev.udata)
ENS(C12, "EV_EOF is set exactly if the peer hung up, the descriptor failed or a stream is at its end", ((el->flags & EV_EOF) != 0) == (HUP(ev->events) || (ev->events & EPOLLERR) || DRAINED))
ENS(C06 C12, "the other flags are those registered", (el->flags & ~EV_EOF) == O.kev.flags)
ENS(C12, "fflags carries the socket error, if there is one", !(ev->events & EPOLLERR) ? el->fflags == O.kev.fflags : !(O.kn.kn_flags & KNFL_SOCKET) ? el->fflags == EIO : (K.sock_error_fails || s_slot(T.fd) < 0 || s_at(s_slot(T.fd)).kind != KF_SOCK || el->fflags == (unsigned)K.sock_error))
ENS(C12, "data is the number of bytes the kernel reports", RD && PASSIVE ? el->data == 1 : (!RD && (el->flags & EV_EOF)) || el->data == AVAIL)
ENS(C05, "a one-shot registration is deleted, exactly once", G.n_delete == ((O.kev.flags & EV_ONESHOT) != 0))
ENS(C05, "a dispatch registration is disabled, exactly once", G.n_disable == ((O.kev.flags & EV_DISPATCH) != 0))
ENS(C05 C12, "any other registration stays as it is", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)), KEEPS(kn)))
ENS(C05 C13, "the kernel interest is left alone", s_owned() == O.owned && s_regs() == O.regs && IMP(!KO.gone && !(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)), f_on(kn)))
ENS(C13, "the other filter on the descriptor is unaffected", f_other_same())
ENS(C16, "no invalid or blocking system call", s_clean())
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* regular files */
#define REMAINS     ((K.fstat_fails || s_slot(T.fd) < 0 ? 1 : K.file_size) - (K.lseek_fails || s_slot(T.fd) < 0 ? 0 : K.file_pos))
#define AT_END      (RD && REMAINS == 0)
int vp_fcopyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, struct epoll_event *ev)
REQ(filt == FILT && kn == KN && PRE(kn) && KNOTE_ENABLED(kn) && f_file_on(kn) && n >= 1 && G.n_delete == 0 && G.n_disable == 0)
ASG(K, *kn, *el, G)
FREES(kn)
ENS(C05 C14, "the result is one event unless disabling or deleting failed", RV == (G.flag_rv < 0 ? -1 : 1))
ENS(C12 C14, "nothing is reported at the end of the file", (el->filter == 0) == AT_END)
ENS(C06, "identity of the delivered event", AT_END || (el->ident == O.kev.ident && el->filter == O.kev.filter && el->udata == O.kev.udata && el->flags == O.kev.flags && el->fflags == O.kev.fflags))
ENS(C12, "data is the distance to the end of the file", !RD || AT_END || el->data == REMAINS)
ENS(C05, "a one-shot registration is deleted, exactly once", G.n_delete == ((O.kev.flags & EV_ONESHOT) && !AT_END))
ENS(C05, "a dispatch registration is disabled, exactly once", G.n_disable == ((O.kev.flags & EV_DISPATCH) && !AT_END))
ENS(C05 C12, "any other registration stays armed", IMP(!(O.kev.flags & (EV_ONESHOT | EV_DISPATCH)) && !AT_END, KEEPS(kn) && f_file_on(kn)))
ENS(C12 C04, "at the end of the file the registration is no longer busy", IMP(AT_END, KEEPS(kn) && f_file_off(kn)))
ENS(C16, "no invalid or blocking system call", s_clean() && s_owned() == O.owned)
{ return filt->kf_copyout(el, n, filt, kn, ev); }

/* ---- arbitrary pre-states -------------------------------------------------- */
static struct knote *start(void)
{
    env_kernel();
    env_kq(&EVF);
    T = (struct trees){ 0 };
    T.fd = ND_INT(app_fd);
    ASSUME(T.fd >= 0 && T.fd <= 1000000);
    K.alloc_may_fail = ND_BOOL(alloc_may_fail);
    K.fstat_fails = ND_BOOL(fstat_fails);  K.fstat_err = EIO;
    K.lseek_fails = ND_BOOL(lseek_fails);
    K.file_size = ND_LONG(file_size);      K.file_pos = ND_LONG(file_pos);
    ASSUME(K.file_size >= 0 && K.file_pos >= 0);
    K.sock_type = ND_INT(sock_type);       K.sock_type_fails = ND_BOOL(sock_type_fails);
    K.sock_listen = ND_BOOL(sock_listen);  K.sock_listen_fails = ND_BOOL(sock_listen_fails);
    K.sock_filter_len = ND_UINT(sock_filter_len); K.sock_filter_fails = ND_BOOL(sock_filter_fails);
    K.sock_error = ND_INT(sock_error);     K.sock_error_fails = ND_BOOL(sock_error_fails);
    K.sock_opt_err = EINVAL;
    K.inq = ND_INT(inq);                   K.inq_fails = ND_BOOL(inq_fails);
    K.outq = ND_INT(outq);                 K.outq_fails = ND_BOOL(outq_fails);
    ASSUME(K.inq >= 0 && K.outq >= 0);
    if (ND_BOOL(app_fd_open)) {
        int s = env_fd(ND_BOOL(app_fd_sock) ? KF_SOCK : ND_BOOL(app_fd_pipe) ? KF_PIPE : ND_BOOL(app_fd_file) ? KF_REG : ND_BOOL(app_fd_chr) ? KF_CHR : KF_ANON, 0);
        ASSUME(s_slot(T.fd) < 0);
        AT(s) kF.num = T.fd;
    }
    struct knote *kn = env_knote(&EVF);
    kn->kev.ident = T.fd;
    KO.kn = NULL;
    KO.gone = 0;
    return kn;
}
static struct fd_state *filed(void)
{
    if (s_fds() == NULL) {
        struct fd_state *f = (malloc)(sizeof(*f));
        ASSUME(f != NULL);
        *f = (struct fd_state){ .fds_fd = T.fd };
        FDS_UDATA(f);
        K.nalloc++;
        env_put_fds(f);
    }
    return s_fds();
}
static void file_off(struct knote *kn)
{
    int s = env_fd(KF_EVENTFD, 1);
    AT(s) kF.cnt = 1;
    kn->kn_eventfd = s_at(s).num;
    kn->kn_epollfd = K.epfd;
    kn->kn_flags |= KNFL_FILE;
    kn->epoll_events = f_filemask(kn);
    kn->kn_registered = 0;
    KN_UDATA(kn);
}
static void file_on(struct knote *kn)
{
    file_off(kn);
    int s = k_slot(kn->kn_eventfd);
    AT(s) kF.reg = 1;
    AT(s) kF.ev = f_filemask(kn);
    AT(s) kF.ptr = &kn->kn_udata;
    kn->kn_registered = 1;
}
/* the other filter may have a knote on the same (non-file) descriptor */
static void other(void)
{
    if (f_file() || !ND_BOOL(other_present)) return;
    struct knote *o = (calloc)(1, sizeof(*o));
    ASSUME(o != NULL);
    K.nalloc++;
    o->kn_ref = 1;
    o->kn_kq = &KQ;
    o->kev.ident = T.fd;
    o->kev.filter = RD ? EVFILT_WRITE : EVFILT_READ;
    o->kev.flags = ND_USHORT(other_flags);
    ASSUME(!(o->kev.flags & (EV_EOF | EV_ERROR)));
    o->epoll_events = OTHEREV | ((o->kev.flags & EV_CLEAR) ? EPOLLET : 0);
    struct fd_state *f = filed();
    f->OSLOT = o;
    o->kn_fds = f;
    KO.kn = o;
    O_other = *o;
}
/* kn's descriptor in a state reached by earlier operations; the descriptor may
 * have been closed, or closed and reused, since (then epoll has forgotten it) */
static void settle(struct knote *kn, _Bool present, _Bool on)
{
    int s = k_slot(T.fd);
    if (present && ND_BOOL(knote_on_file)) {
        ASSUME(!KO.kn);
        if (on) file_on(kn); else file_off(kn);
        return;
    }
    ASSUME(s < 0 || s_at(s).kind != KF_REG);
    if (present && (on || ND_BOOL(still_filed))) {
        filed()->SLOT = kn;
        kn->kn_fds = s_fds();
    }
    if (present) kn->epoll_events = MYEV | ((kn->kev.flags & EV_CLEAR) ? EPOLLET : 0);
    uint32_t want = (on ? ME : 0) | (KO.kn && KNOTE_ENABLED(KO.kn) ? OTHER : 0);
    if (want && (s < 0 || ND_BOOL(descriptor_reused))) KO.gone = 1;
    else if (want) {
        AT(s) kF.reg = 1;
        AT(s) kF.ev = f_want(kn, on);
        AT(s) kF.ptr = &s_fds()->fds_udata;
    }
}
void main_create(void)
{
    struct knote *kn = start();
    kn->kev.flags &= ~EV_DISABLE;
    other();
    if (!f_file()) settle(kn, 0, 0);
    env_snap(kn, -1);
    vp_create(FILT, kn);
    REACH("create");
}
void main_enable(void)
{
    struct knote *kn = start();
    kn->kev.flags |= EV_DISABLE;
    other();
    settle(kn, 1, 0);
    env_snap(kn, -1);
    vp_enable(FILT, kn);
    REACH("enable");
}
void main_disable(void)
{
    struct knote *kn = start();
    kn->kev.flags &= ~EV_DISABLE;
    other();
    settle(kn, 1, 1);
    env_snap(kn, -1);
    vp_disable(FILT, kn);
    REACH("disable");
}
void main_delete(void)
{
    struct knote *kn = start();
    other();
    settle(kn, 1, KNOTE_ENABLED(kn));
    env_snap(kn, -1);
    vp_delete(FILT, kn);
    REACH("delete");
}
void main_modify(void)
{
    struct knote *kn = start();
    struct kevent kev = { .ident = kn->kev.ident, .filter = EVF.kf_id, .flags = ND_USHORT(new_flags),
                          .fflags = ND_UINT(new_fflags), .data = ND_LONG(new_data), .udata = (void *)ND_ULONG(new_udata) };
    other();
    settle(kn, 1, KNOTE_ENABLED(kn));
    env_snap(kn, -1);
    vp_modify(FILT, kn, &kev);
    REACH("modify");
}
void main_copyout(void)
{
    struct kevent el;
    struct epoll_event ev = { .events = ND_UINT(ev_events) };
    struct knote *kn = start();
    kn->kev.flags &= ~EV_DISABLE;
    other();
    settle(kn, 1, 1);
    ASSUME(!(kn->kn_flags & KNFL_FILE));
    unsigned kind = ND_UINT(kn_kind) % 9;
    kn->kn_flags = kind == 0 ? KNFL_PIPE : kind == 1 ? KNFL_BLOCKDEV : kind == 2 ? KNFL_CHARDEV : kind == 3 ? KNFL_SOCKET_STREAM : kind == 4 ? KNFL_SOCKET_DGRAM :
                   kind == 5 ? KNFL_SOCKET_RDM : kind == 6 ? KNFL_SOCKET_SEQPACKET : kind == 7 ? KNFL_SOCKET_RAW : KNFL_SOCKET;
    if (kind > 7 || (kind > 2 && ND_BOOL(kn_passive))) kn->kn_flags |= KNFL_SOCKET_PASSIVE;
    env_snap(kn, -1);
    vp_copyout(&el, ND_INT(el_room), FILT, kn, &ev);
    REACH("copyout");
}
void main_fcopyout(void)
{
    struct kevent el;
    struct epoll_event ev = { .events = ND_UINT(ev_events) };
    struct knote *kn = start();
    kn->kev.flags &= ~EV_DISABLE;
    file_on(kn);
    env_snap(kn, -1);
    vp_fcopyout(&el, ND_INT(el_room), FILT, kn, &ev);
    REACH("fcopyout");
}

/* one registration through a history of operations, on a descriptor that stays
 * open: each one finds what the one before it left, including the fields no
 * contract mentions */
static _Bool f_parked(struct knote *kn) { return (kn->kn_flags & KNFL_FILE) ? f_file_off(kn) : f_off(kn); }
static _Bool f_inv(struct knote *kn) { return KNOTE_ENABLED(kn) ? f_armed(kn) : f_parked(kn); }
void main_seq(void)
{
    struct kevent el;
    struct epoll_event ev = { .events = EPOLLIN };
    struct knote *kn = start();
    struct kevent kev = { .ident = kn->kev.ident, .filter = EVF.kf_id, .flags = ND_USHORT(new_flags),
                          .fflags = ND_UINT(new_fflags), .data = ND_LONG(new_data), .udata = (void *)ND_ULONG(new_udata) };
    ASSUME(!(kev.flags & (EV_EOF | EV_ERROR | EV_DISABLE | EV_DELETE | EV_ENABLE)));
    kn->kev.flags &= ~EV_DISABLE;
    other();
    if (!f_file()) settle(kn, 0, 0);
    ASSUME(!KO.gone);
    int owned = s_owned();
    unsigned nalloc = K.nalloc;
    if (FILT->kn_create(FILT, kn) != 0) return;
    CHECK(f_armed(kn), "[C04 C12 C13] a new registration is armed");
    for (int i = 0; i < 2; i++) {
        unsigned op = ND_UINT(op) % 4;
        _Bool idle = 0;
        if (op == 0) break;
        if (op == 1) (void)FILT->kn_modify(FILT, kn, &kev);
        else if (op == 2 && KNOTE_ENABLED(kn) && (kn->kn_flags & KNFL_FILE) && REFS(kn) == 1 && !(kn->kev.flags & (EV_ONESHOT | EV_DISPATCH))) {
            (void)FILT->kf_copyout(&el, 1, FILT, kn, &ev);
            idle = REFS(kn) == 0;
            CHECK(IMP(idle, el.filter == 0), "[C04 C12] a registration is taken off only at the end of the file");
        } else if (KNOTE_ENABLED(kn)) {
            CHECK(FILT->kn_disable(FILT, kn) == 0, "[C04 C13] disabling succeeds, whatever was done before");
            kn->kev.flags |= EV_DISABLE;
        } else if (FILT->kn_enable(FILT, kn) == 0) kn->kev.flags &= ~EV_DISABLE;
        if (idle) {      /* at the end of the file only enabling it arms it again */
            CHECK(f_file_off(kn) && KNOTE_ENABLED(kn), "[C04 C12] a registration at the end of the file is idle");
            CHECK(FILT->kn_disable(FILT, kn) == 0, "[C04 C12] it can be disabled");
            kn->kev.flags |= EV_DISABLE;
        }
        CHECK(f_inv(kn), "[C04 C12 C13] a registration is armed exactly if it is enabled, whatever was done before");
        CHECK(f_other_same(), "[C13] the other filter on the descriptor is unaffected");
    }
    CHECK(FILT->kn_delete(FILT, kn) == 0, "[C04 C16] deleting succeeds, whatever was done before");
    CHECK(REFS(kn) == 0 && f_interest(NULL, 0) && f_books(NULL, 0), "[C16 C04 C13] nothing refers to a deleted registration, whatever was done before");
    CHECK(s_owned() == owned && K.nalloc == nalloc && s_clean(), "[C16] descriptors and memory are released, whatever was done before");
    REACH("seq");
}
