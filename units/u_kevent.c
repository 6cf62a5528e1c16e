/*
 * kevent() (src/common/kevent.c), with filter_lookup and the registrations of
 * src/common/knote.c, over the spec filter and a spec event back end.
 *
 * SRC: common/kevent.c common/knote.c common/filter.c
 * STUB: knote
 * VP: spec.c
 * JOB one   MAIN=main_one   ENFORCE=vp_one DEFS=NARROW=1,NCHANGES=1 WEIGHT=30
 * JOB none  MAIN=main_one   ENFORCE=vp_one DEFS=NARROW=1,NCHANGES=0
 * JOB room  MAIN=main_room  ENFORCE=vp_room
 * JOB list  MAIN=main_list  ENFORCE=vp_list DEFS=NARROW=1 BOUNDED=3_changes WEIGHT=30
 * DEFAULT: C18
 */
#include "spec.h"

/* the library globals kevent() reads (src/common/kqueue.c) */
bool libkqueue_thread_safe = true;
bool libkqueue_fork_cleanup = true;
tracing_mutex_t kq_mtx;
struct kqueue_head kq_list;
unsigned int kq_cnt;
#define GOODFD 1234
struct kqueue *kqueue_lookup(int kqfd) { if (libkqueue_thread_safe && !K.g_held) K.lk_error = 1; return kqfd == GOODFD ? &KQ : NULL; }

/* ---- the event back end, by contract -------------------------------------- */
int CANCEL0;
static int be_wait(struct kqueue *kq, int n, const struct timespec *ts)
{
    SF.n_wait++;
    SF.wait_room = n;
    SF.wait_ts = ts;
    SF.wait_locked = K.kq_held;
    SF.wait_global = K.g_held;
    SF.wait_cancel_ok = (K.cancel_state == CANCEL0);
    SF.wait_kq = (kq == &KQ);
    k_cancel_point();
    if (SF.wait_rv < 0) K.err = SF.err;
    return SF.wait_rv > n ? n : SF.wait_rv;
}
static int be_copyout(struct kqueue *kq, int nready, struct kevent *el, int n)
{
    SF.n_out++;
    SF.out_ready = nready;
    SF.out_el = el;
    SF.out_room = n;
    SF.out_kq = (kq == &KQ);
    SF.out_cancel_off = (K.cancel_state == PTHREAD_CANCEL_DISABLE && K.kq_held);
    return SF.out_rv > n ? n : SF.out_rv;
}
const struct kqueue_vtable kqops = { .kevent_wait = be_wait, .kevent_copyout = be_copyout };

struct kevent CH;            /* the change */
#ifdef NARROW
#define MAXEL 4
#else
#define MAXEL 520
#endif
struct kevent EL[MAXEL];
#define NEL(n)      ((n) > 512 ? 512 : (n))
int ROOM;                    /* entries the caller offers */
_Bool PRESENT;               /* a registration existed before the call */
int KQFD, NCH;
/* what the protocol says about the change CH */
enum { NOTHING, ENTRY_ERR, ENTRY_RECEIPT, ENTRY_QUERY };
static _Bool c_bad(void)    { return (CH.flags & (EV_DISPATCH | EV_ONESHOT)) == (EV_DISPATCH | EV_ONESHOT); }
static _Bool c_nofilt(void) { return CH.filter != spec_filter.kf_id; }
static _Bool c_refused(void){ return c_bad() || c_nofilt() || (!PRESENT && !(CH.flags & EV_ADD)); }
static _Bool c_creates(void){ return !c_refused() && !PRESENT; }
static unsigned c_flags(void){ return CH.flags & ~(EV_EOF | EV_ERROR); }
static _Bool c_modifies(void){ return !c_refused() && PRESENT && !(CH.flags & (EV_DELETE | EV_DISABLE | EV_ENABLE)) && ((CH.flags & (EV_ADD | EV_RECEIPT)) || c_flags() == 0); }
static _Bool c_deletes(void) { return !c_refused() && PRESENT && (CH.flags & EV_DELETE); }
static _Bool c_disables(void){ return !c_refused() && PRESENT && (CH.flags & (EV_DELETE | EV_DISABLE)) == EV_DISABLE && !(O.kev.flags & EV_DISABLE); }
static _Bool c_enables(void) { return !c_refused() && PRESENT && (CH.flags & (EV_DELETE | EV_DISABLE | EV_ENABLE)) == EV_ENABLE && (O.kev.flags & EV_DISABLE); }
static int c_rv(void)
{
    if (c_refused()) return -1;
    if (c_creates()) return SF.n_create == 0 || SF.rv_create < 0 ? -1 : (CH.flags & EV_DISABLE) && SF.rv_disable < 0 ? -1 : SF.rv_create;
    if (c_deletes()) return SF.rv_delete;
    if (c_disables()) return SF.rv_disable;
    if (c_enables()) return SF.rv_enable;
    if (c_modifies()) return SF.rv_modify;
    return 0;
}
static int c_kind(void)
{
    int rv = NCH < 1 ? 0 : c_rv();
    if (NCH < 1) return NOTHING;
    return rv < 0 ? ENTRY_ERR : rv == 1 ? ENTRY_QUERY : (CH.flags & EV_RECEIPT) ? ENTRY_RECEIPT : NOTHING;
}
static int c_entries(void) { return c_kind() != NOTHING; }
static _Bool c_fits(void)  { return c_entries() <= ROOM; }
#define RUNS        (KQFD == GOODFD)
#define APPLIED     (RUNS && NCH > 0)
#define KNEW        (SF.created_kn)

static _Bool e_repeats(void) { return EL[0].ident == CH.ident && EL[0].filter == CH.filter && EL[0].udata == CH.udata && EL[0].fflags == CH.fflags && EL[0].flags == (CH.flags | EV_ERROR); }
static _Bool e_errno(void)
{
    long d = EL[0].data;
    if (c_bad()) return d == EINVAL;
    if (c_nofilt()) return d == EINVAL || d == ENOSYS;
    if (!PRESENT && !(CH.flags & EV_ADD)) return d == ENOENT;
    if (c_creates() && (SF.n_create == 0 || SF.rv_create < 0)) return d != 0;
    return d == SF.err;
}
static _Bool k_intact(void) { struct knote *k = s_kn(); return k == KN && SAME_ID(k, O.kev) && k->kev.flags == O.kev.flags && k->kev.fflags == O.kev.fflags && k->kev.data == O.kev.data; }

int vp_one(int kqfd, const struct kevent *cl, int nch, struct kevent *el, int nev, const struct timespec *ts)
REQ(kqfd == KQFD && nch == NCH && nch >= 0 && nch <= 1 && IMP(nch == 1, cl == &CH) && (el == EL || el == NULL) && nev >= 0 && ROOM == (el == NULL ? 0 : NEL(nev)) && SF.n_wait == 0)
ASG(K, KQ, SF, T, *KN, kq_mtx, EL[0])
FREES(KN)
ENS(C02 C17, "an unknown descriptor is refused with ENOENT and nothing happens", IMP(!RUNS, RV == -1 && K.err == ENOENT && SF.n_wait == 0 && SF.n_create + SF.n_modify + SF.n_delete + SF.n_enable + SF.n_disable == 0))
ENS(C01 C02, "without room for a required entry the call fails", IMP(RUNS && !c_fits(), RV == -1 && SF.n_wait == 0))
ENS(C01, "a failing change is reported with its error", IMP(APPLIED && c_kind() == ENTRY_ERR && c_fits(), e_repeats() && e_errno()))
ENS(C01, "an error that cannot be reported is left in errno", IMP(APPLIED && c_kind() == ENTRY_ERR && !c_fits(), K.err != 0))
ENS(C01, "a receipt is an entry with error 0", IMP(APPLIED && c_kind() == ENTRY_RECEIPT && c_fits(), e_repeats() && EL[0].data == 0))
ENS(C01 C21, "a query is answered with the data of the registration", IMP(APPLIED && c_kind() == ENTRY_QUERY && c_fits() && s_kn(), EL[0].ident == s_kn()->kev.ident && EL[0].filter == s_kn()->kev.filter && EL[0].data == s_kn()->kev.data && EL[0].udata == s_kn()->kev.udata && EL[0].fflags == s_kn()->kev.fflags && EL[0].flags == (s_kn()->kev.flags | EV_RECEIPT)))
ENS(C02, "it waits if and only if there is room left", IMP(RUNS, SF.n_wait == (c_fits() && ROOM - c_entries() > 0)))
ENS(C02, "for no more events than there is room left, with the caller's timeout", IMP(SF.n_wait, SF.wait_kq && SF.wait_room == ROOM - c_entries() && SF.wait_ts == ts))
ENS(C02, "events are delivered behind the entries for changes, within the room left", IMP(SF.n_out, SF.out_kq && SF.out_el == (void *)&EL[c_entries()] && SF.out_room == ROOM - c_entries() && SF.out_ready >= 1))
ENS(C02, "events are delivered if and only if the wait found some", SF.n_out == (SF.n_wait && SF.wait_rv > 0))
ENS(C02 C01, "the count returned is the number of entries plus the number of events", IMP(RUNS && c_fits(), RV == (SF.n_wait && SF.wait_rv < 0 ? -1 : SF.n_out ? (SF.out_rv < 0 ? -1 : c_entries() + (SF.out_rv > SF.out_room ? SF.out_room : SF.out_rv)) : c_entries())))
ENS(C02 C15, "a failed wait leaves its error in errno", IMP(SF.n_wait && SF.wait_rv < 0, K.err == SF.err))
ENS(C01 C03, "a change runs at most the one operation it asks for", IMP(APPLIED, SF.n_create <= c_creates() && SF.n_modify == c_modifies() && SF.n_delete == c_deletes() && SF.n_enable == c_enables() && SF.n_disable == (c_creates() ? SF.n_create && SF.rv_create >= 0 && (CH.flags & EV_DISABLE) : c_disables()) && !SF.wrong))
ENS(C01 C03, "without a change no operation runs", IMP(RUNS && NCH < 1, SF.n_create + SF.n_modify + SF.n_delete + SF.n_enable + SF.n_disable == 0))
ENS(C03 C16, "creating runs unless memory is exhausted", IMP(APPLIED && c_creates() && !K.alloc_may_fail, SF.n_create == 1))
ENS(C03 C06, "a new registration carries what the caller supplied, enabled", IMP(SF.n_create, SF.created.ident == CH.ident && SF.created.filter == CH.filter && SF.created.udata == CH.udata && SF.created.fflags == CH.fflags && SF.created.data == CH.data && SF.created.flags == (CH.flags & (unsigned short)~(EV_EOF | EV_ERROR | EV_ENABLE | EV_DISABLE))))
ENS(C03 C16, "a failed creation leaves no registration and no memory behind", IMP(APPLIED && c_creates() && (SF.n_create == 0 || SF.rv_create < 0), s_kn() == NULL && K.nalloc == O.nalloc))
ENS(C03, "a successful creation is found from then on", IMP(SF.n_create && SF.rv_create >= 0, s_kn() == KNEW && K.nalloc == O.nalloc + 1))
ENS(C03 C04, "added with EV_DISABLE it is disabled", IMP(SF.n_create && SF.rv_create >= 0, ((s_kn()->kev.flags & EV_DISABLE) != 0) == ((CH.flags & EV_DISABLE) && SF.rv_disable == 0)))
ENS(C03 C16, "deleting removes the registration", IMP(APPLIED && c_deletes(), s_kn() == NULL && K.nalloc == O.nalloc - 1))
ENS(C03 C06, "modifying passes the whole change to the filter", IMP(SF.n_modify, SF.mod.ident == CH.ident && SF.mod.fflags == CH.fflags && SF.mod.data == CH.data && SF.mod.udata == CH.udata && SF.mod.flags == c_flags()))
ENS(C06 C03, "a successful modification takes the new user data and dispatch setting", IMP(SF.n_modify && SF.rv_modify == 0, s_kn() == KN && KN->kev.udata == CH.udata && ((KN->kev.flags ^ CH.flags) & EV_DISPATCH) == 0 && ((KN->kev.flags ^ O.kev.flags) & ~EV_DISPATCH) == 0))
ENS(C06 C03, "a refused modification changes nothing", IMP(SF.n_modify && SF.rv_modify < 0, k_intact()))
ENS(C04 C03, "enabling and disabling change only that", IMP(APPLIED && (c_enables() || c_disables()), s_kn() == KN && KN->kev.udata == O.kev.udata && KN->kev.fflags == O.kev.fflags && KN->kev.data == O.kev.data && ((KN->kev.flags ^ O.kev.flags) & ~EV_DISABLE) == 0))
ENS(C04, "a disabled registration is disabled, an enabled one enabled", IMP(APPLIED && c_rv() == 0, IMP(c_enables(), !(KN->kev.flags & EV_DISABLE)) && IMP(c_disables(), (KN->kev.flags & EV_DISABLE))))
ENS(C03 C04, "any other change leaves an existing registration alone", IMP(RUNS && PRESENT && (NCH < 1 || !(c_deletes() || c_modifies() || c_enables() || c_disables())), k_intact() && K.nalloc == O.nalloc))
ENS(C18, "no lock is held on return", !K.kq_held && !K.g_held && !K.lk_error && K.lk_other == 0)
ENS(C18, "the kqueue is locked while it is used, and only once", K.n_kq_lock == K.n_kq_unlock && K.n_kq_lock == RUNS && !SF.unlocked && IMP(SF.n_wait, SF.wait_locked) && IMP(SF.n_out, SF.out_cancel_off))
ENS(C18, "the global lock is not held while waiting", IMP(SF.n_wait, !SF.wait_global))
ENS(C18, "the wait can be cancelled if and only if the caller can be", IMP(SF.n_wait, SF.wait_cancel_ok))
ENS(C18, "a cancellation asked for before the call is acted on by its end, if the caller can be cancelled", IMP(RUNS && K.cancel_pending, CANCEL0 == PTHREAD_CANCEL_DISABLE))
ENS(C18, "the cancellation state is as the caller left it", K.cancel_state == CANCEL0 && K.cl_depth == 0 && !K.cl_error)
{ return kevent(kqfd, cl, nch, el, nev, ts); }

/* any amount of room */
int vp_room(int kqfd, struct kevent *el, int nev, const struct timespec *ts)
REQ(kqfd == GOODFD && nev >= 0 && (el == EL || el == NULL) && SF.n_wait == 0)
ASG(K, KQ, SF, T, kq_mtx)
ENS(C02, "the wait is for at most the room offered, and at most 512", IMP(el != NULL && nev > 0, SF.n_wait == 1 && SF.wait_room == NEL(nev)))
ENS(C02 C14, "events are delivered into the room offered", IMP(SF.n_out, SF.out_el == (void *)el && SF.out_room == NEL(nev)))
ENS(C02, "never more events are returned than there is room", RV <= (el == NULL ? 0 : nev))
ENS(C02, "no room, no wait", IMP(el == NULL || nev == 0, SF.n_wait == 0 && RV == 0))
ENS(C02, "a timeout returns 0", IMP(SF.n_wait && SF.wait_rv == 0, RV == 0))
{ return kevent(kqfd, NULL, 0, el, nev, ts); }

/* several changes: each is a modification or an invalid change */
#define MAXCH 3
struct kevent CL[MAXCH];
struct expect { int entries, errs, processed; _Bool full; } X;
static _Bool l_bad(int i)     { return CL[i].filter != spec_filter.kf_id; }
/* the result of change i: the j-th valid one got the j-th result of the filter */
static int l_rv(int i)
{
    int j = 0;
    if (l_bad(i)) return -1;
    for (int k = 0; k < MAXCH; k++) if (k < i && !l_bad(k)) j++;
    return SF.seq_rv[j];
}
static _Bool l_entry(int i) { return l_rv(i) != 0 || (CL[i].flags & EV_RECEIPT); }
static int l_before(int i) { int n = 0; for (int k = 0; k < MAXCH; k++) if (k < i && l_entry(k)) n++; return n; }
/* change i is reached: every entry before it had room */
static _Bool l_reached(int i) { return i < NCH && l_before(i) <= ROOM; }
static _Bool l_ok(int i)
{
    int at = l_before(i);
    if (i >= NCH || !l_reached(i) || !l_entry(i) || at >= ROOM) return 1;
    if (EL[at].ident != CL[i].ident || EL[at].filter != CL[i].filter) return 0;
    if (l_rv(i) == 1) return (EL[at].flags & EV_RECEIPT) != 0;
    if (EL[at].udata != CL[i].udata || EL[at].fflags != CL[i].fflags || EL[at].flags != (CL[i].flags | EV_ERROR)) return 0;
    return l_rv(i) < 0 ? (l_bad(i) ? EL[at].data == EINVAL || EL[at].data == ENOSYS : EL[at].data == SF.err) : EL[at].data == 0;
}
static _Bool l_order(void)
{
    int j = 0;
    for (int i = 0; i < MAXCH; i++)
        if (i < NCH && l_reached(i) && !l_bad(i)) { if (SF.seq[j] != (int)CL[i].fflags) return 0; j++; }
    return (int)SF.nseq == j;
}
int vp_list(int kqfd, const struct kevent *cl, int nch, struct kevent *el, int nev)
REQ(kqfd == GOODFD && cl == CL && nch == NCH && nch >= 1 && nch <= MAXCH && el == EL && nev == ROOM && nev >= 0 && nev <= MAXCH + 1)
ASG(K, KQ, SF, T, *KN, kq_mtx, EL[0], EL[1], EL[2], EL[3])
ENS(C01, "changes are applied one by one, in order, none after one whose entry has no room", l_order())
ENS(C01, "every failing or receipted change has its entry, in order", l_ok(0) && l_ok(1) && l_ok(2))
ENS(C01 C02, "the call fails if an entry has no room", IMP(l_before(NCH) > ROOM, RV == -1 && SF.n_wait == 0))
ENS(C02 C01, "otherwise the count is that of the entries plus the events", IMP(l_before(NCH) <= ROOM, RV == (SF.n_wait && SF.wait_rv < 0 ? -1 : SF.n_out ? (SF.out_rv < 0 ? -1 : l_before(NCH) + (SF.out_rv > SF.out_room ? SF.out_room : SF.out_rv)) : l_before(NCH))))
ENS(C02, "the wait is for the room left", IMP(l_before(NCH) <= ROOM, SF.n_wait == (ROOM > l_before(NCH)) && IMP(SF.n_wait, SF.wait_room == ROOM - l_before(NCH))) && IMP(SF.n_out, SF.out_el == (void *)&EL[l_before(NCH)]))
{ return kevent(kqfd, cl, nch, el, nev, NULL); }

/* ---- arbitrary pre-states ---- */
static void start(void)
{
    env_kernel();
    env_kq(&spec_filter);
    spec_choose();
    SF.wait_rv = ND_INT(wait_rv);
    SF.out_rv = ND_INT(out_rv);
    ASSUME(SF.wait_rv >= -1 && SF.out_rv >= -1);
    KQ.kq_mtx.mtx_status = MTX_UNLOCKED;
    KQ.kq_mtx.mtx_owner = 0;
    kq_mtx = (tracing_mutex_t){ 0 };
    K.lk_global = &kq_mtx.mtx_lock;
    K.lk_kq = &KQ.kq_mtx.mtx_lock;
    libkqueue_thread_safe = ND_BOOL(thread_safe);
    CANCEL0 = K.cancel_state = ND_BOOL(cancellable) ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE;
    K.cancel_pending = ND_BOOL(cancel_pending);
    libkqueue_debug = 0;
    T = (struct trees){ 0 };
    T.filt = FILT;
    PRESENT = 0;
}
static void present(void)
{
    struct knote *kn = env_knote(&spec_filter);
    if (ND_BOOL(disabled)) kn->kev.flags |= EV_DISABLE; else kn->kev.flags &= ~EV_DISABLE;
    T.ident = kn->kev.ident;
    env_put_kn(FILT, kn);
    PRESENT = 1;
}
static void change(struct kevent *c)
{
    c->ident = T.ident;
    c->filter = ND_SHORT(ch_filter);
    c->flags = ND_USHORT(ch_flags);
    c->fflags = ND_UINT(ch_fflags);
    c->data = ND_LONG(ch_data);
    c->udata = (void *)ND_ULONG(ch_udata);
}
void main_one(void)
{
    struct timespec ts = { 0 };
    start();
    KN = NULL;
    T.ident = ND_ULONG(ident);
    if (ND_BOOL(present)) present();
    change(&CH);
#ifdef NCHANGES
    NCH = NCHANGES;
#endif
    KQFD = ND_BOOL(known) ? GOODFD : ND_INT(kqfd);
    int nev = ND_INT(nevents);
    _Bool noel = ND_BOOL(no_eventlist);
    ASSUME(nev >= 0 && nev <= MAXEL);   /* any room: main_room */
    ROOM = noel ? 0 : NEL(nev);
    env_snap(KN, -1);
    vp_one(KQFD, NCH == 1 || ND_BOOL(cl_given) ? &CH : NULL, NCH, noel ? NULL : EL, nev, ND_BOOL(timeout_given) ? &ts : NULL);
    REACH("one");
}
void main_room(void)
{
    struct timespec ts = { 0 };
    start();
    _Bool noel = ND_BOOL(no_eventlist);
    int nev = ND_INT(nevents);
    ASSUME(nev >= 0);
    vp_room(GOODFD, noel ? NULL : EL, nev, ND_BOOL(timeout_given) ? &ts : NULL);
    REACH("room");
}
void main_list(void)
{
    start();
    T.ident = ND_ULONG(ident);
    present();
    K.alloc_may_fail = 0;
    K.cancel_pending = 0;
    NCH = MAXCH;
    ROOM = ND_INT(nevents);
    ASSUME(ROOM >= 0 && ROOM <= MAXCH + 1);
    for (int i = 0; i < MAXCH; i++) {
        change(&CL[i]);
        CL[i].flags &= EV_RECEIPT | EV_ADD | EV_CLEAR;
        CL[i].flags |= EV_ADD;
        if (ND_BOOL(valid)) CL[i].filter = spec_filter.kf_id;
    }
    vp_list(GOODFD, CL, NCH, EL, ROOM);
    REACH("list");
}
