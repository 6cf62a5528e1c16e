/*
 * Registrations (src/common/knote.c) over the spec filter: the contracts under
 * which the filters call knote_delete and knote_disable are proved here.
 *
 * SRC: common/knote.c
 * STUB: knote
 * VP: spec.c
 * JOB delete   MAIN=main_delete ENFORCE=vp_delete
 * JOB disable  MAIN=main_disable ENFORCE=vp_disable
 * JOB enable   MAIN=main_enable ENFORCE=vp_enable
 * JOB lookup   MAIN=main_lookup ENFORCE=vp_lookup
 * JOB insert   MAIN=main_insert ENFORCE=vp_insert
 * JOB new      MAIN=main_new ENFORCE=vp_new
 * JOB release  MAIN=main_release ENFORCE=vp_release
 * JOB delete_all MAIN=main_delete_all ENFORCE=vp_delete_all
 * DEFAULT: C03
 */
#include "spec.h"

#define KEEPS(kn)   (SAME_ID(kn, O.kev) && (kn)->kev.data == O.kev.data && (kn)->kev.fflags == O.kev.fflags)
#define WAS(flag)   (O.kn.kn_flags & (flag))
#define LAST        (O.kn.kn_ref == 1)

int vp_delete(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && (WAS(KNFL_KNOTE_DELETED) ? s_kn() == NULL : s_kn() == kn) && IMP(WAS(KNFL_KNOTE_DELETED), kn->kn_ref > 1) && SF.n_delete == 0)
ASG(K, *kn, T, SF, KQ)
FREES(kn)
ENS(C03 C16, "a registration is deleted once only", IMP(WAS(KNFL_KNOTE_DELETED), RV == -1 && SF.n_delete == 0 && kn->kn_ref == O.kn.kn_ref && K.nalloc == O.nalloc))
ENS(C03 C16, "the filter releases what it holds, exactly once", IMP(!WAS(KNFL_KNOTE_DELETED), SF.n_delete == 1 && RV == SF.rv_delete))
ENS(C03, "the registration is no longer found", s_kn() == NULL)
ENS(C16, "its memory is released with the last reference", IMP(!WAS(KNFL_KNOTE_DELETED), K.nalloc == O.nalloc - LAST && IMP(!LAST, kn->kn_ref == O.kn.kn_ref - 1 && (kn->kn_flags & KNFL_KNOTE_DELETED))))
ENS(C03 C16, "it is no longer pending for delivery", IMP(!WAS(KNFL_KNOTE_DELETED), FILT->kf_ready.lh_first == NULL))
ENS(C03 C04, "no other operation of the filter runs", SF.n_enable + SF.n_disable + SF.n_create + SF.n_modify == 0 && !SF.wrong)
{ return knote_delete(filt, kn); }

int vp_disable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && s_kn() == kn && SF.n_disable == 0)
ASG(K, *kn, T, SF, KQ)
ENS(C04, "the filter is asked to disable exactly an enabled registration", SF.n_disable == !(O.kev.flags & EV_DISABLE) && !SF.wrong && SF.n_enable + SF.n_delete + SF.n_create + SF.n_modify == 0)
ENS(C04, "the result is that of the filter, success if already disabled", RV == ((O.kev.flags & EV_DISABLE) ? 0 : SF.rv_disable))
ENS(C04, "disabled on success, as it was on failure", kn->kev.flags == (RV == 0 ? (O.kev.flags | EV_DISABLE) : O.kev.flags))
ENS(C04 C06, "nothing else about the registration changes", KEEPS(kn) && s_kn() == kn && kn->kn_ref == O.kn.kn_ref && kn->kn_flags == O.kn.kn_flags)
ENS(C04, "a disabled registration is not pending for delivery", IMP(RV == 0 && SF.n_disable, FILT->kf_ready.lh_first == NULL))
{ return knote_disable(filt, kn); }

int vp_enable(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && s_kn() == kn && SF.n_enable == 0)
ASG(K, *kn, T, SF, KQ)
ENS(C04, "the filter is asked to enable exactly a disabled registration", SF.n_enable == !!(O.kev.flags & EV_DISABLE) && !SF.wrong && SF.n_disable + SF.n_delete + SF.n_create + SF.n_modify == 0)
ENS(C04, "the result is that of the filter, success if already enabled", RV == ((O.kev.flags & EV_DISABLE) ? SF.rv_enable : 0))
ENS(C04, "enabled on success, as it was on failure", kn->kev.flags == (RV == 0 ? (O.kev.flags & (unsigned short)~EV_DISABLE) : O.kev.flags))
ENS(C04 C06, "nothing else about the registration changes", KEEPS(kn) && s_kn() == kn && kn->kn_ref == O.kn.kn_ref && kn->kn_flags == O.kn.kn_flags)
{ return knote_enable(filt, kn); }

struct knote *vp_lookup(struct filter *filt, uintptr_t ident)
REQ(filt == FILT && ident == T.ident)
ASG(K)
ENS(C03, "a registration is found under exactly its ident", RV == s_kn())
{ return knote_lookup(filt, ident); }

void vp_insert(struct filter *filt, struct knote *kn)
REQ(filt == FILT && kn == KN && s_kn() == NULL && kn->kev.ident == T.ident)
ASG(K, *kn, T, KQ)
ENS(C03, "a new registration is found from then on", s_kn() == kn)
ENS(C03 C06, "nothing about it changes", KEEPS(kn) && kn->kev.flags == O.kev.flags && kn->kn_ref == O.kn.kn_ref)
{ knote_insert(filt, kn); }

struct knote *vp_new(void)
REQ(1)
ASG(K)
ENS(C03 C16, "a fresh registration has one reference and is otherwise empty", IMP(RV != NULL, RV->kn_ref == 1 && RV->kn_flags == 0 && RV->kev.flags == 0 && RV->kn_ready.le_prev == NULL && K.nalloc == O.nalloc + 1))
ENS(C03 C16, "it fails only for lack of memory", IMP(RV == NULL, K.nalloc == O.nalloc && K.alloc_may_fail))
{ return knote_new(); }

void vp_release(struct knote *kn)
REQ(kn == KN && kn->kn_ref >= 1)
ASG(K, *kn)
FREES(kn)
ENS(C16, "memory is released with the last reference to a deleted registration only", K.nalloc == O.nalloc - (LAST && WAS(KNFL_KNOTE_DELETED)))
ENS(C16 C06, "otherwise only the reference count changes", IMP(!(LAST && WAS(KNFL_KNOTE_DELETED)), kn->kn_ref == O.kn.kn_ref - 1 && KEEPS(kn) && kn->kev.flags == O.kev.flags))
{ knote_release(kn); }

int vp_delete_all(struct filter *filt)
REQ(filt == FILT && SF.n_delete == 0 && IMP(s_kn() != NULL, s_kn() == KN))
ASG(K, *KN, T, SF, KQ)
FREES(KN)
ENS(C03 C16 C17, "every registration is deleted, exactly once", s_kn() == NULL && SF.n_delete == (O.owned != 0))
ENS(C16 C17, "and its memory released", K.nalloc == O.nalloc - (O.owned && LAST))
{ return knote_delete_all(filt); }

/* ---- arbitrary pre-states ---- */
static struct knote *start(_Bool filed)
{
    env_kernel();
    env_kq(&spec_filter);
    spec_choose();
    T = (struct trees){ 0 };
    struct knote *kn = env_knote(&spec_filter);
    kn->kn_ref = ND_UINT(kn_ref);
    ASSUME(kn->kn_ref >= 1);
    T.filt = FILT;
    T.ident = kn->kev.ident;
    if (filed) {
        env_put_kn(FILT, kn);
        if (ND_BOOL(is_ready)) LIST_INSERT_HEAD(&FILT->kf_ready, kn, kn_ready);
    }
    return kn;
}
void main_delete(void)
{
    _Bool del = ND_BOOL(already);
    struct knote *kn = start(!del);
    if (del) { kn->kn_flags |= KNFL_KNOTE_DELETED; ASSUME(kn->kn_ref > 1); }
    env_snap(kn, -1);
    vp_delete(FILT, kn);
    REACH("delete");
}
void main_disable(void) { struct knote *kn = start(1); env_snap(kn, -1); vp_disable(FILT, kn); REACH("disable"); }
void main_enable(void) { struct knote *kn = start(1); env_snap(kn, -1); vp_enable(FILT, kn); REACH("enable"); }
void main_lookup(void) { _Bool in = ND_BOOL(present); struct knote *kn = start(in); env_snap(kn, -1); vp_lookup(FILT, T.ident); REACH("lookup"); }
void main_insert(void) { struct knote *kn = start(0); env_snap(kn, -1); vp_insert(FILT, kn); REACH("insert"); }
void main_new(void) { env_kernel(); env_snap(NULL, -1); vp_new(); REACH("new"); }
void main_release(void) { struct knote *kn = start(0); if (ND_BOOL(already)) kn->kn_flags |= KNFL_KNOTE_DELETED; env_snap(kn, -1); vp_release(kn); REACH("release"); }
void main_delete_all(void) { _Bool in = ND_BOOL(present); struct knote *kn = start(in); env_snap(kn, -1); O.owned = in; vp_delete_all(FILT); REACH("delete_all"); }
