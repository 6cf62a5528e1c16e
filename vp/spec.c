#include "spec.h"
struct spec SF;
_Bool spec_locked(void) { return K.lk_kq == NULL || K.kq_held; }
static int sp_res(int rv) { if (rv < 0) K.err = SF.err; return rv; }
static void sp_call(struct filter *filt, struct knote *kn)
{
    if (!spec_locked()) SF.unlocked = 1;
    if (filt != FILT || kn == NULL || kn->kn_kq != &KQ) SF.wrong = 1;
}
static int sp_create(struct filter *filt, struct knote *kn)
{
    sp_call(filt, kn);
    SF.n_create++;
    SF.created = kn->kev;
    SF.created_kn = kn;
    return sp_res(SF.rv_create);
}
static int sp_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
{
    sp_call(filt, kn);
    if (kn != T.kn) SF.wrong = 1;
    SF.mod = *kev;
    SF.n_modify++;
    if (SF.nseq < 8) {
        SF.seq[SF.nseq] = (int)kev->fflags;
        SF.rv_modify = SF.seq_rv[SF.nseq];
        SF.nseq++;
    }
    return sp_res(SF.rv_modify);
}
static int sp_delete(struct filter *filt, struct knote *kn) { sp_call(filt, kn); SF.n_delete++; return sp_res(SF.rv_delete); }
static int sp_enable(struct filter *filt, struct knote *kn) { sp_call(filt, kn); if (!(kn->kev.flags & EV_DISABLE)) SF.wrong = 1; SF.n_enable++; return sp_res(SF.rv_enable); }
static int sp_disable(struct filter *filt, struct knote *kn) { sp_call(filt, kn); if (kn->kev.flags & EV_DISABLE) SF.wrong = 1; SF.n_disable++; return sp_res(SF.rv_disable); }
static int sp_copyout(struct kevent *el, int n, struct filter *filt, struct knote *kn, void *ev) { (void)el; (void)n; (void)ev; sp_call(filt, kn); SF.n_copyout++; return -1; }
const struct filter spec_filter = {
    .kf_id = EVFILT_USER, .kf_copyout = sp_copyout, .kn_create = sp_create, .kn_modify = sp_modify,
    .kn_delete = sp_delete, .kn_enable = sp_enable, .kn_disable = sp_disable,
};
void spec_choose(void)
{
    SF = (struct spec){ 0 };
    SF.err = ND_INT(filter_errno);
    ASSUME(SF.err > 0 && SF.err < 4096);
    SF.rv_create = ND_INT(rv_create);
    ASSUME(SF.rv_create >= -1 && SF.rv_create <= 1);
    SF.rv_delete = ND_BOOL(delete_fails) ? -1 : 0;
    SF.rv_enable = ND_BOOL(enable_fails) ? -1 : 0;
    SF.rv_disable = ND_BOOL(disable_fails) ? -1 : 0;
    for (int i = 0; i < 3; i++) {
        SF.seq_rv[i] = ND_INT(rv_modify);
        ASSUME(SF.seq_rv[i] >= -1 && SF.seq_rv[i] <= 1);
    }
    SF.rv_modify = SF.seq_rv[0];
}
