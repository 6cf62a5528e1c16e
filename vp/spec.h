/*
 * A filter and an event back end that stand for every filter and back end: each
 * operation is known only by its contract, may return any result the contract
 * allows, and logs its call in SF.  Used to prove the common code.
 */
#ifndef VP_SPEC_H
#define VP_SPEC_H
#include "env.h"
#include "trees.h"
struct spec {
    unsigned n_create, n_modify, n_delete, n_enable, n_disable, n_copyout;
    int rv_create, rv_modify, rv_delete, rv_enable, rv_disable;   /* chosen beforehand */
    int err;                             /* errno of a failing operation */
    struct kevent created;               /* what kn_create saw */
    struct knote *created_kn;
    struct kevent mod;                   /* what kn_modify was asked for */
    _Bool unlocked;                      /* an operation ran without the kqueue lock */
    _Bool wrong;                         /* ... or on the wrong filter or knote */
    /* change lists */
    int seq[8]; int seq_rv[8]; unsigned nseq;
    /* waiting and delivering */
    unsigned n_wait, n_out;
    int wait_room, wait_rv, out_ready, out_room, out_rv;
    const struct timespec *wait_ts;
    const void *out_el;
    _Bool wait_locked, wait_global, wait_cancel_ok, wait_kq, out_cancel_off, out_kq;
};
extern struct spec SF;
extern const struct filter spec_filter;
void spec_choose(void);
_Bool spec_locked(void);
#endif
