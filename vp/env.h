/*
 * Environment shared by the filter-level units: one kqueue KQ whose mutex is
 * held by the calling thread, its epoll descriptor, an unrelated application
 * descriptor, and one knote KN under test.
 */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "contract.h"

extern const struct filter evfilt_read, evfilt_write, evfilt_signal, evfilt_vnode,
                           evfilt_proc, evfilt_timer, evfilt_user, evfilt_libkqueue;

struct ghost {
    unsigned n_delete, n_disable;       /* knote_delete / knote_disable calls on KN */
    unsigned n_other;                   /* ... on anything else */
    int      flag_rv;                   /* result of the last of them */
};
extern struct ghost  G;
/* logical variables of the contracts: the state before the call */
struct snapshot { int owned, regs, nalloc; struct kevent kev; struct knote kn; uint64_t cnt; unsigned gdel, gdis; };
extern struct snapshot O;
void env_snap(struct knote *kn, int fd);
#define PRE(kn)  (O.owned == s_owned() && O.regs == s_regs() && O.nalloc == K.nalloc && s_clean())
extern struct kqueue KQ;
extern struct filter *FILT;
extern struct knote  *KN;

void env_kernel(void);                       /* arbitrary kernel state, epoll fd, foreign fd */
void env_kq(const struct filter *f);         /* KQ with filter f registered, locked */
struct knote *env_knote(const struct filter *f);  /* arbitrary knote of f */
int  env_fd(int kind, _Bool own);            /* an open descriptor, returns its slot */

/*
 * Specification functions: called from contract clauses only (goto-instrument
 * does not instrument what a clause calls, so they are kept apart from the
 * code under proof and from the ghost kernel).
 */
#define S_FN static __attribute__((unused))
#define S_EACH(i) for (int i = 0; i < NKFD; i++)
S_FN int s_slot(int fd)
{
    int r = -1;
    S_EACH(i) if (fd >= 0 && r < 0 && K.fd[i].open && K.fd[i].num == fd) r = i;
    return r;
}
S_FN struct kfd s_at(int s)
{
    struct kfd r = { 0 };
    S_EACH(i) if (i == s) r = K.fd[i];
    return r;
}
S_FN int s_owned(void) { int n = 0; S_EACH(i) if (K.fd[i].open && K.fd[i].own) n++; return n; }
S_FN int s_regs(void)  { int n = 0; S_EACH(i) if (K.fd[i].open && K.fd[i].reg) n++; return n; }
S_FN _Bool s_within(const void *p, const void *o, unsigned long size)
{
#ifdef VP_CBMC
    return __CPROVER_same_object(p, o) && __CPROVER_POINTER_OFFSET(p) - __CPROVER_POINTER_OFFSET(o) < size;
#else
    return (uintptr_t)p - (uintptr_t)o < size;
#endif
}
S_FN int s_refs(const void *o, unsigned long size) { int n = 0; S_EACH(i) if (K.fd[i].open && K.fd[i].reg && s_within(K.fd[i].ptr, o, size)) n++; return n; }
S_FN _Bool s_clean(void) { return !K.bad_close && !K.foreign_close && !K.would_block && !K.null_event && !K.alien_epfd && !K.aborted; }

/* number of kernel registrations that lead to kn */
#define REFS(kn)    s_refs((kn), sizeof(struct knote))
#define SAME_ID(kn, o) ((kn)->kev.ident == (o).ident && (kn)->kev.filter == (o).filter && (kn)->kev.udata == (o).udata)
#define UD_OK(kn)   ((kn)->kn_udata.ud_type == EPOLL_UDATA_KNOTE && (kn)->kn_udata.ud_kn == (kn))
/* fd is registered for exactly `events`, and its events lead to kn */
S_FN _Bool s_watched(int fd, struct knote *kn, uint32_t events)
{
    int s = s_slot(fd);
    if (s < 0) return 0;
    return s_at(s).reg && s_at(s).ev == events && s_at(s).ptr == (void *)&kn->kn_udata && UD_OK(kn);
}

/* The contracts under which the filters call back into the common code when an
 * event is delivered (proved for the real bodies in u_knote.c). */
int knote_delete(struct filter *filt, struct knote *kn)
REQ(__CPROVER_r_ok(kn, sizeof(*kn)) && filt == FILT)
ASG(G)
FREES(kn)
ENS(-, "", G.n_delete == OLD(G.n_delete) + 1 && G.n_disable == OLD(G.n_disable))
ENS(-, "", G.flag_rv == RV && (RV == 0 || RV == -1))
;
int knote_disable(struct filter *filt, struct knote *kn)
REQ(__CPROVER_r_ok(kn, sizeof(*kn)) && filt == FILT)
ASG(G, kn->kev.flags)
ENS(-, "", G.n_disable == OLD(G.n_disable) + 1 && G.n_delete == OLD(G.n_delete))
ENS(-, "", G.flag_rv == RV && (RV == 0 || RV == -1))
ENS(-, "", kn->kev.flags == (RV == 0 ? (OLD(kn->kev.flags) | EV_DISABLE) : OLD(kn->kev.flags)))
;
#endif
