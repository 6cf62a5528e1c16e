#include "env.h"
struct ghost  G;
struct snapshot O;
struct kqueue KQ;
struct filter *FILT;
struct knote  *KN;

int env_fd(int kind, _Bool own)
{
    int s = k_new_fd(kind);
    AT(s) kF.own = own;
    return s;
}

void env_kernel(void)
{
    K = (struct kernel){ 0 };
    K.err = ND_INT(errno0);
    K.alloc_may_fail = 1;
    K.syscalls_may_fail = ND_BOOL(exhaustion);
    K.pid_gone = ND_BOOL(pid_gone);
    K.pipe_fd[0] = K.pipe_fd[1] = -1;
    K.cancel_state = PTHREAD_CANCEL_DISABLE;
    K.fcntl_fail_at = -1;
    int e = env_fd(KF_EPOLL, 1);
    K.epfd = s_at(e).num;
    /* a descriptor of the application the library has no business with */
    int f = env_fd(KF_ANON, 0);
    AT(f) kF.reg = 0;
}

void env_kq(const struct filter *f)
{
    KQ = (struct kqueue){ 0 };
    G = (struct ghost){ 0 };
    KQ.epollfd = K.epfd;
    KQ.kq_mtx.mtx_status = MTX_LOCKED;
    KQ.kq_mtx.mtx_owner = THREAD_ID;
    FILT = &KQ.kq_filt[~f->kf_id];
    *FILT = *f;
    FILT->kf_kqueue = &KQ;
    RB_INIT(&FILT->kf_index);
    RB_INIT(&KQ.kq_fd_st);
    G.n_delete = G.n_disable = G.n_other = 0;
    G.flag_rv = 0;
}

struct knote *env_knote(const struct filter *f)
{
    struct knote *kn = (calloc)(1, sizeof(*kn));
    ASSUME(kn != NULL);
    K.nalloc++;
    kn->kn_ref = 1;
    kn->kn_kq = &KQ;
    kn->kev.filter = f->kf_id;
    kn->kev.ident = ND_ULONG(kn_ident);
    kn->kev.flags = ND_USHORT(kn_flags);
    kn->kev.fflags = ND_UINT(kn_fflags);
    kn->kev.data = ND_LONG(kn_data);
    kn->kev.udata = (void *)ND_ULONG(kn_udata);
    ASSUME(!(kn->kev.flags & (EV_EOF | EV_ERROR)));
    ASSUME(!((kn->kev.flags & EV_ONESHOT) && (kn->kev.flags & EV_DISPATCH)));
    KN = kn;
    return kn;
}


void env_snap(struct knote *kn, int fd)
{
    int s = k_slot(fd);
    O.owned = k_owned();
    O.regs = k_regs();
    O.nalloc = K.nalloc;
    O.cnt = s < 0 ? 0 : s_at(s).cnt;
    if (kn) { O.kev = kn->kev; O.kn = *kn; }
}

#ifdef VP_NATIVE
/* what a unit leaves undefined */
__attribute__((weak)) tracing_mutex_t kq_mtx;
__attribute__((weak)) struct kqueue_head kq_list;
__attribute__((weak)) unsigned int kq_cnt;
__attribute__((weak)) bool libkqueue_debug, libkqueue_thread_safe, libkqueue_fork_cleanup, libkqueue_fork_cleanup_active;
/* the contracts of env.h, for the native replay (linked with --wrap where a job replaces them) */
int __wrap_knote_delete(struct filter *filt, struct knote *kn)
{
    (void)filt;
    if (kn != KN) G.n_other++; else G.n_delete++;
    G.flag_rv = ND_BOOL(delete_rv) ? -1 : 0;
    return G.flag_rv;
}
int __wrap_knote_disable(struct filter *filt, struct knote *kn)
{
    (void)filt;
    if (kn != KN) G.n_other++; else G.n_disable++;
    G.flag_rv = ND_BOOL(disable_rv) ? -1 : 0;
    if (G.flag_rv == 0) kn->kev.flags |= EV_DISABLE;
    return G.flag_rv;
}
const char *__wrap_epoll_event_dump(const struct epoll_event *ev) { (void)ev; return ""; }
#endif
