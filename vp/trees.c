#include "env.h"
#include "trees.h"
struct trees T;
#ifdef VP_CBMC
void env_put_fds(struct fd_state *fds) { T.fds = fds; }
void env_put_kn(struct filter *filt, struct knote *kn) { T.filt = filt; T.kn = kn; }

struct fd_state *fd_st_RB_FIND(struct fd_st *h, struct fd_state *e)
{
    CHECK(h == &KQ.kq_fd_st, "[C13] the descriptor states of this kqueue are searched");
    CHECK(e->fds_fd == T.fd, "[C13] the state of the knote's own descriptor is looked up");
    return e->fds_fd == T.fd ? T.fds : NULL;
}
struct fd_state *fd_st_RB_INSERT(struct fd_st *h, struct fd_state *e)
{
    CHECK(h == &KQ.kq_fd_st && e->fds_fd == T.fd, "[C13] a new state is filed under the knote's own descriptor");
    if (T.fds) return T.fds;
    T.fds = e;
    T.n_ins++;
    return NULL;
}
struct fd_state *fd_st_RB_REMOVE(struct fd_st *h, struct fd_state *e)
{
    CHECK(h == &KQ.kq_fd_st && e == T.fds, "[C13 C16] only a filed state is removed");
    T.fds = NULL;
    T.n_rem++;
    return e;
}

struct knote *knote_index_RB_FIND(struct knote_index *h, struct knote *e)
{
    if (h != &T.filt->kf_index) return NULL;
    if (e->kev.ident == T.ident) return T.kn;
    CHECK(0, "[C03] the knote of another ident is looked up");
    return NULL;
}
struct knote *knote_index_RB_INSERT(struct knote_index *h, struct knote *e)
{
    CHECK(h == &T.filt->kf_index && e->kev.ident == T.ident, "[C03] the knote is filed under its own filter and ident");
    if (T.kn) return T.kn;
    T.kn = e;
    T.n_ins++;
    return NULL;
}
struct knote *knote_index_RB_REMOVE(struct knote_index *h, struct knote *e)
{
    CHECK(h == &T.filt->kf_index && e == T.kn, "[C03 C16] only a filed knote is removed");
    T.kn = NULL;
    T.n_rem++;
    return e;
}
/* formats a debug message; reads *ev only */
const char *epoll_event_dump(const struct epoll_event *ev) { return ev->events ? "" : ""; }
/* the witness is the only entry when a whole index is walked */
struct knote *knote_index_RB_MINMAX(struct knote_index *h, int v) { (void)v; return h == &T.filt->kf_index ? T.kn : NULL; }
struct knote *knote_index_RB_NEXT(struct knote *e) { (void)e; return NULL; }
#else
struct fd_state *fd_st_RB_FIND(struct fd_st *, struct fd_state *);
struct fd_state *fd_st_RB_INSERT(struct fd_st *, struct fd_state *);
struct knote *knote_index_RB_FIND(struct knote_index *, struct knote *);
struct knote *knote_index_RB_INSERT(struct knote_index *, struct knote *);
void env_put_fds(struct fd_state *fds) { fd_st_RB_INSERT(&KQ.kq_fd_st, fds); }
void env_put_kn(struct filter *filt, struct knote *kn) { T.filt = filt; knote_index_RB_INSERT(&filt->kf_index, kn); }
struct fd_state *s_fds(void) { struct fd_state q = { .fds_fd = T.fd }; return fd_st_RB_FIND(&KQ.kq_fd_st, &q); }
struct knote *s_kn(void) { struct knote q; q.kev.ident = T.ident; return knote_index_RB_FIND(&T.filt->kf_index, &q); }
#endif
