/* Ghost trees: the red-black trees seen through one witness key each.  The
 * units that say STUB link these instead of the bodies RB_GENERATE makes; the
 * native replay uses the real trees.  (The bodies are checked in u_rbtree.c.) */
#ifndef VP_TREES_H
#define VP_TREES_H
struct trees {
    int              fd;      /* witness descriptor of kq_fd_st ...            */
    struct fd_state *fds;     /* ... and its entry                             */
    struct filter   *filt;    /* filter whose index is observed                */
    uintptr_t        ident;   /* witness ident of its knote index ...          */
    struct knote    *kn;      /* ... and its entry                             */
    unsigned         n_ins, n_rem;
};
extern struct trees T;
void env_put_fds(struct fd_state *fds);
void env_put_kn(struct filter *filt, struct knote *kn);
#ifdef VP_CBMC
#define s_fds()   (T.fds)
#define s_kn()    (T.kn)
#else
struct fd_state *s_fds(void);
struct knote *s_kn(void);
#endif
#endif
