/*
 * Classification of descriptors (linux_get_descriptor_type in src/linux/platform.c).
 *
 * SRC: linux/platform.c common/knote.c linux/read.c common/filter.c common/kqueue.c common/map.c common/debug.c
 * STUB: fds knote dump
 * JOB dtype MAIN=main_dtype ENFORCE=vp_dtype
 * DEFAULT: C22
 */
#include "env.h"
#include "trees.h"
extern int linux_get_descriptor_type(struct knote *kn);

/* what the kernel says the descriptor is */
static int d_kind(int fd) { int s = s_slot(fd); return s < 0 ? KF_NONE : s_at(s).kind; }
static unsigned d_socket(int t)
{
    return t == SOCK_STREAM ? KNFL_SOCKET_STREAM : t == SOCK_DGRAM ? KNFL_SOCKET_DGRAM : t == SOCK_RDM ? KNFL_SOCKET_RDM :
           t == SOCK_SEQPACKET ? KNFL_SOCKET_SEQPACKET : t == SOCK_RAW ? KNFL_SOCKET_RAW : 0;
}
#define GONE(fd)     (s_slot(fd) < 0 || K.fstat_fails)
/* the options that cannot be read for another reason than not being there */
#define HARD(f)      ((f) && K.sock_opt_err != ENOTSOCK)
#define SOCK_BAD     (K.sock_type_fails || d_socket(K.sock_type) == 0 || HARD(K.sock_listen_fails) || HARD(K.sock_filter_fails))
#define PASSIVE      ((!K.sock_listen_fails && K.sock_listen) || (!K.sock_filter_fails && K.sock_filter_len))
static _Bool d_ok(int fd)
{
    if (GONE(fd)) return 0;
    switch (d_kind(fd)) {
    case KF_DIR:  return 0;
    case KF_SOCK: return !SOCK_BAD;
    default:      return 1;
    }
}
static unsigned d_flags(int fd)
{
    switch (d_kind(fd)) {
    case KF_REG:  return KNFL_FILE;
    case KF_PIPE: return KNFL_PIPE;
    case KF_BLK:  return KNFL_BLOCKDEV;
    case KF_CHR:  return KNFL_CHARDEV;
    case KF_SOCK: return d_socket(K.sock_type) | (PASSIVE ? KNFL_SOCKET_PASSIVE : 0);
    default:      return KNFL_SOCKET | KNFL_SOCKET_PASSIVE;
    }
}
static struct kfd FD0;

int vp_dtype(struct knote *kn)
REQ(kn == KN && kn->kn_flags == 0 && PRE(kn))
ASG(K, *kn)
ENS(C22, "a closed descriptor and one of no supported type are refused, every other is accepted", RV == (d_ok((int)kn->kev.ident) ? 0 : -1))
ENS(C22 C12, "the classification says what the descriptor is", IMP(RV == 0, kn->kn_flags == d_flags((int)kn->kev.ident)))
ENS(C22 C06, "nothing else of the registration changes", SAME_ID(kn, O.kev) && kn->kev.flags == O.kev.flags && kn->kev.fflags == O.kev.fflags && kn->kev.data == O.kev.data)
ENS(C22 C16, "nothing about the descriptor or the process changes", s_owned() == O.owned && s_regs() == O.regs && s_clean() && K.nalloc == O.nalloc)
ENS(C22, "the descriptor keeps its mode", IMP(s_slot((int)kn->kev.ident) >= 0, s_at(s_slot((int)kn->kev.ident)).nonblock == FD0.nonblock && s_at(s_slot((int)kn->kev.ident)).cloexec == FD0.cloexec && s_at(s_slot((int)kn->kev.ident)).cnt == FD0.cnt))
{ return linux_get_descriptor_type(kn); }

void main_dtype(void)
{
    env_kernel();
    env_kq(&evfilt_read);
    struct knote *kn = env_knote(&evfilt_read);
    int kind = ND_INT(kind);
    ASSUME(kind >= KF_REG && kind <= KF_PIDFD);
    if (ND_BOOL(is_open)) {
        int s = env_fd(kind, 0);
        kn->kev.ident = s_at(s).num;
        AT(s) {
            kF.nonblock = ND_BOOL(nonblock);
            kF.cloexec = ND_BOOL(cloexec);
            kF.cnt = ND_ULONG(cnt);
        }
    }
    K.fstat_fails = ND_BOOL(fstat_fails);
    K.fstat_err = ND_INT(fstat_err);
    K.sock_type = ND_INT(sock_type);
    K.sock_type_fails = ND_BOOL(sock_type_fails);
    K.sock_listen = ND_BOOL(sock_listen);
    K.sock_listen_fails = ND_BOOL(sock_listen_fails);
    K.sock_filter_len = ND_UINT(filter_len);
    K.sock_filter_fails = ND_BOOL(filter_fails);
    K.sock_opt_err = ND_INT(opt_err);
    ASSUME(K.sock_opt_err > 0);
    ASSUME(s_slot((int)kn->kev.ident) < 0 || d_kind((int)kn->kev.ident) == kind);
    FD0 = s_at(s_slot((int)kn->kev.ident));
    env_snap(kn, (int)kn->kev.ident);
    vp_dtype(kn);
    REACH("dtype");
}
