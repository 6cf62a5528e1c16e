/*
 * Verification shim, force-included (-include) in front of every libkqueue
 * source file and of every harness.  It changes NO libkqueue source line: it
 * only redirects the libc/kernel entry points the library calls to the assumed
 * contracts of kernel.c, and turns the debug tracing off.
 *
 * What is dropped from the verified text (all of it listed in evidence):
 *   - dbg_puts/dbg_printf/dbg_perror expand to nothing (same as the library
 *     running with libkqueue_debug == false, its default);
 *   - THREAD_ID is the constant thread id of the one thread being verified;
 *   - pthread_cleanup_push/pop are replaced by a ghost handler stack with the
 *     same semantics (glibc's need setjmp);
 *   - errno is the ghost variable K.err;
 *   - atomic_inc/dec/cas/swap/load are replaced by their sequential meaning.
 */
#ifndef VP_H
#define VP_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <linux/sockios.h>

#include "private.h"

#undef dbg_puts
#undef dbg_printf
#undef dbg_perror
#define dbg_puts(...)   do { } while (0)
#define dbg_printf(...) do { } while (0)
#define dbg_perror(...) do { } while (0)
#undef reset_errno

#undef THREAD_ID
#define THREAD_ID 77

#undef atomic_inc
#undef atomic_dec
#undef atomic_cas
#undef atomic_ptr_cas
#undef atomic_ptr_swap
#undef atomic_ptr_load
#define atomic_inc(p) vp_atomic_add((unsigned int *)(p), 1u)
#define atomic_dec(p) vp_atomic_add((unsigned int *)(p), -1u)
#define atomic_ptr_cas(p, o, n)  vp_atomic_cas((uintptr_t *)(p), (uintptr_t)(o), (uintptr_t)(n))
#define atomic_ptr_swap(p, n)    vp_atomic_swap((uintptr_t *)(p), (uintptr_t)(n))
#define atomic_ptr_load(p)       (*(uintptr_t *)(p))
static inline unsigned int vp_atomic_add(unsigned int *p, unsigned int d) { *p = *p + d; return *p; }
static inline bool vp_atomic_cas(uintptr_t *p, uintptr_t o, uintptr_t n) { if (*p == o) { *p = n; return true; } return false; }
static inline uintptr_t vp_atomic_swap(uintptr_t *p, uintptr_t n) { uintptr_t o = *p; *p = n; return o; }

#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(f, a) { k_cleanup_push((f), (a));
#define pthread_cleanup_pop(x)       k_cleanup_pop(x); }

#include "kernel.h"

#undef errno
#define errno (K.err)

/* ---- libc / kernel entry points used by the library ---- */
#define abort             k_abort
#define calloc            k_calloc
#define malloc            k_malloc
#define free              k_free
#undef  strdup
#define strdup            k_strdup
#define close             k_close
#define read              k_read
#define write             k_write
#define lseek             k_lseek
#define fstat             k_fstat
#undef fcntl
#define fcntl(fd, cmd, ...)  k_fcntl((fd), (cmd), (long)(VP_FIRST(__VA_ARGS__ __VA_OPT__(,) 0)), 0)
#define VP_FIRST(a, ...) (a)
#define ioctl(fd, req, arg)  k_ioctl((fd), (req), (arg))
#define syscall(...)         k_syscall_(__VA_ARGS__, 0, 0, 0)
#define k_syscall_(n, a, b, ...) k_syscall((long)(n), (long)(a), (long)(b))
#define getsockopt        k_getsockopt
#define eventfd(c, f)     k_eventfd((c), (f))
#define eventfd_write(fd, v) k_eventfd_write((fd), (v))
#define epoll_create1     k_epoll_create1
#define epoll_ctl         k_epoll_ctl
#define epoll_wait        k_epoll_wait
#define ppoll             k_ppoll
#define pselect           k_pselect
#define pipe2             k_pipe2
#define pipe(p)           k_pipe(p)
#define poll(a, b, c)     k_poll((a), (b), (c))
#define epoll_pwait       k_epoll_pwait
#define epoll_create(n)   k_epoll_create(n)
#define eventfd_read(fd, v) k_eventfd_read((fd), (v))
#define recv(a, b, c, d)  k_recv((a), (b), (c), (d))
#define setsockopt        k_setsockopt
#define timerfd_gettime   k_timerfd_gettime
#define inotify_init()    k_inotify_init()
#define waitpid           k_waitpid
#define timerfd_create    k_timerfd_create
#define timerfd_settime   k_timerfd_settime
#define inotify_init1     k_inotify_init1
#define inotify_add_watch k_inotify_add_watch
#define inotify_rm_watch  k_inotify_rm_watch
#define signalfd(a, b, c) k_signalfd((a), (b), (c))
#define sigprocmask       k_sigprocmask
#define pthread_sigmask   k_sigprocmask
#undef sigemptyset
#undef sigaddset
#undef sigfillset
#undef sigdelset
#undef sigismember
#define sigdelset         k_sigdelset
#define sigismember       k_sigismember
#define sigemptyset       k_sigemptyset
#define sigaddset         k_sigaddset
#define sigfillset        k_sigfillset
#define sigwaitinfo       k_sigwaitinfo
#define waitid            k_waitid
#define readlink          k_readlink
#undef snprintf
#define snprintf(b, n, f, ...) k_snprintf((b), (n), (f), (long)(VP_LAST(__VA_ARGS__)))
#define VP_LAST(...)      VP_LAST_(__VA_ARGS__ __VA_OPT__(,) VP_L9, VP_L8, VP_L7, VP_L6, VP_L5, VP_L4, VP_L3, VP_L2, VP_L1, 0)(__VA_ARGS__)
#define VP_LAST_(a, b, c, d, e, f, g, h, i, n, ...) n
#define VP_L1(a) a
#define VP_L2(a, b) b
#define VP_L3(a, b, c) c
#define VP_L4(a, b, c, d) d
#define VP_L5(a, b, c, d, e) e
#define VP_L6(a, b, c, d, e, f) f
#define VP_L7(a, b, c, d, e, f, g) g
#define VP_L8(a, b, c, d, e, f, g, h) h
#define VP_L9(a, b, c, d, e, f, g, h, i) i
#define getpid            k_getpid
#define getrlimit         k_getrlimit
#define getenv            k_getenv
#define prctl(...)        (0)
#define atexit            k_atexit
#define mmap              k_mmap
#undef pthread_equal
#define pthread_mutex_init      k_mutex_init
#define pthread_mutex_destroy   k_mutex_destroy
#define pthread_mutex_lock      k_mutex_lock
#define pthread_mutex_unlock    k_mutex_unlock
#define pthread_mutex_trylock   k_mutex_trylock
#define pthread_setcancelstate  k_setcancelstate
#define pthread_testcancel      k_testcancel
#define pthread_once            k_once
#define pthread_atfork          k_atfork
#define pthread_create          k_pthread_create
#define pthread_cond_wait       k_cond_wait
#define pthread_cond_signal     k_cond_signal
#define pthread_cond_broadcast  k_cond_signal
#define pthread_detach          k_pthread_detach
#define pthread_self            k_pthread_self
#define pthread_cancel          k_pthread_cancel
#define pthread_join            k_pthread_join
#endif
