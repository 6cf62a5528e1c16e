/*
 * Waiting (kqops.kevent_wait in src/linux/platform.c): conversion of the timeout.
 *
 * SRC: linux/platform.c
 * STUB: fds dump
 * JOB wait MAIN=main_wait ENFORCE=vp_wait WEIGHT=20
 * DEFAULT: C15
 */
#include "env.h"
#include "trees.h"
static const struct filter any_filter = { .kf_id = EVFILT_USER };
struct timespec TS;
long MS, SUB;       /* TS.tv_nsec in milliseconds and the rest */
_Bool FOREVER;
#define POLLED  (K.ppoll_calls == 1 && !K.ppoll_null)

int vp_wait(struct kqueue *kq, int n, const struct timespec *ts)
REQ(kq == &KQ && n >= 1 && n <= MAX_KEVENT && K.wait_calls == 0 && K.ppoll_calls == 0 && ts == (FOREVER ? NULL : &TS))
ASG(K)
ENS(C15, "it waits on the kqueue, once", K.wait_calls <= 1 && K.ppoll_calls <= 1 && K.wait_calls + K.ppoll_calls >= 1 && IMP(K.wait_calls, K.wait_on_epfd) && IMP(K.ppoll_calls, K.ppoll_on_epfd))
ENS(C15, "without a timeout the wait is unbounded", IMP(FOREVER, K.wait_calls == 1 ? (K.wait_timeout == -1 || (K.ppoll_calls == 1 && K.ppoll_null)) : K.ppoll_null && K.ppoll_ret <= 0))
ENS(C15, "otherwise it is bounded by exactly the time given", IMP(!FOREVER, POLLED ? K.ppoll_sec == TS.tv_sec && K.ppoll_nsec == TS.tv_nsec : SUB == 0 && TS.tv_sec >= 0 && TS.tv_sec < 2147484 && K.wait_timeout >= 0 && (long)K.wait_timeout == TS.tv_sec * 1000 + MS))
ENS(C15, "after a high-resolution wait nothing blocks any more", IMP(K.ppoll_calls && K.wait_calls, K.wait_timeout == 0))
ENS(C15 C02, "no more events than asked for are fetched", IMP(K.wait_calls, K.wait_max == n) && RV <= n)
ENS(C15, "the events found are fetched", IMP(K.ppoll_calls && K.ppoll_ret > 0, K.wait_calls == 1))
ENS(C15, "a timeout yields 0, a failure -1 with its error", RV == (K.wait_calls ? K.wait_ret : K.ppoll_ret) && IMP(RV < 0, K.err == EINTR || K.err == EINVAL))
{ return kqops.kevent_wait(kq, n, ts); }

void main_wait(void)
{
    env_kernel();
    env_kq(&any_filter);
    FOREVER = ND_BOOL(forever);
    MS = ND_LONG(ts_ms);
    SUB = ND_LONG(ts_sub);
    ASSUME(MS >= 0 && MS < 1000 && SUB >= 0 && SUB < 1000000);
    TS.tv_sec = ND_LONG(ts_sec);
    TS.tv_nsec = MS * 1000000 + SUB;
    vp_wait(&KQ, ND_INT(nevents), FOREVER ? NULL : &TS);
    REACH("wait");
}
