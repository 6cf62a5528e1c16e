/* Native replay driver: prog VALUES SEED TRIALS
 * TRIALS == 0: one run with the given values (by tag, in order), else random. */
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/wait.h>
static struct { char tag[48]; unsigned long v; int used; } V[4096];
static int nv;
static uint64_t rng;
static int record = 0;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
unsigned long nd_native(const char *tag, int bits)
{
    unsigned long r;
    for (int i = 0; i < nv; i++)
        if (!V[i].used && !strcmp(V[i].tag, tag)) { V[i].used = 1; r = V[i].v; goto out; }
    /* what the harnesses narrow down to a few values */
    static const char *const few[] = { "newfd", "nevents", "nready", "which_is_shared", "what", "nchanges" };
    for (unsigned i = 0; i < sizeof(few) / sizeof(*few); i++)
        if (!strcmp(few[i], tag) && rnd() % 8) { r = rnd() % (i ? 5 : 16); goto out; }
    switch (rnd() % 8) {
    case 0: r = 0; break;
    case 1: r = 1; break;
    case 2: r = -1UL; break;
    case 3: r = rnd() % 16; break;
    case 4: r = rnd() % 1024; break;
    case 5: r = 1UL << (rnd() % 64); break;
    case 6: r = rnd() & 0xffffffff; break;
    default: r = rnd(); break;
    }
    if (bits < 64) r &= (1UL << bits) - 1;
out:
    if (record) fprintf(stderr, "  input %s = %ld (0x%lx)\n", tag, (long)r, r);
    return r;
}
void vp_discard(void) { _exit(42); }
void vp_fail(const char *msg) { fprintf(stderr, "FAILED CHECK: %s\n", msg); fflush(stderr); _exit(1); }
void VP_MAIN(void);
static int trial(void)
{
    pid_t p = fork();
    if (p == 0) { if (!record) { freopen("/dev/null", "w", stderr); } alarm(record ? 100 : 5); VP_MAIN(); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? 0 : 99;
    return WEXITSTATUS(st);
}
int main(int argc, char **argv)
{
    unsigned long seed = strtoul(argv[2], 0, 10); int trials = atoi(argv[3]);
    FILE *f = fopen(argv[1], "r");
    while (f && nv < 4096 && fscanf(f, "%47s %lu", V[nv].tag, &V[nv].v) == 2) nv++;
    if (trials == 0) { record = 1; rng = seed * 2654435761u + 88172645463325252ull; int r = trial(); printf("exit status %d\n", r); return r == 1 || r == 99 ? r : r == 42 ? 42 : 0; }
    int ran = 0;
    for (int i = 0; i < trials; i++) {
        uint64_t s0 = (seed * 1000003u + i) * 2654435761u + 88172645463325252ull;
        rng = s0;
        int r = trial();
        if (r == 0) ran++;
        if (r == 1 || r == 99) { rng = s0; record = 1; r = trial(); printf("trial %d: exit status %d\n", i, r); return r; }
    }
    printf("%d trials, %d satisfied the precondition, none failed\n", trials, ran);
    return 0;
}
/* defined by the units that care */
__attribute__((weak)) int k_cond_signal(void *c) { (void)c; return 0; }
__attribute__((weak)) int k_cond_wait(void *c, void *m) { (void)c; (void)m; return 0; }
__attribute__((weak)) int k_pthread_detach(unsigned long t) { (void)t; return 0; }
__attribute__((weak)) int k_pthread_cancel(unsigned long t) { (void)t; return 0; }
__attribute__((weak)) int k_pthread_join(unsigned long t, void **rv) { (void)t; (void)rv; return 0; }
__attribute__((weak)) int k_pthread_create(unsigned long *t, const void *a, void *(*f)(void *), void *x) { (void)t; (void)a; (void)f; (void)x; return 0; }
