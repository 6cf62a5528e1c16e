/*
 * The table of kqueues (src/common/map.c): every operation, for any size of the
 * table, any index and any content.
 *
 * SRC: common/map.c
 * JOB new     MAIN=main_new ENFORCE=vp_new
 * JOB insert  MAIN=main_insert ENFORCE=vp_insert SOLVER=smt
 * JOB remove  MAIN=main_remove ENFORCE=vp_remove SOLVER=smt
 * JOB replace MAIN=main_replace ENFORCE=vp_replace SOLVER=smt
 * JOB lookup  MAIN=main_lookup ENFORCE=vp_lookup SOLVER=smt
 * JOB delete  MAIN=main_delete ENFORCE=vp_delete SOLVER=smt
 * DEFAULT: C17
 */
#include "env.h"

#ifdef VP_CBMC
#define CELLS 0x7fffffffUL   /* every index an int can name */
#else
#define CELLS 64UL
#endif
uintptr_t *CELL;             /* LEN cells */
size_t LEN, MAPPED;
_Bool NOMAP;
unsigned NMAP;
struct map *M;
void *k_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
    (void)a; (void)fd; (void)off;
    CHECK((prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) && (flags & MAP_ANON), "[C17] the table is readable, writable and empty");
    MAPPED = len;
    NMAP++;
    if (NOMAP) { K.err = ENOMEM; return MAP_FAILED; }
    return CELL;
}
static _Bool in(int i) { return i >= 0 && (size_t)i < LEN; }
int W;                       /* an arbitrary cell */
uintptr_t W0, I0;            /* and what it and the one operated on held before */
static void *P(uintptr_t v) { return (void *)v; }

struct map *vp_new(size_t len)
REQ(len == LEN && NMAP == 0)
ASG(K, MAPPED, NMAP)
ENS(C17, "it fails only if memory does, and leaves nothing behind", IMP(RV == NULL, (NOMAP || K.alloc_may_fail) && K.nalloc == O.nalloc))
ENS(C17 C16, "the table has as many cells as asked for", IMP(RV != NULL, NMAP == 1 && MAPPED >= LEN * sizeof(uintptr_t) && K.nalloc == O.nalloc + 1 && !NOMAP))
{ return map_new(len); }

int vp_insert(struct map *m, int idx, void *ptr)
REQ(m == M && in(W))
ASG(K, __CPROVER_object_whole(CELL))
ENS(C17 C16, "an index outside the table is refused", IMP(!in(idx), RV == -1))
ENS(C17, "a free cell is taken, an occupied one is refused", IMP(in(idx), RV == (I0 == 0 ? 0 : -1) && CELL[idx] == (I0 == 0 ? (uintptr_t)ptr : I0)))
ENS(C17, "no other cell changes", IMP(W != idx, CELL[W] == W0))
{ return map_insert(m, idx, ptr); }

int vp_remove(struct map *m, int idx, void *ptr)
REQ(m == M && in(W))
ASG(K, __CPROVER_object_whole(CELL))
ENS(C17 C16, "an index outside the table is refused", IMP(!in(idx), RV == -1))
ENS(C17, "a cell is emptied if it holds what the caller names", IMP(in(idx), RV == (I0 == (uintptr_t)ptr ? 0 : -1) && CELL[idx] == (I0 == (uintptr_t)ptr ? 0 : I0)))
ENS(C17, "no other cell changes", IMP(W != idx, CELL[W] == W0))
{ return map_remove(m, idx, ptr); }

int vp_replace(struct map *m, int idx, void *oldp, void *newp)
REQ(m == M && in(W))
ASG(K, __CPROVER_object_whole(CELL))
ENS(C17 C16, "an index outside the table is refused", IMP(!in(idx), RV == -1))
ENS(C17, "a cell is replaced if it holds what the caller names", IMP(in(idx), RV == (I0 == (uintptr_t)oldp ? 0 : -1) && CELL[idx] == (I0 == (uintptr_t)oldp ? (uintptr_t)newp : I0)))
ENS(C17, "no other cell changes", IMP(W != idx, CELL[W] == W0))
{ return map_replace(m, idx, oldp, newp); }

void *vp_lookup(struct map *m, int idx)
REQ(m == M && in(W))
ASG(K)
ENS(C17 C16, "an index outside the table is not found", IMP(!in(idx), RV == NULL))
ENS(C17, "a cell is found as it was left", IMP(in(idx), (uintptr_t)RV == I0))
ENS(C17, "looking up changes nothing", CELL[W] == W0)
{ return map_lookup(m, idx); }

void *vp_delete(struct map *m, int idx)
REQ(m == M && in(W))
ASG(K, __CPROVER_object_whole(CELL))
ENS(C17 C16, "an index outside the table is not found", IMP(!in(idx), RV == NULL))
ENS(C17, "a cell is emptied and its content returned", IMP(in(idx), (uintptr_t)RV == I0 && CELL[idx] == 0))
ENS(C17, "no other cell changes", IMP(W != idx, CELL[W] == W0))
{ return map_delete(m, idx); }

static void table(void)
{
    env_kernel();
    LEN = ND_ULONG(len);
    ASSUME(LEN >= 1 && LEN <= CELLS);
    K.alloc_may_fail = 0;
    NOMAP = 0;
    NMAP = 0;
    CELL = malloc(LEN * sizeof(uintptr_t));   /* with any content */
    ASSUME(CELL != NULL);
    M = map_new(LEN);
    ASSUME(M != NULL);
#ifndef VP_CBMC
    for (size_t i = 0; i < LEN; i++) CELL[i] = i & 1 ? (uintptr_t)ND_ULONG(cell) : 0;
#endif
    W = ND_INT(witness);
    ASSUME(in(W));
    W0 = CELL[W];
}
static int pick(void)
{
    int i = ND_INT(idx);
    I0 = in(i) ? CELL[i] : 0;
    return i;
}
void main_new(void)
{
    env_kernel();
    LEN = ND_ULONG(len);
    ASSUME(LEN <= 0x7fffffff);
    NOMAP = ND_BOOL(no_memory);
    NMAP = 0;
    env_snap(NULL, -1);
    vp_new(LEN);
    REACH("new");
}
void main_insert(void)  { table(); int i = pick(); vp_insert(M, i, P(ND_ULONG(ptr))); REACH("insert"); }
void main_remove(void)  { table(); int i = pick(); vp_remove(M, i, P(ND_ULONG(ptr))); REACH("remove"); }
void main_replace(void) { table(); int i = pick(); vp_replace(M, i, P(ND_ULONG(ptr)), P(ND_ULONG(newp))); REACH("replace"); }
void main_lookup(void)  { table(); int i = pick(); vp_lookup(M, i); REACH("lookup"); }
void main_delete(void)  { table(); int i = pick(); vp_delete(M, i); REACH("delete"); }
