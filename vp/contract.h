/*
 * Contract vocabulary.  Under goto-cc the clauses are CBMC code contracts; in a
 * native replay build run.py turns the clauses of the enforced function into
 * run-time checks around the call (see run.py, class Native).
 *
 *   ENS(props, label, expr)  postcondition; `props` names the properties it decides
 */
#ifndef VP_CONTRACT_H
#define VP_CONTRACT_H
#ifdef VP_CBMC
#define REQ(...)              __CPROVER_requires(__VA_ARGS__)
#define ASG(...)              __CPROVER_assigns(__VA_ARGS__)
#define FREES(...)            __CPROVER_frees(__VA_ARGS__)
#define ENS(props, label, ...) __CPROVER_ensures(__VA_ARGS__)
#define OLD(...)              __CPROVER_old(__VA_ARGS__)
#define RV                    __CPROVER_return_value
#define REACH(label)          __CPROVER_assert(0, "REACH " label)
#else
#define REQ(...)
#define ASG(...)
#define FREES(...)
#define ENS(props, label, ...)
#define RV                    vp_rv
#define REACH(label)          do { } while (0)
#endif
#define IMP(a, b)             (!(a) || (b))
#endif
