/* Dual-mode support for the contract harnesses.
 *
 * Under goto-cc (VF_CBMC) a harness states contracts on the real functions of /repo, which it takes
 * in by including the .c files themselves.  Under gcc/clang (VF_REPLAY) the same harness is an
 * ordinary program that re-executes the verifier's counterexample on the same real code.
 *
 * Every nondeterministic choice of a harness is a field of the one global struct IN. */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_CBMC
#define VF_REQUIRES(c) __CPROVER_requires(c)
#define VF_ENSURES(c) __CPROVER_ensures(c)
#define VF_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VF_FREES(...) __CPROVER_frees(__VA_ARGS__)
#define VF_RET __CPROVER_return_value
#define VF_OLD(x) __CPROVER_old(x)
#define VF_WHOLE(p) __CPROVER_object_whole(p)
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_CHECK(c, id) __CPROVER_assert((c), "VF:" id)
/* A path that must be reachable: the obligation has to FAIL, or the contract is vacuous. */
#define VF_REACH(c, id) __CPROVER_assert(!(c), "VFREACH:" id)
#define VF_INPUT()                                                                                 \
  do {                                                                                             \
    struct vf_in vf_nondet_in;                                                                     \
    IN = vf_nondet_in;                                                                             \
  } while (0)
#else
#include <unistd.h>
#define VF_REQUIRES(c)
#define VF_ENSURES(c)
#define VF_ASSIGNS(...)
#define VF_FREES(...)
#define VF_ASSUME(c)                                                                               \
  do {                                                                                             \
    if (!(c)) {                                                                                    \
      fprintf(stderr, "VF-INFEASIBLE: %s\n", #c);                                                  \
      _exit(77);                                                                                   \
    }                                                                                              \
  } while (0)
#define VF_CHECK(c, id)                                                                            \
  do {                                                                                             \
    if (!(c)) {                                                                                    \
      fprintf(stderr, "VF-FAIL: %s\n", id);                                                        \
      _exit(99);                                                                                   \
    }                                                                                              \
  } while (0)
#define VF_REACH(c, id)                                                                            \
  do {                                                                                             \
  } while (0)
void
vf_load(void);
#define VF_INPUT() vf_load()
#endif

#endif
