/* Common vocabulary of the contract harnesses.
 *
 * A harness is read twice from the same text:
 *  - by goto-cc (__CPROVER): inputs are arbitrary, VP_ASSERT are proof
 *    obligations, VP_REQUIRES/ENSURES/ASSIGNS are code contracts which
 *    goto-instrument --dfcc enforces on the real function;
 *  - by gcc/clang: inputs come from a replay file, so that a counterexample
 *    of the verifier is executed against the real code.
 */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifdef VP_CPROVER
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) __CPROVER_assert(c, "VP: " msg)
/* reachability: the verifier must find a state here in which c holds */
#define VP_COVER(c, msg) __CPROVER_assert(!(c), "VPCOVER: " msg)
#define VP_REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define VP_ENSURES(...) __CPROVER_ensures(__VA_ARGS__)
#define VP_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VP_INPUT(T, name) \
  static T name;          \
  static void vp_havoc_##name(void) { T vp_tmp; name = vp_tmp; }
#define VP_TAKE(name) vp_havoc_##name()
#else
#include <stdio.h>
#include <stdlib.h>
#include <setjmp.h>
extern jmp_buf vp_jmp;
extern int vp_searching;
void vp_assume_failed(void);
void vp_assert_failed(const char *msg);
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(); } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) vp_assert_failed(msg); } while (0)
#define VP_COVER(c, msg) do { (void)(c); } while (0)
#define VP_REQUIRES(...)
#define VP_ENSURES(...)
#define VP_ASSIGNS(...)
void vp_register(void *p, size_t n);
#define VP_INPUT(T, name)                                      \
  static T name;                                               \
  __attribute__((constructor)) static void vp_reg_##name(void) { \
    vp_register(&name, sizeof(name));                          \
  }
#define VP_TAKE(name) ((void)0)
#endif

#endif
