/* Shared by every harness. A harness is compiled twice: by goto-cc (VP_CBMC
 * defined; every field of IN is a symbolic variable) and by gcc for replay
 * (IN is filled from a solver counterexample).  A harness defines
 *   struct in_t { ... };  VP_INPUT;  static void vp_harness(void) {...}
 * and ends with #include "vp_main.h".  IN is never written by a harness. */
#ifndef VP_H_
#define VP_H_
#include <stddef.h>
#include <stdint.h>
#ifdef VP_CBMC
# define VP_ASSUME(c)     __CPROVER_assume(c)
# define VP_ASSERT(c, l)  __CPROVER_assert((c), "VP:" l)
# define VP_INPUT         struct in_t nondet_in_t(void); struct in_t IN
static inline void vp_rand(void *p, size_t n) {}
#else
# include <stdio.h>
# include <stdlib.h>
# include <setjmp.h>
extern int vp_search; extern jmp_buf vp_jb;
# define VP_ASSUME(c)     do { if (!(c)) { if (vp_search) longjmp(vp_jb, 1); printf("VPASSUME %s:%d %s\n", __FILE__, __LINE__, #c); fflush(stdout); _Exit(77); } } while (0)
# define VP_ASSERT(c, l)  do { if (!(c)) { printf("VPFAIL %s:%d VP:%s\n", __FILE__, __LINE__, l); fflush(stdout); _Exit(99); } } while (0)
# define VP_INPUT         struct in_t IN
static uint64_t vp_seed = 88172645463325252ULL;
static inline void vp_rand(void *p, size_t n)
{ unsigned char *q = p; while (n--) { vp_seed ^= vp_seed << 13; vp_seed ^= vp_seed >> 7; vp_seed ^= vp_seed << 17; *q++ = vp_seed >> 24; } }
#endif
#endif
