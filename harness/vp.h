/* Common harness interface: the same harness source is encoded symbolically
 * (goto-cc / cbmc) and compiled natively (gcc -fsanitize=address) for replay. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* Every symbolic value of a harness lives in the global IN. */
#define VP_INPUTS struct vp_in

#ifdef VP_SYM
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "check: " msg)
#define COVER(msg) __CPROVER_assert(0, "cover: " msg)
extern int vp_noalloc;
#define VP_NOALLOC() (vp_noalloc = 1)
extern unsigned long vp_opaque_lo, vp_opaque_hi;
#define VP_OPAQUE(lo, hi) (vp_opaque_lo = (lo), vp_opaque_hi = (hi))
#else
#define VP_NOALLOC() ((void)0)
#define VP_OPAQUE(lo, hi) ((void)0)
#define ASSUME(c) do { if(!(c)) { printf("VP-ASSUME-FALSE %s:%d %s\n", __FILE__, __LINE__, #c); fflush(stdout); exit(70); } } while(0)
#define CHECK(c, msg) do { if(!(c)) { printf("VP-CHECK-FAILED %s\n", msg); fflush(stdout); exit(71); } } while(0)
#define COVER(msg) do { printf("VP-COVER %s\n", msg); fflush(stdout); } while(0)
#endif
#endif
