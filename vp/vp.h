/* Harness support shared by the CBMC (symbolic) and the native (replay)
 * builds of every harness.
 *
 *  - nd_*()     : a nondeterministic input.  Under CBMC it is a symbolic
 *                 value recorded in the trace; natively it is the next value
 *                 of the replay file named by $VP_REPLAY.
 *  - VP_ASSUME  : precondition (listed in evidence as an assumption).
 *  - VP_ASSERT  : the property.
 *  - VP_WITNESS : reachability witness; with -DVP_WITNESS_RUN it is an
 *                 assertion that must FAIL (vacuity guard).
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

typedef unsigned char u8;
typedef uint32_t u32;
typedef uint64_t u64;

u8 nd_u8(void);
u32 nd_u32(void);
u64 nd_u64(void);
/* 0 <= result <= max (small control values: lengths, selectors) */
unsigned nd_upto(unsigned max);
void nd_bytes(void *p, size_t n);

#ifdef VP_CBMC
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
# define VP_ASSUME(c) __CPROVER_assume(c)
# ifdef VP_WITNESS_RUN
#  define VP_ASSERT(c, m) ((void)(c))
#  define VP_WITNESS(m) __CPROVER_assert(0, "WITNESS " m)
# else
#  define VP_ASSERT(c, m) __CPROVER_assert((c), "VP " m)
#  define VP_WITNESS(m) ((void)0)
# endif
#else
void vp_fail(const char *m, const char *f, int l);
void vp_assume_fail(const char *m);
# define VP_ASSUME(c) do { if (!(c)) vp_assume_fail(#c); } while (0)
# define VP_ASSERT(c, m) do { if (!(c)) vp_fail(m, __FILE__, __LINE__); } while (0)
# define VP_WITNESS(m) ((void)0)
/* replays 8..15 (Job(muts=16)): the harness may adjust the inputs so that the
 * real functions produce the intermediate values of the counterexample, which
 * was found over uninterpreted ones; -1 in the other replays */
int vp_steer(void);
#endif

/* compare without early exit: one big equality for the solver */
static inline int vp_eq(const void *a, const void *b, size_t n)
{
    const u8 *x = a, *y = b;
    u8 d = 0;
    size_t i;
    for (i = 0; i < n; i++)
        d |= x[i] ^ y[i];
    return d == 0;
}

/* control cases: every value 0..max is unrolled, one straight-line encoding
 * per value with a constant v (all of them are asserted). */
#define VP_SPLIT(v, max) for (unsigned v = 0; v <= (unsigned)(max); v++)

void vp_main(void);
#endif
