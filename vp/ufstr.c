/* Streebog: compression function and 512-bit addition as uninterpreted
 * functions of their operands (their exactness is P04) */
#include "vp.h"
#define U(i) u64 __CPROVER_uninterpreted_sg##i(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64); \
u64 __CPROVER_uninterpreted_sa##i(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7)
#define W(p) p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]
typedef union { u64 q[8]; u8 b[64]; } w512;
void g(w512 *hp, const w512 *np, const w512 *mp)
{
    const u64 *h = hp->q, *n = np->q, *m = mp->q;
    u64 r[8]; int i;
#define G(i) r[i] = __CPROVER_uninterpreted_sg##i(W(h), W(n), W(m));
    G(0) G(1) G(2) G(3) G(4) G(5) G(6) G(7)
    for (i = 0; i < 8; i++) hp->q[i] = r[i];
}
void add512(w512 *xp, const w512 *yp)
{
    u64 r[8]; int i; const u64 *x = xp->q, *y = yp->q;
#define A(i) r[i] = __CPROVER_uninterpreted_sa##i(W(x), W(y));
    A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7)
    for (i = 0; i < 8; i++) xp->q[i] = r[i];
}
