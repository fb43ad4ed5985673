/* GOST R 34.11-94: step function as uninterpreted functions of (H, M) and the
 * loaded substitution set (its exactness is a separate obligation) */
#include "vp.h"
#include "gost89.h"
#define U(i) u64 __CPROVER_uninterpreted_st##i(u64, u64, u64, u64, u64, u64, u64, u64, u32);
U(0) U(1) U(2) U(3)
static u64 ld(const u8 *p)
{ return (u64)p[0] | (u64)p[1] << 8 | (u64)p[2] << 16 | (u64)p[3] << 24 | (u64)p[4] << 32 | (u64)p[5] << 40 | (u64)p[6] << 48 | (u64)p[7] << 56; }
int hash_step(gost_ctx *c, u8 *H, const u8 *M)
{
    u64 h[4], m[4], r[4]; int i, j; u32 k = c->k87[0x5a] | c->k65[0x17] | c->k43[0xc2] | c->k21[0x3d];
    for (i = 0; i < 4; i++) { h[i] = ld(H + 8 * i); m[i] = ld(M + 8 * i); }
#define S(i) r[i] = __CPROVER_uninterpreted_st##i(h[0], h[1], h[2], h[3], m[0], m[1], m[2], m[3], k);
    S(0) S(1) S(2) S(3)
    for (i = 0; i < 4; i++) for (j = 0; j < 8; j++) H[8 * i + j] = r[i] >> 8 * j;
    return 1;
}
