/* key diversification as an uninterpreted function of (KEK, UKM) (decided by
 * P19 job diversify) */
#include "vp.h"
#include "gost89.h"
u64 __CPROVER_uninterpreted_dv(u64, u64, u64, u64, u64, u8);
static u64 ld8(const u8 *p) { u64 v; memcpy(&v, p, 8); return v; }
void keyDiversifyCryptoPro(gost_ctx *ctx, const unsigned char *k, const unsigned char *u, unsigned char *o)
{
    u64 v[4]; int i;
    for (i = 0; i < 4; i++) v[i] = __CPROVER_uninterpreted_dv(ld8(k), ld8(k + 8), ld8(k + 16), ld8(k + 24), ld8(u), i);
    memcpy(o, v, 32);
}
