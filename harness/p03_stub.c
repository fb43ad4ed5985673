/* symbolic build of the P03 structure jobs: sums of table entries and L as
 * uninterpreted functions (decided by the other P03 jobs) */
#include "vp.h"
#include "gost_grasshopper_defines.h"
u64 __CPROVER_uninterpreted_t0(u32, u64, u64);
u64 __CPROVER_uninterpreted_t1(u32, u64, u64);
extern const grasshopper_w128_t grasshopper_pil_enc128[16][256], grasshopper_l_dec128[16][256], grasshopper_pil_dec128[16][256];
static void uft(u32 id, u64 *r, u64 a, u64 b) { u64 x = __CPROVER_uninterpreted_t0(id, a, b), y = __CPROVER_uninterpreted_t1(id, a, b); r[0] = x; r[1] = y; }
void grasshopper_plus128multi(grasshopper_w128_t *r, const grasshopper_w128_t *x, const grasshopper_w128_t array[][256])
{
    VP_ASSERT(r != x, "result and operand of the table sum overlap");
    uft(array == grasshopper_pil_enc128 ? 1 : array == grasshopper_pil_dec128 ? 2 : array == grasshopper_l_dec128 ? 3 : 9, r->q, x->q[0], x->q[1]);
}
void grasshopper_l(grasshopper_w128_t *w) { uft(4, w->q, w->q[0], w->q[1]); }
void grasshopper_l_inv(grasshopper_w128_t *w) { uft(5, w->q, w->q[0], w->q[1]); }
