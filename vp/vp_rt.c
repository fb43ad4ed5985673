#include "vp.h"
#ifdef VP_CBMC
static u32 vp_idx;
u8 nondet_vp_u8(void);
u32 nondet_vp_u32(void);
u64 nondet_vp_u64(void);
# ifdef VP_NARROW
/* narrowed re-run (see DESIGN.md): data bytes are fixed pseudo-random
 * constants except every VP_NARROW-th; control values stay symbolic. */
static u32 vp_x = 2463534242u;
static unsigned vp_cnt;
static u32 vp_rnd(void) { vp_x ^= vp_x << 13; vp_x ^= vp_x >> 17; vp_x ^= vp_x << 5; return vp_x; }
#  define NARROWED(v, bits) do { if (++vp_cnt % VP_NARROW) { v = vp_rnd() & bits; } } while (0)
# else
#  define NARROWED(v, bits) ((void)0)
# endif
u8 nd_u8(void) { u8 v = nondet_vp_u8(); NARROWED(v, 0xff); __CPROVER_input("vpnd", vp_idx++, (u64)v); return v; }
u32 nd_u32(void) { u32 v = nondet_vp_u32(); NARROWED(v, 0xffffffffu); __CPROVER_input("vpnd", vp_idx++, (u64)v); return v; }
u64 nd_u64(void) { u64 v = nondet_vp_u64(); NARROWED(v, 0xffffffffu); __CPROVER_input("vpnd", vp_idx++, v); return v; }
unsigned nd_upto(unsigned max)
{
    unsigned v = nondet_vp_u32();
    __CPROVER_assume(v <= max);
    __CPROVER_input("vpnd", vp_idx++, (u64)v);
    return v;
}
void nd_bytes(void *p, size_t n)
{
    u8 *q = p;
    size_t i;
    for (i = 0; i < n; i++)
        q[i] = nd_u8();
}
#else
#include <stdio.h>
static FILE *vp_f;
static u32 vp_x = 2463534242u;
static int vp_mut = -1;
static u32 vp_rnd(void) { vp_x ^= vp_x << 13; vp_x ^= vp_x >> 17; vp_x ^= vp_x << 5; return vp_x; }
/* control values always come from the replay file; data values may be
 * re-randomised (VP_MUT=n, n>0) when the counterexample holds for any data */
static u64 next(int ctl)
{
    unsigned long long v = 0;
    if (!vp_f) {
        const char *n = getenv("VP_REPLAY"), *m = getenv("VP_MUT");
        vp_mut = m ? atoi(m) : 0;
        vp_x += (u32)vp_mut * 2654435761u; if (!vp_x) vp_x = 1;
        vp_f = n ? fopen(n, "r") : NULL;
        if (!vp_f) vp_f = fopen("/dev/null", "r");
    }
    if (fscanf(vp_f, "%llu", &v) != 1)
        v = 0;
    if (vp_mut == 6 && !ctl)
        v = 0;
    else if (vp_mut > 0 && vp_mut < 6 && !ctl)
        v = vp_rnd() ^ ((u64)vp_rnd() << 32);
    return v;
}
int vp_steer(void) { return vp_mut < 8 ? -1 : vp_mut - 8; }
u8 nd_u8(void) { return (u8)next(0); }
u32 nd_u32(void) { return (u32)next(0); }
u64 nd_u64(void) { return next(0); }
unsigned nd_upto(unsigned max) { unsigned v = (unsigned)next(1); if (v > max) v = max; return v; }
void nd_bytes(void *p, size_t n) { u8 *q = p; size_t i; for (i = 0; i < n; i++) q[i] = nd_u8(); }
void vp_fail(const char *m, const char *f, int l)
{
    printf("VP-FAIL %s (%s:%d)\n", m, f, l);
    fflush(stdout);
    _Exit(9);
}
void vp_assume_fail(const char *m)
{
    printf("VP-ASSUME %s\n", m);
    fflush(stdout);
    _Exit(3);
}
int main(void)
{
    vp_main();
    printf("VP-OK\n");
    return 0;
}
#endif
