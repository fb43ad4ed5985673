/* P15: the field multiplication an MGM context uses, against schoolbook
 * multiplication in GF(2^n), most significant coefficient = first bit.
 * -DKUZ, -DALIAS 0 none, 1 result==arg1, 2 result==arg2, 3 arg1==arg2,
 * -DREF 0: LSB-first shift-and-add, 1: Horner from the top coefficient */
#include "ciph.h"
#ifdef KUZ
# define BL 16
# define DESC grasshopper_mgm_cipher
#else
# define BL 8
# define DESC magma_mgm_cipher
#endif
extern GOST_cipher DESC;
typedef struct { u64 h, l; } w;
static w ld(const u8 *p) { w r = { 0, 0 }; unsigned i; for (i = 0; i < BL; i++) { if (BL == 16 && i < 8) r.h = r.h << 8 | p[i]; else r.l = r.l << 8 | p[i]; } return r; }
static void st(u8 *p, w v) { unsigned i; for (i = 0; i < BL; i++) p[i] = BL == 16 && i < 8 ? v.h >> 8 * (7 - i) : v.l >> 8 * (BL - 1 - i); }
static w dbl(w v)
{
    u64 c;
    if (BL == 8) { c = v.l >> 63; v.l <<= 1; if (c) v.l ^= 0x1b; }
    else { c = v.h >> 63; v.h = v.h << 1 | v.l >> 63; v.l <<= 1; if (c) v.l ^= 0x87; }
    return v;
}
static u64 bit(w v, unsigned i) { return (i < 64 ? v.l >> i : v.h >> (i - 64)) & 1; }
static w mul(w a, w b)
{
    w z = { 0, 0 }; unsigned i;
#if REF == 0
    for (i = 0; i < BL * 8; i++) { if (bit(b, i)) { z.h ^= a.h; z.l ^= a.l; } a = dbl(a); }
#else
    for (i = BL * 8; i-- > 0;) { u64 m = 0 - bit(b, i); z = dbl(z); z.h ^= a.h & m; z.l ^= a.l & m; }
#endif
    return z;
}
void vp_main(void)
{
    EVP_CIPHER *ci; EVP_CIPHER_CTX x = { 0 };
    u64 mw[(sizeof(gost_mgm_ctx) + 7) / 8] = { 0 }, a[2] = { 0 }, b[2] = { 0 }, r[4] = { 0 }, *pa = a, *pb = b, *pr = r + 1;
    gost_mgm_ctx *mem = (gost_mgm_ctx *)mw; u8 key[32], ref[16];
    memset(key, 1, 32);
    nd_bytes(a, BL); nd_bytes(b, BL); r[0] = r[3] = 0x1122334455667788ull; 
    if (BL == 8) r[2] = r[0];
#if ALIAS == 3
    memcpy(a, b, 16);
#endif
    st(ref, mul(ld((u8 *)a), ld((u8 *)b)));
    ci = GOST_init_cipher(&DESC);
    VP_ASSERT(vp_cipher_init(&x, ci, mem, key, key, 1) == 1, "init failed");
#if ALIAS == 1
    pr = a;
#elif ALIAS == 2
    pr = b;
#elif ALIAS == 3
    pa = pb;
#endif
    mem->mgm.mul_gf(pr, pa, pb);
    VP_ASSERT(vp_eq(pr, ref, BL), "field product differs");
    VP_ASSERT(r[0] == 0x1122334455667788ull && r[3] == r[0] && (BL == 16 || r[2] == r[0]), "write outside the result");
    VP_WITNESS("gfmul");
}
