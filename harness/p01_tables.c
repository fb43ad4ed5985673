/* P01: S-box expansion and shipped S-box sets.
 * Symbolic: for every 32-bit x, the expanded tables give S(x) of the RFC set
 * (SET 0..7) or of an arbitrary set (SET 8).  Native: end-to-end encryption
 * of pseudo-random blocks against the nibble-level reference. */
#include "ref89.h"
#include "ref_sboxes.h"
static void load(gost_ctx *c, sbox_t s)
{
    static const sbox_t *const R[] = { &ref_GostR3411_94_TestParamSet, &ref_GostR3411_94_CryptoProParamSet, &ref_Gost28147_TestParamSet,
        &ref_Gost28147_CryptoProParamSetA, &ref_Gost28147_CryptoProParamSetB, &ref_Gost28147_CryptoProParamSetC,
        &ref_Gost28147_CryptoProParamSetD, &ref_Gost28147_TC26ParamSetZ };
    gost_subst_block *const P[] = { &GostR3411_94_TestParamSet, &GostR3411_94_CryptoProParamSet, &Gost28147_TestParamSet,
        &Gost28147_CryptoProParamSetA, &Gost28147_CryptoProParamSetB, &Gost28147_CryptoProParamSetC,
        &Gost28147_CryptoProParamSetD, &Gost28147_TC26ParamSetZ };
    gost_subst_block sym;
    int i, j;
#if SET < 8
    memcpy(s, R[SET], sizeof(sbox_t));
    gost_init(c, P[SET]);
#elif SET == 9
    memcpy(s, R[0], sizeof(sbox_t));
    gost_init(c, NULL);
#else
    for (i = 0; i < 8; i++) for (j = 0; j < 16; j++) s[i][j] = nd_u8() & 15;
    for (j = 0; j < 16; j++) {
        sym.k8[j] = s[7][j]; sym.k7[j] = s[6][j]; sym.k6[j] = s[5][j]; sym.k5[j] = s[4][j];
        sym.k4[j] = s[3][j]; sym.k3[j] = s[2][j]; sym.k2[j] = s[1][j]; sym.k1[j] = s[0][j];
    }
    gost_init(c, &sym);
#endif
}
void vp_main(void)
{
    gost_ctx c; sbox_t s; u32 x;
    memset(&c, 0, sizeof(c));
    load(&c, s);
#ifdef VP_CBMC
    x = nd_u32();
    VP_ASSERT((c.k87[x >> 24 & 255] | c.k65[x >> 16 & 255] | c.k43[x >> 8 & 255] | c.k21[x & 255]) == ref_t(s, x), "S-box expansion differs from the parameter set");
    VP_WITNESS("tables");
#else
    u32 k[8], n1, n2, t, seed = 12345; int i, n; u8 in[8], out[8], ref[8];
    for (n = 0; n < 400; n++) {
        for (i = 0; i < 8; i++) { seed = seed * 1664525 + 1013904223; c.key[i] = k[i] = seed ^ seed >> 15; }
        for (i = 0; i < 8; i++) { seed = seed * 1664525 + 1013904223; in[i] = seed >> 20; }
        n1 = le32(in); n2 = le32(in + 4);
        for (i = 0; i < 32; i++) { t = n2 ^ ref_rol11(ref_t(s, n1 + k[i < 24 ? i % 8 : 7 - i % 8])); n2 = n1; n1 = t; }
        st_le32(ref, n2); st_le32(ref + 4, n1);
        gostcrypt(&c, in, out);
        VP_ASSERT(vp_eq(out, ref, 8), "S-box expansion differs from the parameter set");
    }
#endif
}
