/* P01: block transform == 32-round network, both byte orders, both
 * directions; result independent of the key mask.
 * Symbolic build: substitution tables, key, mask and block are symbolic.
 * Native replay : the shipped S-box sets loaded by gost_init(), reference at
 * nibble level. */
#include "ref89.h"
#ifndef OP
# define OP 0
#endif
#ifdef VP_CBMC
static u32 T(const gost_ctx *c, const sbox_t *s, u32 x)
{ return c->k87[x >> 24 & 255] | c->k65[x >> 16 & 255] | c->k43[x >> 8 & 255] | c->k21[x & 255]; }
#else
static u32 T(const gost_ctx *c, const sbox_t *s, u32 x) { return ref_t(*s, x); }
#endif
static void net(const gost_ctx *c, const sbox_t *s, const u32 *k, u32 *a, u32 *b, int dec)
{
    u32 n1 = *a, n2 = *b, t; int i;
    for (i = 0; i < 32; i++) {
        u32 kk = dec ? k[i < 8 ? i : 7 - i % 8] : k[i < 24 ? i % 8 : 7 - i % 8];
        t = n2 ^ ref_rol11(T(c, s, n1 + kk));
        n2 = n1; n1 = t;
    }
    *a = n2; *b = n1;      /* no swap in the last round */
}
static void one(gost_ctx *c, const sbox_t *s, const u8 *in, const u32 *k)
{
    u8 out[8], ref[8], back[8]; u32 a, b;
#if OP == 0 || OP == 1
    a = le32(in); b = le32(in + 4);
    net(c, s, k, &a, &b, OP);
    st_le32(ref, a); st_le32(ref + 4, b);
    if (OP == 0) gostcrypt(c, in, out); else gostdecrypt(c, in, out);
#elif OP == 2 || OP == 3
    /* Magma: big-endian, a1||a0 */
    b = be32(in); a = be32(in + 4);
    net(c, s, k, &a, &b, OP == 3);
    st_be32(ref, b); st_be32(ref + 4, a);
    if (OP == 2) magmacrypt(c, in, out); else magmadecrypt(c, in, out);
#elif OP == 4
    gostcrypt(c, in, back); gostdecrypt(c, back, out); memcpy(ref, in, 8);
#elif OP == 5
    magmacrypt(c, in, back); magmadecrypt(c, back, out); memcpy(ref, in, 8);
#elif OP == 6 /* in place */
    gostcrypt(c, in, ref); memcpy(out, in, 8); gostcrypt(c, out, out);
    VP_ASSERT(vp_eq(out, ref, 8), "in-place encryption differs");
    gostdecrypt(c, in, ref); memcpy(out, in, 8); gostdecrypt(c, out, out);
#elif OP == 7
    magmacrypt(c, in, ref); memcpy(out, in, 8); magmacrypt(c, out, out);
    VP_ASSERT(vp_eq(out, ref, 8), "in-place encryption differs");
    magmadecrypt(c, in, ref); memcpy(out, in, 8); magmadecrypt(c, out, out);
#endif
    VP_ASSERT(vp_eq(out, ref, 8), "block transform differs from the standard");
    VP_WITNESS("block");
}
void vp_main(void)
{
    gost_ctx c; u8 in[8]; u32 k[8]; int i;
#ifdef VP_CBMC
    /* c's tables stay nondeterministic */
    for (i = 0; i < 8; i++) { k[i] = nd_u32(); c.mask[i] = nd_u32(); c.key[i] = k[i] - c.mask[i]; }
    nd_bytes(in, 8);
    one(&c, 0, in, k);
#else
    gost_subst_block *sb[] = { &Gost28147_TC26ParamSetZ, &Gost28147_CryptoProParamSetA, &Gost28147_CryptoProParamSetB,
        &Gost28147_CryptoProParamSetC, &Gost28147_CryptoProParamSetD, &Gost28147_TestParamSet };
    u32 m[8]; int j, n;
    for (i = 0; i < 8; i++) { k[i] = nd_u32(); m[i] = nd_u32(); }
    nd_bytes(in, 8);
    for (j = 0; j < 6; j++) {
        sbox_t s;
        for (n = 0; n < 16; n++) {
            s[7][n] = sb[j]->k8[n]; s[6][n] = sb[j]->k7[n]; s[5][n] = sb[j]->k6[n]; s[4][n] = sb[j]->k5[n];
            s[3][n] = sb[j]->k4[n]; s[2][n] = sb[j]->k3[n]; s[1][n] = sb[j]->k2[n]; s[0][n] = sb[j]->k1[n];
        }
        memset(&c, 0, sizeof(c));
        gost_init(&c, sb[j]);
        for (i = 0; i < 8; i++) { c.mask[i] = m[i]; c.key[i] = k[i] - m[i]; }
        one(&c, &s, in, k);
    }
#endif
}
