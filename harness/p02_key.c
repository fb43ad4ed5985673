/* P02 */
#include "ref89.h"
#include "misc.h"
extern const byte ACPKM_D_const[];
static const u8 mesh_key[32] = { /* RFC 4357 2.3.2 */
 0x69,0x00,0x72,0x22,0x64,0xC9,0x04,0x23,0x8D,0x3A,0xDB,0x96,0x46,0xE9,0x2A,0xC4,
 0x18,0xFE,0xAC,0x94,0x00,0xED,0x07,0x12,0xC0,0x86,0xDC,0xC2,0xEF,0x4C,0xA9,0x2B };
static int zero(const void *p, size_t n) { const u8 *q = p; u8 d = 0; size_t i; for (i = 0; i < n; i++) d |= q[i]; return d == 0; }
static void refkey(gost_ctx *c, const u8 *k, int be)
{ int i; memset(c->mask, 0, 32); for (i = 0; i < 8; i++) c->key[i] = be ? be32(k + 4 * i) : le32(k + 4 * i); }
void vp_main(void)
{
    static gost_ctx c, r; u8 key[32], k2[32], iv[8], a[8], b[8], nk[32]; int i;
    vp_rand_may_fail = 1;
    gost_init(&c, &Gost28147_CryptoProParamSetA); gost_init(&r, &Gost28147_CryptoProParamSetA);
    nd_bytes(key, 32); nd_bytes(iv, 8);
    for (i = 0; i < 8; i++) { c.mask[i] = nd_u32(); c.key[i] = nd_u32(); }
#if OP == 0
    gost_key(&c, key); gost_get_key(&c, k2);
    VP_ASSERT(vp_eq(key, k2, 32), "key read back differs (GOST 28147-89)");
    refkey(&r, key, 0);
    gostcrypt(&c, iv, a); gostcrypt(&r, iv, b);
    VP_ASSERT(vp_eq(a, b, 8), "masked key load changes the cipher");
    gost_key_nomask(&c, key); gostcrypt(&c, iv, a);
    VP_ASSERT(vp_eq(a, b, 8), "unmasked key load changes the cipher");
    gost_get_key(&c, k2);
    VP_ASSERT(vp_eq(key, k2, 32), "key read back differs (unmasked)");
#elif OP == 1
    magma_key(&c, key); magma_get_key(&c, k2);
    VP_ASSERT(vp_eq(key, k2, 32), "key read back differs (Magma)");
    refkey(&r, key, 1);
    magmacrypt(&c, iv, a); magmacrypt(&r, iv, b);
    VP_ASSERT(vp_eq(a, b, 8), "Magma key load changes the cipher");
#elif OP == 2
    int withiv = nd_upto(1);
    u8 iv2[8]; memcpy(iv2, iv, 8);
    gost_key(&c, key);
    refkey(&r, key, 0);
    for (i = 0; i < 4; i++) gostdecrypt(&r, mesh_key + 8 * i, nk + 8 * i);
    refkey(&r, nk, 0);
    if (withiv) gostcrypt(&r, iv, iv);
    cryptopro_key_meshing(&c, withiv ? iv2 : NULL);
    gost_get_key(&c, k2);
    VP_ASSERT(vp_eq(nk, k2, 32), "CryptoPro key meshing derives a wrong key");
    VP_ASSERT(vp_eq(iv, iv2, 8), "CryptoPro key meshing derives a wrong IV");
#elif OP == 3
    u8 d[32];
    for (i = 0; i < 32; i++) d[i] = 0x80 + i;
    magma_key(&c, key); refkey(&r, key, 1);
    for (i = 0; i < 4; i++) magmacrypt(&r, d + 8 * i, nk + 8 * i);
    acpkm_magma_key_meshing(&c);
    magma_get_key(&c, k2);
    VP_ASSERT(vp_eq(nk, k2, 32), "ACPKM derives a wrong Magma key");
#elif OP == 4
    if (nd_upto(1)) gost_key(&c, key); else magma_key(&c, key);
    magma_master_key(&c, key);
    VP_ASSERT(vp_eq(c.master_key, key, 32), "master key not stored");
    gost_destroy(&c);
    VP_ASSERT(zero(c.key, 32) && zero(c.mask, 32) && zero(c.master_key, 32), "key material left after destroy");
#endif
    VP_WITNESS("key");
}
