/* P09: block modes. -DMODE -DENC -DNB=<blocks> -DINPLACE */
#include "ciph.h"
#define M_CBC89 1
#define M_MECB 2
#define M_MCBC 3
#define M_KECB 4
#define M_KCBC 5
#if MODE <= M_MCBC
# define BL 8
# define CTXT struct ossl_gost_cipher_ctx
#else
# define BL 16
# define CTXT gost_grasshopper_cipher_ctx
#endif
#if MODE == M_CBC89
# define DESC Gost28147_89_cbc_cipher
#elif MODE == M_MECB
# define DESC magma_ecb_cipher
#elif MODE == M_MCBC
# define DESC magma_cbc_cipher
#elif MODE == M_KECB
# define DESC grasshopper_ecb_cipher
#elif MODE == M_KCBC
# define DESC grasshopper_cbc_cipher
#endif
#define CBC (MODE == M_CBC89 || MODE == M_MCBC || MODE == M_KCBC)
#define IVL (CBC ? BL : 0)
extern GOST_cipher DESC;
#define LEN (NB * BL)
static u8 key[32], iv0[16], in[LEN], ref[LEN];
static gost_ctx rc;
static grasshopper_round_keys_t rk, rkd;
static void B(const u8 *x, u8 *y)
{
#if MODE == M_CBC89
    if (ENC) gostcrypt(&rc, x, y); else gostdecrypt(&rc, x, y);
#elif BL == 8
    if (ENC) magmacrypt(&rc, x, y); else magmadecrypt(&rc, x, y);
#else
    grasshopper_w128_t a, b, t; memcpy(&a, x, 16);
    if (ENC) grasshopper_encrypt_block(&rk, &a, &b, &t); else grasshopper_decrypt_block(&rkd, &a, &b, &t);
    memcpy(y, &b, 16);
#endif
}
static void reference(void)
{
    u8 t[16], prev[16]; unsigned i, j;
#if BL == 8
    gost_init(&rc, &Gost28147_TC26ParamSetZ);
    if (MODE == M_CBC89) gost_key_nomask(&rc, key); else magma_key(&rc, key);
#else
    grasshopper_key_t kk; memcpy(&kk, key, 32);
    grasshopper_set_encrypt_key(&rk, &kk); grasshopper_set_decrypt_key(&rkd, &kk);
#endif
    memcpy(prev, iv0, 16);
    for (i = 0; i < LEN; i += BL) {
        if (!CBC) { B(in + i, ref + i); continue; }
        if (ENC) {
            for (j = 0; j < BL; j++) t[j] = in[i + j] ^ prev[j];
            B(t, ref + i);
            memcpy(prev, ref + i, BL);
        } else {
            B(in + i, t);
            for (j = 0; j < BL; j++) ref[i + j] = t[j] ^ prev[j];
            memcpy(prev, in + i, BL);
        }
    }
}
#define PADB 16
static void go(EVP_CIPHER *ci, unsigned a, unsigned b)
{
    CTXT mem = { 0 }; EVP_CIPHER_CTX x = { 0 }; u8 out[LEN + 2 * PADB], *o = out + PADB; const u8 *src = in; unsigned i;
    for (i = 0; i < PADB; i++) out[i] = out[LEN + PADB + i] = 0xC3;
#ifdef INPLACE
    memcpy(o, in, LEN); src = o;
#endif
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, key, IVL ? iv0 : NULL, ENC) == 1, "init failed");
    VP_ASSERT(vp_update(&x, o, src, a * BL), "update failed");
    VP_ASSERT(vp_update(&x, o + a * BL, src + a * BL, b * BL), "update failed");
    VP_ASSERT(vp_update(&x, o + (a + b) * BL, src + (a + b) * BL, LEN - (a + b) * BL), "update failed");
    VP_ASSERT(vp_eq(o, ref, LEN), "output differs from the mode's definition");
    if (CBC) VP_ASSERT(vp_eq(x.iv, (ENC ? ref : in) + LEN - BL, BL), "chaining value is not the last ciphertext block");
    for (i = 0; i < PADB; i++) VP_ASSERT(out[i] == 0xC3 && out[LEN + PADB + i] == 0xC3, "byte outside the output range written");
    VP_WITNESS("block");
}
void vp_main(void)
{
    EVP_CIPHER *ci;
    nd_bytes(key, 32); nd_bytes(iv0, 16); nd_bytes(in, LEN);
    ci = GOST_init_cipher(&DESC);
    VP_ASSERT(ci != NULL && ci->iv_len == IVL && ci->key_len == 32 && ci->block_size == BL && ci->ctx_size == sizeof(CTXT), "descriptor");
    reference();
    VP_SPLIT(a, NB) VP_SPLIT(b, NB - a) go(ci, a, b);
}
