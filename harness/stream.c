/* Stream modes: init(key, iv), update in up to three pieces, compare with the
 * mode's definition computed byte-wise by the harness from the block function.
 * -DM=<mode> -DENC=0|1 -DL=<total> -DA0,-DA1: first cut range, -DB1: second
 * piece length range 0..B1, -DINPLACE -DPSET=<nid|0> -DMESH=<arg|unset> */
#include "ciph.h"
#define M_CFB89 1
#define M_CNT 2
#define M_CNT12 3
#define M_MCTR 4
#define M_MACPKM 5
#define M_KCTR 6
#define M_KACPKM 7
#define M_KOFB 8
#define M_KCFB 9
#if MODE <= M_MACPKM
# define BL 8
#else
# define BL 16
#endif
#if MODE == M_CFB89
# define DESC Gost28147_89_cipher
# define IVL 8
#elif MODE == M_CNT
# define DESC Gost28147_89_cnt_cipher
# define IVL 8
#elif MODE == M_CNT12
# define DESC Gost28147_89_cnt_12_cipher
# define IVL 8
#elif MODE == M_MCTR
# define DESC magma_ctr_cipher
# define IVL 4
#elif MODE == M_MACPKM
# define DESC magma_ctr_acpkm_cipher
# define IVL 4
#elif MODE == M_KCTR
# define DESC grasshopper_ctr_cipher
# define IVL 8
#elif MODE == M_KACPKM
# define DESC grasshopper_ctr_acpkm_cipher
# define IVL 8
#elif MODE == M_KOFB
# define DESC grasshopper_ofb_cipher
# define IVL 16
#elif MODE == M_KCFB
# define DESC grasshopper_cfb_cipher
# define IVL 16
#endif
extern GOST_cipher DESC;
#ifndef SBOX
# if MODE == M_CNT
#  define SBOX Gost28147_CryptoProParamSetA
# else
#  define SBOX Gost28147_TC26ParamSetZ
# endif
#endif
#ifndef B0
# define B0 0
#endif
#ifndef B1
# define B1 0
#endif
#ifdef RESUME
static const u32 sec = SEC, num0 = RESUME; /* section size; position in the section */
#endif
static u8 key[32], ctr0[16], iv0[16], in[LEN + 16], ref[LEN];
/* ---- reference ------------------------------------------------------- */
#if BL == 8
static gost_ctx rc;
static void rkey(const u8 *k) { gost_key_nomask(&rc, k); }
static void rkey_be(const u8 *k) { magma_key(&rc, k); }
#else
static grasshopper_round_keys_t rk, rkd;
static grasshopper_w128_t rbuf;
static void rkey(const u8 *k) { grasshopper_key_t kk; memcpy(&kk, k, 32); grasshopper_set_encrypt_key(&rk, &kk); }
static void rE(const u8 *x, u8 *y)
{ grasshopper_w128_t a, b; memcpy(&a, x, 16); grasshopper_encrypt_block(&rk, &a, &b, &rbuf); memcpy(y, &b, 16); }
#endif
static void reference(int enc)
{
    u8 reg[16], g[16]; unsigned i, j;
#ifdef RESUME
    u32 rnum = 0;
#endif
    memset(reg, 0, 16); memcpy(reg, iv0, IVL);
#ifdef COUNTER
    memcpy(reg, ctr0, 16);
#endif
#if BL == 8
    gost_init(&rc, &SBOX);
# if MODE == M_MCTR || MODE == M_MACPKM
    rkey_be(key);
# else
    rkey(key);
# endif
#else
    rkey(key);
#endif
#if MODE == M_CNT || MODE == M_CNT12
    gostcrypt(&rc, reg, reg);
#endif
    for (i = 0; i < LEN; i += BL) {
#if MODE == M_CFB89 || MODE == M_CNT || MODE == M_CNT12
# ifndef NOMESH
        if (i && i % 1024 == 0) cryptopro_key_meshing(&rc, reg);
# endif
#endif
#if MODE == M_CFB89
        gostcrypt(&rc, reg, g);
#elif MODE == M_CNT || MODE == M_CNT12
        {
            u32 a = reg[0] | reg[1] << 8 | reg[2] << 16 | (u32)reg[3] << 24, b = reg[4] | reg[5] << 8 | reg[6] << 16 | (u32)reg[7] << 24;
            u64 s = (u64)b + 0x01010104;
            a += 0x01010101;
# ifdef CARRYFORM   /* same function, written with an end-around carry */
            { u32 b0 = b; b += 0x01010104; if (b0 > b) b++; s = b; }
# else
            s = s >= 0x100000000ULL ? s - 0xffffffffULL : s;   /* mod 2^32-1, GOST 28147-89 convention */
# endif
            b = (u32)s;
            for (j = 0; j < 4; j++) { reg[j] = a >> 8 * j; reg[4 + j] = b >> 8 * j; }
            gostcrypt(&rc, reg, g);
        }
#elif MODE == M_MCTR || MODE == M_MACPKM || MODE == M_KCTR || MODE == M_KACPKM
# if defined(MESH) || defined(RESUME)
#  ifdef RESUME
        if (!i) rnum = num0;
        if (rnum < sec) rnum += BL; else {
            rnum = BL;
#  else
        if (MESH && i && i % MESH == 0) {
#  endif
            u8 nk[32], d[32];
            for (j = 0; j < 32; j++) d[j] = 0x80 + j;
#  if BL == 8
            for (j = 0; j < 4; j++) magmacrypt(&rc, d + 8 * j, nk + 8 * j);
            rkey_be(nk);
#  else
            for (j = 0; j < 2; j++) rE(d + 16 * j, nk + 16 * j);
            rkey(nk);
#  endif
        }
# endif
# if BL == 8
        magmacrypt(&rc, reg, g);
# else
        rE(reg, g);
# endif
        /* big-endian increment of the whole block */
        {
            unsigned c = 1;
            for (j = BL; j-- > 0;) { c += reg[j]; reg[j] = c; c >>= 8; }
        }
#elif MODE == M_KOFB
        rE(reg, g); memcpy(reg, g, 16);
#elif MODE == M_KCFB
        rE(reg, g);
#endif
        for (j = 0; j < BL && i + j < LEN; j++) {
            ref[i + j] = in[i + j] ^ g[j];
#if MODE == M_CFB89 || MODE == M_KCFB
            reg[j] = enc ? ref[i + j] : in[i + j];
#endif
        }
    }
}
/* ---- implementation -------------------------------------------------- */
#if BL == 8
# define CTXT struct ossl_gost_cipher_ctx
#elif MODE == M_KCTR || MODE == M_KACPKM
# define CTXT gost_grasshopper_cipher_ctx_ctr
#else
# define CTXT gost_grasshopper_cipher_ctx
#endif
#define PADB 16
static void go(EVP_CIPHER *ci, unsigned a, unsigned b)
{
    CTXT mem = { 0 };
    EVP_CIPHER_CTX x = { 0 }; u8 out[LEN + 2 * PADB], *o = out + PADB; const u8 *src = in; unsigned i, c;
    for (i = 0; i < PADB; i++) out[i] = out[LEN + PADB + i] = 0xC3;
#ifdef INPLACE
    memcpy(o, in, LEN); src = o;
#endif
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, key, iv0, ENC) == 1, "init failed");
#ifdef PSET
    vp_txt_nid = PSET;
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_SET_SBOX, 0, "x") == 1, "S-box selection failed");
#endif
#ifdef MESHARG
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed");
#endif
#ifdef RESUME
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_KEY_MESH, sec, NULL) == 1, "key meshing control failed");
    x.num = num0;
#endif
#ifdef COUNTER
    memcpy(x.iv, ctr0, 16);      /* resume in mid-stream at an arbitrary counter */
#endif
    c = LEN - a < b ? LEN - a : b;
    VP_ASSERT(vp_update(&x, o, src, a), "update failed");
    VP_ASSERT(vp_update(&x, o + a, src + a, c), "update failed");
    VP_ASSERT(vp_update(&x, o + a + c, src + a + c, LEN - a - c), "update failed");
    
#ifndef TAIL
# define TAIL LEN
#endif
    VP_ASSERT(vp_eq(o + LEN - TAIL, ref + LEN - TAIL, TAIL), "output differs from the mode's definition");
    for (i = 0; i < PADB; i++) VP_ASSERT(out[i] == 0xC3 && out[LEN + PADB + i] == 0xC3, "byte outside the output range written");
    VP_WITNESS("stream");
}
void vp_main(void)
{
    EVP_CIPHER *ci;
    nd_bytes(key, 32); nd_bytes(iv0, IVL); 
#ifdef TAIL
    nd_bytes(in + LEN - TAIL, TAIL);
#else
    nd_bytes(in, LEN);
#endif
#ifdef COUNTER
    nd_bytes(ctr0, 16);
#endif
#if MODE == M_CNT || MODE == M_CNT12
    /* choose the first counter value, derive the IV from it */
    gost_init(&rc, &SBOX); rkey(key); gostdecrypt(&rc, iv0, iv0);
#endif
    ci = GOST_init_cipher(&DESC);
    VP_ASSERT(ci != NULL && ci->iv_len == IVL && ci->key_len == 32, "descriptor");
    VP_ASSERT(ci->ctx_size == sizeof(CTXT), "descriptor context size");
    reference(ENC);
    VP_SPLIT(a, A1 - A0)
        VP_SPLIT(b, B1 - B0) go(ci, A0 + a, B0 + b);
}
