/* MGM (RFC 9058) through the cipher method: init, AAD / data updates in
 * pieces, tag.  -DKUZ -DAL -DML -DENC -DAC0/-DAC1: cut range of the AAD,
 * -DMC0/-DMC1: first cut of the message, -DORDER 0 key+iv, 1 key then iv,
 * 2 iv then key, -DCOPY: continue on a copy made after the first pieces,
 * -DREUSE: context used for another message before, -DINPLACE */
#include "ciph.h"
#ifdef KUZ
# define BL 16
# define DESC grasshopper_mgm_cipher
#else
# define BL 8
# define DESC magma_mgm_cipher
#endif
#ifndef ORDER
# define ORDER 0
#endif
extern GOST_cipher DESC;
static u8 key[32], key0[32], iv[16], iv0[16], aad[AL + 16], in[ML + 16], ref[ML + 16], rtag[16], gtag[16];
/* field multiplication: uninterpreted here (exactness is P15); natively the real one */
static mul128_f real_mul;
#ifdef VP_CBMC
u64 __CPROVER_uninterpreted_gm0(u64, u64, u64, u64);
u64 __CPROVER_uninterpreted_gm1(u64, u64, u64, u64);
static void rmul(u64 *r, u64 *a, u64 *b)
{
    if (b[0] == 0 && (BL == 8 || b[1] == 0)) { r[0] = 0; if (BL == 16) r[1] = 0; return; }
# if BL == 8
    u64 x = __CPROVER_uninterpreted_gm0(a[0], 0, b[0], 0);
    r[0] = x;
# else
    u64 x = __CPROVER_uninterpreted_gm0(a[0], a[1], b[0], b[1]), y = __CPROVER_uninterpreted_gm1(a[0], a[1], b[0], b[1]);
    r[0] = x; r[1] = y;
# endif
}
#else
static void rmul(u64 *r, u64 *a, u64 *b) { real_mul(r, a, b); }
#endif
/* block function: likewise (that the context's block function under the loaded
 * key is the cipher is decided by job *_block); it must be called with the key
 * of the context in use */
static block128_f real_block; static const void *want_key; static void *real_key;
#ifdef VP_CBMC
u64 __CPROVER_uninterpreted_ge0(u64, u64, u32);
u64 __CPROVER_uninterpreted_ge1(u64, u64, u32);
static u32 kid;
static void rblk(const u8 *in, u8 *out, const void *key)
{
    u64 x[2] = { 0 }, y[2]; unsigned i;
    VP_ASSERT(key == want_key, "block function called with a key outside the context");
    memcpy(x, in, BL);
    y[0] = __CPROVER_uninterpreted_ge0(x[0], x[1], kid);
    if (BL == 16) y[1] = __CPROVER_uninterpreted_ge1(x[0], x[1], kid);
    memcpy(out, y, BL);
}
static void rkey(void) { want_key = 0; kid = 1; }
static void rE(const u8 *x, u8 *y) { const void *s = want_key; rblk(x, y, s); }
#else
static u8 kid;
static void rblk(const u8 *in, u8 *out, const void *key) { real_block(in, out, key); }
static void rkey(void) { }
static void rE(const u8 *x, u8 *y) { real_block(x, y, real_key); }
#endif
static void incr(u8 *p) { unsigned c = 1, j; for (j = BL / 2; j-- > 0;) { c += p[j]; p[j] = c; c >>= 8; } }
static u64 Z[2], sum[2];
static u8 wY[16], wZ[16]; /* the first counters, as the counterexample has them */
static void absorb(const u8 *b)
{
    u64 h[2] = { 0 }, m[2] = { 0 }, v[2] = { 0 }; u8 t[16];
    rE((u8 *)Z, t); memcpy(h, t, BL); memcpy(v, b, BL);
    rmul(m, h, v);
    sum[0] ^= m[0]; sum[1] ^= m[1];
    incr((u8 *)Z);
}
#ifndef VP_CBMC
/* a nonce (and key) for which the first message counter (even) or the first
 * authentication counter (odd) is that of the counterexample */
static void steer(void)
{
    int m = vp_steer(), t; const u8 *w = m & 1 ? wZ : wY; u8 n[16];
    if (m < 0) return;
    key[31] ^= m >> 1;
    for (t = 0; t < 64; t++, key[0]++) {
# ifdef KUZ
        grasshopper_round_keys_t rk; grasshopper_w128_t buf, x, y; grasshopper_key_t kk;
        memcpy(&kk, key, 32); grasshopper_set_decrypt_key(&rk, &kk);
        memcpy(&x, w, 16); grasshopper_decrypt_block(&rk, &x, &y, &buf); memcpy(n, &y, 16);
# else
        static gost_ctx rc; u8 r[8], d[8]; int i;
        gost_init(&rc, &Gost28147_TC26ParamSetZ); magma_key(&rc, key);
        for (i = 0; i < 8; i++) r[i] = w[7 - i];
        gostdecrypt(&rc, r, d);
        for (i = 0; i < 8; i++) n[i] = d[7 - i];
# endif
        if ((n[0] >> 7) == (m & 1)) { memcpy(iv, n, BL); iv[0] &= 0x7f; return; }
    }
}
#endif
static void reference(void)
{
    u8 Y[16], g[16], b[16]; unsigned i, j;
    sum[0] = sum[1] = 0;
    rkey();
    memcpy(b, iv, BL); b[0] |= 0x80; rE(b, g); memcpy(Z, g, BL);
    b[0] &= 0x7f; rE(b, Y);
#ifdef VP_CBMC
    VP_ASSUME(vp_eq(wY, Y, BL) && vp_eq(wZ, Z, BL));
#endif
    for (i = 0; i < AL; i += BL) {
        memset(b, 0, 16); for (j = 0; j < BL && i + j < AL; j++) b[j] = aad[i + j];
        absorb(b);
    }
    for (i = 0; i < ML; i += BL) {
        rE(Y, g); incr(Y + BL / 2);
        memset(b, 0, 16);
        for (j = 0; j < BL && i + j < ML; j++) { ref[i + j] = in[i + j] ^ g[j]; b[j] = ENC ? ref[i + j] : in[i + j]; }
        absorb(b);
    }
    memset(b, 0, 16);
    for (j = 0; j < BL / 2; j++) {
        b[j] = (u8)((u64)AL * 8 >> 8 * (BL / 2 - 1 - j));
        b[BL / 2 + j] = (u8)((u64)ML * 8 >> 8 * (BL / 2 - 1 - j));
    }
    absorb(b);
    rE((u8 *)sum, rtag);
}
static int up(EVP_CIPHER_CTX *x, u8 *out, const u8 *src, size_t n) { return x->cipher->do_cipher(x, out, src, n) == (int)n; }
static void hook(gost_mgm_ctx *m, int k)
{ kid = k; want_key = &m->ks; if (m->mgm.mul_gf != rmul) real_mul = m->mgm.mul_gf; m->mgm.mul_gf = rmul; if (m->mgm.block != rblk) real_block = m->mgm.block; m->mgm.block = rblk; }
static void start(EVP_CIPHER_CTX *x, EVP_CIPHER *ci, gost_mgm_ctx *mem)
{
#if ORDER == 0
    VP_ASSERT(vp_cipher_init(x, ci, mem, key, iv, ENC) == 1, "init failed");
#elif ORDER == 1
    VP_ASSERT(vp_cipher_init(x, ci, mem, NULL, NULL, ENC) == 1, "init failed");
    VP_ASSERT(ci->ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, BL, NULL) == 1, "nonce length refused");
    VP_ASSERT(vp_cipher_init(x, ci, mem, key, NULL, ENC) == 1, "init failed");
    VP_ASSERT(vp_cipher_init(x, ci, mem, NULL, iv, ENC) == 1, "init failed");
#else
    VP_ASSERT(vp_cipher_init(x, ci, mem, NULL, iv, ENC) == 1, "init failed");
    VP_ASSERT(vp_cipher_init(x, ci, mem, key, NULL, ENC) == 1, "init failed");
#endif
    hook(mem, 1);
}
static void go(EVP_CIPHER *ci, unsigned a, unsigned c)
{
    /* plain words: CBMC 6.11 mishandles writes through a cast into a union that
     * is a member of a struct (unsound either way), word arrays are exact */
    u64 mw[(sizeof(gost_mgm_ctx) + 7) / 8] = { 0 }, mw2[(sizeof(gost_mgm_ctx) + 7) / 8] = { 0 };
    gost_mgm_ctx *mem = (gost_mgm_ctx *)mw, *mem2 = (gost_mgm_ctx *)mw2;
    EVP_CIPHER_CTX x = { 0 }, y = { 0 }, *p = &x; u8 out[ML + 48], *o = out + 16, dummy[32]; const u8 *src = in; unsigned i; int r;
    for (i = 0; i < 16; i++) out[i] = out[ML + 16 + i] = 0xC3;
#ifdef INPLACE
    memcpy(o, in, ML); src = o;
#endif
#ifdef REUSE
    VP_ASSERT(vp_cipher_init(&x, ci, mem, key0, iv0, REUSE) == 1, "init failed"); hook(mem, 2);
    VP_ASSERT(up(&x, NULL, aad, AL < 3 ? AL : 3) && up(&x, dummy, in, ML < BL + 3 ? ML : BL + 3), "update failed");
    if (REUSE == 1) VP_ASSERT(ci->do_cipher(&x, NULL, NULL, 0) == 0, "final failed");
#endif
    start(&x, ci, mem);
    VP_ASSERT(up(p, NULL, aad, a), "AAD update failed");
#if COPY == 1
    VP_ASSERT(vp_cipher_copy(&y, &x, mem2) == 1, "copy failed"); p = &y; want_key = &mem2->ks; x.cipher->cleanup(&x); memset(mw, 0, sizeof(mw)); memset(&x, 0, sizeof(x));
#endif
    VP_ASSERT(a == AL || up(p, NULL, aad + a, AL - a), "AAD update failed");
    VP_ASSERT(c == 0 || up(p, o, src, c), "update failed");
#if COPY == 2
    VP_ASSERT(vp_cipher_copy(&y, &x, mem2) == 1, "copy failed"); p = &y; want_key = &mem2->ks; x.cipher->cleanup(&x); memset(mw, 0, sizeof(mw)); memset(&x, 0, sizeof(x));
#endif
    VP_ASSERT(c == ML || up(p, o + c, src + c, ML - c), "update failed");
    VP_ASSERT(vp_eq(o, ref, ML), "output differs from MGM");
    for (i = 0; i < 16; i++) VP_ASSERT(out[i] == 0xC3 && out[ML + 16 + i] == 0xC3, "byte outside the output range written");
#if ENC
    VP_ASSERT(ci->do_cipher(p, NULL, NULL, 0) == 0, "final failed");
    VP_ASSERT(ci->ctrl(p, EVP_CTRL_AEAD_GET_TAG, BL, dummy) == 1, "tag not available");
    VP_ASSERT(vp_eq(dummy, rtag, BL), "tag differs from MGM");
#else
# ifdef NOTAG
    VP_ASSERT(ci->do_cipher(p, NULL, NULL, 0) < 0, "decryption without a tag accepted");
# else
    VP_ASSERT(ci->ctrl(p, EVP_CTRL_AEAD_SET_TAG, BL, gtag) == 1, "tag refused");
    r = ci->do_cipher(p, NULL, NULL, 0);
    VP_ASSERT(!(r >= 0 && !vp_eq(gtag, rtag, BL)), "forged tag accepted");
    VP_ASSERT(!(r < 0 && vp_eq(gtag, rtag, BL)), "correct tag rejected");
# endif
#endif
#if ENC
    VP_ASSERT(ci->do_cipher(p, o, src, 1) < 0, "nonce can be used for a second message");
#endif
    VP_WITNESS("mgm");
}
#ifdef BLOCKJOB
/* the block function and key a context uses are the cipher under the loaded
 * key, for a fresh context, after re-keying, and in a copy */
static void one(gost_mgm_ctx *m, const u8 *k)
{
    u8 b[16], o[16], r[16];
    memcpy(b, aad, BL);
    m->mgm.block(b, o, m->mgm.key);
# ifdef KUZ
    { grasshopper_round_keys_t rk; grasshopper_w128_t buf, x, y; grasshopper_key_t kk; memcpy(&kk, k, 32); grasshopper_set_encrypt_key(&rk, &kk);
      memcpy(&x, aad, 16); grasshopper_encrypt_block(&rk, &x, &y, &buf); memcpy(r, &y, 16); }
# else
    { static gost_ctx rc; gost_init(&rc, &Gost28147_TC26ParamSetZ); magma_key(&rc, k); magmacrypt(&rc, aad, r); }
# endif
    VP_ASSERT(vp_eq(o, r, BL), "block function of the mode is not the cipher under the context's key");
}
void vp_main(void)
{
    EVP_CIPHER *ci; EVP_CIPHER_CTX x = { 0 };
    u64 mw[(sizeof(gost_mgm_ctx) + 7) / 8] = { 0 };
    gost_mgm_ctx *mem = (gost_mgm_ctx *)mw;
    nd_bytes(key, 32); nd_bytes(iv, BL); nd_bytes(aad, 16); nd_bytes(key0, 32); nd_bytes(iv0, BL);
    ci = GOST_init_cipher(&DESC);
# if BLOCKJOB > 1
    VP_ASSERT(vp_cipher_init(&x, ci, mem, key0, iv0, ENC) == 1, "init failed");
# endif
    VP_ASSERT(vp_cipher_init(&x, ci, mem, key, iv, ENC) == 1, "init failed");
    one(mem, key);
    VP_WITNESS("block");
}
#else
void vp_main(void)
{
    EVP_CIPHER *ci;
    nd_bytes(key, 32); nd_bytes(iv, BL); nd_bytes(aad, AL); nd_bytes(in, ML); nd_bytes(gtag, BL);
    nd_bytes(key0, 32); nd_bytes(iv0, BL); nd_bytes(wY, BL); nd_bytes(wZ, BL);
    ci = GOST_init_cipher(&DESC);
    VP_ASSERT(ci != NULL && ci->iv_len == BL && ci->ctx_size == sizeof(gost_mgm_ctx), "descriptor");
#ifndef VP_CBMC
    steer();
    {   static gost_mgm_ctx mem; static EVP_CIPHER_CTX x;
        VP_ASSERT(vp_cipher_init(&x, ci, &mem, key, iv, ENC) == 1, "init failed"); real_mul = mem.mgm.mul_gf; real_block = mem.mgm.block; real_key = &mem.ks; }
#endif
    reference();
#ifndef VP_CBMC
    if (vp_steer() >= 4) memcpy(gtag, rtag, BL);
#endif
    VP_SPLIT(a, AC1 - AC0) VP_SPLIT(c, MC1 - MC0) go(ci, AC0 + a, MC0 + c);
}
#endif
