/* P16 (and the copy part of P21): GOST 28147-89 MAC through the digest method,
 * and the low-level helpers.  -DWHICH 0 CPA 1 TC26 Z, -DLEN, cuts A0..A1 and
 * second piece 0..B1, -DPRE constant prefix length fed first in one call,
 * -DKEYMODE 0 raw key, 1 gost_mac_key with a parameter set, 2 without,
 * -DSIZE output size (0: default), -DCOPY 1: continue on a copy taken after
 * the first piece while the original is fed other data;  -DLOW: helpers */
#include "ciph.h"
extern GOST_digest Gost28147_89_MAC_digest, Gost28147_89_mac_12_digest;
EVP_MD *GOST_init_digest(GOST_digest *d);
#if WHICH
# define DESC Gost28147_89_mac_12_digest
# define DEFSET Gost28147_TC26ParamSetZ
#else
# define DESC Gost28147_89_MAC_digest
# define DEFSET Gost28147_CryptoProParamSetA
#endif
#ifndef PRE
# define PRE 0
#endif
#ifndef SIZE
# define SIZE 0
#endif
static u8 key[32], in[PRE + LEN + 16], iv[8], ref[8];
static gost_ctx rc;
static void setref(const gost_subst_block *s) { gost_init(&rc, s); gost_key(&rc, key); }
static void mac_ref(const u8 *iv0, const u8 *d, unsigned n, int mesh)
{
    u8 s[8], b[8]; unsigned i, j, m = 0;
    if (iv0) memcpy(s, iv0, 8); else memset(s, 0, 8);
    unsigned blocks = (n + 7) / 8;
    if (blocks == 1) blocks = 2;
    for (i = 0; i < blocks; i++) {
        for (j = 0; j < 8; j++) b[j] = 8 * i + j < n ? d[8 * i + j] : 0;
        if (mesh && i && i % 128 == 0) cryptopro_key_meshing(&rc, NULL);
        mac_block(&rc, s, b);
    }
    memcpy(ref, s, 8);
}
#ifdef LOW
void vp_main(void)
{
    u8 out[24]; unsigned nb, i; int r;
    nd_bytes(key, 32); nd_bytes(in, LEN); nd_bytes(iv, 8);
    setref(&DEFSET);
    VP_SPLIT(v, 1) {
        mac_ref(v ? iv : NULL, in, LEN, 0);
        nb = nd_upto(64);
        memset(out, 0x5a, 24);
        r = v ? gost_mac_iv(&rc, nb, iv, in, LEN, out + 8) : gost_mac(&rc, nb, in, LEN, out + 8);
        VP_ASSERT(r == 1, "helper reports failure");
        for (i = 0; i < 8; i++) {
            u8 m = 8 * i >= nb ? 0 : nb - 8 * i >= 8 ? 0xff : (1 << (nb - 8 * i)) - 1;
            VP_ASSERT(m ? out[8 + i] == (ref[i] & m) : out[8 + i] == 0x5a, "MAC bits differ, or bytes beyond the requested bits written");
        }
        for (i = 0; i < 8; i++) VP_ASSERT(out[i] == 0x5a && out[16 + i] == 0x5a, "write outside the result");
    }
    VP_WITNESS("low");
}
#else
static int feed(EVP_MD_CTX *p, const u8 *d, unsigned n) { return p->digest->update(p, d, n) == 1; }
static void go(EVP_MD *md, unsigned a, unsigned b)
{
    u8 out[32]; unsigned i, sz = SIZE ? SIZE : 4; EVP_MD_CTX *p;
    EVP_MD_CTX x = { 0 }, y = { 0 }; struct ossl_gost_imit_ctx mem = { 0 }, mem2 = { 0 };
    x.digest = md; x.md_data = &mem; p = &x;
    VP_ASSERT(md->init(&x) == 1, "init failed");
#if KEYMODE == 3
    VP_ASSERT(md->update(&x, in, LEN) <= 0, "update without a key accepted");
    VP_ASSERT(md->final(&x, out) <= 0, "final without a key accepted");
    VP_SPLIT(kl, 48) if (kl != 0 && kl != 32) VP_ASSERT(md->ctrl(&x, EVP_MD_CTRL_SET_KEY, kl, key) <= 0, "key of a wrong length accepted");
    VP_ASSERT(md->update(&x, in, LEN) <= 0 && md->final(&x, out) <= 0, "usable after a refused key");
    VP_ASSERT(md->ctrl(&x, EVP_MD_CTRL_XOF_LEN, 0, NULL) <= 0 && md->ctrl(&x, EVP_MD_CTRL_XOF_LEN, -1 - (int)nd_upto(100), NULL) <= 0 && md->ctrl(&x, EVP_MD_CTRL_XOF_LEN, 9 + nd_upto(300), NULL) <= 0, "invalid MAC size accepted");
    VP_WITNESS("nokey"); return;
#elif KEYMODE == 0
    VP_ASSERT(md->ctrl(&x, EVP_MD_CTRL_SET_KEY, 32, key) == 1, "key refused");
#else
    {   struct gost_mac_key k; memset(&k, 0, sizeof(k)); memcpy(k.key, key, 32); k.mac_size = 4;
        k.mac_param_nid = KEYMODE == 1 ? NID_id_Gost28147_89_CryptoPro_B_ParamSet : NID_undef;
        VP_ASSERT(md->ctrl(&x, EVP_MD_CTRL_SET_KEY, 0, &k) == 1, "key refused"); }
#endif
#if SIZE
    VP_ASSERT(md->ctrl(&x, EVP_MD_CTRL_XOF_LEN, SIZE, NULL) == 1, "MAC size refused");
#endif
    VP_ASSERT(!PRE || feed(&x, in, PRE), "update failed");
    VP_ASSERT(feed(&x, in + PRE, a), "update failed");
#if COPY
    /* EVP_MD_CTX_copy_ex: bitwise copy of md_data, then the method's copy */
    y = x; y.md_data = &mem2; mem2 = mem;
    VP_ASSERT(!md->copy || md->copy(&y, &x) == 1, "copy failed"); p = &y;
# if COPY == 1
    VP_ASSERT(feed(&x, iv, 8) && feed(&x, iv, 8) && md->final(&x, out) == 1, "original unusable after copy");
# endif
    md->cleanup(&x); mem.count = 8; mem.bytes_left = 5; mem.buffer[0] = 1; mem.cctx.key[0] = 77;
#endif
    VP_ASSERT(!b || feed(p, in + PRE + a, b), "update failed");
    VP_ASSERT(feed(p, in + PRE + a + b, LEN - a - b), "update failed");
    memset(out, 0x5a, 32);
    VP_ASSERT(md->final(p, out + 8) == 1, "final failed");
    VP_ASSERT(vp_eq(out + 8, ref, sz), "MAC differs from the standard's");
    for (i = 0; i < 32; i++) VP_ASSERT((i >= 8 && i < 8 + sz) || out[i] == 0x5a, "write outside the MAC");
#if KEYMODE != 3
    VP_WITNESS("imit");
#endif
}
void vp_main(void)
{
    EVP_MD *md; unsigned i;
    nd_bytes(key, 32); nd_bytes(in + PRE, LEN); nd_bytes(iv, 8);
    for (i = 0; i < PRE; i++) in[i] = i;
#if KEYMODE == 1
    setref(&Gost28147_CryptoProParamSetB);
#else
    setref(&DEFSET);
#endif
    mac_ref(NULL, in, PRE + LEN, 1);
    md = GOST_init_digest(&DESC);
    VP_ASSERT(md != NULL && md->ctx_size == sizeof(struct ossl_gost_imit_ctx) && md->md_size == 4, "descriptor");
    VP_SPLIT(a, A1 - A0) VP_SPLIT(b, LEN - (A0 + a) < B1 ? LEN - (A0 + a) : B1) go(md, A0 + a, b);
}
#endif
