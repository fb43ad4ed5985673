/* P12: CTR-ACPKM-OMAC.  Real cipher methods + gost_gost2015.c +
 * gost_keyexpimp.c over HMAC / MAC transcripts.  Expected ciphertext: the
 * plain CTR-ACPKM cipher (decided by P11) under the first derived key;
 * expected MAC: the MAC transcript of the plaintext under the second one,
 * encrypted with the continuing key stream.
 * -DKUZ -DLEN -DENC -DAS=list of first cuts -DBS=list of second pieces
 * -DMODE 0 stream, 1 faults (-DFAULTS), 2 ordering and re-use, 3 copies,
-DMESHARG section size */
#include "ciph.h"
#include "omodel.h"
#include <openssl/objects.h>
#include <openssl/x509.h>
extern GOST_cipher magma_ctr_acpkm_cipher, magma_ctr_acpkm_omac_cipher;
extern GOST_cipher grasshopper_ctr_acpkm_cipher, grasshopper_ctr_acpkm_omac_cipher;
#if KUZ
# define DESC grasshopper_ctr_acpkm_omac_cipher
# define PLAIN grasshopper_ctr_acpkm_cipher
# define CTXT gost_grasshopper_cipher_ctx_ctr
# define IVL 8
# define ML 16
# define MACNID NID_kuznyechik_mac
#else
# define DESC magma_ctr_acpkm_omac_cipher
# define PLAIN magma_ctr_acpkm_cipher
# define CTXT struct ossl_gost_cipher_ctx
# define IVL 4
# define ML 8
# define MACNID NID_magma_mac
#endif
#ifndef AS
# define AS 0
#endif
#ifndef BS
# define BS 0
#endif
static u8 key[32], key2[32], iv[16], seed[8], in[LEN + 16], tag[16];
static u8 wct[LEN + 16], wtag[16], wmac[16], pt[LEN + 16];
static EVP_CIPHER *ci, *pci;
/* KDF_TREE(key, "kdf tree", seed, R = 1, 512 bits) */
static void derive(const u8 *k, const u8 *sd, u8 *out)
{
    unsigned b, i; u64 s;
    static const u8 nul = 0, len[2] = { 2, 0 };
    for (b = 0; b < 2; b++) {
        u8 ctr = b + 1;
        s = tr_key(tr_start(TR_HMAC, NID_id_GostR3411_2012_256), k, 32);
        s = tr_bytes(s, &ctr, 1); s = tr_bytes(s, "kdf tree", 8); s = tr_bytes(s, &nul, 1); s = tr_bytes(s, sd, 8); s = tr_bytes(s, len, 2);
        for (i = 0; i < 32; i++) out[32 * b + i] = tr_out(s, i);
    }
}
/* what the whole operation must give; data in -> wct (the other side), tag */
static void expect(const u8 *k, const u8 *sd, const u8 *data, unsigned n, int enc, u8 *ct, u8 *et)
{
    u8 ks[64]; EVP_CIPHER_CTX x = { 0 }; CTXT mem = { 0 }; u64 s; unsigned i;
    derive(k, sd, ks);
    VP_ASSERT(vp_cipher_init(&x, pci, &mem, ks, iv, enc) == 1, "init failed");
#ifdef MESHARG
    VP_ASSERT(pci->ctrl(&x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed");
#endif
    if (n) VP_ASSERT(pci->do_cipher(&x, ct, data, n) == (int)n, "update failed");
    s = tr_bytes(tr_key(tr_start(TR_MAC, MACNID), ks + 32, 32), enc ? data : ct, n);
    for (i = 0; i < ML; i++) wmac[i] = tr_out(s, i);
    VP_ASSERT(pci->do_cipher(&x, et, wmac, ML) == ML, "update failed");
    if (pci->cleanup) pci->cleanup(&x);
}
static int init(EVP_CIPHER_CTX *x, CTXT *m, const u8 *k, int enc)
{
    return vp_cipher_init(x, ci, m, k, iv, enc);
}
#ifdef MESHARG
# define MESHIT(x) VP_ASSERT(ci->ctrl(x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed")
#else
# define MESHIT(x) ((void)0)
#endif
static void setseed(CTXT *m) { memcpy(m->kdf_seed, seed, 8); }
#if MODE == 0
static void go(unsigned a, unsigned b, int inplace)
{
    CTXT mem = { 0 }; EVP_CIPHER_CTX x = { 0 }; u8 out[LEN + 32]; const u8 *src = in; int r, live = vp_live; unsigned i;
    setseed(&mem);
    memset(out, 0x5a, LEN + 32);
    if (inplace) { memcpy(out, in, LEN); src = out; }
    VP_ASSERT(init(&x, &mem, key, ENC) == 1, "init failed");
    MESHIT(&x);
    if (ENC) { memcpy(seed, mem.kdf_seed, 8); expect(key, seed, in, LEN, 1, wct, wtag); }
    if (a) VP_ASSERT(ci->do_cipher(&x, out, src, a) == (int)a, "update failed");
    if (b) VP_ASSERT(ci->do_cipher(&x, out + a, src + a, b) == (int)b, "update failed");
    if (LEN - a - b) VP_ASSERT(ci->do_cipher(&x, out + a + b, src + a + b, LEN - a - b) == (int)(LEN - a - b), "update failed");
    VP_ASSERT(vp_eq(out, wct, LEN), "output differs from CTR-ACPKM under the derived key");
    for (i = LEN; i < LEN + 32; i++) VP_ASSERT(out[i] == 0x5a, "write past the output");
    if (!ENC) memcpy(mem.tag, tag, ML);
    r = ci->do_cipher(&x, out, NULL, 0);
    if (ENC) VP_ASSERT(r == 0 && vp_eq(mem.tag, wtag, ML), "tag is not the encrypted MAC of the plaintext");
    else VP_ASSERT((r >= 0) == vp_eq(tag, wtag, ML), "accepted without a matching tag, or refused with one");
    VP_ASSERT(ci->cleanup(&x) == 1 && vp_live == live, "objects leaked");
    VP_WITNESS("stream");
}
#endif
#if MODE == 1
static void fault(unsigned f)
{
    CTXT mem = { 0 }; EVP_CIPHER_CTX x = { 0 }; u8 out[LEN + 32]; int r = 1, live = vp_live, failed = 0;
    setseed(&mem);
    if (!ENC) memcpy(mem.tag, wtag, ML);
    vp_fault_n = 0; vp_faulted = 0; vp_priv_soft = 1; vp_fault_at = f;
    if (init(&x, &mem, key, ENC) != 1) failed = 1;
    if (ENC) { /* data without a working key is refused, however often it is tried */
        if (failed) VP_ASSERT(ci->do_cipher(&x, out, in, 5) < 0 && ci->do_cipher(&x, out, NULL, 0) < 0, "processes data after a failed initialisation");
    } else if (failed) VP_ASSERT(ci->do_cipher(&x, out, in, 5) < 0 && ci->do_cipher(&x, out, NULL, 0) < 0, "processes data after a failed initialisation");
    if (!failed) {
        if (ci->do_cipher(&x, out, in, LEN) != LEN) failed = 1;
        if (!failed) { r = ci->do_cipher(&x, out, NULL, 0); if (r < 0) failed = 1; }
    }
    vp_fault_at = -1;
    if (vp_faulted) VP_ASSERT(failed, "success after an underlying failure");
    else VP_ASSERT(!failed, "failure without a fault");
    ci->cleanup(&x);
    VP_ASSERT(vp_live == live, "objects leaked after a failure");
    if (f == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    VP_WITNESS("fault");
}
#endif
#if MODE == 2
static void order(unsigned u, int fin)
{
    CTXT mem = { 0 }; EVP_CIPHER_CTX x = { 0 }; u8 out[LEN + 32]; int r, live = vp_live;
    setseed(&mem);
    if (fin == 2) {      /* data before any key */
        VP_ASSERT(vp_cipher_init(&x, ci, &mem, NULL, iv, ENC) == 1, "init without a key failed");
        VP_ASSERT(ci->do_cipher(&x, out, NULL, 0) < 0, "final without a key accepted");
        VP_ASSERT(ci->do_cipher(&x, out, in, LEN) < 0, "data without a key accepted");
    } else {             /* another message first, finished or not */
        VP_ASSERT(init(&x, &mem, key2, ENC) == 1, "init failed");
        if (u) VP_ASSERT(ci->do_cipher(&x, out, tag, u) == (int)u, "update failed");
        if (fin) { r = ci->do_cipher(&x, out, NULL, 0); if (ENC) VP_ASSERT(r == 0, "final failed"); }
        setseed(&mem);
    }
    VP_ASSERT(init(&x, &mem, key, ENC) == 1, "re-init failed");
    MESHIT(&x);
    if (ENC) { memcpy(seed, mem.kdf_seed, 8); expect(key, seed, in, LEN, 1, wct, wtag); }
    else memcpy(mem.tag, tag, ML);
    VP_ASSERT(ci->do_cipher(&x, out, in, LEN) == LEN && vp_eq(out, wct, LEN), "output after re-initialisation differs from a fresh context");
    r = ci->do_cipher(&x, out, NULL, 0);
    if (ENC) VP_ASSERT(r == 0 && vp_eq(mem.tag, wtag, ML), "tag after re-initialisation differs from a fresh context");
    else VP_ASSERT((r >= 0) == vp_eq(tag, wtag, ML), "accepted without a matching tag, or refused with one");
    ci->cleanup(&x);
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("order");
}
#endif
#if MODE == 3
static void copies(unsigned u, int which)
{
    CTXT mem = { 0 }, mem2 = { 0 }; EVP_CIPHER_CTX x = { 0 }, y = { 0 }; u8 out[LEN + 32], junk[LEN + 32]; int r, live = vp_live;
    EVP_CIPHER_CTX *p = which ? &x : &y, *q = which ? &y : &x; CTXT *pm = which ? &mem : &mem2;
    if (u > LEN) {       /* copying a context without a key */
        VP_ASSERT(vp_cipher_init(&x, ci, &mem, NULL, iv, ENC) == 1, "init without a key failed");
        VP_ASSERT(vp_cipher_copy(&y, &x, &mem2) == 1, "copy of a context without a key failed");
        u = 0;
        setseed(&mem); setseed(&mem2);
        VP_ASSERT(init(p, pm, key, ENC) == 1, "init failed");
        VP_ASSERT(ci->do_cipher(q, junk, tag, 3) < 0, "copy without a key accepts data");
        MESHIT(p);
        if (ENC) { memcpy(seed, pm->kdf_seed, 8); expect(key, seed, in, LEN, 1, wct, wtag); }
    } else {
        setseed(&mem);
        VP_ASSERT(init(&x, &mem, key, ENC) == 1, "init failed");
        MESHIT(&x);
        if (ENC) { memcpy(seed, mem.kdf_seed, 8); expect(key, seed, in, LEN, 1, wct, wtag); }
        if (u) VP_ASSERT(ci->do_cipher(&x, out, in, u) == (int)u, "update failed");
        VP_ASSERT(vp_cipher_copy(&y, &x, &mem2) == 1, "copy failed");
        VP_ASSERT(ci->do_cipher(q, junk, tag, 7) == 7, "update failed");
        ci->do_cipher(q, junk, NULL, 0);
    }
    ci->cleanup(q); memset(which ? &mem2 : &mem, 0, sizeof(CTXT));
    if (!ENC) memcpy(pm->tag, tag, ML);
    if (LEN - u) VP_ASSERT(ci->do_cipher(p, out + u, in + u, LEN - u) == (int)(LEN - u), "update failed");
    VP_ASSERT(vp_eq(out, wct, LEN), "stream disturbed by the other context");
    r = ci->do_cipher(p, junk, NULL, 0);
    if (ENC) VP_ASSERT(r == 0 && vp_eq(pm->tag, wtag, ML), "tag differs from that of an undisturbed context");
    else VP_ASSERT((r >= 0) == vp_eq(tag, wtag, ML), "accepted without a matching tag, or refused with one");
    ci->cleanup(p);
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("copy");
}
#endif
void vp_main(void)
{
    static const unsigned as[] = { AS }, bs[] = { BS };
    (void)as; (void)bs;
    nd_bytes(key, 32); nd_bytes(key2, 32); nd_bytes(iv, IVL); nd_bytes(seed, 8); nd_bytes(tag, 16); nd_bytes(in, LEN);
    ci = GOST_init_cipher(&DESC); pci = GOST_init_cipher(&PLAIN);
    VP_ASSERT(ci != NULL && pci != NULL && ci->iv_len == IVL && ci->key_len == 32 && ci->ctx_size == sizeof(CTXT) && (ci->flags & EVP_CIPH_MODE) == EVP_CIPH_CTR_MODE
              && (ci->flags & EVP_CIPH_FLAG_CIPHER_WITH_MAC) && (ci->flags & EVP_CIPH_FLAG_CUSTOM_CIPHER) && (ci->flags & EVP_CIPH_CUSTOM_COPY), "descriptor");
    if (!ENC || MODE == 1) expect(key, seed, in, LEN, ENC, wct, wtag);
    /* the received tag is given by its difference from the right one: a
     * counterexample carries over to the real functions */
    if (!ENC) { unsigned i; for (i = 0; i < ML; i++) tag[i] ^= wtag[i]; }
#if MODE == 0
# ifndef INPLACE
#  define INPLACE 0
# endif
    VP_SPLIT(a, sizeof(as) / sizeof(*as) - 1) VP_SPLIT(b, sizeof(bs) / sizeof(*bs) - 1) if (as[a] + bs[b] <= LEN) go(as[a], bs[b], INPLACE);
#elif MODE == 1
    VP_SPLIT(f, FAULTS) fault(f);
#elif MODE == 2
    VP_SPLIT(a, sizeof(as) / sizeof(*as) - 1) VP_SPLIT(m, 2) order(as[a], m);
#elif MODE == 3
    VP_SPLIT(a, sizeof(as) / sizeof(*as) - 1) VP_SPLIT(m, 1) copies(as[a], m);
#endif
}
