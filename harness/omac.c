/* P17: OMAC (gost_omac.c) over a CMAC transcript and OMAC-ACPKM
 * (gost_omac_acpkm.c) over abstract CBC / CTR-ACPKM ciphers, through the EVP
 * digest entry points.  -DWHICH 0 magma-mac 1 grasshopper-mac 2 ctracpkm-omac
 * -DLEN, cuts A0..A1, second piece 0..B1; -DSIZE; -DKEYMODE; -DCOPY;
 * -DSECT/-DTSTAR section sizes (ACPKM);  -DFAULTS n: run with the i-th
 * underlying call failing for every i;  -DMODE 1: misuse sequences */
#include "vp.h"
#include "omodel.h"
#include "misc.h"
#include "gost_lcl.h"
extern GOST_digest magma_mac_digest, grasshopper_mac_digest, kuznyechik_ctracpkm_omac_digest;
EVP_MD *GOST_init_digest(GOST_digest *d);
#if WHICH == 0
# define DESC magma_mac_digest
# define BL 8
# define CNID NID_magma_cbc
#elif WHICH == 1
# define DESC grasshopper_mac_digest
# define BL 16
# define CNID NID_grasshopper_cbc
#else
# define DESC kuznyechik_ctracpkm_omac_digest
# define BL 16
# define CNID NID_grasshopper_cbc
#endif
#define CT NID_kuznyechik_ctr_acpkm
#ifndef SECT
# define SECT 0
#endif
#ifndef TSTAR
# define TSTAR 0
#endif
const EVP_CIPHER *vp_ctracpkm(void) { return vp_abs_cipher(CT); }
#if WHICH == 2
const EVP_CIPHER *cipher_gost_grasshopper_ctracpkm(void) { return vp_ctracpkm(); }
#endif
static u8 key[32], key2[32], in[LEN + 32], ref[16], ref2[16];
static void mac_ref(const u8 *k, const u8 *d, unsigned n, u8 *o)
{
    unsigned i, j;
#if WHICH < 2
    u64 s = tr_bytes(tr_key(tr_start(TR_CMAC, CNID), k, 32), d, n);
    for (i = 0; i < BL; i++) o[i] = tr_out(s, i);
#else
    u8 iv[8], km[48], st[16], b[16], k1[16]; u64 s, ks; unsigned nb = n ? (n + 15) / 16 : 1, sec = SECT ? SECT : 4096;
    memset(iv, 0xff, 8); memset(st, 0, 16);
    s = vp_abs_stream(CT, k, iv);
    for (i = 0; i < nb; i++) {
        if (i * 16 % sec == 0) {
            for (j = 0; j < 48; j++) km[j] = vp_abs_sbyte(s, TSTAR, 48 * (i * 16 / sec) + j);
            ks = tr_key(tr_start(TR_CIPH, CNID), km, 32);
        }
        memset(b, 0, 16);
        for (j = 0; j < 16 && 16 * i + j < n; j++) b[j] = d[16 * i + j];
        if (i == nb - 1) {
            memcpy(k1, km + 32, 16);
            if (n == 0 || n % 16) {
                b[n % 16] = 0x80;
                for (j = 0; j < 16; j++) {
                    k1[j] = km[32 + j] << 1;
                    if (j < 15 && km[33 + j] & 0x80) k1[j] |= 1;
                }
                if (km[32] & 0x80) k1[15] ^= 0x87;
            }
            for (j = 0; j < 16; j++) b[j] ^= k1[j];
        }
        for (j = 0; j < 16; j++) b[j] ^= st[j];
        vp_abs_block(ks, b, st, 16);
    }
    memcpy(o, st, 16);
#endif
}
static int setkey(EVP_MD_CTX *x, const u8 *k)
{
    int t = TSTAR;
#if KEYMODE == 0
    if (EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, 32, (void *)k) <= 0) return 0;
#else
    struct gost_mac_key mk; memset(&mk, 0, sizeof(mk)); memcpy(mk.key, k, 32);
    if (EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, 0, &mk) <= 0) return 0;
#endif
#if SECT
    if (EVP_MD_CTX_ctrl(x, EVP_CTRL_KEY_MESH, SECT, &t) <= 0) return 0;
#endif
#if SIZE
    if (EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_XOF_LEN, SIZE, NULL) <= 0) return 0;
#endif
    return 1;
}
#define OUTSZ (SIZE ? SIZE : BL)
static EVP_MD *md;
static void fin_ok(EVP_MD_CTX *x, const u8 *r)
{
    u8 out[48]; unsigned i, d = 0;
    memset(out, 0x5a, 48);
    VP_ASSERT(EVP_DigestFinal_ex(x, out + 16, NULL) == 1, "final failed");
    VP_ASSERT(vp_eq(out + 16, r, OUTSZ), "MAC differs from the standard's");
    for (i = 0; i < 48; i++) if (i < 16 || i >= 16 + OUTSZ) d |= out[i] ^ 0x5a;
    VP_ASSERT(!d, "write outside the MAC");
}
#if MODE == 0 && !defined FAULTS
static void go(unsigned a, unsigned b)
{
    EVP_MD_CTX *x, *y = NULL, *p;
    int live = vp_live;
    x = EVP_MD_CTX_new();
    VP_ASSERT(x && EVP_DigestInit_ex(x, md, NULL) == 1 && setkey(x, key), "keying failed");
    VP_ASSERT(EVP_DigestUpdate(x, in, a) == 1, "update failed");
    p = x;
# if COPY
    y = EVP_MD_CTX_new();
    VP_ASSERT(y && EVP_MD_CTX_copy_ex(y, x) == 1, "copy failed");
    {   EVP_MD_CTX *q = COPY == 1 ? x : y; u8 o[32];
        p = COPY == 1 ? y : x;
        VP_ASSERT(EVP_DigestUpdate(q, in, 3) == 1 && EVP_DigestUpdate(q, key2, 32) == 1 && EVP_DigestFinal_ex(q, o, NULL) == 1, "other copy unusable");
        EVP_MD_CTX_free(q); if (q == x) x = NULL; else y = NULL; }
# endif
    VP_ASSERT(EVP_DigestUpdate(p, in + a, b) == 1, "update failed");
    VP_ASSERT(EVP_DigestUpdate(p, in + a + b, LEN - a - b) == 1, "update failed");
    fin_ok(p, ref);
    EVP_MD_CTX_free(x); EVP_MD_CTX_free(y);
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("omac");
}
#endif
#ifdef FAULTS
static void run(unsigned f)
{
    EVP_MD_CTX *x, *y = NULL, *p; u8 out[32]; int ok = 0, live = vp_live;
    vp_fault_n = 0; vp_faulted = 0; vp_fault_at = f;
    memset(out, 0x5a, 32);
    x = EVP_MD_CTX_new();
    if (x && EVP_DigestInit_ex(x, md, NULL) > 0 && setkey(x, key) > 0 && EVP_DigestUpdate(x, in, LEN / 2) > 0) {
        p = x;
# if COPY
        y = EVP_MD_CTX_new();
        if (y) { if (EVP_MD_CTX_copy_ex(y, x) > 0) p = y; else p = NULL; }
        else p = NULL;
# endif
        ok = p && EVP_DigestUpdate(p, in + LEN / 2, LEN - LEN / 2) > 0 && EVP_DigestFinal_ex(p, out, NULL) > 0;
    }
    EVP_MD_CTX_free(x); EVP_MD_CTX_free(y);
    vp_fault_at = -1;
    VP_ASSERT(vp_faulted || ok, "failure without a fault");
    VP_ASSERT(!ok || vp_eq(out, ref, OUTSZ), "success reported with a wrong MAC after an underlying failure");
    VP_ASSERT(vp_live == live, "objects leaked after a failure");
    if (f == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    VP_WITNESS("fault");
}
#endif
#if MODE == 1
static void misuse(void)
{
    EVP_MD_CTX *x; u8 out[32]; int i, live = vp_live, t = 0;
    x = EVP_MD_CTX_new();
    VP_ASSERT(EVP_DigestInit_ex(x, md, NULL) == 1, "init");
    VP_ASSERT(EVP_DigestUpdate(x, in, LEN) <= 0 && md->final(x, out) <= 0, "usable without a key");
    VP_SPLIT(kl, 66) if (kl != 0 && kl != 32) {
        VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, kl, key) <= 0, "key of a wrong length accepted");
        VP_ASSERT(EVP_DigestUpdate(x, in, LEN) <= 0 && md->final(x, out) <= 0, "usable after a refused key");
    }
    VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, -1 - (int)nd_upto(1000), key) <= 0, "key of a negative length accepted");
    VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_XOF_LEN, 0, NULL) <= 0 && EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_XOF_LEN, -1 - (int)nd_upto(100), NULL) <= 0
        && EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_XOF_LEN, BL + 1 + nd_upto(300), NULL) <= 0, "invalid MAC size accepted");
#if WHICH == 2
    VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_CTRL_KEY_MESH, 32, &t) <= 0, "section size without a key accepted");
#endif
    /* keying over an already keyed, partly used context starts afresh */
    VP_ASSERT(setkey(x, key2) && EVP_DigestUpdate(x, in, 5) == 1, "keying failed");
#if WHICH == 2
    VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_CTRL_KEY_MESH, 0, &t) <= 0 && EVP_MD_CTX_ctrl(x, EVP_CTRL_KEY_MESH, 16 * nd_upto(200) + 1 + nd_upto(14), &t) <= 0, "invalid section size accepted");
    VP_ASSERT(EVP_DigestUpdate(x, in, 5) == 1, "update");
#endif
    VP_ASSERT(EVP_MD_CTX_ctrl(x, 0x7777, 1, NULL) <= 0, "unknown control accepted");
    VP_ASSERT(setkey(x, key), "keying failed");
    VP_ASSERT(EVP_DigestUpdate(x, in, LEN) == 1, "update failed");
    fin_ok(x, ref);
    /* finalised: must be keyed again */
    VP_ASSERT(EVP_DigestUpdate(x, in, LEN) <= 0 && md->final(x, out) <= 0, "usable after final without a key");
    /* re-initialisation drops the key */
    VP_ASSERT(EVP_DigestInit_ex(x, md, NULL) == 1, "re-init");
    VP_ASSERT(setkey(x, key2) && EVP_DigestUpdate(x, in, LEN) == 1, "second use");
    fin_ok(x, ref2);
    x->flags = 0;
    VP_ASSERT(EVP_DigestInit_ex(x, md, NULL) == 1 && setkey(x, key2) && EVP_DigestUpdate(x, in, 1) == 1, "third use");
    x->flags = 0;
    VP_ASSERT(EVP_DigestInit_ex(x, md, NULL) == 1 && md->update(x, in, 1) <= 0, "init keeps the old key");
    EVP_MD_CTX_free(x);
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("misuse");
}
#endif
void vp_main(void)
{
    nd_bytes(key, 32); nd_bytes(key2, 32); nd_bytes(in, LEN);
    md = GOST_init_digest(&DESC);
    VP_ASSERT(md != NULL && md->md_size == BL, "descriptor");
    vp_md_reg[0] = md;
    mac_ref(key, in, LEN, ref);
#if MODE == 1
    mac_ref(key2, in, LEN, ref2);
    misuse();
#elif defined FAULTS
    VP_SPLIT(f, FAULTS) run(f);
#else
    VP_SPLIT(a, A1 - A0) VP_SPLIT(b, LEN - (A0 + a) < B1 ? LEN - (A0 + a) : B1) go(A0 + a, b);
#endif
}
