/* P20: KDF_TREE and TLSTREE over an HMAC transcript.
 * -DMODE 0 kdf tree, 1 tlstree, 2 OMAC control, 3 cipher control, 4 faults */
#include "ciph.h"
#include "omodel.h"
#include "misc.h"
#if KUZ
# define CBC NID_grasshopper_cbc
#else
# define CBC NID_magma_cbc
#endif
static u8 key[64], label[80], seed[80];
static void hm(const u8 *k, unsigned kl, unsigned long ctr, unsigned w, const u8 *lab, unsigned ll, const u8 *sd, unsigned sl, unsigned long bits, u8 *o)
{
    u64 s = tr_key(tr_start(TR_HMAC, NID_id_GostR3411_2012_256), k, kl); int i;
    for (i = w - 1; i >= 0; i--) s = tr_abs(s, ctr >> 8 * i & 0xff);
    s = tr_bytes(s, lab, ll); s = tr_abs(s, 0); s = tr_bytes(s, sd, sl);
    for (i = 7; i >= 0; i--) if (bits >> 8 * i) s = tr_abs(s, bits >> 8 * i & 0xff);
    for (i = 0; i < 32; i++) o[i] = tr_out(s, i);
}
static const u64 masks[2][3] = {      /* RFC 9189, 8-byte big-endian numbers */
    { 0xFFFFFFC000000000ULL, 0xFFFFFFFFFE000000ULL, 0xFFFFFFFFFFFFF000ULL },
    { 0xFFFFFFFF00000000ULL, 0xFFFFFFFFFFF80000ULL, 0xFFFFFFFFFFFFFFC0ULL } };
static void tree(const u8 *k, const u8 *seq, u8 *o)
{
    u8 a[32], s[8], lv[6] = { 'l', 'e', 'v', 'e', 'l', '1' }; int i, j;
    memcpy(a, k, 32);
    for (i = 0; i < 3; i++) {
        for (j = 0; j < 8; j++) s[j] = seq[j] & (u8)(masks[KUZ][i] >> (56 - 8 * j));
        lv[5] = '1' + i;
        hm(a, 32, 1, 1, lv, 6, s, 8, 256, o); memcpy(a, o, 32);
    }
}
static int clean(const u8 *b, unsigned from, unsigned to) { unsigned i; u8 d = 0; for (i = from; i < to; i++) d |= b[i] ^ 0x5a; return d == 0; }
#if MODE == 0 && !defined(VP_HMAC_REC)
#ifndef HUGE
static void kdf(unsigned ol, unsigned kl, unsigned ll, unsigned sl)
{
    static u8 out[32 + OMAX + 32], want[OMAX + 32]; unsigned i; int r, live = vp_live;
    memset(out, 0x5a, sizeof(out));
    r = gost_kdftree2012_256(out + 32, ol, key, kl, label, ll, seed, sl, CW);
    if (ol == 0 || ol % 32 || CW < 1 || CW > 4 || (CW == 1 && ol / 32 > 255)) VP_ASSERT(r <= 0 && clean(out, 0, sizeof(out)), "invalid length or counter width accepted");
    else {
#ifdef ENDS   /* long outputs: the first and the last block */
        for (i = 0; i < ol / 32; i += ol / 32 - 1) {
            hm(key, kl, i + 1, CW, label, ll, seed, sl, 8ul * ol, want);
            VP_ASSERT(r == 1 && vp_eq(out + 32 + 32 * i, want, 32), "derived key differs from KDF_TREE");
        }
#else
        for (i = 0; i < ol / 32; i++) hm(key, kl, i + 1, CW, label, ll, seed, sl, 8ul * ol, want + 32 * i);
        VP_ASSERT(r == 1 && vp_eq(out + 32, want, ol), "derived key differs from KDF_TREE");
#endif
        VP_ASSERT(clean(out, 0, 32) && clean(out, 32 + ol, sizeof(out)), "write outside the output");
    }
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("kdf");
}
#endif
#endif
#ifdef VP_HMAC_REC   /* long outputs: every HMAC message of the iteration, byte by byte */
extern u8 vp_hm_msg[64], vp_hm_key[64]; extern unsigned vp_hm_n, vp_hm_kn;
static unsigned its, bad, olen;
void vp_hm_final(u8 *o)
{
    unsigned i, n = 0, bits = 8 * olen; int k;
    its++;
    for (k = CW - 1; k >= 0; k--) bad |= vp_hm_msg[n++] ^ (u8)(its >> 8 * k);
    for (i = 0; i < LL; i++) bad |= vp_hm_msg[n++] ^ label[i];
    bad |= vp_hm_msg[n++];
    for (i = 0; i < SL; i++) bad |= vp_hm_msg[n++] ^ seed[i];
    for (k = 3; k >= 0; k--) if (bits >> 8 * k) bad |= vp_hm_msg[n++] ^ (u8)(bits >> 8 * k);
    bad |= vp_hm_n ^ n | vp_hm_kn ^ KL;
    for (i = 0; i < KL; i++) bad |= vp_hm_key[i] ^ key[i];
    o[0] = its * 7; o[31] = its * 7 + 31;
}
static void rec(void)
{
    static u8 out[OL + 32]; unsigned i; int r, live = vp_live;
    memset(out, 0x5a, sizeof(out)); olen = OL;
    r = gost_kdftree2012_256(out, OL, key, KL, label, LL, seed, SL, CW);
    VP_ASSERT(r == 1 && its == OL / 32, "number of iterations");
    VP_ASSERT(bad == 0, "HMAC input differs from the KDF_TREE encoding");
    for (i = 0; i < OL / 32; i++) VP_ASSERT(out[32 * i] == (u8)((i + 1) * 7) && out[32 * i + 31] == (u8)((i + 1) * 7 + 31), "block misplaced");
    VP_ASSERT(clean(out, OL, sizeof(out)) && vp_live == live, "write outside the output, or leak");
    VP_WITNESS("kdf");
}
#endif
#if MODE == 4
static void fault(unsigned f, int tls)
{
    u8 out[64], want[64]; int r, live = vp_live;
    vp_fault_n = 0; vp_faulted = 0; vp_fault_at = f;
    if (tls) r = gost_tlstree(CBC, key, out, seed);
    else r = gost_kdftree2012_256(out, 64, key, 32, label, 4, seed, 8, 1);
    vp_fault_at = -1;
    if (vp_faulted) VP_ASSERT(r <= 0, "success after an underlying failure");
    else {
        if (tls) tree(key, seed, want);
        else { hm(key, 32, 1, 1, label, 4, seed, 8, 512, want); hm(key, 32, 2, 1, label, 4, seed, 8, 512, want + 32); }
        VP_ASSERT(r == 1 && vp_eq(out, want, tls ? 32 : 64), "wrong without a fault");
    }
    VP_ASSERT(vp_live == live, "objects leaked after a failure");
    if (f == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    VP_WITNESS("fault");
}
#endif
#if MODE == 2
extern GOST_digest magma_mac_digest, grasshopper_mac_digest;
EVP_MD *GOST_init_digest(GOST_digest *d);
static void omac(void)
{
    EVP_MD *md = GOST_init_digest(KUZ ? &grasshopper_mac_digest : &magma_mac_digest);
    EVP_MD_CTX *x; u8 out[16], k1[32]; unsigned i, n = KUZ ? 16 : 8; u64 s; int live = vp_live;
    vp_md_reg[0] = md;
    x = EVP_MD_CTX_new();
    VP_ASSERT(EVP_DigestInit_ex(x, md, NULL) == 1, "init");
    VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_TLSTREE, 0, seed) <= 0, "TLSTREE without a key accepted");
    VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, 32, key) == 1, "key");
    for (i = 0; i < 2; i++) {       /* successive records: always from the base key */
        VP_ASSERT(EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_TLSTREE, 0, seed + 8 * i) == 1, "TLSTREE control failed");
        tree(key, seed + 8 * i, k1);
    }
    VP_ASSERT(EVP_DigestUpdate(x, label, 5) == 1 && EVP_DigestFinal_ex(x, out, NULL) == 1, "mac");
    s = tr_bytes(tr_key(tr_start(TR_CMAC, CBC), k1, 32), label, 5);
    for (i = 0; i < n; i++) VP_ASSERT(out[i] == tr_out(s, i), "record MAC not keyed with the TLSTREE key");
    EVP_MD_CTX_free(x);
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("omac");
}
#endif
#if MODE == 3
extern GOST_cipher DESC;
static void tree2(int nid, const u8 *k, const u8 *seq, u8 *o) { u64 s = tr_bytes(tr_key(tr_start(9, nid), k, 32), seq, 8); int i; for (i = 0; i < 32; i++) o[i] = tr_out(s, i); }
int gost_tlstree(int nid, const unsigned char *in, unsigned char *out, const unsigned char *seq) { tree2(nid, in, seq, out); return 1; }
static void ciph(void)
{
    CTXT mem = { 0 }, mem2 = { 0 }; EVP_CIPHER_CTX x = { 0 }, y = { 0 }; u8 k1[32], iv[16], out[48], ref[48]; unsigned j, m; int c;
    EVP_CIPHER *ci = GOST_init_cipher(&DESC);
    VP_ASSERT(ci && ci->ctx_size == sizeof(CTXT), "descriptor");
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, key, label, 1) == 1, "init");
    VP_ASSERT(vp_update(&x, out, label + 20, PRE), "update");
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_TLSTREE, 2 + nd_upto(50), seed) <= 0 && ci->ctrl(&x, EVP_CTRL_TLSTREE, -1 - (int)nd_upto(50), seed) <= 0, "bad sequence mode accepted");
    for (m = 0; m < RECS; m++) {
        u8 s0[8]; memcpy(s0, seed + 8 * m, 8);
        VP_ASSERT(ci->ctrl(&x, EVP_CTRL_TLSTREE, DEC, seed + 8 * m) == 1, "TLSTREE control failed");
        VP_ASSERT(vp_eq(s0, seed + 8 * m, 8), "caller's sequence number modified");
#if DEC
        for (j = 8; j--; ) if (s0[j]) { s0[j]--; break; } else s0[j] = 0xff;
#endif
        tree2(CBC, key, s0, k1);
        memset(iv, 0, 16);
        /* record IV: base IV + sequence number mod 2^(n/2) */
        for (j = IVL, c = 0; j--; ) { int t = label[j] + s0[8 - IVL + j] + c; c = t > 255; iv[j] = t; }
        VP_ASSERT(vp_cipher_init(&y, ci, &mem2, k1, iv, 1) == 1, "init");
        VP_ASSERT(vp_update(&x, out, label + 20, RECLEN) && vp_update(&y, ref, label + 20, RECLEN), "update");
        VP_ASSERT(vp_eq(out, ref, RECLEN), "record not encrypted with the TLSTREE key and IV");
    }
    VP_WITNESS("ciph");
}
#endif
void vp_main(void)
{
    nd_bytes(key, 64); nd_bytes(label, 80); nd_bytes(seed, 80);
#if MODE == 0
# ifdef HUGE
    /* lengths whose bit count does not fit in 32 bits: refused up front */
    { u8 out[32]; memset(out, 0x5a, 32);
      VP_SPLIT(i, 2) VP_ASSERT(gost_kdftree2012_256(out, i == 0 ? 0x20000000ul : i == 1 ? 0x40000000ul : 0x2000000000ul, key, 32, label, 4, seed, 8, 4) <= 0 && clean(out, 0, 32), "unrepresentable length accepted"); VP_WITNESS("kdf"); }
# elif defined(VP_HMAC_REC)
    rec();
# else
    kdf(OL, KL, LL, SL);
# endif
#elif MODE == 1
    { u8 out[96], want[32]; int live = vp_live; memset(out, 0x5a, 96); tree(key, seed, want);
      VP_ASSERT(gost_tlstree(CBC, key, out + 32, seed) == 1 && vp_eq(out + 32, want, 32), "TLSTREE key differs");
      VP_ASSERT(clean(out, 0, 32) && clean(out, 64, 96), "write outside the key");
      memset(out, 0x5a, 96);
      static const int cns[] = { 0, -1, NID_magma_ctr, NID_grasshopper_ctr, NID_magma_mac, NID_grasshopper_mac, NID_grasshopper_ecb, NID_magma_ctr_acpkm, NID_id_Gost28147_89, 1 };
      VP_SPLIT(q, sizeof(cns) / sizeof(*cns) - 1) VP_ASSERT(gost_tlstree(cns[q], key, out, seed) <= 0 && clean(out, 0, 96), "unknown cipher accepted");
      VP_ASSERT(vp_live == live, "objects leaked");
      VP_WITNESS("tls"); }
#elif MODE == 2
    omac();
#elif MODE == 3
    ciph();
#else
    VP_SPLIT(f, FAULTS) fault(f, TLS);
#endif
}
