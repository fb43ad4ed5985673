/* P18: KExp15/KImp15 and the wrap ciphers built on them.  Real
 * gost_keyexpimp.c + gost_omac.c over CMAC / CTR transcripts.
 * -DKUZ cipher, -DMODE 0 export and import, 1 import of arbitrary blobs of
 * every length, 2 wrap cipher, 3 faults on export, 4 faults on import,
 * 5 arguments;  -DCA -DCB chunking of the wrap input */
#include "vp.h"
#include "omodel.h"
#include "misc.h"
#include "gost_lcl.h"
extern GOST_digest magma_mac_digest, grasshopper_mac_digest;
extern GOST_cipher magma_kexp15_cipher, kuznyechik_kexp15_cipher;
EVP_MD *GOST_init_digest(GOST_digest *d);
EVP_CIPHER *GOST_init_cipher(GOST_cipher *c);
#if KUZ
# define ML 16
# define IVL 8
# define CTR NID_grasshopper_ctr
# define MAC NID_grasshopper_mac
# define CBC NID_grasshopper_cbc
# define MD grasshopper_mac_digest
# define WRAP kuznyechik_kexp15_cipher
#else
# define ML 8
# define IVL 4
# define CTR NID_magma_ctr
# define MAC NID_magma_mac
# define CBC NID_magma_cbc
# define MD magma_mac_digest
# define WRAP magma_kexp15_cipher
#endif
#define XL (32 + ML)
static u8 shared[64], ck[32], mk[32], iv[16], blob[80];
static void macref(const u8 *k, unsigned n, u8 *o)
{
    u64 s = tr_bytes(tr_bytes(tr_key(tr_start(TR_CMAC, CBC), mk, 32), iv, IVL), k, n); unsigned i;
    for (i = 0; i < ML; i++) o[i] = tr_out(s, i);
}
static void ctrref(const u8 *d, unsigned n, u8 *o)
{
    u64 s = vp_abs_stream(CTR, ck, iv); unsigned i;
    for (i = 0; i < n; i++) o[i] = d[i] ^ vp_abs_sbyte(s, 0, i);
}
static void expref(unsigned n, u8 *o)
{
    u8 t[96]; memcpy(t, shared, n); macref(shared, n, t + n); ctrref(t, n + ML, o);
}
static u8 want[96], plain[96], pmac[16];
static int accept;
static void impref(void)
{
    ctrref(blob, XL, plain); macref(plain, 32, pmac);
    accept = vp_eq(plain + 32, pmac, ML);
}
static int clean(const u8 *b, unsigned from, unsigned to) { unsigned i; u8 d = 0; for (i = from; i < to; i++) d |= b[i] ^ 0x5a; return d == 0; }
#if MODE == 0
static void exp1(unsigned n, int room)
{
    u8 out[128]; int ol = n + ML + room, r, live = vp_live;
    memset(out, 0x5a, 128);
    r = gost_kexp15(shared, n, CTR, ck, MAC, mk, iv, IVL, out + 16, &ol);
    if (room < 0) VP_ASSERT(r <= 0 && clean(out, 0, 128), "export into a short buffer");
    else {
        expref(n, want);
        VP_ASSERT(r == 1 && ol == (int)(n + ML), "export failed or reports a wrong length");
        VP_ASSERT(vp_eq(out + 16, want, n + ML), "exported key is not CTR(key || OMAC(IV || key))");
        VP_ASSERT(clean(out, 0, 16) && clean(out, 16 + n + ML, 128), "write outside the export");
    }
    VP_ASSERT(vp_live == live, "objects leaked");
    if (room >= 0 && n == 32) {
        u8 back[64];
        memset(back, 0x5a, 64);
        r = gost_kimp15(out + 16, XL, CTR, ck, MAC, mk, iv, IVL, back);
        VP_ASSERT(r == 1 && vp_eq(back, shared, 32), "import of an export does not restore the key");
        VP_ASSERT(clean(back, 32, 64), "write outside the imported key");
    }
    VP_WITNESS("exp");
}
#endif
#if MODE == 1
static void imp1(unsigned n)
{
    u8 out[96]; int r, live = vp_live;
    memset(out, 0x5a, 96);
    r = gost_kimp15(blob, n, CTR, ck, MAC, mk, iv, IVL, out + 16);
    if (n != XL) VP_ASSERT(r <= 0, "export of a wrong length accepted");
    else VP_ASSERT((r > 0) == accept, "accepted without a matching MAC, or refused with one");
    VP_ASSERT(r > 0 ? vp_eq(out + 16, plain, 32) : clean(out, 16, 48), "imported key wrong, or key bytes released on refusal");
    VP_ASSERT(clean(out, 0, 16) && clean(out, 48, 96), "write outside the key");
    VP_ASSERT(vp_live == live, "objects leaked");
    VP_WITNESS("imp");
}
#endif
#if MODE == 2
static void wrap(EVP_CIPHER *ci, unsigned a, unsigned n, int enc)
{
    struct { u8 iv[8]; u8 key[64]; u8 wrapped[48]; size_t n; } mem = { 0 };
    EVP_CIPHER_CTX x = { 0 }; u8 out[96], k[64]; int r, r2; unsigned i;
    (void)i;
    memcpy(k, mk, 32); memcpy(k + 32, ck, 32);
    VP_ASSERT(ci->ctx_size == sizeof(mem), "context size");
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, k, iv, enc) == 1, "wrap init failed");
    memset(out, 0x5a, 96);
    VP_ASSERT(ci->do_cipher(&x, NULL, blob, n) == 32, "wrong length announced for a NULL output");
    r = a ? ci->do_cipher(&x, out + 16, blob, a) : 0;
    if (a) VP_ASSERT(a > XL ? r < 0 : a < XL ? r == 0 && clean(out, 0, 96) : 1, "a partial blob produced output");
    if (r >= 0 && a < n) r = ci->do_cipher(&x, out + 16, blob + a, n - a);
    if (enc) VP_ASSERT(n < XL || r < 0, "unimplemented wrapping reported as success");
    else if (n > XL) VP_ASSERT(r < 0, "over-long blob accepted");
    else if (n == XL) {
        VP_ASSERT(accept ? r == 32 : r < 0, "failed unwrap not reported as failure, or valid one refused");
        VP_ASSERT(r == 32 ? vp_eq(out + 16, plain, 32) : clean(out, 16, 48), "unwrapped key wrong or released on refusal");
    } else VP_ASSERT(r == 0 || r == -1, "truncated blob accepted");
    VP_ASSERT(clean(out, 0, 16) && clean(out, 48, 96), "write outside the key");
    if (!enc) {                  /* EVP_DecryptFinal_ex: do_cipher(out, NULL, 0) */
        u8 fin[64]; memset(fin, 0x5a, 64);
        r2 = ci->do_cipher(&x, fin, NULL, 0);
        VP_ASSERT(clean(fin, 0, 64), "final call writes");
        VP_ASSERT(n < XL ? r2 < 0 : r2 <= 0, "truncated blob finishes successfully");
        if (n == XL && accept) VP_ASSERT(r2 == 0, "final call fails after a successful unwrap");
        /* a second use after re-initialisation */
        VP_ASSERT(vp_cipher_init(&x, ci, &mem, NULL, iv, 0) == 1, "re-init failed");
        memset(out, 0x5a, 96);
        r = ci->do_cipher(&x, out + 16, blob, XL);
        VP_ASSERT(accept ? r == 32 && vp_eq(out + 16, plain, 32) : r < 0 && clean(out, 16, 48), "second unwrap wrong");
    }
    VP_WITNESS("wrap");
}
#endif
#if MODE == 3 || MODE == 4
static void fault(unsigned f)
{
    u8 out[128]; int r, ol = XL, live = vp_live;
    memset(out, 0x5a, 128);
    vp_fault_n = 0; vp_faulted = 0; vp_fault_at = f;
#if MODE == 3
    r = gost_kexp15(shared, 32, CTR, ck, MAC, mk, iv, IVL, out, &ol);
#else
    r = gost_kimp15(blob, XL, CTR, ck, MAC, mk, iv, IVL, out);
#endif
    vp_fault_at = -1;
    if (vp_faulted) VP_ASSERT(r <= 0, "success after an underlying failure");
#if MODE == 3
    else VP_ASSERT(r == 1 && vp_eq(out, want, XL), "failure without a fault");
#else
    else VP_ASSERT((r > 0) == accept, "verdict wrong");
    VP_ASSERT(r > 0 || clean(out, 0, 128), "key bytes released on failure");
#endif
    VP_ASSERT(vp_live == live, "objects leaked after a failure");
    if (f == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    VP_WITNESS("fault");
}
#endif
void vp_main(void)
{
    unsigned i;
    nd_bytes(shared, 64); nd_bytes(ck, 32); nd_bytes(mk, 32); nd_bytes(iv, IVL); nd_bytes(blob, 80);
    vp_md_reg[0] = GOST_init_digest(&MD);
    (void)i;
#if MODE == 0
    expref(32, want);
    exp1(32, 0); exp1(32, 7); exp1(32, -1); exp1(32, -XL); exp1(16, 0); exp1(0, 0); exp1(0, -1);
#elif MODE == 1
    impref();
    VP_SPLIT(n, 80) imp1(n);
#elif MODE == 2
    { EVP_CIPHER *ci = GOST_init_cipher(&WRAP);
      VP_ASSERT(ci && ci->iv_len == IVL && ci->key_len == 64, "descriptor");
      impref();
      static const unsigned cut[] = { CUTS }, len[] = { LENS };
      VP_SPLIT(a, sizeof(cut) / sizeof(*cut) - 1) VP_SPLIT(n, sizeof(len) / sizeof(*len) - 1) if (cut[a] <= len[n]) wrap(ci, cut[a], len[n], ENC); }
#elif MODE == 3 || MODE == 4
    expref(32, want); impref();
    VP_SPLIT(f, FAULTS) fault(f);
#else
    { u8 out[96]; int ol, r;
      VP_SPLIT(n, 40) if (n > 16) { ol = 96; memset(out, 0x5a, 96); 
          r = gost_kexp15(shared, 32, CTR, ck, MAC, mk, blob, n, out, &ol); VP_ASSERT(r <= 0 && clean(out, 0, 96), "export with an over-long IV accepted");
          r = gost_kimp15(blob, XL, CTR, ck, MAC, mk, blob, n, out + 16); VP_ASSERT(r <= 0 && clean(out, 0, 96), "import with an over-long IV accepted"); }
      static const int cns[] = { 0, -1, NID_magma_cbc, NID_grasshopper_cbc, NID_magma_ctr_acpkm, NID_kuznyechik_ctr_acpkm, NID_grasshopper_ofb, NID_id_Gost28147_89, 1195, NID_grasshopper_ecb, NID_magma_mac, 1 };
      VP_SPLIT(q, sizeof(cns) / sizeof(*cns) - 1) { int cn = cns[q]; if (cn == NID_magma_ctr || cn == NID_grasshopper_ctr) continue; ol = 96;
      VP_ASSERT(gost_kexp15(shared, 32, cn, ck, MAC, mk, iv, IVL, out, &ol) <= 0 && gost_kimp15(blob, XL, cn, ck, MAC, mk, iv, IVL, out) <= 0 && clean(out, 0, 96), "unknown cipher accepted"); }
      VP_WITNESS("args"); }
#endif
}
