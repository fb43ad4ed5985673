/* P26: VKO / KEG key agreement over the model group and transcript hashes.
 * -DMODE 0 VKO, 1 derive, 2 faults */
#include "ciph.h"
#include "omodel.h"
#include "misc.h"
#include "bnmodel.h"
#include "pkmodel.h"
#ifndef Q
# define Q 13
#endif
#ifndef PF
# define PF 65521
#endif
#define FB ((PF) > 65535 ? 3 : (PF) > 255 ? 2 : 1)
static struct ec_group_st grp, grp2; static struct ec_key_st ka, kb;
static struct gost_pmeth_data data;
static u8 ukm[32];
static void setup(void)
{
#if defined(TINY) || defined(VKOABS)
    vp_bn_init(Q, PF, 0); { unsigned i; for (i = 1; i < Q; i++) { vp_xs[i] = 10 + (i < Q - i ? i : Q - i); vp_ys[i] = 100 + i; } }
#else
    vp_bn_init(Q, PF, 1);
#endif
    vp_fault_at = -1;
    grp.nid = NID_id_tc26_gost_3410_2012_256_paramSetB; grp.live = 1; grp.order.v = Q; grp.field.v = PF;
    grp2 = grp; grp2.nid = NID_id_tc26_gost_3410_2012_256_paramSetC;
    ka.live = kb.live = 1; ka.group = kb.group = &grp; ka.has_priv = ka.has_pub = kb.has_pub = 1; ka.pub.g = kb.pub.g = &grp;
#ifdef TINY
    ka.priv.v = 3; kb.pub.log = 2; ukm[0] = 1;
#elif defined(VKOABS)      /* fixed keys, every UKM */
    ka.priv.v = 3; kb.pub.log = 2; nd_bytes(ukm, 32);
#else
    ka.priv.v = nd_upto(Q - 2) + 1; kb.pub.log = nd_upto(Q - 1);
    nd_bytes(ukm, 32);
#endif
    ka.pub.live = kb.pub.live = 1;
}
#include "vko.h"
static int keg(int pk, u8 *out)
{
    u8 u[16], z = 0, k[32]; int i, j, b; u64 s;
    for (i = 0; i < 16; i++) { u[i] = ukm[15 - i]; z |= ukm[i]; }
    if (z == 0) u[0] = 1;
    if (pk == NID_id_GostR3410_2012_512) return vko(u, 16, NID_id_GostR3411_2012_512, out);
    if (pk != NID_id_GostR3410_2012_256 || !vko(u, 16, NID_id_GostR3411_2012_256, k)) return 0;
#ifdef KDFABS
    kdf(k, ukm + 16, out); return 64;
#endif
    for (b = 1; b <= 2; b++) {   /* KDF_TREE: counter || "kdf tree" || 0 || ukm[16..24) || 0x0200 */
        s = tr_abs(tr_key(tr_start(TR_HMAC, NID_id_GostR3411_2012_256), k, 32), b);
        s = tr_abs(tr_bytes(s, "kdf tree", 8), 0);
        s = tr_abs(tr_abs(tr_bytes(s, ukm + 16, 8), 2), 0);
        for (j = 0; j < 32; j++) out[32 * (b - 1) + j] = tr_out(s, j);
    }
    return 64;
}
static int vkook(int nid) { return nid == NID_id_GostR3411_2012_256 || nid == NID_id_GostR3411_2012_512 || nid == NID_id_GostR3411_94; }
static int clean(const u8 *b, int n) { u8 d = 0; while (n--) d |= b[n] ^ 0x5a; return d == 0; }
#if MODE == 0 && !defined(BAD)
static void run(void)
{
    u8 out[96], want[64]; int r, w, n = ULEN, live = vp_live;
    memset(out, 0x5a, 96);
    r = VKO_compute_key(out + 16, &kb.pub, &ka, ukm, n, DG);
    w = vko(ukm, n, DG, want);
    VP_ASSERT(r == w, "VKO length is not the digest size, or a failure");
    VP_ASSERT(w == 0 || vp_eq(out + 16, want, w), "VKO differs from the hash of (UKM*d)Q");
    VP_ASSERT(clean(out, 16) && clean(out + 16 + (DG == NID_id_GostR3411_2012_512 ? 64 : 32), 16), "write outside the shared key");
    VP_ASSERT(vp_live == live && vp_bn_live == 0, "objects leaked");
    if (r) VP_WITNESS("vko");
}
#endif
#if MODE == 1 || MODE == 2
static struct evp_pkey_ctx_st cx;
static EVP_PKEY pa, pb;
static void derive(int pk, int vk, unsigned us, size_t kl, int null, int nopeer, int nopriv, int nopub)
{
    static u8 out[160]; u8 want[64]; size_t n = kl; int r, w = 0, need = 0, dn = pk == NID_id_GostR3410_2012_512 || pk == NID_id_GostR3410_2012_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94, live = vp_live;
    pa.type = pb.type = pk; pa.obj = &ka; pb.obj = &kb; pa.refs = pb.refs = 9;
    cx.pkey = &pa; cx.peer = nopeer ? NULL : &pb; cx.data = &data;
    ka.has_priv = !nopriv; kb.has_pub = !nopub;
    data.vko_dgst_nid = vk; data.shared_ukm_size = us; memcpy(data.shared_ukm, ukm, 32);
    memset(out, 0x5a, 160); memset(want, 0, 64);
    r = pkey_gost_ec_derive(&cx, null ? NULL : out + 16, &n);
    VP_ASSERT(r <= 0 || r == 1, "result is neither success nor failure");
    if (us != 0) {
        if (vk) { need = vk == NID_id_GostR3411_2012_256 ? 32 : 64; }
        else if (us == 8) need = 32;
        else if (us == 32) need = 64;
    }
    if (null) VP_ASSERT(need ? r == 1 && n == need : r <= 0, "length query");
    else {
        if (need && !nopeer && !nopriv && !nopub && kl >= need)
            w = vk ? vko(ukm, us, vk, want) : us == 8 ? vko(ukm, 8, dn, want) : keg(pk, want);
        if (r > 0) VP_ASSERT(w && n == w, "derivation succeeds although it must fail, or wrong length");
        if (vp_fault_at < 0) VP_ASSERT(w == 0 || r == 1, "derivation fails although nothing failed");
        VP_ASSERT(r <= 0 || !vp_faulted, "success after an underlying failure");
        VP_ASSERT(r <= 0 || vp_eq(out + 16, want, w), "derived key differs");
        VP_ASSERT(clean(out, 16) && (kl > 128 || clean(out + 16 + kl, 16)), "write outside the buffer");
        if (r > 0) VP_WITNESS("derived");
    }
    VP_ASSERT(vp_live == live && vp_bn_live == 0, "objects leaked");
    vp_bn_reset();
}
#endif
void vp_main(void)
{
    setup();
#if MODE == 0
# ifndef BAD
    run();
# else
    { u8 o[64]; struct ec_key_st k0 = ka; k0.has_priv = 0;
      VP_ASSERT(VKO_compute_key(o, NULL, &ka, ukm, 8, NID_id_GostR3411_2012_256) == 0, "missing public key accepted");
      VP_ASSERT(VKO_compute_key(o, &kb.pub, &k0, ukm, 8, NID_id_GostR3411_2012_256) == 0, "missing private key accepted");
      VP_ASSERT(VKO_compute_key(o, &kb.pub, &ka, ukm, 8, NID_undef) == 0, "unknown digest accepted");
      kb.pub.g = &grp2;
      VP_ASSERT(VKO_compute_key(o, &kb.pub, &ka, ukm, 8, NID_id_GostR3411_2012_256) == 0, "point of another curve accepted");
      VP_ASSERT(vp_live == 0 && vp_bn_live == 0, "objects leaked"); VP_WITNESS("vko"); }
# endif
#elif MODE == 1
# ifdef ARGS      /* every combination of missing pieces and lengths */
    { static const u8 us[] = { 0, 1, 7, 8, 9, 16, 31, 32 }, kl[] = { 0, 31, 32, 63, 64, 128 };
      VP_SPLIT(u, 7) VP_SPLIT(k, 5) VP_SPLIT(m, 5)
          derive(PK, VK, us[u], m == 0 ? 0 : kl[k], m == 0, m == 1, m == 2, m == 3); }
# else
    derive(PK, VK, US, 128, 0, 0, 0, 0);
# endif
#elif MODE == 2
    VP_SPLIT(f, FAULTS) {
        vp_fault_n = 0; vp_faulted = 0; vp_fault_at = f;
        derive(PK, VK, US, 128, 0, 0, 0, 0);
        if (f == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    }
    VP_WITNESS("faults");
#endif
}
