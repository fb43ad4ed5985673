/* P27: key transport.  -DMODE 0 CryptoPro decrypt, 1 2018 decrypt, 2 CryptoPro
 * encrypt, 3 2018 encrypt.  The decoded structure is arbitrary within the
 * stated shapes; VKO, wrapping and KExp15/KImp15 are abstract (P26, P18, P19). */
#include "ciph.h"
#include "omodel.h"
#include "misc.h"
#include "bnmodel.h"
#include "pkmodel.h"
#include "gost_keywrap.h"
#ifndef Q
# define Q 13
#endif
#define PF 251
#ifndef LAST
# define LAST 1
#endif
#define FB 1
static struct ec_group_st grp, grp2; static struct ec_key_st ka, kb, kc;
static struct gost_pmeth_data data;
static u8 ukm[32], sk[64];
#define VKO_KEYS(p, k) (MODE < 2 ? (p) == &kb.pub && (k) == &ka : (p) == &kb.pub && ((k) == &kc || (k)->priv.v == vp_draw[0]))
#include "vko.h"
static struct evp_pkey_ctx_st cx;
static EVP_PKEY pa, pb, pc;
static struct X509_pubkey_st xp;
static int seen_wrap;
static const void *sbox_of(int nid) { return nid == NID_id_tc26_gost_28147_param_Z ? &Gost28147_TC26ParamSetZ : nid == NID_id_Gost28147_89_CryptoPro_A_ParamSet ? &Gost28147_CryptoProParamSetA : NULL; }
int pkey_gost_decrypt(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
int pkey_gost_encrypt(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
#define KMAC (data.cipher_nid == NID_magma_ctr ? 8 : 16)
/* --- abstract wrapping: accepted or not is an uninterpreted predicate --- */
static u64 unw(const void *sb, const u8 *kek, const u8 *blob) { return tr_bytes(tr_key(tr_start(9, 0), kek, 32), blob, 44); }
static int unwrap(const u8 *kek, const u8 *blob, u8 *key) { u64 s = unw(0, kek, blob); int i; if (tr_out(s, 99) & 1) return 0; for (i = 0; i < 32; i++) key[i] = tr_out(s, i); return 1; }
static const void *sbox;
void gost_init(gost_ctx *c, const gost_subst_block *b) { sbox = b; }
int keyUnwrapCryptoPro(gost_ctx *c, const unsigned char *kek, const unsigned char *w, unsigned char *key)
{
    u8 k[32]; seen_wrap++;
    VP_ASSERT(sbox != NULL, "unwrapping without a parameter set");
    if (!unwrap(kek, w, k)) { memset(key, 0, 32); return 0; }
    memcpy(key, k, 32); return 1;
}
static void wrapped(const u8 *kek, const u8 *u, const u8 *key, u8 *w) { u64 s = tr_bytes(tr_key(tr_key(tr_start(10, 0), kek, 32), key, 32), u, 8); int i; for (i = 0; i < 8; i++) w[i] = u[i]; for (i = 8; i < 44; i++) w[i] = tr_out(s, i); }
int keyWrapCryptoPro(gost_ctx *c, const unsigned char *kek, const unsigned char *u, const unsigned char *key, unsigned char *w) { if (vp_fault()) return 0; wrapped(kek, u, key, w); return 1; }
static u64 kimp(const u8 *e, const u8 *ck, const u8 *mk, const u8 *iv) { return tr_bytes(tr_bytes(tr_key(tr_key(tr_start(11, data.cipher_nid), ck, 32), mk, 32), iv, data.cipher_nid == NID_magma_ctr ? 4 : 8), e, 32 + KMAC); }
int gost_kimp15(const unsigned char *e, const size_t n, int cn, const unsigned char *ck, int mn, unsigned char *mk, const unsigned char *iv, const size_t ivl, unsigned char *key)
{
    u64 s; int i; seen_wrap++;
    VP_ASSERT(cn == data.cipher_nid && mn == (cn == NID_magma_ctr ? NID_magma_mac : NID_grasshopper_mac) && ivl == (cn == NID_magma_ctr ? 4 : 8), "KImp15 algorithms");
    if (n != 32 + KMAC || vp_fault()) return 0;
    s = kimp(e, ck, mk, iv);
    if (tr_out(s, 99) & 1) return 0;
    for (i = 0; i < 32; i++) key[i] = tr_out(s, i);
    return 1;
}
static u64 kexp(const u8 *key, const u8 *ck, const u8 *mk, const u8 *iv) { return tr_bytes(tr_key(tr_key(tr_key(tr_start(12, data.cipher_nid), ck, 32), mk, 32), key, 32), iv, data.cipher_nid == NID_magma_ctr ? 4 : 8); }
int gost_kexp15(const unsigned char *key, const int n, int cn, const unsigned char *ck, int mn, unsigned char *mk, const unsigned char *iv, const size_t ivl, unsigned char *o, int *ol)
{
    u64 s; int i;
    VP_ASSERT(cn == data.cipher_nid && mn == (cn == NID_magma_ctr ? NID_magma_mac : NID_grasshopper_mac) && ivl == (cn == NID_magma_ctr ? 4 : 8) && n == 32, "KExp15 algorithms");
    if (vp_fault() || *ol < 32 + KMAC) return 0;
    s = kexp(key, ck, mk, iv);
    for (i = 0; i < 32 + KMAC; i++) o[i] = tr_out(s, i);
    *ol = 32 + KMAC;
    return 1;
}
/* --- the ASN.1 structures --- */
static GOST_KEY_INFO ki; static GOST_KEY_AGREEMENT_INFO kai; static GOST_KEY_TRANSPORT gkt; static PSKeyTransport_gost pst;
static ASN1_STRING s_iv, s_key, s_mac, s_psexp, s_ukm;
static int gkt_live;
static int parse_ok;
#if FAULTS || defined(SHAPES)
# define BYTE (u8)(n + i)
#else
# define BYTE nd_u8()
#endif
static void str(ASN1_STRING *s, int n) { int i; s->type = V_ASN1_OCTET_STRING; s->length = n; s->data = n ? malloc(n) : NULL; VP_ASSUME(!n || s->data); for (i = 0; i < n; i++) s->data[i] = BYTE; }
GOST_KEY_TRANSPORT *d2i_GOST_KEY_TRANSPORT(GOST_KEY_TRANSPORT **a, const unsigned char **in, long n) { if (!parse_ok || vp_fault()) return NULL; gkt_live++; return &gkt; }
GOST_KEY_TRANSPORT *GOST_KEY_TRANSPORT_new(void) { if (vp_fault()) return NULL; gkt_live++; memset(&s_iv, 0, sizeof(s_iv)); s_key = s_mac = s_iv; kai.ephem_key = NULL; kai.cipher = NULL; return &gkt; }
void GOST_KEY_TRANSPORT_free(GOST_KEY_TRANSPORT *g) { if (g) { VP_ASSERT(g == &gkt && gkt_live == 1, "structure freed twice"); gkt_live--; } }
PSKeyTransport_gost *d2i_PSKeyTransport_gost(PSKeyTransport_gost **a, const unsigned char **in, long n) { if (!parse_ok || vp_fault()) return NULL; gkt_live++; return &pst; }
PSKeyTransport_gost *PSKeyTransport_gost_new(void) { if (vp_fault()) return NULL; gkt_live++; memset(&s_psexp, 0, sizeof(s_psexp)); pst.psexp = &s_psexp; pst.ephem_key = NULL; pst.ukm = NULL; return &pst; }
void PSKeyTransport_gost_free(PSKeyTransport_gost *p) { if (p) { VP_ASSERT(p == &pst && gkt_live == 1, "structure freed twice"); gkt_live--; if (MODE == 3) ASN1_STRING_free(p->ukm); } }
static const u8 *enc; static int enclen = 77, encs, eph_at_enc; static struct ec_point_st ephpub; static EVP_PKEY *ephpk;
static int i2d(unsigned char **o, X509_PUBKEY *x)
{
    int i;
    if (vp_fault()) return -1;
    ephpk = x ? x->pk : NULL;
    if (o && *o) { for (i = 0; i < enclen; i++) (*o)[i] = 0xe0; *o += enclen; encs++; if (x) { VP_ASSERT(x->pk->refs > 0, "encoding a freed ephemeral key"); ephpub = ((EC_KEY *)x->pk->obj)->pub; } }
    return enclen;
}
int i2d_GOST_KEY_TRANSPORT(const GOST_KEY_TRANSPORT *g, unsigned char **o) { return i2d(o, g->key_agreement_info->ephem_key); }
int i2d_PSKeyTransport_gost(const PSKeyTransport_gost *p, unsigned char **o) { return i2d(o, p->ephem_key); }
static void setup(int pk, int cn)
{
    vp_bn_init(Q, PF, 0); { unsigned i; for (i = 1; i < Q; i++) { vp_xs[i] = 10 + (i < Q - i ? i : Q - i); vp_ys[i] = 100 + i; } }
    vp_fault_at = -1; gkt_live = 0; seen_wrap = 0; encs = 0; sbox = NULL;
    vp_max_draws = 1;
    grp.nid = NID_id_tc26_gost_3410_2012_256_paramSetB; grp.live = 1; grp.order.v = Q; grp.field.v = PF;
    grp2 = grp; grp2.nid = NID_id_tc26_gost_3410_2012_256_paramSetC;
    ka.live = kb.live = kc.live = 1; ka.group = kb.group = kc.group = &grp; ka.has_priv = ka.has_pub = kb.has_pub = kc.has_priv = kc.has_pub = 1; ka.pub.g = kb.pub.g = kc.pub.g = &grp; kb.has_priv = 0;
    ka.priv.v = 3; ka.pub.log = 3; kb.pub.log = 2; kc.priv.v = 4; kc.pub.log = 4; ka.pub.live = kb.pub.live = kc.pub.live = 1;
    pa.type = pb.type = pc.type = pk; pa.obj = &ka; pb.obj = &kb; pc.obj = &kc; pa.refs = pb.refs = pc.refs = 1000;
    cx.pkey = &pa; cx.peer = NULL; cx.data = &data; cx.meth = vp_meth;
    memset(&data, 0, sizeof(data)); data.cipher_nid = cn;
    gkt.key_info = &ki; gkt.key_agreement_info = &kai; ki.encrypted_key = &s_key; ki.imit = &s_mac; kai.eph_iv = &s_iv; kai.ephem_key = NULL;
    pst.psexp = &s_psexp; pst.ephem_key = NULL; pst.ukm = NULL;
    xp.pk = &pb; parse_ok = 1;
}
BIGNUM *gost_get0_priv_key(const EVP_PKEY *p) { return p && p->obj && ((EC_KEY *)p->obj)->has_priv ? &((EC_KEY *)p->obj)->priv : NULL; }
static int clean(const u8 *b, int n, u8 v) { u8 d = 0; while (n--) d |= b[n] ^ v; return d == 0; }
/* EPH: 0 none, 1 good, 2 another algorithm's key, 3 another curve, 4 no public part, 5 undecodable, 6 an RSA key */
static void eph(int e, int pk)
{
    if (e == 2) pb.type = pk == NID_id_GostR3410_2012_256 ? NID_id_GostR3410_2012_512 : NID_id_GostR3410_2012_256;
    if (e == 6) { static u64 rsa[64]; pb.type = 6; pb.obj = (void *)rsa; }
    if (e == 3) { kb.group = &grp2; kb.pub.g = &grp2; }
    if (e == 4) kb.has_pub = 0;
    if (e == 5) xp.pk = NULL;
}
static int keg_vko(int pk, const u8 *um, u8 *out)      /* gost_keg over the abstract pieces (P26) */
{
    u8 u[16], z = 0, k[32]; int i;
    for (i = 0; i < 16; i++) { u[i] = um[15 - i]; z |= um[i]; }
    if (z == 0) u[0] = 1;
    if (pk == NID_id_GostR3410_2012_512) return vko(u, 16, NID_id_GostR3411_2012_512, out);
    if (pk != NID_id_GostR3410_2012_256 || !vko(u, 16, NID_id_GostR3411_2012_256, k)) return 0;
    kdf(k, um + 16, out);
    return 64;
}
static int ctrl_(EVP_PKEY_CTX *c, int t, int a, void *p)      /* stands for pkey_gost_ctrl (P29) */
{
    struct gost_pmeth_data *d = c->data;
    if (t == EVP_PKEY_CTRL_SET_IV) { if (a < 0 || a > 32 || !p) return 0; memcpy(d->shared_ukm, p, a); d->shared_ukm_size = a; return 1; }
    if (t == EVP_PKEY_CTRL_PEER_KEY) { if (a == 0 || a == 1) return 1; if (a == 2) return d->peer_key_used; if (a == 3) return d->peer_key_used = 1; }
    return -2;
}
static int dgst(int pk) { return pk == NID_id_GostR3410_2012_256 || pk == NID_id_GostR3410_2012_512 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94; }
static void finish(int r, int live)
{
    VP_ASSERT(gkt_live == 0, "decoded structure leaked");
    VP_ASSERT(vp_live == live && vp_bn_live == 0, "objects leaked");
    VP_ASSERT(pa.refs == 1000 && pc.refs == 1000 && pb.refs == 1000 + (cx.peer == &pb), "key references leaked");
    vp_bn_reset();
}
#if MODE == 0 || MODE == 1
static void decrypt(int pk, int cn, int e, int peer, int l1, int l2, int l3, int cip, unsigned preset, int ul)
{
    static u8 out[64]; u8 w[44], want[32], kek[64]; size_t n = 32; int r, ok, live; u8 in[4] = { 0 };
    setup(pk, cn); live = vp_live;
    eph(e, pk);
    if (peer) cx.peer = &pc, pc.refs = 1000;
    memset(out, 0x5a, 64);
#if MODE == 0
    str(&s_iv, l1); str(&s_key, l2); str(&s_mac, l3);
    kai.ephem_key = e ? &xp : NULL;
    kai.cipher = OBJ_nid2obj(FAULTS ? NID_id_tc26_gost_28147_param_Z : cip);
#else
    str(&s_psexp, l1); if (ul >= 0) { str(&s_ukm, ul); pst.ukm = &s_ukm; }
    pst.ephem_key = e ? &xp : NULL;
    data.shared_ukm_size = preset; if (preset) memcpy(data.shared_ukm, ukm, 32);
#endif
#if FAULTS
    vp_fault_n = 0; vp_faulted = 0; vp_fault_at = cip;      /* the fault index rides in cip */
#endif
    r = pkey_gost_decrypt(&cx, out + 16, &n, in, 4);
    vp_fault_at = -1;
    /* what the specification says */
#if MODE == 0
    ok = parse_ok && (cn == NID_undef || cn == NID_id_Gost28147_89) && e == 1 && l1 == 8 && l2 == 32 && l3 == 4 && (cip == NID_id_tc26_gost_28147_param_Z || cip == NID_id_Gost28147_89_CryptoPro_A_ParamSet || FAULTS);
    if (ok) {
        memcpy(w, s_iv.data, 8); memcpy(w + 8, s_key.data, 32); memcpy(w + 40, s_mac.data, 4);
        ok = vko(w, 8, dgst(pk), kek) && unwrap(kek, w, want);
        VP_ASSERT(!ok || r <= 0 || sbox == sbox_of(FAULTS ? NID_id_tc26_gost_28147_param_Z : cip), "wrong parameter set");
    }
#else
    ok = parse_ok && e == 1 && l1 == 32 + KMAC && (preset == 32 || (preset == 0 && ul == 32));
    if (ok) {
        const u8 *um = preset ? ukm : s_ukm.data; u64 s; int i;
        ok = keg_vko(pk, um, kek) != 0;
        if (ok) {
            s = kimp(s_psexp.data, kek + 32, kek, um + 24);
            ok = !(tr_out(s, 99) & 1);
            for (i = 0; i < 32; i++) want[i] = tr_out(s, i);
        }
    }
#endif
    VP_ASSERT(r <= 0 || r == 1, "result is neither success nor failure");
    if (FAULTS && cip == FAULTS - 1) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    VP_ASSERT(r <= 0 || ok, "a blob that must be refused was accepted");
    VP_ASSERT(r > 0 || !ok || vp_faulted, "a correct blob was refused");
    VP_ASSERT(r <= 0 || !vp_faulted, "success after an underlying failure");
    VP_ASSERT(r <= 0 || (n == 32 && vp_eq(out + 16, want, 32)), "wrong session key");
    if (r <= 0) VP_ASSERT(clean(out + 16, 32, 0x5a) || clean(out + 16, 32, 0), "key bytes handed out although decryption failed");
    VP_ASSERT(clean(out, 16, 0x5a) && clean(out + 48, 16, 0x5a), "write outside the key buffer");
#ifndef SHAPES
    if (r > 0) VP_WITNESS("decrypted");
#endif
    finish(r, live);
}
#endif
#if MODE == 2 || MODE == 3
/* own: 0 ephemeral, 1 static pair, 2 static pair without private part */
static void encrypt(int pk, int cn, int own, unsigned preset, int query, size_t kl, size_t buf, int f)
{
    static u8 out[128]; u8 kek[64], w[44]; size_t n = buf; int r, ok, live, i; u8 um[32]; u8 *k0; int cip = pk == NID_id_GostR3410_2001 || pk == NID_id_GostR3410_2001DH ? NID_id_Gost28147_89_CryptoPro_A_ParamSet : NID_id_tc26_gost_28147_param_Z;
    setup(pk, cn); live = vp_live;
    cx.pkey = &pb;      /* the recipient's public key */
    if (own) cx.peer = &pc;
    if (own == 2) kc.has_priv = 0;
    data.shared_ukm_size = preset; memcpy(data.shared_ukm, ukm, 32); memcpy(um, ukm, 32);
    k0 = malloc(kl); VP_ASSUME(k0 != NULL); memcpy(k0, sk, kl);
    memset(out, 0x5a, 128);
    vp_fault_n = 0; vp_faulted = 0; vp_fault_at = f;
    r = pkey_gost_encrypt(&cx, query ? NULL : out + 16, &n, k0, kl);
    vp_fault_at = -1;
    ok = own != 2 && (query || (kl == 32 && buf >= enclen)) && (MODE == 2 || (preset == 32 || preset == 0));
    if (preset == 0) {          /* a fresh UKM went into the blob */
        if (MODE == 2 && r > 0) memcpy(um, s_iv.data, 8);
        if (MODE == 3 && r > 0) { VP_ASSERT(data.shared_ukm_size == 32, "fresh UKM not kept"); memcpy(um, data.shared_ukm, 32); }
    }
    VP_ASSERT(r <= 0 || r == 1, "result is neither success nor failure");
    if (FAULTS && f == FAULTS - 1 && LAST) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
    VP_ASSERT(r <= 0 || ok, "encryption succeeds although it must fail");
    VP_ASSERT(r <= 0 || !vp_faulted, "success after an underlying failure");
    if (r > 0) VP_ASSERT(n == enclen, "length");
    if (r > 0 && !query && !FAULTS) {    /* the contents are decided without faults */
        VP_ASSERT(encs == 1 && vp_bn_live == 0, "encoded once, nothing left");
        ka.priv.v = own ? kc.priv.v : vp_draw[0];
        VP_ASSERT(own || (ephpk != &pb && ephpub.log == vp_draw[0] && vp_draw[0] != 0), "ephemeral key in the blob is not the one used");
#if MODE == 2
        VP_ASSERT(vko(um, 8, dgst(pk), kek) != 0, "success without a shared key");
        wrapped(kek, um, sk, w);
        VP_ASSERT(s_iv.length == 8 && vp_eq(s_iv.data, um, 8) && s_key.length == 32 && vp_eq(s_key.data, w + 8, 32) && s_mac.length == 4 && vp_eq(s_mac.data, w + 40, 4), "blob differs from UKM, wrapped key, MAC");
        VP_ASSERT(OBJ_obj2nid(kai.cipher) == cip, "wrong cipher parameter set in the blob");
        VP_ASSERT(sbox == sbox_of(cip), "wrong parameter set used");
        VP_ASSERT(own ? kai.ephem_key == NULL && data.peer_key_used == 1 : kai.ephem_key != NULL, "originator key");
#else
        VP_ASSERT(keg_vko(pk, um, kek) != 0, "success without export keys");
        { u64 s = kexp(sk, kek + 32, kek, um + 24);
          VP_ASSERT(s_psexp.length == 32 + KMAC, "length of the exported key");
          for (i = 0; i < 32 + KMAC; i++) VP_ASSERT(s_psexp.data[i] == tr_out(s, i), "exported key differs"); }
        VP_ASSERT(pst.ukm && pst.ukm->length == 32 && vp_eq(pst.ukm->data, um, 32), "UKM in the blob differs");
#endif
        VP_WITNESS("encrypted");
    }
    VP_ASSERT(clean(out, 16, 0x5a) && clean(out + 16 + enclen, 128 - 16 - enclen, 0x5a) && (r > 0 || encs || clean(out, 128, 0x5a)), "write outside the output");
    VP_ASSERT(pb.refs == 1000 && pc.refs == 1000, "key references leaked");
    VP_ASSERT(gkt_live == 0 && vp_live == live && vp_bn_live == 0, "objects leaked");
    vp_bn_reset();
}
#endif
#ifndef F0
# define F0 0
#endif
static EVP_PKEY_METHOD M;
void vp_main(void)
{
    M.ctrl = ctrl_; vp_meth = &M;
#if FAULTS || defined(SHAPES)      /* one set of contents */
    memset(ukm, 1, 32); memset(sk, 2, 64);
#else
    nd_bytes(ukm, 32); nd_bytes(sk, 64);
#endif
#if MODE == 0 && !FAULTS
# ifdef SHAPES    /* lengths and kinds of key that must all be refused */
    { static const u8 a[] = { 0, 7, 8, 9 }, b[] = { 0, 31, 32, 33 }, c[] = { 0, 3, 4, 5 };
      VP_SPLIT(i, 3) VP_SPLIT(j, 3) VP_SPLIT(k, 3) if (i != 2 || j != 2 || k != 2) decrypt(PK, NID_undef, 1, 0, a[i], b[j], c[k], NID_id_tc26_gost_28147_param_Z, 0, 0);
      VP_SPLIT(e, 6) if (e != 1) decrypt(PK, NID_id_Gost28147_89, e, 0, 8, 32, 4, NID_id_tc26_gost_28147_param_Z, 0, 0);
      decrypt(PK, NID_undef, 1, 0, 8, 32, 4, NID_id_GostR3411_94, 0, 0);
      decrypt(PK, NID_grasshopper_cbc, 1, 0, 8, 32, 4, NID_id_tc26_gost_28147_param_Z, 0, 0);
      VP_WITNESS("shapes"); }
# else
    decrypt(PK, NID_undef, 1, 0, 8, 32, 4, CIP, 0, 0);
# endif
#elif MODE == 0
    VP_SPLIT(f, FAULTS - 1) decrypt(PK, NID_undef, 1, 0, 8, 32, 4, (int)f, 0, 0);
    VP_WITNESS("faults");
#endif
#if MODE == 1 && !FAULTS
# ifdef SHAPES
    { static const u8 a[] = { 0, 39, 40, 41, 47, 48, 49 }; static const signed char u[] = { -1, 0, 8, 31, 32 }; static const u8 p[] = { 0, 8, 16, 31 };
      VP_SPLIT(i, 6) decrypt(PK, CN, 1, 0, a[i], 0, 0, 0, 32, -1);
      VP_SPLIT(i, 4) decrypt(PK, CN, 1, 0, CN == NID_magma_ctr ? 40 : 48, 0, 0, 0, 0, u[i]);
      VP_SPLIT(i, 3) decrypt(PK, CN, 1, 0, CN == NID_magma_ctr ? 40 : 48, 0, 0, 0, p[i], 32);
      VP_SPLIT(e, 6) if (e != 1) decrypt(PK, CN, e, 0, CN == NID_magma_ctr ? 40 : 48, 0, 0, 0, 32, -1);
      VP_WITNESS("shapes"); }
# else
    decrypt(PK, CN, 1, 0, CN == NID_magma_ctr ? 40 : 48, 0, 0, 0, PRE, 32);
# endif
#elif MODE == 1
    VP_SPLIT(f, FAULTS - 1) decrypt(PK, CN, 1, 0, CN == NID_magma_ctr ? 40 : 48, 0, 0, (int)f, 0, 32);
    VP_WITNESS("faults");
#endif
#if MODE >= 2
# if FAULTS
    VP_SPLIT(f, FAULTS - F0 - 1) encrypt(PK, CN, OWN, PRE, QUERY, 32, 100, (int)f + F0);
    VP_WITNESS("faults");
# elif defined(SHAPES)
    VP_SPLIT(k, 2) VP_SPLIT(b, 2) VP_SPLIT(o, 2) VP_SPLIT(q, 1) if (MODE == 2 || k == 1) encrypt(PK, CN, o, 32, q, k == 0 ? 31 : k == 1 ? 32 : 33, b == 0 ? 76 : b == 1 ? 77 : 100, -1);
    VP_SPLIT(p, 2) if (MODE == 3) encrypt(PK, CN, 0, p == 0 ? 8 : p == 1 ? 16 : 31, 0, 32, 100, -1);
    VP_WITNESS("shapes");
# else
    encrypt(PK, CN, OWN, PRE, 0, 32, 100, -1);
# endif
#endif
}
