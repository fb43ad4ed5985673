/* P25: encodings of signatures and keys, and their lengths.
 * MODE 0 sign, 1 verify, 2 store_bignum, 3 public key encode, 4 public key
 * decode, 5 private key encode */
#include "vp.h"
#include "misc.h"
#include "obj.h"
#include <openssl/obj_mac.h>
#include "gost_lcl.h"
#include "pkmodel.h"
#define NB VP_BYTEBN
extern int vp_oncurve;
int register_ameth_gost(int nid, EVP_PKEY_ASN1_METHOD **ameth, const char *pemstr, const char *info);
int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags);
static struct ec_group_st grp; static struct ec_key_st key; static struct evp_pkey_ctx_st cx;
static EVP_PKEY_ASN1_METHOD *A; static EVP_PKEY_METHOD *P;
static int kl(int pk) { return pk == NID_id_GostR3410_2012_512 ? 64 : pk == NID_id_GostR3410_2001 || pk == NID_id_GostR3410_2001DH || pk == NID_id_GostR3410_2012_256 ? 32 : 0; }
#ifdef SYM
# define BY nd_u8()
#else
# define BY (u8)(7 * i_ + 5)
#endif
#define FILL(p, n) do { int i_; for (i_ = 0; i_ < (int)(n); i_++) (p)[i_] = BY; } while (0)
static void num(BIGNUM *b, int n) { int i; FILL(b->b, n); for (i = n; i < NB; i++) b->b[i] = 0; if (n) VP_ASSUME(b->b[n - 1] != 0); b->neg = 0; b->dyn = 9; b->known = 1; b->nb = n; }     /* exactly n significant bytes */
static int clean(const u8 *b, int n, u8 v) { u8 d = 0; while (n-- > 0) d |= b[n] ^ v; return d == 0; }
/* --- the signature primitive (P24) --- */
static u8 dg[64]; static int sig_ok, vfy; static const u8 *vr, *vs; static u8 sr[NB], ss[NB]; static struct bignum_st nr, ns; static int calls; static size_t dl;
ECDSA_SIG *gost_ec_sign(const unsigned char *d, int n, EC_KEY *k)
{
    ECDSA_SIG *s; BIGNUM *r, *t;
    VP_ASSERT(d == dg && n == (int)dl && k == &key, "signs something else");
    calls++;
    if (!sig_ok || vp_fault()) return 0;
    s = calloc(1, sizeof(*s)); VP_ASSUME(s != 0); vp_bn_live++;
    { int f = vp_fault_at; vp_fault_at = -1; r = BN_new(); t = BN_new(); vp_fault_at = f; }
    *r = nr; *t = ns; r->dyn = t->dyn = 1; s->r = r; s->s = t;
    return s;
}
int gost_ec_verify(const unsigned char *d, int n, ECDSA_SIG *s, EC_KEY *k)
{
    VP_ASSERT(d == dg && n == (int)dl && k == &key && s && s->r && s->s, "verifies something else");
    calls++;
    VP_ASSERT(!s->r->neg && vp_eq(s->r->b, sr, NB), "wrong r"); VP_ASSERT(!s->s->neg && vp_eq(s->s->b, ss, NB), "wrong s");
    return vfy;
}
int fill_GOST_EC_params(EC_KEY *k, int nid) { if (!k || nid != NID_id_GostR3410_2001_CryptoPro_A_ParamSet || vp_fault()) return 0; grp.nid = nid; k->group = &grp; return 1; }
static X509_ALGOR alg; static ASN1_TYPE pt; static ASN1_STRING ps; static u8 der_params[6];
static void params(int pk, int known)
{
    int n = NID_id_GostR3410_2001_CryptoPro_A_ParamSet;
    alg.algorithm = OBJ_nid2obj(pk); alg.parameter = &pt; pt.type = known == 3 ? V_ASN1_NULL : V_ASN1_SEQUENCE; pt.value.ptr = (void *)&ps;
    if (known != 1) n = 5;
    ps.data = der_params; ps.length = known == 2 ? 5 : 6; der_params[0] = (u8)n; der_params[1] = n >> 8;
}
static EVP_PKEY pk0;
static void setup(int pk)
{
    int i;
    grp.nid = NID_id_GostR3410_2001_CryptoPro_A_ParamSet; grp.live = 1; for (i = 0; i < NB; i++) grp.order.b[i] = i < kl(pk) ? (u8)(i * 3 + 1) : 0; grp.order.known = 1; grp.order.nb = kl(pk);
    key.group = &grp; key.live = 1; key.has_pub = key.has_priv = 1; key.pub.log = 1; key.pub.live = 1; key.pub.g = &grp;
    pk0.refs = 1000; pk0.type = pk; pk0.obj = &key; cx.pkey = &pk0; cx.meth = P;
    vp_fault_at = -1; vp_fault_n = 0; vp_faulted = 0; calls = 0; sig_ok = 1; vp_oncurve = 1;
}
static void done(int live, int fault)
{
    VP_ASSERT(vp_live == live && vp_bn_live == 0, "objects leaked");
    VP_ASSERT(key.live == 1, "key freed");
#ifdef FAULTS
    if (fault == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
#endif
    vp_bn_reset();
}
#if MODE == 0
static void sign(int pk, int rl, int sl, int query, int room, int ok, int fault)
{
    static u8 out[160]; size_t n = room; int r, L = kl(pk), live = vp_live, i;
    setup(pk); sig_ok = ok; memset(out, 0x5a, 160); dl = L;
    num(&nr, rl < L ? rl : L); num(&ns, sl < L ? sl : L);
    vp_fault_at = fault;
    r = P->sign(&cx, query ? NULL : out + 16, &n, dg, dl);
    vp_fault_at = -1;
    VP_ASSERT(r <= 0 || r == 1, "result is neither success nor failure");
    VP_ASSERT(r <= 0 || (L && (query || (ok && room >= 2 * L))), "signing succeeds although it must fail");
    VP_ASSERT(r > 0 || !L || (!query && (!ok || room < 2 * L)) || vp_faulted, "signing fails although it must succeed");
    VP_ASSERT(r <= 0 || query || !vp_faulted, "success after an underlying failure");
    if (r > 0) VP_ASSERT(n == (size_t)2 * L, "length of the signature");
    if (r > 0 && !query) for (i = 0; i < L; i++) {
        VP_ASSERT(out[16 + i] == ns.b[L - 1 - i], "first half is not s, left-padded");
        VP_ASSERT(out[16 + L + i] == nr.b[L - 1 - i], "second half is not r, left-padded");
    }
    VP_ASSERT(clean(out, 16, 0x5a) && clean(out + 16 + (r > 0 && !query ? 2 * L : 0), 144 - (r > 0 && !query ? 2 * L : 0), 0x5a), "write outside the signature");
    done(live, fault);
}
#elif MODE == 1
static void verify(int pk, int n, int v, int fault)
{
    u8 *s = malloc(n); int r, L = kl(pk), live = vp_live, i;
    VP_ASSUME(s != NULL);
    setup(pk); vfy = v; dl = L; FILL(s, n);
    for (i = 0; i < NB; i++) { ss[i] = i < L && n == 2 * L ? s[L - 1 - i] : 0; sr[i] = i < L && n == 2 * L ? s[2 * L - 1 - i] : 0; }
    vp_fault_at = fault;
    r = P->verify(&cx, s, n, dg, dl);
    vp_fault_at = -1;
    VP_ASSERT(r == 1 || r <= 0, "result is neither success nor failure");
    VP_ASSERT(r <= 0 || (L && n == 2 * L && v == 1 && calls == 1 && !vp_faulted), "accepted although it must be refused");
    VP_ASSERT(r > 0 || !L || n != 2 * L || v != 1 || vp_faulted, "refused although the signature is right");
    if (v == -1) VP_ASSERT(r <= 0, "an error of the verification became success");
    done(live, fault);
}
#elif MODE == 2
/* numbers of exactly nb bytes into a field of len bytes */
static void store(int nb, int len)
{
    static struct bignum_st b; u8 o[80]; int r, i;
    num(&b, nb); for (i = 0; i < 80; i++) o[i] = 0x5a;
    r = store_bignum(&b, o + 4, len);
    VP_ASSERT(r == 0 || r == 1, "result is neither success nor failure");
    VP_ASSERT((r == 1) == (nb <= len), "a number is stored exactly if it fits");
    if (r) for (i = 0; i < len; i++) VP_ASSERT(o[4 + i] == (len - 1 - i < NB ? b.b[len - 1 - i] : 0), "not right-aligned with zero padding");
    VP_ASSERT(clean(o, 4, 0x5a) && clean(o + 4 + len, 76 - len, 0x5a) && (r || clean(o + 4, len, 0x5a) || clean(o + 4, len, 0)), "write outside the field");
}
#elif MODE == 3
static void pubenc(int pk, int have, int xl, int yl, int fault)
{
    static struct X509_pubkey_st x; int r, L = kl(pk), live, i, h = 2; GOST_KEY_PARAMS *g; const u8 *q; ASN1_STRING *s;
    setup(pk); num(&key.pub.x, xl < L ? xl : L); num(&key.pub.y, yl < L ? yl : L); key.has_pub = have != 0;
    if (have == 2) key.group = NULL;
    if (have == 3) pk0.obj = NULL;
    x.sets = 0; live = vp_live;
    vp_fault_at = fault;
    r = A->pub_encode(&x, &pk0);
    vp_fault_at = -1;
    VP_ASSERT(r == 0 || r == 1, "result is neither success nor failure");
    VP_ASSERT(r == 0 || (have == 1 && !vp_faulted && x.sets == 1), "success although it must fail");
    VP_ASSERT(r == 1 || have != 1 || vp_faulted, "encoding fails");
    if (r) {
        h = 2 * L >= 128 ? 3 : 2;
        VP_ASSERT(OBJ_obj2nid(x.obj) == pk && x.ptype == V_ASN1_SEQUENCE && x.nbits == 2 * L + h && x.bits[0] == 4 && x.bits[h - 1] == 2 * L, "structure");
        s = x.pval; q = s->data;
        VP_ASSERT(s->length == 6 && (q[0] | q[1] << 8) == grp.nid, "parameters");
        for (i = 0; i < L; i++) { VP_ASSERT(x.bits[h + i] == key.pub.x.b[i], "x is not little-endian, zero-padded"); VP_ASSERT(x.bits[h + L + i] == key.pub.y.b[i], "y is not little-endian, zero-padded"); }
        vp_live--;              /* the encoding, now the caller's */
        ASN1_STRING_free(s);
    }
    done(live, fault);
}
#elif MODE == 4
static void pubdec(int pk, int n, int declared, int tag, int known, int on, int fault)
{
    static struct X509_pubkey_st x; u8 *b; EVP_PKEY *p = vp_pkey(0, NULL); EC_KEY *k; int r, L = kl(pk), live, i, h = declared >= 128 ? 3 : 2, ok;
    b = malloc(n + h); VP_ASSUME(b != NULL);
    setup(pk); vp_oncurve = on; grp.nid = 0;
    FILL(b + h, n); b[0] = tag; if (h == 3) b[1] = 0x81; b[h - 1] = declared;
    params(pk, known); x.alg = &alg; x.bits = b; x.nbits = n + h; live = vp_live;
    vp_fault_at = fault;
    r = A->pub_decode(p, &x);
    vp_fault_at = -1;
    ok = L && tag == 4 && declared == 2 * L && n >= declared && known == 1 && on;
    VP_ASSERT(r == 0 || r == 1, "result is neither success nor failure");
    VP_ASSERT(r == 0 || (ok && !vp_faulted), "accepted although it must be refused");
    VP_ASSERT(r == 1 || !ok || vp_faulted, "refused although well-formed");
    k = p->obj;
    if (r) {
        VP_ASSERT(p->type == pk && k && k->group == &grp && k->has_pub && !k->has_priv, "key");
        for (i = 0; i < NB; i++) { VP_ASSERT(k->pub.x.b[i] == (i < L ? b[h + i] : 0), "wrong x"); VP_ASSERT(k->pub.y.b[i] == (i < L ? b[h + L + i] : 0), "wrong y"); }
    } else VP_ASSERT(!k || !k->has_pub, "key installed although decoding failed");
    if (k) { VP_ASSERT(k->live == 1, "freed key left behind"); A->free_(p); }
    done(live, fault);
}
#elif MODE == 5
static void privenc(int pk, int have, int wrap, int len, int fault)
{
    static struct pkcs8_priv_key_info_st x; int r, L = kl(pk), live, i, h = wrap ? 2 : 0; const u8 *q; ASN1_STRING *s;
    setup(pk); num(&key.priv, len < L ? len : L); key.has_priv = have == 1;
    if (have == 3) pk0.obj = NULL;
    vp_param[GOST_PARAM_PK_FORMAT] = wrap == 1 ? "LEGACY_PK_WRAP" : wrap == 2 ? "OTHER" : NULL; if (wrap == 2) h = 0;
    x.sets = 0; live = vp_live;
    vp_fault_at = fault;
    r = A->priv_encode(&x, &pk0);
    vp_fault_at = -1;
    VP_ASSERT(r == 0 || r == 1, "result is neither success nor failure");
    VP_ASSERT(r == 0 || (have == 1 && !vp_faulted && x.sets == 1), "success although it must fail");
    VP_ASSERT(r == 1 || have != 1 || vp_faulted, "encoding fails");
    if (r) {
        VP_ASSERT(OBJ_obj2nid(x.obj) == pk && x.ptype == V_ASN1_SEQUENCE && x.n == L + h && (!h || (x.p[0] == 4 && x.p[1] == L)), "structure");
        s = x.pval; q = s->data;
        VP_ASSERT(s->length == 6 && (q[0] | q[1] << 8) == grp.nid, "parameters");
        for (i = 0; i < L; i++) VP_ASSERT(x.p[h + i] == key.priv.b[i], "not little-endian, zero-padded");
        vp_live--;
        ASN1_STRING_free(s);
    }
    done(live, fault);
}
#endif
#ifdef FAULTS
# define SP VP_SPLIT(f, FAULTS)
# define F (int)f
#else
# define SP
# define F -1
#endif
void vp_main(void)
{
    static const int pks[] = { NID_id_GostR3410_2001, NID_id_GostR3410_2001DH, NID_id_GostR3410_2012_256, NID_id_GostR3410_2012_512 };
    const int lens[] = { kl(PK) - 1, 1, 0 };
    int i, j;
    vp_fault_at = -1;
    VP_ASSERT(register_pmeth_gost(PK, &P, 0) == 1 && register_ameth_gost(PK, &A, "x", "y") == 1, "registration");
#if MODE == 0
# ifdef SHAPES
    for (i = 0; i < 4; i++) { sign(pks[i], 64, 64, 1, 0, 1, -1); for (j = -1; j < 2; j++) sign(pks[i], 64, 64, 0, 2 * kl(pks[i]) + j, 1, -1); sign(pks[i], 64, 64, 0, 0, 1, -1); sign(pks[i], 64, 64, 0, 128, 0, -1); }
    sign(6, 64, 64, 1, 128, 1, -1); sign(6, 64, 64, 0, 128, 1, -1);
# elif !defined(FAULTS)
    sign(PK, 64, 64, 0, 128, 1, -1); for (i = 0; i < 2; i++) { sign(PK, lens[i], 64, 0, 128, 1, -1); sign(PK, 64, lens[i], 0, 128, 1, -1); }
# else
    SP sign(PK, 32, 32, 0, 128, 1, F);
# endif
#elif MODE == 1
# ifdef SHAPES
    { static const u8 n[] = { 0, 1, 2, 32, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130 };
      for (i = 0; i < 4; i++) for (j = 0; j < 15; j++) verify(pks[i], n[j], 1, -1);
      verify(6, 64, 1, -1); verify(6, 128, 1, -1);
      setup(PK); VP_ASSERT(P->verify(&cx, NULL, 64, dg, 32) <= 0, "no signature"); cx.pkey = NULL; { u8 s[64] = { 0 }; VP_ASSERT(P->verify(&cx, s, 64, dg, 32) <= 0, "no key"); } }
# else
    SP verify(PK, 2 * kl(PK), nd_upto(1) ? 1 : nd_upto(1) ? 0 : -1, F);
# endif
#elif MODE == 2
    { static const u8 n[] = { 0, 1, 2, 31, 32, 33, 63, 64, 65 }; for (i = LO; i <= HI; i++) for (j = 0; j < 9; j++) store(i, n[j]); }
    VP_WITNESS("stored");
#elif MODE == 3
# ifdef SHAPES
    for (i = 0; i < 4; i++) { for (j = 0; j < 4; j++) pubenc(pks[i], j, 64, 64, -1); }
# elif !defined(FAULTS)
    pubenc(PK, 1, 64, 64, -1); for (i = 0; i < 3; i += 2) { pubenc(PK, 1, lens[i], 64, -1); pubenc(PK, 1, 64, lens[i], -1); }
# else
    SP pubenc(PK, 1, 64, 64, F);
# endif
#elif MODE == 4
# ifdef SHAPES
    { static const u8 n[] = { 0, 1, 2, 32, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130 };
      for (i = AI; i < AI + 1; i++) { for (j = 0; j < 15; j++) pubdec(pks[i], n[j], n[j], 4, 1, 1, -1);
        pubdec(pks[i], 2 * kl(pks[i]) - 1, 2 * kl(pks[i]), 4, 1, 1, -1); pubdec(pks[i], 2 * kl(pks[i]), 2 * kl(pks[i]), 3, 1, 1, -1);
        for (j = 0; j < 4; j++) pubdec(pks[i], 2 * kl(pks[i]), 2 * kl(pks[i]), 4, j, 1, -1);
        pubdec(pks[i], 2 * kl(pks[i]), 2 * kl(pks[i]), 4, 1, 0, -1); }
      pubdec(6, 64, 64, 4, 1, 1, -1); }
# else
    SP pubdec(PK, 2 * kl(PK), 2 * kl(PK), 4, 1, 1, F);
# endif
#elif MODE == 5
# ifdef SHAPES
    for (i = 0; i < 4; i++) { for (j = 0; j < 3; j++) privenc(pks[i], 1, j, kl(pks[i]), -1); privenc(pks[i], 0, 0, 32, -1); privenc(pks[i], 3, 0, 32, -1); privenc(pks[i], 1, 0, 1, -1); privenc(pks[i], 1, 1, 0, -1); }
    privenc(6, 0, 0, 32, -1);
# elif !defined(FAULTS)
    privenc(PK, 1, WRAP, 64, -1); for (i = 0; i < 3; i++) privenc(PK, 1, WRAP, lens[i], -1);
# else
    SP privenc(PK, 1, WRAP, kl(PK), F);
# endif
#endif
    VP_WITNESS("done");
}
