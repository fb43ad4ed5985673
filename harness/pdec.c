/* P28: private key decoding.  FORM 0 concatenated masks, 1 OCTET STRING,
 * 2 INTEGER, 3 MaskedKey SEQUENCE, 4 every other shape and length */
#include "vp.h"
#include "misc.h"
#include "obj.h"
#include <openssl/obj_mac.h>
#include "gost_lcl.h"
#include "pkmodel.h"
#ifndef Q
# define Q 19
#endif
#ifdef VP_CBMC
# define RED(v) ((unsigned)((unsigned __CPROVER_bitvector[20])(v) % (unsigned __CPROVER_bitvector[20])Q))
#else
# define RED(v) ((v) % Q)
#endif
int register_ameth_gost(int nid, EVP_PKEY_ASN1_METHOD **ameth, const char *pemstr, const char *info);
static struct ec_group_st grp;
static int params_ok;
static u8 der_params[6];
static ASN1_STRING ps; static ASN1_TYPE pt; static X509_ALGOR alg; static struct pkcs8_priv_key_info_st p8;
static MASKED_GOST_KEY mgk; static ASN1_STRING mk; static int mgk_live; static int mgk_ok;
MASKED_GOST_KEY *d2i_MASKED_GOST_KEY(MASKED_GOST_KEY **a, const unsigned char **in, long n) { VP_ASSERT(n > 0, "parsing nothing"); if (!mgk_ok || vp_fault()) return NULL; mgk_live++; return &mgk; }
void MASKED_GOST_KEY_free(MASKED_GOST_KEY *m) { if (m) { VP_ASSERT(m == &mgk && mgk_live == 1, "structure freed twice"); mgk_live--; } }
/* installing the curve: decided by P24 */
int fill_GOST_EC_params(EC_KEY *k, int nid)
{
    if (!k || nid != NID_id_GostR3410_2001_CryptoPro_A_ParamSet || vp_fault()) return 0;
    grp.nid = nid; k->group = &grp;
    return 1;
}
static EVP_PKEY_ASN1_METHOD *M;
/* n bytes at b (exactly); the key stands at off..off+kl: kl / EL numbers, or -1: must be refused */
static void decode(u8 *b, int n, const u8 *kb, int kl, int be, int pk, int ptype, int pnid, int known, int fault)
{
    EVP_PKEY *p = vp_pkey(0, NULL); EC_KEY *k; unsigned d = 0, i; int r, live = vp_live, ok, el = EL;
    vp_bn_init(Q, 251, 0); { unsigned i; for (i = 1; i < Q; i++) { vp_xs[i] = 10 + (i < Q - i ? i : Q - i); vp_ys[i] = 100 + i; } }
    grp.nid = 0; grp.live = 1; grp.order.v = Q; grp.field.v = 251;
    alg.algorithm = OBJ_nid2obj(pk); alg.parameter = &pt; pt.type = ptype; pt.value.ptr = (void *)&ps;
    ps.data = der_params; ps.length = known == 2 ? 5 : 6; der_params[0] = (u8)pnid; der_params[1] = pnid >> 8;
    p8.alg = &alg; p8.p = b; p8.n = n;
    vp_fault_n = 0; vp_faulted = 0; vp_fault_at = fault;
    r = M->priv_decode(p, &p8);
    vp_fault_at = -1;
    ok = kl > 0 && known == 1;
    if (ok && be) d = RED(vp_fold(kb, kl, 0));
    else if (ok) for (i = 0; i < kl / el; i++) d = i ? RED(d * RED(vp_fold(kb + i * el, el, 1))) : RED(vp_fold(kb, el, 1));
    VP_ASSERT(r == 0 || r == 1, "result is neither success nor failure");
    VP_ASSERT(r == 0 || ok, "an encoding that must be refused was accepted");
    VP_ASSERT(r == 1 || !ok || vp_faulted || d == 0, "a well-formed key was refused");
    VP_ASSERT(r == 0 || !vp_faulted, "success after an underlying failure");
#ifdef FAULTS
    if (fault == FAULTS) VP_ASSERT(!vp_faulted, "more fallible calls than explored (raise FAULTS)");
#endif
    k = p->obj;
    if (r) {
        VP_ASSERT(p->type == pk && k && k->group == &grp && grp.nid == pnid, "algorithm or curve");
        VP_ASSERT(k->has_priv && !k->priv.neg && RED(k->priv.v) == d, "wrong private key");
        VP_ASSERT(k->has_pub && k->pub.log == d, "wrong public key");
#if FORM < 4
        VP_WITNESS("decoded");
#endif
    } else VP_ASSERT(k == NULL || !k->has_priv || vp_faulted || d == 0, "key installed although decoding failed");
    if (k) { VP_ASSERT(k->live == 1, "freed key left behind"); M->free_(p); }
    VP_ASSERT(mgk_live == 0 && vp_live == live && vp_bn_live == 0, "objects leaked");
    vp_bn_reset();
}
static u8 *buf(int n) { u8 *b = malloc(n); VP_ASSUME(b != NULL); return b; }
#ifdef HEAD      /* the leading bytes only */
# define FILL(b, n) do { int i_; for (i_ = 0; i_ < (n); i_++) (b)[i_] = i_ < 3 ? nd_u8() : (u8)(3 * i_ + 1); } while (0)
#elif defined(SYM)
# define FILL(b, n) nd_bytes(b, n)
#else
# define FILL(b, n) do { int i_; for (i_ = 0; i_ < (n); i_++) (b)[i_] = (u8)(3 * i_ + 1); } while (0)
#endif
#define A NID_id_GostR3410_2001_CryptoPro_A_ParamSet
void vp_main(void)
{
    u8 *b;
    vp_fault_at = -1;
    VP_ASSERT(register_ameth_gost(PK, &M, "x", "y") == 1 && M->priv_decode, "registration");
#if defined(FAULTS)
# define SP VP_SPLIT(f, FAULTS)
# define F (int)f
#else
# define SP
# define F -1
#endif
#if FORM == 0
    b = buf(NK * EL); FILL(b, NK * EL);
    SP decode(b, NK * EL, b, NK * EL, 0, PK, V_ASN1_SEQUENCE, A, 1, F);
#elif FORM == 1
    b = buf(EL + 2); FILL(b + 2, EL); b[0] = 4; b[1] = EL;
    SP decode(b, EL + 2, b + 2, EL, 0, PK, V_ASN1_SEQUENCE, A, 1, F);
#elif FORM == 2
    {   /* LEN content bytes: negative, overlong and non-minimal ones are refused */
        int ok; b = buf(LEN + 2); FILL(b + 2, LEN); b[0] = 2; b[1] = LEN;
# ifndef SYM
        b[2] &= 0x7f;
# endif
        ok = LEN > 0 && !(b[2] & 0x80) && (LEN <= EL || (LEN == EL + 1 && b[2] == 0)) && !(LEN > 1 && b[2] == 0 && !(b[3] & 0x80));
        SP decode(b, LEN + 2, b + 2, ok ? LEN : -1, 1, PK, V_ASN1_SEQUENCE, A, 1, F);
    }
#elif FORM == 3
    {
        static u8 s[4] = { 0x30, 2, 0, 0 }; b = buf(NK * EL + 1); FILL(b, NK * EL + 1);
        mgk.masked_priv_key = &mk; mk.type = V_ASN1_OCTET_STRING; mk.data = b; mgk_ok = 1;
# ifdef SHAPES
        { int n; for (n = 0; n <= 2 * EL + 1; n++) { u8 *c = buf(n); { int i; for (i = 0; i < n; i++) c[i] = 1; } mk.data = c; mk.length = n; decode(s, 4, c, n && n % EL == 0 ? n : -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1); } }
        mgk_ok = 0; decode(s, 4, NULL, -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1);
# else
        mk.length = NK * EL;
        SP decode(s, 4, b, NK * EL, 0, PK, V_ASN1_SEQUENCE, A, 1, F);
# endif
    }
#elif FORM == 4
    {   /* every length that is not a number of keys, with every tag and length byte */
        static const u8 tags[] = { 2, 4, 5, 0x30 }; int n = LEN, j, t;
        for (t = 0; t < 4; t++) for (j = 0; j < 6; j++) {
            int ls[] = { n - 2, n - 3, n - 1, EL, 0, t == 0 ? 0x80 : 0x81 }, l;
            l = ls[j] & 255;
            if (t >= 2 && j) continue;
            b = buf(n); { int i; for (i = 0; i < n; i++) b[i] = 1; }
            if (n > 0) b[0] = tags[t];
            if (n > 1) b[1] = l;
            mgk_ok = 0;
            if (t == 1) decode(b, n, b + 2, n >= EL + 2 && l == EL ? EL : -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1);
            else if (t == 0) decode(b, n, b + 2, n > 2 && l > 0 && l <= EL && l <= n - 2 ? l : -1, 1, PK, V_ASN1_SEQUENCE, A, 1, -1);
            else decode(b, n, NULL, -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1);
        }
        VP_WITNESS("shapes");
    }
#elif FORM == 5
    b = buf(EL); FILL(b, EL);
    decode(b, EL, b, EL, 0, PK, V_ASN1_NULL, A, 0, -1);
    decode(b, EL, b, EL, 0, PK, V_ASN1_UNDEF, A, 0, -1);
    decode(b, EL, b, EL, 0, PK, V_ASN1_OBJECT, A, 0, -1);
    decode(b, EL, b, EL, 0, PK, V_ASN1_SEQUENCE, A, 2, -1);       /* undecodable parameters */
    decode(b, EL, b, EL, 0, PK, V_ASN1_SEQUENCE, 5, 0, -1);       /* unknown parameter set */
    decode(b, EL, b, EL, 0, 6, V_ASN1_SEQUENCE, A, 0, -1);        /* another algorithm */
    decode(b, 0, b, -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1);
    decode(b, -1, b, -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1);
    decode(NULL, 0, b, -1, 0, PK, V_ASN1_SEQUENCE, A, 1, -1);
    VP_WITNESS("algorithms");
#endif
}
