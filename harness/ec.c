/* P24: GOST R 34.10 signature equations.  -DMODE 0 sign, 1 verify, 2 keygen,
 * 3 sign then verify, 4 curve dispatch.  Group: any cyclic group of order -DQ. */
#include "vp.h"
#include "misc.h"
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include "gost_lcl.h"
#include "bnmodel.h"
#if !defined(FAULTS)
# define OK_WITNESS(m) VP_WITNESS(m)
#else
# define OK_WITNESS(m) ((void)0)
#endif
#ifndef Q
# define Q 13
#endif
#ifndef PF
# define PF 251
#endif
#ifndef FAULTS
# define FAULTS 0
#endif
static struct ec_group_st grp; static struct ec_key_st key; static struct ECDSA_SIG_st sg; static struct bignum_st R_, S_;
static u8 dg[64];
static const int nids[] = { NID_id_GostR3410_2001_CryptoPro_A_ParamSet, NID_id_GostR3410_2001_CryptoPro_B_ParamSet, NID_id_GostR3410_2001_CryptoPro_C_ParamSet,
    NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet, NID_id_GostR3410_2001_CryptoPro_XchB_ParamSet, NID_id_GostR3410_2001_TestParamSet,
    NID_id_tc26_gost_3410_2012_256_paramSetA, NID_id_tc26_gost_3410_2012_256_paramSetB, NID_id_tc26_gost_3410_2012_256_paramSetC, NID_id_tc26_gost_3410_2012_256_paramSetD,
    NID_id_tc26_gost_3410_2012_512_paramSetA, NID_id_tc26_gost_3410_2012_512_paramSetB, NID_id_tc26_gost_3410_2012_512_paramSetC, NID_id_tc26_gost_3410_2012_512_paramSetTest, NID_undef };
static void setup(void)
{
    vp_bn_init(Q, PF, 1); vp_fault_at = -1;
    grp.nid = NID_id_tc26_gost_3410_2012_512_paramSetTest; grp.live = 1; grp.order.v = Q; grp.field.v = PF;
    key.live = 1; key.group = &grp; key.has_priv = key.has_pub = 1;
    key.priv.v = nd_upto(Q - 2) + 1; key.pub.log = nd_upto(Q - 1); key.pub.live = 1;
    sg.r = &R_; sg.s = &S_;
#ifdef TINY
    memset(dg, 3, 64); key.priv.v = 2; key.pub.log = 2; vp_max_draws = 1;
#elif defined(ONEBYTE)
    nd_bytes(dg, 1);
#else
    nd_bytes(dg, 64);
#endif
}
#ifdef VP_CBMC
# define MODQ(v) ((unsigned)((unsigned __CPROVER_bitvector[20])(v) % Q))
#else
# define MODQ(v) ((v) % Q)
#endif
static unsigned eval(int dlen) { unsigned e = MODQ(vp_fold(dg, dlen, 1)); return e ? e : 1; }
static void run(void);
void vp_main(void)
{
    setup();
    if (!FAULTS) run();
    else
        VP_SPLIT(f, FAULTS - 1) { vp_bn_reset(); vp_fault_at = (int)f; run(); }
    VP_WITNESS("all scenarios");
}
static void run(void)
{
#if MODE == 0
    ECDSA_SIG *s; int i, dlen = DLEN; unsigned e = dlen == 32 || dlen == 64 ? eval(dlen) : 1, d = key.priv.v, k, r;
    if (!FAULTS && nd_upto(7) == 0) key.has_priv = 0;
    s = gost_ec_sign(dg, dlen, &key);
    VP_ASSERT(!s || (dlen == 32 || dlen == 64), "signature of a digest of unsupported length");
    VP_ASSERT(!s || !vp_faulted, "signature returned although a sub-operation failed");
    VP_ASSERT(!s || key.has_priv, "signature without a private key");
    if (s) {
        VP_ASSERT(vp_draws > 0, "signature without a random nonce");
        k = vp_draw[(vp_draws - 1) & 7]; r = MODQ(vp_xs[k]);
        VP_ASSERT(s->r->v > 0 && s->r->v < Q && s->s->v > 0 && s->s->v < Q && !s->r->neg && !s->s->neg, "signature part out of (0,q)");
        VP_ASSERT(k != 0 && s->r->v == r && s->s->v == MODQ(r * d + k * e), "signature differs from r = x(kG) mod q, s = rd + ke mod q");
        OK_WITNESS("signed");
        ECDSA_SIG_free(s);
    } else
        /* the last draw was unusable, or something failed */
        VP_ASSERT(vp_faulted || !key.has_priv || (dlen != 32 && dlen != 64) || vp_draw[(vp_draws - 1) & 7] == 0, "no signature although nothing failed");
    VP_ASSERT(vp_bn_live == 0, "signing leaks an object");
#elif MODE == 1
    int dlen = DLEN, ret, want; unsigned e = dlen == 32 || dlen == 64 ? eval(dlen) : 1, r, s, ei, z1, z2, c;
    R_.v = nd_upto(3 * Q); R_.neg = R_.v ? nd_upto(1) : 0; S_.v = nd_upto(3 * Q); S_.neg = S_.v ? nd_upto(1) : 0;
    r = R_.v; s = S_.v;
    if (!FAULTS && nd_upto(7) == 0) key.has_pub = 0;
    want = (dlen == 32 || dlen == 64) && key.has_pub && !R_.neg && !S_.neg && r > 0 && r < Q && s > 0 && s < Q;
    ei = vp_inv[e];
    z1 = MODQ(s * ei); z2 = MODQ(3 * Q * Q - r * ei); c = MODQ(z1 + z2 * key.pub.log);
    want = want && c != 0 && MODQ(vp_xs[c]) == r;
    ret = gost_ec_verify(dg, dlen, &sg, &key);
    VP_ASSERT(ret == 0 || ret == 1, "verification result is neither 0 nor 1");
    VP_ASSERT(!ret || want, "signature accepted although a verification condition fails");
    VP_ASSERT(!ret || !vp_faulted, "signature accepted although a sub-operation failed");
    VP_ASSERT(ret || !want || vp_faulted, "valid signature rejected");
    VP_ASSERT(R_.v == r && S_.v == s, "verification changes the signature");
    VP_ASSERT(vp_bn_live == 0, "verification leaks an object");
    if (ret) OK_WITNESS("accepted");
#elif MODE == 2
    int ret; unsigned d0 = key.priv.v;
    key.has_priv = nd_upto(1); key.has_pub = nd_upto(1);
    if (!FAULTS && nd_upto(7) == 0) key.group = 0;
    ret = gost_ec_keygen(&key);
    VP_ASSERT(ret == 0 || ret == 1, "key generation result is neither 0 nor 1");
    VP_ASSERT(!ret || !vp_faulted, "key generation succeeds although a sub-operation failed");
    VP_ASSERT(ret || vp_faulted || !key.group, "key generation fails although nothing failed");
    if (ret) {
        VP_ASSERT(key.has_priv && key.priv.v > 0 && key.priv.v < Q && key.priv.v == vp_draw[(vp_draws - 1) & 7], "private key is not a fresh number in (0,q)");
        VP_ASSERT(key.has_pub && key.pub.log == key.priv.v, "public key is not dG");
        OK_WITNESS("generated");
    }
    (void)d0;
    VP_ASSERT(vp_bn_live == 0, "key generation leaks an object");
#elif MODE == 3
    ECDSA_SIG *s; int ret;
    key.pub.log = key.priv.v;
    s = gost_ec_sign(dg, DLEN, &key);
    if (s) {
        ret = gost_ec_verify(dg, DLEN, s, &key);
        VP_ASSERT(ret == 1, "own signature is not accepted");
        VP_WITNESS("verified");
    }
#elif MODE == 4      /* dispatch: bnmodel's multiplications refuse other curves */
    struct ec_point_st c; struct bignum_st n = { 0 }, m = { 0 }; BN_CTX *x; int ret, i; unsigned q;
    vp_fault_at = -1; x = BN_CTX_new(); BN_CTX_start(x);
    VP_SPLIT(j, 14) {
        grp.nid = nids[j]; n.v = nd_upto(Q - 1); m.v = nd_upto(Q - 1); q = key.pub.log;
        c.live = 1; c.log = 99;
        ret = gost_ec_point_mul(&grp, &c, &n, &key.pub, &m, x);
        VP_ASSERT(ret == 1 && c.log == (n.v + m.v * q) % Q, "double multiplication is not nG + mQ");
        c.log = 99;
        ret = gost_ec_point_mul(&grp, &c, &n, 0, 0, x);
        VP_ASSERT(ret == 1 && c.log == n.v, "base multiplication is not nG");
        c.log = 99;
        ret = gost_ec_point_mul(&grp, &c, 0, &key.pub, &m, x);
        VP_ASSERT(ret == 1 && c.log == m.v * q % Q, "multiplication is not mQ");
        ret = gost_ec_point_mul(&grp, &c, 0, 0, &m, x); VP_ASSERT(ret == 0, "multiplication without a point succeeds");
        ret = gost_ec_point_mul(&grp, &c, &n, 0, &m, x); VP_ASSERT(ret == 0, "multiplication without a point succeeds");
        ret = gost_ec_point_mul(&grp, &c, 0, 0, 0, x); VP_ASSERT(ret == 0, "multiplication without operands succeeds");
    }
    VP_WITNESS("dispatched"); (void)i;
#elif MODE == 5      /* parameter sets: the group is built from its own entry */
    int ret, i, nid = nids[NIDX], base = nid; R3410_ec_params *e = 0, *t;
    extern struct ec_group_st vp_grps[]; extern unsigned vp_ngrp; extern int vp_grp_live; struct ec_group_st *g;
    if (nid == NID_id_tc26_gost_3410_2012_256_paramSetB) base = NID_id_GostR3410_2001_CryptoPro_A_ParamSet;
    if (nid == NID_id_tc26_gost_3410_2012_256_paramSetC) base = NID_id_GostR3410_2001_CryptoPro_B_ParamSet;
    if (nid == NID_id_tc26_gost_3410_2012_256_paramSetD) base = NID_id_GostR3410_2001_CryptoPro_C_ParamSet;
    for (t = R3410_2012_512_paramset; t->nid != NID_undef; t++) if (!e && t->nid == base) e = t;
    for (t = R3410_2001_paramset; t->nid != NID_undef; t++) if (!e && t->nid == base) e = t;
    free_cached_groups(); VP_ASSERT(vp_grp_live == 0, "cached groups are not released");
    vp_ngrp = 0; key.group = 0;
    ret = fill_GOST_EC_params(&key, nid);
    VP_ASSERT(ret == 0 || ret == 1, "result is neither 0 nor 1");
    VP_ASSERT(!ret || (nid != NID_undef && !vp_faulted), "unknown parameter set or failed operation reported as success");
    VP_ASSERT(ret || nid == NID_undef || vp_faulted, "parameter set refused although nothing failed");
    VP_ASSERT(vp_bn_live == 0, "filling in parameters leaks an object");
    VP_ASSERT(vp_grp_live == (e && e->group ? 1 : 0), "a group is neither cached nor released");
    if (ret) {
        for (i = 0; i < 2; i++) {
            g = (struct ec_group_st *)key.group;
            VP_ASSERT(g && g->nid == nid, "group has another identifier");
            VP_ASSERT(e && g->hp == e->p && g->ha == e->a && g->hb == e->b && g->hq == e->q && g->hx == e->x && g->hy == e->y && g->hc == e->cofactor, "group differs from its parameter set");
            OK_WITNESS("filled");
            key.group = 0; vp_fault_at = -1; if (!i) ret = fill_GOST_EC_params(&key, nid);        /* from the cache */
            if (!i) VP_ASSERT(ret == 1, "cached parameter set refused");
        }
        VP_ASSERT(vp_grp_live == 1, "cached group built again");
    }
    VP_ASSERT(fill_GOST_EC_params(0, nid) == 0, "missing key accepted");
#endif
}
