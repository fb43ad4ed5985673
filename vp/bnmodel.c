/* A small exact model of libcrypto's BIGNUM / EC layer.
 *
 * Numbers are exact small integers.  The group is cyclic of (small) prime
 * order vp_q; a point is its discrete logarithm (0 = infinity), so adding and
 * multiplying points is arithmetic mod q, and the affine coordinates are an
 * arbitrary table with X(-P) = X(P) - every curve of that order is covered.
 * Byte strings too long for an exact number keep only their residue mod q
 * (rep), and such a number may only be reduced or multiplied mod q.
 * Every fallible call can be the injected failure (vp_fault). */
#include "vp.h"
#include "misc.h"
#include <openssl/obj_mac.h>
#include "bnmodel.h"
#ifdef VP_CBMC
/* narrow dividers: values stay below 2^20, products of residues (q < 64) below 2^12 */
# define RED(v) ((unsigned)((unsigned __CPROVER_bitvector[20])(v) % (unsigned __CPROVER_bitvector[20])vp_q))
# define REDP(v) ((unsigned)((unsigned __CPROVER_bitvector[13])(v) % (unsigned __CPROVER_bitvector[13])vp_q))
#else
# define RED(v) ((v) % vp_q)
# define REDP(v) ((v) % vp_q)
#endif
unsigned vp_q = 13, vp_p = 257;
unsigned vp_xs[VP_QMAX], vp_ys[VP_QMAX];
int vp_draws, vp_max_draws = 2, vp_bn_live;
unsigned vp_draw[8], vp_inv[VP_QMAX];
struct bignum_ctx { int depth, dead; int live; };
static struct bignum_ctx ctxs[4]; static unsigned nctx;
static struct bignum_st bnp[64]; static unsigned nbn;
static struct ec_point_st ptp[16]; static unsigned npt;

void vp_bn_init(unsigned q, unsigned p, int coords)
{
    unsigned i;
    unsigned j;
    vp_q = q; vp_p = p;
    VP_ASSERT(q < 64, "bnmodel: order out of the model's range");
    for (i = 1; i < q; i++) for (j = 1; j < q; j++) if (i * j % q == 1) vp_inv[i] = j;
    if (!coords) return;
    for (i = 1; i <= q / 2; i++) {
        vp_xs[i] = vp_xs[q - i] = nd_upto(p - 1);
        vp_ys[i] = nd_upto(p - 1); vp_ys[q - i] = vp_ys[i] ? p - vp_ys[i] : 0;
    }
}
/* forget every object (the next scenario starts afresh) */
void vp_bn_reset(void)
{
    nbn = npt = nctx = 0; vp_draws = 0; vp_bn_live = 0; vp_fault_n = 0; vp_faulted = 0;
}
unsigned vp_fold(const u8 *b, size_t n, int le)
{
    unsigned w = 1 % vp_q, s = 0, i;
    for (i = 0; i < n; i++) { s += w * b[le ? i : n - 1 - i]; w = w * 256 % vp_q; }
    return s;
}
static BIGNUM *new_bn(int dyn)
{
    BIGNUM *b = &bnp[nbn++];
    VP_ASSERT(nbn <= 64, "bnmodel: pool exhausted");
    b->v = 0; b->neg = 0; b->rep = 0; b->dyn = dyn; b->hex = 0;
    if (dyn) vp_bn_live++;
    return b;
}
BIGNUM *BN_new(void) { return vp_fault() ? 0 : new_bn(1); }
BIGNUM *BN_secure_new(void) { return BN_new(); }
void BN_free(BIGNUM *a)
{
    if (!a) return;
    VP_ASSERT(a->dyn == 1, "BN_free: not an allocated, live number");
    a->dyn = 2; vp_bn_live--;
}
void BN_clear_free(BIGNUM *a) { BN_free(a); }
BN_CTX *BN_CTX_new(void)
{
    BN_CTX *c;
    if (vp_fault()) return 0;
    c = &ctxs[nctx++];
    VP_ASSERT(nctx <= 4, "bnmodel: pool exhausted");
    c->depth = 0; c->dead = 0; c->live = 1; vp_bn_live++;
    return c;
}
BN_CTX *BN_CTX_secure_new(void) { return BN_CTX_new(); }
void BN_CTX_free(BN_CTX *c)
{
    if (!c) return;
    VP_ASSERT(c->live == 1, "BN_CTX_free: not live");
    c->live = 0; vp_bn_live--;
}
void BN_CTX_start(BN_CTX *c) { c->depth++; }
void BN_CTX_end(BN_CTX *c) { if (c) { VP_ASSERT(c->live == 1, "BN_CTX_end: freed context"); c->depth--; c->dead = 0; } }
BIGNUM *BN_CTX_get(BN_CTX *c)
{
    VP_ASSERT(c->live == 1 && c->depth > 0, "BN_CTX_get outside start/end");
    if (c->dead) return 0;
    if (vp_fault()) { c->dead = 1; return 0; }
    return new_bn(0);
}
#define EXACT(a) VP_ASSERT(!(a)->rep, "bnmodel: residue used as a number")
#define MODQ(m) VP_ASSERT(!(m)->rep && !(m)->neg && (m)->v == vp_q, "bnmodel: residue reduced by another modulus")
int BN_is_zero(const BIGNUM *a) {
#ifdef VP_DER
    if (a->rep) return a->nb == 0;
#endif
    EXACT(a); return a->v == 0; }
int BN_is_one(const BIGNUM *a) { EXACT(a); return a->v == 1 && !a->neg; }
int BN_is_negative(const BIGNUM *a) { return a->neg; }
int BN_set_word(BIGNUM *a, BN_ULONG w) { if (vp_fault()) return 0; a->v = (unsigned)w; a->neg = 0; a->rep = 0; return 1; }
void BN_zero_ex(BIGNUM *a) { a->v = 0; a->neg = 0; a->rep = 0; }
int BN_ucmp(const BIGNUM *a, const BIGNUM *b) { EXACT(a); EXACT(b); return a->v < b->v ? -1 : a->v > b->v; }
int BN_cmp(const BIGNUM *a, const BIGNUM *b)
{
    EXACT(a); EXACT(b);
    if (a->neg != b->neg) return a->neg ? -1 : 1;
    return (a->v < b->v ? -1 : a->v > b->v) * (a->neg ? -1 : 1);
}
BIGNUM *BN_copy(BIGNUM *a, const BIGNUM *b) { if (vp_fault()) return 0; a->v = b->v; a->neg = b->neg; a->rep = b->rep; return a; }
BIGNUM *BN_dup(const BIGNUM *a)
{
    BIGNUM *r;
    if (!a || vp_fault()) return 0;
    r = new_bn(1); r->v = a->v; r->neg = a->neg; r->rep = a->rep;
    return r;
}
static BIGNUM *from_bytes(const u8 *s, int len, BIGNUM *ret, int le)
{
    unsigned v = 0; int i;
    if (vp_fault()) return 0;
    if (!ret) ret = new_bn(1);
    if (len <= 3) { for (i = 0; i < len; i++) v = v << 8 | s[le ? len - 1 - i : i]; ret->rep = 0; }
    else {
        v = vp_fold(s, len, le); ret->rep = 1; ret->nb = 0;
#ifdef VP_DER
        for (i = 0; i < len; i++) if (s[le ? i : len - 1 - i]) ret->nb = i + 1;
#endif
    }
    ret->v = v; ret->neg = 0;
    return ret;
}
BIGNUM *BN_lebin2bn(const unsigned char *s, int len, BIGNUM *ret) { return from_bytes(s, len, ret, 1); }
BIGNUM *BN_bin2bn(const unsigned char *s, int len, BIGNUM *ret) { return from_bytes(s, len, ret, 0); }
static void set_mod(BIGNUM *r, unsigned v, const BIGNUM *m, int rep)
{
    MODQ(m);
    r->v = RED(v); r->neg = 0; r->rep = 0;
}
int BN_div(BIGNUM *dv, BIGNUM *rem, const BIGNUM *a, const BIGNUM *m, BN_CTX *c)
{
    int neg;
    VP_ASSERT(!dv && rem, "bnmodel: only the remainder is modelled");
    if (vp_fault()) return 0;
    neg = a->neg;
    set_mod(rem, a->v, m, a->rep);
    rem->neg = neg && rem->v != 0;
    return 1;
}
int BN_nnmod(BIGNUM *r, const BIGNUM *a, const BIGNUM *m, BN_CTX *c)
{
    if (!BN_div(0, r, a, m, c)) return 0;
    if (r->neg) { r->v = vp_q - r->v; r->neg = 0; }
    return 1;
}
static unsigned pos(const BIGNUM *a, const BIGNUM *m)       /* a mod m, nonnegative */
{
    unsigned v;
    MODQ(m);
    v = a->v < vp_q && !a->rep ? a->v : RED(a->v);
    return a->neg && v ? vp_q - v : v;
}
int BN_mod_mul(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c)
{
    if (vp_fault()) return 0;
    MODQ(m);
    r->v = REDP(pos(a, m) * pos(b, m)); r->neg = 0; r->rep = 0;
    return 1;
}
int BN_mod_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c)
{
    if (vp_fault()) return 0;
    MODQ(m);
    r->v = REDP(pos(a, m) + pos(b, m)); r->neg = 0; r->rep = 0;
    return 1;
}
int BN_mod_sub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, const BIGNUM *m, BN_CTX *c)
{
    if (vp_fault()) return 0;
    MODQ(m);
    r->v = REDP(pos(a, m) + vp_q - pos(b, m)); r->neg = 0; r->rep = 0;
    return 1;
}
static int addsub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b, int sub)
{
    long x, y;
    if (vp_fault()) return 0;
    EXACT(a); EXACT(b);
    x = a->neg ? -(long)a->v : (long)a->v; y = b->neg ? -(long)b->v : (long)b->v;
    x = sub ? x - y : x + y;
    r->neg = x < 0; r->v = (unsigned)(x < 0 ? -x : x); r->rep = 0;
    return 1;
}
int BN_sub(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { return addsub(r, a, b, 1); }
int BN_add(BIGNUM *r, const BIGNUM *a, const BIGNUM *b) { return addsub(r, a, b, 0); }
void BN_set_negative(BIGNUM *a, int n) { a->neg = n && a->v; }
BIGNUM *BN_mod_inverse(BIGNUM *r, const BIGNUM *a, const BIGNUM *m, BN_CTX *c)
{
    unsigned v;
    if (vp_fault()) return 0;
    MODQ(m);
    v = pos(a, m);
    if (v == 0) return 0;
    if (!r) r = new_bn(1);
    r->v = vp_inv[v]; r->neg = 0; r->rep = 0;
    return r;
}
int BN_rand_range(BIGNUM *r, const BIGNUM *range)
{
    if (vp_fault()) return 0;
    MODQ(range);
    VP_ASSUME(vp_draws < vp_max_draws);
    r->v = vp_draw[vp_draws & 7] = nd_upto(vp_q - 1); r->neg = 0; r->rep = 0;
    vp_draws++;
    return 1;
}
int BN_priv_rand_range(BIGNUM *r, const BIGNUM *range) { return BN_rand_range(r, range); }
int BN_num_bits(const BIGNUM *a)
{
    unsigned v = a->v; int n = 0, i;
#ifdef VP_DER
    if (a->rep) return 8 * a->nb;      /* right to the byte */
#endif
    EXACT(a);
    for (i = 0; i < 24; i++) if (v >> i & 1) n = i + 1; return n; }
static int to_bytes(const BIGNUM *a, u8 *to, int n, int le)
{
    int i, len;
    EXACT(a);
    len = (BN_num_bits(a) + 7) / 8;
    if (n < 0) n = len;
    if (vp_fault()) return -1;
    if (len > n) return -1;
    for (i = 0; i < n; i++) to[le ? i : n - 1 - i] = i < 4 ? (u8)(a->v >> (8 * i)) : 0;
    return n;
}
int BN_bn2lebinpad(const BIGNUM *a, unsigned char *to, int n) { return to_bytes(a, to, n, 1); }
int BN_bn2binpad(const BIGNUM *a, unsigned char *to, int n) { return to_bytes(a, to, n, 0); }
int BN_bn2bin(const BIGNUM *a, unsigned char *to)
{
    int f = vp_fault_at, r;
    vp_fault_at = -1; r = to_bytes(a, to, -1, 0); vp_fault_at = f;
    return r;
}
int BN_hex2bn(BIGNUM **a, const char *s)
{
    if (vp_fault()) return 0;
    if (!*a) *a = new_bn(1);
    (*a)->hex = s; (*a)->v = 0; (*a)->neg = 0; (*a)->rep = 1;
    return 1;
}

/* groups, points, keys */
#ifndef VP_GROUPS
# define VP_GROUPS 3
#endif
struct ec_group_st vp_grps[VP_GROUPS]; unsigned vp_ngrp;
int vp_grp_live;
EC_GROUP *EC_GROUP_new_curve_GFp(const BIGNUM *p, const BIGNUM *a, const BIGNUM *b, BN_CTX *c)
{
    EC_GROUP *g;
    if (vp_fault()) return 0;
    g = &vp_grps[vp_ngrp++];
    VP_ASSERT(vp_ngrp <= VP_GROUPS, "bnmodel: pool exhausted");
    g->live = 1; g->nid = 0; vp_grp_live++;
    g->hp = p->hex; g->ha = a->hex; g->hb = b->hex;
    g->order.v = vp_q; g->field.v = vp_p;
    return g;
}
void EC_GROUP_free(EC_GROUP *g) { if (g) { VP_ASSERT(g->live == 1, "EC_GROUP_free: not live"); g->live = 0; vp_grp_live--; } }
int EC_GROUP_set_generator(EC_GROUP *g, const EC_POINT *P, const BIGNUM *q, const BIGNUM *c)
{
    if (vp_fault()) return 0;
    g->hq = q->hex; g->hc = c->hex; g->hx = P->sx ? P->sx->hex : 0; g->hy = P->sy ? P->sy->hex : 0;
    return 1;
}
void EC_GROUP_set_curve_name(EC_GROUP *g, int nid) { g->nid = nid; }
int EC_GROUP_get_curve_name(const EC_GROUP *g) { return g->nid; }
int EC_GROUP_get_order(const EC_GROUP *g, BIGNUM *o, BN_CTX *c) { if (vp_fault()) return 0; o->v = g->order.v; o->neg = 0; o->rep = 0; return 1; }
const BIGNUM *EC_GROUP_get0_order(const EC_GROUP *g) { return &g->order; }
const BIGNUM *EC_GROUP_get0_field(const EC_GROUP *g) { return &g->field; }
EC_POINT *EC_POINT_new(const EC_GROUP *g)
{
    EC_POINT *p;
    VP_ASSERT(g != 0, "EC_POINT_new without a group");
    if (vp_fault()) return 0;
    p = &ptp[npt++];
    VP_ASSERT(npt <= 16, "bnmodel: pool exhausted");
    p->log = 0; p->live = 1; p->g = g; vp_bn_live++;
    return p;
}
void EC_POINT_free(EC_POINT *p) { if (p) { VP_ASSERT(p->live == 1, "EC_POINT_free: not live"); p->live = 0; vp_bn_live--; } }
void EC_POINT_clear_free(EC_POINT *p) { EC_POINT_free(p); }
int EC_POINT_set_affine_coordinates(const EC_GROUP *g, EC_POINT *P, const BIGNUM *x, const BIGNUM *y, BN_CTX *c)
{
    unsigned l;
    if (vp_fault()) return 0;
    if (x->hex) { P->sx = x; P->sy = y; P->log = 1; return 1; }
    EXACT(x); EXACT(y);
    for (l = 1; l < vp_q; l++) if (vp_xs[l] == x->v && vp_ys[l] == y->v) { P->log = l; return 1; }
    return 0;
}
int EC_POINT_get_affine_coordinates(const EC_GROUP *g, const EC_POINT *P, BIGNUM *x, BIGNUM *y, BN_CTX *c)
{
    if (vp_fault()) return 0;
    if (P->log == 0) return 0;
    if (x) { x->v = vp_xs[P->log]; x->neg = 0; x->rep = 0; }
    if (y) { y->v = vp_ys[P->log]; y->neg = 0; y->rep = 0; }
    return 1;
}
int EC_POINT_is_at_infinity(const EC_GROUP *g, const EC_POINT *p) { return p->log == 0; }
int EC_POINT_cmp(const EC_GROUP *g, const EC_POINT *a, const EC_POINT *b, BN_CTX *c) { return a->log != b->log; }
/* r = n*G + m*q */
static int mul(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m)
{
    unsigned l = 0;
    if (vp_fault()) return 0;
    VP_ASSERT(g && r && (n || (q && m)), "scalar multiplication without operands");
    if (q && q->g && q->g->nid != g->nid) return 0;     /* a point of another group */
    if (m) l = REDP(pos(m, &g->order) * q->log);
    if (n) l += pos(n, &g->order);
    r->log = REDP(l);
    return 1;
}
#ifndef VP_NO_ECMUL
int EC_POINT_mul(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c)
{ return mul(g, r, n, q, m); }
#endif
#if defined(VP_CURVE_OK) || !defined(VP_CBMC)
/* every curve's own multiplication, usable for groups with that curve only */
# define CURVE(id, cond) \
int point_mul_g_##id(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, BN_CTX *c) \
{ int nid = g->nid; VP_ASSERT(cond, "scalar multiplication of another curve"); return mul(g, r, n, 0, 0); } \
int point_mul_##id(const EC_GROUP *g, EC_POINT *r, const EC_POINT *q, const BIGNUM *m, BN_CTX *c) \
{ int nid = g->nid; VP_ASSERT(cond, "scalar multiplication of another curve"); return mul(g, r, 0, q, m); } \
int point_mul_two_##id(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c) \
{ int nid = g->nid; VP_ASSERT(cond, "scalar multiplication of another curve"); return mul(g, r, n, q, m); }
CURVE(id_GostR3410_2001_CryptoPro_A_ParamSet, nid == NID_id_GostR3410_2001_CryptoPro_A_ParamSet || nid == NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet || nid == NID_id_tc26_gost_3410_2012_256_paramSetB)
CURVE(id_GostR3410_2001_CryptoPro_B_ParamSet, nid == NID_id_GostR3410_2001_CryptoPro_B_ParamSet || nid == NID_id_tc26_gost_3410_2012_256_paramSetC)
CURVE(id_GostR3410_2001_CryptoPro_C_ParamSet, nid == NID_id_GostR3410_2001_CryptoPro_C_ParamSet || nid == NID_id_GostR3410_2001_CryptoPro_XchB_ParamSet || nid == NID_id_tc26_gost_3410_2012_256_paramSetD)
CURVE(id_GostR3410_2001_TestParamSet, nid == NID_id_GostR3410_2001_TestParamSet)
CURVE(id_tc26_gost_3410_2012_256_paramSetA, nid == NID_id_tc26_gost_3410_2012_256_paramSetA)
CURVE(id_tc26_gost_3410_2012_512_paramSetA, nid == NID_id_tc26_gost_3410_2012_512_paramSetA)
CURVE(id_tc26_gost_3410_2012_512_paramSetB, nid == NID_id_tc26_gost_3410_2012_512_paramSetB)
CURVE(id_tc26_gost_3410_2012_512_paramSetC, nid == NID_id_tc26_gost_3410_2012_512_paramSetC)
#else
/* decided by P24's dispatch job */
int gost_ec_point_mul(const EC_GROUP *g, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *c)
{ VP_ASSERT(c != 0, "scalar multiplication without a context"); return mul(g, r, n, q, m); }
#endif
int vp_key_live;
int EC_KEY_check_key(const EC_KEY *k) { return k->group && k->has_pub && k->pub.log != 0; }
EC_KEY *EC_KEY_new(void)
{
    EC_KEY *k;
    if (vp_fault()) return 0;
    k = calloc(1, sizeof(*k));
    VP_ASSUME(k != 0);
    k->live = 1; vp_bn_live++;
    return k;
}
void EC_KEY_free(EC_KEY *k) { if (k) { VP_ASSERT(k->live == 1, "EC_KEY_free: not live"); k->live = 0; vp_bn_live--; } }
const EC_GROUP *EC_KEY_get0_group(const EC_KEY *k) { VP_ASSERT(k != 0, "EC_KEY accessor on NULL"); return k->group; }
int EC_KEY_set_group(EC_KEY *k, const EC_GROUP *g) { if (vp_fault()) return 0; k->group = g; return 1; }
const BIGNUM *EC_KEY_get0_private_key(const EC_KEY *k) { VP_ASSERT(k != 0, "EC_KEY accessor on NULL"); return k->has_priv ? &k->priv : 0; }
const EC_POINT *EC_KEY_get0_public_key(const EC_KEY *k) { VP_ASSERT(k != 0, "EC_KEY accessor on NULL"); return k->has_pub ? &k->pub : 0; }
int EC_KEY_set_private_key(EC_KEY *k, const BIGNUM *d) { if (!k->group || vp_fault()) return 0; if (!d) { k->has_priv = 0; return 0; } k->priv.v = d->v; k->priv.neg = d->neg; k->priv.rep = d->rep; k->has_priv = 1; return 1; }
int EC_KEY_set_public_key(EC_KEY *k, const EC_POINT *p) { if (!k->group || vp_fault()) return 0; k->pub.log = p->log; k->has_pub = 1; return 1; }
ECDSA_SIG *ECDSA_SIG_new(void)
{
    ECDSA_SIG *s;
    if (vp_fault()) return 0;
    s = calloc(1, sizeof(*s));
    VP_ASSUME(s != 0);
    vp_bn_live++;
    return s;
}
void ECDSA_SIG_free(ECDSA_SIG *s) { if (s) { BN_free(s->r); BN_free(s->s); vp_bn_live--; free(s); } }
void ECDSA_SIG_get0(const ECDSA_SIG *s, const BIGNUM **r, const BIGNUM **t) { if (r) *r = s->r; if (t) *t = s->s; }
const BIGNUM *ECDSA_SIG_get0_r(const ECDSA_SIG *s) { return s->r; }
const BIGNUM *ECDSA_SIG_get0_s(const ECDSA_SIG *s) { return s->s; }
int ECDSA_SIG_set0(ECDSA_SIG *s, BIGNUM *r, BIGNUM *t)
{
    if (!r || !t) return 0;
    BN_free(s->r); BN_free(s->s); s->r = r; s->s = t;
    return 1;
}
