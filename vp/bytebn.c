/* BIGNUM / EC objects for the encoders: a number is its VP_BYTEBN bytes
 * (little-endian), a point its two coordinates.  No arithmetic. */
#include "vp.h"
#include "misc.h"
#include <openssl/obj_mac.h>
#include "bnmodel.h"
int vp_bn_live, vp_key_live, vp_grp_live;
int vp_oncurve = 1;            /* is a pair of coordinates handed in on the curve? */
#define N VP_BYTEBN
static struct bignum_st pool[24]; static unsigned nbn;
static struct ec_point_st ptp[4]; static unsigned npt;
void vp_bn_reset(void) { nbn = npt = 0; vp_bn_live = 0; vp_fault_n = 0; vp_faulted = 0; }
static BIGNUM *nw(void) { BIGNUM *b = &pool[nbn++]; int i; VP_ASSERT(nbn <= 24, "bytebn: pool exhausted"); for (i = 0; i < N; i++) b->b[i] = 0; b->neg = 0; b->dyn = 1; b->known = 1; b->nb = 0; vp_bn_live++; return b; }
BIGNUM *BN_new(void) { return vp_fault() ? 0 : nw(); }
BIGNUM *BN_secure_new(void) { return BN_new(); }
void BN_free(BIGNUM *a) { if (!a) return; VP_ASSERT(a->dyn == 1, "BN_free: not an allocated, live number"); a->dyn = 2; vp_bn_live--; }
void BN_clear_free(BIGNUM *a) { BN_free(a); }
static BIGNUM *from(const u8 *s, int n, BIGNUM *r, int le)
{
    int i;
    if (n < 0 || vp_fault()) return 0;
    if (!r) r = nw();
    for (i = 0; i < N; i++) r->b[i] = i < n ? s[le ? i : n - 1 - i] : 0;
    for (i = N; i < n; i++) VP_ASSERT(s[le ? i : n - 1 - i] == 0, "bytebn: number too long");
    r->neg = 0; r->known = 0;
    return r;
}
BIGNUM *BN_bin2bn(const unsigned char *s, int n, BIGNUM *r) { return from(s, n, r, 0); }
BIGNUM *BN_lebin2bn(const unsigned char *s, int n, BIGNUM *r) { return from(s, n, r, 1); }
static int bytes(const BIGNUM *a) { int i, n = 0; if (a->known) return a->nb; for (i = 0; i < N; i++) if (a->b[i]) n = i + 1; return n; }
/* right to the byte where the length is fixed */
int BN_num_bits(const BIGNUM *a) { int n = bytes(a), i, t = 0; if (n == 0) return 0; if (a->known) return 8 * n; for (i = 0; i < 8; i++) if (a->b[n - 1] >> i & 1) t = i + 1; return 8 * (n - 1) + t; }
int BN_is_zero(const BIGNUM *a) { return bytes(a) == 0; }
int BN_is_negative(const BIGNUM *a) { return a->neg; }
int BN_bn2bin(const BIGNUM *a, unsigned char *to) { int n = bytes(a), i; for (i = 0; i < n; i++) to[i] = a->b[n - 1 - i]; return n; }
static int pad(const BIGNUM *a, u8 *to, int n, int le) { int i, l = bytes(a); if (l > n || vp_fault()) return -1; for (i = 0; i < n; i++) to[le ? i : n - 1 - i] = i < N ? a->b[i] : 0; return n; }
int BN_bn2binpad(const BIGNUM *a, unsigned char *to, int n) { return pad(a, to, n, 0); }
int BN_bn2lebinpad(const BIGNUM *a, unsigned char *to, int n) { return pad(a, to, n, 1); }
BIGNUM *BN_copy(BIGNUM *a, const BIGNUM *b) { int i; if (vp_fault()) return 0; for (i = 0; i < N; i++) a->b[i] = b->b[i]; a->neg = b->neg; a->known = b->known; a->nb = b->nb; return a; }
BIGNUM *BN_dup(const BIGNUM *a) { BIGNUM *r; if (!a || vp_fault()) return 0; r = nw(); return BN_copy(r, a); }
/* groups, points, keys */
int EC_GROUP_get_curve_name(const EC_GROUP *g) { return g->nid; }
int EC_GROUP_get_order(const EC_GROUP *g, BIGNUM *o, BN_CTX *c) { int i; VP_ASSERT(g != 0, "no group"); if (vp_fault()) return 0; for (i = 0; i < N; i++) o->b[i] = g->order.b[i]; o->neg = 0; o->known = g->order.known; o->nb = g->order.nb; return 1; }
const BIGNUM *EC_GROUP_get0_order(const EC_GROUP *g) { return &g->order; }
EC_POINT *EC_POINT_new(const EC_GROUP *g) { EC_POINT *p; VP_ASSERT(g != 0, "EC_POINT_new without a group"); if (vp_fault()) return 0; p = &ptp[npt++]; VP_ASSERT(npt <= 4, "bytebn: pool exhausted"); p->live = 1; p->g = g; vp_bn_live++; return p; }
void EC_POINT_free(EC_POINT *p) { if (p) { VP_ASSERT(p->live == 1, "EC_POINT_free: not live"); p->live = 0; vp_bn_live--; } }
int EC_POINT_set_affine_coordinates(const EC_GROUP *g, EC_POINT *P, const BIGNUM *x, const BIGNUM *y, BN_CTX *c)
{
    VP_ASSERT(g && P && x && y, "EC_POINT_set_affine_coordinates: missing operand");
    if (vp_fault() || !vp_oncurve) return 0;
    P->x = *x; P->y = *y; P->log = 1;
    return 1;
}
int EC_POINT_get_affine_coordinates(const EC_GROUP *g, const EC_POINT *P, BIGNUM *x, BIGNUM *y, BN_CTX *c)
{
    int i;
    if (vp_fault() || P->log == 0) return 0;
    for (i = 0; i < N; i++) { x->b[i] = P->x.b[i]; y->b[i] = P->y.b[i]; }
    x->neg = y->neg = 0; x->known = P->x.known; x->nb = P->x.nb; y->known = P->y.known; y->nb = P->y.nb;
    return 1;
}
int EC_POINT_cmp(const EC_GROUP *g, const EC_POINT *a, const EC_POINT *b, BN_CTX *c) { if (a->g && b->g && a->g->nid != b->g->nid) return -1; return !(vp_eq(a->x.b, b->x.b, N) && vp_eq(a->y.b, b->y.b, N)); }
int EC_KEY_check_key(const EC_KEY *k) { return k && k->group && k->has_pub && k->pub.log != 0; }
EC_KEY *EC_KEY_new(void) { EC_KEY *k; if (vp_fault()) return 0; k = calloc(1, sizeof(*k)); VP_ASSUME(k != 0); k->live = 1; vp_bn_live++; return k; }
void EC_KEY_free(EC_KEY *k) { if (k) { VP_ASSERT(k->live == 1, "EC_KEY_free: not live"); k->live = 0; vp_bn_live--; } }
const EC_GROUP *EC_KEY_get0_group(const EC_KEY *k) { VP_ASSERT(k != 0, "EC_KEY accessor on NULL"); return k->group; }
int EC_KEY_set_group(EC_KEY *k, const EC_GROUP *g) { if (vp_fault()) return 0; k->group = g; return 1; }
const BIGNUM *EC_KEY_get0_private_key(const EC_KEY *k) { VP_ASSERT(k != 0, "EC_KEY accessor on NULL"); return k->has_priv ? &k->priv : 0; }
const EC_POINT *EC_KEY_get0_public_key(const EC_KEY *k) { VP_ASSERT(k != 0, "EC_KEY accessor on NULL"); return k->has_pub ? &k->pub : 0; }
int EC_KEY_set_public_key(EC_KEY *k, const EC_POINT *p) { if (!k->group || vp_fault()) return 0; k->pub = *p; k->has_pub = 1; return 1; }
ECDSA_SIG *ECDSA_SIG_new(void) { ECDSA_SIG *s; if (vp_fault()) return 0; s = calloc(1, sizeof(*s)); VP_ASSUME(s != 0); vp_bn_live++; return s; }
void ECDSA_SIG_free(ECDSA_SIG *s) { if (s) { BN_free(s->r); BN_free(s->s); vp_bn_live--; free(s); } }
void ECDSA_SIG_get0(const ECDSA_SIG *s, const BIGNUM **r, const BIGNUM **t) { if (r) *r = s->r; if (t) *t = s->s; }
const BIGNUM *ECDSA_SIG_get0_r(const ECDSA_SIG *s) { return s->r; }
const BIGNUM *ECDSA_SIG_get0_s(const ECDSA_SIG *s) { return s->s; }
int ECDSA_SIG_set0(ECDSA_SIG *s, BIGNUM *r, BIGNUM *t) { if (!r || !t) return 0; BN_free(s->r); BN_free(s->s); s->r = r; s->s = t; return 1; }
/* memset byte by byte (CBMC's own is opaque to constant propagation) */
#undef memset
void *vp_memset(void *d, int c, size_t n) { size_t i; for (i = 0; i < n; i++) ((u8 *)d)[i] = c; return d; }
