/* Small model of libcrypto's BN/EC layer (see bnmodel.c). */
#ifndef VP_BNMODEL_H
#define VP_BNMODEL_H
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#define VP_QMAX 64
#ifdef VP_BYTEBN    /* numbers as their VP_BYTEBN little-endian bytes (bytebn.c) */
struct bignum_st { u8 b[VP_BYTEBN]; int neg; u8 dyn; short known, nb; };   /* known: nb significant bytes */
struct ec_point_st { struct bignum_st x, y; unsigned log; u8 live; const EC_GROUP *g; };
#else
struct bignum_st { unsigned v; int neg; u8 rep, dyn; u8 nb; const char *hex; };
struct ec_point_st { unsigned log; u8 live; const BIGNUM *sx, *sy; const EC_GROUP *g; };
#endif
struct ec_group_st { int nid; u8 live; struct bignum_st order, field; const char *hp, *ha, *hb, *hq, *hx, *hy, *hc; };
struct ec_key_st { const EC_GROUP *group; struct bignum_st priv; struct ec_point_st pub; u8 has_priv, has_pub, live; };
struct ECDSA_SIG_st { BIGNUM *r, *s; };
extern unsigned vp_q;                 /* order of the model group (a prime) */
extern unsigned vp_p;                 /* field characteristic: fixes byte lengths only */
extern unsigned vp_xs[VP_QMAX], vp_ys[VP_QMAX];   /* affine coordinates by discrete logarithm */
extern int vp_draws, vp_max_draws;
extern unsigned vp_draw[8], vp_inv[VP_QMAX];           /* results of BN_rand_range, in order */
extern int vp_bn_live;                /* objects alive in this layer */
unsigned vp_fold(const u8 *b, size_t n, int le);  /* representative mod vp_q */
void vp_bn_reset(void);
void vp_bn_init(unsigned q, unsigned p, int coords);
void vp_ec_set(EC_KEY *k, EC_GROUP *g, int nid);
#endif
