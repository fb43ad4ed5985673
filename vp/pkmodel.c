/* EVP_PKEY layer, ASN.1 strings and X509_PUBKEY by their documented contract.
 * Objects are counted in vp_live; every fallible call can be the injected
 * failure. */
#include "vp.h"
#include <openssl/asn1t.h>
#include <openssl/obj_mac.h>
#include "gost_lcl.h"
#include "pkmodel.h"
EVP_PKEY_METHOD *vp_meth;
EVP_PKEY *EVP_PKEY_new(void)
{
    EVP_PKEY *p;
    if (vp_fault()) return NULL;
    p = calloc(1, sizeof(*p)); VP_ASSUME(p != NULL);
    p->refs = 1; vp_live++;
    return p;
}
EVP_PKEY *vp_pkey(int id, EC_KEY *ec) { EVP_PKEY *p = calloc(1, sizeof(*p)); VP_ASSUME(p != NULL); p->refs = 1000; p->type = id; p->obj = ec; return p; }
int EVP_PKEY_up_ref(EVP_PKEY *p) { p->refs++; return 1; }
void EVP_PKEY_free(EVP_PKEY *p)
{
    if (!p) return;
    VP_ASSERT(p->refs > 0, "EVP_PKEY_free: freed twice");
    if (--p->refs) return;
    if (p->obj) EC_KEY_free(p->obj);
    vp_live--;
}
int EVP_PKEY_assign(EVP_PKEY *p, int type, void *key)
{
    VP_ASSERT(p != NULL, "EVP_PKEY_assign without a key object");
    if (key == NULL || vp_fault()) return 0;
    p->type = type; p->obj = key;
    return 1;
}
int EVP_PKEY_set_type(EVP_PKEY *p, int type)
{
    if (vp_fault()) return 0;
    switch (type) {
    case NID_id_GostR3410_2001: case NID_id_GostR3410_2001DH: case NID_id_GostR3410_2012_256: case NID_id_GostR3410_2012_512: break;
    default: return 0;
    }
    if (p->obj && p->type != type) { EC_KEY_free(p->obj); p->obj = NULL; }
    p->type = type;
    return 1;
}
void *EVP_PKEY_get0(const EVP_PKEY *p) { return p ? p->obj : NULL; }
int EVP_PKEY_get_id(const EVP_PKEY *p) { return p->type; }
int EVP_PKEY_get_base_id(const EVP_PKEY *p) { return p->type; }
int EVP_PKEY_get_default_digest_nid(EVP_PKEY *p, int *nid)
{
    switch (p->type) {
    case NID_id_GostR3410_2012_512: *nid = NID_id_GostR3411_2012_512; return 2;
    case NID_id_GostR3410_2012_256: *nid = NID_id_GostR3411_2012_256; return 2;
    case NID_id_GostR3410_2001: case NID_id_GostR3410_2001DH: *nid = NID_id_GostR3411_94; return 2;
    }
    return -2;
}
int EVP_PKEY_missing_parameters(const EVP_PKEY *p) { const EC_KEY *k = p->obj; return k == NULL || k->group == NULL; }
int EVP_PKEY_copy_parameters(EVP_PKEY *to, const EVP_PKEY *from)
{
    EC_KEY *k = to->obj; const EC_KEY *f = from->obj;
    if (k == NULL || f == NULL || f->group == NULL || to->type != from->type || vp_fault()) return 0;
    k->group = f->group;
    return 1;
}
int EVP_PKEY_parameters_eq(const EVP_PKEY *a, const EVP_PKEY *b)
{
    const EC_KEY *x = a->obj, *y = b->obj;
    if (a->type != b->type) return -1;
    if (!x || !y || !x->group || !y->group) return -2;
    return x->group->nid == y->group->nid;
}
EVP_PKEY *EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c) { return c->pkey; }
EVP_PKEY *EVP_PKEY_CTX_get0_peerkey(EVP_PKEY_CTX *c) { return c->peer; }
void *EVP_PKEY_CTX_get_data(const EVP_PKEY_CTX *c) { return c->data; }
void EVP_PKEY_CTX_set_data(EVP_PKEY_CTX *c, void *d) { c->data = d; }
int EVP_PKEY_CTX_ctrl(EVP_PKEY_CTX *c, int kt, int op, int cmd, int p1, void *p2)
{
    if (vp_fault()) return 0;
    VP_ASSERT(vp_meth && vp_meth->ctrl, "pkmodel: no method registered");
    return vp_meth->ctrl(c, cmd, p1, p2);
}
int EVP_PKEY_derive_set_peer(EVP_PKEY_CTX *c, EVP_PKEY *peer)
{
    int r = 0;
    if (vp_fault()) return 0;
    if (c->pkey == NULL || c->pkey->type != peer->type) return -1;
    if (!EVP_PKEY_missing_parameters(peer) && EVP_PKEY_parameters_eq(c->pkey, peer) != 1) return -1;
    if (vp_meth && (r = vp_meth->ctrl(c, EVP_PKEY_CTRL_PEER_KEY, 0, peer)) <= 0) return r;
    EVP_PKEY_free(c->peer);
    c->peer = peer; peer->refs++;
    return 1;
}
/* method construction */
EVP_PKEY_METHOD *EVP_PKEY_meth_new(int id, int flags)
{
    EVP_PKEY_METHOD *m;
    if (vp_fault()) return NULL;
    m = calloc(1, sizeof(*m)); VP_ASSUME(m != NULL);
    m->id = id; m->flags = flags;
    return m;
}
void EVP_PKEY_meth_set_init(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *)) { m->init = f; }
void EVP_PKEY_meth_set_copy(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, const EVP_PKEY_CTX *)) { m->copy = f; }
void EVP_PKEY_meth_set_cleanup(EVP_PKEY_METHOD *m, void (*f)(EVP_PKEY_CTX *)) { m->cleanup = f; }
void EVP_PKEY_meth_set_paramgen(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, EVP_PKEY *)) { m->paramgen_init = i; m->paramgen = f; }
void EVP_PKEY_meth_set_keygen(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, EVP_PKEY *)) { m->keygen_init = i; m->keygen = f; }
void EVP_PKEY_meth_set_sign(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t)) { m->sign = f; }
void EVP_PKEY_meth_set_verify(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, const unsigned char *, size_t, const unsigned char *, size_t)) { m->verify = f; }
void EVP_PKEY_meth_set_signctx(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *, EVP_MD_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, EVP_MD_CTX *)) { m->signctx_init = i; m->signctx = f; }
void EVP_PKEY_meth_set_encrypt(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t)) { m->encrypt_init = i; m->encrypt = f; }
void EVP_PKEY_meth_set_decrypt(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t)) { m->decrypt_init = i; m->decrypt = f; }
void EVP_PKEY_meth_set_derive(EVP_PKEY_METHOD *m, int (*i)(EVP_PKEY_CTX *), int (*f)(EVP_PKEY_CTX *, unsigned char *, size_t *)) { m->derive_init = i; m->derive = f; }
void EVP_PKEY_meth_set_ctrl(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY_CTX *, int, int, void *), int (*g)(EVP_PKEY_CTX *, const char *, const char *)) { m->ctrl = f; m->ctrl_str = g; }
void EVP_PKEY_meth_set_check(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY *)) { m->check = f; }
void EVP_PKEY_meth_set_public_check(EVP_PKEY_METHOD *m, int (*f)(EVP_PKEY *)) { m->public_check = f; }
/* ASN.1 strings */
ASN1_STRING *ASN1_STRING_new(void)
{
    ASN1_STRING *s;
    if (vp_fault()) return NULL;
    s = calloc(1, sizeof(*s)); VP_ASSUME(s != NULL);
    s->type = V_ASN1_OCTET_STRING; vp_live++;
    return s;
}
ASN1_OCTET_STRING *ASN1_OCTET_STRING_new(void) { return ASN1_STRING_new(); }
void ASN1_STRING_free(ASN1_STRING *s)
{
    if (!s) return;
    VP_ASSERT(s->flags != 0x666, "ASN1_STRING freed twice");
    s->flags = 0x666; vp_live--;
#ifdef VP_DER
    if (s->data) vp_live--;
#endif
}
void ASN1_OCTET_STRING_free(ASN1_OCTET_STRING *s) { ASN1_STRING_free(s); }
#ifndef VP_STRMAX
# define VP_STRMAX 64
#endif
int ASN1_STRING_set(ASN1_STRING *s, const void *d, int n)
{
    int i;
    VP_ASSERT(n >= 0 && n <= VP_STRMAX, "pkmodel: string too long");
    if (vp_fault()) return 0;
#ifdef VP_DER
    if (s->data == NULL) vp_live++;
#endif
    s->data = malloc(VP_STRMAX); VP_ASSUME(s->data != NULL);
    for (i = 0; i < n; i++) s->data[i] = ((const u8 *)d)[i];
    s->length = n;
    return 1;
}
int ASN1_OCTET_STRING_set(ASN1_OCTET_STRING *s, const unsigned char *d, int n) { return ASN1_STRING_set(s, d, n); }
int ASN1_STRING_length(const ASN1_STRING *s) { return s->length; }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { return s->data; }
void ASN1_OBJECT_free(ASN1_OBJECT *o) { }
/* X509_PUBKEY: X509_PUBKEY_get() returns a new reference, or NULL when the
 * encoding cannot be decoded */
EVP_PKEY *X509_PUBKEY_get(const X509_PUBKEY *k) { if (!k || !k->pk || vp_fault()) return NULL; k->pk->refs++; return k->pk; }
int X509_PUBKEY_set(X509_PUBKEY **x, EVP_PKEY *p)
{
    static struct X509_pubkey_st pool[4]; static unsigned n;
    VP_ASSERT(p != NULL && p->refs > 0, "X509_PUBKEY_set: no or freed key");
    if (vp_fault()) return 0;
    *x = &pool[n++ & 3]; (*x)->pk = p;
    return 1;
}
#ifdef VP_DER
/* --- DER and key containers, for the key codecs --- */
ASN1_INTEGER *ASN1_INTEGER_new(void) { return ASN1_STRING_new(); }
void ASN1_INTEGER_free(ASN1_INTEGER *s) { ASN1_STRING_free(s); }
void ASN1_BIT_STRING_free(ASN1_BIT_STRING *s) { ASN1_STRING_free(s); }
/* a tag, a definite length below 256 in its minimal form, the contents */
static ASN1_STRING *der(int tag, const unsigned char **in, long n)
{
    const u8 *p = *in; ASN1_STRING *s; int h = 2, l, i;
    if (n < 2 || p[0] != tag || vp_fault()) return NULL;
    l = p[1];
    if (l == 0x81) { if (n < 3 || p[2] < 0x80) return NULL; l = p[2]; h = 3; }
    else if (l >= 0x80) return NULL;
    if (l > n - h) return NULL;
    VP_ASSERT(l <= VP_STRMAX, "pkmodel: string too long");
    s = calloc(1, sizeof(*s)); VP_ASSUME(s != NULL);
    s->type = tag; vp_live++;
    s->data = malloc(VP_STRMAX); VP_ASSUME(s->data != NULL); vp_live++;
    for (i = 0; i < l; i++) s->data[i] = p[h + i];
    s->length = l;
    *in += h + l;
    return s;
}
ASN1_OCTET_STRING *d2i_ASN1_OCTET_STRING(ASN1_OCTET_STRING **a, const unsigned char **in, long n) { return der(V_ASN1_OCTET_STRING, in, n); }
ASN1_INTEGER *d2i_ASN1_INTEGER(ASN1_INTEGER **a, const unsigned char **in, long n)
{
    ASN1_STRING *s;
    s = der(V_ASN1_INTEGER, in, n);
    if (s && (s->length == 0 || (s->length > 1 && ((s->data[0] == 0 && !(s->data[1] & 0x80)) || (s->data[0] == 0xff && s->data[1] & 0x80))))) { ASN1_STRING_free(s); return NULL; }    /* not minimal */
    if (s && s->data[0] & 0x80) {       /* magnitude of a negative number */
        int i, c = 1;
        s->type = V_ASN1_NEG_INTEGER;
        for (i = s->length - 1; i >= 0; i--) { c += (u8)~s->data[i]; s->data[i] = (u8)c; c >>= 8; }
    }
    return s;
}
BIGNUM *ASN1_INTEGER_to_BN(const ASN1_INTEGER *a, BIGNUM *b)
{
    b = BN_bin2bn(a->data, a->length, b);
    if (b) b->neg = a->type == V_ASN1_NEG_INTEGER;
    return b;
}
int vp_i2d_len(int n) { return n < 128 ? n + 2 : n + 3; }
int i2d_ASN1_OCTET_STRING(const ASN1_OCTET_STRING *s, unsigned char **o)
{
    u8 *b; int i, h = 0;
    VP_ASSERT(s->length >= 0 && s->length < 256 && *o == NULL, "pkmodel: i2d into an allocated buffer only");
    if (vp_fault()) return -1;
    b = malloc(s->length + 3); VP_ASSUME(b != NULL); vp_live++;
    b[h++] = V_ASN1_OCTET_STRING;
    if (s->length >= 128) b[h++] = 0x81;
    b[h++] = s->length;
    for (i = 0; i < s->length; i++) b[h + i] = s->data[i];
    *o = b;
    return h + s->length;
}
/* parameters: three object identifiers, 2 bytes each in the model's encoding */
GOST_KEY_PARAMS *GOST_KEY_PARAMS_new(void) { GOST_KEY_PARAMS *g; if (vp_fault()) return NULL; g = calloc(1, sizeof(*g)); VP_ASSUME(g != NULL); vp_live++; return g; }
void GOST_KEY_PARAMS_free(GOST_KEY_PARAMS *g) { if (g) { vp_live--; free(g); } }
static void put(u8 *d, const ASN1_OBJECT *o) { int n = OBJ_obj2nid(o); d[0] = n; d[1] = n >> 8; }
int i2d_GOST_KEY_PARAMS(const GOST_KEY_PARAMS *g, unsigned char **o)
{
    if (vp_fault()) return -1;
    VP_ASSERT(*o == NULL, "pkmodel: i2d into an allocated buffer only");
    *o = malloc(6); VP_ASSUME(*o != NULL); vp_live++;
    put(*o, g->key_params); put(*o + 2, g->hash_params); put(*o + 4, g->cipher_params);
    return 6;
}
GOST_KEY_PARAMS *d2i_GOST_KEY_PARAMS(GOST_KEY_PARAMS **a, const unsigned char **in, long n)
{
    GOST_KEY_PARAMS *g; const u8 *p = *in;
    if (n != 6 || vp_fault()) return NULL;
    g = calloc(1, sizeof(*g)); VP_ASSUME(g != NULL); vp_live++;
    g->key_params = OBJ_nid2obj(p[0] | p[1] << 8);
    *in += 6;
    return g;
}
void X509_ALGOR_get0(const ASN1_OBJECT **o, int *t, const void **v, const X509_ALGOR *a)
{
    if (o) *o = a->algorithm;
    if (t) {
        *t = a->parameter ? a->parameter->type : V_ASN1_UNDEF;
        if (v && a->parameter) *v = a->parameter->value.ptr;
    }
}
int X509_ALGOR_set0(X509_ALGOR *a, ASN1_OBJECT *o, int t, void *v)
{
    if (a == NULL || vp_fault()) return 0;
    a->algorithm = o;
    if (a->parameter) { a->parameter->type = t; a->parameter->value.ptr = v; }
    return 1;
}
int PKCS8_pkey_get0(const ASN1_OBJECT **o, const unsigned char **p, int *n, const X509_ALGOR **a, const PKCS8_PRIV_KEY_INFO *k)
{
    if (vp_fault()) return 0;
    if (o) *o = k->alg->algorithm;
    if (p) { *p = k->p; *n = k->n; }
    if (a) *a = k->alg;
    return 1;
}
int PKCS8_pkey_set0(PKCS8_PRIV_KEY_INFO *k, ASN1_OBJECT *o, int ver, int t, void *v, unsigned char *p, int n)
{
    if (vp_fault()) return 0;
    k->obj = o; k->ptype = t; k->pval = v; k->p = p; k->n = n; k->sets++;
    return 1;
}
int X509_PUBKEY_set0_param(X509_PUBKEY *k, ASN1_OBJECT *o, int t, void *v, unsigned char *p, int n)
{
    if (vp_fault()) return 0;
    k->obj = o; k->ptype = t; k->pval = v; k->bits = p; k->nbits = n; k->sets++;
    return 1;
}
int X509_PUBKEY_get0_param(ASN1_OBJECT **o, const unsigned char **p, int *n, X509_ALGOR **a, const X509_PUBKEY *k)
{
    if (o) *o = (ASN1_OBJECT *)k->alg->algorithm;
    if (p) { *p = k->bits; *n = k->nbits; }
    if (a) *a = k->alg;
    return 1;
}
/* --- construction of the key method --- */
EVP_PKEY_ASN1_METHOD *EVP_PKEY_asn1_new(int id, int flags, const char *pem, const char *info)
{
    EVP_PKEY_ASN1_METHOD *m;
    if (vp_fault()) return NULL;
    m = calloc(1, sizeof(*m)); VP_ASSUME(m != NULL);
    m->id = id; m->flags = flags;
    return m;
}
void EVP_PKEY_asn1_set_free(EVP_PKEY_ASN1_METHOD *m, void (*f)(EVP_PKEY *)) { m->free_ = f; }
void EVP_PKEY_asn1_set_private(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const PKCS8_PRIV_KEY_INFO *), int (*e)(PKCS8_PRIV_KEY_INFO *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *)) { m->priv_decode = d; m->priv_encode = e; }
void EVP_PKEY_asn1_set_public(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const X509_PUBKEY *), int (*e)(X509_PUBKEY *, const EVP_PKEY *), int (*c)(const EVP_PKEY *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *), int (*sz)(const EVP_PKEY *), int (*b)(const EVP_PKEY *)) { m->pub_decode = d; m->pub_encode = e; m->pub_cmp = c; m->size = sz; m->bits = b; }
void EVP_PKEY_asn1_set_param(EVP_PKEY_ASN1_METHOD *m, int (*d)(EVP_PKEY *, const unsigned char **, int), int (*e)(const EVP_PKEY *, unsigned char **), int (*mi)(const EVP_PKEY *), int (*c)(EVP_PKEY *, const EVP_PKEY *), int (*cm)(const EVP_PKEY *, const EVP_PKEY *), int (*p)(BIO *, const EVP_PKEY *, int, ASN1_PCTX *)) { m->param_decode = d; m->param_encode = e; m->param_missing = mi; m->param_copy = c; m->param_cmp = cm; }
void EVP_PKEY_asn1_set_ctrl(EVP_PKEY_ASN1_METHOD *m, int (*c)(EVP_PKEY *, int, long, void *)) { m->ctrl = c; }
void EVP_PKEY_asn1_set_security_bits(EVP_PKEY_ASN1_METHOD *m, int (*c)(const EVP_PKEY *)) { m->sbits = c; }
#endif
