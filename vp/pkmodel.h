/* EVP_PKEY / X509 / PKCS8 objects for the public-key methods (pkmodel.c) */
#ifndef VP_PKMODEL_H
#define VP_PKMODEL_H
#include "evp_model.h"
#include "misc.h"
#include "bnmodel.h"
#include <openssl/x509.h>
struct evp_pkey_method_st {
    int id, flags;
    int (*init)(EVP_PKEY_CTX *); int (*copy)(EVP_PKEY_CTX *, const EVP_PKEY_CTX *); void (*cleanup)(EVP_PKEY_CTX *);
    int (*paramgen_init)(EVP_PKEY_CTX *); int (*paramgen)(EVP_PKEY_CTX *, EVP_PKEY *);
    int (*keygen_init)(EVP_PKEY_CTX *); int (*keygen)(EVP_PKEY_CTX *, EVP_PKEY *);
    int (*sign)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
    int (*verify)(EVP_PKEY_CTX *, const unsigned char *, size_t, const unsigned char *, size_t);
    int (*signctx_init)(EVP_PKEY_CTX *, EVP_MD_CTX *); int (*signctx)(EVP_PKEY_CTX *, unsigned char *, size_t *, EVP_MD_CTX *);
    int (*encrypt_init)(EVP_PKEY_CTX *); int (*encrypt)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
    int (*decrypt_init)(EVP_PKEY_CTX *); int (*decrypt)(EVP_PKEY_CTX *, unsigned char *, size_t *, const unsigned char *, size_t);
    int (*derive_init)(EVP_PKEY_CTX *); int (*derive)(EVP_PKEY_CTX *, unsigned char *, size_t *);
    int (*ctrl)(EVP_PKEY_CTX *, int, int, void *); int (*ctrl_str)(EVP_PKEY_CTX *, const char *, const char *);
    int (*check)(EVP_PKEY *); int (*public_check)(EVP_PKEY *);
};
struct evp_pkey_ctx_st { EVP_PKEY *pkey, *peer; void *data; const EVP_PKEY_METHOD *meth; };
struct X509_pubkey_st { EVP_PKEY *pk; const ASN1_OBJECT *obj; int ptype; void *pval; const unsigned char *bits; int nbits; X509_ALGOR *alg; int sets; };
struct pkcs8_priv_key_info_st { X509_ALGOR *alg; const ASN1_OBJECT *obj; int ptype; void *pval; const unsigned char *p; int n, sets; };
struct evp_pkey_asn1_method_st {
    int id, flags; void (*free_)(EVP_PKEY *);
    int (*priv_decode)(EVP_PKEY *, const PKCS8_PRIV_KEY_INFO *); int (*priv_encode)(PKCS8_PRIV_KEY_INFO *, const EVP_PKEY *);
    int (*pub_decode)(EVP_PKEY *, const X509_PUBKEY *); int (*pub_encode)(X509_PUBKEY *, const EVP_PKEY *); int (*pub_cmp)(const EVP_PKEY *, const EVP_PKEY *);
    int (*size)(const EVP_PKEY *); int (*bits)(const EVP_PKEY *);
    int (*param_decode)(EVP_PKEY *, const unsigned char **, int); int (*param_encode)(const EVP_PKEY *, unsigned char **);
    int (*param_missing)(const EVP_PKEY *); int (*param_copy)(EVP_PKEY *, const EVP_PKEY *); int (*param_cmp)(const EVP_PKEY *, const EVP_PKEY *);
    int (*ctrl)(EVP_PKEY *, int, long, void *); int (*sbits)(const EVP_PKEY *);
};
extern EVP_PKEY_METHOD *vp_meth;     /* method behind EVP_PKEY_CTX_ctrl() */
EVP_PKEY *vp_pkey(int id, EC_KEY *ec);
#endif
