/* Executable model of the part of libcrypto's legacy (engine) EVP layer that
 * the code under test talks to.  OpenSSL 3.0 semantics of evp_enc.c /
 * digest.c for EVP_CIPHER_meth / EVP_MD_meth objects.  The types are opaque in
 * the public headers; the layout here is ours. */
#ifndef EVP_MODEL_H
#define EVP_MODEL_H
#include <openssl/evp.h>
#include "vp.h"

struct evp_cipher_st {
    int nid, block_size, key_len, iv_len;
    unsigned long flags;
    int (*init)(EVP_CIPHER_CTX *, const unsigned char *, const unsigned char *, int);
    int (*do_cipher)(EVP_CIPHER_CTX *, unsigned char *, const unsigned char *, size_t);
    int (*cleanup)(EVP_CIPHER_CTX *);
    int ctx_size;
    int (*set_asn1)(EVP_CIPHER_CTX *, ASN1_TYPE *);
    int (*get_asn1)(EVP_CIPHER_CTX *, ASN1_TYPE *);
    int (*ctrl)(EVP_CIPHER_CTX *, int, int, void *);
};
struct evp_cipher_ctx_st {
    const EVP_CIPHER *cipher;
    int encrypt;
    int num;
    unsigned char oiv[EVP_MAX_IV_LENGTH];
    unsigned char iv[EVP_MAX_IV_LENGTH];
    unsigned char buf[EVP_MAX_BLOCK_LENGTH];
    int key_len;
    unsigned long flags;
    void *app_data;
    void *cipher_data;
    u64 s, mesh;               /* abstract ciphers (omodel.c) */
    size_t pos;
};
struct evp_md_st {
    int type, md_size, block_size, ctx_size;
    unsigned long flags;
    int (*init)(EVP_MD_CTX *);
    int (*update)(EVP_MD_CTX *, const void *, size_t);
    int (*final)(EVP_MD_CTX *, unsigned char *);
    int (*copy)(EVP_MD_CTX *, const EVP_MD_CTX *);
    int (*cleanup)(EVP_MD_CTX *);
    int (*ctrl)(EVP_MD_CTX *, int, int, void *);
};
struct evp_md_ctx_st {
    const EVP_MD *digest;
    unsigned long flags;
    void *md_data;
    u64 s;                     /* abstract digests and MACs (omodel.c) */
    int st;
};
struct evp_pkey_st { int type, mac_nid, refs; u8 key[64]; size_t len; void *obj; };
/* EVP_CipherInit_ex() on an engine cipher: first call allocates, later calls
 * with the same cipher keep the context (engine "skip_to_init" path). */
int vp_cipher_init(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *c, void *mem,
                   const unsigned char *key, const unsigned char *iv, int enc);
int vp_cipher_copy(EVP_CIPHER_CTX *out, const EVP_CIPHER_CTX *in, void *mem);
#endif
