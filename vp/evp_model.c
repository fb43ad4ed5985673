#include "evp_model.h"
#ifdef VP_CPYT
void *vp_memcpy(void *d, const void *s, size_t n);
# define VP_MEMCPY vp_memcpy
#else
# define VP_MEMCPY memcpy
#endif

EVP_CIPHER *EVP_CIPHER_meth_new(int nid, int bs, int kl)
{
    EVP_CIPHER *c = calloc(1, sizeof(*c));
    if (c != NULL) { c->nid = nid; c->block_size = bs; c->key_len = kl; }
    return c;
}
void EVP_CIPHER_meth_free(EVP_CIPHER *c) { free(c); }
int EVP_CIPHER_meth_set_iv_length(EVP_CIPHER *c, int v) { c->iv_len = v; return 1; }
int EVP_CIPHER_meth_set_flags(EVP_CIPHER *c, unsigned long v) { c->flags = v; return 1; }
int EVP_CIPHER_meth_set_impl_ctx_size(EVP_CIPHER *c, int v) { c->ctx_size = v; return 1; }
int EVP_CIPHER_meth_set_init(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, const unsigned char *, const unsigned char *, int)) { c->init = f; return 1; }
int EVP_CIPHER_meth_set_do_cipher(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, unsigned char *, const unsigned char *, size_t)) { c->do_cipher = f; return 1; }
int EVP_CIPHER_meth_set_cleanup(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *)) { c->cleanup = f; return 1; }
int EVP_CIPHER_meth_set_set_asn1_params(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, ASN1_TYPE *)) { c->set_asn1 = f; return 1; }
int EVP_CIPHER_meth_set_get_asn1_params(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, ASN1_TYPE *)) { c->get_asn1 = f; return 1; }
int EVP_CIPHER_meth_set_ctrl(EVP_CIPHER *c, int (*f)(EVP_CIPHER_CTX *, int, int, void *)) { c->ctrl = f; return 1; }

int EVP_CIPHER_get_nid(const EVP_CIPHER *c) { return c->nid; }
int EVP_CIPHER_get_block_size(const EVP_CIPHER *c) { return c->block_size; }
int EVP_CIPHER_get_key_length(const EVP_CIPHER *c) { return c->key_len; }
int EVP_CIPHER_get_iv_length(const EVP_CIPHER *c) { return c->iv_len; }
unsigned long EVP_CIPHER_get_flags(const EVP_CIPHER *c) { return c->flags; }
int EVP_CIPHER_get_mode(const EVP_CIPHER *c) { return c->flags & EVP_CIPH_MODE; }

const EVP_CIPHER *EVP_CIPHER_CTX_cipher(const EVP_CIPHER_CTX *x) { return x->cipher; }
const EVP_CIPHER *EVP_CIPHER_CTX_get0_cipher(const EVP_CIPHER_CTX *x) { return x->cipher; }
int EVP_CIPHER_CTX_get_nid(const EVP_CIPHER_CTX *x) { return x->cipher->nid; }
int EVP_CIPHER_CTX_get_block_size(const EVP_CIPHER_CTX *x) { return x->cipher->block_size; }
int EVP_CIPHER_CTX_get_key_length(const EVP_CIPHER_CTX *x) { return x->key_len; }
int EVP_CIPHER_CTX_get_iv_length(const EVP_CIPHER_CTX *x) { return x->cipher->iv_len; }
int EVP_CIPHER_CTX_is_encrypting(const EVP_CIPHER_CTX *x) { return x->encrypt; }
int EVP_CIPHER_CTX_get_num(const EVP_CIPHER_CTX *x) { return x->num; }
int EVP_CIPHER_CTX_set_num(EVP_CIPHER_CTX *x, int n) { x->num = n; return 1; }
unsigned char *EVP_CIPHER_CTX_buf_noconst(EVP_CIPHER_CTX *x) { return x->buf; }
unsigned char *EVP_CIPHER_CTX_iv_noconst(EVP_CIPHER_CTX *x) { return x->iv; }
const unsigned char *EVP_CIPHER_CTX_iv(const EVP_CIPHER_CTX *x) { return x->iv; }
const unsigned char *EVP_CIPHER_CTX_original_iv(const EVP_CIPHER_CTX *x) { return x->oiv; }
void *EVP_CIPHER_CTX_get_cipher_data(const EVP_CIPHER_CTX *x) { return x->cipher_data; }
void *EVP_CIPHER_CTX_get_app_data(const EVP_CIPHER_CTX *x) { return x->app_data; }
void EVP_CIPHER_CTX_set_app_data(EVP_CIPHER_CTX *x, void *d) { x->app_data = d; }
void EVP_CIPHER_CTX_set_flags(EVP_CIPHER_CTX *x, int f) { x->flags |= f; }

int vp_cipher_init(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *c, void *mem,
                   const unsigned char *key, const unsigned char *iv, int enc)
{
    ctx->encrypt = enc;
    if (ctx->cipher == NULL) {
        ctx->cipher = c;
        /* mem: zeroed by the caller */
        ctx->cipher_data = mem;
        ctx->key_len = c->key_len;
        ctx->flags = 0;
        if (c->flags & EVP_CIPH_CTRL_INIT)
            if (c->ctrl(ctx, EVP_CTRL_INIT, 0, NULL) <= 0)
                return 0;
    }
    if ((c->flags & EVP_CIPH_CUSTOM_IV) == 0) {
        int n = c->iv_len;
        switch (c->flags & EVP_CIPH_MODE) {
        case EVP_CIPH_STREAM_CIPHER:
        case EVP_CIPH_ECB_MODE:
            break;
        case EVP_CIPH_CFB_MODE:
        case EVP_CIPH_OFB_MODE:
            ctx->num = 0;
            /* fall through */
        case EVP_CIPH_CBC_MODE:
            if (iv) memcpy(ctx->oiv, iv, n);
            memcpy(ctx->iv, ctx->oiv, n);
            break;
        case EVP_CIPH_CTR_MODE:
            ctx->num = 0;
            if (iv) memcpy(ctx->iv, iv, n);
            break;
        default:
            return 0;
        }
    }
    if (key != NULL || (c->flags & EVP_CIPH_ALWAYS_CALL_INIT))
        if (!c->init(ctx, key, iv, enc))
            return 0;
    return 1;
}

/* EVP_CIPHER_CTX_copy() for legacy ciphers: bitwise copy of the context and
 * of cipher_data, then EVP_CTRL_COPY when the cipher asks for it. */
int vp_cipher_copy(EVP_CIPHER_CTX *out, const EVP_CIPHER_CTX *in, void *mem)
{
    *out = *in;
    if (in->cipher_data != NULL && in->cipher->ctx_size) {
        out->cipher_data = mem;
        VP_MEMCPY(mem, in->cipher_data, in->cipher->ctx_size);
    }
    if (in->cipher->flags & EVP_CIPH_CUSTOM_COPY)
        if (!in->cipher->ctrl((EVP_CIPHER_CTX *)in, EVP_CTRL_COPY, 0, out))
            return 0;
    return 1;
}

EVP_MD *EVP_MD_meth_new(int type, int pk)
{
    EVP_MD *m = calloc(1, sizeof(*m));
    if (m != NULL) m->type = type;
    return m;
}
void EVP_MD_meth_free(EVP_MD *m) { free(m); }
int EVP_MD_meth_set_result_size(EVP_MD *m, int v) { m->md_size = v; return 1; }
int EVP_MD_meth_set_input_blocksize(EVP_MD *m, int v) { m->block_size = v; return 1; }
int EVP_MD_meth_set_app_datasize(EVP_MD *m, int v) { m->ctx_size = v; return 1; }
int EVP_MD_meth_set_flags(EVP_MD *m, unsigned long v) { m->flags = v; return 1; }
int EVP_MD_meth_set_init(EVP_MD *m, int (*f)(EVP_MD_CTX *)) { m->init = f; return 1; }
int EVP_MD_meth_set_update(EVP_MD *m, int (*f)(EVP_MD_CTX *, const void *, size_t)) { m->update = f; return 1; }
int EVP_MD_meth_set_final(EVP_MD *m, int (*f)(EVP_MD_CTX *, unsigned char *)) { m->final = f; return 1; }
int EVP_MD_meth_set_copy(EVP_MD *m, int (*f)(EVP_MD_CTX *, const EVP_MD_CTX *)) { m->copy = f; return 1; }
int EVP_MD_meth_set_cleanup(EVP_MD *m, int (*f)(EVP_MD_CTX *)) { m->cleanup = f; return 1; }
int EVP_MD_meth_set_ctrl(EVP_MD *m, int (*f)(EVP_MD_CTX *, int, int, void *)) { m->ctrl = f; return 1; }
int (*EVP_MD_meth_get_init(const EVP_MD *m))(EVP_MD_CTX *) { return m->init; }
int (*EVP_MD_meth_get_ctrl(const EVP_MD *m))(EVP_MD_CTX *, int, int, void *) { return m->ctrl; }
int EVP_MD_get_type(const EVP_MD *m) { return m->type; }
int EVP_MD_get_size(const EVP_MD *m) { return m->md_size; }
int EVP_MD_get_block_size(const EVP_MD *m) { return m->block_size; }
unsigned long EVP_MD_get_flags(const EVP_MD *m) { return m->flags; }
const char *EVP_MD_get0_name(const EVP_MD *m) { return "md"; }
int OBJ_NAME_add(const char *n, int t, const char *d) { return 1; }
int OBJ_NAME_remove(const char *n, int t) { return 1; }
void *EVP_MD_CTX_get0_md_data(const EVP_MD_CTX *x) { return x->md_data; }
const EVP_MD *EVP_MD_CTX_md(const EVP_MD_CTX *x) { return x->digest; }
void EVP_MD_CTX_set_flags(EVP_MD_CTX *x, int f) { x->flags |= f; }
