#include "omodel.h"
#include <openssl/cmac.h>
#include <openssl/hmac.h>
#include <openssl/objects.h>
#ifdef VP_CBMC
u64 __CPROVER_uninterpreted_trabs(u64, u64);
u8 __CPROVER_uninterpreted_trout(u64, u64);
u64 __CPROVER_uninterpreted_trb0(u64, u64, u64);
u64 __CPROVER_uninterpreted_trb1(u64, u64, u64);
u64 __CPROVER_uninterpreted_trkey(u64, u64, u64, u64, u64);
u64 tr_abs(u64 s, u64 v) { return __CPROVER_uninterpreted_trabs(s, v); }
u8 tr_out(u64 s, u64 i) { return __CPROVER_uninterpreted_trout(s, i); }
static u64 trb(int k, u64 s, u64 a, u64 b) { return k ? __CPROVER_uninterpreted_trb1(s, a, b) : __CPROVER_uninterpreted_trb0(s, a, b); }
#else
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
u64 tr_abs(u64 s, u64 v) { return mix(mix(s + 0x9e3779b97f4a7c15ULL) ^ (v + 1)); }
/* $VP_MUT 6, 7: the constant function, another instance of the abstraction */
u8 tr_out(u64 s, u64 i) { static int z = -1; if (z < 0) { const char *m = getenv("VP_MUT"); z = m && atoi(m) >= 6; } return z ? 0 : mix(tr_abs(s, i) ^ 0x1234567); }
static u64 trb(int k, u64 s, u64 a, u64 b) { return mix(tr_abs(tr_abs(s, a), b) + k); }
#endif
static u64 ld8(const u8 *p) { return (u64)p[0] | (u64)p[1] << 8 | (u64)p[2] << 16 | (u64)p[3] << 24 | (u64)p[4] << 32 | (u64)p[5] << 40 | (u64)p[6] << 48 | (u64)p[7] << 56; }
/* a 32-byte key absorbed as one unit */
u64 tr_key(u64 s, const void *p, size_t n)
{
    const u8 *b = p;
    if (n != 32) return tr_bytes(tr_abs(s, n), p, n);
#ifdef VP_CBMC
    return __CPROVER_uninterpreted_trkey(s, ld8(b), ld8(b + 8), ld8(b + 16), ld8(b + 24));
#else
    return tr_abs(tr_abs(tr_abs(tr_abs(s + 77, ld8(b)), ld8(b + 8)), ld8(b + 16)), ld8(b + 24));
#endif
}
u64 tr_bytes(u64 s, const void *p, size_t n) { const u8 *b = p; size_t i; for (i = 0; i < n; i++) s = tr_abs(s, b[i]); return s; }
u64 tr_start(unsigned kind, unsigned nid) { return tr_abs(kind, nid); }

EVP_MD *vp_md_reg[4];
const EVP_CIPHER *vp_ci_reg[4];
static EVP_MD mds[6]; static int nmds;
static EVP_CIPHER cis[6]; static int ncis;
EVP_MD *vp_abs_md(int nid)
{
    int i;
    for (i = 0; i < nmds; i++) if (mds[i].type == nid) return &mds[i];
    mds[nmds].type = nid;
    mds[nmds].md_size = nid == NID_magma_mac ? 8 : nid == NID_grasshopper_mac ? 16 : nid == NID_id_GostR3411_2012_512 ? 64 : 32;
    mds[nmds].block_size = 64;
    return &mds[nmds++];
}
EVP_CIPHER *vp_abs_cipher(int nid)
{
    int i;
    for (i = 0; i < ncis; i++) if (cis[i].nid == nid) return &cis[i];
    cis[ncis].nid = nid; cis[ncis].key_len = 32;
    cis[ncis].block_size = nid == NID_grasshopper_cbc ? 16 : nid == NID_magma_cbc ? 8 : 1;
    cis[ncis].iv_len = nid == NID_grasshopper_cbc ? 16 : nid == NID_magma_cbc ? 8 : nid == NID_magma_ctr ? 4 : 8;
    return &cis[ncis++];
}
const EVP_MD *EVP_get_digestbyname(const char *n)
{
    int i, nid = OBJ_txt2nid(n);
    if (nid == NID_undef || vp_fault()) return NULL;
    for (i = 0; i < 4; i++) if (vp_md_reg[i] && vp_md_reg[i]->type == nid) return vp_md_reg[i];
    return vp_abs_md(nid);
}

const EVP_CIPHER *EVP_get_cipherbyname(const char *n)
{
    int i, nid = OBJ_txt2nid(n);
    if (nid == NID_undef || vp_fault()) return NULL;
    for (i = 0; i < 4; i++) if (vp_ci_reg[i] && vp_ci_reg[i]->nid == nid) return vp_ci_reg[i];
    return vp_abs_cipher(nid);
}
EVP_CIPHER *EVP_CIPHER_fetch(OSSL_LIB_CTX *l, const char *n, const char *q) { return NULL; }
void EVP_CIPHER_free(EVP_CIPHER *c) { }
int EVP_CIPHER_is_a(const EVP_CIPHER *c, const char *n) { return c != NULL && c->nid == OBJ_txt2nid(n); }
int EVP_MD_is_a(const EVP_MD *m, const char *n) { return m != NULL && m->type == OBJ_txt2nid(n); }
const OSSL_PROVIDER *EVP_CIPHER_get0_provider(const EVP_CIPHER *c) { return NULL; }

/* CMAC */
struct CMAC_CTX_st { u64 s; int st, bl; };
CMAC_CTX *CMAC_CTX_new(void)
{
    CMAC_CTX *c;
    if (vp_fault()) return NULL;
    c = calloc(1, sizeof(*c));
    if (c) vp_live++;
    return c;
}
void CMAC_CTX_free(CMAC_CTX *c) { if (c) vp_live--; free(c); }
int CMAC_CTX_copy(CMAC_CTX *o, const CMAC_CTX *i)
{
    if (i->st == 0 || vp_fault()) return 0;
    *o = *i;
    return 1;
}
int CMAC_Init(CMAC_CTX *c, const void *key, size_t n, const EVP_CIPHER *ci, ENGINE *e)
{
    if (vp_fault()) return 0;
    if (ci == NULL || key == NULL) return 0;
    c->s = tr_key(tr_start(TR_CMAC, ci->nid), key, n);
    c->bl = ci->block_size; c->st = 1;
    return 1;
}
int CMAC_Update(CMAC_CTX *c, const void *d, size_t n)
{
    if (c->st == 0 || vp_fault()) return 0;
    c->s = tr_bytes(c->s, d, n);
    return 1;
}
int CMAC_Final(CMAC_CTX *c, unsigned char *out, size_t *n)
{
    int i;
    if (c->st == 0 || vp_fault()) return 0;
    *n = c->bl;
    if (out) for (i = 0; i < c->bl; i++) out[i] = tr_out(c->s, i);
    return 1;
}
/* HMAC */
struct hmac_ctx_st { u64 s; int st, sz; };
#ifdef VP_HMAC_REC      /* the messages themselves, judged by the harness */
u8 vp_hm_msg[64], vp_hm_key[64]; unsigned vp_hm_n, vp_hm_kn;
void vp_hm_final(u8 *out);
#endif
HMAC_CTX *HMAC_CTX_new(void)
{
    HMAC_CTX *c;
    if (vp_fault()) return NULL;
    c = calloc(1, sizeof(*c));
    if (c) vp_live++;
    return c;
}
void HMAC_CTX_free(HMAC_CTX *c) { if (c) vp_live--; free(c); }
int HMAC_CTX_reset(HMAC_CTX *c) { c->st = 0; return 1; }
int HMAC_Init_ex(HMAC_CTX *c, const void *key, int n, const EVP_MD *md, ENGINE *e)
{
    if (vp_fault() || md == NULL || key == NULL) return 0;
#ifdef VP_HMAC_REC
    { int i; for (i = 0; i < n && i < 64; i++) vp_hm_key[i] = ((const u8 *)key)[i]; vp_hm_kn = n; vp_hm_n = 0; }
#else
    c->s = tr_key(tr_start(TR_HMAC, md->type), key, n);
#endif
    c->sz = md->md_size; c->st = 1;
    return 1;
}
int HMAC_Update(HMAC_CTX *c, const unsigned char *d, size_t n)
{
    if (c->st == 0 || vp_fault()) return 0;
#ifdef VP_HMAC_REC
    { size_t i; for (i = 0; i < n; i++) if (vp_hm_n < 64) vp_hm_msg[vp_hm_n++] = d[i]; }
#else
    c->s = tr_bytes(c->s, d, n);
#endif
    return 1;
}
int HMAC_Final(HMAC_CTX *c, unsigned char *out, unsigned int *n)
{
    int i;
    if (c->st == 0 || vp_fault()) return 0;
    if (n) *n = c->sz;
#ifdef VP_HMAC_REC
    (void)i; vp_hm_final(out);
#else
    for (i = 0; i < c->sz; i++) out[i] = tr_out(c->s, i);
#endif
    c->st = 0;
    return 1;
}
/* digests: real methods when registered (md->init set), abstract otherwise */
EVP_MD_CTX *EVP_MD_CTX_new(void)
{
    EVP_MD_CTX *c;
    if (vp_fault()) return NULL;
    c = calloc(1, sizeof(*c));
    if (c) vp_live++;
    return c;
}
static void md_clean(EVP_MD_CTX *c)
{
    if (c->digest && c->digest->cleanup && c->md_data) c->digest->cleanup(c);
    if (c->md_data) { vp_live--; free(c->md_data); }
    c->md_data = NULL; c->digest = NULL; c->st = 0; c->flags = 0;
}
int EVP_MD_CTX_reset(EVP_MD_CTX *c) { if (c) md_clean(c); return 1; }
void EVP_MD_CTX_free(EVP_MD_CTX *c)
{
    if (c == NULL) return;
    md_clean(c);
    vp_live--;
    free(c);
}
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *md, ENGINE *e)
{
    if (md == NULL || vp_fault()) return 0;
    if (c->digest != md) {
        if (c->digest) md_clean(c);
        c->digest = md;
        if (md->ctx_size) {
            c->md_data = calloc(1, md->ctx_size);
            if (c->md_data == NULL) return 0;
            vp_live++;
        }
    }
    if (md->init) return (c->flags & EVP_MD_CTX_FLAG_NO_INIT) ? 1 : md->init(c);
    c->s = tr_start(TR_MD, md->type); c->st = 1;
    return 1;
}
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n)
{
    if (c->digest == NULL) return 0;
    if (n == 0) return 1;
    if (c->digest->update) return c->digest->update(c, d, n);
    if (c->st == 0 || vp_fault()) return 0;
    c->s = tr_bytes(c->s, d, n);
    return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *md, unsigned int *n)
{
    int i;
    if (c->digest == NULL) return 0;
    if (c->digest->final) {
        int r = c->digest->final(c, md);
        if (n) *n = c->digest->md_size;
        if (c->digest->cleanup) c->digest->cleanup(c);
        return r;
    }
    if (c->st == 0 || vp_fault()) return 0;
    for (i = 0; i < c->digest->md_size; i++) md[i] = tr_out(c->s, i);
    if (n) *n = c->digest->md_size;
    c->st = 0;
    return 1;
}
int EVP_DigestFinal(EVP_MD_CTX *c, unsigned char *md, unsigned int *n) { int r = EVP_DigestFinal_ex(c, md, n); md_clean(c); return r; }
int EVP_DigestFinalXOF(EVP_MD_CTX *c, unsigned char *md, size_t n)
{
    if (c->digest == NULL || !(c->digest->flags & EVP_MD_FLAG_XOF) || n > 0x7fffffff || vp_fault()) return 0;
    if (!c->digest->ctrl(c, EVP_MD_CTRL_XOF_LEN, (int)n, NULL)) return 0;
    int r = c->digest->final(c, md);
    if (c->digest->cleanup) c->digest->cleanup(c);
    return r;
}
int EVP_MD_CTX_ctrl(EVP_MD_CTX *c, int cmd, int a, void *p)
{
    int r;
    if (c->digest == NULL || c->digest->ctrl == NULL) return 0;
    r = c->digest->ctrl(c, cmd, a, p);
    return r <= 0 ? 0 : r;
}
int EVP_MD_CTX_copy_ex(EVP_MD_CTX *o, const EVP_MD_CTX *i)
{
    if (i == NULL || i->digest == NULL || vp_fault()) return 0;
    md_clean(o);
    *o = *i;
    if (i->md_data) {
        o->md_data = calloc(1, i->digest->ctx_size);
        if (o->md_data == NULL) return 0;
        vp_live++;
        memcpy(o->md_data, i->md_data, i->digest->ctx_size);
    }
    if (i->digest->copy) return i->digest->copy(o, i);
    return 1;
}
int EVP_MD_CTX_copy(EVP_MD_CTX *o, const EVP_MD_CTX *i) { return EVP_MD_CTX_copy_ex(o, i); }
/* MAC keys and DigestSign */
EVP_PKEY *EVP_PKEY_new_mac_key(int type, ENGINE *e, const unsigned char *key, int n)
{
    EVP_PKEY *p;
    if (vp_fault()) return NULL;
    p = calloc(1, sizeof(*p));
    if (p == NULL) return NULL;
    vp_live++;
    p->type = type; p->refs = 1; p->len = n;
    memcpy(p->key, key, n);
    return p;
}
#ifndef VP_OWN_PKEY
void EVP_PKEY_free(EVP_PKEY *p) { if (p && --p->refs == 0) { vp_live--; free(p); } }
#endif
int EVP_DigestSignInit(EVP_MD_CTX *c, EVP_PKEY_CTX **pc, const EVP_MD *md, ENGINE *e, EVP_PKEY *p)
{
    if (vp_fault() || p == NULL || c->digest != md) return 0;
    c->s = tr_key(tr_start(TR_MAC, p->type), p->key, p->len); c->st = 2;
    return 1;
}
int EVP_DigestSignUpdate(EVP_MD_CTX *c, const void *d, size_t n)
{
    if (c == NULL || c->st != 2 || vp_fault()) return 0;
    c->s = tr_bytes(c->s, d, n);
    return 1;
}
int EVP_DigestSignFinal(EVP_MD_CTX *c, unsigned char *out, size_t *n)
{
    int i;
    if (c == NULL || c->st != 2 || vp_fault()) return 0;
    if (out) for (i = 0; i < c->digest->md_size; i++) out[i] = tr_out(c->s, i);
    *n = c->digest->md_size;
    return 1;
}
/* ciphers */
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void)
{
    EVP_CIPHER_CTX *c;
    if (vp_fault()) return NULL;
    c = calloc(1, sizeof(*c));
    if (c) vp_live++;
    return c;
}
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) { if (c) memset(c, 0, sizeof(*c)); return 1; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (c) vp_live--; free(c); }
int EVP_CIPHER_CTX_set_key_length(EVP_CIPHER_CTX *c, int n) { return !vp_fault() && n == c->cipher->key_len; }
int EVP_CIPHER_CTX_copy(EVP_CIPHER_CTX *o, const EVP_CIPHER_CTX *i)
{
    if (i->cipher == NULL || vp_fault()) return 0;
    *o = *i;
    return 1;
}
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *p)
{
    if (c->cipher == NULL || vp_fault()) return 0;
    if (type == EVP_CTRL_KEY_MESH) { c->mesh = arg; return 1; }
    return -1;
}
int EVP_CIPHER_CTX_set_params(EVP_CIPHER_CTX *c, const OSSL_PARAM *p) { return 0; }
int EVP_CipherInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *ci, ENGINE *e, const unsigned char *key, const unsigned char *iv, int enc)
{
    if (vp_fault()) return 0;
    if (ci) { c->cipher = ci; c->key_len = ci->key_len; c->s = 0; c->num = 0; }
    if (c->cipher == NULL) return 0;
    if (enc != -1) c->encrypt = enc;
    if (key) { c->s = tr_key(tr_start(TR_CIPH, c->cipher->nid), key, c->cipher->key_len); c->num = 1; c->mesh = 0; }
    if (iv) memcpy(c->oiv, iv, c->cipher->iv_len);
    memcpy(c->iv, c->oiv, c->cipher->iv_len);
    if (iv || key) c->pos = 0;
    return 1;
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *ci, ENGINE *e, const unsigned char *key, const unsigned char *iv) { return EVP_CipherInit_ex(c, ci, e, key, iv, 1); }
int EVP_DecryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *ci, ENGINE *e, const unsigned char *key, const unsigned char *iv) { return EVP_CipherInit_ex(c, ci, e, key, iv, 0); }
void vp_abs_block(u64 ks, const u8 *in, u8 *out, int bl)
{
    u64 a = ld8(in), b = bl == 16 ? ld8(in + 8) : 0, x = trb(0, ks, a, b), y = trb(1, ks, a, b); int i;
    for (i = 0; i < 8; i++) { out[i] = x >> 8 * i; if (bl == 16) out[8 + i] = y >> 8 * i; }
}
u64 vp_abs_stream(int nid, const u8 *key, const u8 *iv)
{
    return tr_bytes(tr_key(tr_start(TR_CIPH, nid), key, 32), iv, vp_abs_cipher(nid)->iv_len);
}
/* byte i of the stream; the section size matters beyond the first section */
u8 vp_abs_sbyte(u64 s, u64 mesh, u64 i) { return tr_out(mesh && i >= mesh ? tr_abs(s, mesh) : s, i); }
static int ciph(EVP_CIPHER_CTX *c, u8 *out, const u8 *in, size_t n)
{
    size_t i; int j, bl = c->cipher->block_size;
    if (bl > 1) {                 /* CBC encryption, whole blocks */
        if (n % bl) return 0;
        for (i = 0; i < n; i += bl) {
            u8 t[16];
            for (j = 0; j < bl; j++) t[j] = in[i + j] ^ c->iv[j];
            vp_abs_block(c->s, t, c->iv, bl);
            memcpy(out + i, c->iv, bl);
        }
        return 1;
    }
    { u64 s = tr_bytes(c->s, c->oiv, c->cipher->iv_len);
      for (i = 0; i < n; i++) out[i] = in[i] ^ vp_abs_sbyte(s, c->mesh, c->pos + i); }
    c->pos += n;
    return 1;
}
int EVP_Cipher(EVP_CIPHER_CTX *c, unsigned char *out, const unsigned char *in, unsigned int n)
{
    if (c->cipher == NULL || c->num == 0 || vp_fault()) return 0;
    return ciph(c, out, in, n);
}
int EVP_CipherUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int n)
{
    if (c->cipher == NULL || c->num == 0 || n < 0 || vp_fault()) { *outl = 0; return 0; }
    if (!ciph(c, out, in, n)) return 0;
    *outl = n;
    return 1;
}
int EVP_CipherFinal_ex(EVP_CIPHER_CTX *c, unsigned char *out, int *outl)
{
    if (c->cipher == NULL || vp_fault()) return 0;
    *outl = 0;
    return 1;
}
