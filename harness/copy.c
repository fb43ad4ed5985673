/* P21 for ciphers: a context fed `u` bytes and copied as EVP_CIPHER_CTX_copy
 * does; the original is then used further / re-initialised with another key /
 * cleaned up, and the copy must yield the rest of the stream of an undisturbed
 * context; likewise the original must be unaffected by use of the copy.
 * -DDESC -DIVL -DCTXT -DLEN -DUS=list of cut points -DENC -DMESHARG */
#include "ciph.h"
extern GOST_cipher DESC;
static u8 k1[32], k2[32], v1[16], v2[16], in[LEN + 16], other[LEN + 16], ref[LEN + 16];
static void setup(EVP_CIPHER_CTX *x, EVP_CIPHER *ci, void *mem)
{
    VP_ASSERT(vp_cipher_init(x, ci, mem, k1, v1, ENC) == 1, "init failed");
#ifdef MESHARG
    VP_ASSERT(ci->ctrl(x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed");
#endif
}
static void go(EVP_CIPHER *ci, unsigned u, int mode)
{
    CTXT mem = { 0 }, mem2 = { 0 };
    EVP_CIPHER_CTX x = { 0 }, y = { 0 }; u8 out[LEN + 32], junk[LEN + 32]; EVP_CIPHER_CTX *p = mode ? &x : &y, *q = mode ? &y : &x;
    setup(&x, ci, &mem);
    VP_ASSERT(vp_update(&x, out, in, u), "update failed");
    VP_ASSERT(vp_cipher_copy(&y, &x, &mem2) == 1, "copy failed");
    /* disturb q, continue on p */
    VP_ASSERT(vp_update(q, junk, other, LEN - u), "update failed");
    VP_ASSERT(vp_cipher_init(q, ci, q->cipher_data, k2, v2, ENC) == 1, "re-initialisation failed");
    VP_ASSERT(vp_update(q, junk, other, 16), "update failed");
    if (ci->cleanup) ci->cleanup(q);
    memset(q->cipher_data, 0x5a, sizeof(CTXT));
    VP_ASSERT(vp_update(p, out + u, in + u, LEN - u), "update failed");
    if (mode) VP_ASSERT(vp_eq(out, ref, LEN), "original disturbed by its copy");
    else VP_ASSERT(vp_eq(out, ref, LEN), "copy does not continue like the original");
    VP_WITNESS("copy");
}
void vp_main(void)
{
    static const unsigned us[] = { US };
    EVP_CIPHER *ci; EVP_CIPHER_CTX x = { 0 }; CTXT mem = { 0 };
    nd_bytes(k1, 32); nd_bytes(k2, 32); nd_bytes(v1, IVL); nd_bytes(v2, IVL); nd_bytes(other, LEN); nd_bytes(in, LEN);
    ci = GOST_init_cipher(&DESC);
    VP_ASSERT(ci != NULL && ci->iv_len == IVL && ci->ctx_size == sizeof(CTXT), "descriptor");
    setup(&x, ci, &mem);
    VP_ASSERT(vp_update(&x, ref, in, LEN), "update failed");
    VP_SPLIT(u, sizeof(us) / sizeof(*us) - 1) VP_SPLIT(m, 1) go(ci, us[u], m);
}
