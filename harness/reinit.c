/* Re-initialisation: a context used with (k1, iv1) for U bytes (every U in
 * U0..U1), then initialised with (k2, iv2), must produce the stream of a fresh
 * context initialised with (k2, iv2).  -DDESC -DIVL -DCTXT -DLEN -DU0 -DU1
 * -DREST (all-or-nothing: multiple of block) -DENC -DTWICE (init without key first) */
#include "ciph.h"
extern GOST_cipher DESC;
static u8 k1[32], k2[32], v1[16], v2[16], used[U1 + 16], in[LEN + 16], ref[LEN + 16];
static void go(EVP_CIPHER *ci, unsigned u)
{
    CTXT mem = { 0 };
    EVP_CIPHER_CTX x = { 0 }; u8 junk[U1 + 32], out[LEN + 32];
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, k1, v1, ENC1) == 1, "first init failed");
#ifdef MESHARG
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed");
#endif
    VP_ASSERT(vp_update(&x, junk, used, u * STEP), "update failed");
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, k2, v2, ENC) == 1, "second init failed");
#ifdef MESHARG
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed after re-initialisation");
#endif
    VP_ASSERT(vp_update(&x, out, in, LEN), "update failed");
    VP_ASSERT(vp_eq(out, ref, LEN), "output after re-initialisation differs from a fresh context");
#ifdef SETSBOX
    VP_WITNESS("r");
#endif
    VP_WITNESS("reinit");
}
void vp_main(void)
{
    EVP_CIPHER *ci; EVP_CIPHER_CTX x = { 0 }; CTXT mem = { 0 };
    nd_bytes(k1, 32); nd_bytes(k2, 32); nd_bytes(v1, IVL); nd_bytes(v2, IVL); nd_bytes(used, U1); nd_bytes(in, LEN);
    ci = GOST_init_cipher(&DESC);
    VP_ASSERT(ci != NULL && ci->iv_len == IVL && ci->ctx_size == sizeof(CTXT), "descriptor");
    VP_ASSERT(vp_cipher_init(&x, ci, &mem, k2, v2, ENC) == 1, "init failed");
#ifdef MESHARG
    VP_ASSERT(ci->ctrl(&x, EVP_CTRL_KEY_MESH, MESHARG, NULL) == 1, "key meshing control failed");
#endif
    VP_ASSERT(vp_update(&x, ref, in, LEN), "update failed");
#ifdef US
    static const unsigned us[] = { US };
    VP_SPLIT(u, sizeof(us) / sizeof(*us) - 1) go(ci, us[u] / STEP);
#else
    VP_SPLIT(u, (U1 - U0) / STEP) go(ci, U0 / STEP + u);
#endif
}
