/* P01: multi-block helpers apply the block function blockwise, write nothing
 * else; key-loading one-shot encrypts under the given (unmasked) key. */
#include "ref89.h"
#define MAXB 3
static gost_ctx c, rc;
static void go(const u8 *in, u8 *out, const u8 *key, unsigned n, int inplace, int o)
{
    u8 ref[8 * MAXB + 8]; unsigned i;
    if (inplace) memcpy(out, in, sizeof(ref));
    memcpy(ref, out, sizeof(ref));
    for (i = 0; i < n; i++)
        if (o) gostcrypt(&rc, in + 8 * i, ref + 8 * i); else gostdecrypt(&rc, in + 8 * i, ref + 8 * i);
    if (inplace) { if (o) gost_enc(&c, out, out, n); else gost_dec(&c, out, out, n); }
    else { if (o) gost_enc(&c, in, out, n); else gost_dec(&c, in, out, n); }
    VP_ASSERT(vp_eq(out, ref, sizeof(ref)), "multi-block ECB differs from blockwise application");
    VP_WITNESS("ecb");
}
void vp_main(void)
{
    u8 in[8 * MAXB + 8], out[8 * MAXB + 8], ref[8], key[32];
    gost_init(&c, &Gost28147_CryptoProParamSetA); gost_init(&rc, &Gost28147_CryptoProParamSetA);
    nd_bytes(key, 32); nd_bytes(in, sizeof(in)); nd_bytes(out, sizeof(out));
    gost_key(&c, key); gost_key_nomask(&rc, key);
#ifndef WITHKEY
    VP_SPLIT(n, MAXB) VP_SPLIT(ip, 1) VP_SPLIT(o, 1) go(in, out, key, n, ip, o);
#else
    gostcrypt(&rc, in, ref);
    gost_key(&c, out);                 /* some other key before */
    gost_enc_with_key(&c, key, in, out);
    VP_ASSERT(vp_eq(out, ref, 8), "encrypt-with-key differs");
    VP_WITNESS("enckey");
#endif
}
