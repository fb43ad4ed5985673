/* P19: CryptoPro key wrap (RFC 4357).  -DMODE 0 diversification, 1 wrap,
 * 2 unwrap, 3 round trip; modes 1..3 use the diversification as a function of
 * (KEK, UKM) (mode 0 decides it). */
#include "vp.h"
#include "gost89.h"
#include "gost_keywrap.h"
static u8 kek[32], ukm[8], sk[32], blob[60];
static gost_ctx c, rc;
#define SB Gost28147_TC26ParamSetZ
#if MODE == 0
static u32 w(const u8 *k, int i) { return (u32)k[4 * i] | (u32)k[4 * i + 1] << 8 | (u32)k[4 * i + 2] << 16 | (u32)k[4 * i + 3] << 24; }
static void put(u8 *o, u32 v) { o[0] = v; o[1] = v >> 8; o[2] = v >> 16; o[3] = v >> 24; }
#ifdef VP_CBMC
/* round by round: the CFB encryption must get the RFC's S, the current key and
 * four blocks of it; its result (job cfb) is any 32 bytes */
static u8 cur[32]; static unsigned rounds;
static u32 ck(gost_ctx *x, int i) { return x->key[i] + x->mask[i]; }
void gost_enc_cfb(gost_ctx *x, const byte *iv, const byte *clear, byte *cipher, int blocks)
{
    u32 s1 = 0, s2 = 0; unsigned j; u8 s[8];
    VP_ASSERT(rounds < 8 && blocks == 4, "diversified key differs from RFC 4357");
    VP_ASSERT(vp_eq(clear, cur, 32), "diversified key differs from RFC 4357");
    for (j = 0; j < 8; j++) {
        VP_ASSERT(ck(x, j) == w(cur, j), "diversified key differs from RFC 4357");
        if (ukm[rounds] >> j & 1) s1 += w(cur, j); else s2 += w(cur, j);
    }
    put(s, s1); put(s + 4, s2);
    VP_ASSERT(vp_eq(iv, s, 8), "diversified key differs from RFC 4357");
    nd_bytes(cur, 32); memcpy(cipher, cur, 32); rounds++;
}
#endif
static void div_ref(u8 *k)
{
#ifdef VP_CBMC
    VP_ASSERT(rounds == 8, "diversified key differs from RFC 4357");
    memcpy(k, cur, 32);
#else
    unsigned i, j, b; u8 s[8], g[8];
    memcpy(k, kek, 32);
    for (i = 0; i < 8; i++) {
        u32 s1 = 0, s2 = 0;
        for (j = 0; j < 8; j++) if (ukm[i] >> j & 1) s1 += w(k, j); else s2 += w(k, j);
        put(s, s1); put(s + 4, s2);
        gost_key_nomask(&rc, k);
        for (b = 0; b < 4; b++) {       /* CFB */
            gostcrypt(&rc, s, g);
            for (j = 0; j < 8; j++) s[j] = k[8 * b + j] ^= g[j];
        }
    }
#endif
}
#endif
void vp_main(void)
{
    u8 out[96], k[32], want[60], m[8] = { 0 }; unsigned i; int r;
    nd_bytes(kek, 32); nd_bytes(ukm, 8); nd_bytes(sk, 32); nd_bytes(blob, 44);
    gost_init(&c, &SB); gost_init(&rc, &SB);
    memset(out, 0x5a, sizeof(out)); (void)k; (void)want; (void)m; (void)r;
#if MODE == 4      /* low-level CFB, not in place and in place, any block count */
    VP_SPLIT(n, 4) {
        u8 g[8], s[8], *o = out + 16; unsigned j;
        gost_key(&c, kek); gost_key(&rc, kek);
        memcpy(s, ukm, 8);
        for (i = 0; i < n; i++) { gostcrypt(&rc, s, g); for (j = 0; j < 8; j++) s[j] = want[8 * i + j] = blob[8 * i + j] ^ g[j]; }
        memset(out, 0x5a, sizeof(out));
        gost_enc_cfb(&c, ukm, blob, o, n);
        VP_ASSERT(vp_eq(o, want, 8 * n), "CFB encryption");
        for (i = 0; i < 16; i++) VP_ASSERT(out[i] == 0x5a && o[8 * n + i] == 0x5a, "write outside the result");
        memcpy(o, blob, 8 * n); gost_enc_cfb(&c, ukm, o, o, n);
        VP_ASSERT(vp_eq(o, want, 8 * n), "CFB encryption in place");
        gost_dec_cfb(&c, ukm, want, o, n);
        VP_ASSERT(vp_eq(o, blob, 8 * n), "CFB decryption");
        memcpy(o, want, 8 * n); gost_dec_cfb(&c, ukm, o, o, n);
        VP_ASSERT(vp_eq(o, blob, 8 * n), "CFB decryption in place");
    }
#elif MODE == 0
    { u8 in[32], u[8]; memcpy(in, kek, 32); memcpy(u, ukm, 8);
#ifdef VP_CBMC
    memcpy(cur, kek, 32);
#endif
    keyDiversifyCryptoPro(&c, in, u, out + 16);
    div_ref(k);
    VP_ASSERT(vp_eq(out + 16, k, 32), "diversified key differs from RFC 4357");
    VP_ASSERT(vp_eq(in, kek, 32) && vp_eq(u, ukm, 8), "input modified");
    for (i = 0; i < 16; i++) VP_ASSERT(out[i] == 0x5a && out[48 + i] == 0x5a, "write outside the result"); }
#else
# if MODE == 2
    memcpy(ukm, blob, 8);
# endif
    keyDiversifyCryptoPro(&rc, kek, ukm, k);
    gost_key(&rc, k);
# if MODE == 1 || MODE == 3
    memcpy(want, ukm, 8);
    for (i = 0; i < 4; i++) gostcrypt(&rc, sk + 8 * i, want + 8 + 8 * i);
    memcpy(m, ukm, 8);
    for (i = 0; i < 4; i++) mac_block(&rc, m, sk + 8 * i);
    memcpy(want + 40, m, 4);
    r = keyWrapCryptoPro(&c, kek, ukm, sk, out + 16);
    VP_ASSERT(r == 1, "wrap failed");
    VP_ASSERT(vp_eq(out + 16, want, 44), "wrapped key differs from RFC 4357");
    for (i = 0; i < 16; i++) VP_ASSERT(out[i] == 0x5a && out[60 + i] == 0x5a, "write outside the result");
# endif
# if MODE == 3
    gost_init(&c, &SB);
    r = keyUnwrapCryptoPro(&c, kek, out + 16, want);
    VP_ASSERT(r == 1 && vp_eq(want, sk, 32), "round trip failed");
# elif MODE == 2
    { u8 b[44]; int ok; memcpy(b, blob, 44);
    for (i = 0; i < 4; i++) gostdecrypt(&rc, blob + 8 + 8 * i, want + 8 * i);
    memcpy(m, ukm, 8);
    for (i = 0; i < 4; i++) mac_block(&rc, m, want + 8 * i);
    ok = vp_eq(m, blob + 40, 4);
    r = keyUnwrapCryptoPro(&c, kek, b, out + 16);
    VP_ASSERT(!(r == 1 && !ok), "altered blob accepted");
    VP_ASSERT(!(r != 1 && ok), "correct blob refused");
    VP_ASSERT(!ok || vp_eq(out + 16, want, 32), "unwrapped key differs from RFC 4357");
    VP_ASSERT(r == 1 || r == 0, "result is neither 0 nor 1");
    if (r != 1) for (i = 0, r = 0; i < 32; i++) r |= out[16 + i] ^ 0x5a;
    else r = 0;
    { u8 z = 0; for (i = 0; i < 32; i++) z |= out[16 + i]; VP_ASSERT(ok || r == 0 || z == 0, "unauthenticated key left in the output"); }
    VP_ASSERT(vp_eq(b, blob, 44), "blob modified");
    for (i = 0; i < 16; i++) VP_ASSERT(out[i] == 0x5a && out[48 + i] == 0x5a, "write outside the result"); }
# endif
#endif
    VP_WITNESS("wrap");
}
