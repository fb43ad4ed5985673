/* P05: GOST R 34.11-2012 through the digest method, any division of the
 * message.  -DBITS 256/512, -DLEN, -DA0/A1 first cut, -DB1 second piece,
 * -DFILL: start from an arbitrary mid-message state holding FILL buffered
 * bytes (all h, N, Sigma) instead of from init; -DREUSE: the context hashed
 * something else before; -DCOPY: finish on a copy */
#include "ciph.h"
EVP_MD *GOST_init_digest(GOST_digest *d);
#if BITS == 256
# define DESC GostR3411_2012_256_digest
#else
# define DESC GostR3411_2012_512_digest
#endif
extern GOST_digest DESC;
#ifdef VP_CBMC
# include "sse_model.h"
# include "gosthash2012.h"
void g(uint512_u *h, const uint512_u *N, const uint512_u *m);
void add512(uint512_u *x, const uint512_u *y);
#else
# define init_gost2012_hash_ctx x_i
# define gost2012_hash_block x_b
# define gost2012_finish_hash x_f
# include "gosthash2012.c"
# undef init_gost2012_hash_ctx
# undef gost2012_hash_block
# undef gost2012_finish_hash
#endif
#ifndef FILL
# define FILL 0
#endif
#ifndef B1
# define B1 0
#endif
static _Alignas(16) u64 H0[8], N0[8], S0[8];
static u8 in[LEN + 16], pre[64], junk[70], ref[64];
#define P(x) ((uint512_u *)(x))
static void mkref(void)
{
    _Alignas(16) u64 h[8], N[8], S[8], m[8], z[8], n[8]; unsigned i, t = FILL + LEN, o = 0;
    for (i = 0; i < 8; i++) { h[i] = H0[i]; N[i] = N0[i]; S[i] = S0[i]; z[i] = 0; n[i] = i ? 0 : 512; }
    for (;;) {
        unsigned c = t - o < 64 ? t - o : 64;
        for (i = 0; i < 8; i++) m[i] = 0;
        for (i = 0; i < c; i++) m[i / 8] |= (u64)(o + i < FILL ? pre[o + i] : in[o + i - FILL]) << 8 * (i % 8);
        if (c < 64) { m[c / 8] |= (u64)1 << 8 * (c % 8); n[0] = 8 * c; }
        g(P(h), P(N), P(m));
        add512(P(N), P(n)); add512(P(S), P(m));
        o += c;
        if (c < 64) break;
    }
    g(P(h), P(z), P(N)); g(P(h), P(z), P(S));
    for (i = 0; i < BITS / 8; i++) { unsigned k = BITS == 256 ? i + 32 : i; ref[i] = h[k / 8] >> 8 * (k % 8); }
}
static int feed(EVP_MD_CTX *p, const u8 *d, unsigned n) { return p->digest->update(p, d, n) == 1; }
_Static_assert(sizeof(gost2012_hash_ctx) <= 36 * 8 && sizeof(size_t) == 8, "context");
static void go(EVP_MD *md, unsigned a, unsigned b)
{
    u8 out[96]; unsigned i; EVP_MD_CTX *p;
    EVP_MD_CTX x = { 0 }, y = { 0 }; _Alignas(16) u64 mw[36] = { 0 }, mw2[36] = { 0 };
    x.digest = md; x.md_data = mw; p = &x;
#ifdef REUSE
    VP_ASSERT(md->init(&x) == 1 && feed(&x, junk, REUSE), "first use");
    if (b & 1) VP_ASSERT(md->final(&x, out) == 1, "first use");
#endif
    VP_ASSERT(md->init(&x) == 1, "init failed");
#ifdef MID
    for (i = 0; i < 8; i++) {
        mw[offsetof(gost2012_hash_ctx, h) / 8 + i] = H0[i]; mw[offsetof(gost2012_hash_ctx, N) / 8 + i] = N0[i]; mw[offsetof(gost2012_hash_ctx, Sigma) / 8 + i] = S0[i];
    }
    memcpy((u8 *)mw + offsetof(gost2012_hash_ctx, buffer), pre, FILL);
    mw[offsetof(gost2012_hash_ctx, bufsize) / 8] = FILL;
#endif
    VP_ASSERT(!a || feed(&x, in, a), "update failed");
#ifdef COPY
    y = x; y.md_data = mw2; memcpy(mw2, mw, sizeof(gost2012_hash_ctx));
    VP_ASSERT(!md->copy || md->copy(&y, &x) == 1, "copy failed"); p = &y;
    VP_ASSERT(feed(&x, junk, 70) && md->final(&x, out) == 1, "original unusable after copy");
    VP_ASSERT(!md->cleanup || md->cleanup(&x) == 1, "cleanup");
#endif
    VP_ASSERT(!b || feed(p, in + a, b), "update failed");
    VP_ASSERT(feed(p, in + a + b, LEN - a - b), "update failed");
    memset(out, 0x5a, 96);
    VP_ASSERT(md->final(p, out + 16) == 1, "final failed");
    VP_ASSERT(vp_eq(out + 16, ref, BITS / 8), "digest differs from the standard's");
    u8 w = 0;
    for (i = 0; i < 16; i++) w |= (out[i] ^ 0x5a) | (out[16 + BITS / 8 + i] ^ 0x5a);
    VP_ASSERT(w == 0, "write outside the digest");
    VP_WITNESS("strh");
}
void vp_main(void)
{
    EVP_MD *md; unsigned i;
    nd_bytes(in, LEN); nd_bytes(junk, 70);
    for (i = 0; i < 8; i++) H0[i] = BITS == 256 ? 0x0101010101010101ULL : 0;
#ifdef MID
    nd_bytes(H0, 64); nd_bytes(N0, 64); nd_bytes(S0, 64); nd_bytes(pre, FILL);
#endif
    mkref();
    md = GOST_init_digest(&DESC);
    VP_ASSERT(md != NULL && md->ctx_size == sizeof(gost2012_hash_ctx) && md->md_size == BITS / 8 && md->block_size == 64, "descriptor");
    VP_SPLIT(a, A1 - A0) VP_SPLIT(b, LEN - (A0 + a) < B1 ? LEN - (A0 + a) : B1) go(md, A0 + a, b);
}
