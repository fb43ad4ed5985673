/* P06: GOST R 34.11-94 (RFC 5831).
 * -DSTEP: one full block from an arbitrary state: step function and control sum;
 * otherwise whole digests: -DLEN, -DA0/A1 first cut, -DB1 second piece,
 * -DMID -DFILL: from every mid-message state; -DREUSE; -DCOPY */
#include "ciph.h"
#include "gosthash.h"
EVP_MD *GOST_init_digest(GOST_digest *d);
extern GOST_digest GostR3411_94_digest;
#ifndef FILL
# define FILL 0
#endif
static u8 H0[32], S0[32], pre[32], in[LEN + 16], junk[40], ref[32];
static u64 len0;
static gost_ctx rc;
/* A(X), P(X), psi of RFC 5831 on byte strings, least significant byte first */
static void fA(u8 *x)
{ u8 y[32]; unsigned i; for (i = 0; i < 24; i++) y[i] = x[i + 8]; for (i = 0; i < 8; i++) y[24 + i] = x[i] ^ x[i + 8]; memcpy(x, y, 32); }
static void fP(u8 *k, const u8 *w)
{ unsigned i, j; for (i = 0; i < 4; i++) for (j = 0; j < 8; j++) k[i + 4 * j] = w[8 * i + j]; }
static void psi(u8 *x)
{
    u8 a = x[0] ^ x[2] ^ x[4] ^ x[6] ^ x[24] ^ x[30], b = x[1] ^ x[3] ^ x[5] ^ x[7] ^ x[25] ^ x[31]; unsigned i;
    for (i = 0; i < 30; i++) x[i] = x[i + 2];
    x[30] = a; x[31] = b;
}
/* least significant byte first */
static const u8 C3[32] = { 0, 255, 0, 255, 0, 255, 0, 255, 255, 0, 255, 0, 255, 0, 255, 0, 0, 255, 255, 0, 255, 0, 0, 255, 255, 0, 0, 0, 255, 255, 0, 255 };
static void full_step(u8 *H, const u8 *M)
{
    u8 U[32], V[32], W[32], K[32], S[32]; unsigned i, j;
    memcpy(U, H, 32); memcpy(V, M, 32);
    for (j = 0; j < 4; j++) {
        if (j) { fA(U); if (j == 2) for (i = 0; i < 32; i++) U[i] = C3[i] ? ~U[i] : U[i]; fA(V); fA(V); }
        for (i = 0; i < 32; i++) W[i] = U[i] ^ V[i];
        fP(K, W);
        gost_key_nomask(&rc, K);
        gostcrypt(&rc, H + 8 * j, S + 8 * j);
    }
    for (i = 0; i < 12; i++) psi(S);
    for (i = 0; i < 32; i++) S[i] ^= M[i];
    psi(S);
    for (i = 0; i < 32; i++) S[i] ^= H[i];
    for (i = 0; i < 61; i++) psi(S);
    memcpy(H, S, 32);
}
#ifdef VP_CBMC
int hash_step(gost_ctx *c, u8 *H, const u8 *M);
# define STEP_REF(H, M) hash_step(&rc, H, M)
#else
# define STEP_REF(H, M) full_step(H, M)
#endif
/* 256-bit sum, digit by digit */
static void add(u8 *x, const u8 *y)
{ int i, c = 0; for (i = 0; i < 32; i++) { int t = (int)x[i] + (int)y[i] + c; x[i] = t & 0xff; c = t >> 8; } }
static void mkref(void)
{
    u8 H[32], S[32], b[32]; unsigned t = FILL + LEN, o = 0, i; u64 bits;
    memcpy(H, H0, 32); memcpy(S, S0, 32);
    do {
        unsigned n = t - o < 32 ? t - o : 32;
#ifdef MID
        if (n == 0 && t == 0) break;      /* len0 > 0: no empty last block */
#endif
        for (i = 0; i < 32; i++) b[i] = i >= n ? 0 : o + i < FILL ? pre[o + i] : in[o + i - FILL];
        STEP_REF(H, b); add(S, b);
        o += n;
    } while (o < t);
    bits = (len0 + t) << 3;
    for (i = 0; i < 32; i++) b[i] = i < 8 ? bits >> 8 * i : 0;
    STEP_REF(H, b); STEP_REF(H, S);
    memcpy(ref, H, 32);
}
static int feed(EVP_MD_CTX *p, const u8 *d, unsigned n) { return p->digest->update(p, d, n) == 1; }
static void go(EVP_MD *md, unsigned a, unsigned b)
{
    u8 out[64]; unsigned i; u8 w = 0; EVP_MD_CTX *p;
    EVP_MD_CTX x = { 0 }, y = { 0 }; struct ossl_gost_digest_ctx mem = { 0 }, mem2 = { 0 };
    x.digest = md; x.md_data = &mem; p = &x;
#ifdef REUSE
    VP_ASSERT(md->init(&x) == 1 && feed(&x, junk, REUSE), "first use");
    if (b & 1) VP_ASSERT(md->final(&x, out) == 1, "first use");
#endif
    VP_ASSERT(md->init(&x) == 1, "init failed");
#if defined(MID) || defined(STEP)
    memcpy(mem.dctx.H, H0, 32); memcpy(mem.dctx.S, S0, 32); mem.dctx.len = len0;
    memcpy(mem.dctx.remainder, pre, FILL); mem.dctx.left = FILL;
#endif
#ifdef STEP
    { u8 h[32], s[32]; memcpy(h, H0, 32); memcpy(s, S0, 32); full_step(h, in); add(s, in);
      VP_ASSERT(feed(&x, in, 32), "update failed");
      VP_ASSERT(vp_eq(mem.dctx.H, h, 32), "step function differs from the standard's");
      VP_ASSERT(vp_eq(mem.dctx.S, s, 32), "control sum differs");
      VP_WITNESS("step"); }
#else
    VP_ASSERT(!a || feed(&x, in, a), "update failed");
#ifdef COPY
    y = x; y.md_data = &mem2; mem2 = mem;
    VP_ASSERT(!md->copy || md->copy(&y, &x) == 1, "copy failed"); p = &y;
    VP_ASSERT(feed(&x, junk, 40) && md->final(&x, out) == 1, "original unusable after copy");
    VP_ASSERT(!md->cleanup || md->cleanup(&x) == 1, "cleanup");
    mem.cctx.k87[0x5a] = 1;
#endif
    VP_ASSERT(!b || feed(p, in + a, b), "update failed");
    VP_ASSERT(feed(p, in + a + b, LEN - a - b), "update failed");
    memset(out, 0x5a, 64);
    VP_ASSERT(md->final(p, out + 16) == 1, "final failed");
    VP_ASSERT(vp_eq(out + 16, ref, 32), "digest differs from the standard's");
    for (i = 0; i < 16; i++) w |= (out[i] ^ 0x5a) | (out[48 + i] ^ 0x5a);
    VP_ASSERT(w == 0, "write outside the digest");
    VP_WITNESS("h94");
#endif
}
void vp_main(void)
{
    EVP_MD *md;
    nd_bytes(in, LEN); nd_bytes(junk, 40);
#if defined(MID) || defined(STEP)
    nd_bytes(H0, 32); nd_bytes(S0, 32); nd_bytes(pre, FILL);
    len0 = nd_u64(); VP_ASSUME(len0 % 32 == 0 && len0 > 0 && len0 < (u64)1 << 58);
#endif
    gost_init(&rc, &GostR3411_94_CryptoProParamSet);
#ifndef STEP
    mkref();
#endif
    md = GOST_init_digest(&GostR3411_94_digest);
    VP_ASSERT(md != NULL && md->ctx_size == sizeof(struct ossl_gost_digest_ctx) && md->md_size == 32 && md->block_size == 32, "descriptor");
    VP_SPLIT(a, A1 - A0) VP_SPLIT(b, LEN - (A0 + a) < B1 ? LEN - (A0 + a) : B1) go(md, A0 + a, b);
}
