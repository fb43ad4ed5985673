/* GOST 28147-89 block primitives as uninterpreted permutations of the block,
 * parameterised by the unmasked key and the loaded substitution set.  Their
 * conformity to the standard is P01; here only "same key, same S-boxes, same
 * block => same result, decrypt inverts encrypt" is used. */
#include "vp.h"
#include "gost89.h"
u64 __CPROVER_uninterpreted_e89(u64, u64, u64, u64, u32, u64);
u64 __CPROVER_uninterpreted_d89(u64, u64, u64, u64, u32, u64);
u64 __CPROVER_uninterpreted_m89(u64, u64, u64, u64, u32, u64);
#define KW(c, i) ((u64)((c)->key[i] + (c)->mask[i]) | (u64)((c)->key[(i) + 1] + (c)->mask[(i) + 1]) << 32)
#define KEYS(c) KW(c, 0), KW(c, 2), KW(c, 4), KW(c, 6), ((c)->k87[0x5a] | (c)->k65[0x17] | (c)->k43[0xc2] | (c)->k21[0x3d])
static u64 ld(const u8 *p)
{ return (u64)p[0] | (u64)p[1] << 8 | (u64)p[2] << 16 | (u64)p[3] << 24 | (u64)p[4] << 32 | (u64)p[5] << 40 | (u64)p[6] << 48 | (u64)p[7] << 56; }
static u64 ldb(const u8 *p)
{ return (u64)p[7] | (u64)p[6] << 8 | (u64)p[5] << 16 | (u64)p[4] << 24 | (u64)p[3] << 32 | (u64)p[2] << 40 | (u64)p[1] << 48 | (u64)p[0] << 56; }
static void st(u8 *p, u64 v) { int i; for (i = 0; i < 8; i++) p[i] = (u8)(v >> (8 * i)); }
static void stb(u8 *p, u64 v) { int i; for (i = 0; i < 8; i++) p[7 - i] = (u8)(v >> (8 * i)); }
static u64 enc(gost_ctx *c, u64 x)
{
    u64 r = __CPROVER_uninterpreted_e89(KEYS(c), x);
#ifdef UF_INVERSE
    VP_ASSUME(__CPROVER_uninterpreted_d89(KEYS(c), r) == x);
#endif
    return r;
}
static u64 dec(gost_ctx *c, u64 x)
{
    u64 r = __CPROVER_uninterpreted_d89(KEYS(c), x);
#ifdef UF_INVERSE
    VP_ASSUME(__CPROVER_uninterpreted_e89(KEYS(c), r) == x);
#endif
    return r;
}
void gostcrypt(gost_ctx *c, const byte *in, byte *out) { u64 r = enc(c, ld(in)); st(out, r); }
void gostdecrypt(gost_ctx *c, const byte *in, byte *out) { u64 r = dec(c, ld(in)); st(out, r); }
void magmacrypt(gost_ctx *c, const byte *in, byte *out) { u64 r = enc(c, ldb(in)); stb(out, r); }
void magmadecrypt(gost_ctx *c, const byte *in, byte *out) { u64 r = dec(c, ldb(in)); stb(out, r); }
void mac_block(gost_ctx *c, byte *buffer, const byte *block)
{
    u64 r = __CPROVER_uninterpreted_m89(KEYS(c), ld(buffer) ^ ld(block));
    st(buffer, r);
}

#ifdef UF_KBOX
/* loaded set identified by four of its expanded entries (expansion: P01) */
void kboxinit(gost_ctx *c, const gost_subst_block *b)
{
    c->k87[0x5a] = (u32)(b->k8[5] << 4 | b->k7[10]) << 24;
    c->k65[0x17] = (b->k6[1] << 4 | b->k5[7]) << 16;
    c->k43[0xc2] = (b->k4[12] << 4 | b->k3[2]) << 8;
    c->k21[0x3d] = b->k2[3] << 4 | b->k1[13];
}
#endif
