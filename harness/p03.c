/* P03: Kuznyechik against GOST R 34.12-2015 (RFC 7801), decomposed:
 * OP 0/1 encrypt/decrypt rounds, 2/3 encrypt/decrypt key schedule, 4/5 L and
 * its inverse, 6 multiplication in GF(2^8), 7 table sums (table
 * entries: p03_tables.py), 9 S-boxes and LFSR coefficients, 10 L linear, L inverse */
#include "vp.h"
#include "ref_pi.h"
#define NEED_CORE (OP == 4 || OP == 5)
#include "gost_grasshopper_math.h"
#include "gost_grasshopper_precompiled.h"
#include "gost_grasshopper_defines.h"
#if NEED_CORE
# ifdef VP_CBMC
u8 __CPROVER_uninterpreted_gm(u8, u8);
static u8 ufmul(u8 x, u8 y) { return __CPROVER_uninterpreted_gm(x, y); }
#  define grasshopper_galois_mul ufmul
# endif
# include "gost_grasshopper_core.c"
#endif
void grasshopper_set_encrypt_key(grasshopper_round_keys_t *, const grasshopper_key_t *);
void grasshopper_set_decrypt_key(grasshopper_round_keys_t *, const grasshopper_key_t *);
void grasshopper_encrypt_block(grasshopper_round_keys_t *, grasshopper_w128_t *, grasshopper_w128_t *, grasshopper_w128_t *);
void grasshopper_decrypt_block(grasshopper_round_keys_t *, grasshopper_w128_t *, grasshopper_w128_t *, grasshopper_w128_t *);
static u8 gmul(u8 a, u8 b)           /* x^8 + x^7 + x^6 + x + 1 */
{ u8 r = 0; unsigned i; for (i = 0; i < 8; i++) { if (b >> i & 1) r ^= a; a = a << 1 ^ (a & 0x80 ? 0xc3 : 0); } return r; }
static const u8 co[16] = { 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1 };
#if NEED_CORE && defined(VP_CBMC)
# define MUL ufmul
#elif NEED_CORE
# define MUL grasshopper_galois_mul
#else
# define MUL gmul
#endif
/* a[0] is the most significant byte a_15 of the standard */
static void Rr(u8 *a) { u8 x = 0; unsigned i; for (i = 0; i < 15; i++) x ^= MUL(a[i], co[i]); x ^= a[15]; for (i = 15; i; i--) a[i] = a[i - 1]; a[0] = x; }
static void Ri(u8 *a) { u8 x = a[0]; unsigned i; for (i = 0; i < 15; i++) a[i] = a[i + 1]; a[15] = x; x = 0; for (i = 0; i < 15; i++) x ^= MUL(a[i], co[i]); a[15] ^= x; }
static void Ll(u8 *a) { unsigned i; for (i = 0; i < 16; i++) Rr(a); }
static void Li(u8 *a) { unsigned i; for (i = 0; i < 16; i++) Ri(a); }
static u8 inv_pi(u8 y) { unsigned i; u8 r = 0; for (i = 0; i < 256; i++) if (ref_pi[i] == y) r = i; return r; }
#if (OP <= 3) && defined(VP_CBMC)
/* the XOR of table entries (OP 0,1) and L (OP 2,3): uninterpreted per table */
u64 __CPROVER_uninterpreted_t0(u32, u64, u64);
u64 __CPROVER_uninterpreted_t1(u32, u64, u64);
static void uft(u32 id, u64 *r, u64 a, u64 b) { r[0] = __CPROVER_uninterpreted_t0(id, a, b); r[1] = __CPROVER_uninterpreted_t1(id, a, b); }
static void T(u32 id, grasshopper_w128_t *x) { uft(id, x->q, x->q[0], x->q[1]); }
#elif OP <= 3
static void T(u32 id, grasshopper_w128_t *x)
{
    grasshopper_w128_t r; unsigned i; 
    if (id == 1) { for (i = 0; i < 16; i++) x->b[i] = ref_pi[x->b[i]]; Ll(x->b); }
    else if (id == 2) { for (i = 0; i < 16; i++) x->b[i] = inv_pi(x->b[i]); Li(x->b); }
    else if (id == 3 || id == 5) Li(x->b);
    else Ll(x->b);
}
#endif
#if OP <= 3
static void ref_keys(grasshopper_round_keys_t *rk, const u8 *key)
{
    u64 a[2], b[2]; grasshopper_w128_t c, t; unsigned i, j;
    memcpy(a, key, 16); memcpy(b, key + 16, 16);
    memcpy(&rk->k[0], a, 16); memcpy(&rk->k[1], b, 16);
    for (i = 1; i <= 32; i++) {
        c.q[0] = 0; c.q[1] = (u64)i << 56; T(4, &c);
        t.q[0] = c.q[0] ^ a[0]; t.q[1] = c.q[1] ^ a[1];
        for (j = 0; j < 16; j++) t.b[j] = ref_pi[t.b[j]];
        T(4, &t);
        t.q[0] ^= b[0]; t.q[1] ^= b[1];
        b[0] = a[0]; b[1] = a[1]; a[0] = t.q[0]; a[1] = t.q[1];
        if (i % 8 == 0) { memcpy(&rk->k[i / 4], a, 16); memcpy(&rk->k[i / 4 + 1], b, 16); }
    }
}
#endif
void vp_main(void)
{
#if OP == 0 || OP == 1
    grasshopper_round_keys_t rk, rk0; grasshopper_w128_t s, t, buf, r; unsigned i;
    nd_bytes(&rk, sizeof(rk)); nd_bytes(&s, 16); rk0 = rk;
    r = s;
# if OP == 0
    for (i = 0; i < 9; i++) { r.q[0] ^= rk.k[i].q[0]; r.q[1] ^= rk.k[i].q[1]; T(1, &r); }
    r.q[0] ^= rk.k[9].q[0]; r.q[1] ^= rk.k[9].q[1];
# else
    T(3, &r);
    for (i = 9; i >= 1; i--) { r.q[0] ^= rk.k[i].q[0]; r.q[1] ^= rk.k[i].q[1]; if (i > 1) T(2, &r); }
    for (i = 0; i < 16; i++) r.b[i] = grasshopper_pi_inv[r.b[i]];
    r.q[0] ^= rk.k[0].q[0]; r.q[1] ^= rk.k[0].q[1];
# endif
    grasshopper_w128_t u = s;
    (OP == 0 ? grasshopper_encrypt_block : grasshopper_decrypt_block)(&rk, &s, &t, &buf);
    VP_ASSERT(t.q[0] == r.q[0] && t.q[1] == r.q[1], "block differs");
    VP_ASSERT(s.q[0] == u.q[0] && s.q[1] == u.q[1], "source modified");
    (OP == 0 ? grasshopper_encrypt_block : grasshopper_decrypt_block)(&rk, &u, &u, &buf);
    VP_ASSERT(u.q[0] == r.q[0] && u.q[1] == r.q[1], "block differs in place");
    VP_ASSERT(!memcmp(&rk, &rk0, sizeof(rk)), "round keys modified");
#elif OP == 2 || OP == 3
    grasshopper_round_keys_t rk, ref; grasshopper_key_t k; unsigned i;
    nd_bytes(&k, 32);
    ref_keys(&ref, (u8 *)&k);
# if OP == 2
    grasshopper_set_encrypt_key(&rk, &k);
# else
    for (i = 1; i < 10; i++) T(5, &ref.k[i]);
    grasshopper_set_decrypt_key(&rk, &k);
# endif
    for (i = 0; i < 10; i++) VP_ASSERT(rk.k[i].q[0] == ref.k[i].q[0] && rk.k[i].q[1] == ref.k[i].q[1], "round key differs");
#elif OP == 4 || OP == 5
    grasshopper_w128_t w; u8 r[16];
    nd_bytes(&w, 16); memcpy(r, &w, 16);
# if OP == 4
    Ll(r); grasshopper_l(&w);
# else
    Li(r); grasshopper_l_inv(&w);
# endif
    VP_ASSERT(vp_eq(r, &w, 16), "linear transform differs");
#elif OP == 6
    u8 a = nd_u8(), b = nd_u8();
    VP_ASSERT(grasshopper_galois_mul(a, b) == gmul(a, b), "field product differs");
#elif OP == 7
    grasshopper_w128_t x, r, t; unsigned i;
    nd_bytes(&x, 16);
    t.q[0] = t.q[1] = 0;
    for (i = 0; i < 16; i++) { t.q[0] ^= grasshopper_pil_enc128[i][x.b[i]].q[0]; t.q[1] ^= grasshopper_pil_enc128[i][x.b[i]].q[1]; }
    grasshopper_append128multi(&r, &x, grasshopper_pil_enc128);
    VP_ASSERT(x.q[0] == t.q[0] && x.q[1] == t.q[1], "sum of table entries differs");
#elif OP == 9
    u8 x = nd_u8(), y = nd_u8(); unsigned i;
    VP_ASSERT(grasshopper_pi[x] == ref_pi[x], "S-box differs");
    VP_ASSERT(grasshopper_pi_inv[ref_pi[x]] == x, "inverse S-box differs");
    VP_ASSERT(x == y || ref_pi[x] != ref_pi[y], "reference S-box is not a permutation");
    for (i = 0; i < 16; i++) VP_ASSERT(grasshopper_lvec[i] == co[i], "coefficient differs");
#else
    u8 a[16], b[16], c[16], d[16]; unsigned i;
    nd_bytes(a, 16); nd_bytes(b, 16);
    /* per byte: multiplication is additive, hence L is; and R, R^-1 are inverse for every state */
    for (i = 0; i < 16; i++) VP_ASSERT((u8)(gmul(a[0], co[i]) ^ gmul(b[0], co[i])) == gmul(a[0] ^ b[0], co[i]), "not additive");
    memcpy(c, a, 16); Rr(c); Ri(c);
    VP_ASSERT(vp_eq(c, a, 16), "R not inverted");
    memcpy(c, a, 16); Ri(c); Rr(c);
    VP_ASSERT(vp_eq(c, a, 16), "R not inverted");
#endif
    VP_WITNESS("p03");
}
