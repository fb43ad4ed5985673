/* Kuznyechik block primitives as uninterpreted keyed functions (conformity:
 * P03).  The first two round keys hold the 256-bit key. */
#include "vp.h"
#include "gost_grasshopper_defines.h"
u64 __CPROVER_uninterpreted_ehi(u64, u64, u64, u64, u64, u64);
u64 __CPROVER_uninterpreted_elo(u64, u64, u64, u64, u64, u64);
u64 __CPROVER_uninterpreted_dhi(u64, u64, u64, u64, u64, u64);
u64 __CPROVER_uninterpreted_dlo(u64, u64, u64, u64, u64, u64);
static u64 ld(const u8 *p)
{ return (u64)p[0] | (u64)p[1] << 8 | (u64)p[2] << 16 | (u64)p[3] << 24 | (u64)p[4] << 32 | (u64)p[5] << 40 | (u64)p[6] << 48 | (u64)p[7] << 56; }
static void st(u8 *p, u64 v) { int i; for (i = 0; i < 8; i++) p[i] = (u8)(v >> (8 * i)); }
static void setk(grasshopper_round_keys_t *s, const grasshopper_key_t *key)
{
    int i;
    for (i = 2; i < GRASSHOPPER_ROUND_KEYS_COUNT; i++) s->k[i].q[0] = s->k[i].q[1] = 0x5555555555555555ULL;
    s->k[0].q[0] = key->k.q[0]; s->k[0].q[1] = key->k.q[1]; s->k[1].q[0] = key->k.q[2]; s->k[1].q[1] = key->k.q[3];
}
void grasshopper_set_encrypt_key(grasshopper_round_keys_t *s, const grasshopper_key_t *key) { setk(s, key); }
void grasshopper_set_decrypt_key(grasshopper_round_keys_t *s, const grasshopper_key_t *key) { setk(s, key); }
#define K s->k[0].q[0], s->k[0].q[1], s->k[1].q[0], s->k[1].q[1]
void grasshopper_encrypt_block(grasshopper_round_keys_t *s, grasshopper_w128_t *in, grasshopper_w128_t *out, grasshopper_w128_t *buf)
{
    u64 a = ld((u8 *)in), b = ld((u8 *)in + 8);
    u64 h = __CPROVER_uninterpreted_ehi(K, a, b), l = __CPROVER_uninterpreted_elo(K, a, b);
    st((u8 *)out, h); st((u8 *)out + 8, l);
    st((u8 *)buf, h ^ 1);                    /* scratch: clobbered */
}
void grasshopper_decrypt_block(grasshopper_round_keys_t *s, grasshopper_w128_t *in, grasshopper_w128_t *out, grasshopper_w128_t *buf)
{
    u64 a = ld((u8 *)in), b = ld((u8 *)in + 8);
    u64 h = __CPROVER_uninterpreted_dhi(K, a, b), l = __CPROVER_uninterpreted_dlo(K, a, b);
    st((u8 *)out, h); st((u8 *)out + 8, l);
    st((u8 *)buf, h ^ 1);
}
