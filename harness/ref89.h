/* Reference GOST 28147-89 / Magma, written from RFC 5830 / RFC 8891 with the
 * nibble S-boxes of RFC 4357 / RFC 7836 (pi[0] acts on the low nibble). */
#ifndef REF89_H
#define REF89_H
#include "vp.h"
#include "gost89.h"
typedef u8 sbox_t[8][16];
static const sbox_t ref_sbox_Z = {
 {12,4,6,2,10,5,11,9,14,8,13,7,0,3,15,1},{6,8,2,3,9,10,5,12,1,14,4,7,11,13,0,15},
 {11,3,5,8,2,15,10,13,14,1,7,4,12,9,6,0},{12,8,2,1,13,4,15,6,7,0,10,5,3,14,9,11},
 {7,15,5,10,8,1,6,13,0,9,3,14,11,4,2,12},{5,13,15,6,9,2,12,10,11,7,8,1,4,3,14,0},
 {8,14,2,5,6,9,1,12,15,4,11,0,13,10,3,7},{1,7,14,13,0,5,8,3,4,15,10,6,9,12,11,2}};
static inline u32 ref_t(const sbox_t s, u32 x)
{
    u32 r = 0; int i;
    for (i = 0; i < 8; i++) r |= (u32)s[i][(x >> (4 * i)) & 15] << (4 * i);
    return r;
}
static inline u32 ref_rol11(u32 x) { return x << 11 | x >> 21; }
static inline u32 le32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static inline u32 be32(const u8 *p) { return p[3] | p[2] << 8 | p[1] << 16 | (u32)p[0] << 24; }
static inline void st_le32(u8 *p, u32 v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static inline void st_be32(u8 *p, u32 v) { p[3] = v; p[2] = v >> 8; p[1] = v >> 16; p[0] = v >> 24; }
#endif
