/* P04: the Streebog compression function g_N, and the 512-bit addition.
 * -DOP 0: g against E_K of the standard (12 rounds, K_{i+1} = LPS(K_i ^ C_i))
 * over the same combined table (whose contents p04_tables.py decides);
 * 1: add512 against byte-serial addition modulo 2^512.  -DPORTABLE: the
 * non-SSE2 code, -DNOADC: the non-intrinsic carry chain */
#include "vp.h"
#ifdef VP_CBMC
# include "sse_model.h"
#endif
#ifdef PORTABLE
# undef __SSE2__
#endif
#undef HAVE_ADDCARRY_U64
#ifndef NOADC
# define HAVE_ADDCARRY_U64
#endif
#include "gosthash2012.c"
static void LPS(u64 *o, const u64 *a, const u64 *b)
{
    u64 r[8]; unsigned i, j;
    for (i = 0; i < 8; i++) { r[i] = 0; for (j = 0; j < 8; j++) r[i] ^= Ax[j][(u8)((a[j] ^ b[j]) >> 8 * i)]; }
    for (i = 0; i < 8; i++) o[i] = r[i];
}
void vp_main(void)
{
    unsigned i;
    uint512_u h, N, m;
    nd_bytes(&h, 64); nd_bytes(&N, 64); nd_bytes(&m, 64);
#if OP == 0
    u64 K[8], s[8], x[8];
    LPS(K, h.QWORD, N.QWORD);
    for (i = 0; i < 8; i++) s[i] = m.QWORD[i];
    for (i = 0; i < 12; i++) { LPS(s, K, s); LPS(K, K, C[i].QWORD); }
    for (i = 0; i < 8; i++) x[i] = s[i] ^ K[i] ^ h.QWORD[i] ^ m.QWORD[i];
    uint512_u N0 = N, m0 = m;
    g(&h, &N, &m);
    for (i = 0; i < 8; i++) VP_ASSERT(h.QWORD[i] == x[i], "g_N differs");
    for (i = 0; i < 8; i++) VP_ASSERT(N.QWORD[i] == N0.QWORD[i] && m.QWORD[i] == m0.QWORD[i], "operand modified");
#else
    uint512_u m0 = m; u64 x[8]; unsigned char c = 0;
    /* addition modulo 2^512: digit sum, carry out iff the sum wrapped */
    for (i = 0; i < 8; i++) {
        u64 t = h.QWORD[i] + m.QWORD[i], v = t + c;
        c = (t < h.QWORD[i]) | (v < t);
        x[i] = v;
    }
    add512(&h, &m);
    for (i = 0; i < 8; i++) VP_ASSERT(h.QWORD[i] == x[i], "512-bit sum differs");
    for (i = 0; i < 8; i++) VP_ASSERT(m.QWORD[i] == m0.QWORD[i], "operand modified");
#endif
    VP_WITNESS("strb");
}
