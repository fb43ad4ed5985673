/* C model of the SSE2/MMX intrinsics used by gosthash2012 (Intel SDM
 * semantics), for the symbolic build; the native replay uses the real ones */
#ifndef SSE_MODEL_H
#define SSE_MODEL_H
#define _EMMINTRIN_H_INCLUDED
#define _MMINTRIN_H_INCLUDED
#define _PMMINTRIN_H_INCLUDED
#define _XMMINTRIN_H_INCLUDED
#define _X86INTRIN_H_INCLUDED
#define _X86GPRINTRIN_H_INCLUDED
#define _IMMINTRIN_H_INCLUDED
#define _TMMINTRIN_H_INCLUDED
#define _SMMINTRIN_H_INCLUDED
typedef struct { unsigned long long q[2]; } __m128i;
typedef unsigned long long __m64;
static inline __m128i _mm_xor_si128(__m128i a, __m128i b) { __m128i r; r.q[0] = a.q[0] ^ b.q[0]; r.q[1] = a.q[1] ^ b.q[1]; return r; }
static inline __m128i _mm_and_si128(__m128i a, __m128i b) { __m128i r; r.q[0] = a.q[0] & b.q[0]; r.q[1] = a.q[1] & b.q[1]; return r; }
static inline __m128i _mm_or_si128(__m128i a, __m128i b) { __m128i r; r.q[0] = a.q[0] | b.q[0]; r.q[1] = a.q[1] | b.q[1]; return r; }
static inline __m128i _mm_setzero_si128(void) { __m128i r; r.q[0] = r.q[1] = 0; return r; }
static inline __m128i sse_ld(const __m128i *p) { const unsigned long long *s = (const unsigned long long *)p; __m128i r; r.q[0] = s[0]; r.q[1] = s[1]; return r; }
static inline void sse_st(__m128i *p, __m128i v) { unsigned long long *s = (unsigned long long *)p; s[0] = v.q[0]; s[1] = v.q[1]; }
static inline __m128i _mm_loadu_si128(const __m128i *p) { return sse_ld(p); }
static inline __m128i _mm_lddqu_si128(const __m128i *p) { return sse_ld(p); }
static inline __m128i _mm_load_si128(const __m128i *p) { return sse_ld(p); }
static inline void _mm_store_si128(__m128i *p, __m128i v) { sse_st(p, v); }
static inline void _mm_storeu_si128(__m128i *p, __m128i v) { sse_st(p, v); }
static inline int _mm_extract_epi16(__m128i a, int i) { return (a.q[(i & 7) / 4] >> 16 * (i & 3)) & 0xffff; }
static inline __m128i _mm_cvtsi64_si128(long long v) { __m128i r; r.q[0] = v; r.q[1] = 0; return r; }
static inline long long _mm_cvtsi128_si64(__m128i v) { return v.q[0]; }
static inline __m128i _mm_unpacklo_epi64(__m128i a, __m128i b) { __m128i r; r.q[0] = a.q[0]; r.q[1] = b.q[0]; return r; }
static inline __m128i _mm_unpackhi_epi64(__m128i a, __m128i b) { __m128i r; r.q[0] = a.q[1]; r.q[1] = b.q[1]; return r; }
static inline __m64 _mm_xor_si64(__m64 a, __m64 b) { return a ^ b; }
static inline __m128i _mm_set_epi64(__m64 h, __m64 l) { __m128i r; r.q[0] = l; r.q[1] = h; return r; }
static inline void _mm_empty(void) { }
static inline unsigned char _addcarry_u64(unsigned char c, unsigned long long a, unsigned long long b, unsigned long long *o)
{ unsigned long long s = a + b, t = s + (c != 0); *o = t; return s < a || t < s; }
static inline unsigned char _subborrow_u64(unsigned char c, unsigned long long a, unsigned long long b, unsigned long long *o)
{ unsigned long long s = a - b, t = s - (c != 0); *o = t; return a < b || s < (unsigned long long)(c != 0); }
#endif
