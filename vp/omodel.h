/* libcrypto objects as transcripts: keyed/unkeyed hash, MAC and stream-cipher
 * objects whose output is an uninterpreted function of everything absorbed
 * (algorithm, key, IV, data bytes in order - however the data was divided).
 * Natively the uninterpreted functions are a fixed mixing function. */
#ifndef OMODEL_H
#define OMODEL_H
#include "evp_model.h"
#include "misc.h"
u64 tr_abs(u64 s, u64 v);
u8 tr_out(u64 s, u64 i);
u64 tr_bytes(u64 s, const void *p, size_t n);
u64 tr_key(u64 s, const void *p, size_t n);
u64 tr_start(unsigned kind, unsigned nid);
enum { TR_CMAC = 1, TR_HMAC, TR_MD, TR_MAC, TR_CIPH, TR_CBC };
extern EVP_MD *vp_md_reg[4];       /* real digest methods, by registration */
extern const EVP_CIPHER *vp_ci_reg[4];
EVP_CIPHER *vp_abs_cipher(int nid);
EVP_MD *vp_abs_md(int nid);
u64 vp_abs_stream(int nid, const u8 *key, const u8 *iv);
u8 vp_abs_sbyte(u64 s, u64 mesh, u64 i);
void vp_abs_block(u64 ks, const u8 *in, u8 *out, int bl);
#endif
