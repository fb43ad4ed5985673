#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the statements live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "GOST 28147-89 / Magma block cipher computes the standard transform",
  "For every key, plaintext block and S-box set, the 64-bit block encryption equals the 32-round GOST 28147-89 / GOST R 34.12-2015 Magma transform of the standard, the result does not depend on the random key mask, and block decryption is its exact inverse. This holds for both byte-order conventions and for every S-box set the library ships.",
  ["inputs"], "all 2^256 keys, all 2^64 blocks, all masks, arbitrary S-box tables and every shipped one",
  "Tests encrypt a handful of vectors under one or two S-box sets; a wrong S-box entry, round-key index or byte swap can sit on inputs they never reach.",
  ["gost89.c"], [("32-round Feistel in both byte orders", "gost89.c gostcrypt/gostdecrypt/magmacrypt/magmadecrypt"), ("S-box expansion", "gost89.c kboxinit"), ("ECB helpers", "gost89.c gost_enc/gost_dec")])
p("P02", "28147-89/Magma key loading, read-back, meshing and wiping are mask-exact",
  "For every key and every random mask, loading a key and reading it back returns the same bytes in the right byte order, the masked and unmasked load paths yield the same cipher, and key meshing (CryptoPro and ACPKM) derives exactly the specified next key (and IV) from the current one. Destroying a cipher context leaves no key or mask material in it.",
  ["inputs"], "all keys, masks, IVs", "Tests only see end-to-end vectors with one RNG mask per run and never inspect state after destroy.",
  ["gost89.c"], [("masked key storage", "gost89.c gost_key/gost_get_key/magma_key/magma_get_key"), ("meshing", "gost89.c cryptopro_key_meshing, acpkm_magma_key_meshing"), ("wiping", "gost89.c gost_destroy")])
p("P03", "Kuznyechik block cipher equals GOST R 34.12-2015 and decryption inverts it",
  "For every key and block, Kuznyechik encryption equals the 10-round LSX network of GOST R 34.12-2015 with the standard's S-box, linear transform and key schedule, decryption is its exact inverse, and the precomputed tables used to speed it up agree with the standard at every index. The ACPKM key update derives exactly the specified section key.",
  ["inputs"], "all keys, all blocks, every table index", "65536-entry precomputed tables and a 16-byte linear layer are exercised by tests at only a few entries.",
  ["gost_grasshopper_core.c", "gost_grasshopper_defines.c", "gost_grasshopper_precompiled.c", "gost_grasshopper_galois_precompiled.c", "gost_grasshopper_cipher.c"],
  [("LSX rounds", "gost_grasshopper_core.c grasshopper_encrypt_block/decrypt_block"), ("key schedule", "gost_grasshopper_core.c grasshopper_set_encrypt_key/decrypt_key")])
p("P04", "Streebog compression function and its precomputed tables follow the standard",
  "For every state, counter and message block the hash compression step used in the build equals the GOST R 34.11-2012 compression function g_N (S, P and L transforms, 12 rounds, the standard's round constants), and every entry of the precomputed tables equals L applied to the S-box image. The accelerated and portable code paths agree.",
  ["inputs"], "all 512-bit states, counters and blocks, every table index", "Tests hash a few dozen messages; of 2048 64-bit table entries and 12 round constants a corrupted one can be missed and path differences between CPU variants are not compared.",
  ["gosthash2012.c", "gosthash2012_precalc.h", "gosthash2012_const.h", "gosthash2012_ref.h", "gosthash2012_sse2.h"],
  [("g_N", "gosthash2012.c g"), ("XLPS", "gosthash2012_sse2.h/gosthash2012_ref.h")])
p("P05", "Streebog digests depend only on the message, not on how it is fed",
  "For every message and every way of splitting it over update calls (including empty and unaligned ones), the 256/512-bit digest is that of the standard: correct padding, correct bit counter and checksum with full carry propagation, correct IV and truncation. Input buffers are never read out of range and contexts can be reused after re-initialisation.",
  ["inputs", "histories"], "all messages and update splits within the bounds, all checksum/counter states", "The tests split a few fixed messages; 512-bit carry chains and block-boundary splits are value-dependent.",
  ["gosthash2012.c", "gost_md2012.c"], [("streaming", "gosthash2012.c gost2012_hash_block/gost2012_finish_hash"), ("carry", "gosthash2012.c add512"), ("EVP glue", "gost_md2012.c")])
p("P06", "GOST R 34.11-94 digest computes the standard hash for any chunking",
  "For every message and every split over update calls, the GOST R 34.11-94 digest equals the standard's: the step function, the 256-bit control sum with carries, the length block and zero padding are exact. Re-initialising a digest object yields the digest of the new message only.",
  ["inputs", "histories"], "all step-function inputs; all messages/splits within the bounds", "Value-dependent carries and buffer boundaries are reached by tests only for a few fixed strings.",
  ["gosthash.c", "gost_md.c"], [("step function", "gosthash.c hash_step"), ("streaming", "gosthash.c hash_block/finish_hash"), ("EVP glue", "gost_md.c")])
p("P07", "GOST 28147-89 CFB: exact stream, split-independent, decrypt inverts encrypt",
  "For every key, IV, data length and way of splitting the data over update calls, GOST 28147-89 CFB encryption produces the standard's CFB stream with CryptoPro key meshing after each 1024 bytes where enabled, and decryption (also in place) with the same key and IV restores the plaintext. No byte outside the given output range is written.",
  ["inputs", "histories"], "all keys/IVs/data, update splits within the bounds, both sides of the 1 KB meshing boundary", "Tests use a few whole-message vectors; partial-block carry-over at meshing boundaries is split-dependent.",
  ["gost_crypt.c", "gost89.c"], [("CFB streaming", "gost_crypt.c gost_cipher_do_cfb"), ("meshing", "gost_crypt.c gost_crypt_mesh")])
p("P08", "GOST 28147-89 CNT gamma: exact counter recurrence and split independence",
  "For every key, IV, length and split over update calls, GOST 28147-89 counter mode XORs the data with the standard's gamma: both 32-bit halves follow the standard's addition (mod 2^32 and mod 2^32-1) including wrap-around, with key meshing every 1024 bytes where enabled. Applying it twice restores the data.",
  ["inputs", "histories"], "all counter values including wrap, all splits within the bounds", "Counter wrap-around needs specific IVs that tests do not contain.",
  ["gost_crypt.c"], [("gamma step", "gost_crypt.c gost_cnt_next"), ("streaming", "gost_crypt.c gost_cipher_do_cnt")])
p("P09", "ECB and CBC modes of both block ciphers chain correctly and invert",
  "For every key, IV and block-aligned message, GOST 28147-89 CBC, Magma ECB/CBC and Kuznyechik ECB/CBC produce the standard's ciphertext, chain correctly over any block-aligned split of update calls, and decrypt back to the plaintext, including in-place operation. The chaining value left in the context is the last ciphertext block.",
  ["inputs", "histories"], "all keys/IVs/blocks, all block-aligned splits within the bounds, in-place and out-of-place", "Tests use single-call whole vectors; in-place CBC decryption and multi-call chaining are only sampled.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c"], [("CBC/ECB", "gost_crypt.c gost_cipher_do_cbc, magma_cipher_do_ecb, magma_cipher_do_cbc"), ("CBC/ECB", "gost_grasshopper_cipher.c gost_grasshopper_cipher_do_ecb/do_cbc")])
p("P10", "CTR modes of Magma and Kuznyechik: exact keystream for any split",
  "For every key, IV, length and split over update calls, Magma-CTR and Kuznyechik-CTR XOR the data with E(IV||0), E(IV||1), ... with a full-width big-endian counter (carry through all counter bytes), independent of how the data was split. Encrypting twice restores the data and no byte outside the range is touched.",
  ["inputs", "histories"], "all keys, counter values, lengths/splits within the bounds", "Carry propagation past the low counter byte and mid-block resumption are value- and split-dependent.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c"], [("Magma CTR", "gost_crypt.c magma_cipher_do_ctr, ctr64_inc"), ("Kuznyechik CTR", "gost_grasshopper_cipher.c gost_grasshopper_cipher_do_ctr")])
p("P11", "CTR-ACPKM re-keys exactly at section boundaries for any split",
  "For every key, section size, length and split over update calls, Magma and Kuznyechik CTR-ACPKM apply the ACPKM key update exactly when a section of the configured size is exhausted and more data follows, and the counter continues across sections. The output does not depend on how data was split over calls.",
  ["inputs", "histories"], "all keys/IVs, section sizes and splits within the bounds", "The few vectors use one section size and one split each.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost89.c"], [("re-key", "gost_crypt.c apply_acpkm_magma"), ("re-key", "gost_grasshopper_cipher.c gost_grasshopper_cipher_do_ctracpkm")])
p("P12", "CTR-ACPKM-OMAC authenticated encryption: right tag, tampering rejected",
  "For every key, IV, seed and message, the CTR-ACPKM-OMAC ciphers encrypt with and MAC with the keys derived from the master key by the KDF tree using the IV's seed half, output ciphertext and encrypted MAC exactly as specified, and on decryption accept only if the received MAC matches over the decrypted text. A wrong tag, a missing tag or a failing sub-operation never yields success.",
  ["inputs", "fault_sequences"], "all keys/seeds/messages/tags within the bounds; sub-operation failures", "Tests use one happy-path vector; tag-compare and failure paths are not enumerated.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c"], [("final", "gost_gost2015.c gost2015_final_call"), ("dispatch", "gost_crypt.c magma_cipher_do_ctr_acpkm_omac; gost_grasshopper_cipher.c gost_grasshopper_cipher_do_ctracpkm_omac")])
p("P13", "Kuznyechik OFB and CFB: exact stream, split-independent, invertible",
  "For every key, IV, length and split over update calls, Kuznyechik OFB and CFB produce the GOST R 34.13-2015 stream with resumption at any byte position, and decryption (also in place) restores the plaintext. No byte outside the given range is written.",
  ["inputs", "histories"], "all keys/IVs/data, splits within the bounds", "Resumption in the middle of a block is split-dependent; tests use fixed block-aligned calls.",
  ["gost_grasshopper_cipher.c"], [("OFB", "gost_grasshopper_cipher.c gost_grasshopper_cipher_do_ofb"), ("CFB", "gost_grasshopper_cipher.c gost_grasshopper_cipher_do_cfb")])
p("P14", "MGM AEAD: standard tag and ciphertext, forged tags rejected, any split",
  "For every key, nonce, associated data and message (each possibly empty) and every split over update calls, Magma-MGM and Kuznyechik-MGM produce the ciphertext and tag of GOST R 34.13 MGM; decryption returns the plaintext and succeeds iff the tag matches. A forged or missing tag is reported as failure, a nonce is used for one message only, and the length limits of the mode are enforced.",
  ["inputs", "histories"], "all keys/nonces/AAD/messages/tags and splits within the bounds", "The tests use four vectors with non-empty AAD in whole calls.",
  ["gost_gost2015.c", "gost_crypt.c", "gost_grasshopper_cipher.c"], [("MGM core", "gost_gost2015.c gost_mgm128_*"), ("glue", "gost_crypt.c gost_magma_cipher_do_mgm; gost_grasshopper_cipher.c gost_grasshopper_cipher_do_mgm")])
p("P15", "Galois field multiplications used by MGM are exact",
  "For all operands, the GF(2^64) and GF(2^128) multiplications used for MGM authentication equal carry-less multiplication modulo x^64+x^4+x^3+x+1 and x^128+x^7+x^2+x+1 respectively. They do not depend on operand aliasing used by the callers.",
  ["inputs"], "all operand pairs", "2^128 / 2^256 operand pairs; tests see a dozen.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c"], [("gf64_mul", "gost_crypt.c"), ("gf128_mul_uint64", "gost_grasshopper_cipher.c")])
p("P16", "GOST 28147-89 MAC (imitovstavka) is exact for any length and split",
  "For every key, message and split over update calls, the GOST 28147-89 MAC equals the standard's 16-round CBC-type MAC with CryptoPro key meshing after every 1024 bytes where enabled, messages of one block or less padded with an additional zero block, and truncated to the configured size. The low-level MAC helpers with IV and arbitrary bit lengths agree with it; using the MAC without a key is refused.",
  ["inputs", "histories"], "all keys/messages, splits within the bounds, all MAC sizes", "Tests MAC a few files with one split; bit-granular truncation is never tested.",
  ["gost_crypt.c", "gost89.c"], [("EVP MAC", "gost_crypt.c gost_imit_update/gost_imit_final/gost_imit_ctrl"), ("block MAC", "gost89.c mac_block/get_mac/gost_mac/gost_mac_iv")])
p("P17", "OMAC and OMAC-ACPKM compute the standard CMAC and report every failure",
  "OMAC digests key and feed the block cipher CMAC with exactly the data given, truncate to the configured size, and refuse use without a key or with invalid sizes. OMAC-ACPKM computes, for every key, message, split and section size, the CMAC whose section keys and K1 come from the ACPKM-Master key stream; any failure of an underlying operation is reported as failure, never as success with a wrong tag.",
  ["inputs", "histories", "fault_sequences"], "all keys/messages/splits within the bounds; underlying failures", "Failure paths and section-boundary cases are not sampled.",
  ["gost_omac.c", "gost_omac_acpkm.c"], [("OMAC", "gost_omac.c"), ("CMAC-ACPKM", "gost_omac_acpkm.c CMAC_ACPKM_*")])
p("P18", "KExp15/KImp15 round-trip keys and reject any altered export",
  "For every shared key, IV, MAC key and cipher choice, exporting a key with KExp15 yields the encrypted key||OMAC(IV||key) and importing returns the key exactly when the embedded MAC matches. Any altered, truncated or over-long export is rejected, nothing outside the caller's buffers is touched, and key-wrap ciphers built on it report failed unwraps as failure.",
  ["inputs", "fault_sequences"], "all keys, IVs, exported blobs and lengths within the bounds; sub-operation failures", "Tests have one vector per cipher.",
  ["gost_keyexpimp.c", "gost_grasshopper_cipher.c", "gost_crypt.c"], [("KExp/KImp", "gost_keyexpimp.c gost_kexp15/gost_kimp15"), ("wrap ciphers", "gost_keyexpimp.c magma_wrap_do/kuznyechik_wrap_do")])
p("P19", "CryptoPro key wrap round-trips and rejects a wrong MAC",
  "For every KEK, UKM and session key, CryptoPro key wrap (RFC 4357) encrypts the key under the diversified KEK and appends the 4-byte MAC keyed with IV=UKM, and unwrap returns the same key; a blob whose MAC does not match is rejected. KEK diversification follows the RFC for every UKM byte.",
  ["inputs"], "all KEKs, UKMs, session keys and blobs", "Tests unwrap a couple of containers.",
  ["gost_keywrap.c", "gost89.c"], [("wrap", "gost_keywrap.c keyWrapCryptoPro/keyUnwrapCryptoPro"), ("diversify", "gost_keywrap.c keyDiversifyCryptoPro")])
p("P20", "KDF_TREE and TLSTREE derive exactly the specified key material",
  "For every key, label, seed, counter-representation width and output length, KDF_TREE_GOSTR3411_2012_256 concatenates the HMAC blocks over counter||label||0||seed||length with the right big-endian encodings, and refuses lengths or widths it cannot encode. TLSTREE masks the record sequence number with the suite's constants so that keys change exactly when the masked counters change.",
  ["inputs"], "all labels/seeds/lengths within the bounds, all sequence numbers", "Tests derive one key from one sequence number per suite.",
  ["gost_keyexpimp.c"], [("KDF", "gost_keyexpimp.c gost_kdftree2012_256"), ("TLSTREE", "gost_keyexpimp.c gost_tlstree")])
p("P21", "Copying a cipher, digest or MAC context gives an independent equal stream",
  "Duplicating a partially used cipher, digest or MAC context yields one that continues exactly like the original, and using or freeing either never affects the other. This holds at every point of the stream, including mid-block and for authenticated modes.",
  ["histories"], "copy at every point within the bounds, either order of continued use", "Tests copy a few digest contexts only.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_md.c", "gost_md2012.c", "gost_omac.c", "gost_omac_acpkm.c"], [("copy hooks", "gost_imit_copy, *_digest_copy, omac_imit_copy, EVP_CTRL_COPY handlers")])
p("P22", "Re-initialising a cipher context behaves like a fresh context",
  "Initialising an already used cipher context with a new key and IV gives exactly the output of a fresh context with that key and IV, whatever was processed before. In particular no leftover gamma bytes, counters, meshing position or section counters survive.",
  ["histories"], "all prior data lengths within the bounds, all keys/IVs", "Tests reuse contexts only after full-block messages, if at all.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c"], [("init", "gost_crypt.c gost_cipher_init_param, gost_cipher_init_cnt, magma_cipher_init; gost_grasshopper_cipher.c gost_grasshopper_cipher_init*")])
p("P23", "Cipher ASN.1 parameters round-trip and malformed ones are rejected",
  "Writing cipher parameters to ASN.1 and reading them back restores the same IV/UKM and parameter set; parameters that are missing, of the wrong type, malformed or of the wrong length are rejected with an error and leave no out-of-range access. No failed parse is reported as success.",
  ["inputs", "fault_sequences"], "all IV/UKM values, all decoded shapes and lengths within the bounds", "Tests only parse well-formed parameters.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_params.c"], [("GOST 28147", "gost_crypt.c gost89_set/get_asn1_parameters"), ("2015 ciphers", "gost_gost2015.c gost2015_get/set_asn1_params")])
p("P24", "GOST R 34.10 sign/verify follow the standard's equations and range checks",
  "Signing computes r = x(kG) mod q and s = rd + ke mod q with e=0 replaced by 1, retrying on r=0 or s=0, and verification accepts only when 0<r,s<q and x(z1 G + z2 Q) mod q = r with z1 = s/e, z2 = -r/e mod q. Any failing sub-operation makes signing return no signature and verification not accept.",
  ["inputs", "fault_sequences"], "all digests, keys, nonces and signature values in a small model field; every single and multiple sub-operation failure", "Degenerate values (r=0, s=0, e=0, r>=q) have probability ~2^-256 in random tests.",
  ["gost_ec_sign.c"], [("sign", "gost_ec_sign.c gost_ec_sign"), ("verify", "gost_ec_sign.c gost_ec_verify"), ("public key", "gost_ec_sign.c gost_ec_compute_public")])
p("P25", "Signature and key encodings are fixed-length, exact and length-checked",
  "Signatures are encoded as s||r with each number left-padded to half the length and decode to the same pair; raw numbers are stored right-aligned with zero padding or refused when too long. A signature or key of a length other than the algorithm's is rejected rather than truncated, over-read or accepted.",
  ["inputs"], "all number values and buffer lengths within the bounds", "Tests use well-formed signatures whose numbers rarely have leading zero bytes.",
  ["gost_ec_sign.c", "gost_pmeth.c", "gost_ameth.c"], [("packing", "gost_pmeth.c pack_sign_cp, gost_ameth.c/gost_ec_sign.c store_bignum"), ("verify glue", "gost_pmeth.c pkey_gost_ec_cp_verify")])
p("P26", "VKO and KEG key agreement follow the specified derivation",
  "VKO hashes the little-endian affine coordinates of (UKM*d mod q)*Q, with the UKM read little-endian (VKO 2001/2012), and KEG selects hash and tree expansion by key size as specified, using UKM 1 when the first half is zero. Key derivation refuses missing keys, wrong UKM lengths and short output buffers and fails when any sub-operation fails.",
  ["inputs", "fault_sequences"], "all UKM bytes and sizes within the bounds, sub-operation failures", "Only symmetric two-party agreement is tested, which cannot see a wrong-but-symmetric derivation.",
  ["gost_ec_keyx.c"], [("VKO", "gost_ec_keyx.c VKO_compute_key"), ("KEG", "gost_ec_keyx.c gost_keg, pkey_gost_ec_derive")])
p("P27", "Key-transport decryption rejects malformed blobs without crashing",
  "Decrypting a GOST key-transport blob (2001/2012 CryptoPro and 2018) with any field lengths returns the session key only if the integrity check passes, and otherwise fails with an error. No decoded blob makes it crash, abort, read out of range, leak or return unchecked key bytes.",
  ["inputs", "fault_sequences"], "all decoded blob shapes and field lengths within the bounds; sub-operation failures", "Tests only decrypt blobs the library itself produced.",
  ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c"], [("2001/2012", "gost_ec_keyx.c pkey_GOST_ECcp_decrypt"), ("2018", "gost_ec_keyx.c pkey_gost2018_decrypt")])
p("P28", "Private key decoding handles every length and unmasks exactly",
  "Decoding a private key multiplies the masked value by all masks mod q (right byte order), accepts exactly the specified encodings and lengths, and rejects every other length or type. No encoding makes it read out of range or install an empty or garbage key.",
  ["inputs", "fault_sequences"], "all decoded shapes, lengths and mask counts within the bounds", "Tests decode a few well-formed keys.",
  ["gost_ameth.c"], [("decode", "gost_ameth.c priv_decode_gost"), ("unmask", "gost_ameth.c unmask_priv_key")])
p("P29", "Control operations validate their arguments and change only what they name",
  "Every control operation of the cipher, digest, MAC and public-key methods rejects out-of-range, null or wrong-length arguments with an error and without out-of-range access or state change, and accepts and stores legal ones. String controls accept exactly the documented parameter-set names and map them to the right identifiers.",
  ["inputs", "histories"], "all command codes used by the methods, all integer arguments and pointer-nullness", "Tests pass legal arguments.",
  ["gost_pmeth.c", "gost_crypt.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_grasshopper_cipher.c", "gost_gost2015.c"], [("pkey ctrl", "gost_pmeth.c pkey_gost_ctrl, pkey_gost_mac_ctrl*"), ("cipher ctrl", "gost_crypt.c gost_cipher_ctl, magma_cipher_ctl, gost_magma_mgm_ctrl")])
p("P30", "Curve field arithmetic is exact for all operands within the stated ranges",
  "For every curve's field implementation, multiplication, squaring, addition, subtraction, negation, carrying and byte conversion equal the operation modulo the curve's prime for all operands within the representation's limb bounds, and results stay within bounds. No intermediate overflows.",
  ["inputs"], "all operands within limb bounds, all 8 field implementations", "Carry bugs need operands with probability ~2^-64; tests do a few scalar multiplications.",
  ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_B_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_C_ParamSet.c", "ecp_id_GostR3410_2001_TestParamSet.c", "ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetB.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c"],
  [("field ops", "ecp_*.c fiat_*")])
p("P31", "Scalar multiplication reduces to the right sum of table points",
  "For every scalar, the recodings used by fixed-base, variable-base and double scalar multiplication are digit expansions whose weighted sum is the scalar with all digits in table range, and the multiplication loops consume exactly those digits. The curve selection by group identifier picks the implementation of that very curve.",
  ["inputs"], "all scalars, all curve identifiers", "Tests multiply by a few random scalars; borderline digit patterns are rare.",
  ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "gost_ec_sign.c"], [("recoding", "ecp_*.c scalar_rwnaf/scalar_wnaf"), ("dispatch", "gost_ec_sign.c gost_ec_point_mul")])
p("P32", "Elliptic-curve point formulas implement the group law",
  "For every curve, the point doubling, mixed addition and full addition formulas equal the affine group law as rational identities (complete formulas for the model in use), conversions between Weierstrass and Edwards models are mutually inverse, and the built-in generator satisfies the curve equation with the group parameters published for it.",
  ["inputs"], "all points (polynomial identity over the field)", "Exceptional inputs (doubling via addition, identity) are not sampled.",
  ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_tc26_gost_3410_2012_256_paramSetA.c"], [("formulas", "ecp_*.c point_double/point_add_mixed/point_add_proj")])
p("P33", "Engine parameters: private copies, environment first, bad numbers refused",
  "Setting an engine parameter stores a private copy (of the environment variable's value if that is present, else of the passed string) that later reads return unchanged until the next setting or reset; a parameter never set is taken from its environment variable, and reads as absent without one; an unknown parameter number is refused and changes nothing; resetting frees everything and never double-frees. Setting through the engine control interface maps each command to its own parameter.",
  ["histories"], "all sequences of set/get/reset within the bounds, allocation failures", "Tests never set parameters twice or out of range.",
  ["gost_ctl.c"], [("params", "gost_ctl.c gost_set_default_param/get_gost_engine_param/gost_param_free/gost_control_func")])
p("P34", "gost12sum check-file parsing accepts only well-formed lines, memory-safely",
  "For every input line of the checksum file format, parsing either yields the hash digits and file name exactly as written or reports the line as malformed; no input makes the tool read or write outside its buffers.",
  ["inputs"], "all line contents up to the bound", "Tests check well-formed files.",
  ["gost12sum.c"], [("line parsing", "gost12sum.c get_line, check mode")])
p("P35", "Internal failures are reported, never turned into success",
  "When the random generator, an allocation or an underlying digest/cipher/bignum operation fails inside a cipher, MAC, KDF or key operation, the operation reports failure to its caller in the form the caller tests, releases what it acquired and never emits output computed from uninitialised data.",
  ["fault_sequences"], "every combination of failures of the modelled sub-operations", "Tests run without faults.",
  ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_keyexpimp.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_ec_keyx.c", "gost_ec_sign.c"], [("error paths", "all")])
p("P36", "Algorithm lookup tables map every identifier to its own algorithm",
  "Every cipher, digest, MAC and public-key identifier the engine and provider advertise resolves to the implementation with that identifier, and its descriptor has the block size, key length, IV length, mode and digest size the standard prescribes. Unknown identifiers are refused.",
  ["inputs", "configurations"], "all identifiers", "Tests touch algorithms by name, not every attribute and unknown identifiers.",
  ["gost_eng.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_md.c", "gost_md2012.c", "gost_params.c"], [("descriptor templates", "gost_crypt.c GOST_init_cipher"), ("paramset tables", "gost_params.c, gost_crypt.c get_encryption_params")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
