from reg.common import *
from reg.P24 import BN
K1, K2, K0 = "NID_id_GostR3410_2012_256", "NID_id_GostR3410_2012_512", "NID_id_GostR3410_2001"
MG, KZ = "NID_magma_ctr", "NID_grasshopper_ctr"
Z, A = "NID_id_tc26_gost_28147_param_Z", "NID_id_Gost28147_89_CryptoPro_A_ParamSet"
ABS = "VKO, KDF_TREE, CryptoPro wrapping and KExp15/KImp15 as uninterpreted functions (decided by P26, P20, P19, P18); ASN.1 decoding yields any structure of the stated shapes"
def tr(name, mode, *d, **kw):
    f = any("FAULTS" in x for x in d)
    a = dict(native=("gost_ec_sign.c",) if mode < 2 else (), models=("misc", "evp_model", "obj", "omodel", "bnmodel", "pkmodel"), unwind=130, unwindset=("gost_ec_keygen.0:2",), solvers=("z3", "cvc5"), fallback=(), timeout=150, mem=not (mode >= 2 and (f or "-DSHAPES" in d)),
             defs=("-DMODE=%d" % mode, "-DVP_OWN_PKEY", "-DVKOABS", "-DKDFABS") + (() if f else ("-DFAULTS=0",)) + d,
             wkey="faults" if f else "shapes" if "-DSHAPES" in d else "tr%d" % mode, assumptions=[BN, ABS])
    a.update(kw)
    return Job(name, "transport.c", {"gost_ec_keyx.c": ["VKO_compute_key"], "gost_crypt.c": [], "gost_params.c": [], **({"gost_ec_sign.c": ["gost_ec_point_mul"]} if mode >= 2 else {})}, **a)
JOBS = []
for i, (pk, c) in enumerate(((K1, Z), (K2, Z), (K0, A))):
    JOBS.append(tr("cp_dec_%d" % i, 0, "-DPK=" + pk, "-DCIP=" + c, bounds="%s: every UKM, wrapped key, MAC" % pk))
JOBS += [tr("cp_dec_shapes", 0, "-DPK=" + K1, "-DSHAPES", bounds="UKM 0,7,8,9 x key 0,31,32,33 x MAC 0,3,4,5 bytes; ephemeral key absent, foreign, other curve, incomplete, undecodable; unknown ciphers"),
         tr("cp_dec_faults", 0, "-DPK=" + K1, "-DFAULTS=12", bounds="any one of the fallible calls fails")]
for i, (pk, cn, pre) in enumerate(((K1, MG, 0), (K2, KZ, 0), (K1, KZ, 32), (K2, MG, 32))):
    JOBS.append(tr("ps_dec_%d" % i, 1, "-DPK=" + pk, "-DCN=" + cn, "-DPRE=%d" % pre, bounds="%s, %s, UKM %s: every UKM and exported key" % (pk, cn, "from the blob" if not pre else "preset")))
for i, (pk, cn) in enumerate(((K1, MG), (K2, KZ))):
    JOBS.append(tr("ps_dec_shapes_%d" % i, 1, "-DPK=" + pk, "-DCN=" + cn, "-DSHAPES", bounds="exported key of 0,39..41,47..49 bytes; UKM absent, 0,8,31,32 bytes; preset UKM 0,8,16,31; ephemeral key absent, of another algorithm, other curve, incomplete, undecodable"))
JOBS += [tr("ps_dec_faults", 1, "-DPK=" + K1, "-DCN=" + KZ, "-DFAULTS=12", bounds="any one of the fallible calls fails")]
for i, (pk, own, pre) in enumerate(((K1, 0, 8), (K2, 1, 8), (K0, 0, 0))):
    JOBS.append(tr("cp_enc_%d" % i, 2, "-DPK=" + pk, "-DCN=NID_undef", "-DOWN=%d" % own, "-DPRE=%d" % pre, bounds="%s, %s key: every session key, UKM, ephemeral key" % (pk, "static" if own else "ephemeral")))
for i, (pk, cn, own, pre) in enumerate(((K1, MG, 0, 32), (K2, KZ, 0, 0))):
    JOBS.append(tr("ps_enc_%d" % i, 3, "-DPK=" + pk, "-DCN=" + cn, "-DOWN=%d" % own, "-DPRE=%d" % pre, bounds="%s, %s: every session key, UKM, ephemeral key" % (pk, cn)))
for m, n, cn in ((2, "cp", "NID_undef"), (3, "ps", MG)):
    JOBS += [tr(n + "_enc_shapes", m, "-DPK=" + K1, "-DCN=" + cn, "-DSHAPES", bounds="session keys of 31..33 bytes, buffers one short, exact, larger, length queries, static key with and without private part"),
             *[tr(n + "_enc_faults%d" % q, m, "-DPK=" + K1, "-DCN=" + cn, "-DOWN=0", "-DPRE=0", "-DQUERY=0", "-DF0=%d" % q, "-DFAULTS=%d" % (q + 9), "-DLAST=%d" % (q == 18), bounds="any one of the fallible calls fails (%d..%d)" % (q, q + 8)) for q in (0, 9, 18)],
             tr(n + "_enc_qfaults", m, "-DPK=" + K1, "-DCN=" + cn, "-DOWN=0", "-DPRE=0", "-DQUERY=1", "-DFAULTS=26", bounds="length query; any one of the fallible calls fails")]
