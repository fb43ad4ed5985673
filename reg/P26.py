from reg.common import *
from reg.P24 import BN
MDT = "hash and HMAC as uninterpreted functions of everything they were given (transcripts), /verif/vp/omodel.c"
A1, A2 = "NID_id_GostR3411_2012_256", "NID_id_GostR3411_2012_512"
K1, K2, K0 = "NID_id_GostR3410_2012_256", "NID_id_GostR3410_2012_512", "NID_id_GostR3410_2001"
W = {0: "vko", 1: "derived", 2: "faults"}
def kx(name, mode, *d, **kw):
    a = dict(native=("gost_ec_sign.c",), models=("misc", "evp_model", "obj", "omodel", "bnmodel", "pkmodel"), unwind=150, solvers=("z3", "cvc5"), fallback=(), timeout=120, mem=False,
             defs=("-DMODE=%d" % mode, "-DVP_OWN_PKEY") + d, wkey=W[mode] if kw.get("witness", True) else None, assumptions=[BN, MDT])
    a.update(kw)
    return Job(name, "keyx.c", {"gost_ec_keyx.c": ["VKO_compute_key"] if "-DVKOABS" in d else [], **({} if "-DKDFABS" in d else {"gost_keyexpimp.c": []})}, **a)
JOBS = []
for n, q, p, dg in ((8, 13, 65521, A1), (8, 13, 65521, A2), (16, 11, 251, A2), (1, 7, 251, A1), (2, 7, 65537, A1), (32, 7, 65521, A1), (8, 11, 65521, "NID_id_GostR3411_94")):
    JOBS.append(kx("vko_%d_%d_%d_%s" % (n, q, p, dg[-3:].strip("_")), 0, "-DULEN=%d" % n, "-DQ=%d" % q, "-DPF=%d" % p, "-DDG=" + dg, bounds="UKM of %d bytes, group of order %d, field %d; all UKMs, private keys, points, coordinates" % (n, q, p)))
JOBS += [kx("vko_bad", 0, "-DBAD", "-DQ=7", bounds="missing keys, unknown digest, foreign point")]
for i, (pk, vk, us) in enumerate(((K1, 0, 32), (K2, 0, 32), (K1, 0, 8), (K2, 0, 8), (K0, 0, 8), (K0, 0, 32), (K1, A2, 16), (K2, A1, 8), (K1, A1, 32), (K2, A2, 1))):
    JOBS.append(kx("derive_%d" % i, 1, "-DPK=" + pk, "-DVK=%s" % vk, "-DUS=%d" % us, "-DPF=251", *(("-DQ=19", "-DVKOABS") if us == 32 and not vk else ("-DQ=11",)), *(("-DKDFABS",) if i == 0 else ()), witness=not (pk == K0 and us == 32), bounds="%s, VKO digest %s, UKM of %d bytes; all UKMs, keys, points (KEG: one key pair)" % (pk, vk, us)))
for i, (pk, vk) in enumerate(((K1, 0), (K2, 0), (K0, 0), (K1, A2), (K2, A1))):
    JOBS.append(kx("args_%d" % i, 1, "-DPK=" + pk, "-DVK=%s" % vk, "-DARGS", "-DTINY", "-DQ=5", "-DPF=251", bounds="%s, VKO digest %s: UKM sizes 0,1,7,8,9,16,31,32 x buffer sizes 0..128 x length query/missing peer/private/public key" % (pk, vk)))
for i, (pk, vk, us) in enumerate(((K1, 0, 32), (K2, 0, 32), (K1, A1, 8))):
    JOBS.append(kx("faults_%d" % i, 2, "-DPK=" + pk, "-DVK=%s" % vk, "-DUS=%d" % us, "-DTINY", "-DQ=5", "-DPF=251", "-DFAULTS=%d" % (40 if i == 0 else 20), bounds="%s: any one of the fallible calls fails" % pk))
