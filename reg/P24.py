from reg.common import *
BN = "libcrypto's BN/EC layer replaced by an exact model: a cyclic group of the stated prime order with arbitrary coordinates (X(-P)=X(P)); scalar multiplication by its specification (P30-P32)"
def ec(name, mode, q=13, dlen=32, **kw):
    d = ("-DMODE=%d" % mode, "-DQ=%d" % q, "-DDLEN=%d" % dlen)
    a = dict(models=("misc", "bnmodel"), unwind=300 if q > 60 else 70, unwindset=(), solvers=("z3", "sat"), fallback=(), timeout=240, mem=False, defs=d + (("-DVP_CURVE_OK",) if mode == 4 else ()) + tuple(kw.pop("xdefs", ())),
             assumptions=[BN], wkey="ec%d" % mode)
    a.update(kw)
    return Job(name, "ec.c", {**({"gost_params.c": []} if mode == 5 else {}), "gost_ec_sign.c": ["gost_ec_point_mul"] if mode != 4 else []}, **a)
W = ("gost_ec_sign.0:4", "gost_ec_sign.1:4", "gost_ec_keygen.0:4")
W1 = ("gost_ec_sign.0:2", "gost_ec_sign.1:2", "gost_ec_keygen.0:2")
def j(name, mode, **kw):
    return ec(name, mode, unwindset=W1 if "-DTINY" in kw.get("xdefs", ()) else W, **kw)
SG = "all keys, nonces, coordinates, digest residues (every digest byte symbolic); at most 2 nonce draws"
JOBS = [j("sign_7", 0, q=7, bounds="q=7, 32-byte digest; " + SG),
        j("sign64_13", 0, dlen=64, bounds="q=13, 64-byte digest; " + SG),
        j("verify_13", 1, bounds="q=13; all keys, digests, signatures (parts -39..39), coordinates"),
        j("verify64_31", 1, q=31, dlen=64, bounds="q=31, 64-byte digest; all keys, digests, signatures (parts -93..93), coordinates"),
        j("sign_len", 0, q=7, dlen=20, witness=False, bounds="20-byte digest"), j("verify_len", 1, q=7, dlen=33, witness=False, bounds="33-byte digest"),
        j("sign_faults", 0, q=5, xdefs=("-DFAULTS=30", "-DTINY"), bounds="q=5, one key and digest, all nonces, coordinates and signatures; any one of the fallible calls fails"),
        j("verify_faults", 1, q=5, xdefs=("-DFAULTS=30", "-DTINY"), bounds="q=5, one key and digest, all nonces, coordinates and signatures; any one of the fallible calls fails"),
        j("keygen_faults", 2, q=31, xdefs=("-DFAULTS=30", "-DTINY"), bounds="q=31; no or one failing call; at most 2 draws"),
        j("dispatch", 4, q=7, bounds="every parameter-set identifier and one unknown")]
NID = ["cp_A", "cp_B", "cp_C", "xA", "xB", "test", "t256A", "t256B", "t256C", "t256D", "t512A", "t512B", "t512C", "t512Test", "unknown"]
for i, n in enumerate(NID):
    JOBS.append(j("fill_" + n, 5, q=7, xdefs=("-DNIDX=%d" % i, "-DFAULTS=24"), tier="quick" if i in (0, 7, 12, 14) else "thorough", bounds="parameter set %s; any one of the fallible calls fails" % n))
