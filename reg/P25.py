from reg.common import *
from reg.P28 import DER, K0, K1, K2
BB = "BIGNUMs as their exact bytes, points as their coordinates (libcrypto by contract, no arithmetic); gost_ec_sign/gost_ec_verify by contract (P24)"
def cd(name, mode, pk, nb, *d, **kw):
    f = any("FAULTS" in x for x in d)
    a = dict(udefs=("-Dmemset=vp_memset",), cb=("--max-field-sensitivity-array-size", "256"), models=("misc", "obj", "bytebn", "pkmodel"), unwind=220, solvers=("z3", "cvc5"), fallback=(), timeout=150, mem="-DSYM" not in d and not f,
             defs=("-DMODE=%d" % mode, "-DPK=" + pk, "-DVP_BYTEBN=%d" % nb, "-DVP_OWN_PKEY", "-DVP_DER", "-DVP_STRMAX=140", "-Dmemset=vp_memset") + d,
             wkey="cd%d" % mode + ("f" if f else "s" if "-DSHAPES" in d else ""), assumptions=[BB, DER])
    a.update(kw)
    return Job(name, "codec.c", {"gost_ameth.c": [], "gost_pmeth.c": []}, **a)
JOBS = []
for t, pk in (("256", K1), ("512", K2)):
    JOBS += [cd("sign_" + t, 0, pk, 64, "-DSYM", bounds="every r, s with one of them of 1, all-1 or all bytes"), cd("verify_" + t, 1, pk, 64, "-DSYM", bounds="every signature; verification true, false, error"),
             cd("pubenc_" + t, 3, pk, 64, "-DSYM", bounds="all coordinates, one of them of 0, all-1 or all bytes"), cd("pubdec_" + t, 4, pk, 64, "-DSYM", bounds="all coordinates"),
             cd("privenc_" + t, 5, pk, 64, "-DSYM", "-DWRAP=0", bounds="every private key of 0, 1, all-1 and all bytes"), cd("privwrap_" + t, 5, pk, 64, "-DSYM", "-DWRAP=1", bounds="every private key of 0, 1, all-1 and all bytes, octet string form")]
JOBS += [*[cd("store%d" % lo, 2, K1, 66, "-DSYM", "-DLO=%d" % lo, "-DHI=%d" % hi, wkey="cd2", bounds="every number of %d..%d bytes into 0, 1, 2, 31, 32, 33, 63, 64, 65 bytes" % (lo, hi)) for lo, hi in ((0, 3), (31, 33), (62, 63), (64, 65))],
         cd("sign_shapes", 0, K1, 64, "-DSHAPES", bounds="all algorithms; no buffer, buffers one short, exact, one longer, empty; failing signature"),
         cd("verify_shapes", 1, K1, 66, "-DSHAPES", bounds="all algorithms; signatures of 0..2, 32, 62..66, 96, 126..130 bytes; no signature, no key"),
         cd("pubenc_shapes", 3, K1, 64, "-DSHAPES", bounds="all algorithms; no key, no public part, no group, short coordinates"),
         *[cd("pubdec_shapes%d" % i, 4, K1, 66, "-DSHAPES", "-DAI=%d" % i, bounds="algorithm %d of 4; contents of 0..2, 32, 62..66, 96, 126..130 bytes, truncated, wrong tag, bad parameters, not on the curve" % i) for i in range(4)],
         cd("privenc_shapes", 5, K1, 64, "-DSHAPES", bounds="all algorithms; all formats; no key, no private part; short numbers")]
for m, n, d in ((0, "sign", ()), (1, "verify", ()), (3, "pubenc", ()), (4, "pubdec", ()), (5, "privenc", ("-DWRAP=0",)), (5, "privwrap", ("-DWRAP=1",))):
    JOBS.append(cd(n + "_faults", m, K1, 32, "-DFAULTS=20", *d, bounds="any one of the fallible calls fails"))
