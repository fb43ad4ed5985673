from reg.common import *
from reg.P24 import BN
DER = "ASN.1 layer by contract: minimal definite-length DER of OCTET STRING and INTEGER; MaskedGostKey and the key parameters decode to any structure of the stated shapes; installing the curve is P24's"
K1, K2, K0 = "NID_id_GostR3410_2012_256", "NID_id_GostR3410_2012_512", "NID_id_GostR3410_2001"
def pd(name, form, el, pk, *d, **kw):
    f = any("FAULTS" in x for x in d)
    a = dict(cb=("--max-field-sensitivity-array-size", "256"), models=("misc", "obj", "bnmodel", "pkmodel"), unwind=220, solvers=("z3", "cvc5"), fallback=(), timeout=150, mem=form >= 4 or "-DSHAPES" in d, native=("gost_params.c",), weak=("fill_GOST_EC_params",),
             defs=("-DFORM=%d" % form, "-DEL=%d" % el, "-DPK=" + pk, "-DVP_OWN_PKEY", "-DVP_DER", "-DVP_STRMAX=%d" % (el + 34)) + d,
             wkey="pd%d" % form, assumptions=[BN, DER])
    a.update(kw)
    return Job(name, "pdec.c", {"gost_ameth.c": [], "gost_ec_sign.c": ["gost_ec_point_mul", "fill_GOST_EC_params"]}, **a)
JOBS = []
for el, pk, t in ((32, K1, "256"), (64, K2, "512"), (32, K0, "2001")):
    for n in (1, 2, 3) if t != "2001" else (2,):
        JOBS.append(pd("masked%d_%s" % (n - 1, t), 0, el, pk, "-DNK=%d" % n, "-DSYM", *(("-DQ=7",) if n == 3 else ()), bounds="every key and %d masks, q=%d" % (n - 1, 7 if n == 3 else 19)))
    if t != "2001":
        JOBS.append(pd("octet_" + t, 1, el, pk, "-DSYM", bounds="every key"))
        for l in (0, 1, 2, el - 1, el, el + 1, el + 2):
            JOBS.append(pd("int%d_%s" % (l, t), 2, el, pk, "-DLEN=%d" % l, "-DSYM" if l < 60 else "-DHEAD", witness=0 < l <= el + 1, bounds="every INTEGER of %d bytes" % l if l < 60 else "INTEGER of %d bytes, the first 3 arbitrary" % l))
        JOBS.append(pd("seq_" + t, 3, el, pk, "-DNK=2", "-DSYM", bounds="every masked key with one mask"))
    if t == "256":
        JOBS += [pd("seq_shapes_" + t, 3, el, pk, "-DNK=1", "-DSHAPES", bounds="masked keys of 0..%d bytes, undecodable ones" % (2 * el + 1)),
                 *[pd("length%d_%s" % (n, t), 4, el, pk, "-DLEN=%d" % n, wkey="pd4", bounds="encodings of %d bytes, tags INTEGER, OCTET STRING, SEQUENCE, other, right and wrong length bytes" % n) for n in (0, 1, 2, 3, 31, 33, 34, 35, 36, 63, 65, 66)]]
    JOBS.append(pd("algs_" + t, 5, el, pk, bounds="parameters of every ASN.1 kind, undecodable, unknown; other algorithms; empty key"))
for form, d, n in ((0, ("-DNK=3",), "masked"), (1, (), "octet"), (2, ("-DLEN=31",), "int"), (3, ("-DNK=2",), "seq")):
    JOBS.append(pd("faults_" + n, form, 32, K1, "-DFAULTS=34", *d, wkey="pdf%d" % form, mem=False, bounds="any one of the fallible calls fails"))
