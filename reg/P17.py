from reg.common import *
JOBS = []
TR = "CMAC and the CBC / CTR-ACPKM ciphers as uninterpreted functions of everything they were given (transcripts), /verif/vp/omodel.c"
def om(name, which, L, a0=0, a1=0, b1=0, size=0, keymode=0, mode=0, copy=0, sect=0, tstar=0, faults=None, extra=(), **kw):
    d = ["-DWHICH=%d" % which, "-DLEN=%d" % L, "-DA0=%d" % a0, "-DA1=%d" % a1, "-DB1=%d" % b1, "-DSIZE=%d" % size, "-DKEYMODE=%d" % keymode, "-DMODE=%d" % mode, "-DCOPY=%d" % copy, "-DSECT=%d" % sect, "-DTSTAR=%d" % tstar, *extra]
    if faults is not None: d.append("-DFAULTS=%d" % faults)
    a = dict(models=("misc", "evp_model", "obj", "omodel"), unwind=90, timeout=90, mem=False, fallback=(), assumptions=[TR, EVPM],
             cb=("--max-field-sensitivity-array-size", "512") if which == 2 else (), wkey="%d_%s" % (which, "misuse" if mode else "fault" if faults is not None else "omac"),
             bounds="%d bytes cut at %d..%d, second piece up to %d bytes; all keys and data%s" % (L, a0, a1, b1, "; every single failing call among the first %d" % faults if faults is not None else ""))
    a.update(kw)
    return Job(name, "omac.c", {("gost_omac_acpkm.c" if which == 2 else "gost_omac.c"): [], "gost_md.c": []}, defs=tuple(d), **a)
JOBS += [om("omac%d_%d" % (w, L), w, L, 0, L, L) for w in (0, 1) for L in (0, 5)]
JOBS += [om("omac%d_s%d" % (w, s), w, 3, 1, 1, 1, size=s) for w, s in ((0, 1), (0, 4), (0, 8), (1, 1), (1, 8), (1, 15))]
JOBS += [om("omac%d_mk" % w, w, 3, 1, 1, 1, keymode=1) for w in (0, 1, 2)]
JOBS += [om("omac%d_misuse" % w, w, 3, mode=1) for w in (0, 1, 2)]
JOBS += [om("omac%d_copy%d" % (w, c), w, 9, 0, 9, 0, copy=c) for w in (0, 1) for c in (1, 2)]
JOBS += [om("omac%d_f%d" % (w, c), w, 9, copy=c, faults=14) for w in (0, 1) for c in (0, 1)]

JOBS += [om("omac2_%d" % L, 2, L, a, a, b) for L, a, b in ((0, 0, 0), (1, 0, 1), (17, 1, 0), (17, 16, 1))]
X = dict(solvers=("z3", "cvc5"))
JOBS = [j for j in JOBS if not j.name.startswith("omac2")]
JOBS += [om("omac2_%d_%d_%d" % (L, a0, a1), 2, L, a0, a1, b, **X) for L, a0, a1, b in ((0, 0, 0, 0), (1, 0, 1, 1), (15, 0, 15, 0), (16, 0, 16, 0), (17, 0, 17, 1), (33, 15, 17, 3), (32, 0, 1, 3))]
JOBS += [om("omac2_mk", 2, 3, 1, 1, 1, keymode=1, **X), om("omac2_misuse", 2, 3, mode=1, **X)]
JOBS += [om("omac2_s%d" % s, 2, 3, 1, 1, 1, size=s, **X) for s in (1, 7, 15)]
JOBS += [om("omac2_sect%d_%d_%d" % (s, t, L), 2, L, a0, a1, b, sect=s, tstar=t, **X) for s, t, L, a0, a1, b in ((16, 0, 33, 15, 17, 1), (32, 96, 65, 31, 33, 0), (32, 0, 64, 31, 32, 1), (32, 96, 96, 64, 65, 0))]
JOBS += [om("omac2_copy%d" % c, 2, 33, a0, a0 + 2, 0, copy=c, sect=16, **X) for c in (1, 2) for a0 in (0, 15)]
JOBS += [om("omac2_f%d" % c, 2, 33, copy=c, sect=16, tstar=96, faults=34, **X) for c in (0, 1)]
