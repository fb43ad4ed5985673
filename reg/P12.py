from reg.common import *
from reg.P17 import TR
JOBS = []
W = {0: "stream", 1: "fault", 2: "order", 3: "copy"}
def ox(name, kuz, mode, L, enc, *extra, **kw):
    a = dict(models=("misc", "evp_model", "obj", "omodel"), unwind=max(L + 40, 80), timeout=90, mem=False, fallback=(), solvers=("z3", "cvc5"), assumptions=[TR, EVPM, UFGH if kuz else UF89], wkey="%d%d%s" % (kuz, enc, W[mode]))
    a.update(kw)
    return Job(name, "omacx.c", {"gost_keyexpimp.c": [], "gost_md.c": [], "gost_crypt.c": [], "gost_gost2015.c": [], "gost89.c": BLK89, "gost_grasshopper_cipher.c": []}, stubs=("uf89", "ufgh"), native=NAT_GH,
               defs=("-DUF_KBOX", "-DUF_INVERSE", "-DKUZ=%d" % kuz, "-DMODE=%d" % mode, "-DLEN=%d" % L, "-DENC=%d" % enc, *extra), **a)
def c(*l): return ",".join(map(str, l))
for z, n, bl in ((0, "magma", 8), (1, "kuz", 16)):
    for enc in (1, 0):
        m = "%s_%s" % (n, "enc" if enc else "dec")
        L = 2 * bl + 3
        JOBS += [
            ox(m, z, 0, L, enc, "-DAS=" + c(0, 1, bl - 1, bl, L), "-DBS=0", bounds="%d bytes cut at 0, 1, one block +-1 and end; all keys, IVs, seeds, data, tags" % L),
            ox(m + "_3", z, 0, L, enc, tier="thorough" if enc else "quick", *("-DAS=" + c(3, bl), "-DBS=" + c(1, bl)), bounds="%d bytes in three pieces" % L),
            ox(m + "_inpl", z, 0, L, enc, "-DAS=" + c(0, bl + 1), "-DBS=0", "-DINPLACE=1", tier="quick" if enc else "thorough", bounds="%d bytes in place" % L),
            ox(m + "_sec", z, 0, 2 * bl, enc, "-DAS=" + c(0, bl), "-DBS=0", "-DMESHARG=%d" % bl, bounds="section of one block; the tag starts a new section"),
            ox(m + "_order", z, 2, 5, enc, "-DAS=" + c(1, bl), bounds="re-use after 1, %d bytes, finished or not, and data before a key" % bl),
            ox(m + "_copy", z, 3, 5, enc, "-DAS=" + c(0, 2, 5, 99), "-DVP_CPYT=" + ("gost_grasshopper_cipher_ctx_ctr" if z else "struct ossl_gost_cipher_ctx"), models=("misc", "evp_model", "obj", "cpy", "omodel"), udefs=("-Dmemcpy=vp_memcpy",), bounds="5 bytes, copied after 0, 2, 5 bytes and before a key"),
            ox(m + "_fault", z, 1, 6, enc, "-DFAULTS=32", bounds="every single failing underlying call"),
        ]
