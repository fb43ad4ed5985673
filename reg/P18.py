from reg.common import *
from reg.P17 import TR
JOBS = []
W = {0: "exp", 1: "imp", 2: "wrap", 3: "fault", 4: "fault", 5: "args"}
def kx(name, kuz, mode, *extra, **kw):
    a = dict(models=("misc", "evp_model", "obj", "omodel"), unwind=140, timeout=90, mem=False, fallback=(), solvers=("z3", "cvc5"), assumptions=[TR, EVPM], wkey="%s%s" % (kuz, W[mode]))
    a.update(kw)
    return Job(name, "kexp.c", {"gost_keyexpimp.c": [], "gost_omac.c": [], "gost_md.c": [], "gost_crypt.c": [], "gost_gost2015.c": [], "gost89.c": BLK89, "gost_grasshopper_cipher.c": []}, stubs=("uf89", "ufgh"), native=NAT_GH, defs=("-DUF_KBOX", "-DUF_INVERSE", "-DKUZ=%d" % kuz, "-DMODE=%d" % mode, *extra), **a)
for z, n in ((0, "magma"), (1, "kuz")):
    X = 48 if z else 40
    JOBS += [kx(n + "_exp", z, 0, bounds="keys of 0, 16, 32 bytes, exact/over/short output buffers; all keys and IVs"),
             kx(n + "_imp", z, 1, bounds="blobs of every length 0..80, all contents"),
             kx(n + "_args", z, 5, bounds="all other cipher ids, IV lengths 17..40"),
             kx(n + "_expf", z, 3, "-DFAULTS=24", bounds="every single failing underlying call"),
             kx(n + "_impf", z, 4, "-DFAULTS=24", bounds="every single failing underlying call")]
    for i, (c, l) in enumerate((("0,1", "1,31,%d" % (X - 1)), ("0,1,%d" % (X - 1), "%d" % X), ("0,1,32", "%d,%d" % (X + 1, X + 9)), ("%d" % X, "%d,%d" % (X, X + 1)))):
        JOBS.append(kx("%s_wrap%d" % (n, i), z, 2, "-DENC=0", "-DCUTS=" + c, "-DLENS=" + l, bounds="blobs of %s bytes, cut at %s; all keys, IVs, blobs" % (l, c)))
    JOBS.append(kx("%s_wrape" % n, z, 2, "-DENC=1", "-DCUTS=0,1", "-DLENS=%d" % X, bounds="wrapping direction"))
