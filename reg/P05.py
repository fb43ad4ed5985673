from reg.common import *
UFS = "compression function g_N and addition mod 2^512 abstracted to uninterpreted functions (exactness is P04)"
def sh(name, bits, n, a0=0, a1=0, b1=0, *d, **kw):
    a = dict(stubs=("ufstr",), models=("misc", "evp_model", "obj"), unwind=max(100, n + 70), solvers=("z3",), fallback=(), timeout=100, mem=False,
             udefs=("-include", "/verif/vp/sse_auto.h"), assumptions=[UFS, EVPM], narrow=(100000,), wkey="strh", cb=("--max-field-sensitivity-array-size", "1024"),
             bounds="%d bytes%s; first cut %d..%d, second piece of up to %d bytes" % (n, " from every mid-message state" if "-DMID" in d else "", a0, a1, b1))
    a.update(kw)
    return Job(name, "strh.c", {"gosthash2012.c": ["g", "add512"], "gost_md2012.c": [], "gost_md.c": []},
               defs=("-DBITS=%d" % bits, "-DLEN=%d" % n, "-DA0=%d" % a0, "-DA1=%d" % a1, "-DB1=%d" % b1, *d), **a)
JOBS = [sh("s512_len%d" % n, 512, n, 0, min(n, 3), 2) for n in (0, 1, 7, 63, 64, 65)]
JOBS += [sh("s512_len127_%d" % a, 512, 127, a, a + 1, 3) for a in (0, 31, 62, 64, 126)]
JOBS += [sh("s256_len%d_%d" % (n, a), 256, n, a, a + 1, 3) for n, a in ((1, 0), (64, 62), (65, 63), (130, 62), (191, 126))]
JOBS += [sh("mid%d_%d_%d" % (bits, f, n), bits, n, max(0, 64 - f - 2), min(n, 64 - f + 2), 1, "-DMID", "-DFILL=%d" % f) for bits, f, n in ((512, 0, 66), (512, 1, 64), (256, 32, 40), (512, 63, 70), (256, 63, 2), (256, 17, 50))]
JOBS += [sh("reuse%d" % b, b, 9, 0, 4, 3, "-DREUSE=70", wkey="reuse") for b in (256, 512)]
JOBS += [sh("s512_all%d" % a, 512, 130, a, a + 9, 4, tier="thorough", ttimeout=400) for a in range(0, 120, 10)]
JOBS += [sh("s512_len%d" % n, 512, n, 0, min(n, 65), 2, tier="thorough", ttimeout=400) for n in (2, 8, 31, 62, 66, 126, 128, 129)]
