from reg.common import *
U94 = "step function abstracted to an uninterpreted function of chaining value, block and substitution set (exactness is job step)"
def h(name, n, a0=0, a1=0, b1=0, *d, **kw):
    step = "-DSTEP" in d
    a = dict(stubs=("uf89",) if step else ("uf89", "uf94"), models=("misc", "evp_model", "obj"), unwind=max(100, n + 70), solvers=("z3",), fallback=(), timeout=100, mem=False,
             assumptions=[UF89 if step else U94, EVPM], wkey="step" if step else "h94",
             bounds="one block, every state" if step else "%d bytes%s; first cut %d..%d, second piece of up to %d bytes" % (n, " from every mid-message state of up to 2^58 bytes" if "-DMID" in d else "", a0, a1, b1))
    a.update(kw)
    return Job(name, "h94.c", {"gosthash.c": [] if step else ["hash_step"], "gost_md.c": [], "gost89.c": BLK89},
               defs=("-DUF_KBOX", "-DLEN=%d" % n, "-DA0=%d" % a0, "-DA1=%d" % a1, "-DB1=%d" % b1, *d), **a)
JOBS = [h("step", 32, 0, 0, 0, "-DSTEP", narrow=(100000,), solvers=("sat",))]
JOBS += [h("len%d" % n, n, a0, a1, 2) for n, a0, a1 in ((0, 0, 0), (1, 0, 1), (31, 0, 9), (32, 24, 32), (33, 29, 33), (65, 30, 34))]
JOBS += [h("cuts%d" % n, n, 0, n, 2, tier="thorough", ttimeout=500) for n in (31, 32, 33, 65)]
JOBS += [h("mid%d_%d" % (f, n), n, min(n, max(0, 30 - f)), min(n, 34 - f), 2, "-DMID", "-DFILL=%d" % f) for f, n in ((0, 0), (0, 33), (1, 31), (31, 2), (13, 60), (5, 0))]
JOBS += [h("reuse", 9, 0, 4, 3, "-DREUSE=37", wkey="reuse")]
JOBS += [h("all%d" % n, n, 0, n, 33, tier="thorough", ttimeout=500) for n in (34, 64, 70, 97)]
