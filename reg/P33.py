from reg.common import *
def pr(name, steps, *d, **kw):
    a = dict(models=("misc",), unwind=24, solvers=("sat", "z3"), fallback=(), timeout=200, mem=True, udefs=("-Dgetenv=vp_getenv", "-Dsecure_getenv=vp_secure_getenv"), defs=("-DSTEPS=%d" % steps, "-DOPS=6") + d,
             bounds="every history of %d operations (set by command or call, get, reset, environment change, set to the value read), values of up to 3 bytes, every parameter number" % steps,
             assumptions=["getenv and string duplication by model; parameter values of at most 3 bytes"], wkey="pr%d" % steps)
    a.update(kw)
    return Job(name, "params.c", {"gost_ctl.c": []}, **a)
JOBS = [pr("history%d" % n, n) for n in (1, 2, 3)]
JOBS += [pr("faults%d" % n, n, "-DFAULTS=%d" % (n + 1), wkey="prf%d" % n, bounds="every history of %d operations in which any one allocation fails" % n) for n in (1, 2)]
JOBS += [pr("history%d" % n, n, tier="thorough", timeout=800) for n in (4, 5)]
