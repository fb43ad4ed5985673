from reg.common import *
def sm(name, lines, ln, mn=0, **kw):
    a = dict(models=(), unwind=max(ln + 6, 12), solvers=("sat", "z3"), fallback=(), timeout=200, mem=True, udefs=("-U_FORTIFY_SOURCE", "-Dmain=gost12sum_main", "-Dfgets=vp_fgets", "-Dfeof=vp_feof"),
             defs=("-DLINES=%d" % lines, "-DLEN=%d" % ln, "-DMINL=%d" % mn), bounds="every file of %d line(s) of %d..%d bytes" % (lines, mn or 1, ln), assumptions=["fgets/feof by model"], wkey="sm")
    a.update(kw)
    return Job(name, "sum.c", {"gost12sum.c": []}, **a)
JOBS = [sm("short1", 1, 6), sm("short2", 2, 3, mem=False, unwind=8)]
JOBS += [sm("len%d" % n, 1, n + 4, n + 1, defs=("-DLINES=1", "-DLEN=%d" % (n + 4), "-DMINL=%d" % (n + 4), "-DFIXD=%d" % n, "-DFIRST='f'"), mem=False, timeout=400, solvers=("sat",), udefs=("-U_FORTIFY_SOURCE", "-Dmain=gost12sum_main", "-Dfgets=vp_fgets", "-Dfeof=vp_feof", "-Dstrlen=vp_strlen", "-Dstrchr=vp_strchr", "-Dmemcpy=vp_memcpy", "-Dmemmove=vp_memmove"),
    wkey="smf", bounds="every line with %d bytes before the first space and a name of up to 3 bytes" % n) for n in (63, 64, 65, 128, 130)]
