from check import Job
def j(name, op, *d, **kw):
    a = dict(unwind=260, solvers=("z3",), fallback=(), timeout=100, narrow=(100000,), mem=False, witness=True,
             assumptions=["Intel semantics of the SSE2/ADC intrinsics modelled in /verif/vp/sse_model.h; the native replay uses the real instructions"])
    a.update(kw)
    return Job(name, "strb.c", {}, defs=("-DOP=%d" % op, *d), **a)
JOBS = [j("g_sse", 0, wkey="g", bounds="one compression, all h, N, m"), j("g_portable", 0, "-DPORTABLE", wkey="g", bounds="one compression, all h, N, m"),
        j("add512_adc", 1, wkey="add", bounds="all operands", solvers=("z3", "sat")), j("add512_c", 1, "-DNOADC", wkey="add", bounds="all operands", solvers=("z3", "sat")),
        Job("tables", "p04_tables.py", bounds="all 2048 table entries, 96 constant words")]
