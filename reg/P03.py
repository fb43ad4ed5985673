from check import Job
CORE = {"gost_grasshopper_core.c": [], "gost_grasshopper_defines.c": [], "gost_grasshopper_galois_precompiled.c": []}
TAB = {k: v for k, v in CORE.items() if k != "gost_grasshopper_core.c"}
ABS = dict(CORE, **{"gost_grasshopper_core.c": ["grasshopper_plus128multi", "grasshopper_l", "grasshopper_l_inv"]})
A = "sums of table entries and the linear transform abstracted to uninterpreted functions (decided exactly by jobs l, l_inv, tables_*, table_sum)"
def j(n, op, units, b, stubs=(), extra=(), **kw):
    kw.setdefault("timeout", 100); kw.setdefault("native", ("gost_grasshopper_precompiled.c",)); kw.setdefault("solvers", ("z3",)); kw.setdefault("fallback", ("sat",))
    return Job(n, "p03.c", units, stubs=stubs, defs=("-DOP=%d" % op, *extra), unwind=260 if op in (8, 9) else 170 if op < 2 else 40, mem=op not in (7, 8), bounds=b, wkey="p03%d" % (op // 2), assumptions=(A,) if stubs else (), **kw)
JOBS = [
    j("encrypt_rounds", 0, ABS, "all round keys, all blocks, in place and out of place", ("p03_stub",)),
    j("decrypt_rounds", 1, ABS, "all round keys, all blocks, in place and out of place", ("p03_stub",)),
    j("encrypt_schedule", 2, ABS, "all 256-bit keys", ("p03_stub",)),
    j("decrypt_schedule", 3, ABS, "all 256-bit keys", ("p03_stub",)),
    j("l", 4, TAB, "all 128-bit states"), j("l_inv", 5, TAB, "all 128-bit states"),
    j("galois_mul", 6, TAB, "all pairs of field elements", solvers=("sat",)),
    j("table_sum", 7, dict(TAB, **{"gost_grasshopper_precompiled.c": []}), "all 128-bit states", solvers=("sat",), witness=False, native=()),
    Job("tables", "p03_tables.py", bounds="all 3 x 16 x 256 entries", witness=False, timeout=100),
    j("sboxes", 9, TAB, "all byte values", solvers=("sat",)),
    j("ref_linear", 10, {}, "all states (sanity of the reference)", solvers=("sat",)),
]
