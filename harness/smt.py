"""helpers for obligations encoded directly as SMT-LIB"""
import os, re, ctypes


def solve(cm, b, name, text, tmo, solver="z3"):
    f = os.path.join(b.d, name + ".smt2")
    open(f, "w").write(text)
    cmd = {"z3": ["z3", "-smt2", f], "z3new": ["z3-new", "-smt2", f], "cvc5": ["cvc5", "--lang", "smt2", "-q", f]}[solver]
    rc, out, dt = cm.run(cmd, tmo)
    st = "timeout" if rc is None else (re.findall(r"^(sat|unsat|unknown)\b", out, re.M) or ["error"])[0]
    if "(error" in out and st not in ("unsat", "sat"):
        st = "error"
    return st, out, dt


def shared_lib(cm, b, name, files, defs=()):
    def mk():
        so = os.path.join(b.d, name + ".so")
        rc, out, _ = cm.run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-std=gnu99", *cm.CFLAGS, *defs, "-Wl,--unresolved-symbols=ignore-all", "-o", so, *[f if f.startswith("/") else os.path.join(cm.REPO, f) for f in files]], 200, mem=None)
        if rc != 0:
            raise RuntimeError(out[-500:])
        return ctypes.CDLL(so, mode=os.RTLD_LAZY)
    return b.once(("so", name), mk)


def symbol_bytes(lib, sym, n):
    return bytes((ctypes.c_uint8 * n).in_dll(lib, sym))


def ite_table(vals, x, width, idxw=8):
    """balanced ite over the bits of x (an SMT term of idxw bits)"""
    def rec(lo, hi, bit):
        if hi - lo == 1:
            return "#x%0*x" % (width // 4, vals[lo])
        mid = (lo + hi) // 2
        a, c = rec(lo, mid, bit - 1), rec(mid, hi, bit - 1)
        return a if a == c else "(ite (= ((_ extract %d %d) %s) #b0) %s %s)" % (bit, bit, x, a, c)
    return rec(0, len(vals), idxw - 1)
