"""Streebog: every entry of the combined S-P-L table Ax against Pi and the
matrix A of the standard (symbolic entry index), round constants, buffers"""
import os
from harness import smt
from harness.ref_streebog import A, C


def run_job(b, prop, job, tier, r, cm):
    w = os.path.join(b.d, "strtab.c")
    open(w, "w").write('#include "gosthash2012.c"\nconst void *vp_ax(void){return Ax;}\nconst void *vp_c(void){return C;}\n'
                       'const void *vp_b0(void){return &buffer0;}\nconst void *vp_b512(void){return &buffer512;}\n')
    lib = smt.shared_lib(cm, b, "strtab", [w], ("-I" + cm.REPO,))
    import ctypes

    def words(fn, n):
        f = getattr(lib, fn); f.restype = ctypes.c_void_p
        return list((ctypes.c_uint64 * n).from_address(f()))
    src = open(os.path.join(cm.VERIF, "harness/ref_pi.h")).read()
    pi = [int(x) for x in src[src.index("= {") + 3:src.index("}")].replace("\n", "").split(",")]
    ax, c = words("vp_ax", 2048), words("vp_c", 96)
    r.functions += ["Ax", "C", "buffer0", "buffer512"]
    obs = []
    for j in range(8):
        t = "(declare-const x (_ BitVec 8))\n(define-fun v () (_ BitVec 8) %s)\n" % smt.ite_table(pi, "x", 8)
        t += "(define-fun e () (_ BitVec 64) %s)\n" % smt.ite_table(ax[256 * j:256 * j + 256], "x", 64)
        s = "#x" + "0" * 16
        for k in range(8):
            s = "(bvxor %s (ite (= ((_ extract %d %d) v) #b1) #x%016x #x%s))" % (s, k, k, A[63 - (8 * j + k)], "0" * 16)
        want = [0] * 256
        for x in range(256):
            for k in range(8):
                want[x] ^= A[63 - (8 * j + k)] if pi[x] >> k & 1 else 0
        obs.append(("Ax%d" % j, t + "(assert (not (= e %s)))" % s, ax[256 * j:256 * j + 256], want))
    for nm, got, want in (("C", c, C), ("buffer0", words("vp_b0", 8), [0] * 8), ("buffer512", words("vp_b512", 8), [512] + [0] * 7)):
        got, want = got + [0] * (128 - len(got)), want + [0] * (128 - len(want))
        obs.append((nm, "(declare-const x (_ BitVec 8))\n(define-fun e () (_ BitVec 64) %s)\n(assert (bvult x #x80))(assert (not (= e %s)))" % (smt.ite_table(got, "x", 64, 7), smt.ite_table(want, "x", 64, 7)), got, want))
    for nm, t, got, want in obs:
        st, out, dt = smt.solve(cm, b, nm, t + "\n(check-sat)\n(get-value (x e))\n", 60)
        r.queries += 1; r.time += dt; r.vccs += 1; r.solver = "z3"
        if st == "sat":
            bad = [i for i in range(len(want)) if got[i] != want[i]]
            if bad:
                fn = os.path.join(b.d, "cex.txt")
                open(fn, "w").write("%s entry %d: %016x, standard %016x\n%s" % (nm, bad[0], got[bad[0]], want[bad[0]], out))
                r.verdict, r.desc = "VIOLATION", "%s: entry %d differs from the standard" % (nm, bad[0])
                r.replay = (fn, 0, out); r.detail = out[:300]
            else:
                r.detail = "counterexample did not reproduce"
            return
        if st != "unsat":
            r.detail = st + out[:200]; return
    r.verdict = "HOLDS"; r.witness = "n/a (closed table query)"
