"""every entry of the precomputed Kuznyechik tables, against L/L^-1 of the
standard: symbolic entry index, table contents read from the compiled source
(goto-cc 6.11 mis-initialises arrays of unions with elided braces)."""
import os
from harness import smt
CO = [148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1]


def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x1c3
        b >>= 1
    return r


def L(a):
    for _ in range(16):
        x = 0
        for i in range(16): x ^= gmul(a[i], CO[i])
        a = [x] + a[:15]
    return a


def Li(a):
    for _ in range(16):
        a = a[1:] + [a[0]]
        x = 0
        for i in range(16): x ^= gmul(a[i], CO[i])
        a = a[:15] + [x]
    return a


def run_job(b, prop, job, tier, r, cm):
    lib = smt.shared_lib(cm, b, "ghtab", ["gost_grasshopper_precompiled.c", "gost_grasshopper_defines.c"])
    src = open(os.path.join(cm.VERIF, "harness/ref_pi.h")).read()
    pi = [int(x) for x in src[src.index("= {") + 3:src.index("}")].replace("\n", "").split(",")]
    for name, f, sub in (("grasshopper_pil_enc128", L, "pi"), ("grasshopper_pil_dec128", Li, "inv"), ("grasshopper_l_dec128", Li, "id")):
        raw = smt.symbol_bytes(lib, name, 16 * 256 * 16)
        r.functions.append(name)
        for p in range(16):
            row = [int.from_bytes(raw[(p * 256 + i) * 16:(p * 256 + i) * 16 + 16], "big") for i in range(256)]
            cols = []
            for k in range(8):
                a = [0] * 16; a[p] = 1 << k
                cols.append(int.from_bytes(bytes(f(a)), "big"))
            # index x, argument v of the linear map
            t = "(declare-const x (_ BitVec 8))\n(define-fun v () (_ BitVec 8) %s)\n" % (smt.ite_table(pi, "x", 8) if sub == "pi" else "x")
            t += "(define-fun y () (_ BitVec 8) %s)\n" % (smt.ite_table(pi, "x", 8) if sub == "inv" else "x")
            t += "(define-fun e () (_ BitVec 128) %s)\n" % smt.ite_table(row, "y", 128)
            s = "#x" + "0" * 32
            for k in range(8):
                s = "(bvxor %s (ite (= ((_ extract %d %d) v) #b1) #x%032x #x%s))" % (s, k, k, cols[k], "0" * 32)
            t += "(assert (not (= e %s)))\n(check-sat)\n(get-value (x y e))\n" % s
            st, out, dt = smt.solve(cm, b, "%s_%d" % (name, p), t, 60)
            r.queries += 1; r.time += dt; r.vccs += 1; r.solver = "z3"
            if st == "sat":
                fn = os.path.join(b.d, "cex.txt")
                open(fn, "w").write("%s[%d]: %s\n" % (name, p, out))
                # replay: the entry as the compiled code sees it
                bad = [i for i in range(256) if row[pi[i] if sub == "inv" else i] != int.from_bytes(bytes(f([0] * p + [pi[i] if sub == "pi" else i] + [0] * (15 - p))), "big")]
                if bad:
                    r.verdict, r.desc = "VIOLATION", "%s[%d] entry for argument %d differs from the standard" % (name, p, bad[0])
                    r.replay = (fn, 0, out); r.detail = out[:300]
                    return
                r.detail = "counterexample did not reproduce"; return
            if st != "unsat":
                r.detail = st + out[:200]; return
    r.verdict = "HOLDS"; r.witness = "n/a (closed table query)"
