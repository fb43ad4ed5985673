from reg.common import *
JOBS = []
for kuz, n in ((0, "gf64"), (1, "gf128")):
    for al in range(4):
        JOBS.append(cipher_job("%s_alias%d" % (n, al), "gfmul.c", ["-DALIAS=%d" % al, "-DREF=0"] + (["-DKUZ"] if kuz else []), unwind=140, cb=("--max-field-sensitivity-array-size", "1024"),
            wkey=n, timeout=250, fallback=(), solvers=("sat",), assumptions=[EVPM], bounds="all operand pairs; " + ("distinct buffers", "result overwrites the first operand", "result overwrites the second operand", "squaring in one buffer")[al]))
    JOBS.append(cipher_job("%s_horner" % n, "gfmul.c", ["-DALIAS=0", "-DREF=1"] + (["-DKUZ"] if kuz else []), unwind=140, cb=("--max-field-sensitivity-array-size", "1024"),
            wkey=n, timeout=300, solvers=("sat",), fallback=(), tier="thorough", assumptions=[EVPM], bounds="all operand pairs, independent (Horner) reference"))
