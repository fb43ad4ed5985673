from reg.common import *
JOBS = []
for n, m, bl in (("magma", 5, 8), ("kuz", 7, 16)):
    k = bl == 16
    for sec in (bl, 2 * bl, 3 * bl):
        x = ("-DMESH=%d" % sec, "-DMESHARG=%d" % sec)
        L = 2 * sec + 3 if sec > bl else 3 * bl + 3
        JOBS += [
            stream("%s_s%d_split1" % (n, sec), m, L, sec - 1, sec + 1, 0, 2, extra=x, wkey=n),
            stream("%s_s%d_split2" % (n, sec), m, L, 0 if not k else bl - 1, (min(L - 1, 2 * sec + 1) if sec == bl else bl) if not k else bl, 0, 0, extra=x, wkey=n),
            *([stream("%s_s%d_split2w" % (n, sec), m, L, 0, min(L - 1, 2 * sec + 1) if sec == bl else bl, 0, 0, extra=x, wkey=n, tier="thorough", timeout=300)] if k else []),
            stream("%s_s%d_split3" % (n, sec), m, L, 3, 3, sec - 5, sec, extra=x, wkey=n),
        ]
    x = ("-DMESH=%d" % (2 * bl), "-DMESHARG=%d" % (2 * bl))
    JOBS += [
        stream(n + "_dec", m, 4 * bl + 3, bl - 1, bl + 1, 0, 1, enc=0, extra=x, wkey=n),
        stream(n + "_inplace", m, 4 * bl + 3, 2 * bl - 1, 2 * bl + 1, bl, bl + 1, inplace=True, extra=x, wkey=n),
        *[stream("%s_resume%x_%x" % (n, pos, sec), m, 2 * bl + 3, bl - 1, bl - 1, 2, 2, extra=("-DCOUNTER", "-DRESUME=%d" % pos, "-DSEC=%d" % sec), bounds="2 blocks + 3 bytes from any counter value, %d bytes into a section of %d" % (pos, sec), wkey=n + "r", timeout=100, fallback=()) for pos, sec in ((65536 - bl, 131072), (131072 - bl, 131072), (0xfffff0, 0x1000000))],
        stream(n + "_memory", m, 2 * bl + 3, bl - 1, bl + 1, 0, 1, mem=True, extra=x, wkey=n),
    ]
    if not k: JOBS += [
        stream(n + "_nomesh", m, 3 * bl + 3, bl - 1, bl + 1, 0, 1, extra=("-DMESHARG=0", "-DMESH=0"), bounds="meshing switched off"),
    ]
    JOBS += [
        stream(n + "_default", m, (4096 if k else 1024) + 20, (4096 if k else 1024) - 3, (4096 if k else 1024) - 3, 4, 4, extra=("-DMESH=%d" % (4096 if k else 1024), "-DTAIL=40"), bounds="default section size, one boundary", tier="thorough" if k else "quick", timeout=300),
    ]
