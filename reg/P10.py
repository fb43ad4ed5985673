from reg.common import *
JOBS = []
for n, m, bl in (("magma", 4, 8), ("kuz", 6, 16)):
    k = bl == 16
    L = 2 * bl + bl // 2 + 1
    JOBS += [
        stream(n + "_split1", m, L, 0, bl + 1, 0, 0 if k else 2, wkey=n),
        stream(n + "_split2", m, L, bl + 2, 2 * bl + 1, 0, 0 if k else 1, wkey=n),
        stream(n + "_split3", m, L, bl // 2 - 1, bl // 2 - (1 if k else 0), 0, 2 * bl + 1, wkey=n),
        stream(n + "_dec", m, 2 * bl + 3, bl - 1, bl + 1, 0, 1, enc=0, wkey=n),
        stream(n + "_inplace", m, 3 * bl + 3, bl - 1, bl + 1, bl, bl + 1, inplace=True, wkey=n),
        stream(n + "_counter", m, 3 * bl + 1, bl, bl + 1, bl - 1, bl, extra=("-DCOUNTER",), bounds="3 blocks + 1 byte from an arbitrary full-width counter value (all carries)", wkey=n),
        stream(n + "_memory", m, 2 * bl + 3, bl - 1, bl + 1, 0, 1, mem=True, wkey=n),
        stream(n + "_split_wide", m, 3 * bl + 5, 0, 2 * bl + 2, 0, bl + 1, tier="thorough", timeout=280, wkey=n),
    ]
