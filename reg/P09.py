from reg.common import *
JOBS = []
for n, m in (("cbc89", 1), ("magma_ecb", 2), ("magma_cbc", 3), ("kuz_ecb", 4), ("kuz_cbc", 5)):
    for e in (1, 0):
        for ip in (0, 1):
            JOBS.append(cipher_job("%s_%s%s" % (n, "enc" if e else "dec", "_inplace" if ip else ""), "block.c",
                ("-DMODE=%d" % m, "-DENC=%d" % e, "-DNB=4", *(("-DINPLACE",) if ip else ())), wkey=n,
                bounds="4 blocks, every block-aligned split into three updates; all keys, IVs, data"))
    JOBS.append(cipher_job("%s_memory" % n, "block.c", ("-DMODE=%d" % m, "-DENC=0", "-DNB=2"), mem=True, wkey=n, bounds="2 blocks, bounds and pointer checks on"))
