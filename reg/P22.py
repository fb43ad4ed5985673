from reg.common import *
JOBS = []
C89, GH, GHC = "struct ossl_gost_cipher_ctx", "gost_grasshopper_cipher_ctx", "gost_grasshopper_cipher_ctx_ctr"
# name, descriptor, iv length, context type, block, section size for ACPKM
ALL = [("g89_cfb", "Gost28147_89_cipher", 8, C89, 8, 0), ("g89_cbc", "Gost28147_89_cbc_cipher", 8, C89, 8, 0),
       ("g89_cnt", "Gost28147_89_cnt_cipher", 8, C89, 8, 0), ("g89_cnt12", "Gost28147_89_cnt_12_cipher", 8, C89, 8, 0),
       ("magma_ctr", "magma_ctr_cipher", 4, C89, 8, 0), ("magma_acpkm", "magma_ctr_acpkm_cipher", 4, C89, 8, 16),
       ("magma_cbc", "magma_cbc_cipher", 8, C89, 8, 0), ("magma_ecb", "magma_ecb_cipher", 0, C89, 8, 0),
       ("kuz_ecb", "grasshopper_ecb_cipher", 0, GH, 16, 0), ("kuz_cbc", "grasshopper_cbc_cipher", 16, GH, 16, 0),
       ("kuz_ofb", "grasshopper_ofb_cipher", 16, GH, 16, 0), ("kuz_cfb", "grasshopper_cfb_cipher", 16, GH, 16, 0),
       ("kuz_ctr", "grasshopper_ctr_cipher", 8, GHC, 16, 0), ("kuz_acpkm", "grasshopper_ctr_acpkm_cipher", 8, GHC, 16, 32)]
for n, d, ivl, ct, bl, sec in ALL:
    blk = n.endswith("cbc") or n.endswith("ecb")
    for enc in (1, 0):
        for e1 in ((1, 0) if enc else (0,)):
            L = 2 * bl if blk else bl + 2 if not sec else sec + 2
            u1 = 2 * bl if blk else (2 * bl + 1 if not sec else 2 * sec + 1)
            step = bl if blk else 1
            if sec:
                rng = ((0, bl + 1), (sec - 1, sec + 1), (2 * sec - 1, 2 * sec + 1))
            else:
                rng = ((0, u1),) if blk else ((0, bl), (bl + 1, u1))
            if not enc or e1 == 0:
                rng = rng[-1:] if not sec else rng[:1]
            for a, b in rng:
                x = ["-DDESC=" + d, "-DIVL=%d" % ivl, "-DCTXT=" + ct, "-DLEN=%d" % L, "-DU0=%d" % a, "-DU1=%d" % b, "-DSTEP=%d" % step,
                     "-DENC=%d" % enc, "-DENC1=%d" % e1]
                if sec: x += ["-DMESHARG=%d" % sec]
                us = None
                if bl == 16 and not blk:
                    us = [u for u in ((0, 1, 15, 16) if not sec else (0, 1, 16)) if a <= u <= b] or ([a, b] if b - a <= 2 else [a + 1, b - 2, b])
                    x += ["-DUS=" + ",".join(map(str, us))]
                JOBS.append(cipher_job("%s_%d%d_u%d" % (n, e1, enc, a), "reinit.c", x, wkey=n, tier="thorough" if (not enc or not e1) and (bl == 16 or blk) else "quick",
                    bounds=("prior use of %s bytes" % us if us else "every prior use of %d..%d bytes (step %d)" % (a, b, step)) + ", then %d bytes; all keys, IVs, data" % L))
# after key meshing (1024 bytes processed with the old key)
for n, d in (("g89_cfb", "Gost28147_89_cipher"), ("g89_cnt", "Gost28147_89_cnt_cipher")):
    JOBS.append(cipher_job(n + "_meshed", "reinit.c", ["-DDESC=" + d, "-DIVL=8", "-DCTXT=" + C89, "-DLEN=12", "-DU0=1020", "-DU1=1028", "-DSTEP=4", "-DENC=1", "-DENC1=1"],
                unwind=1060, bounds="prior use of 1020..1028 bytes (across a key meshing), then 12 bytes"))
