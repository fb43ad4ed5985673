from reg.common import *
import reg.P05, reg.P06, reg.P14, reg.P16
from reg.P22 import ALL
JOBS = []
CPY = dict(models=("misc", "evp_model", "obj", "cpy"), udefs=("-Dmemcpy=vp_memcpy",))
for n, d, ivl, ct, bl, sec in ALL:
    blk = n.endswith("cbc") or n.endswith("ecb")
    L = 3 * bl if blk else 2 * bl + 3 if not sec else 2 * sec + 2
    us = (0, bl, 2 * bl) if blk else (0, 1, bl - 1, bl, bl + 1) if not sec else (1, sec - 1, sec, sec + 1)
    for enc in (1, 0):
        for i, part in enumerate((us[:2], us[2:])):
            x = ["-DDESC=" + d, "-DIVL=%d" % ivl, "-DCTXT=" + ct, "-DLEN=%d" % L, "-DUS=" + ",".join(map(str, part)), "-DENC=%d" % enc, "-DVP_CPYT=" + ct]
            if sec: x += ["-DMESHARG=%d" % sec]
            JOBS.append(cipher_job("%s_%d_%d" % (n, enc, i), "copy.c", x, wkey=n, tier="thorough" if enc == 0 and ("ctr" in n or "ofb" in n or "cnt" in n or "acpkm" in n) else "quick",
                        models=("misc", "evp_model", "obj", "cpy", "omodel"), udefs=("-Dmemcpy=vp_memcpy",), bounds="copied after %s bytes, %d bytes in all; all keys, IVs, data" % (part, L)))
JOBS += [reg.P05.sh("streebog%d" % b, b, 70, 0, 0, 0, "-DCOPY") for b in (256, 512)] + [reg.P05.sh("streebog512_%d" % a, 512, 70, a, a, 0, "-DCOPY") for a in (1, 63, 64, 69)]
JOBS += [reg.P06.h("g94_%d" % a, 40, a, a + 1, 0, "-DCOPY", "-DVP_CPYT=struct ossl_gost_digest_ctx", **CPY) for a in (0, 31, 33)]
JOBS += [reg.P16.imit("imit_c%d_%d" % (c, L), L, 0, L if L < 10 else 9, 0, copy=c, which=c - 1, extra=("-DVP_CPYT=struct ossl_gost_imit_ctx",), **CPY) for c in (1, 2) for L in (8, 13)]
for kuz, n, bl in ((0, "magma", 8), (1, "kuz", 16)):
    for enc in (1, 0):
        for c in (1, 2):
            JOBS += [reg.P14.mgm("%s_mgm_%d_c%d" % (n, enc, c), kuz, bl + 2, bl + 2, enc, a=(bl - 1, bl), c=(1, 1), extra=("-DCOPY=%d" % c, "-DVP_CPYT=gost_mgm_ctx"), **CPY, wkey="mgmc%d" % kuz)]
