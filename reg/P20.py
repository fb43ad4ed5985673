from reg.common import *
JOBS = []
HM = "HMAC / CMAC as uninterpreted functions of everything they were given (transcripts), /verif/vp/omodel.c"
W = {0: "kdf", 1: "tls", 2: "omac", 3: "ciph", 4: "fault"}
def kd(name, mode, kuz=0, *extra, **kw):
    kw.setdefault("wkey", W[mode]); kw.setdefault("solvers", ("z3", "cvc5"))
    return cipher_job(name, "kdf.c", ["-DMODE=%d" % mode, "-DKUZ=%d" % kuz, *extra], dict(UNITS, **({"gost_md.c": []} if mode == 3 else {"gost_keyexpimp.c": [], "gost_omac.c": [], "gost_md.c": []})),
        **dict(dict(models=("misc", "evp_model", "obj", "omodel"), timeout=90, unwind=140, fallback=(), assumptions=[HM, EVPM]), **kw))
def kdf(ol, kl, ll, sl, R, *extra, **kw):
    kw.setdefault("unwind", ol + 100)
    return kd("kdf_%d_%d_%d_%d_%d" % (ol, kl, ll, sl, R), 0, 0, "-DOL=%d" % ol, "-DKL=%d" % kl, "-DLL=%d" % ll, "-DSL=%d" % sl, "-DCW=%d" % R, "-DOMAX=%d" % ol, *extra, bounds="output %d, key %d, label %d, seed %d bytes, counter width %d; all contents" % (ol, kl, ll, sl, R), **kw)
JOBS += [kdf(*x) for x in ((32, 32, 6, 8, 1), (64, 32, 8, 8, 1), (64, 32, 4, 8, 4), (96, 32, 5, 3, 2), (32, 32, 0, 0, 3), (64, 32, 1, 16, 0), (64, 32, 1, 16, 5), (0, 32, 4, 8, 1), (33, 32, 4, 8, 1), (63, 32, 4, 8, 2), (64, 16, 4, 8, 1), (1, 32, 1, 1, 1), (31, 32, 1, 1, 1))]
JOBS += [kdf(8192, 32, 1, 1, 1, unwind=9000), kdf(8192, 32, 1, 1, 2, "-DVP_HMAC_REC", unwind=9000, solvers=("sat",), mem=False, timeout=240), kdf(2048, 32, 1, 1, 1, unwind=2200, tier="thorough", timeout=300)]
JOBS += [kd("tlstree%d" % k, 1, k, bounds="all keys and sequence numbers") for k in (0, 1)]
JOBS += [kd("omac%d" % k, 2, k, bounds="two records; all keys, sequence numbers, data") for k in (0, 1)]
JOBS += [kd("%s_dec%d_%d" % (n, d, p), 3, k, "-DDESC=" + desc, "-DCTXT=" + ct, "-DIVL=%d" % ivl, "-DDEC=%d" % d, "-DPRE=%d" % p, "-DRECLEN=%d" % rl, "-DRECS=%d" % (2 - d), bounds="two records of %d bytes after %d bytes; all keys, IVs, sequence numbers, data" % (rl, p))
    for n, k, desc, ct, ivl, rl in (("magma", 0, "magma_ctr_cipher", "struct ossl_gost_cipher_ctx", 4, 11), ("kuz", 1, "grasshopper_ctr_cipher", "gost_grasshopper_cipher_ctx_ctr", 8, 19)) for d, p in ((0, 0), (1, 5))]
JOBS += [kd("fault%d" % t, 4, 1, "-DTLS=%d" % t, "-DFAULTS=%d" % (30 if t else 20), "-DOMAX=64", bounds="every single failing underlying call") for t in (0, 1)]
JOBS += [kd("kdf_huge", 0, 0, "-DHUGE", "-DOMAX=32", bounds="output lengths 2^29, 2^30, 2^37")]
