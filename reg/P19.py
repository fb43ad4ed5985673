from reg.common import *
DIV = "key diversification as an uninterpreted function of KEK and UKM (decided by job diversify)"
def wr(name, mode, **kw):
    d = mode == 0
    a = dict(stubs=("uf89",) if d or mode == 4 else ("uf89", "ufdiv"), models=("misc",), unwind=80, solvers=("z3", "cvc5"), fallback=(), timeout=120, mem=False,
             defs=("-DUF_KBOX", "-DUF_INVERSE", "-DMODE=%d" % mode), assumptions=[UF89] + ([] if d or mode == 4 else [DIV]), wkey="w%d" % mode)
    a.update(kw)
    return Job(name, "wrap.c", {"gost_keywrap.c": [] if d or mode == 4 else ["keyDiversifyCryptoPro"], "gost89.c": BLK89 + (["gost_enc_cfb"] if d else [])}, **a)
JOBS = [wr("cfb", 4, bounds="0..4 blocks; all keys, IVs, data"), wr("diversify", 0, bounds="all KEKs and UKMs"), wr("wrap", 1, bounds="all KEKs, UKMs, keys"), wr("unwrap", 2, bounds="all KEKs and 44-byte blobs"),
        wr("roundtrip", 3, bounds="all KEKs, UKMs, keys"), wr("unwrap_mem", 2, mem=True, bounds="memory safety; all KEKs and blobs")]
