from reg.common import *
JOBS = []
def imit(name, L, a0=0, a1=0, b1=0, keymode=0, which=0, size=0, pre=0, copy=0, extra=(), **kw):
    kw.setdefault("fallback", ()); kw.setdefault("timeout", 60)
    kw.setdefault("bounds", "prefix of %d fixed bytes, then %d bytes cut at %d..%d with a second piece of up to %d bytes; all keys and data" % (pre, L, a0, a1, b1))
    return cipher_job(name, "imit.c", ["-DLEN=%d" % L, "-DA0=%d" % a0, "-DA1=%d" % a1, "-DB1=%d" % b1, "-DKEYMODE=%d" % keymode, "-DWHICH=%d" % which, "-DSIZE=%d" % size, "-DPRE=%d" % pre, "-DCOPY=%d" % copy, *extra],
        dict(UNITS, **{"gost_md.c": []}), unwind=max(80, pre + L + 2), assumptions=[UF89, EVPM], **kw)
NK = dict(keymode=3, wkey="nokey")
JOBS += [imit("w%d_len%d" % (w, L), L, 0, L, 9, which=w) for w in (0, 1) for L in (0, 1, 7, 8, 9, 16, 17)]
JOBS += [imit("len24", 24, 0, 24, 16, which=0, tier="thorough", timeout=200),
         imit("params", 11, 0, 3, 2, keymode=1), imit("noparams", 11, 0, 3, 2, keymode=2, which=1),
         imit("nokey", 3, **NK), imit("nokey12", 9, which=1, **NK)]
JOBS += [imit("size%d" % s, 10, 4, 4, 0, size=s) for s in (1, 2, 3, 5, 6, 7, 8)]
JOBS += [imit("mesh_%d_%d" % (p, L), L, 0, L if L < 10 else 9, 0, pre=p, which=p & 1, timeout=90) for p, L in ((1016, 8), (1016, 9), (1013, 12), (1024, 8))]
JOBS += [imit("mesh2", 9, 0, 1, 0, pre=2047, which=1, timeout=200, tier="thorough")]
JOBS += [imit("low_%d" % L, L, extra=("-DLOW",), wkey="low", bounds="%d bytes, both helpers, 0..64 bits; all keys, IVs, data" % L) for L in (0, 1, 8, 9, 16, 19)]
