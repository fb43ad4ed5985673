from reg.common import *
JOBS = []
MUL = "the field multiplication abstracted to an uninterpreted function (exactness decided by P15)"
def mgm(name, kuz, al, ml, enc, a=None, c=None, extra=(), **kw):
    kw.setdefault("timeout", 60); kw.setdefault("muts", 16); kw.setdefault("fallback", ()); kw.setdefault("cb", ("--max-field-sensitivity-array-size", "1024"))
    a = a or (0, 0); c = c or (ml, ml)
    d = ["-DAL=%d" % al, "-DML=%d" % ml, "-DENC=%d" % enc, "-DAC0=%d" % a[0], "-DAC1=%d" % a[1], "-DMC0=%d" % c[0], "-DMC1=%d" % c[1], "-DCOPY=0" if not any("COPY" in e for e in extra) else "-DX=1", *extra]
    if kuz: d.append("-DKUZ")
    kw.setdefault("bounds", "AAD of %d bytes cut at %d..%d, message of %d bytes cut at %d..%d, %s; all keys, nonces, data, tags" % (al, *a, ml, *c, "encrypt" if enc else "decrypt"))
    return cipher_job(name, "mgm.c", d, wkey=kw.pop("wkey", "mgm%d" % kuz), assumptions=[UF89, UFGH, EVPM, MUL], **kw)
for kuz, n, bl in ((0, "magma", 8), (1, "kuz", 16)):
    for enc, e in ((1, "enc"), (0, "dec")):
        JOBS += [
            mgm("%s_%s_empty" % (n, e), kuz, 0, 0, enc),
            mgm("%s_%s_noaad" % (n, e), kuz, 0, bl + 3, enc, c=(0, 0)),
            mgm("%s_%s_noaad2" % (n, e), kuz, 0, bl + 3, enc, c=(bl - 1, bl + 2)),
            mgm("%s_%s_nomsg" % (n, e), kuz, bl + 3, 0, enc, a=(bl - 2, bl + 1)),
            mgm("%s_%s_noaad_all" % (n, e), kuz, 0, bl + 3, enc, c=(0, bl + 3), tier="thorough", timeout=200),
            mgm("%s_%s_nomsg_all" % (n, e), kuz, bl + 3, 0, enc, a=(0, bl + 3), tier="thorough", timeout=200),
            mgm("%s_%s_aadsplit" % (n, e), kuz, 2 * bl, bl, enc, a=(bl - 2, bl + 2)),
            mgm("%s_%s_msgsplit" % (n, e), kuz, 3, 2 * bl + 1, enc, c=(bl - 1, bl + 1)),
            mgm("%s_%s_long" % (n, e), kuz, 3 * bl + 1, 4 * bl - 1, enc, a=(bl, bl + 1), c=(2 * bl, 2 * bl + 1), tier="thorough", timeout=400),
            mgm("%s_%s_keytheniv" % (n, e), kuz, bl, bl + 1, enc, extra=("-DORDER=1",)),
            mgm("%s_%s_ivthenkey" % (n, e), kuz, bl, bl + 1, enc, extra=("-DORDER=2",)),
            mgm("%s_%s_inplace" % (n, e), kuz, 1, 2 * bl + 1, enc, c=(bl - 1, bl + 1), extra=("-DINPLACE",)),
            mgm("%s_%s_reuse" % (n, e), kuz, 5, bl + 5, enc, a=(2, 2), c=(1, 2), extra=("-DREUSE=1",)),
        ]
    JOBS += [mgm(n + "_block", kuz, 0, 0, 1, extra=("-DBLOCKJOB=1",), wkey="mgmb%d" % kuz, bounds="fresh context; all keys and blocks"),
             mgm(n + "_rekey", kuz, 0, 0, 1, extra=("-DBLOCKJOB=2",), wkey="mgmb%d" % kuz, bounds="re-keyed context; all keys and blocks"),
             mgm(n + "_dec_notag", kuz, 4, 4, 0, extra=("-DNOTAG",)),
             mgm(n + "_mem", kuz, bl + 1, bl + 1, 1, a=(1, 2), c=(1, 2), mem=True)]
