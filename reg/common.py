from check import Job
BLK89 = ["gostcrypt", "gostdecrypt", "magmacrypt", "magmadecrypt", "mac_block", "kboxinit"]
BLKGH = ["grasshopper_set_encrypt_key", "grasshopper_set_decrypt_key", "grasshopper_encrypt_block", "grasshopper_decrypt_block"]
U_CRYPT = {"gost89.c": BLK89, "gost_crypt.c": []}
U_GH = {"gost_grasshopper_cipher.c": []}
UF89 = "28147-89/Magma block functions abstracted to uninterpreted keyed functions (exact conformity is decided by P01)"
UFGH = "Kuznyechik block functions abstracted to uninterpreted keyed functions (exact conformity is decided by P03)"
EVPM = "EVP layer by an executable model of OpenSSL 3.0's legacy (engine) cipher/digest dispatch, /verif/vp/evp_model.c"
NAT_GH = ("gost_grasshopper_core.c", "gost_grasshopper_defines.c", "gost_grasshopper_precompiled.c", "gost_grasshopper_galois_precompiled.c")

def stream(name, m, L, a0, a1, b0=0, b1=0, enc=1, extra=(), inplace=False, bounds=None, mem=False, **kw):
    gh = m >= 6
    defs = ["-DMODE=%d" % m, "-DLEN=%d" % L, "-DA0=%d" % a0, "-DA1=%d" % a1, "-DB0=%d" % b0, "-DB1=%d" % b1, "-DENC=%d" % enc, "-DUF_KBOX", "-DUF_INVERSE", *extra]
    if inplace:
        defs.append("-DINPLACE")
    units = {"gost_crypt.c": [], "gost_gost2015.c": [], "gost89.c": BLK89}
    if gh:
        units["gost_grasshopper_cipher.c"] = []
    else:
        units["gost_grasshopper_cipher.c"] = []      # inc_counter lives there
    a = dict(stubs=("uf89", "ufgh"), models=("misc", "evp_model", "obj"), native=NAT_GH, unwind=max(L + 12, 36),
             solvers=("z3",), timeout=120, mem=mem, bounds=bounds or "message of %d bytes, first cut at %d..%d, second piece %d..%d bytes, %s%s; all keys, IVs, data" % (L, a0, a1, b0, b1, "encrypt" if enc else "decrypt", " in place" if inplace else ""),
             assumptions=[UFGH if gh else UF89, EVPM])
    a.update(kw)
    return Job(name, "stream.c", units, defs=tuple(defs), **a)

UNITS = {"gost_crypt.c": [], "gost_gost2015.c": [], "gost89.c": BLK89, "gost_grasshopper_cipher.c": []}

def cipher_job(name, src, defs, units=None, **kw):
    a = dict(stubs=("uf89", "ufgh"), models=("misc", "evp_model", "obj"), native=NAT_GH, unwind=80,
             solvers=("z3",), timeout=120, mem=False, assumptions=[UF89, UFGH, EVPM])
    a.update(kw)
    return Job(name, src, dict(units or UNITS), defs=("-DUF_KBOX", "-DUF_INVERSE", *defs), **a)
