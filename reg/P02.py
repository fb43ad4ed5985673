from check import Job
BLK = ["gostcrypt", "gostdecrypt", "magmacrypt", "magmadecrypt", "mac_block"]
N = ["load_89", "load_magma", "mesh_cryptopro", "mesh_acpkm", "destroy"]
JOBS = [Job(n, "p02_key.c", {"gost89.c": BLK}, stubs=("uf89",), defs=("-DOP=%d" % i,), unwind=258, solvers=("z3", "sat"),
            timeout=100, bounds="all keys, all masks (fresh, failing and previous), all IVs",
            assumptions=["block cipher abstracted to an uninterpreted keyed function (decided exactly by P01)"]) for i, n in enumerate(N)]
