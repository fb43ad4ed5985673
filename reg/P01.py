from check import Job
B = "all 256-bit keys, all masks, all 64-bit blocks, arbitrary table contents; 32 rounds unrolled completely"
BLK = ["gostcrypt", "gostdecrypt", "magmacrypt", "magmadecrypt", "mac_block"]
JOBS = [Job("block_op%d" % i, "p01_block.c", {"gost89.c": []}, defs=("-DOP=%d" % i,), unwind=34, solvers=("z3", "z3new"),
            timeout=100, bounds=B) for i in range(8)]
JOBS += [Job("tables_%d" % i, "p01_tables.c", {"gost89.c": []}, defs=("-DSET=%d" % i,), unwind=258, solvers=("sat",),
             timeout=100, bounds="all 2^32 S-box inputs, " + ("arbitrary S-box set" if i == 8 else "shipped set %d" % i)) for i in range(10)]
UF = ["block cipher abstracted to an uninterpreted keyed permutation (decided exactly by the block_* jobs)"]
JOBS += [Job("ecb", "p01_ecb.c", {"gost89.c": BLK}, stubs=("uf89",), unwind=258, solvers=("z3", "sat"), timeout=100,
             bounds="0..3 blocks, in place and out of place", assumptions=UF),
         Job("enc_with_key", "p01_ecb.c", {"gost89.c": BLK}, stubs=("uf89",), defs=("-DWITHKEY",), unwind=258, solvers=("z3", "sat"), timeout=100,
             bounds="all keys, previous keys, blocks", assumptions=UF)]
