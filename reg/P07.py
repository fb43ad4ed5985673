from reg.common import *
NID = dict(A=823, B=824, C=825, D=826, Z=1003, T=822)
JOBS = []
for e in (1, 0):
    t = "enc" if e else "dec"
    JOBS += [
        stream(t + "_split1", 1, 21, 0, 9, 0, 3, enc=e),
        stream(t + "_split2", 1, 21, 10, 17, 0, 1, enc=e),
        stream(t + "_split3", 1, 21, 3, 4, 0, 17, enc=e),
        stream(t + "_inplace", 1, 27, 7, 9, 7, 9, enc=e, inplace=True),
        stream(t + "_mesh1", 1, 1024 + 13, 1021, 1025, 0, 0, enc=e, bounds="1037 bytes, first cut 1021..1025"),
        stream(t + "_mesh2", 1, 1024 + 13, 1021, 1021, 2, 4, enc=e, bounds="1037 bytes, first cut 1021, second piece 2..4"),
        stream(t + "_memory", 1, 19, 7, 9, 0, 1, enc=e, mem=True),
    ]
for n, s in (("A", "CryptoProParamSetA"), ("B", "CryptoProParamSetB"), ("C", "CryptoProParamSetC"), ("D", "CryptoProParamSetD"), ("Z", "TC26ParamSetZ"), ("T", "TestParamSet")):
    JOBS.append(stream("set_" + n, 1, 1037, 1021, 1021, 4, 4, extra=("-DPSET=NID_id_" + dict(A="Gost28147_89_CryptoPro_A_ParamSet", B="Gost28147_89_CryptoPro_B_ParamSet", C="Gost28147_89_CryptoPro_C_ParamSet", D="Gost28147_89_CryptoPro_D_ParamSet", Z="tc26_gost_28147_param_Z", T="Gost28147_89_TestParamSet")[n], "-DSBOX=Gost28147_" + s), bounds="parameter set %s, 1037 bytes across the meshing boundary" % n))
JOBS.append(stream("nomesh", 1, 1037, 1021, 1021, 4, 4, extra=("-DMESHARG=0", "-DNOMESH"), bounds="meshing disabled by control, 1037 bytes"))
JOBS.append(stream("mesh_two", 1, 2055, 1021, 1021, 1026, 1026, bounds="2055 bytes: two meshing boundaries", tier="thorough", timeout=250))
