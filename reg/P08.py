from reg.common import *
JOBS = []
for n, m in (("cnt", 2), ("cnt12", 3)):
    JOBS += [
        stream(n + "_split1", m, 21, 0, 9, 0, 3),
        stream(n + "_split2", m, 21, 10, 17, 0, 1),
        stream(n + "_split3", m, 21, 3, 4, 0, 17),
        stream(n + "_dec", m, 19, 7, 9, 0, 1, enc=0),
        stream(n + "_inplace", m, 27, 7, 9, 7, 9, inplace=True),
        stream(n + "_mesh1", m, 1024 + 13, 1021, 1025, 0, 0, extra=("-DCARRYFORM", "-DTAIL=40"), bounds="last 40 of 1037 bytes, first cut 1021..1025"),
        stream(n + "_mesh2", m, 1024 + 13, 1021, 1021, 2, 4, extra=("-DCARRYFORM", "-DTAIL=40"), bounds="last 40 of 1037 bytes, first cut 1021, second piece 2..4"),
        stream(n + "_memory", m, 19, 7, 9, 0, 1, mem=True),
    ]
