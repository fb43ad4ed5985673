from reg.common import *
JOBS = []
for n, m in (("ofb", 8), ("cfb", 9)):
    for e in (1, 0):
        t = n + ("_enc" if e else "_dec")
        JOBS += [
            stream(t + "_split1", m, 41, 0, 17, 0, 0, enc=e, wkey=n),
            stream(t + "_split2", m, 41, 18, 33, 0, 0, enc=e, wkey=n),
            stream(t + "_split3", m, 41, 7, 7, 0, 33, enc=e, wkey=n),
            stream(t + "_inplace", m, 51, 15, 17, 15, 17, enc=e, inplace=True, wkey=n),
            stream(t + "_memory", m, 35, 15, 17, 0, 1, enc=e, mem=True, wkey=n),
        ]
