"""usage: kf.py PROPERTY COMMIT WHAT  -- records a repaired defect"""
import json
import os
import sys

f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
p, c, w = sys.argv[1:4]
key = next(k for k in d if isinstance(d[k], list))
d[key].append(dict(property=p, status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}"))
json.dump(d, open(f, "w"), indent=1)
