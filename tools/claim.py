#!/usr/bin/env python3
"""Records in dv/claimed.json which contract instances are proved, from the evidence of `check.py PROP --everything`.   claim.py PROP..."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(here, "dv", "claimed.json")
claims = json.load(open(f)) if os.path.exists(f) else {}
for p in sys.argv[1:]:
    cov = json.load(open(os.path.join(here, "evidence", p + ".json")))["coverage"]
    bounded = {k: v for k, v in cov["not_proved"].items() if not v.startswith("bounded by design")}
    proved = {}
    for n, x in cov["proved_instances"].items():
        if n in bounded:
            continue
        if x["obligations"] != x["discharged"]:
            bounded[n] = "not discharged"
        elif x["wall_s"] > 420:
            bounded[n] = "takes too long to prove on every run (%d s)" % x["wall_s"]
        else:
            proved[n] = round(x["wall_s"], 1)
    claims[p] = {"proved": proved, "bounded": bounded}
    print(p, len(proved), "proved", len(bounded), "bounded", list(bounded.items())[:4])
json.dump(claims, open(f, "w"), indent=1, sort_keys=True)
