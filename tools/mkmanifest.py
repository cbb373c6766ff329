"""Writes /verif/MANIFEST.json from properties.jsonl, the contract registry and dv/claimed.json (which instances are proved)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from dv import harness as H
H.load_specs()
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claims = json.load(open(os.path.join(here, "dv", "claimed.json")))
TRUST = "Trusted: the verifier in dv/ (its reading of Python and of the built-ins the code uses), z3 and cvc5, shlex and json as assumed; integers are mathematical, strings abstract."
checks = []
for p in props:
    i = p["id"]
    c = claims.get(i, {"proved": {}, "bounded": {}})
    design = [(x.name, x.prove) for x in H.CONTRACTS if x.prop == i and x.prove is not True]
    n, m = len(c["proved"]), len(c["bounded"])
    level = "proof" if n and not m else "exploration"
    if level == "proof":
        note = "All obligations of the %d contract instances are discharged from the current source on every run, for all inputs and any number of iterations; the same contracts are also evaluated on CPython for drawn inputs. %s" % (n, TRUST)
    elif n:
        note = "%d contract instances proved on every run (%s); bounded (evaluated on CPython for drawn inputs only, not counted as proved): %s. %s" % (
            n, ", ".join(sorted(c["proved"]))[:400], "; ".join(sorted(c["bounded"]))[:500], TRUST)
    else:
        note = "Bounded: the contracts are evaluated on the real code on CPython for drawn inputs; nothing is counted as proved."
    if design:
        note += " Run-time only by design: " + "; ".join("%s (%s)" % (a, b or "not within the verifier's reach") for a, b in design) + "."
    tech = "contract-based deductive verification of the real code (obligations from the current source, z3/cvc5)" if n else "contracts on the real code, checked at run time (bounded)"
    if n and (m or design):
        tech += ", with run-time contract checking (bounded) where not proved"
    checks.append({"property": i, "quick_cmd": "python3-vt -B check.py %s --tier quick" % i, "thorough_cmd": "python3-vt -B check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    print(i, level, n, m, [a for a, b in design])
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "check.py decides one property: contracts in specs/, verifier in dv/, proved instances in dv/claimed.json. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
