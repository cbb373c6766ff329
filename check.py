#!/usr/bin/env python3
"""Decides one property of /repo:  check.py C01 [--tier quick|thorough]   |   check.py --replay FILE

1. dv.proof discharges the obligations generated from the contracts of the property and the current source of /repo.
2. The same contracts are checked at run time on CPython for drawn inputs (finds counterexamples, covers what is not proved).
Exit 0: held; 1: VIOLATION line; 2: the machinery itself failed.
"""
import argparse, json, os, sys, time, tempfile, shutil, subprocess, multiprocessing, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TIERS = {"quick": dict(total=120000, cap=18.0, prove=450.0, prove_total=560.0), "thorough": dict(total=4000000, cap=200.0, prove=500.0, prove_total=600.0)}
PER_TASK = 400

def run_task(task):
    from dv import harness as H
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    k, param_index, seed, count, deadline = task
    c = H.CONTRACTS[k]
    try:
        r = H.run_chunk(c, c.params[param_index], seed, count, deadline)
        r["distinct"] = list(r["distinct"])
        r["key"] = (k, param_index)
        return r
    except Exception:
        return {"error": traceback.format_exc(), "key": (k, param_index)}

def tasks_of(H, prop, tier, seed, deadline):
    out = []
    t = TIERS[tier]
    for k, c in enumerate(H.CONTRACTS):
        if c.prop != prop:
            continue
        each = max(12 if c.weight < 0.05 else 60, int(t["total"] * c.weight / len(c.params)))
        per = PER_TASK if c.weight >= 0.05 else 10
        for i in range(len(c.params)):
            n, part = each, 0
            while n > 0:
                out.append((part, (k, i, seed * 1000003 + part, min(n, per), deadline)))
                n -= per
                part += 1
    out.sort(key=lambda x: x[0])           # every contract early
    return [x[1] for x in out]

def native(H, prop, tier, seed):
    t0 = time.time()
    deadline = t0 + TIERS[tier]["cap"]
    tasks = tasks_of(H, prop, tier, seed, deadline)
    stats = {}
    failure, errors = None, []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_task, tasks):
            if "error" in r:
                errors.append(r["error"])
                break
            s = stats.setdefault(r["key"], dict(evaluations=0, rejected=0, distinct=set(), labels={}, samples=[]))
            s["evaluations"] += r["evaluations"]
            s["rejected"] += r["rejected"]
            if len(s["distinct"]) < 1000000:
                s["distinct"].update(r["distinct"])
            for l, n in r["labels"].items():
                s["labels"][l] = s["labels"].get(l, 0) + n
            if len(s["samples"]) < 2:
                s["samples"] += r["samples"]
            if r["failure"] is not None:
                failure = r["failure"]
                break
        pool.terminate()
    return stats, failure, errors, time.time() - t0

def known(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        if line.startswith("finding: property=%s " % prop):
            out.append(json.loads(line.split(" ", 2)[2]))
    return out

def is_known(f, findings):
    return any(k.get("contract") == f["contract"] and k.get("label") == f["label"] and (k.get("trace") is None or k.get("trace") == f["trace"]) for k in findings)

def write_replay(prop, data):
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d-%d.json" % (prop, os.getpid(), int(time.time() * 1000) % 10 ** 9))
    with open(p, "w") as fh:
        json.dump(data, fh, indent=1, default=repr)
    return p

def shrink(H, f, seconds=10):
    """Smaller inputs that fail in the same way."""
    c = H.find(f["prop"], f["contract"])
    param = f["param"]
    best = f["trace"]
    end = time.time() + seconds
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(best)):
            v = best[i]
            cands = [False] if v is True else [x for x in (0, v // 2, v - 1) if 0 <= x < v] if type(v) is int and v > 0 else [x for x in ("", "a", v[:1]) if len(x) < len(v)] if isinstance(v, str) else []
            for x in cands:
                t = best[:i] + [x] + best[i + 1:]
                d = H.NativeDom(trace=t)
                try:
                    r = H.run_one(c, param, d)
                except Exception:
                    continue
                if r is not None and r[0] == f["label"]:
                    best, changed = d.trace, True
                    f.update(trace=d.trace, names=d.names, detail=str(r[1])[:1000])
                    break
            if changed or time.time() > end:
                break

def replay(path):
    """Re-executes a recorded failure against /repo; exit 1 if it fails again."""
    from dv import harness as H
    H.load_specs()
    f = json.load(open(path))
    if "trace" not in f:
        print(f.get("output", "no failing input recorded"))
        return 1
    c = H.find(f["prop"], f["contract"])
    param = c.params[f["param_index"]]
    f["param"] = param
    if f.get("mode") != "chunk":
        r = H.replay_trace(c, param, f["trace"])
        if r is not None:
            print("fails: %s: %s" % r)
            return 1
    if f.get("chunk"):
        ch = f["chunk"]
        r = H.run_chunk(c, param, ch["seed"], ch["index"] + 1)
        if r["failure"] is not None:
            print("fails after earlier requests: %s: %s" % (r["failure"]["label"], r["failure"]["detail"]))
            return 1
    print("does not fail")
    return 0

def confirm(path):
    r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--replay", path], capture_output=True, text=True, timeout=300)
    return r.returncode == 1, r.stdout + r.stderr

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--everything", action="store_true", help="also attempt to prove the contract instances not claimed as proved")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="verif_run_")
    tempfile.tempdir = scratch
    os.environ["TMPDIR"] = scratch
    try:
        if a.replay:
            return replay(a.replay)
        return check(a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def check(a):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in TIERS else "quick"
    from dv import harness as H
    try:
        H.load_specs()
    except Exception:
        # the code under test no longer offers the functions the contracts are about, or fails on import
        out = traceback.format_exc()
        p = write_replay(a.prop, {"prop": a.prop, "obligation": "the program can be loaded", "output": out})
        print(out)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (a.prop, p))
        return 1
    contracts = [c for c in H.CONTRACTS if c.prop == a.prop]
    if not contracts:
        print("no contract for", a.prop)
        return 2
    stats, failure, errors, wall = native(H, a.prop, tier, seed)
    if errors:
        print(errors[0])
        return 2
    proof = None
    if failure is None and not a.no_proof:
        from dv import proof as P
        proof = P.prove_property(H, a.prop, TIERS[tier]["prove"], TIERS[tier]["prove_total"], seed, a.everything or tier == "thorough")
        failure = proof["confirmed"]
    violations = 0
    rc = 0
    findings = known(a.prop)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k.get("what")))
    if failure is not None and not is_known(failure, findings):
        c = H.find(failure["prop"], failure["contract"])
        failure["param_index"] = [repr(p) for p in c.params].index(repr(failure["param"]))
        original = dict(failure)
        shrink(H, failure)
        path = write_replay(a.prop, failure)
        ok, out = confirm(path)
        if not ok:
            path = write_replay(a.prop, dict(original, mode="chunk"))
            ok, out = confirm(path)
        print("contract %s%s: postcondition '%s' does not hold" % (failure["contract"], "" if failure["param"] is None else "(%r)" % (failure["param"],), failure["label"]))
        print("inputs:", json.dumps(dict(zip(failure["names"], failure["trace"])), default=repr)[:2000])
        print("detail:", failure["detail"])
        print("replay:", out.strip()[:500], "" if ok else "(not reproduced in a new process)")
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        violations, rc = 1, 1
    if rc == 0 and proof is not None and proof["unproved"]:
        u = proof["unproved"][0]
        path = write_replay(a.prop, dict(prop=a.prop, obligation=u["obligation"], contract=u["contract"], instance=u["instance"],
                                         output="\n".join("%s: obligation '%s': %s by %s; counterexample of the verifier: %s" % (x["instance"], x["obligation"], x["status"], x["back_end"], x["counterexample"]) for x in proof["unproved"])))
        print("contract %s: obligation '%s' is %s by the verifier (%s)" % (u["instance"], u["obligation"], u["status"], u["back_end"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (a.prop, path))
        violations, rc = 1, 1
    write_evidence(H, a.prop, tier, seed, contracts, stats, proof, violations, time.time() - t0)
    if rc == 0:
        empty = [(H.CONTRACTS[k].name, H.CONTRACTS[k].params[i]) for (k, i), s in stats.items() if s["evaluations"] == 0]
        total = sum(s["evaluations"] for s in stats.values())
        if total == 0 or empty:
            print("nothing evaluated:", empty[:5])
            return 2
        print("held: property=%s contracts=%d evaluations=%d wall=%.1fs%s" % (a.prop, len(contracts), total, time.time() - t0, "" if proof is None else " " + proof["summary"]))
    return rc

def write_evidence(H, prop, tier, seed, contracts, stats, proof, violations, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    per = {}
    for (k, i), s in stats.items():
        c = H.CONTRACTS[k]
        e = per.setdefault(c.name, dict(evaluations=0, rejected_by_precondition=0, distinct=0, instances=0, postconditions={}))
        e["evaluations"] += s["evaluations"]; e["rejected_by_precondition"] += s["rejected"]; e["distinct"] += len(s["distinct"]); e["instances"] += 1
        for l, n in s["labels"].items():
            e["postconditions"][l] = e["postconditions"].get(l, 0) + n
    targets = sorted({t for c in contracts for t in c.targets})
    samples = [x for s in stats.values() for x in s["samples"]][:6]
    cov = {"evaluations": sum(e["evaluations"] for e in per.values()), "distinct_nontrivial": sum(e["distinct"] for e in per.values()),
           "rule": "an evaluation is one call sequence on the real code with drawn inputs satisfying the precondition, every postcondition evaluated; distinct: different recorded inputs",
           "samples": samples, "functions_under_contract": targets, "runtime_contracts": per,
           "explanation": "contracts checked at run time on the real code for drawn inputs (bounded, not proved)"}
    assumptions = ["CPython and its standard library behave as documented"]
    if proof is not None:
        cov.update(proof["coverage"])
        assumptions += proof["assumptions"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop, proof), "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)

def level_of(prop, proof):
    if proof is not None and not proof["complete"]:
        return "exploration"
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m.get("checks", []):
        if c["property"] == prop:
            return c["level"]
    return "other"

if __name__ == "__main__":
    sys.exit(main())
