"""Generates and discharges the obligations of the contracts: every contract is executed symbolically for all inputs."""
import enum
import json
import multiprocessing
import os
import sys
import time
import traceback
import random
import z3
from dv.core import *
from dv.values import *
from dv import core
from dv import interp as X
from dv import harness as H

sys.setrecursionlimit(20000)
SMALL = 3            # lists of at most this length are enumerated

class Obligation:
    __slots__ = ("label", "status", "back", "detail", "imprecise")
    def __init__(self, label, status, back, detail=None):
        self.label, self.status, self.back, self.detail = label, status, back, detail
        self.imprecise = E.imprecise

def lazy_name(n):
    return isinstance(n, str)

class SymDom:
    """The domain object of a contract, for all inputs at once."""
    SYMBOLIC = True
    native = False

    def __init__(self):
        self.prefix = Lst(())
        self.obls = []
        self.sections = {}
        self.n_bound = 0

    # -- names
    def full(self, name):
        if not isinstance(name, str):
            raise Unsupported("input with a computed name")
        return ".".join([x for s in self.prefix.p for x in s.vals] + [name])
    def input(self, name, sort, kind, scopes=None):
        full = self.full(name)
        t = E.named("in:" + full, sort)
        E.inputs[full] = (list(E.scopes), t, kind)
        return t

    # -- inputs
    def bool(self, name):
        return SBool(self.input(name, B, "bool"))
    def chance(self, name, p):
        return SBool(self.input(name, B, "bool"))
    def int(self, name, lo=None, hi=None, near=None):
        t = self.input(name, I, "int")
        if isinstance(lo, int) and lo == hi:
            return lo
        for b, f in ((lo, lambda x: t >= x), (hi, lambda x: t <= x)):
            if b is not None:
                E.fact(f(term(b)))
        return SInt(t)
    def choose(self, name, options):
        ops = X.to_items(options)
        t = self.input(name, I, "int")
        E.fact(z3.And(0 <= t, t < len(ops)))
        if len(ops) == 1:
            return ops[0]
        v = ite([t == j for j in range(len(ops))], ops)
        if v is not None and all(isinstance(x, (int, str, enum.Enum)) for x in ops):
            return v
        for j, o in enumerate(ops):
            if j == len(ops) - 1 or E.decide(t == j):
                return o
    def enum(self, name, cls):
        t = self.input(name, I, "int")
        E.fact(z3.And(0 <= t, t < len(members(cls))))
        return SEnum(cls, t)
    def str(self, name, pool=(), free=True):
        t = self.input(name, I, "str")
        if free is False:
            E.fact(disj([t == term(x) for x in X.to_items(pool)]))
        return SStr(t)
    def list(self, name, elem, max=None, min=0):
        full = self.full(name)
        n = self.input(name + ".len", I, "int")
        E.fact(n >= min)
        if max is not None:
            E.fact(n <= max)
        if isinstance(min, int) and isinstance(max, int) and max <= SMALL:
            k = min
            while k < max and not E.decide(n == k):
                k += 1
            out = []
            for j in range(k):
                self.push("%s[%d]" % (name, j))
                out.append(X.call(elem, [self]))
                self.pop()
            return Lst([Items(out)])
        i = new_index("i")
        mark = next(E.oids)
        def go():
            E.scopes.append(i)
            E.add(z3.And(0 <= i, i < n))
            self.push(name + "[]")
            v = X.call(elem, [self])
            self.pop()
            return freeze(v, mark)
        res = E.explore(go)
        export_facts(res, (i, n))
        facts = [f for lv, v in res for f in path_facts(lv, True)]
        return Lst([Tmpl(n, i, [(conj(lv.decisions), (v,)) for lv, v in res], facts)])
    def push(self, s):
        self.prefix.write(norm(self.prefix.p + (Items([s]),)))
    def pop(self):
        self.prefix.write(norm([Items(self.prefix.p[0].vals[:-1])]))
    def unique(self, name):
        """Different unique inputs are different integers: a section number and a position within it, recovered by functions."""
        full = self.full(name)
        t = self.input(name + "[0]", I, "int")
        sec = self.sections.setdefault(full, len(self.sections))
        section = z3.Function("section", I, I)
        E.fact(t >= 0)
        E.fact(section(t) == sec)
        fname = "in:" + full + "[0]"
        inv = {}
        for k, s in enumerate(E.scopes):
            g = z3.Function("pos:%s:%d" % (full, k), I, I)
            inv[k] = g
            E.inverses[g.name()] = (fname, k)
            E.fact(g(t) == s)
        if inv:
            E.injective[fname] = inv
        return SInt(t)
    def unique_list(self, name, n):
        """n unique integers."""
        if isinstance(n, int):
            return Lst([Items([self.unique("%s[%d]" % (name, i)) for i in range(n)])])
        if not isinstance(n, SInt):
            raise Unsupported("length")
        i = new_index("u")
        def go():
            E.scopes.append(i)
            E.add(z3.And(0 <= i, i < n.t))
            return self.unique(name + "[]")
        res = E.explore(go)
        export_facts(res, (i, n.t))
        return Lst([Tmpl(n.t, i, [(TRUE, (v,)) for lv, v in res], [f for lv, v in res for f in path_facts(lv)])])
    def words_line(self, words):
        return Line(Lst(words.p))

    # -- specification
    def assume(self, cond):
        c = X.truth(cond)
        if c is False:
            raise Infeasible()
        if c is not True:
            if c.weak:
                raise Unsupported("assumption of a comparison that is only decided one way")
            E.assume(c.t)
    def check(self, label, cond, detail=None):
        c = X.truth(cond)
        if c is True:
            self.obls.append(Obligation(label, "discharged", "evaluation"))
            return
        t = bterm(c)
        st, back = E.prove(t)
        if st == "refuted" and is_weak(c):
            st = "unknown"
        m = None
        if st != "discharged":
            m = self.extract(back) if back is not None else None
            back = "z3"
        self.obls.append(Obligation(label, st, back, m))
        if c is False:
            raise Infeasible()
        if not is_weak(c) or st == "discharged":
            E.fact(t)
    def same(self, a, b):
        return X.eq(a, b, True)
    def snap(self, x):
        return X.deep(x)
    def call(self, f, *args, **kw):
        try:
            v = X.call(f, list(args), kw)
            return Obj(H.Outcome, {"value": v, "exc": None})
        except PyRaise as e:
            return Obj(H.Outcome, {"value": None, "exc": e.exc})
    def by_induction(self, f, contract):
        E.hypotheses[f] = contract
    def is_same_object(self, a, b):
        return X.is_same(a, b)
    def share(self, a, b):
        raise Unsupported("sharing")
    def apart(self, a, b):
        pb = containers(b)
        return not any(i in pb for i in containers(a))
    def made_anew(self, a):
        return all(o.origin == "fresh" for o in containers(a).values())

    # -- counterexamples
    def extract(self, model):
        """{input name: value} of a model of the negated obligation."""
        out = {}
        texts = {}
        def value(t, kind):
            v = model.eval(t, model_completion=True)
            if kind == "bool":
                return z3.is_true(v)
            n = v.as_long()
            if kind == "int":
                return n
            if n not in texts:
                texts[n] = self.text(model, n, texts)
            return texts[n]
        def expand(full, scopes, t, kind, env, done):
            if not scopes:
                try:
                    out[done] = value(sub(t, env), kind)
                except Exception:
                    pass
                return
            k = done.index("[]")
            ln = out.get(done[:k] + ".len")
            for j in range(min(ln, 40) if isinstance(ln, int) else 0):
                expand(full, scopes[1:], t, kind, env + [(scopes[0], z3.IntVal(j))], done[:k] + "[%d]" % j + done[k + 2:])
        try:
            for full, (scopes, t, kind) in sorted(E.inputs.items(), key=lambda x: (len(x[1][0]), x[0])):
                if full.count("[]") == len(scopes):
                    expand(full, scopes, t, kind, [], full)
        except Exception:
            return out
        return out
    def text(self, model, n, texts):
        s = text_of_code(n)
        if s is not None:
            return s
        try:
            ln = model.eval(strlen(z3.IntVal(n)), model_completion=True).as_long()
            if 0 < ln <= 12:
                cs = []
                for j in range(ln):
                    c = text_of_code(model.eval(char(z3.IntVal(n), z3.IntVal(j)), model_completion=True).as_long())
                    cs.append(c if c is not None and len(c) == 1 else "~")
                s = "".join(cs)
                if s not in texts.values() and s not in core._lits:
                    return s
        except Exception:
            pass
        return "~%d" % len(texts)

def containers(x, acc=None):
    """The objects reachable from x that own something: {number: object}."""
    acc = {} if acc is None else acc
    if isinstance(x, tuple):
        for y in x:
            containers(y, acc)
    elif isinstance(x, Obj):
        if not isinstance(x.cls, type):
            raise Unsupported("objects of this class")
        small = x.cls.__module__ in H.SMALL
        if x.oid not in acc:
            if not small:
                acc[x.oid] = x
            for y in x.p.values():
                containers(y, acc)
    elif isinstance(x, (Lst, Dct, SetV)):
        if x.oid not in acc:
            acc[x.oid] = x
            segments(x.p, acc)
    elif isinstance(x, FObj):
        if x.kind is not Obj or x.cls.__module__ not in H.SMALL:
            raise Unsupported("lists within the elements of a list")
        for y in x.p.values():
            containers(y, acc)
    elif isinstance(x, Splice):
        segments(x.segs, acc)
    elif isinstance(x, (HObj, Bound)) or not isinstance(x, (Sym, type(None), bool, int, float, str, bytes, enum.Enum, type)):
        raise Unsupported("ownership of a %s" % type(x).__name__)
    return acc

def segments(segs, acc):
    for s in segs:
        for vs in ([s.vals] if isinstance(s, Items) else [v for g, v in s.alts]):
            for y in vs:
                containers(tuple(y[1:]) if isinstance(y, tuple) and y and y[0] == "set" else y, acc)

def prove_contract(c, param, seconds):
    """Obligations of one instance of a contract on all its paths."""
    t0 = time.time()
    E.reset()
    E.imprecise = False
    E.stats = core.Stats()
    core.reset_strings()
    X._dctmemo.clear()
    E.deadline = t0 + seconds
    before = dict(X.executed)
    d = SymDom()
    E.obls = d.obls
    forker = None
    def go():
        E.imprecise = False
        E.hypotheses.clear()
        E.active.clear()
        try:
            X.call(c.fn, [d] if param is None else [d, X.to_heap(param, "fresh")])
        except PyRaise as e:
            st, back = E.prove(FALSE)
            if st != "discharged":
                d.obls.append(Obligation("unexpected exception %s" % e.exc.cls.__name__, st, "z3", d.extract(back) if back is not None else None))
                d.obls[-1].back = str(e.exc.p.get("args"))[:200]
        return None
    def on_child():
        del d.obls[:]
        E.stats.__init__()
        before.clear()
        before.update(X.executed)
    if core.Forker.running is not None:
        forker = E.forker = core.Forker(on_child)
        forker.running.acquire()
    unsupported = None
    try:
        try:
            E.explore(go)
        except Unsupported as e:
            unsupported = str(e)
        except NotPure as e:
            unsupported = "effects in a condition: %s" % e
        except RecursionError:
            unsupported = "recursion"
        except MemoryError:
            unsupported = "memory"
        except z3.Z3Exception as e:
            unsupported = "solver: %s" % str(e)[:100]
        except Exception:
            unsupported = "verifier error: " + traceback.format_exc()[-600:]
        ex = {k for k, v in X.executed.items() if v != before.get(k, 0)}
        r = dict(unsupported=unsupported, obls=[(o.label, o.status, o.back, o.detail, o.imprecise) for o in d.obls], executed=ex, paths=E.stats.paths,
                 queries=E.stats.qf + E.stats.full, solver=E.stats.time, cvc5=E.stats.cvc5)
        if forker is not None:
            if unsupported is not None:
                forker.stop[0] = 1
            forker.running.release()
            for x in forker.collect():
                if x is None:
                    r["unsupported"] = r["unsupported"] or "a process of the verifier ended"
                    continue
                if r["unsupported"] in (None, core.STOPPED):
                    r["unsupported"] = x["unsupported"] or r["unsupported"]
                for k in ("obls", "paths", "queries", "solver", "cvc5"):
                    r[k] += x[k]
                r["executed"] |= x["executed"]
            if forker.out is not None:
                forker.send(r)
    finally:
        if forker is not None and forker.out is not None:
            os._exit(1)
        E.forker = None
    r.update(executed=sorted(r["executed"]), solver=round(r["solver"], 3), wall=round(time.time() - t0, 3))
    return r

# ------------------------------------------------------------------ a whole property
TRUSTED = ["dv (the symbolic executor of this directory: Python semantics, list and loop summaries, encoding of strings as codes)", "z3 (and cvc5 where named)",
           "CPython evaluates operations on values that are the same for all inputs (tables, json.loads, shlex on literals)"]

def confirm_failure(c, param, model, label, seed, tries=60):
    """Run the real code on the verifier's counterexample (then on variations of it)."""
    model = model or {}
    end = time.time() + 20
    for k in range(tries):
        if time.time() > end:
            break
        rng = random.Random(seed * 1000 + k)
        m = dict(model) if k == 0 else {n: v for n, v in model.items() if rng.random() > (0.1, 0.3, 0.6)[k % 3]}
        d = H.NativeDom(rng, model=m)
        try:
            r = H.run_one(c, param, d)
        except (H.Reject, H.Stop):
            continue
        if r is not None:
            return dict(prop=c.prop, contract=c.name, param=param, trace=d.trace, names=d.names, label=r[0], detail=str(r[1])[:1000], obligation=label, from_counterexample=k == 0)
    return None

def prove_instance(task):
    k, i, seconds, seed = task
    E.patient = True
    c = H.CONTRACTS[k]
    try:
        r = prove_contract(c, c.params[i], seconds)
    except MemoryError:
        r = dict(unsupported="memory", obls=[], executed=[], paths=0, queries=0, solver=0, wall=0, cvc5=0)
    except Exception:
        r = dict(unsupported="verifier error: " + traceback.format_exc()[-600:], obls=[], executed=[], paths=0, queries=0, solver=0, wall=0, cvc5=0)
    r["key"] = (k, i)
    failing, seen = [], set()
    for o in r["obls"]:
        if o[1] != "discharged" and (o[0], o[1]) not in seen and len(failing) < 8:
            seen.add((o[0], o[1]))
            failing.append(o)
    r["confirmed"] = None
    for o in failing:
        f = confirm_failure(c, c.params[i], o[3], o[0], seed)
        if f is not None:
            r["confirmed"] = f
            break
    r["failing"] = [(o[0], o[1], str(o[2])[:300], repr(o[3])[:1500], o[4]) for o in failing]
    by, st = {}, {}
    for o in r["obls"]:
        st[o[1]] = st.get(o[1], 0) + 1
        if o[1] == "discharged":
            by[o[2]] = by.get(o[2], 0) + 1
    r["labels"] = sorted({o[0] for o in r["obls"]})
    r["status"], r["by"] = st, by
    del r["obls"]
    return r

CLAIMED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claimed.json")

def instance_name(key):
    c = H.CONTRACTS[key[0]]
    return c.name + ("" if c.params[key[1]] is None else "(%s)" % (c.params[key[1]],))

def prove_property(H_, prop, seconds, total, seed, everything=False):
    """Discharge the obligations of the contracts of a property.  seconds: per instance, total: for all.
    claimed.json names the contract instances whose obligations are all discharged for the code as delivered: one of these that is no longer
    discharged is a violation.  The others are attempted only if everything is asked for; the run-time check of the contract stands in for them."""
    t0 = time.time()
    tasks, bounded_by_design, skipped = [], {}, {}
    claims = json.load(open(CLAIMED)).get(prop, {}) if os.path.exists(CLAIMED) else {}
    proved_before, bounded_before = claims.get("proved", {}), claims.get("bounded", {})
    for k, c in enumerate(H.CONTRACTS):
        if c.prop != prop:
            continue
        if c.prove is not True:
            bounded_by_design[c.name] = c.prove or "not within the verifier's reach"
            continue
        for i in range(len(c.params)):
            n = instance_name((k, i))
            if n in proved_before or everything:
                tasks.append((k, i, seconds, seed))
            else:
                skipped[n] = bounded_before.get(n, "attempted only by the thorough check")
    tasks.sort(key=lambda t: -proved_before.get(instance_name(t[:2]), 0))
    res, pending = [], []
    if tasks:
        ctx = multiprocessing.get_context("fork")
        core.Forker.setup(os.cpu_count() or 1)
        with ctx.Pool(min(12, len(tasks)), maxtasksperchild=1) as pool:
            hs = [(t, pool.apply_async(prove_instance, (t,))) for t in tasks]
            for t, h in hs:
                try:
                    res.append(h.get(max(0.1, total - (time.time() - t0))))
                except multiprocessing.TimeoutError:
                    pending.append(t)
            pool.terminate()
    name = instance_name
    out = dict(bounded=dict(skipped), instances={}, confirmed=None, unproved=[], bounded_by_design=bounded_by_design)
    for t in pending:
        out["bounded"][name(t[:2])] = "time budget for the proof used up"
    total_obl = disch = 0
    by, executed = {}, set()
    solver = 0.0
    for r in res:
        n = name(r["key"])
        executed.update(r["executed"])
        solver += r["solver"]
        total_obl += sum(r["status"].values())
        disch += r["status"].get("discharged", 0)
        for b, m in r["by"].items():
            by[b] = by.get(b, 0) + m
        out["instances"][n] = dict(obligations=sum(r["status"].values()), discharged=r["status"].get("discharged", 0), postconditions=r["labels"], paths=r["paths"], solver_queries=r["queries"],
                                   solver_s=r["solver"], wall_s=r["wall"])
        if r["unsupported"]:
            out["bounded"][n] = r["unsupported"]
        if r["confirmed"] is not None and out["confirmed"] is None:
            out["confirmed"] = r["confirmed"]
        for f in r["failing"]:
            if r["confirmed"] is None:
                (out["bounded"].__setitem__(n, "postcondition '%s' depends on text the verifier does not interpret" % f[0]) if f[4] else
                 out["bounded"].__setitem__(n, "postcondition '%s' is %s" % (f[0], f[1])) if n not in proved_before else
                 out["unproved"].append(dict(contract=H.CONTRACTS[r["key"][0]].name, instance=n, obligation=f[0], status=f[1], back_end=f[2], counterexample=f[3])))
    proved = [n for n in out["instances"] if n not in out["bounded"] and out["instances"][n]["obligations"] == out["instances"][n]["discharged"]]
    out["complete"] = not out["bounded"] and bool(tasks) and disch == total_obl
    out["summary"] = "proved: %d of %d contract instances, %d of %d obligations%s" % (len(proved), len(tasks) + len(skipped), disch, total_obl, "" if not out["bounded"] else ", bounded only: " + ", ".join(sorted(out["bounded"]))[:300])
    out["coverage"] = dict(obligations=total_obl, discharged=disch, checker_cmd="python3-vt -B check.py %s" % prop, trusted_base=TRUSTED, discharged_by=by, solver_s=round(solver, 2), proof_wall_s=round(time.time() - t0, 2),
                           functions_executed=sorted(executed), proved_instances=out["instances"], not_proved={**{k: "bounded by design: %s" % v for k, v in bounded_by_design.items()}, **out["bounded"]})
    out["assumptions"] = ["integers are mathematical", "strings are uninterpreted apart from equality, length, characters, prefixes and the values of functions on literals", "memory and recursion depth suffice"]
    return out
