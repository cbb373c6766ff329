"""Contract registry and the CPython run-time check of contracts (inputs drawn from a recorded choice sequence).

A contract is a function of a domain object d: it draws the inputs, calls the real code and states postconditions with
d.check.  The same function is executed symbolically by dv.proof (all inputs) and here on CPython (sampled inputs).
"""
import ast
import enum
import glob
import json
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

class Contract:
    def __init__(self, prop, name, fn, targets, params, prove, weight):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.params, self.prove, self.weight = params, prove, weight

CONTRACTS = []

def contract(prop, targets=(), params=(None,), prove=True, weight=1.0, name=None):
    """targets: the functions of /repo this contract is about (documentation and evidence).  params: one instance each.
    prove: False if only the bounded run-time check applies (a string: the reason)."""
    def deco(fn):
        for p in (prop if isinstance(prop, tuple) else (prop,)):
            CONTRACTS.append(Contract(p, name or fn.__name__, fn, tuple(targets), params, prove, weight))
        return fn
    return deco

class Reject(Exception):
    """The drawn inputs do not satisfy the precondition."""

class Failed(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label, self.detail = label, detail

class Stop(Exception):
    pass

class Outcome:
    def __init__(self, value, exc):
        self.value, self.exc = value, exc
    @property
    def raised(self):
        return self.exc is not None

# ------------------------------------------------------------------ structural comparison
_ATOMS = (type(None), bool, int, float, str, bytes)

def same(a, b):
    """Same kind and same content, recursively; does not use the __eq__ of the program."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, _ATOMS):
        return a == b
    if isinstance(a, enum.Enum):
        return a is b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (set, frozenset)):
        return a == b
    if isinstance(a, type) or callable(a):
        return a == b
    if hasattr(a, "__dict__"):
        return same(vars(a), vars(b))
    return a == b

def snap(x):
    """A deep copy that does not use the program's copy protocol."""
    if isinstance(x, _ATOMS) or isinstance(x, (enum.Enum, type)):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(snap(e) for e in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return type(x)(x)
    if callable(x):
        return x
    o = object.__new__(type(x))
    o.__dict__.update({k: snap(v) for k, v in vars(x).items()})
    return o

def mutable_parts(x, acc=None):
    """All mutable objects reachable from x, by identity."""
    acc = {} if acc is None else acc
    if isinstance(x, _ATOMS) or isinstance(x, (enum.Enum, type)) or id(x) in acc:
        return acc
    if not isinstance(x, tuple):
        if callable(x):
            return acc
        acc[id(x)] = x
    if isinstance(x, (list, tuple, set, frozenset)):
        for e in x: mutable_parts(e, acc)
    elif isinstance(x, dict):
        for e in x.values(): mutable_parts(e, acc)
    elif hasattr(x, "__dict__"):
        for e in vars(x).values(): mutable_parts(e, acc)
    return acc

SMALL = ("pash_annotations.datatypes.BasicDatatypes", "pash_annotations.datatypes.BasicDatatypesWithIO", "pash_annotations.datatypes.BasicDatatypesWithIOVar",
         "pash_annotations.datatypes.AccessKind")     # values without lists of their own; no edit that a property is about changes one

def containers(x):
    return {i: y for i, y in mutable_parts(x).items() if isinstance(y, (list, dict, set)) or type(y).__module__.startswith("pash_annotations") and type(y).__module__ not in SMALL}

def show(x, depth=0):
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(show(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (show(k, depth + 1), show(v, depth + 1)) for k, v in x.items())
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, _ATOMS) or isinstance(x, (set, frozenset)) or depth > 6 or isinstance(x, type) or not hasattr(x, "__dict__"):
        return repr(x) if not hasattr(x, "__dict__") or isinstance(x, type) else "<%s>" % type(x).__name__
    return "%s(%s)" % (type(x).__name__, ", ".join("%s=%s" % (k, show(v, depth + 1)) for k, v in vars(x).items()))

# ------------------------------------------------------------------ string literals of the program
_mined = None
def mined():
    """String constants of the sources (and tables) of /repo: values the code may treat specially."""
    global _mined
    if _mined is None:
        out = set()
        for f in glob.glob(os.path.join(REPO, "pash_annotations", "**", "*.py"), recursive=True):
            if "/tests/" in f or "old_annotations" in f:
                continue
            try:
                tree = ast.parse(open(f).read())
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 24 and "\n" not in n.value[1:]:
                    out.add(n.value)
        _mined = sorted(out)
    return _mined

_ints = None
def mined_ints():
    global _ints
    if _ints is None:
        out = set()
        for f in glob.glob(os.path.join(REPO, "pash_annotations", "**", "*.py"), recursive=True):
            if "/tests/" in f or "old_annotations" in f:
                continue
            try:
                tree = ast.parse(open(f).read())
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) is int and 0 <= n.value <= 64:
                    out.add(n.value)
        _ints = sorted(out | {0, 1, 2, 3})
    return _ints

ALPHABET = list("adnqs-cfxR0\\ '\"$=/.é\n")
SPECIAL = ["", "-", "--", "-n", "a", "file", "\\n", "\\0", "-x", "s/a/b/", " ", "0"]

# ------------------------------------------------------------------ native domain
class NativeDom:
    """Draws inputs at random, or replays a recorded trace, or follows a model (name -> value)."""
    native = True

    def __init__(self, rng=None, trace=None, model=None, size=None):
        self.rng = rng or random.Random(0)
        self.replay = list(trace) if trace is not None else None
        self.model = model or {}
        self.trace = []
        self.names = []
        self.labels = {}
        self.prefix = []
        self.size = size
        self.used = set()

    # -- recording
    def _value(self, name, draw, ok):
        full = ".".join(self.prefix + [name])
        if self.replay is not None:
            if not self.replay:
                raise Stop()
            v = self.replay.pop(0)
            if not ok(v):
                raise Stop()
        elif full in self.model and ok(self.model[full]):
            v = self.model[full]
        else:
            v = draw()
        self.trace.append(v)
        self.names.append(full)
        return v

    # -- inputs
    def bool(self, name):
        return self._value(name, lambda: self.rng.random() < 0.5, lambda v: isinstance(v, bool))
    def int(self, name, lo=None, hi=None, near=None):
        """near: upper end of what is drawn, where the contract itself has no upper bound."""
        def draw():
            if near is not None:
                return self.rng.randint(lo, near)
            if lo is not None and hi is not None:
                return self.rng.randint(lo, hi)
            l = lo if lo is not None else -3
            return self.rng.choice([self.rng.randint(l, l + 8), self.rng.randint(l, l + 1000)] + [m for m in (self.rng.choice(mined_ints()),) if m >= l])
        return self._value(name, draw, lambda v: type(v) is int and (lo is None or v >= lo) and (hi is None or v <= hi))
    def choose(self, name, options):
        options = list(options)
        i = self._value(name, lambda: self.rng.randrange(len(options)), lambda v: type(v) is int and 0 <= v < len(options))
        return options[i]
    def enum(self, name, cls):
        return self.choose(name, list(cls))
    def str(self, name, pool=(), free=True):
        """A string; pool: interesting values.  free=False: only values of the pool."""
        pool = list(pool)
        def draw():
            r = self.rng.random()
            if not free or (pool and r < 0.62):
                return self.rng.choice(pool)
            if r < 0.74:
                return self.rng.choice(SPECIAL)
            if r < 0.86:
                return self.rng.choice(mined())
            if pool and r < 0.92:
                p = self.rng.choice(pool)
                c = self.rng.choice(ALPHABET)
                return self.rng.choice([p + c, c + p, p.upper(), p[:-1], p[::-1], p + p])
            return "".join(self.rng.choice(ALPHABET) for _ in range(self.rng.choice([1, 1, 2, 2, 3, 4, 6])))
        return self._value(name, draw, lambda v: isinstance(v, str) and (free or v in pool))
    def list(self, name, elem, max=None, min=0):
        def draw():
            m = max if max is not None else 1 << 30
            r = self.rng.random()
            n = min + (self.rng.randint(0, 2) if r < 0.55 else self.rng.randint(0, 4) if r < 0.93 else self.rng.randint(4, 9))
            if max is None and r > 0.992:
                n = self.rng.randint(9, 40)
            return n if n <= m else m
        n = self._value(name + ".len", draw, lambda v: type(v) is int and v >= min and (max is None or v <= max))
        out = []
        for i in range(n):
            self.prefix.append("%s[%d]" % (name, i))
            out.append(elem(self))
            self.prefix.pop()
        return out
    def distinct_ints(self, name, max=None, min=0, avoid=()):
        """Distinct non-negative integers not in avoid."""
        out = []
        seen = set(avoid)
        n = len(self.list(name, lambda d: None, max=max, min=min))
        while len(out) < n:
            v = self._value("%s[%d]" % (name, len(out)), lambda: self.rng.choice([self.rng.randint(0, n + len(seen) + 3), self.rng.randint(0, 400)]), lambda v: type(v) is int)
            if v in seen:
                if self.replay is not None: raise Stop()
                self.trace.pop(); self.names.pop(); self.model = {}
                continue
            seen.add(v)
            out.append(v)
        return out
    def unique(self, name):
        """An integer different from all others obtained so."""
        v = self.distinct_ints(name, max=1, min=1, avoid=self.used)[0]
        self.used.add(v)
        return v
    def unique_list(self, name, n):
        return [self.unique("%s[%d]" % (name, i)) for i in range(n)]
    def push(self, name):
        self.prefix.append(name)
    def pop(self):
        self.prefix.pop()
    def distinct_int(self, name, avoid=()):
        return self.distinct_ints(name, max=1, min=1, avoid=avoid)[0]
    def words_line(self, words):
        """A command line that the shell splits into exactly these words."""
        import shlex
        return " ".join(shlex.quote(w) for w in words)
    def chance(self, name, p):
        """native: True with probability p; only to bias sampling."""
        return self._value(name, lambda: self.rng.random() < p, lambda v: isinstance(v, bool))

    # -- specification
    def assume(self, cond):
        if not cond:
            raise Reject()
    def check(self, label, cond, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise Failed(label, detail() if callable(detail) else detail)
    def by_induction(self, f, contract):
        """The recursive calls of f satisfy the contract (for smaller arguments): a hypothesis of the proof, tried like everything else here."""
    def same(self, a, b):
        return same(a, b)
    def snap(self, x):
        return snap(x)
    def call(self, f, *args, **kw):
        try:
            return Outcome(f(*args, **kw), None)
        except (Failed, Reject, Stop):
            raise
        except Exception as e:
            return Outcome(None, e)
    def share(self, a, b):
        """Do a and b share a mutable object?"""
        pa, pb = mutable_parts(a), mutable_parts(b)
        return any(i in pb for i in pa)
    def is_same_object(self, a, b):
        return a is b
    def apart(self, a, b):
        """Do a and b have no list, dict, set, command or description in common?"""
        pa, pb = containers(a), containers(b)
        return not any(i in pb for i in pa)
    def made_anew(self, a):
        """Are all lists, dicts, sets, commands and descriptions of a younger than the first request?  (Only the verifier knows; natively the
        contracts compare results before and after edits.)"""
        return True

class Stuck(BaseException):
    pass

def _stuck(sig, frame):
    raise Stuck()

def run_one(c, param, d, seconds=20):
    """Returns None, or (label, detail).  An evaluation takes milliseconds; one that does not end within seconds of processor time fails."""
    import signal
    signal.signal(signal.SIGPROF, _stuck)
    try:
        try:
            signal.setitimer(signal.ITIMER_PROF, seconds)
            c.fn(d) if param is None else c.fn(d, param)
            return None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Stuck:
        return "does not end", "no result after %d s" % seconds
    except MemoryError:
        return "does not end", "memory used up"
    except (Reject, Stop):
        raise
    except Failed as f:
        return f.label, f.detail
    except RecursionError:
        return "unexpected RecursionError", ""
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "unexpected exception %s" % type(e).__name__, "%s at %s:%d" % (e, os.path.basename(tb.filename), tb.lineno)

def run_chunk(c, param, seed, count, deadline=None, stop_at_first=True, upto=None):
    """Evaluate the contract on count drawn inputs.  Deterministic in (contract, param, seed, count) unless the deadline hits."""
    import time, zlib
    rng = random.Random(zlib.crc32(("%s|%s|%r|%d" % (c.prop, c.name, param, seed)).encode()))
    res = dict(evaluations=0, rejected=0, distinct=set(), labels={}, failure=None, samples=[])
    for k in range(count):
        if deadline is not None and time.time() > deadline:
            break
        if upto is not None and k > upto:
            break
        d = NativeDom(rng)
        try:
            f = run_one(c, param, d)
        except (Reject, Stop):
            res["rejected"] += 1
            continue
        res["evaluations"] += 1
        for l, n in d.labels.items():
            res["labels"][l] = res["labels"].get(l, 0) + n
        if len(res["distinct"]) < 200000:
            res["distinct"].add(hash(json.dumps(d.trace)))
        if len(res["samples"]) < 2:
            res["samples"].append({"contract": c.name, "param": repr(param), "inputs": dict(zip(d.names, d.trace))})
        if f is not None:
            res["failure"] = dict(prop=c.prop, contract=c.name, param=param, trace=d.trace, names=d.names, label=f[0], detail=str(f[1])[:1000],
                                  chunk=dict(seed=seed, index=k))
            if stop_at_first:
                break
    return res

def replay_trace(c, param, trace):
    d = NativeDom(trace=trace)
    try:
        return run_one(c, param, d)
    except (Reject, Stop):
        return None

def find(prop, name):
    for c in CONTRACTS:
        if c.prop == prop and c.name == name:
            return c
    raise KeyError((prop, name))

def load_specs():
    import importlib
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    for f in sorted(glob.glob(os.path.join(here, "specs", "c*.py"))):
        importlib.import_module("specs." + os.path.basename(f)[:-3])
