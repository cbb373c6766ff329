"""Core of the verifier: symbolic values, heap, path exploration, solver access.

Ints are mathematical integers, bools z3 booleans, enums indices of their members.  Strings are represented by integer
codes: every literal has its own code, a symbolic string any code; operations on strings are uninterpreted functions of
the code whose values on all literals are computed by CPython.
"""
import ctypes
import itertools
import mmap
import multiprocessing
import os
import pickle
import shutil
import signal
import subprocess
import time
import z3

class Unsupported(Exception):
    """Outside the verifier's reach (never reported as a violation)."""
class Infeasible(Exception):
    pass
class PyRaise(Exception):
    """A Python exception raised by the interpreted code; exc is an Obj of an exception class."""
    def __init__(self, exc):
        Exception.__init__(self, "")
        self.exc = exc

I = z3.IntSort()
B = z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

# ------------------------------------------------------------------ scalars
class Sym:
    __slots__ = ("t",)
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return "%s<%s>" % (type(self).__name__, self.t)
class SBool(Sym):
    """weak: the term implies the meant condition but may be stronger (only usable as a proof goal)."""
    __slots__ = ("weak",)
    def __init__(self, t, weak=False):
        self.t, self.weak = t, weak
class SInt(Sym): __slots__ = ()
class SStr(Sym): __slots__ = ()
class SEnum(Sym):
    __slots__ = ("cls",)
    def __init__(self, cls, t):
        self.cls, self.t = cls, t
class Line:
    """A command line that the shell splits into the given words."""
    __slots__ = ("words",)
    def __init__(self, words):
        self.words = words
class Poison:
    """The value of a variable that a summarised loop leaves unknown."""
    __slots__ = ("why",)
    def __init__(self, why):
        self.why = why
class Late:
    """The value assigned in the last of n iterations, or the value before if n is 0."""
    __slots__ = ("n", "tmpl", "before")
    def __init__(self, n, tmpl, before):
        self.n, self.tmpl, self.before = n, tmpl, before

# ------------------------------------------------------------------ strings
_lits, _texts = {}, {}
_strfuns = {}
_prefixes = {}
_version = 0

def reset_strings():
    global _version
    _lits.clear(); _texts.clear(); _strfuns.clear(); _prefixes.clear()
    _version += 1

def lit(s):
    global _version
    k = _lits.get(s)
    if k is None:
        k = len(_lits)
        _lits[s] = k
        _texts[k] = s
        _version += 1
    return z3.IntVal(k)

def text_of_code(k):
    return _texts.get(k)

strlen = z3.Function("strlen", I, I)
char = z3.Function("char", I, I, I)

def strfun(name, args, sort, pyf):
    global _version
    key = (name, args)
    if key not in _strfuns:
        _strfuns[key] = (z3.Function("%s%r" % (name, args), I, sort), pyf)
        _version += 1
    return _strfuns[key][0]

def cat_prefix(p, t):
    """p + t for a literal p."""
    global _version
    if p not in _prefixes:
        _prefixes[p] = (z3.Function("cat:" + p, I, I), z3.Function("uncat:" + p, I, I))
        lit(p)
        _version += 1
    return _prefixes[p][0](t)

def lift(v):
    return lit(v) if isinstance(v, str) else z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v)

_lf = {}
def literal_facts():
    """(quantifier-free, quantified) facts about strings; all hold of Python strings."""
    if _lf.get("v") == _version:
        return _lf["f"]
    for _ in range(3):
        v = _version
        qf = []
        for (f, pyf) in list(_strfuns.values()):
            for s, k in list(_lits.items()):
                qf.append(f(z3.IntVal(k)) == lift(pyf(s)))
        for p, (f, g) in list(_prefixes.items()):
            for s, k in list(_lits.items()):
                if len(s) > len(p) and s.startswith(p):
                    qf.append(f(lit(s[len(p):])) == z3.IntVal(k))
                    qf.append(g(z3.IntVal(k)) == lit(s[len(p):]))
        for s, k in list(_lits.items()):
            qf.append(strlen(z3.IntVal(k)) == len(s))
            for j, c in enumerate(s[:24]):
                qf.append(char(z3.IntVal(k), z3.IntVal(j)) == lit(c))
        if v == _version:
            break
    x, j = z3.Ints("x! j!")
    q = [z3.ForAll([x], z3.And(strlen(x) >= 0, (strlen(x) == 0) == (x == lit(""))), patterns=[strlen(x)]),
         z3.ForAll([x, j], strlen(char(x, j)) == 1, patterns=[char(x, j)]),
         z3.ForAll([x], z3.Implies(strlen(x) == 1, char(x, z3.IntVal(0)) == x), patterns=[strlen(x)])]
    for p, (f, g) in list(_prefixes.items()):
        q.append(z3.ForAll([x], z3.And(g(f(x)) == x, strlen(f(x)) == len(p) + strlen(x)), patterns=[f(x)]))
    _lf["v"], _lf["f"] = _version, (qf, q)
    return _lf["f"]

# ------------------------------------------------------------------ heap
class HObj:
    """A mutable object.  Its payload p is immutable and replaced by write."""
    __slots__ = ("p", "origin", "oid", "memo")
    def __init__(self, payload, origin="fresh"):
        self.p, self.origin = payload, origin
        self.oid = next(E.oids)
        self.memo = None
    def write(self, payload, op=None):
        """op: the operation for loop summaries, ("append", segments) or ("drop", number of elements)."""
        if self.origin != "fresh":
            raise Unsupported("write to a %s object: %r" % (self.origin, self))
        E.journal.append((self, self.p, op))
        self.p = payload

class Obj(HObj):
    """Instance of a class of the program; payload: dict of fields."""
    __slots__ = ("cls",)
    def __init__(self, cls, fields=None, origin="fresh"):
        self.cls = cls
        HObj.__init__(self, dict(fields or {}), origin)
    def set(self, k, v):
        self.write({**self.p, k: v})
    def __repr__(self):
        return "<%s %s>" % (self.cls.__name__, self.p)
class Lst(HObj):
    """list; payload: tuple of segments."""
    __slots__ = ()
    def __init__(self, segs=(), origin="fresh"):
        HObj.__init__(self, norm(segs), origin)
    def __repr__(self):
        return "Lst%r" % (self.p,)
class SetV(HObj):
    """set; payload: tuple of segments of members."""
    __slots__ = ()
    def __repr__(self):
        return "Set%r" % (self.p,)
class Dct(HObj):
    """dict; payload: tuple of segments of operations ("set", key, value) and ("del", key)."""
    __slots__ = ()
    def __repr__(self):
        return "Dct%r" % (self.p,)
class Frame(HObj):
    """Local variables."""
    __slots__ = ("parent", "globs", "nonlocals", "globals_", "cls", "first")
    def __init__(self, globs, parent=None, cls=None):
        self.parent, self.globs, self.cls, self.first = parent, globs, cls, None
        self.nonlocals, self.globals_ = set(), set()
        HObj.__init__(self, {})
    def set(self, k, v):
        self.write({**self.p, k: v})
class Iter(HObj):
    """iterator; payload: (segments)"""
    __slots__ = ()

# frozen counterparts (inside templates)
class FObj:
    __slots__ = ("kind", "cls", "p")
    def __init__(self, kind, cls, p):
        self.kind, self.cls, self.p = kind, cls, p
    def __repr__(self):
        return "F<%s %s>" % (self.cls.__name__ if self.cls else self.kind.__name__, self.p)

class Splice:
    """In a template: all values of a list at this place."""
    __slots__ = ("segs",)
    def __init__(self, segs):
        self.segs = tuple(segs)
    def __repr__(self):
        return "Splice%r" % (self.segs,)

class Items:
    __slots__ = ("vals",)
    def __init__(self, vals):
        self.vals = tuple(vals)
    def __repr__(self):
        return "Items%r" % (self.vals,)
class Tmpl:
    """For every index 0 <= idx < n the values of the alternative whose guard holds; alts: [(guard, frozen values)].
    Guards are mutually exclusive and, within the range, exhaustive."""
    __slots__ = ("n", "idx", "alts", "facts")
    def __init__(self, n, idx, alts, facts=()):
        self.n, self.idx, self.alts = n, idx, list(alts)
        self.facts = [z3.And(*facts)] if len(facts) > 4 else list(facts)
    def width(self):
        """Number of values per index if it is the same for all alternatives."""
        if self.nested():
            return None
        ws = {len(v) for g, v in self.alts}
        return ws.pop() if len(ws) == 1 else None if ws else 0
    def nested(self):
        return any(isinstance(x, Splice) for g, v in self.alts for x in v)
    def __repr__(self):
        return "Tmpl(%s:%s, %s)" % (self.idx, self.n, self.alts)

def norm(segs):
    out = []
    for s in segs:
        if isinstance(s, Items):
            if not s.vals:
                continue
            if out and isinstance(out[-1], Items):
                out[-1] = Items(out[-1].vals + s.vals)
                continue
        elif z3.is_int_value(s.n) and s.n.as_long() <= 0:
            continue
        elif s.width() == 0:
            continue
        out.append(s)
    return tuple(out)

# ------------------------------------------------------------------ functions
class Closure:
    __slots__ = ("node", "frame", "defaults", "kwdefaults", "name")
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name
class Bound:
    __slots__ = ("self", "func")
    def __init__(self, self_, func):
        self.self, self.func = self_, func
class NativeFn:
    """A function implemented by the verifier: f(args, kwargs)."""
    __slots__ = ("name", "f")
    def __init__(self, name, f):
        self.name, self.f = name, f
class SuperV:
    __slots__ = ("cls", "obj")
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

# ------------------------------------------------------------------ exploration
class Level:
    def __init__(self, prefix):
        self.prefix, self.pos = prefix, 0
        self.decisions, self.trail, self.facts, self.pending, self.always, self.ground, self.lits = [], [], [], [], [], [], []

class Stats:
    def __init__(self):
        self.qf = self.full = self.paths = self.cvc5 = 0
        self.time = 0.0

STOPPED = "given up on another path"
class Forker:
    """The paths of a contract instance are explored by one process each."""
    running = waiting = None              # semaphores shared by all processes
    @classmethod
    def setup(cls, cores, waiting=60):
        ctx = multiprocessing.get_context("fork")
        cls.running, cls.waiting = ctx.Semaphore(cores), ctx.Semaphore(waiting)
    def __init__(self, on_child):
        self.children, self.out, self.on_child = [], None, on_child
        self.stop = mmap.mmap(-1, 1)          # set when one of the processes has given up
    def spawn(self):
        """True in a new process, False in this one, None if there are too many processes."""
        if not self.waiting.acquire(False):
            return None
        r, w = os.pipe()
        me = os.getpid()
        pid = os.fork()
        if pid:
            os.close(w)
            self.children.append((pid, r))
            return False
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        if os.getppid() != me:
            os._exit(1)
        os.close(r)
        for _, f in self.children:
            os.close(f)
        if self.out is not None:
            os.close(self.out)
        self.children, self.out = [], w
        self.on_child()
        self.running.acquire()
        self.waiting.release()
        return True
    def collect(self):
        """Results of the children; called without the token."""
        out = []
        for pid, f in self.children:
            data = b""
            while True:
                b = os.read(f, 1 << 16)
                if not b:
                    break
                data += b
            os.close(f)
            os.waitpid(pid, 0)
            try:
                out.append(pickle.loads(data))
            except Exception:
                out.append(None)
        return out
    def send(self, result):
        data = pickle.dumps(result)
        while data:
            data = data[os.write(self.out, data):]
        os._exit(0)

_keepmap = {}
class Engine:
    def __init__(self):
        self.stats = Stats()
        self.max_paths = 3000
        self.full_timeout = 15000
        self.hypotheses = {}            # function -> the contract that its recursive calls satisfy
        self.active = set()
        self.patient = False
        self.depth_debug = False
        self.deadline = None
        self.forker = None
        self.reset()

    def reset(self):
        self.oids = itertools.count()
        self.journal = []
        self.pc, self.qfacts = [], []
        self.levels, self.scopes = [], []
        self.pure = 0
        self.names = 0
        self.globmap = {}
        self.keep = []
        self.inc, self.incstack, self.incver = None, [], None
        self.counts = []
        self.loops = []
        self.uppers = {}
        self.lens = {}               # length of a list of several segments: the segments
        self.joins = []              # (list, separator, text) of the joins so far
        self.depth = 0
        self.memo = {}
        self.fcache = {}
        self.inputs = {}
        self.injective = {}
        self.inverses = {}           # name of an inverse function: (name of the function, argument)
        self.handling = []
        self.obls = []
        self.imprecise = False

    # -- fresh symbols: functions of the indices in scope, named deterministically along a path
    def fresh(self, name, sort):
        self.names += 1
        return self.named("%s!%d" % (name, self.names), sort)
    def named(self, name, sort):
        if not self.scopes:
            return z3.Const(name, sort)
        return z3.Function(name, *([I] * len(self.scopes)), sort)(*self.scopes)

    # -- assumptions
    def fact(self, f):
        if z3.is_true(f):
            return
        if has_quantifier(f):
            parts = conjuncts(f)
            if len(parts) > 1:
                for g in parts:
                    self.fact(g)
                return
        if self.levels:
            self.levels[-1].facts.append((list(self.levels[-1].decisions), f))
        self.add(f)
    def add(self, f):
        if has_quantifier(f):
            self.qfacts.append(f)
            f = abstract_quantifiers(f)
        self.pc.append(f)
    def ground(self, f):
        """An instance of a fact known for all indices."""
        if z3.is_true(f):
            return
        if self.levels:
            self.levels[-1].ground.append((list(self.levels[-1].decisions), f))
        self.add(f)
    def always(self, f):
        """A fact that holds by definition of the symbols it mentions, on all paths."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if self.levels:
            self.levels[-1].always.append(f)
        self.add(f)
    def assume(self, f):
        f = z3.simplify(f)
        if z3.is_false(f):
            raise Infeasible()
        self.fact(f)

    # -- solver
    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget for the proof used up")
        if self.forker is not None and self.forker.stop[0]:
            raise Unsupported(STOPPED)
    def feasible(self, cond):
        self.check_time()
        key = (tuple([f.get_id() for f in self.pc]), cond.get_id(), _version)
        r = self.fcache.get(key)
        if r is None:
            _keepmap[cond.get_id()] = cond
            for f in self.pc:
                _keepmap[f.get_id()] = f
            r = self.fcache[key] = self._feasible(cond)
        return r
    def _feasible(self, cond):
        t0 = time.time()
        qf = literal_facts()[0]
        if self.inc is None or self.incver != _version:
            self.inc = z3.Solver()
            self.inc.set("timeout", 1000)
            self.inc.add(*qf)
            self.incstack, self.incver = [], _version
        k = 0
        while k < len(self.incstack) and k < len(self.pc) and self.incstack[k] is self.pc[k]:
            k += 1
        if k < len(self.incstack):
            self.inc.pop(len(self.incstack) - k)
            del self.incstack[k:]
        for f in self.pc[k:]:
            self.inc.push()
            self.inc.add(f)
            self.incstack.append(f)
        self.inc.push()
        self.inc.add(abstract_quantifiers(cond))
        r = self.inc.check()
        self.inc.pop()
        self.stats.qf += 1
        self.stats.time += time.time() - t0
        return r != z3.unsat
    def full_solver(self, timeout):
        s = z3.Solver()
        s.set("timeout", timeout)
        a, b = literal_facts()
        s.add(*a); s.add(*b); s.add(*self.pc); s.add(*self.qfacts)
        return s
    def entails(self, f, timeout=2000, quick=False):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f) and not self.pc:
            return False
        if not self.feasible(z3.Not(f)):
            return True
        t0 = time.time()
        r = self.matching(z3.Not(f), timeout)
        if r == z3.unknown and not quick:
            s = self.full_solver(timeout)
            s.add(z3.Not(f))
            r = s.check()
        self.stats.full += 1
        self.stats.time += time.time() - t0
        return r == z3.unsat
    def contradictory(self):
        """Is the current path provably infeasible?"""
        if not self.feasible(TRUE):
            return True
        return self.matching(TRUE, 3000) == z3.unsat
    def matching(self, f, timeout):
        """With the quantified facts instantiated for the terms that occur only: an answer other than unsat comes soon."""
        s = z3.SimpleSolver()
        s.set("smt.mbqi", False)
        s.set("timeout", timeout)
        a, b = literal_facts()
        s.add(*a); s.add(*b); s.add(*self.pc); s.add(*self.qfacts); s.add(f)
        return s.check()
    def prove(self, f):
        """(discharged | refuted | unknown, back end or model)"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return "discharged", "simplifier"
        if not self.feasible(z3.Not(f)):
            return "discharged", "z3"
        t0 = time.time()
        try:
            if self.matching(z3.Not(f), 3000) == z3.unsat:
                return "discharged", "z3"
            s = self.full_solver(self.full_timeout)
            s.add(z3.Not(f))
            r = s.check()
            self.stats.full += 1
            if r == z3.unsat:
                return "discharged", "z3"
            if r == z3.sat:
                return "refuted", s.model()
            if cvc5_check(s) == "unsat":
                self.stats.cvc5 += 1
                return "discharged", "cvc5"
            if self.patient:
                s = self.full_solver(4 * self.full_timeout)
                s.add(z3.Not(f))
                r = s.check()
                if r == z3.unsat:
                    return "discharged", "z3"
                if r == z3.sat:
                    return "refuted", s.model()
            try:
                return "unknown", s.model()
            except z3.Z3Exception:
                return "unknown", None
        finally:
            self.stats.time += time.time() - t0

    # -- decisions
    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.levels:
            raise Unsupported("decision outside exploration")
        lv = self.levels[-1]
        if lv.pos < len(lv.prefix):
            choice, forced = lv.prefix[lv.pos]
            lv.pos += 1
            lv.trail.append((choice, forced))
        else:
            tr = self.feasible(cond)
            fa = self.feasible(z3.Not(cond)) if tr else True
            forced = not (tr and fa)
            choice = tr
            if not forced:
                if self.forker is not None and len(self.levels) == 1 and (child := self.forker.spawn()) is not None:
                    if child:                  # this process takes the other branch only
                        lv.pending, choice = [], False
                        del lv.others[:]
                else:
                    lv.pending.append(lv.trail + [(False, False)])
            lv.trail.append((choice, forced))
            lv.pos += 1
        f = cond if choice else z3.Not(cond)
        lv.lits.append((f, forced))
        if not forced:
            lv.decisions.append(f)
        self.add(f)
        return choice

    def explore(self, thunk):
        """Run thunk on every feasible path: [(level, result)].  Assumptions and heap are restored after each path."""
        pending, results, count = [[]], [], 0
        mark, npc, nq, nscopes, names = len(self.journal), len(self.pc), len(self.qfacts), len(self.scopes), self.names
        top = names
        while pending:
            lv = Level(pending.pop())
            lv.others = pending
            self.levels.append(lv)
            self.names = names
            try:
                try:
                    results.append((lv, thunk()))
                except Infeasible:
                    pass
                except Unsupported:
                    if not self.contradictory():
                        raise
                count += 1
                self.stats.paths += 1
                if count > self.max_paths:
                    raise Unsupported("too many paths")
            finally:
                self.levels.pop()
                top = max(top, self.names)
                del self.pc[npc:]
                del self.qfacts[nq:]
                del self.scopes[nscopes:]
                while len(self.journal) > mark:
                    o, p, _ = self.journal.pop()
                    o.p = p
            pending.extend(lv.pending)
        self.names = top
        return results

def conj(fs):
    fs = [f for f in fs if not z3.is_true(f)]
    return TRUE if not fs else fs[0] if len(fs) == 1 else z3.And(*fs)
def conjuncts(f):
    """Formulas whose conjunction is f."""
    if z3.is_and(f):
        return [g for c in f.children() for g in conjuncts(c)]
    if z3.is_not(f) and z3.is_or(f.arg(0)):
        return [g for c in f.arg(0).children() for g in conjuncts(c.arg(0) if z3.is_not(c) else z3.Not(c))]
    return [f]
def _numeral(f):
    """n if f is t == n."""
    if z3.is_eq(f) and f.arg(0).sort() == I:
        for x in f.children():
            if z3.is_int_value(x):
                return x.as_long()
    return None

def disj(fs):
    fs = [f for f in fs if not z3.is_false(f)]
    if len(fs) > 2:
        ns = [_numeral(f) for f in fs]
        if None not in ns:
            fs = [f for n, f in sorted(zip(ns, fs), key=lambda x: x[0])]
    return FALSE if not fs else fs[0] if len(fs) == 1 else z3.Or(*fs)

invert = None           # set by interp
_reduced = {}
def reduced(t):
    """The term with applications of inverse functions to the functions they invert removed."""
    if not E.inverses or z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        return t
    key = t.get_id()
    r = _reduced.get(key)
    if r is None or r[2] is not E.inverses:
        args = t.children()
        new = [reduced(a) for a in args]
        d = t.decl()
        o = t if all(x is y for x, y in zip(args, new)) or all(x.eq(y) for x, y in zip(args, new)) else d(*new)
        inv = E.inverses.get(d.name()) if d.arity() == 1 else None
        if inv is not None and z3.is_app(new[0]) and new[0].num_args() and new[0].decl().name() == inv[0]:
            o = new[0].arg(inv[1])
        r = _reduced[key] = (o, t, E.inverses)
    return r[0]

_ordered = {}
def ordered(t, depth=0):
    """The same formula with the arguments of conjunctions, disjunctions and equations in a fixed order."""
    if z3.is_quantifier(t) and t.num_vars() == 1 and t.num_patterns() == 0 and not t.is_lambda():
        r = _ordered.get(t.get_id())
        if r is None:
            k = z3.Const("bound!%d" % depth, t.var_sort(0))
            b = ordered(z3.substitute_vars(t.body(), k), depth + 1)
            r = _ordered[t.get_id()] = (z3.ForAll([k], b) if t.is_forall() else z3.Exists([k], b), t)
        return r[0]
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    r = _ordered.get(t.get_id())
    if r is None:
        args = [ordered(a, depth) for a in t.children()]
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            args.sort(key=lambda a: a.get_id())
            o = (z3.And if k == z3.Z3_OP_AND else z3.Or)(*args)
        elif k == z3.Z3_OP_EQ:
            args.sort(key=lambda a: a.get_id())
            o = args[0] == args[1]
        else:
            o = t if all(a.eq(b) for a, b in zip(args, t.children())) else t.decl()(*args)
        r = _ordered[t.get_id()] = (o, t)
    return r[0]

def determined(idx, body, lo=0):
    """The only value of idx for which the body can hold, if an equation of the body determines it."""
    for c in body.children() if z3.is_and(body) else [body]:
        if z3.is_eq(c) and c.arg(0).sort() == I:
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if mentions(a, idx) and not mentions(b, idx):
                    ranks = []
                    y = invert(a, idx, b, ranks)
                    if y is not None and all(not E.feasible(z3.And(body, lo <= idx, e)) for e in ranks):
                        return z3.simplify(y)
    return None

def exists(idx, n, body, lo=0):
    body = z3.simplify(body)
    if z3.is_false(body):
        return FALSE
    if z3.is_or(body) and all(determined(idx, c, lo) is not None for c in body.children()):
        return disj([exists(idx, n, c, lo) for c in body.children()])
    y = determined(idx, body, lo)
    if y is not None:
        return z3.And(lo <= y, y < n, z3.substitute(body, (idx, y)))
    k = z3.Int("k")
    b = z3.substitute(body, (idx, k))
    if not mentions(b, k):
        return z3.And(n > lo, b)
    return z3.Exists([k], z3.And(lo <= k, k < n, b))
def forall(idx, n, body, lo=0):
    body = z3.simplify(body)
    if z3.is_true(body):
        return TRUE
    neg = z3.simplify(z3.Not(body))
    if all(determined(idx, c, lo) is not None for c in (neg.children() if z3.is_or(neg) else [neg])):
        return z3.Not(exists(idx, n, neg, lo))
    k = z3.Int("k")
    b = z3.substitute(body, (idx, k))
    if not mentions(b, k):
        return z3.Or(n <= lo, b)
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < n), b))

def for_all(k, body, pattern):
    """With the pattern where the solver accepts it."""
    ok = _pattern_ok(pattern)
    return z3.ForAll([k], body, patterns=[pattern]) if ok else z3.ForAll([k], body)
def _pattern_ok(t):
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) and all(map(_pattern_ok, t.children()))

_ment = {}
def mentions(f, c):
    key = (f.get_id(), c.get_id())
    r = _ment.get(key)
    if r is None:
        if z3.is_quantifier(f):
            r = mentions(f.body(), c)
        elif f.eq(c):
            r = True
        else:
            r = any(mentions(x, c) for x in f.children())
        _ment[key] = r
        _keep.append((f, c))
    return r

_hq = {}
_keep = []
def has_quantifier(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is None:
        r = z3.is_quantifier(f) or any(has_quantifier(c) for c in f.children())
        _hq[i] = r
        _keep.append(f)
    return r

_absmap = {}
def abstract_quantifiers(f):
    """Quantified subformulas become propositional atoms (a weakening, so unsat answers stay valid)."""
    if not has_quantifier(f):
        return f
    k = f.get_id()
    r = _absmap.get(k)
    if r is None:
        if z3.is_quantifier(f):
            r = z3.Bool("Q!%d" % k)
        else:
            ch = [abstract_quantifiers(c) for c in f.children()]
            r = z3.And(*ch) if z3.is_and(f) else z3.Or(*ch) if z3.is_or(f) else f.decl()(*ch)
        _absmap[k] = r
        _keep.append(f)
    return r

def cvc5_check(solver):
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    txt = "(set-logic ALL)\n" + solver.to_smt2()
    try:
        r = subprocess.run([exe, "--tlimit=10000", "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=15)
    except Exception:
        return "unknown"
    return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"

E = Engine()
E.__class__.instance = E
