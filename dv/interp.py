"""Symbolic interpreter for Python: executes the functions of /repo (their current source) and the contracts alike."""
import ast
import builtins
import copy
import enum
import functools
import inspect
import itertools
import json
import os
import pkgutil
import shlex
import string
import sys
import types
import typing
import z3
from dv.core import *
from dv.values import *
from dv import core

INTERPRETED = ("pash_annotations", "specs", "dv.harness")
MAX_DEPTH = 90
MAX_WHILE = 40

# ------------------------------------------------------------------ sources
_trees = {}
def tree_of(filename):
    t = _trees.get(filename)
    if t is None:
        tree = ast.parse(open(filename).read())
        defs, lambdas = {}, []
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                defs[(line, n.name)] = n
            elif isinstance(n, ast.Lambda):
                lambdas.append(n)
        t = _trees[filename] = (defs, lambdas)
    return t

_nodes = {}
executed = {}           # name of every function of /repo that was executed symbolically

def node_of(fn):
    c = fn.__code__
    n = _nodes.get(c)
    if n is None:
        try:
            defs, lambdas = tree_of(c.co_filename)
        except (OSError, SyntaxError):
            raise Unsupported("no source of %s" % fn.__qualname__)
        if c.co_name == "<lambda>":
            pos = [p for p in c.co_positions() if p[0] is not None and p[2] is not None and (p[1], p[3]) != (p[0], p[2]) ]
            lo = min((p[0], p[2]) for p in pos)
            hi = max((p[1], p[3]) for p in pos)
            cand = [l for l in lambdas if l.lineno == c.co_firstlineno and (l.lineno, l.col_offset) <= lo and hi <= (l.end_lineno, l.end_col_offset)]
            cand.sort(key=lambda l: (l.end_lineno - l.lineno, l.end_col_offset - l.col_offset if l.end_lineno == l.lineno else 0))
            if not cand:
                raise Unsupported("lambda not found")
            n = cand[0]
        else:
            n = defs.get((c.co_firstlineno, c.co_name))
        if n is None:
            raise Unsupported("source of %s not found" % fn.__qualname__)
        _nodes[c] = n
    return n

_locals = {}
def locals_of(node):
    """(names local to the function, nonlocal names, global names)"""
    r = _locals.get(node)
    if r is not None:
        return r
    loc, nonl, glob = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        loc.add(x.arg)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list: walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            walk(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                loc.add((x.asname or x.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        for x in ast.iter_child_nodes(n):
            walk(x)
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        walk(s)
    loc -= nonl | glob
    r = _locals[node] = (loc, nonl, glob)
    return r

# ------------------------------------------------------------------ native values
class LazyV:
    """A generator or other lazy iterable: force() gives its segments; quant(any) its quantification, if supported."""
    __slots__ = ("force", "gens")
    def __init__(self, force, gens=None):
        self.force, self.gens = force, gens

def interpreted_class(c):
    return isinstance(c, type) and (c.__module__ or "").startswith(INTERPRETED)

def to_heap(v, origin):
    """Native data as heap objects."""
    if isinstance(v, list):
        o = Lst((), origin)
        if origin == "global":
            E.globmap[id(v)] = (o, v)
        o.p = norm([Items([to_heap(x, origin) for x in v])])
        return o
    if isinstance(v, (set, frozenset)):
        try:
            vs = sorted(v)
        except TypeError:
            vs = list(v)
        return SetV(norm([Items([to_heap(x, origin) for x in vs])]), origin)
    if isinstance(v, dict):
        o = Dct((), origin)
        if origin == "global":
            E.globmap[id(v)] = (o, v)
        o.p = norm([Items([("set", to_heap(k, origin), to_heap(x, origin)) for k, x in v.items()])])
        return o
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(to_heap(x, origin) for x in v)
    if origin == "global" and interpreted_class(type(v)) and not isinstance(v, enum.Enum) and hasattr(v, "__dict__"):
        o = Obj(type(v), {}, origin)
        E.globmap[id(v)] = (o, v)
        o.p = {k: wrap(x) for k, x in vars(v).items()}
        return o
    return v

def wrap(v):
    if isinstance(v, SCALARS) or isinstance(v, (type, enum.Enum, HObj, Sym, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
        return v
    r = E.globmap.get(id(v))
    if r is not None:
        return r[0]
    if isinstance(v, (list, dict, set, frozenset, tuple)) or (interpreted_class(type(v)) and hasattr(v, "__dict__") and not getattr(type(v), "SYMBOLIC", False)):
        o = to_heap(v, "global")
        E.globmap[id(v)] = (o, v)
        return o
    return v

def is_concrete(v):
    if isinstance(v, (Sym, Poison, Late, Closure, Bound, Line, LazyV, NativeFn)):
        return False
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    if isinstance(v, (Lst, SetV)):
        return all(isinstance(s, Items) and all(is_concrete(x) for x in s.vals) for s in v.p)
    if isinstance(v, Dct):
        return all(isinstance(s, Items) and all(is_concrete(x) for x in s.vals) for s in v.p)
    return not isinstance(v, HObj)

def unwrap(v):
    """The native value of a concrete value."""
    if not is_concrete(v):
        raise Unsupported("symbolic argument of a library function")
    if isinstance(v, tuple):
        return tuple(unwrap(x) for x in v)
    if isinstance(v, Lst):
        return [unwrap(x) for s in v.p for x in s.vals]
    if isinstance(v, SetV):
        return {unwrap(x) for s in v.p for x in s.vals}
    if isinstance(v, Dct):
        return {unwrap(k): unwrap(x) for k, x in dct_items(v)}
    return v

def native_call(f, *args, **kw):
    try:
        return to_heap(f(*args, **kw), "fresh")
    except (Unsupported, PyRaise, Infeasible):
        raise
    except RecursionError:
        raise Unsupported("recursion")
    except Exception as e:
        raise_py(type(e), str(e))

# ------------------------------------------------------------------ truth
def defined(v):
    if isinstance(v, (Poison, Late)):
        raise Unsupported("value after a loop is not known: %s" % (v.why if isinstance(v, Poison) else ""))
    return v

def truth(v):
    if isinstance(v, (bool, SBool)): return v
    if isinstance(v, SInt): return boolv(v.t != 0)
    if isinstance(v, SStr): return boolv(v.t != lit(""))
    if isinstance(v, SEnum): return True
    if isinstance(v, (Lst, SetV)): return not_(empty(v.p))
    if isinstance(v, Dct): return not_(empty(dct_keys(v).p))
    if isinstance(v, Obj):
        f = class_attr(v.cls, "__bool__")
        if f is not None:
            return truth(call(f, [v]))
        f = class_attr(v.cls, "__len__")
        if f is not None:
            return truth(call(f, [v]))
        return True
    if isinstance(v, (Closure, Bound, NativeFn, LazyV)): return True
    if isinstance(v, (Poison, Late)): defined(v)
    if isinstance(v, Line): raise Unsupported("use of a command line")
    return bool(v)

def decide(v):
    """Python truth value of a truth-like value; forks."""
    v = truth(v)
    if isinstance(v, bool):
        return v
    if v.weak:
        raise Unsupported("branch on a comparison that is only decided one way")
    return E.decide(v.t)

def empty(segs):
    """Is the list empty?"""
    cs = []
    for s in segs:
        if isinstance(s, Items):
            if s.vals:
                return False
        elif s.width() is not None:
            cs.append(boolv(s.n <= 0))
        else:
            cs.append(not_(boolv(exists(s.idx, s.n, weight(s) > 0))))
    return and_(cs)

def pure_bool(thunk, assume=()):
    """Truth value of a computation, without forking if possible."""
    try:
        return merge_bool(thunk, assume)
    except NotPure:
        if assume:
            raise
        return thunk()

# ------------------------------------------------------------------ comparison
def is_same(a, b):
    """a is b"""
    a, b = defined(a), defined(b)
    if a is b:
        return True
    if isinstance(a, HObj) and isinstance(b, HObj):
        if a.origin == "template" and b.origin == "template" and type(a) is type(b) and (not isinstance(a, Obj) or a.cls is b.cls):
            raise Unsupported("identity of list elements")
        return False
    if isinstance(a, HObj) or isinstance(b, HObj):
        return False
    if isinstance(a, Sym) or isinstance(b, Sym):
        ka, kb = kind(a), kind(b)
        if ka == kb:
            if ka == "bool" or isinstance(ka, type):
                return boolv(term(a) == term(b))
            raise Unsupported("identity of strings or numbers")
        return False
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    if isinstance(a, (int, str, tuple)) and type(a) is type(b) and a == b:
        return True
    return a is b

def int_eq(x, y):
    """x == y, where values of an injective function of the inputs are equal if the arguments are."""
    if z3.is_app(x) and z3.is_app(y) and x.num_args() and x.num_args() == y.num_args() and x.decl().eq(y.decl()) and x.decl().name().startswith("in:") \
            and len(E.injective.get(x.decl().name(), ())) == x.num_args():
        return conj([int_eq(a, b) for a, b in zip(x.children(), y.children())])
    return x == y

def eq(a, b, strict=False):
    """a == b; strict: same class and same content, recursively (as harness.same)."""
    a, b = defined(a), defined(b)
    if isinstance(a, HObj) and a is b and (strict or not isinstance(a, Obj)):
        return True
    ka, kb = kind(a), kind(b)
    if isinstance(a, (Sym, bool, int, str, enum.Enum)) and isinstance(b, (Sym, bool, int, str, enum.Enum)):
        if ka == kb:
            return boolv(int_eq(term(a), term(b)) if ka == "int" else term(a) == term(b))
        if not strict and {ka, kb} == {"bool", "int"}:
            x, y = [v if kind(v) == "int" else (SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0))) if isinstance(v, SBool) else int(v)) for v in (a, b)]
            return boolv(term(x) == term(y))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = eq(x, y, strict)
            if r is False:
                return False
            out.append(r)
        return and_(out)
    if isinstance(a, Lst) and isinstance(b, Lst):
        return pure_bool(lambda: seg_eq(a.p, b.p, lambda x, y: eq(x, y, strict)))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set_eq(a, b)
    if isinstance(a, Dct) and isinstance(b, Dct):
        return dct_eq(a, b, strict)
    if isinstance(a, Obj) or isinstance(b, Obj):
        if strict:
            if not (isinstance(a, Obj) and isinstance(b, Obj)) or a.cls is not b.cls or set(a.p) != set(b.p):
                return False
            out = []
            for k in a.p:
                r = eq(a.p[k], b.p[k], True)
                if r is False:
                    return False
                out.append(r)
            return and_(out)
        return pure_eq(a, b)
    if isinstance(a, HObj) or isinstance(b, HObj):
        return False
    if isinstance(a, (Bound, Closure, NativeFn, LazyV)) or isinstance(b, (Bound, Closure, NativeFn, LazyV)):
        if isinstance(a, Bound) and isinstance(b, Bound):
            return and_([is_same(a.func, b.func), is_same(a.self, b.self)])
        return a is b
    if isinstance(a, Line) or isinstance(b, Line):
        raise Unsupported("comparison of command lines")
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    try:
        return bool(a == b) and (not strict or type(a) is type(b))
    except Exception:
        raise Unsupported("comparison")

def pure_eq(a, b):
    r = pure_bool(lambda: truth(obj_eq(a, b)))
    return r

def obj_eq(a, b):
    """a == b where one is an object: the protocol of Python."""
    ca, cb = class_of(a), class_of(b)
    fa = class_attr(ca, "__eq__") if isinstance(a, Obj) else None
    fb = class_attr(cb, "__eq__") if isinstance(b, Obj) else None
    order = [(fa, a, b), (fb, b, a)]
    if fb is not None and ca is not cb and isinstance(ca, type) and isinstance(cb, type) and issubclass(cb, ca):
        order.reverse()
    for f, x, y in order:
        if f is not None:
            r = call(f, [x, y])
            if r is not NotImplemented:
                return r
    return is_same(a, b)

def value_ne(a, b):
    if isinstance(a, Obj):
        f = class_attr(a.cls, "__ne__")
        if f is not None:
            return truth(call(f, [a, b]))
    return not_(eq(a, b))

def pointwise(x, y, n, f):
    i = new_index()
    px, py = x, y
    def go():
        vx, vy = (merged(x, i), merged(y, i)) if x.width() == 1 and y.width() == 1 else (pick_nested(x, i), pick_nested(y, i))
        if any(isinstance(v, Splice) for v in vx + vy):
            return seg_eq(spread(vx), spread(vy), f)
        if len(vx) != len(vy):
            return False
        return and_([f(u, v) for u, v in zip(vx, vy)])
    try:
        r = run_pure(go, scope=(i, n))
    except NotPure:
        raise Unsupported("comparison of list elements has effects")
    w = any(is_weak(v) for g, fs, v in r)
    body = disj([conj([g, bterm(v)]) for g, fs, v in r])
    res = boolv(forall(i, n, body))
    return SBool(res.t, True) if w and isinstance(res, SBool) else res

def same_length(m, n):
    """With what is known about the iteration of one that the other names."""
    known = []
    for a, b in ((m, n), (n, m)):
        for r in E.loops:
            if r.N.eq(a) and r.extra is not None:
                known.append(z3.Implies(z3.And(0 <= b, b < a), z3.And(*r.extra(b))))
    return E.entails(z3.Implies(z3.And(*known), m == n) if known else m == n)

def seg_eq(sa, sb, f):
    res = []
    def note(r):
        res.append(r)
        return r is False
    sa, sb = norm(sa), norm(sb)
    while sa or sb:
        if not sa or not sb:
            note(empty(sa or sb))
            break
        x, y = sa[0], sb[0]
        if isinstance(x, Items) and isinstance(y, Items):
            m = min(len(x.vals), len(y.vals))
            for u, v in zip(x.vals[:m], y.vals[:m]):
                if note(f(u, v)):
                    return False
            sa, sb = norm((Items(x.vals[m:]),) + sa[1:]), norm((Items(y.vals[m:]),) + sb[1:])
        elif isinstance(x, Tmpl) and isinstance(y, Tmpl):
            if x.width() == 1 and y.width() == 1:
                if not z3.simplify(x.n).eq(z3.simplify(y.n)):
                    if E.decide(x.n <= 0):
                        sa = sa[1:]
                        continue
                    if E.decide(y.n <= 0):
                        sb = sb[1:]
                        continue
                    if E.decide(x.n != y.n):
                        if E.decide(x.n < y.n):
                            m = x.n
                            rest, y = reindexed(y, lambda j: j + m, y.n - m), Tmpl(m, y.idx, y.alts, y.facts)
                            sb = (y, rest) + sb[1:]
                        else:
                            m = y.n
                            rest, x = reindexed(x, lambda j: j + m, x.n - m), Tmpl(m, x.idx, x.alts, x.facts)
                            sa = (x, rest) + sa[1:]
                if note(pointwise(x, y, x.n, f)):
                    return False
            else:
                if not z3.simplify(x.n).eq(z3.simplify(y.n)) and not same_length(x.n, y.n):
                    raise Unsupported("comparison of filtered lists of different origin")
                r = pointwise(x, y, x.n, f)
                if isinstance(r, SBool):
                    r = SBool(r.t, True)
                elif r is False:
                    r = SBool(FALSE, True)
                note(r)
            sa, sb = sa[1:], sb[1:]
        else:
            swap = isinstance(x, Items)
            tm, it = (y, x) if swap else (x, y)
            r = split_first([tm])
            if r is None:
                sa, sb = (sa, sb[1:]) if swap else (sa[1:], sb)
                continue
            if note(f(it.vals[0], r[0]) if swap else f(r[0], it.vals[0])):
                return False
            if swap:
                sa, sb = norm((Items(it.vals[1:]),) + sa[1:]), norm(tuple(r[1]) + sb[1:])
            else:
                sa, sb = norm(tuple(r[1]) + sa[1:]), norm((Items(it.vals[1:]),) + sb[1:])
    return and_(res)

def set_eq(a, b):
    if is_concrete(a) and is_concrete(b):
        return unwrap(a) == unwrap(b)
    return and_([set_le(a.p, b.p), set_le(b.p, a.p)])

def set_le(p, q):
    """Every member of p is in q."""
    return quantify(p, lambda v: contains_segs(q, v), False)

# ------------------------------------------------------------------ quantifiers over lists
def quantify(segs, f, is_any):
    """any/all of f(v) for v in segs; f gives a truth value and has no effects (NotPure otherwise)."""
    out = []
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                before = bterm(or_(out)) if is_any else bterm(and_(out))
                assume = [z3.Not(before)] if is_any else [before]
                r = merge_bool(lambda: truth(f(v)), [a for a in assume if not z3.is_true(a)])
                if r is is_any:
                    return is_any if not out else r
                out.append(r)
        else:
            i = new_index()
            def go():
                vs = merged(s, i) if s.width() == 1 else pick_nested(s, i)
                if any(isinstance(v, Splice) for v in vs):
                    return quantify(spread(vs), f, is_any)
                rs = [truth(f(v)) for v in vs]
                return or_(rs) if is_any else and_(rs)
            r = run_pure(go, scope=(i, s.n))
            body = disj([conj([g, bterm(v)]) for g, fs, v in r])
            w = any(is_weak(v) for g, fs, v in r)
            v = boolv(exists(i, s.n, body) if is_any else forall(i, s.n, body))
            out.append(SBool(v.t, True) if w and isinstance(v, SBool) else v)
    return or_(out) if is_any else and_(out)

def any_all(v, is_any):
    if isinstance(v, LazyV) and v.gens is not None:
        try:
            return v.gens(is_any)
        except NotPure:
            pass
        return any_all_loop(v, is_any)
    segs = to_segs(v)
    try:
        return quantify(segs, lambda x: x, is_any)
    except NotPure:
        return any_all_loop(v, is_any)

def any_all_loop(v, is_any):
    r = run_loop(to_segs(v), lambda x: "break" if decide(x) is is_any else None)
    return is_any if r == "break" else not is_any

_among = {}
def among(vals, x):
    """x in vals, for a symbolic string x and constants vals."""
    key = (vals, x.t.get_id(), core._version)
    r = _among.get(key)
    if r is None:
        if len(_among) > 20000:
            _among.clear()
        cs = sorted({term(v).as_long() for v in vals if isinstance(v, str)})
        r = _among[key] = (boolv(disj([x.t == c for c in cs])), x.t)
    return r[0]

def contains_segs(segs, x):
    if isinstance(x, SStr) and len(segs) == 1 and isinstance(segs[0], Items) and all(isinstance(v, str) for v in segs[0].vals):
        return among(tuple(segs[0].vals), x)
    return quantify(segs, lambda v: identical_or_equal(v, x), True)

def identical_or_equal(v, x):
    if v is x:
        return True
    return eq(v, x)

def contains(c, x):
    """x in c"""
    x = defined(x)
    if isinstance(c, Lst):
        return contains_segs(c.p, x)
    if isinstance(c, tuple):
        return contains_segs(norm([Items(c)]), x)
    if isinstance(c, SetV):
        hashable(x)
        return contains_segs(c.p, x)
    if isinstance(c, Dct):
        hashable(x)
        return dct_has(c, x)
    if isinstance(c, (str, SStr)):
        if kind(x) != "str":
            raise_py(TypeError, "'in <string>' requires string")
        return str_contains(c, x)
    if isinstance(c, LazyV):
        return contains_segs(to_segs(c), x)
    if isinstance(c, Obj):
        f = class_attr(c.cls, "__contains__")
        if f is not None:
            return truth(call(f, [c, x]))
    if isinstance(c, type) and issubclass(c, enum.Enum):
        return contains_segs(norm([Items(list(c))]), x)
    if isinstance(c, range) and isinstance(x, int):
        return x in c
    if isinstance(c, HObj) or c is None or isinstance(c, (int, Sym)):
        raise_py(TypeError, "argument is not iterable")
    raise Unsupported("membership in %r" % (c,))

def hashable(x):
    if isinstance(x, (Lst, SetV, Dct)):
        raise_py(TypeError, "unhashable type")
    if isinstance(x, Obj):
        if x.cls.__hash__ is None:
            raise_py(TypeError, "unhashable type: '%s'" % x.cls.__name__)
        raise Unsupported("hash of an object")
    if isinstance(x, tuple):
        for y in x:
            hashable(y)

# ------------------------------------------------------------------ dicts
def dct_concrete(o):
    """key -> value of a dict whose keys are all concrete, in order; None otherwise."""
    m = {}
    for s in o.p:
        if not isinstance(s, Items):
            return None
        for op in s.vals:
            k = op[1]
            if not is_concrete(k) or isinstance(k, HObj):
                return None
            if op[0] == "set":
                m[k] = op[2]
            else:
                m.pop(k, None)
    return m

_dctmemo = {}
def dct_map(o):
    e = _dctmemo.get(id(o.p))
    if e is None or e[0] is not o.p:
        if len(_dctmemo) > 20000:
            _dctmemo.clear()
        e = _dctmemo[id(o.p)] = (o.p, dct_concrete(o))
    return e[1]

def dct_items(o):
    m = dct_map(o)
    if m is None:
        if all(isinstance(s, Items) and all(op[0] == "set" for op in s.vals) for s in o.p) and len([1 for s in o.p for op in s.vals]) == 1:
            return [(op[1], op[2]) for s in o.p for op in s.vals]
        raise Unsupported("iteration over a dict with symbolic keys")
    return list(m.items())

def dct_keys(o):
    if dct_map(o) is None and all(op[0] == "set" for s in o.p for op in (s.vals if isinstance(s, Items) else [x for g, vs in s.alts for x in vs])):
        segs = [Items([op[1] for op in s.vals]) if isinstance(s, Items) else Tmpl(s.n, s.idx, [(g, tuple(x[1] for x in vs)) for g, vs in s.alts], s.facts) for s in o.p]
        if distinct_segs(segs):
            return Lst(segs)
        if not any(isinstance(s, Items) for s in segs):
            raise Unsupported("keys of a dict that may repeat")
        raise Unsupported("keys of a dict that may repeat")
    return Lst([Items([k for k, v in dct_items(o)])])

def distinct_segs(segs):
    return False

def select(cases):
    """cases: [(condition, value)], exclusive and exhaustive: one value; forks between values of different kinds."""
    v = ite([c for c, x in cases], [x for c, x in cases])
    if v is not None:
        return v
    groups = []
    for c, x in cases:
        for g in groups:
            if value_key(g[1]) == value_key(x):
                g[0].append(c)
                break
        else:
            groups.append(([c], x, [x]))
    for k, (cs, x, _) in enumerate(groups):
        if k == len(groups) - 1 or E.decide(disj(cs)):
            if len(cs) > 1 and isinstance(x, (HObj, tuple)):
                return inst(freeze(x, 0), [])
            return x

def value_key(v):
    """Hashable description; equal descriptions mean equal content."""
    if isinstance(v, Sym):
        core._keep.append(v.t)
        return (type(v), getattr(v, "cls", None), v.t.get_id())
    if isinstance(v, Obj): return ("obj", v.cls, tuple(sorted((k, value_key(x)) for k, x in v.p.items())))
    if isinstance(v, FObj): return ("obj", v.cls or v.kind, tuple(sorted((k, value_key(x)) for k, x in v.p.items())) if v.kind is Obj else segs_key(v.p))
    if isinstance(v, tuple): return ("tuple",) + tuple(value_key(x) for x in v)
    if isinstance(v, Splice): return ("splice", segs_key(v.segs))
    if isinstance(v, HObj) and not isinstance(v, (Frame, Iter)): return (type(v), segs_key(v.p))
    if isinstance(v, Bound): return ("bound", value_key(v.self), id(v.func))
    try:
        hash(v)
        return (type(v), v)
    except TypeError:
        return id(v)

def segs_key(segs):
    out = []
    for s in segs:
        if isinstance(s, Items):
            out.append(("items",) + tuple(value_key(x) for x in s.vals))
        else:
            out.append(("tmpl", tid(s.n), tid(s.idx), tuple((tid(g), tuple(value_key(x) for x in vs)) for g, vs in s.alts)))
    return tuple(out)

def tid(t):
    core._keep.append(t)
    return t.get_id()

MISSING = object()
def dct_find(o, key):
    """Value at key or MISSING; decides."""
    m = dct_map(o)
    if m is not None:
        if is_concrete(key):
            return m.get(key, MISSING)
        ks = [k for k in m if kind(k) == kind(key)]
        if not ks:
            return MISSING
        if isinstance(key, SStr):
            if not E.decide(bterm(among(tuple(ks), key))):
                return MISSING
            return looked_up(m, tuple(ks), key)
        cs = [eq(k, key) for k in ks]
        if not E.decide(bterm(or_(cs))):
            return MISSING
        return select([(bterm(c), m[k]) for c, k in zip(cs, ks)])
    for s in reversed(o.p):
        if isinstance(s, Items):
            for op in reversed(s.vals):
                if decide(eq(op[1], key)):
                    return op[2] if op[0] == "set" else MISSING
        else:
            r = tmpl_find(s, key)
            if r is not None:
                return r[0]
    return MISSING

def invert(t, j, x, total=None):
    """A term y such that t = x implies j = y, and conditions under which t[j:=y] may be x; None if not found.
    total: a list that receives conditions under which t = x does not imply j = y."""
    if t.eq(j):
        return x
    if z3.is_app(t) and t.num_args() > 0:
        name = t.decl().name()
        if total is not None and name.startswith("cnt!"):
            body, outer, f, m = E.counts[int(name[4:])]
            args = t.children()
            if any(mentions(a, j) for a in args[:-1]) or any(not a.eq(b) for a, b in zip(outer, args)):
                return None
            register_rank(name)
            total.append(sub(body, [(z3.Int("k"), args[-1])]) <= 0)
            total.append(args[-1] < 0)
        elif total is not None and not name.startswith("in:"):
            name = None
        if name in E.injective:
            inv = E.injective[name]
            ks = [k for k in range(t.num_args()) if mentions(t.arg(k), j)]
            if len(ks) == 1:
                return invert(t.arg(ks[0]), j, reduced(inv[ks[0]](x)), total)
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if not mentions(b, j): return invert(a, j, x - b, total)
        if not mentions(a, j): return invert(b, j, x - a, total)
    return None

core.invert = invert

_looked = {}
def looked_up(m, ks, key):
    """m[key], where the key is one of the constants ks; equal values share a condition."""
    if all(isinstance(m[k], str) for k in ks):
        mk_ = (ks, tuple(m[k] for k in ks), key.t.get_id(), core._version)
        r = _looked.get(mk_)
        if r is None:
            if len(_looked) > 20000:
                _looked.clear()
            by = {}
            for k in ks:
                by.setdefault(m[k], []).append(k)
            vs = list(by)
            r = _looked[mk_] = (select([(bterm(among(tuple(by[v]), key)), v) for v in vs]), key.t)
        return r[0]
    return select([(key.t == term(k), m[k]) for k in ks])

def tmpl_find(tm, key):
    """Last operation of the template on key: (value or MISSING,), or None if there is none; decides."""
    if kind(key) not in ("int", "str", "bool") and not isinstance(kind(key), type):
        raise Unsupported("key of a dict")
    x = term(key)
    cands = []
    probe = [(tm.idx, z3.Int("probe!"))]
    known = [z3.And(0 <= probe[0][1], probe[0][1] < tm.n)] + [sub(f, probe) for f in tm.facts]
    possible = []
    for a, (g, ops) in enumerate(tm.alts):
        possible.append((g, []))
        for pos, op in enumerate(ops):
            if kind(op[1]) != kind(key):
                continue
            kt = term(op[1])
            if not E.feasible(z3.And(*known, sub(g, probe), sub(kt, probe) == x)):
                continue
            possible[-1][1].append(kt)
            if cands is None:
                continue
            y = invert(kt, tm.idx, x)
            if y is None:
                cands = None
                continue
            y = settled(z3.simplify(y))
            p = [(tm.idx, y)]
            hit = z3.And(0 <= y, y < tm.n, sub(g, p), int_eq(sub(kt, p), x))
            cands.append((hit, y, a, pos, op))
    if cands is None:
        return tmpl_find_skolem(tm, key, possible)
    hits = []
    for c in cands:
        if E.decide(c[0]):
            hits.append(c)
    if not hits:
        return None
    best = hits[0]
    for c in hits[1:]:
        later = z3.Or(c[1] > best[1], z3.And(c[1] == best[1], z3.BoolVal(c[3] > best[3])))
        if E.decide(later):
            best = c
    p = [(tm.idx, best[1])]
    for f in tm.facts:
        E.ground(sub(f, p))
    return (inst(best[4][2], p) if best[4][0] == "set" else MISSING,)

def settled(y):
    """The index whose rank is taken, if it is one of those counted."""
    if z3.is_app(y) and y.num_args() and y.decl().name().startswith("rank:"):
        x = y.arg(y.num_args() - 1)
        if z3.is_app(x) and x.num_args() == y.num_args() and x.decl().name() == y.decl().name()[5:] and all(x.arg(k).eq(y.arg(k)) for k in range(x.num_args() - 1)):
            body, outer, f, m = E.counts[int(x.decl().name()[4:])]
            t = x.arg(x.num_args() - 1)
            if all(x.arg(k).eq(o) for k, o in enumerate(outer)) and not E.feasible(z3.Or(t < 0, sub(body, [(z3.Int("k"), t)]) <= 0)):
                return t
    return y

def tmpl_find_skolem(tm, key, possible):
    x = term(key)
    touch = disj([conj([g, disj([kt == x for kt in kts])]) for g, kts in possible])
    if not E.decide(exists(tm.idx, tm.n, touch)):
        return None
    k = E.fresh("lastop", I)
    E.fact(z3.And(0 <= k, k < tm.n, sub(touch, [(tm.idx, k)])))
    E.fact(forall(tm.idx, tm.n, z3.Not(touch), lo=k + 1))
    ops = pick(tm, k)
    for op in reversed(ops):
        if decide(eq(op[1], key)):
            return (op[2] if op[0] == "set" else MISSING,)
    raise Infeasible()

def dct_has(o, key):
    m = dct_map(o)
    if m is not None:
        if is_concrete(key):
            return key in m
        return or_([eq(k, key) for k in m if kind(k) == kind(key)])
    return pure_bool(lambda: dct_find(o, key) is not MISSING)

def dct_get(o, key):
    hashable(key)
    v = dct_find(o, key)
    if v is MISSING:
        raise_py(KeyError, key)
    return v

def dct_set(o, key, v):
    hashable(key)
    s = [Items([("set", key, v)])]
    o.write(norm(o.p + tuple(s)), ("append", tuple(s)))

def dct_del(o, key):
    s = [Items([("del", key)])]
    o.write(norm(o.p + tuple(s)), ("append", tuple(s)))

def dct_eq(a, b, strict):
    ma, mb = dct_map(a), dct_map(b)
    if ma is not None and mb is not None:
        if set(ma) != set(mb):
            return False
        out = []
        for k in ma:
            r = eq(ma[k], mb[k], strict)
            if r is False:
                return False
            out.append(r)
        return and_(out)
    va, vb = by_position(a), by_position(b)
    if va is not None and vb is not None:
        return pure_bool(lambda: seg_eq(va, vb, lambda x, y: eq(x, y, strict)))
    # for every key: a goal about an arbitrary key
    ks = {k for o in (a, b) for k in op_kinds(o)}
    if not ks:
        return True
    out = []
    for k in ks:
        if k not in ("int", "str"):
            raise Unsupported("comparison of dicts with such keys")
        x = (SInt if k == "int" else SStr)(E.fresh("anykey", I))
        def go():
            u, v = dct_find(a, x), dct_find(b, x)
            if u is MISSING or v is MISSING:
                return (u is MISSING) == (v is MISSING)
            return eq(u, v, strict)
        out.append(pure_bool(go))
    r = and_(out)
    return SBool(r.t, True) if isinstance(r, SBool) else SBool(z3.BoolVal(r), True) if r is False else r

def by_position(o):
    """The values of a dict whose keys are 0, 1, 2, ... , each set once."""
    segs = norm(o.p)
    if not segs:
        return ()
    if len(segs) != 1 or not isinstance(segs[0], Tmpl):
        return None
    t = segs[0]
    if not all(len(ops) == 1 and isinstance(ops[0], tuple) and ops[0][0] == "set" and isinstance(ops[0][1], SInt) and ops[0][1].t.eq(t.idx) for g, ops in t.alts) or t.width() != 1:
        return None
    return (Tmpl(t.n, t.idx, [(g, (ops[0][2],)) for g, ops in t.alts], t.facts),)

def op_kinds(o):
    for s in o.p:
        if isinstance(s, Items):
            for op in s.vals: yield kind(op[1])
        else:
            for g, ops in s.alts:
                for op in ops: yield kind(op[1])

# ------------------------------------------------------------------ strings
def chars(v):
    """Segments of the characters."""
    if isinstance(v, str):
        return norm([Items(list(v))])
    j = new_index("c")
    E.always(strlen(v.t) >= 0)
    return norm([Tmpl(strlen(v.t), j, [(TRUE, (SStr(char(v.t, j)),))], [strlen(char(v.t, j)) == 1])])

def str_contains(c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(x, str):
        if x == "":
            return True
        if len(x) == 1:
            k = z3.Int("k")
            return boolv(exists(k, strlen(c.t), char(c.t, k) == lit(x)))
        return boolv(strfun("find", (x,), I, lambda s: s.find(x))(c.t) >= 0)
    if isinstance(c, str):
        return boolv(strfun("within", (c,), B, lambda s: s in c)(x.t))
    raise Unsupported("substring test of two unknown strings")

def startswith(s, p):
    if isinstance(p, tuple):
        return or_([startswith(s, q) for q in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if not isinstance(p, str):
        raise Unsupported("prefix test")
    return boolv(conj([strlen(s.t) >= len(p)] + [char(s.t, z3.IntVal(j)) == lit(c) for j, c in enumerate(p)]))

def opaque(*parts):
    E.imprecise = True
    return SStr(E.fresh("text", I))

def str_add(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if a == "" and isinstance(a, str): return b
    if b == "" and isinstance(b, str): return a
    if isinstance(a, str) and isinstance(b, SStr) and len(cat_parts(b)) == 1:
        return mk("str", cat_prefix(a, b.t))
    return concatenated(cat_parts(a) + cat_parts(b))

_cat2 = z3.Function("cat2", I, I, I)
def cat_parts(v):
    """The texts a text was put together from: literals and others."""
    if isinstance(v, str):
        return [v]
    t = v.t
    if z3.is_app(t) and t.num_args():
        n = t.decl().name()
        if n.startswith("cat:") and t.num_args() == 1: return [n[4:]] + cat_parts(SStr(t.arg(0)))
        if n.startswith("add:") and t.num_args() == 1: return cat_parts(SStr(t.arg(0))) + [n[4:]]
        if n == "cat2": return cat_parts(SStr(t.arg(0))) + cat_parts(SStr(t.arg(1)))
    return [v]

def concatenated(parts):
    """The texts one after the other, in one form however they are grouped."""
    out = []
    for x in parts:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif not (isinstance(x, str) and x == ""):
            out.append(x)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and isinstance(out[0], str):
        return mk("str", cat_prefix(out[0], out[1].t))
    E.imprecise = True
    if len(out) == 2 and isinstance(out[1], str):
        t = z3.Function("add:" + out[1], I, I)(out[0].t)
        E.always(strlen(t) == strlen(out[0].t) + len(out[1]))
        return SStr(t)
    if isinstance(out[0], str):
        return SStr(cat_prefix(out[0], term(concatenated(out[1:]))))
    return SStr(_cat2(out[0].t, term(concatenated(out[1:]))))

def joined(sep, segs):
    """The texts of a list one after the other: equal lists give equal texts."""
    E.imprecise = True
    for other, sep2, t in E.joins:
        if sep2 == sep:
            try:
                r = pure_bool(lambda: seg_eq(other, segs, eq))
                if r is True or isinstance(r, SBool) and not r.weak and E.entails(r.t):
                    return SStr(t)
            except (Unsupported, NotPure):
                pass
    t = E.fresh("joined", I)
    E.joins.append((segs, sep, t))
    return SStr(t)

def formatted(fmt, args, kw):
    """fmt.format(..) with fields that have no format specification."""
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(fmt):
        parts.append(text)
        if field is None:
            continue
        if spec or conv not in (None, "s"):
            return opaque()
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(args):
                raise_py(IndexError, "Replacement index out of range")
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return opaque()
        parts.append(str_of(v))
    return concatenated([y for x in parts for y in cat_parts(x)])

def str_of(v):
    v = defined(v)
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, Obj):
        f = class_attr(v.cls, "__str__") or class_attr(v.cls, "__repr__")
        if issubclass(v.cls, BaseException) and len(v.p.get("args", ())) == 1:
            return str_of(v.p["args"][0])
        if f is not None and getattr(f, "__name__", "") == "__str__":
            return call(f, [v])
        return opaque()
    if is_concrete(v) and not isinstance(v, HObj):
        return native_call(str, v)
    return opaque()

def str_method(s, name, args, kw):
    if isinstance(s, str) and all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kw.values()):
        return native_call(getattr(s, name), *[unwrap(a) for a in args], **{k: unwrap(a) for k, a in kw.items()})
    if name == "startswith" and len(args) == 1:
        return startswith(s, args[0])
    if name in ("find", "index") and len(args) == 1 and isinstance(args[0], str) and isinstance(s, SStr):
        x = args[0]
        f = strfun("find", (x,), I, lambda t: t.find(x))(s.t)
        E.always(f >= -1)
        if len(x) == 1:
            E.always((f >= 0) == bterm(str_contains(s, x)))
        if name == "index" and E.decide(f < 0):
            raise_py(ValueError, "substring not found")
        return SInt(f)
    if name == "count" and len(args) == 1 and isinstance(args[0], str) and isinstance(s, SStr):
        x = args[0]
        f = strfun("count", (x,), I, lambda t: t.count(x))(s.t)
        E.always(f >= 0)
        E.always((f > 0) == bterm(str_contains(s, x)))
        return SInt(f)
    if name == "__contains__":
        return str_contains(s, args[0])
    if name == "join":
        segs = to_segs(args[0])
        if all(isinstance(g, Items) for g in segs):
            vs = [v for g in segs for v in g.vals]
            if all(isinstance(v, str) for v in vs) and isinstance(s, str):
                return s.join(vs)
            if any(kind(v) != "str" for v in vs):
                raise_py(TypeError, "sequence item: expected str instance")
            if isinstance(s, str):
                return concatenated([y for k, v in enumerate(vs) for x in ([s, v] if k else [v]) for y in cat_parts(x)])
        return joined(s, segs) if isinstance(s, str) else opaque()
    if name == "format":
        return formatted(s, args, kw) if isinstance(s, str) else opaque()
    if name in ("strip", "lower", "upper", "lstrip", "rstrip", "title", "capitalize") and isinstance(s, SStr) and all(isinstance(a, str) for a in args):
        return SStr(strfun(name, tuple(args), I, lambda t: getattr(t, name)(*args))(s.t))
    if name in ("endswith", "isdigit", "isalpha", "isupper", "islower", "isalnum", "isspace") and isinstance(s, SStr) and all(isinstance(a, str) for a in args):
        return boolv(strfun(name, tuple(args), B, lambda t: getattr(t, name)(*args))(s.t))
    raise Unsupported("string method %s" % name)

def str_item(s, i):
    if isinstance(i, int) and isinstance(s, SStr):
        if i >= 0:
            if E.decide(strlen(s.t) <= i):
                raise_py(IndexError, "string index out of range")
            E.add(strlen(char(s.t, z3.IntVal(i))) == 1)
            return SStr(char(s.t, z3.IntVal(i)))
        if E.decide(strlen(s.t) < -i):
            raise_py(IndexError, "string index out of range")
        E.add(strlen(char(s.t, strlen(s.t) + i)) == 1)
        return SStr(char(s.t, z3.simplify(strlen(s.t) + i)))
    if isinstance(i, SInt) and isinstance(s, SStr):
        if E.decide(z3.Or(i.t < 0, i.t >= strlen(s.t))):
            raise Unsupported("string index")
        return SStr(char(s.t, i.t))
    raise Unsupported("string index")

def str_slice(s, lo, hi, step):
    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return s[lo:hi:step]
    if isinstance(s, SStr) and hi is None and step is None and isinstance(lo, int) and lo >= 0:
        return StrTail(s, lo)
    if isinstance(s, SStr) and lo in (None, 0) and step is None and isinstance(hi, int) and hi == 1:
        t = strfun("first", (), I, lambda x: x[:1])(s.t)
        E.always(z3.If(strlen(s.t) > 0, t == char(s.t, z3.IntVal(0)), t == lit("")))
        return SStr(t)
    raise Unsupported("string slice")

def StrTail(s, k):
    if k == 0:
        return s
    f = strfun("from", (k,), I, lambda x: x[k:])
    t = f(s.t)
    E.always(strlen(t) == z3.If(strlen(s.t) > k, strlen(s.t) - k, z3.IntVal(0)))
    j = z3.Int("k")
    E.always(for_all(j, z3.Implies(z3.And(0 <= j, j < strlen(t)), char(t, j) == char(s.t, j + k)), char(t, j)))
    return SStr(t)

# ------------------------------------------------------------------ iteration
def to_segs(v):
    v = defined(v)
    if isinstance(v, (Lst, SetV)): return v.p
    if isinstance(v, tuple): return norm([Items(v)])
    if isinstance(v, Dct): return dct_keys(v).p
    if isinstance(v, LazyV): return v.force()
    if isinstance(v, (str, SStr)): return chars(v)
    if isinstance(v, type) and issubclass(v, enum.Enum): return norm([Items(list(v))])
    if isinstance(v, range): return norm([Items(list(v))])
    if isinstance(v, Iter):
        p = v.p
        v.write(())
        return p
    if isinstance(v, Obj):
        f = class_attr(v.cls, "__iter__")
        if f is not None:
            return to_segs(call(f, [v]))
    if v is None or isinstance(v, (int, Sym, Obj)):
        raise_py(TypeError, "object is not iterable")
    raise Unsupported("iteration over %r" % (type(v),))

def effect_free(thunk):
    """Run thunk, which must not write older objects (other than local variables it owns)."""
    mark, jm = next(E.oids), len(E.journal)
    r = thunk()
    for o, p, op in E.journal[jm:]:
        if o.oid < mark:
            raise Unsupported("lazy evaluation with effects")
    return r

def run_loop(segs, step):
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                r = step(v)
                if r is not None:
                    return r
        else:
            r = summarise(s, step)
            if r is not None:
                return r
    return None

class Hidden(Lst):
    """Result list of a comprehension: the body cannot read it."""
    __slots__ = ()

def summarise(tm, step):
    """Effect of running step on every element of the template, for any number of iterations: an effect is guessed from one generic
    iteration and confirmed by running the generic iteration again from the state that the effect claims for the iterations before."""
    n = z3.simplify(tm.n)
    names0 = E.names
    guess, gkey = None, None
    nobls = len(E.obls)
    few = few_counts(n)
    for rnd in range(5):
        E.names = names0
        del E.obls[nobls:]              # only the obligations of the confirmed round count
        i = new_index()
        mark = next(E.oids)
        def go():
            E.scopes.append(i)
            E.add(z3.And(0 <= i, i < n))
            for f in few:
                E.add(few_at(f, i, n))
            if guess is not None:
                apply_effects(guess, i)
            jm = len(E.journal)
            vals = merged(tm, i) if tm.width() == 1 else pick_nested(tm, i)
            sig = None
            try:
                for v in vals:
                    sig = run_loop(spread([v]), step) if isinstance(v, Splice) else step(v)
                    if sig is not None:
                        break
            except PyRaise:
                if E.contradictory():
                    raise Infeasible()
                return "exit", None
            if sig is not None:
                return "exit", None
            return "end", effects_of(jm, mark)
        res = E.explore(go)
        exitc = disj([conj(lv.decisions) for lv, (k, x) in res if k == "exit"])
        eff = combine(res, i, exitc, n)
        key = (effects_key(eff), tid(exitc), tuple(sorted(facts_key(lv) for lv, r in res)))
        if key == gkey or (rnd == 0 and all(isinstance(loc[0], Hidden) for loc in eff)) or (guess is not None and same_effects(guess, eff, n)):
            break
        if E.depth_debug and rnd >= E.depth_debug - 1:
            print("round", rnd, i, [(k, [str(d)[:300] for d in lv.decisions], [str(f)[:200] for _, f in lv.facts]) for lv, (k, x) in res])
            for (o, k), e in eff.items():
                print("    ", type(o).__name__, k, str(e)[:600])
        guess, gkey = eff, key
    else:
        raise Unsupported("loop effect not found")
    if E.depth_debug:
        print("loop", n, {(type(o).__name__, k): e[0] for (o, k), e in eff.items()}, "exit", exitc)
    export_facts(res, (i, n))
    if not z3.is_false(exitc):
        if E.decide(exists(i, n, exitc)):
            k = E.fresh("exit", I)
            E.fact(z3.And(0 <= k, k < n, sub(exitc, [(i, k)])))
            E.fact(forall(i, k, z3.Not(exitc)))
            apply_effects(eff, k)
            for v in pick_nested(tm, k):
                sig = run_loop(spread([v]), step) if isinstance(v, Splice) else step(v)
                if sig is not None:
                    return sig
            raise Infeasible()
        E.fact(forall(i, n, z3.Not(exitc)))
    apply_effects(eff, n)
    return None

def facts_key(lv):
    return tuple(tid(f) for d, f in lv.facts) + tuple(tid(d) for ds, f in lv.facts for d in ds)

def effects_of(jm, mark):
    """{(object, field or None): effect} of one iteration relative to its start."""
    base, ops = {}, {}
    for o, p, op in E.journal[jm:]:
        if o.oid >= mark:
            continue
        if o not in base:
            base[o] = p
        ops.setdefault(o, []).append(op)
    out = {}
    for o, p in base.items():
        if isinstance(o, (Obj, Frame)):
            now = o.p
            for k in now:
                if k not in p:
                    out[(o, k)] = ("new", freeze_or_poison(now[k], mark))
                elif now[k] is not p[k]:
                    out[(o, k)] = assign_effect(p[k], now[k], mark)
            if any(k not in now for k in p):
                raise Unsupported("variable deleted in a loop")
        elif isinstance(o, (Lst, Dct, SetV)):
            if any(x is None for x in ops[o]):
                raise Unsupported("list modified in a loop")
            kinds = {x[0] for x in ops[o]}
            if kinds == {"append"}:
                vals = []
                for x in ops[o]:
                    for s in x[1]:
                        if isinstance(s, Items):
                            vals += s.vals
                        elif isinstance(o, Dct):
                            raise Unsupported("dictionary extended by a list of unknown length in a loop")
                        else:
                            vals.append(Splice([s]))
                out[(o, None)] = ("append", tuple(freeze(v, mark) for v in vals))
            elif kinds == {"drop"}:
                out[(o, None)] = ("drop", sum(x[1] for x in ops[o]))
            else:
                raise Unsupported("list grows and shrinks in a loop")
        else:
            raise Unsupported("iterator advanced in a loop")
    return out

def freeze_or_poison(v, mark):
    try:
        return freeze(v, mark)
    except Unsupported:
        return Poison("assigned in a loop")

def assign_effect(old, new, mark):
    if isinstance(new, (int, SInt)) and isinstance(old, (int, SInt)) and not isinstance(new, bool) and not isinstance(old, bool):
        d = z3.simplify(term(new) - term(old))
        if z3.is_int_value(d):
            return ("inc", d.as_long())
    if isinstance(new, Lst) and isinstance(old, Lst) and new.oid >= mark and isinstance(new.origin, str):
        k = len(old.p)
        tail = None
        if new.p[:k] == old.p:
            tail = new.p[k:]
        elif k and new.p[:k - 1] == old.p[:k - 1] and len(new.p) >= k and isinstance(new.p[k - 1], Items) and isinstance(old.p[k - 1], Items) \
                and new.p[k - 1].vals[:len(old.p[k - 1].vals)] == old.p[k - 1].vals:
            tail = (Items(new.p[k - 1].vals[len(old.p[k - 1].vals):]),) + new.p[k:]
        if tail is not None:
            return ("grow", tuple(freeze(v, mark) for s in tail for v in (s.vals if isinstance(s, Items) else [Splice([s])])))
    return ("new", freeze_or_poison(new, mark))

def combine(res, i, exitc, n):
    """Effects of all paths through the body as effects of the iterations; they are only used for iterations that do not leave the loop."""
    stay = z3.simplify(z3.Not(exitc))
    stay = [] if z3.is_true(stay) or has_quantifier(stay) else [stay]
    cubes = {}
    ends = []
    for lv, (k, x) in res:
        if k == "end":
            ends.append((conj(lv.decisions), x, path_facts(lv)))
            cubes[id(ends[-1])] = lv.lits
    known = [z3.And(0 <= i, i < n, *stay, *[f for e in ends for f in e[2]])]
    known += count_facts([g for g, eff, fs in ends], i, n)
    locs = []
    for g, eff, _ in ends:
        for l in eff:
            if l not in locs:
                locs.append(l)
    out = {}
    for l in locs:
        kinds = {eff[l][0] for g, eff, _ in ends if l in eff}
        everywhere = all(l in eff for g, eff, _ in ends)
        if kinds <= {"append"} or kinds <= {"grow"} or kinds <= {"drop"} or kinds <= {"inc"}:
            k = kinds.pop()
            j = new_index("l")
            p = [(i, j)]
            alts, facts = [], [sub(f, p) for f in stay]
            lits = []
            for e in ends:
                g, eff, fs = e
                lits.append(cubes[id(e)])
                v = eff[l][1] if l in eff else () if k in ("append", "grow") else 0
                vals = v if k in ("append", "grow") else (None,) * v if k == "drop" else v
                if k == "inc":
                    alts.append((sub(g, p), vals))
                else:
                    alts.append((sub(g, p), tuple(inst(x, p, False) for x in vals)))
                facts += [sub(f, p) for f in fs]
            if k in ("append", "grow", "drop"):
                alts = merge_alts(alts, lits, known, p)
            out[l] = (k, j, alts, facts)
            continue
        if kinds == {"new"}:
            vals = [(g, eff[l][1]) for g, eff, _ in ends if l in eff]
            v0 = vals[0][1]
            if all(simple_const(v, i) and value_key(v) == value_key(v0) for g, v in vals):
                j = new_index("l")
                out[l] = ("flag", j, sub(disj([g for g, v in vals]), [(i, j)]) if not everywhere else TRUE, v0)
                continue
        out[l] = ("poison",)
    return out

def merge_alts(alts, lits, known, p):
    """Alternatives with the same values become one; lits: the literals of the path of each alternative."""
    out = []
    for (g, vs), ls in zip(alts, lits):
        k = tuple(value_key(v) for v in vs)
        for e in out:
            if e[2] == k:
                e[0].append((g, ls))
                break
        else:
            out.append(([(g, ls)], vs, k))
    if len(out) == 1:
        return [(TRUE, out[0][1])]
    gs = [tidy([ls for g, ls in e[0]], known) for e in out] if len(alts) <= 60 else [[[f for f, forced in ls] for g, ls in e[0]] for e in out]
    big = max(range(len(out)), key=lambda x: len(gs[x]))
    # (terms are kept: what simplify returns depends on which terms exist)
    parts = [[conj(c) for c in cs] for cs in gs]
    whole = [disj(ps) for ps in parts]
    terms = [z3.simplify(t) for t in whole]
    E.keep.append((parts, whole, terms))
    if len(gs[big]) > sum(len(c) for x, c in enumerate(gs) if x != big):
        rest = z3.Not(disj([t for x, t in enumerate(terms) if x != big]))
        E.keep.append((rest, terms[big]))
        terms[big] = z3.simplify(rest)
        E.keep.append(terms[big])
    return [(sub(t, p), vs) for t, (g, vs, k) in zip(terms, out)]

def tidy(cubes, known):
    """Equivalent, smaller cubes (lists of literals) for a disjunction of the cubes of paths, where known holds."""
    def negation(f):
        return f.arg(0) if z3.is_not(f) else z3.Not(f)
    terms, work = {}, []
    if len(cubes) > 30:
        return [[f for f, forced in c] for c in cubes]
    for c in cubes:
        ks = {}
        for f, forced in c:
            neg = z3.is_not(f)
            a = f.arg(0) if neg else f
            terms.setdefault(a.get_id(), [a, True])
            terms[a.get_id()][1] &= forced
            ks[a.get_id()] = not neg
        if ks not in work:
            work.append(ks)
    again = True
    while again:
        again = False
        for x in range(len(work)):
            for y in range(x + 1, len(work)):
                a, b = work[x], work[y]
                if a.keys() == b.keys():
                    diff = [k for k in a if a[k] != b[k]]
                    if len(diff) == 1:
                        work[x] = {k: v for k, v in a.items() if k != diff[0]}
                        del work[y]
                        again = True
                        break
            if again:
                break
    out = []
    def lit(k, v):
        return terms[k][0] if v else z3.Not(terms[k][0])
    extra = conj(known)
    for c in work:
        keys = sorted(c, key=lambda k: (not terms[k][1], -len(terms[k][0].sexpr())))
        keep = dict(c)
        for k in keys:
            rest = [lit(q, v) for q, v in keep.items() if q != k]
            if not E.feasible(z3.And(extra, negation(lit(k, keep[k])), *rest)):
                del keep[k]
        out.append([lit(q, v) for q, v in keep.items()])
    E.keep.append(terms)
    return out

def simple_const(v, i):
    if isinstance(v, Sym):
        return not mentions(v.t, i) and not "!" in str(v.t)
    return isinstance(v, (type(None), bool, int, str, enum.Enum, type)) or (isinstance(v, HObj))

def effects_key(eff):
    out = []
    for (o, k), e in eff.items():
        if e[0] in ("append", "grow", "drop"):
            x = (e[0], tid(e[1]), tuple((tid(g), tuple(value_key(v) for v in vs)) for g, vs in e[2]))
        elif e[0] == "inc":
            x = (e[0], tid(e[1]), tuple((tid(g), c) for g, c in e[2]))
        elif e[0] == "flag":
            x = (e[0], tid(e[1]), tid(e[2]), value_key(e[3]))
        else:
            x = e
        out.append(((id(o), k), x))
    return tuple(sorted(out, key=lambda y: (y[0][0], str(y[0][1]))))

def few_counts(n):
    """Counts known to be at most one over the n elements."""
    out = []
    for name, us in list(E.uppers.items()):
        if any(u.eq(n) for u in us):
            body, outer, f, m = e = E.counts[int(name[4:])]
            if all(any(o.eq(s) for s in E.scopes) for o in outer) and not E.feasible(f(*outer, n) > 1):
                out.append(e)
    return out

def few_at(e, i, n):
    body, outer, f, m = e
    return z3.And(f(*outer, i) >= 0, f(*outer, i) + sub(body, [(z3.Int("k"), i)]) <= f(*outer, n))

def count_facts(ts, i, n):
    """Instances at index i < n of what defines the counts that the terms take at i."""
    out, done, todo = [], set(), list(ts)
    while todo:
        t = todo.pop()
        if not z3.is_app(t) or t.get_id() in done:
            continue
        done.add(t.get_id())
        name = t.decl().name()
        if name.startswith("cnt!") and t.num_args() and t.arg(t.num_args() - 1).eq(i):
            body, outer, f, m = E.counts[int(name[4:])]
            args = t.children()[:-1]
            if len(args) == len(outer) and all(x.eq(y) for x, y in zip(args, outer)):
                b = sub(body, [(z3.Int("k"), i)])
                todo.append(b)
                out += [t >= 0, t + b <= f(*outer, n), f(*outer, i + 1) == t + b]
        todo += t.children()
    return out

def least(f):
    """Of the numbers whose existence f speaks about, there is a least one."""
    out, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if tid(t) in seen:
            continue
        seen.add(tid(t))
        if z3.is_quantifier(t):
            if t.num_vars() == 1 and t.var_sort(0) == I:
                at = (lambda x: z3.substitute_vars(t.body(), x)) if t.is_exists() else (lambda x: z3.Not(z3.substitute_vars(t.body(), x)))
                m, k = E.fresh("least", I), z3.Int("k")
                out.append(z3.Implies(t if t.is_exists() else z3.Not(t), z3.And(at(m), z3.ForAll([k], z3.Implies(k < m, z3.Not(at(k)))))))
        elif z3.is_app(t):
            todo += t.children()
    return out

def excluded(f):
    """Is f impossible?"""
    if not E.feasible(f):
        return True
    facts = least(f)
    return bool(facts) and E.entails(z3.Not(z3.And(f, *facts)), 3000)

def same_effects(a, b, n):
    """Is the effect b, found under the hypothesis that the iterations before had the effect a, the same as a for each iteration?"""
    if a.keys() != b.keys():
        return False
    hard = []
    for l in a:
        x, y = a[l], b[l]
        if x[0] != y[0]:
            return False
        if effects_key({l: x}) == effects_key({l: y}):
            continue
        if x[0] not in ("append", "grow", "drop", "inc"):
            return False
        hard.append((x, y))
    for x, y in [(a[l], b[l]) for l in a if a[l][0] in ("append", "grow", "drop", "inc")]:
        j, q = x[1], [(y[1], x[1])]
        new = [sub(f, q) for f in y[3]]
        ids = {tid(f) for f in new}
        # what the hypothesis says about an iteration has to hold for each iteration
        if any(tid(f) not in ids and E.feasible(z3.And(0 <= j, j < n, *new, z3.Not(f))) for f in x[3]):
            return False
    for x, y in hard:
        j, q = x[1], [(y[1], x[1])]
        new = [sub(f, q) for f in y[3]]
        known = z3.And(0 <= j, j < n, *new, *count_facts([g for g, vs in x[2]] + [sub(h, q) for h, ws in y[2]], j, n))
        for g, vs in x[2]:
            for h, ws in y[2]:
                if x[0] == "inc":
                    same = vs == ws
                else:
                    us = [inst(w, q, False) if w is not None else None for w in ws]
                    same = len(vs) == len(us) and all(value_key(v) == value_key(u) for v, u in zip(vs, us))
                if not same and not excluded(z3.And(known, g, sub(h, q))):
                    return False
    return True

def apply_effects(eff, t):
    """Move from the state before the loop to the state after t iterations."""
    for (o, k), e in eff.items():
        if e[0] == "append":
            s = Tmpl(t, e[1], e[2], e[3])
            o.write(norm(o.p + (s,)), ("append", (s,)))
        elif e[0] == "grow":
            s = Tmpl(t, e[1], e[2], e[3])
            old = o.p[k]
            if not isinstance(old, Lst):
                raise Unsupported("list variable")
            o.set(k, ite_list(t, old, Lst(norm(old.p + (s,)))))
        elif e[0] == "drop":
            tm = Tmpl(t, e[1], e[2], e[3])
            c = count(tm)
            w = tm.width()
            if w is None:
                C, body, kk = count_function(tm)
                register_rank(C(z3.IntVal(0)).decl().name())
            # invariant: what was removed was there
            E.fact(z3.simplify(c <= z3.Sum([z3.IntVal(0)] + [z3.IntVal(x) if isinstance(x, int) else x for x in map(seg_len, o.p)])))
            o.write(drop_front(o.p, c), None)
        elif e[0] == "inc":
            total = z3.IntVal(0)
            vs = {c for g, c in e[2]}
            if len(vs) == 1:
                total = t * vs.pop()
            else:
                for c in sorted(vs - {0}):
                    tm = Tmpl(t, e[1], [(z3.Or([g for g, x in e[2] if x == c]), (None,)), (z3.Or([g for g, x in e[2] if x != c]), ())])
                    total = total + count(tm) * c
            o.set(k, mk("int", term(o.p[k]) + total))
        elif e[0] == "flag":
            old = o.p.get(k, MISSING)
            done = exists(e[1], t, e[2])
            v = e[3]
            if isinstance(v, HObj) or old is MISSING:
                if old is v:
                    continue
                o.set(k, Poison("assigned in a loop"))
                continue
            new = ite([done, z3.Not(done)], [v, old]) if not isinstance(old, (Poison, Late)) else None
            o.set(k, new if new is not None else Poison("assigned in a loop"))
        else:
            o.set(k, Poison("assigned in a loop"))

def ite_list(t, old, new):
    return new

def register_rank(name):
    """The element counted by a count function at a given rank: an inverse of the function on the counted indices."""
    if name in E.injective:
        return
    body, outer, f, m = E.counts[int(name[4:])]
    if outer:
        inv = z3.Function("rank:" + name, *([I] * (len(outer) + 1)), I)
        r = lambda x: inv(*outer, x)
    else:
        inv = z3.Function("rank:" + name, I, I)
        r = lambda x: inv(x)
    E.injective[name] = {f.arity() - 1: r}
    k = z3.Int("k")
    c = f(*outer, k)
    E.always(for_all(k, z3.Implies(z3.And(0 <= k, body > 0), r(c) == k), c))

# ------------------------------------------------------------------ classes and attributes
def class_of(v):
    if isinstance(v, Obj): return v.cls
    if isinstance(v, SBool): return bool
    if isinstance(v, SInt): return int
    if isinstance(v, SStr): return str
    if isinstance(v, SEnum): return v.cls
    if isinstance(v, Lst): return list
    if isinstance(v, SetV): return set
    if isinstance(v, Dct): return dict
    if isinstance(v, (Closure,)): return types.FunctionType
    if isinstance(v, Bound): return types.MethodType
    if isinstance(v, Line): return str
    if isinstance(v, LazyV): return types.GeneratorType
    return type(v)

def class_attr(cls, name):
    """Attribute of an interpreted class found in its MRO (not of object), raw."""
    if not isinstance(cls, type):
        return None
    for c in cls.__mro__:
        if c is object:
            break
        if name in c.__dict__:
            return c.__dict__[name]
    return None

def bind_attr(raw, obj, cls):
    if isinstance(raw, types.FunctionType):
        return Bound(obj, raw) if obj is not None else raw
    if isinstance(raw, staticmethod): return raw.__func__
    if isinstance(raw, classmethod): return Bound(cls, raw.__func__)
    if isinstance(raw, property):
        if obj is None:
            return raw
        return call(raw.fget, [obj])
    if isinstance(raw, functools.cached_property):
        raise Unsupported("cached property")
    return wrap(raw)

def getattr_(o, name):
    o = defined(o)
    if isinstance(o, Obj):
        raw = class_attr(o.cls, name)
        if isinstance(raw, property):
            return bind_attr(raw, o, o.cls)
        if name in o.p:
            return o.p[name]
        if raw is not None:
            return bind_attr(raw, o, o.cls)
        if name == "__class__": return o.cls
        if name == "__dict__": return vars_(o)
        if issubclass(o.cls, BaseException):
            if name == "with_traceback": return NativeFn(name, lambda a, k: o)
            if name in ("__cause__", "__context__", "__traceback__"): return None
        if name in ("__eq__", "__ne__", "__init__", "__repr__", "__str__", "__hash__"):
            if name == "__init__": return NativeFn(name, lambda a, k: None)
            if name == "__eq__": return NativeFn(name, lambda a, k: True if is_same(o, a[0]) else NotImplemented)
            if name == "__ne__": return NativeFn(name, lambda a, k: value_ne(o, a[0]))
            raise Unsupported("attribute %s" % name)
        f = class_attr(o.cls, "__getattr__")
        if f is not None:
            return call(f, [o, name])
        raise_py(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.__name__, name))
    if isinstance(o, SuperV):
        mro = o.obj.cls.__mro__ if isinstance(o.obj, Obj) else o.obj.__mro__
        k = mro.index(o.cls)
        for c in mro[k + 1:]:
            if c is object:
                break
            if name in c.__dict__:
                return bind_attr(c.__dict__[name], o.obj if isinstance(o.obj, Obj) else None, o.obj if isinstance(o.obj, type) else o.obj.cls)
        if name == "__init__":
            if isinstance(o.obj, Obj) and issubclass(o.obj.cls, BaseException):
                return NativeFn("__init__", lambda a, k: o.obj.set("args", tuple(a)))
            return NativeFn("__init__", lambda a, k: None)
        if name == "__eq__":
            return NativeFn(name, lambda a, k: True if is_same(o.obj, a[0]) else NotImplemented)
        raise Unsupported("super().%s" % name)
    if isinstance(o, type):
        if name == "__name__": return o.__name__
        if name in ("__mro__", "__bases__"): return getattr(o, name)
        if issubclass(o, enum.Enum):
            if name in o.__members__:
                return o[name]
            if name == "__members__":
                return to_heap(dict(o.__members__), "fresh")
        raw = class_attr(o, name)
        if raw is not None and interpreted_class(o):
            return bind_attr(raw, None, o)
        if name == "__init__" and (o is object or interpreted_class(o)):
            return NativeFn("__init__", lambda a, k: None)
        if name == "__new__" :
            return NativeFn("__new__", lambda a, k: Obj(a[0], {}))
        if interpreted_class(o) and not hasattr(o, name):
            raise_py(AttributeError, "type object has no attribute %r" % name)
        if o in (str, list, dict, set, tuple, int, object, type, itertools.chain) or interpreted_class(o):
            return type_method(o, name)
        return native_getattr(o, name)
    if isinstance(o, SEnum):
        ms = members(o.cls)
        if name in ("name", "value", "_value_", "_name_"):
            vals = [wrap(getattr(m, name)) for m in ms]
            return select([(o.t == k, v) for k, v in enumerate(vals)])
        raw = class_attr(o.cls, name)
        if raw is not None:
            return bind_attr(raw, o, o.cls)
        if name == "__class__": return o.cls
        raise_py(AttributeError, name)
    if isinstance(o, enum.Enum):
        raw = class_attr(type(o), name) if interpreted_class(type(o)) else None
        if isinstance(raw, (types.FunctionType, property, staticmethod, classmethod)):
            return bind_attr(raw, o, type(o))
        return native_getattr(o, name)
    if isinstance(o, (Lst, SetV, Dct, tuple, str, SStr, int, SInt, Iter, LazyV, SBool)) or o is None:
        if name == "__class__": return class_of(o)
        if name == "__doc__": return None
        base = class_of(o)
        if not hasattr(base, name):
            raise_py(AttributeError, "'%s' object has no attribute '%s'" % (base.__name__, name))
        return NativeFn(name, lambda a, k: method(o, name, a, k))
    if isinstance(o, (Closure, Bound, types.FunctionType, NativeFn)):
        if name == "__name__": return o.name if isinstance(o, (Closure, NativeFn)) else getattr_(o.func, name) if isinstance(o, Bound) else o.__name__
        if name == "__self__" and isinstance(o, Bound): return o.self
        raise Unsupported("attribute %s of a function" % name)
    if isinstance(o, Line):
        raise Unsupported("use of a command line")
    if getattr(type(o), "SYMBOLIC", False):
        return wrap(getattr(o, name))
    return native_getattr(o, name)

def native_getattr(o, name):
    try:
        return wrap(getattr(o, name))
    except AttributeError as e:
        raise_py(AttributeError, str(e))

def type_method(cls, name):
    def f(a, k):
        if cls is dict and name == "fromkeys":
            d = Dct(())
            for s in to_segs(a[0]):
                s2 = Items([("set", x, a[1] if len(a) > 1 else None) for x in s.vals]) if isinstance(s, Items) else \
                    Tmpl(s.n, s.idx, [(g, tuple(("set", x, a[1] if len(a) > 1 else None) for x in vs)) for g, vs in s.alts], s.facts)
                d.p = norm(d.p + (s2,))
            return d
        if cls is itertools.chain and name == "from_iterable":
            return call(itertools.chain, list(to_items(a[0])))
        if cls is str and name == "join":
            return str_method(a[0], name, a[1:], k)
        return method(a[0], name, a[1:], k)
    return NativeFn("%s.%s" % (cls.__name__, name), f)

def setattr_(o, name, v):
    if isinstance(o, Obj):
        raw = class_attr(o.cls, name)
        if isinstance(raw, property):
            if raw.fset is None:
                raise_py(AttributeError, "can't set attribute")
            return call(raw.fset, [o, v])
        if class_attr(o.cls, "__setattr__") is not None:
            raise Unsupported("__setattr__")
        if o.p.get(name, MISSING) is v:
            E.journal.append((o, o.p, None))
            return
        o.set(name, v)
        return
    if isinstance(o, (type, types.ModuleType, types.FunctionType)):
        raise Unsupported("write to a global object")
    raise_py(AttributeError, "cannot set attribute")

def vars_(o):
    if isinstance(o, Obj):
        return Dct(norm([Items([("set", k, v) for k, v in o.p.items()])]), "template")
    raise_py(TypeError, "vars() argument must have __dict__ attribute")

def flat_types(t):
    if isinstance(t, tuple):
        return [y for x in t for y in flat_types(x)]
    if typing.get_origin(t) is typing.Union or isinstance(t, types.UnionType):
        return [y for x in typing.get_args(t) for y in flat_types(x)]
    if t is None: return [type(None)]
    return [t]

def isinstance_(v, t):
    v = defined(v)
    ts = flat_types(t)
    c = class_of(v)
    for x in ts:
        if typing.get_origin(x) is not None:
            raise_py(TypeError, "isinstance() argument 2 cannot be a parameterized generic")
        if not isinstance(x, type):
            if x is typing.Any:
                raise_py(TypeError, "typing.Any cannot be used with isinstance()")
            if x in (typing.List, typing.Dict, typing.Set, typing.Tuple):
                x = typing.get_origin(x) or {typing.List: list, typing.Dict: dict, typing.Set: set, typing.Tuple: tuple}[x]
            else:
                raise Unsupported("isinstance with %r" % (x,))
        if issubclass(c, x):
            return True
    return False

# ------------------------------------------------------------------ calls
def call(f, args=(), kw=None):
    args, kw = list(args), dict(kw or {})
    f = defined(f)
    if isinstance(f, Bound):
        return call(f.func, [f.self] + args, kw)
    if isinstance(f, Closure):
        return call_closure(f, args, kw)
    if isinstance(f, NativeFn):
        return f.f(args, kw)
    if isinstance(f, types.FunctionType):
        b = BUILTIN.get(f)
        if b is not None:
            return b(args, kw)
        if (f.__module__ or "").startswith(INTERPRETED):
            return call_function(f, args, kw)
        return call_native(f, args, kw)
    if isinstance(f, types.MethodType):
        if getattr(type(f.__self__), "SYMBOLIC", False):
            return f(*args, **kw)
        return call(f.__func__, [wrap(f.__self__)] + args, kw)
    if isinstance(f, type):
        return instantiate(f, args, kw)
    if isinstance(f, Obj):
        g = class_attr(f.cls, "__call__")
        if g is not None:
            return call(g, [f] + args, kw)
        raise_py(TypeError, "object is not callable")
    try:
        b = BUILTIN.get(f)
    except TypeError:
        b = None
    if b is not None:
        return b(args, kw)
    if isinstance(f, functools.partial):
        return call(wrap(f.func), [wrap(x) for x in f.args] + args, {**{k: wrap(x) for k, x in f.keywords.items()}, **kw})
    if f is None or isinstance(f, (HObj, Sym) + SCALARS):
        raise_py(TypeError, "object is not callable")
    return call_native(f, args, kw)

NATIVE_OK = {json.loads, pkgutil.get_data, shlex.split, shlex.quote, shlex.join, os.path.join, os.path.basename, os.path.dirname, os.path.splitext, chr, ord, repr, format, hex, round, divmod}
def call_native(f, args, kw):
    try:
        ok = f in NATIVE_OK
    except TypeError:
        ok = False
    if not ok:
        raise Unsupported("call of %r" % (getattr(f, "__qualname__", f),))
    if f is shlex.split and args and isinstance(args[0], Line):
        return Lst(args[0].words.p)
    if f in (chr, ord) and not is_concrete(args[0]):
        if f is chr and isinstance(args[0], SInt):
            t = z3.Function("chr", I, I)(args[0].t)
            E.add(strlen(t) == 1)
            return SStr(t)
        raise Unsupported("ord")
    if f is repr and not is_concrete(args[0]):
        return opaque()
    return native_call(f, *[unwrap(a) for a in args], **{k: unwrap(a) for k, a in kw.items()})

def call_function(fn, args, kw):
    h = E.hypotheses.get(fn)
    if h is None:
        return call_body(fn, args, kw)
    if fn in E.active:
        return call(h, args, kw)            # a recursive call: its contract holds by induction
    E.active.add(fn)
    try:
        return call_body(fn, args, kw)
    finally:
        E.active.discard(fn)

def call_body(fn, args, kw):
    node = node_of(fn)
    m = fn.__module__ or ""
    if m.startswith("pash_annotations"):
        k = m[len("pash_annotations."):] + "." + fn.__qualname__
        executed[k] = executed.get(k, 0) + 1
    parent = None
    if fn.__closure__:
        parent = Frame(fn.__globals__)
        parent.p = {k: (c.cell_contents if k == "__class__" else wrap(c.cell_contents)) for k, c in zip(fn.__code__.co_freevars, fn.__closure__)}
        parent.origin = "global"
    fr = Frame(fn.__globals__, parent)
    d = [wrap(x) for x in (fn.__defaults__ or ())]
    kd = {k: wrap(x) for k, x in (fn.__kwdefaults__ or {}).items()}
    return run_function(node, fr, d, kd, args, kw, fn.__name__)

def call_closure(f, args, kw):
    fr = Frame(f.frame.globs, f.frame)
    return run_function(f.node, fr, f.defaults, f.kwdefaults, args, kw, f.name)

def run_function(node, fr, defaults, kwdefaults, args, kw, name):
    a = node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    p = {}
    if len(args) > len(params) and not a.vararg:
        raise_py(TypeError, "%s() takes %d positional arguments but %d were given" % (name, len(params), len(args)))
    for k, v in zip(params, args):
        p[k] = v
    if a.vararg:
        p[a.vararg.arg] = tuple(args[len(params):])
    extra = {}
    konly = [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
        if k in p and k in params:
            raise_py(TypeError, "%s() got multiple values for argument '%s'" % (name, k))
        if k in params or k in konly:
            p[k] = v
        elif a.kwarg:
            extra[k] = v
        else:
            raise_py(TypeError, "%s() got an unexpected keyword argument '%s'" % (name, k))
    if a.kwarg:
        p[a.kwarg.arg] = Dct([Items([("set", k, v) for k, v in extra.items()])])
    nd = len(defaults)
    for j, k in enumerate(params):
        if k not in p:
            q = j - (len(params) - nd)
            if q < 0:
                raise_py(TypeError, "%s() missing required argument '%s'" % (name, k))
            p[k] = defaults[q]
    for k in konly:
        if k not in p:
            if k not in kwdefaults:
                raise_py(TypeError, "%s() missing required keyword argument '%s'" % (name, k))
            p[k] = kwdefaults[k]
    fr.p = p
    fr.first = args[0] if args else None
    loc, nonl, glob = locals_of(node)
    fr.nonlocals, fr.globals_ = nonl, glob
    fr.cls = node
    E.depth += 1
    try:
        if E.depth > MAX_DEPTH:
            raise Unsupported("recursion too deep")
        E.check_time()
        if isinstance(node, ast.Lambda):
            return ev(node.body, fr)
        if is_generator(node):
            raise Unsupported("generator function")
        r = run_block(node.body, fr)
        if isinstance(r, tuple):
            return r[1]
        return None
    finally:
        E.depth -= 1

_isgen = {}
def is_generator(node):
    r = _isgen.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
                stack.extend(ast.iter_child_nodes(n))
        _isgen[node] = r
    return r

def instantiate(cls, args, kw):
    b = BUILTIN.get(cls)
    if b is not None:
        return b(args, kw)
    if issubclass(cls, enum.Enum):
        if len(args) == 1 and isinstance(args[0], SEnum) and args[0].cls is cls:
            return args[0]
        if len(args) == 1 and isinstance(args[0], (SInt, SStr)):
            ms = list(cls)
            cs = [eq(args[0], wrap(m.value)) for m in ms]
            if not E.decide(bterm(or_(cs))):
                raise_py(ValueError, "not a valid %s" % cls.__name__)
            return select([(bterm(c), m) for c, m in zip(cs, ms)])
        return native_call(cls, *[unwrap(a) for a in args])
    if issubclass(cls, BaseException):
        o = Obj(cls, {"args": tuple(args)})
        f = class_attr(cls, "__init__") if interpreted_class(cls) else None
        if f is not None:
            call(f, [o] + args, kw)
        return o
    if interpreted_class(cls):
        if getattr(cls, "__abstractmethods__", None):
            raise_py(TypeError, "Can't instantiate abstract class %s" % cls.__name__)
        if isinstance(type(cls), type) and type(cls).__name__ not in ("type", "ABCMeta"):
            raise Unsupported("metaclass")
        if class_attr(cls, "__new__") is not None or any(issubclass(cls, x) for x in (list, dict, tuple, set, str, int)):
            raise Unsupported("class with __new__ or built-in base")
        o = Obj(cls, {})
        f = class_attr(cls, "__init__")
        if f is not None:
            call(f, [o] + args, kw)
        elif args or kw:
            raise_py(TypeError, "%s() takes no arguments" % cls.__name__)
        return o
    raise Unsupported("instance of %s" % cls.__name__)

# ------------------------------------------------------------------ methods of built-in types
def idx(i):
    if isinstance(i, bool): return int(i)
    if isinstance(i, SBool): raise Unsupported("bool as an index")
    return i

def int_term(v):
    return z3.IntVal(v) if isinstance(v, int) else v.t

def list_slice(segs, lo, hi, step):
    lo, hi = (None if lo is None else idx(lo)), (None if hi is None else idx(hi))
    for x in (lo, hi):
        if x is not None and not isinstance(x, (int, SInt)):
            raise_py(TypeError, "slice indices must be integers or None")
    if step not in (None, 1):
        if step == -1 and lo is None and hi is None:
            return reverse_segs(segs)
        if all(isinstance(s, Items) for s in segs) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return norm([Items([v for s in segs for v in s.vals][lo:hi:step])])
        raise Unsupported("slice with step")
    def from_start(x):
        """x as a non-negative position, or ('end', k) for k from the end"""
        if isinstance(x, int):
            return x if x >= 0 else ("end", -x)
        if E.decide(x.t < 0):
            n = length(segs)
            t = z3.simplify(x.t + int_term(n))
            return 0 if E.decide(t < 0) else t
        return x.t
    l = 0 if lo is None else from_start(lo)
    h = None if hi is None else from_start(hi)
    if isinstance(l, tuple) or isinstance(h, tuple):
        if isinstance(h, tuple):
            if isinstance(l, tuple):
                raise Unsupported("slice from both ends")
            return drop_front(drop_last(segs, h[1]), l)
        rest = segs
        tail = []
        for _ in range(l[1]):
            r = split_last(rest)
            if r is None:
                break
            tail.insert(0, r[0])
            rest = r[1]
        if h is None:
            return norm([Items(tail)])
        raise Unsupported("slice")
    if h is not None:
        segs = take_front(segs, h)
    if isinstance(l, int) and l == 0:
        return norm(segs)
    return drop_front(segs, l)

def append_segs(o, segs):
    segs = tuple(norm(segs))
    o.write(norm(o.p + segs), ("append", segs))

def getitem(o, k):
    o, k = defined(o), defined(k)
    if isinstance(o, Lst):
        if not isinstance(k, (int, SInt)):
            raise_py(TypeError, "list indices must be integers or slices")
        return element(o.p, k)
    if isinstance(o, tuple):
        if isinstance(k, SInt):
            return element(norm([Items(o)]), k)
        if not isinstance(k, int):
            raise_py(TypeError, "tuple indices must be integers or slices")
        if not -len(o) <= k < len(o):
            raise_py(IndexError, "tuple index out of range")
        return o[k]
    if isinstance(o, Dct):
        return dct_get(o, k)
    if isinstance(o, (str, SStr)):
        if isinstance(o, str) and isinstance(k, int):
            return native_call(lambda: o[k])
        if isinstance(o, str) and isinstance(k, SInt):
            return element(chars(o), k)
        return str_item(o, k)
    if isinstance(o, type) and issubclass(o, enum.Enum):
        if isinstance(k, SStr):
            ms = list(o.__members__)
            cs = [eq(k, m) for m in ms]
            if not E.decide(bterm(or_(cs))):
                raise_py(KeyError, k)
            return select([(bterm(c), o[m]) for c, m in zip(cs, ms)])
        return native_call(lambda: o[k])
    if isinstance(o, Obj):
        f = class_attr(o.cls, "__getitem__")
        if f is not None:
            return call(f, [o, k])
    if o is None or isinstance(o, (HObj, int, Sym, enum.Enum)) :
        raise_py(TypeError, "object is not subscriptable")
    if isinstance(o, type) or typing.get_origin(o) is not None or (getattr(o, "__module__", "") == "typing"):
        return o            # parameterised type
    raise Unsupported("subscript of %r" % (type(o),))

def setitem(o, k, v):
    if isinstance(o, Dct):
        return dct_set(o, k, v)
    if isinstance(o, Lst):
        k = idx(k)
        if isinstance(k, SInt):
            for n_ in (0,):
                if E.decide(k.t == 0):
                    k = 0
            if isinstance(k, SInt):
                ln = length(o.p)
                if E.decide(k.t == int_term(ln) - 1):
                    k = -1
        if isinstance(k, int):
            if k >= 0:
                pre, rest = [], o.p
                for _ in range(k):
                    r = split_first(rest)
                    if r is None:
                        raise_py(IndexError, "list assignment index out of range")
                    pre.append(r[0]); rest = r[1]
                r = split_first(rest)
                if r is None:
                    raise_py(IndexError, "list assignment index out of range")
                o.write(norm([Items(pre + [v])] + list(r[1])))
            else:
                post, rest = [], o.p
                for _ in range(-k - 1):
                    r = split_last(rest)
                    if r is None:
                        raise_py(IndexError, "list assignment index out of range")
                    post.insert(0, r[0]); rest = r[1]
                r = split_last(rest)
                if r is None:
                    raise_py(IndexError, "list assignment index out of range")
                o.write(norm(list(r[1]) + [Items([v] + post)]))
            return
        if isinstance(k, SInt):
            return set_symbolic(o, k.t, v)
        raise_py(TypeError, "list indices must be integers or slices")
    if isinstance(o, Obj):
        f = class_attr(o.cls, "__setitem__")
        if f is not None:
            return call(f, [o, k, v])
    if isinstance(o, tuple) or o is None or isinstance(o, (str, int, Sym, HObj)):
        raise_py(TypeError, "object does not support item assignment")
    raise Unsupported("item assignment")

def set_symbolic(o, t, v):
    n = length(o.p)
    if E.decide(z3.Or(t >= int_term(n), t < -int_term(n))):
        raise_py(IndexError, "list assignment index out of range")
    if E.decide(t < 0):
        t = z3.simplify(t + int_term(n))
    o.write(norm(list(take_front(o.p, z3.simplify(t))) + [Items([v])] + list(drop_front(o.p, z3.simplify(t + 1)))))

def delitem(o, k):
    if isinstance(o, Dct):
        hashable(k)
        if not decide(dct_has(o, k)):
            raise_py(KeyError, k)
        return dct_del(o, k)
    if isinstance(o, Lst):
        return list_pop(o, k)
    raise Unsupported("del of an item")

def list_pop(o, k=-1):
    k = idx(k)
    if isinstance(k, SInt):
        raise Unsupported("pop at an unknown index")
    if k == 0:
        r = split_first(o.p)
        if r is None:
            raise_py(IndexError, "pop from empty list")
        o.write(norm(r[1]), ("drop", 1))
        return r[0]
    if k == -1:
        r = split_last(o.p)
        if r is None:
            raise_py(IndexError, "pop from empty list")
        o.write(norm(r[1]))
        return r[0]
    vs = to_items(o)
    if not -len(vs) <= k < len(vs):
        raise_py(IndexError, "pop index out of range")
    v = vs[k]
    del vs[k]
    o.write(norm([Items(vs)]))
    return v

def to_items(v):
    segs = to_segs(v)
    if not all(isinstance(s, Items) for s in segs):
        raise Unsupported("list of unknown length")
    return [x for s in segs for x in s.vals]

def unique_values(segs):
    """Members of a set built from these values."""
    out = []
    if all(isinstance(s, Items) for s in segs):
        vs = [v for s in segs for v in s.vals]
        if all(is_concrete(v) for v in vs):
            for v in vs:
                hashable(v)
                if v not in out:
                    out.append(v)
            return norm([Items(out)])
    for s in segs:
        if isinstance(s, Tmpl) and s.nested():
            raise Unsupported("set of a list of lists")
        for v in (s.vals if isinstance(s, Items) else [x for g, vs in s.alts for x in vs]):
            if isinstance(v, (Obj, FObj)):
                hashable(inst(v, []) if isinstance(v, FObj) else v)
    return norm(segs)

def set_len(o):
    vs = to_items(o)
    out = []
    for v in vs:
        if not decide(contains_segs(norm([Items(out)]), v)):
            out.append(v)
    return len(out)

def method(o, name, a, k):
    if isinstance(o, (str, SStr)):
        return str_method(o, name, a, k)
    if isinstance(o, Lst):
        if name == "append": return append_segs(o, [Items([a[0]])])
        if name == "extend": return append_segs(o, to_segs(a[0]))
        if name == "pop": return list_pop(o, *a)
        if name == "copy": return Lst(o.p)
        if name == "clear": return o.write(())
        if name == "insert":
            i = a[0]
            if isinstance(i, int) and i >= 0:
                return o.write(norm(list(take_front(o.p, i)) + [Items([a[1]])] + list(drop_front(o.p, i))))
            if isinstance(i, SInt) and z3.simplify(i.t - int_term(length(o.p))).eq(z3.IntVal(0)):
                return append_segs(o, [Items([a[1]])])
            raise Unsupported("insert")
        if name == "reverse": return o.write(reverse_segs(o.p))
        if name == "count":
            n = z3.IntVal(0)
            for s in o.p:
                if isinstance(s, Items):
                    for v in s.vals:
                        n = n + z3.If(bterm(identical_or_equal(v, a[0])), z3.IntVal(1), z3.IntVal(0))
                else:
                    j = new_index()
                    r = run_pure(lambda: quantify(norm([Items(pick(s, j))]), lambda v: identical_or_equal(v, a[0]), True), scope=(j, s.n))
                    g = disj([conj([g, bterm(v)]) for g, fs, v in r])
                    n = n + count(Tmpl(s.n, j, [(g, (None,)), (z3.Not(g), ())]))
            return mk("int", n)
        if name == "index":
            vs = to_items(o)
            for j, v in enumerate(vs):
                if decide(identical_or_equal(v, a[0])):
                    return j
            raise_py(ValueError, "is not in list")
        if name == "remove":
            segs = list(o.p)
            vs = to_items(o)
            for j, v in enumerate(vs):
                if decide(identical_or_equal(v, a[0])):
                    return o.write(norm([Items(vs[:j] + vs[j + 1:])]))
            raise_py(ValueError, "list.remove(x): x not in list")
        if name == "sort":
            o.write(sorted_segs(o.p, k))
            return None
        if name == "__contains__": return contains(o, a[0])
        if name == "__getitem__": return getitem(o, a[0])
        if name == "__len__": return length(o.p)
        if name == "__iter__": return Iter(o.p)
    if isinstance(o, Dct):
        if name == "get":
            hashable(a[0])
            v = dct_find(o, a[0])
            return (a[1] if len(a) > 1 else k.get("default")) if v is MISSING else v
        if name == "keys": return dct_keys(o)
        if name == "values": return Lst([Items([v for _, v in dct_items(o)])])
        if name == "items": return Lst([Items([(x, v) for x, v in dct_items(o)])])
        if name == "pop":
            hashable(a[0])
            v = dct_find(o, a[0])
            if v is MISSING:
                if len(a) > 1:
                    return a[1]
                raise_py(KeyError, a[0])
            dct_del(o, a[0])
            return v
        if name == "setdefault":
            v = dct_find(o, a[0])
            if v is MISSING:
                v = a[1] if len(a) > 1 else None
                dct_set(o, a[0], v)
            return v
        if name == "update":
            for x in a:
                if isinstance(x, Dct):
                    o.write(norm(o.p + x.p), ("append", x.p))
                else:
                    for y in to_items(x):
                        u = to_items(y)
                        dct_set(o, u[0], u[1])
            for x, v in k.items():
                dct_set(o, x, v)
            return None
        if name == "copy": return Dct(o.p)
        if name == "clear": return o.write(())
        if name == "__contains__": return contains(o, a[0])
        if name == "__getitem__": return getitem(o, a[0])
    if isinstance(o, SetV):
        if name == "add":
            hashable(a[0])
            s = (Items([a[0]]),)
            return o.write(norm(o.p + s), ("append", s))
        if name == "update":
            for x in a:
                s = to_segs(x)
                o.write(norm(o.p + s), ("append", s))
            return None
        if name in ("union", "copy"):
            p = o.p
            for x in a:
                p = norm(p + to_segs(x))
            return SetV(unique_values(p))
        if name == "__contains__": return contains(o, a[0])
        if name == "issubset": return set_le(o.p, to_segs(a[0]))
        if name == "issuperset": return set_le(to_segs(a[0]), o.p)
        if name == "isdisjoint": return not_(quantify(o.p, lambda v: contains_segs(to_segs(a[0]), v), True))
        if name in ("intersection", "difference"):
            other = [to_segs(x) for x in a]
            keep = (lambda v: and_([contains_segs(q, v) for q in other])) if name == "intersection" else (lambda v: not_(or_([contains_segs(q, v) for q in other])))
            return SetV(filter_segs(o.p, keep))
        if is_concrete(o) and all(is_concrete(x) for x in a) and name in ("symmetric_difference",):
            return to_heap(getattr(unwrap(o), name)(*[unwrap(x) for x in a]), "fresh")
        if name in ("discard", "remove"):
            if name == "remove" and not decide(contains(o, a[0])):
                raise_py(KeyError, a[0])
            return o.write(filter_segs(o.p, lambda v: not_(eq(v, a[0]))))
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return method(Lst([Items(o)]), name, a, k)
        if name == "__contains__": return contains(o, a[0])
    if isinstance(o, Iter) and name == "__next__":
        return next_(o)
    raise Unsupported("method %s of %s" % (name, class_of(o).__name__))

def filter_segs(segs, keep):
    acc = Hidden(())
    run_loop(segs, lambda v: append_segs(acc, [Items([v])]) if decide(keep(v)) else None)
    return acc.p

def sorted_segs(segs, k):
    if not all(isinstance(s, Items) for s in segs):
        raise Unsupported("sorting a list of unknown length")
    vs = [v for s in segs for v in s.vals]
    if not all(is_concrete(v) for v in vs):
        raise Unsupported("sorting unknown values")
    key = k.get("key")
    rev = k.get("reverse", False)
    ks = [unwrap(v if key is None else call(key, [v])) for v in vs]
    order = native_call(lambda: tuple(sorted(range(len(vs)), key=lambda j: ks[j], reverse=rev)))
    return norm([Items([vs[j] for j in order])])

# ------------------------------------------------------------------ copying
def deep(v, memo=None):
    """A copy sharing no mutable object."""
    memo = {} if memo is None else memo
    if isinstance(v, HObj):
        if v.oid in memo:
            return memo[v.oid]
        if isinstance(v, Obj):
            if class_attr(v.cls, "__deepcopy__") is not None or class_attr(v.cls, "__copy__") is not None:
                raise Unsupported("copy protocol")
            o = memo[v.oid] = Obj(v.cls, {})
            o.p = {k: deep(x, memo) for k, x in v.p.items()}
            return o
        if isinstance(v, (Lst, SetV, Dct)):
            o = memo[v.oid] = type(v) .__new__(Lst if isinstance(v, Hidden) else type(v))
            HObj.__init__(o, ())
            segs = []
            for s in v.p:
                if isinstance(s, Items):
                    segs.append(Items([deep(x, memo) for x in s.vals]))
                else:
                    segs.append(Tmpl(s.n, s.idx, [(g, tuple(freeze(x, 0) for x in vs)) for g, vs in s.alts], s.facts))
            o.p = norm(segs)
            return o
        raise Unsupported("copy of an iterator")
    if isinstance(v, tuple):
        return tuple(deep(x, memo) for x in v)
    if isinstance(v, Bound):
        return Bound(deep(v.self, memo), v.func)
    return v

def shallow(v):
    if isinstance(v, Obj):
        if class_attr(v.cls, "__copy__") is not None:
            return call(class_attr(v.cls, "__copy__"), [v])
        return Obj(v.cls, v.p)
    if isinstance(v, Lst): return Lst(v.p)
    if isinstance(v, (SetV, Dct)): return type(v)(v.p)
    return v

# ------------------------------------------------------------------ built-in functions
def range_(a):
    a = [idx(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return native_call(lambda: range(*a))
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    step = a[2] if len(a) == 3 else 1
    if step == 1:
        if isinstance(lo, int) and isinstance(hi, SInt) or isinstance(lo, SInt):
            if lo == 0 and isinstance(lo, int):
                segs = counted_range(hi.t)
                if segs is not None:
                    return Lst(segs)
            j = new_index("r")
            n = z3.simplify(int_term(hi) - int_term(lo))
            if not z3.is_int_value(n):
                n = n if E.entails(n >= 0) else z3.If(n > 0, n, z3.IntVal(0))
            return Lst([Tmpl(n, j, [(TRUE, (mk("int", j + int_term(lo)),))])]) if not z3.is_int_value(n) else \
                Lst([Items([mk("int", int_term(lo) + q) for q in range(max(0, n.as_long()))])])
    if step == -1:
        j = new_index("r")
        n = z3.simplify(int_term(lo) - int_term(hi))
        n = n if E.entails(n >= 0) else z3.If(n > 0, n, z3.IntVal(0))
        return Lst([Tmpl(n, j, [(TRUE, (mk("int", int_term(lo) - j),))])])
    raise Unsupported("range")

def zip_segs(lists):
    """Segments of the tuples of a zip."""
    out = []
    lists = [norm(l) for l in lists]
    while all(lists):
        hs = [l[0] for l in lists]
        if all(isinstance(h, Items) for h in hs):
            m = min(len(h.vals) for h in hs)
            out.append(Items([tuple(h.vals[j] for h in hs) for j in range(m)]))
            lists = [norm((Items(h.vals[m:]),) + l[1:]) for h, l in zip(hs, lists)]
        elif all(isinstance(h, Tmpl) and h.width() == 1 for h in hs):
            m = hs[0].n
            for h in hs[1:]:
                if not z3.simplify(h.n).eq(z3.simplify(m)) and E.decide(h.n < m):
                    m = h.n
            j = new_index("z")
            combos = [(TRUE, ())]
            facts = []
            for h in hs:
                p = [(h.idx, j)]
                facts += [sub(f, p) for f in h.facts]
                combos = paired(combos, [(sub(g2, p), inst(v2[0], p, False)) for g2, v2 in h.alts], lambda vs, v: vs + (v,))
            if len(combos) > 400:
                raise Unsupported("zip of lists with many alternatives")
            out.append(Tmpl(m, j, [(g, (vs,)) for g, vs in prune(combos, j, m)], facts))
            lists = [norm(((reindexed(h, lambda q: q + m, h.n - m),) if not z3.simplify(h.n - m).eq(z3.IntVal(0)) else ()) + l[1:]) for h, l in zip(hs, lists)]
        elif all(isinstance(h, Tmpl) and not h.nested() for h in hs) and (z := zip_filtered(lists, hs)) is not None:
            seg, lists = z
            out.append(seg)
            if lists is None:
                return norm(out)
        else:
            rs = []
            for l in lists:
                r = split_first(l)
                if r is None:
                    return norm(out)
                rs.append(r)
            out.append(Items([tuple(r[0] for r in rs)]))
            lists = [norm(r[1]) for r in rs]
    return norm(out)

def paired(combos, alts, join):
    """All combinations of two sets of alternatives; the guards of one set exclude each other."""
    if len(combos) == len(alts) > 1:
        by = {g.get_id(): v for g, v in alts}
        if len(by) == len(alts) and all(g.get_id() in by for g, vs in combos):
            return [(g, join(vs, by[g.get_id()])) for g, vs in combos]
    return [(conj([g, g2]), join(vs, v)) for g, vs in combos for g2, v in alts]

def zip_filtered(lists, hs):
    """One segment of the zip of lists that begin with hs, some of them filtered; and what is left of the lists (None: nothing)."""
    f = next(h for h in hs if h.width() != 1)
    j = new_index("z")
    p0 = [(f.idx, j)]
    w = sub(weight(f), p0)
    c = count(f)
    C = count_function(f)[0]
    kinds, facts = [], [sub(x, p0) for x in f.facts]
    for h in hs:
        if h is f:
            kinds.append("it")
        elif h.width() == 1:
            kinds.append("pos")
        else:
            w2 = sub(weight(h), [(h.idx, j)])
            if not z3.simplify(h.n).eq(z3.simplify(f.n)) and E.feasible(h.n != f.n):
                return None
            if not w2.eq(w) and E.feasible(z3.And(0 <= j, j < f.n, w != w2, *facts, *[sub(x, [(h.idx, j)]) for x in h.facts])):
                return None
            kinds.append("same")
            facts += [sub(x, [(h.idx, j)]) for x in h.facts]
    ends = []
    for h, k, l in zip(hs, kinds, lists):
        if k == "pos" and not z3.simplify(h.n == c).eq(TRUE) and not E.decide(h.n >= c):
            if len(l) > 1:
                return None
            ends.append(h)
    alts = []
    for g, vs in f.alts:
        combos = [(sub(g, p0), [(v,) for v in vs])]
        for h, k in list(zip(hs, kinds)):
            nxt = []
            for g1, rows in combos:
                if k == "it":
                    nxt.append((g1, [r + (inst(v, p0, False),) for r, v in zip(rows, vs)]))
                elif k == "same":
                    same = [(sub(g2, [(h.idx, j)]), vs2) for g2, vs2 in h.alts]
                    same = [x for x in same if x[0].eq(sub(g, p0))] or same
                    for g2, vs2 in same:
                        if len(vs2) == len(vs):
                            nxt.append((g1 if g2.eq(sub(g, p0)) else conj([g1, g2]), [r + (inst(v, [(h.idx, j)], False),) for r, v in zip(rows, vs2)]))
                else:
                    opts = [(g1, rows)]
                    for q in range(len(vs)):
                        pos = [(h.idx, z3.simplify(C(j) + q))]
                        more = []
                        for g2, rs in opts:
                            for g3, v3 in h.alts:
                                more.append((conj([g2, sub(g3, pos)]), [r + (inst(v3[0], pos, False),) if x == q else r for x, r in enumerate(rs)]))
                        opts = more
                        facts.extend(z3.Implies(sub(g, p0), sub(x, pos)) for x in h.facts)
                    nxt += opts
            combos = nxt
            if len(combos) > 400:
                raise Unsupported("zip of lists with many alternatives")
        for g1, rows in combos:
            rows = [r[1:] for r in rows]
            if not ends:
                alts.append((g1, tuple(rows)))
                continue
            for m in range(len(rows) + 1):         # the first m values still have a partner
                inside = [C(j) + (m - 1) < e.n for e in ends] if m else []
                outside = [disj([C(j) + m >= e.n for e in ends])] if m < len(rows) else []
                alts.append((conj([g1] + inside + outside), tuple(rows[:m])))
    seg = Tmpl(f.n, j, prune(alts, j, f.n), facts)
    if ends:
        return seg, None
    rest = []
    for h, k, l in zip(hs, kinds, lists):
        left = () if k != "pos" or z3.simplify(h.n - c).eq(z3.IntVal(0)) else (reindexed(h, lambda q: q + c, z3.simplify(h.n - c)),)
        rest.append(norm(left + tuple(l[1:])))
    return seg, rest

def prune(combos, j, m):
    if len(combos) == 1:
        return combos
    out = []
    for g, vs in combos:
        if E.feasible(z3.And(0 <= j, j < m, g)):
            out.append((g, vs))
    return out

def next_(a):
    o = a[0] if isinstance(a, list) else a
    a = a if isinstance(a, list) else [a]
    if isinstance(o, LazyV):
        segs = effect_free(lambda: to_segs(o))
        r = split_first(segs)
    elif isinstance(o, Iter):
        r = split_first(o.p)
        if r is not None:
            o.write(norm(r[1]))
    else:
        raise_py(TypeError, "object is not an iterator")
    if r is None:
        if len(a) > 1:
            return a[1]
        raise_py(StopIteration, "")
    return r[0]

def sum_(a, k):
    segs = to_segs(a[0])
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                acc = binop(ast.Add, acc, v)
        else:
            # (lists in place are none of these)
            ok = all(isinstance(v, (int, SBool)) for g, vs in s.alts for v in vs)
            if not ok or not isinstance(acc, (int, SInt)):
                raise Unsupported("sum over a list of unknown length")
            total = z3.IntVal(0)
            flat = []
            for g, vs in s.alts:
                w = z3.IntVal(0)
                for v in vs:
                    w = w + (z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, SBool) else z3.IntVal(int(v)))
                flat.append((g, z3.simplify(w)))
            one = disj([z3.And(g, w == 1) for g, w in flat])
            if not all(E.entails(z3.Implies(z3.And(0 <= s.idx, s.idx < s.n, g), z3.And(w >= 0, w <= 1))) for g, w in flat):
                raise Unsupported("sum over a list of unknown length")
            one = z3.simplify(one)
            acc = mk("int", int_term(acc) + count(Tmpl(s.n, s.idx, [(one, (None,)), (z3.Not(one), ())])))
    return acc

def minmax(a, k, less):
    vs = to_items(a[0]) if len(a) == 1 else list(a)
    if not vs:
        if "default" in k: return k["default"]
        raise_py(ValueError, "arg is an empty sequence")
    if "key" in k: raise Unsupported("key")
    r = vs[0]
    for v in vs[1:]:
        c = compare(ast.Lt, v, r) if less else compare(ast.Gt, v, r)
        x = ite([bterm(c), z3.Not(bterm(c))], [v, r])
        r = x if x is not None else (v if decide(c) else r)
    return r

def int_(a):
    if not a: return 0
    v = a[0]
    if isinstance(v, (SInt,)): return v
    if isinstance(v, SBool): return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if is_concrete(v): return native_call(int, *[unwrap(x) for x in a])
    raise Unsupported("int of an unknown string")

def type_(a):
    if len(a) != 1:
        raise Unsupported("type with three arguments")
    return class_of(defined(a[0]))

def hasattr_(o, name):
    try:
        getattr_(o, name)
        return True
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise

def getattr_builtin(a, k):
    if not isinstance(a[1], str):
        if isinstance(a[1], SStr): raise Unsupported("getattr with an unknown name")
        raise_py(TypeError, "attribute name must be string")
    if len(a) == 2:
        return getattr_(a[0], a[1])
    try:
        return getattr_(a[0], a[1])
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return a[2]
        raise

def issubclass_(a, b):
    return any(issubclass(a, x) for x in flat_types(b))

def len_(v):
    v = defined(v)
    if isinstance(v, Lst): return length(v.p)
    if isinstance(v, tuple): return len(v)
    if isinstance(v, str): return len(v)
    if isinstance(v, SStr):
        E.always(strlen(v.t) >= 0)
        return SInt(strlen(v.t))
    if isinstance(v, Dct): return length(dct_keys(v).p)
    if isinstance(v, SetV): return set_len(v)
    if isinstance(v, type) and issubclass(v, enum.Enum): return len(v)
    if isinstance(v, range): return len(v)
    if isinstance(v, Obj):
        f = class_attr(v.cls, "__len__")
        if f is not None: return call(f, [v])
    raise_py(TypeError, "object has no len()")

def list_(a, k):
    if not a: return Lst(())
    return Lst(to_segs(a[0]))

def dict_(a, k):
    d = Dct(())
    if a:
        if isinstance(a[0], Dct):
            d.p = a[0].p
        else:
            segs = []
            for s in to_segs(a[0]):
                f = lambda x: ("set", pair(x)[0], pair(x)[1])
                segs.append(Items([f(x) for x in s.vals]) if isinstance(s, Items) else Tmpl(s.n, s.idx, [(g, tuple(f(x) for x in vs)) for g, vs in s.alts], s.facts))
            d.p = norm(segs)
    for x, v in k.items():
        d.p = norm(d.p + (Items([("set", x, v)]),))
    return d

def pair(x):
    if isinstance(x, tuple) and len(x) == 2: return x
    if isinstance(x, (Lst,)):
        v = to_items(x)
        if len(v) == 2: return v
    raise Unsupported("dict from such pairs")

def map_(a, k):
    f, ls = a[0], a[1:]
    def force():
        segs = to_segs(ls[0]) if len(ls) == 1 else zip_segs([to_segs(l) for l in ls])
        acc = Hidden(())
        run_loop(segs, lambda v: append_segs(acc, [Items([call(f, [v] if len(ls) == 1 else list(v))])]))
        return acc.p
    def gens(is_any):
        segs = to_segs(ls[0]) if len(ls) == 1 else zip_segs([to_segs(l) for l in ls])
        return quantify(segs, lambda v: call(f, [v] if len(ls) == 1 else list(v)), is_any)
    return LazyV(force, gens)

def filter_(a, k):
    return LazyV(lambda: filter_segs(to_segs(a[1]), (lambda v: v) if a[0] is None else (lambda v: call(a[0], [v]))))

def enumerate_(a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    out, n = [], start
    for s in to_segs(a[0]):
        if isinstance(s, Items):
            out.append(Items([(binop(ast.Add, n, j), v) for j, v in enumerate(s.vals)]))
            n = binop(ast.Add, n, len(s.vals))
        elif s.width() == 1:
            out.append(Tmpl(s.n, s.idx, [(g, ((mk("int", s.idx + int_term(n)), vs[0]),)) for g, vs in s.alts], s.facts))
            n = mk("int", int_term(n) + s.n)
        else:
            C, body, kk = count_function(s)
            c = count(s)
            if any(len(vs) > 1 for g, vs in s.alts) or s.nested():
                raise Unsupported("enumerate")
            out.append(Tmpl(s.n, s.idx, [(g, tuple((mk("int", C(s.idx) + int_term(n)), v) for v in vs)) for g, vs in s.alts], s.facts))
            n = mk("int", int_term(n) + c)
    return Lst(out)

def chain_(a, k):
    return LazyV(lambda: norm([s for x in a for s in to_segs(x)]), lambda is_any: quantify(norm([s for x in a for s in to_segs(x)]), lambda v: v, is_any))

def reduce_(a, k):
    segs = to_segs(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        r = split_first(segs)
        if r is None:
            raise_py(TypeError, "reduce() of empty iterable with no initial value")
        acc, segs = r
    for s in segs:
        if not isinstance(s, Items):
            raise Unsupported("reduce over a list of unknown length")
        for v in s.vals:
            acc = call(a[0], [acc, v])
    return acc

def reversed_(a, k):
    return Lst(reverse_segs(to_segs(a[0])))

BUILTIN = {
    len: lambda a, k: len_(a[0]), isinstance: lambda a, k: isinstance_(a[0], a[1]), issubclass: lambda a, k: issubclass_(a[0], a[1]),
    range: lambda a, k: range_(a), any: lambda a, k: any_all(a[0], True), all: lambda a, k: any_all(a[0], False),
    list: list_, tuple: lambda a, k: tuple(to_items(a[0])) if a else (), set: lambda a, k: SetV(unique_values(to_segs(a[0])) if a else ()),
    frozenset: lambda a, k: SetV(unique_values(to_segs(a[0])) if a else ()), dict: dict_,
    str: lambda a, k: str_of(a[0]) if a else "", int: lambda a, k: int_(a), bool: lambda a, k: truth(a[0]) if a else False, type: lambda a, k: type_(a),
    zip: lambda a, k: Lst(zip_segs([to_segs(x) for x in a])), enumerate: enumerate_, map: map_, filter: filter_, reversed: reversed_,
    sum: sum_, min: lambda a, k: minmax(a, k, True), max: lambda a, k: minmax(a, k, False), sorted: lambda a, k: Lst(sorted_segs(to_segs(a[0]), k)),
    getattr: getattr_builtin, setattr: lambda a, k: setattr_(a[0], a[1], a[2]), hasattr: lambda a, k: hasattr_(a[0], a[1]),
    callable: lambda a, k: isinstance(a[0], (Closure, Bound, NativeFn, types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)),
    print: lambda a, k: None, vars: lambda a, k: vars_(a[0]), iter: lambda a, k: a[0] if isinstance(a[0], (Iter, LazyV)) else Iter(to_segs(a[0])), next: lambda a, k: next_(a),
    copy.deepcopy: lambda a, k: deep(a[0]), copy.copy: lambda a, k: shallow(a[0]), itertools.chain: chain_, functools.reduce: reduce_,
    object: lambda a, k: Obj(object, {}), abs: lambda a, k: abs(a[0]) if isinstance(a[0], int) else SInt(z3.If(a[0].t < 0, -a[0].t, a[0].t)),
    repr: lambda a, k: native_call(repr, unwrap(a[0])) if is_concrete(a[0]) and not isinstance(a[0], HObj) else opaque(),
    id: lambda a, k: unsupported("id"), hash: lambda a, k: unsupported("hash"), open: lambda a, k: unsupported("open"), exec: lambda a, k: unsupported("exec"),
}
def unsupported(what):
    raise Unsupported(what)

# ------------------------------------------------------------------ operators
def binop(op, a, b):
    a, b = defined(a), defined(b)
    ka, kb = kind(a), kind(b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        names = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"), ast.BitOr: ("__or__", "__ror__")}.get(op)
        for o, x, nm in ((a, b, 0), (b, a, 1)):
            if isinstance(o, Obj) and names:
                f = class_attr(o.cls, names[nm])
                if f is not None:
                    return call(f, [o, x])
        raise_py(TypeError, "unsupported operand type(s)")
    if is_concrete(a) and is_concrete(b) and not isinstance(a, (HObj, tuple)) and not isinstance(b, (HObj, tuple)):
        import operator as O
        f = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.FloorDiv: O.floordiv, ast.Mod: O.mod, ast.Div: O.truediv, ast.BitOr: O.or_, ast.BitAnd: O.and_, ast.BitXor: O.xor, ast.Pow: O.pow,
             ast.LShift: O.lshift, ast.RShift: O.rshift}[op]
        return native_call(f, a, b)
    if op is ast.Mod and isinstance(a, (str, SStr)):
        if isinstance(a, str) and is_concrete(b):
            return native_call(lambda: a % unwrap(b))
        return opaque()
    if {ka, kb} <= {"int", "bool"}:
        x, y = [z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, SBool) else term(int(v) if isinstance(v, bool) else v) for v in (a, b)]
        if op is ast.Add: return mk("int", x + y)
        if op is ast.Sub: return mk("int", x - y)
        if op is ast.Mult: return mk("int", x * y)
        if op in (ast.Mod, ast.FloorDiv):
            if E.decide(y == 0):
                raise_py(ZeroDivisionError, "division by zero")
            if not E.decide(y > 0):
                raise Unsupported("division by a negative number")
            return mk("int", x % y if op is ast.Mod else x / y)
        if op is ast.BitOr and ka == kb == "bool": return or_([a, b])
        if op is ast.BitAnd and ka == kb == "bool": return and_([a, b])
        raise Unsupported("arithmetic")
    if op is ast.Add:
        if ka == kb == "str": return str_add(a, b)
        if isinstance(a, Lst) and isinstance(b, Lst): return Lst(a.p + b.p)
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op is ast.Mult:
        if isinstance(b, (Lst, tuple)) and isinstance(a, (int, SInt)): a, b = b, a
        if isinstance(b, (int, SInt)) and isinstance(a, Lst):
            if isinstance(b, int):
                return Lst(a.p * max(0, int(b)))
            vs = to_items(a)
            if not vs:
                return Lst(())
            if len(vs) == 1:
                if E.decide(b.t < 0):
                    return Lst(())
                return Lst([Tmpl(b.t, new_index("m"), [(TRUE, (vs[0],))])])
            raise Unsupported("repetition")
        if isinstance(a, tuple) and isinstance(b, int): return a * b
        if ka == "str" and isinstance(b, int) and isinstance(a, str): return a * b
    if isinstance(a, SetV) and isinstance(b, SetV):
        if op is ast.BitOr: return SetV(unique_values(norm(a.p + b.p)))
        if op is ast.Sub: return method(a, "difference", [b], {})
        if op is ast.BitAnd: return method(a, "intersection", [b], {})
    if isinstance(a, Dct) and isinstance(b, Dct) and op is ast.BitOr: return Dct(a.p + b.p)
    if isinstance(a, (Line,)) or isinstance(b, Line): raise Unsupported("use of a command line")
    raise_py(TypeError, "unsupported operand type(s) for %s" % op.__name__)

def compare(op, a, b):
    if op is ast.Eq: return eq(a, b)
    if op is ast.NotEq: return value_ne(a, b)
    if op is ast.Is: return is_same(a, b)
    if op is ast.IsNot: return not_(is_same(a, b))
    if op is ast.In: return contains_or_loop(b, a)
    if op is ast.NotIn: return not_(contains_or_loop(b, a))
    a, b = defined(a), defined(b)
    if {kind(a), kind(b)} <= {"int", "bool"}:
        x, y = [z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, SBool) else term(int(v) if isinstance(v, bool) else v) for v in (a, b)]
        r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op]
        return boolv(r)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if op is ast.LtE: return set_le(a.p, b.p)
        if op is ast.GtE: return set_le(b.p, a.p)
    if is_concrete(a) and is_concrete(b):
        import operator as O
        f = {ast.Lt: O.lt, ast.LtE: O.le, ast.Gt: O.gt, ast.GtE: O.ge}[op]
        return native_call(f, unwrap(a), unwrap(b))
    if kind(a) != kind(b) or isinstance(a, Obj):
        raise_py(TypeError, "not supported between such instances")
    raise Unsupported("order comparison")

def contains_or_loop(c, x):
    try:
        return contains(c, x)
    except NotPure:
        segs = to_segs(c)
        return run_loop(segs, lambda v: "break" if decide(identical_or_equal(v, x)) else None) == "break"

# ------------------------------------------------------------------ names
def lookup(name, fr):
    f = fr
    while f is not None:
        if name in f.p and name not in f.globals_:
            return defined(f.p[name])
        if f.cls is not None and name in locals_of(f.cls)[0]:
            raise_py(UnboundLocalError if f is fr else NameError, "cannot access local variable '%s'" % name)
        f = f.parent
    g = fr.globs
    if name in g:
        return wrap(g[name])
    if hasattr(builtins, name):
        return getattr(builtins, name)
    raise_py(NameError, "name '%s' is not defined" % name)

def assign_name(name, v, fr):
    if name in fr.globals_:
        raise Unsupported("write to a global variable")
    f = fr
    if name in fr.nonlocals:
        f = fr.parent
        while f is not None and name not in f.p:
            f = f.parent
        if f is None:
            raise Unsupported("nonlocal")
    elif fr.cls is None and fr.parent is not None and getattr(fr, "first", None) == "comp":
        pass
    if f.p.get(name, MISSING) is v and v is not MISSING:
        E.journal.append((f, f.p, None))
    f.set(name, v)

def assign(t, v, fr):
    if isinstance(t, ast.Name):
        assign_name(t.id, v, fr)
    elif isinstance(t, (ast.Tuple, ast.List)):
        star = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if star:
            vs = to_items(v)
            j = star[0]
            m = len(t.elts) - j - 1
            if len(vs) < len(t.elts) - 1:
                raise_py(ValueError, "not enough values to unpack")
            for x, y in zip(t.elts[:j], vs[:j]): assign(x, y, fr)
            assign(t.elts[j].value, Lst([Items(vs[j:len(vs) - m])]), fr)
            for x, y in zip(t.elts[j + 1:], vs[len(vs) - m:]): assign(x, y, fr)
            return
        segs = to_segs(v)
        if all(isinstance(s, Items) for s in segs):
            vs = [x for s in segs for x in s.vals]
        else:
            vs = []
            for _ in t.elts:
                r = split_first(segs)
                if r is None:
                    break
                vs.append(r[0]); segs = r[1]
            else:
                if not decide(empty(segs)):
                    raise_py(ValueError, "too many values to unpack")
        if len(vs) != len(t.elts):
            raise_py(ValueError, "cannot unpack %d values" % len(vs))
        for x, y in zip(t.elts, vs):
            assign(x, y, fr)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, fr)
        if isinstance(t.slice, ast.Slice):
            lo, hi, st = [None if x is None else ev(x, fr) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
            if isinstance(o, Lst) and st is None:
                if lo is None and hi is None:
                    return o.write(norm(to_segs(v)))
                if isinstance(lo, (type(None), int)) and (hi is None) and (lo or 0) >= 0:
                    return o.write(norm(list(take_front(o.p, lo or 0)) + list(to_segs(v))))
                if isinstance(hi, int) and lo in (None, 0) and hi >= 0:
                    return o.write(norm(list(to_segs(v)) + list(drop_front(o.p, hi))))
            raise Unsupported("slice assignment")
        setitem(o, ev(t.slice, fr), v)
    elif isinstance(t, ast.Starred):
        assign(t.value, v, fr)
    else:
        raise Unsupported("assignment")

# ------------------------------------------------------------------ statements
def run_block(stmts, fr):
    for s in stmts:
        r = STMT[type(s)](s, fr) if type(s) in STMT else unsupported("statement %s" % type(s).__name__)
        if r is not None:
            return r
    return None

def s_expr(s, fr): ev(s.value, fr)
def s_assign(s, fr):
    v = ev(s.value, fr)
    for t in s.targets:
        assign(t, v, fr)
def s_annassign(s, fr):
    if s.value is not None:
        assign(s.target, ev(s.value, fr), fr)
def s_augassign(s, fr):
    t = s.target
    if isinstance(t, ast.Name):
        old = lookup(t.id, fr)
        put = lambda v: assign_name(t.id, v, fr)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr)
        old = getattr_(o, t.attr)
        put = lambda v: setattr_(o, t.attr, v)
    else:
        o, k = ev(t.value, fr), ev(t.slice, fr)
        old = getitem(o, k)
        put = lambda v: setitem(o, k, v)
    v = ev(s.value, fr)
    if isinstance(s.op, ast.Add) and isinstance(old, Lst):
        append_segs(old, to_segs(v))
        return put(old)
    if isinstance(s.op, ast.BitOr) and isinstance(old, (SetV, Dct)) and type(v) is type(old):
        method(old, "update", [v], {})
        return put(old)
    if isinstance(s.op, (ast.Mult, ast.Sub, ast.BitAnd)) and isinstance(old, HObj):
        raise Unsupported("in-place operation")
    put(binop(type(s.op), old, v))
def s_return(s, fr): return ("return", None if s.value is None else ev(s.value, fr))
def s_pass(s, fr): return None
def s_break(s, fr): return "break"
def s_continue(s, fr): return "continue"
def s_if(s, fr): return run_block(s.body if decide(ev(s.test, fr)) else s.orelse, fr)

def s_for(s, fr):
    it = ev(s.iter, fr)
    src = it if isinstance(it, (Lst, Dct, SetV)) else None
    if isinstance(it, LazyV):
        segs = effect_free(lambda: to_segs(it))
    else:
        segs = to_segs(it)
    before = src.p if src is not None else None
    def step(v):
        assign(s.target, v, fr)
        r = run_block(s.body, fr)
        if src is not None and src.p is not before and src.p != before:
            raise Unsupported("list changed while iterating over it")
        return None if r == "continue" else r
    r = run_loop(segs, step)
    if r == "break":
        return None
    if r is not None:
        return r
    return run_block(s.orelse, fr) if s.orelse else None

def s_while(s, fr):
    from dv import whileloop
    return whileloop.run(s, fr)

def s_raise(s, fr):
    if s.exc is None:
        e = E.handling[-1] if E.handling else None
        if e is None:
            raise_py(RuntimeError, "No active exception to reraise")
        raise PyRaise(e)
    v = ev(s.exc, fr)
    if isinstance(v, type) and issubclass(v, BaseException):
        v = instantiate(v, [], {})
    if not (isinstance(v, Obj) and issubclass(v.cls, BaseException)):
        raise_py(TypeError, "exceptions must derive from BaseException")
    raise PyRaise(v)

def s_assert(s, fr):
    if not decide(ev(s.test, fr)):
        raise_py(AssertionError, "")

def s_try(s, fr):
    pending = None
    r = None
    try:
        r = run_block(s.body, fr)
        if r is None and s.orelse:
            r = run_block(s.orelse, fr)
    except PyRaise as e:
        done = False
        for h in s.handlers:
            t = None if h.type is None else ev(h.type, fr)
            if t is None or issubclass(e.exc.cls, tuple(flat_types(t))):
                if h.name:
                    assign_name(h.name, e.exc, fr)
                E.handling.append(e.exc)
                try:
                    r = run_block(h.body, fr)
                except PyRaise as e2:
                    pending = e2
                finally:
                    E.handling.pop()
                done = True
                break
        if not done:
            pending = e
    if s.finalbody:
        f = run_block(s.finalbody, fr)
        if f is not None:
            return f
    if pending is not None:
        raise pending
    return r

def s_delete(s, fr):
    for t in s.targets:
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("del of a slice")
            delitem(ev(t.value, fr), ev(t.slice, fr))
        elif isinstance(t, ast.Name):
            if t.id not in fr.p:
                raise_py(UnboundLocalError, t.id)
            p = dict(fr.p)
            del p[t.id]
            fr.write(p)
        elif isinstance(t, ast.Attribute):
            o = ev(t.value, fr)
            if not isinstance(o, Obj) or t.attr not in o.p:
                raise_py(AttributeError, t.attr)
            p = dict(o.p)
            del p[t.attr]
            o.write(p)
        else:
            raise Unsupported("del")

def s_def(s, fr):
    if s.decorator_list:
        raise Unsupported("decorated local function")
    a = s.args
    assign_name(s.name, Closure(s, fr, [ev(x, fr) for x in a.defaults], {x.arg: ev(y, fr) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}, s.name), fr)

def s_import(s, fr):
    import importlib
    if isinstance(s, ast.Import):
        for x in s.names:
            m = importlib.import_module(x.name)
            assign_name(x.asname or x.name.split(".")[0], m if x.asname else sys.modules[x.name.split(".")[0]], fr)
    else:
        m = importlib.import_module(s.module)
        for x in s.names:
            assign_name(x.asname or x.name, wrap(getattr(m, x.name)), fr)

def s_match(s, fr):
    v = ev(s.subject, fr)
    for c in s.cases:
        p = c.pattern
        if matches(p, v, fr) and (c.guard is None or decide(ev(c.guard, fr))):
            return run_block(c.body, fr)
    return None

def matches(p, v, fr):
    if isinstance(p, ast.MatchValue): return decide(eq(v, ev(p.value, fr)))
    if isinstance(p, ast.MatchSingleton): return decide(is_same(v, p.value))
    if isinstance(p, ast.MatchOr): return any(matches(q, v, fr) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not matches(p.pattern, v, fr):
            return False
        if p.name: assign_name(p.name, v, fr)
        return True
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return isinstance_(v, ev(p.cls, fr))
    raise Unsupported("match pattern")

STMT = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_annassign, ast.AugAssign: s_augassign, ast.Return: s_return, ast.Pass: s_pass, ast.Break: s_break,
        ast.Continue: s_continue, ast.If: s_if, ast.For: s_for, ast.While: s_while, ast.Raise: s_raise, ast.Assert: s_assert, ast.Try: s_try, ast.Delete: s_delete,
        ast.FunctionDef: s_def, ast.Import: s_import, ast.ImportFrom: s_import, ast.Global: s_pass, ast.Nonlocal: s_pass, ast.Match: s_match}

# ------------------------------------------------------------------ expressions
def ev(e, fr):
    f = EXPR.get(type(e))
    if f is None:
        raise Unsupported("expression %s" % type(e).__name__)
    return f(e, fr)

def e_const(e, fr): return e.value
def e_name(e, fr): return lookup(e.id, fr)
def e_attr(e, fr): return getattr_(ev(e.value, fr), e.attr)

def e_subscript(e, fr):
    o = ev(e.value, fr)
    if isinstance(e.slice, ast.Slice):
        lo, hi, st = [None if x is None else ev(x, fr) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
        if isinstance(o, Lst): return Lst(list_slice(o.p, lo, hi, st))
        if isinstance(o, tuple):
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)): return o[lo:hi:st]
            return tuple(to_items(Lst(list_slice(norm([Items(o)]), lo, hi, st))))
        if isinstance(o, (str, SStr)): return str_slice(o, lo, hi, st)
        if o is None or isinstance(o, (int, HObj, Sym)): raise_py(TypeError, "object is not subscriptable")
        raise Unsupported("slice")
    return getitem(o, ev(e.slice, fr))

def e_call(e, fr):
    # super() needs the class of the function
    if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.p:
        if e.args:
            a = [ev(x, fr) for x in e.args]
            return SuperV(a[0], a[1])
        f = fr
        while f is not None and f.first is None:
            f = f.parent
        return SuperV(lookup("__class__", fr), f.first)
    f = ev(e.func, fr)
    args, kw = [], {}
    for a in e.args:
        if isinstance(a, ast.Starred):
            args += to_items(ev(a.value, fr))
        else:
            args.append(ev(a, fr))
    for k in e.keywords:
        v = ev(k.value, fr)
        if k.arg is None:
            kw.update({x: y for x, y in dct_items(v)})
        else:
            kw[k.arg] = v
    return call(f, args, kw)

def e_boolop(e, fr):
    is_or = isinstance(e.op, ast.Or)
    def go(vals):
        v = ev(vals[0], fr)
        if len(vals) == 1:
            return v
        t = truth(v)
        if isinstance(t, bool):
            return v if t is is_or else go(vals[1:])
        if isinstance(v, SBool):
            try:
                r = run_pure(lambda: go(vals[1:]), [z3.Not(t.t) if is_or else t.t])
                if all(isinstance(x, (bool, SBool)) for g, f, x in r):
                    w = any(is_weak(x) for g, f, x in r)
                    rest = SBool(disj([conj([g, bterm(x)]) for g, f, x in r]), w) if r else (not is_or)
                    return or_([t, rest]) if is_or else and_([t, rest])
            except NotPure:
                pass
        if t.weak:
            raise Unsupported("branch on a comparison that is only decided one way")
        return v if E.decide(t.t) is is_or else go(vals[1:])
    return go(e.values)

def e_unary(e, fr):
    v = ev(e.operand, fr)
    if isinstance(e.op, ast.Not): return not_(truth(v))
    if isinstance(e.op, ast.USub):
        if isinstance(v, SInt): return mk("int", -v.t)
        if is_concrete(v): return native_call(lambda: -v)
    if isinstance(e.op, ast.UAdd): return v
    raise Unsupported("unary operator")

def e_binop(e, fr): return binop(type(e.op), ev(e.left, fr), ev(e.right, fr))

def e_compare(e, fr):
    left = ev(e.left, fr)
    out = []
    for op, r in zip(e.ops, e.comparators):
        right = ev(r, fr)
        c = compare(type(op), left, right)
        if isinstance(c, (bool, SBool)):
            if c is False:
                return False
            out.append(c)
        else:
            return c
        left = right
    return and_(out)

def e_ifexp(e, fr):
    t = truth(ev(e.test, fr))
    if isinstance(t, SBool) and not t.weak and isinstance(e.body, (ast.Constant, ast.Name, ast.Attribute)) and isinstance(e.orelse, (ast.Constant, ast.Name, ast.Attribute)):
        try:
            v = ite([t.t, z3.Not(t.t)], [ev(e.body, fr), ev(e.orelse, fr)])
            if v is not None:
                return v
        except PyRaise:
            pass
    return ev(e.body if decide(t) else e.orelse, fr)

def e_list(e, fr):
    segs = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            segs += list(to_segs(ev(x.value, fr)))
        else:
            segs.append(Items([ev(x, fr)]))
    return Lst(segs)
def e_tuple(e, fr):
    out = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            out += to_items(ev(x.value, fr))
        else:
            out.append(ev(x, fr))
    return tuple(out)
def e_set(e, fr): return SetV(unique_values(e_list(e, fr).p))
def e_dict(e, fr):
    d = Dct(())
    for k, v in zip(e.keys, e.values):
        if k is None:
            method(d, "update", [ev(v, fr)], {})
        else:
            kk = ev(k, fr)
            dct_set(d, kk, ev(v, fr))
    return d

def e_lambda(e, fr):
    a = e.args
    return Closure(e, fr, [ev(x, fr) for x in a.defaults], {x.arg: ev(y, fr) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}, "<lambda>")

def comp_frame(fr):
    f = Frame(fr.globs, fr)
    f.first = None
    return f

def comp_loop(generators, first, fr, emit):
    """Run emit(frame) for every element."""
    def go(k, fr2, segs):
        g = generators[k]
        def step(v):
            f = comp_frame(fr2)
            assign(g.target, v, f)
            for c in g.ifs:
                if not decide(ev(c, f)):
                    return None
            if k + 1 < len(generators):
                go(k + 1, f, to_segs(ev(generators[k + 1].iter, f)))
            else:
                emit(f)
            return None
        run_loop(segs, step)
    go(0, fr, first)

def e_listcomp(e, fr):
    acc = Hidden(())
    comp_loop(e.generators, to_segs(ev(e.generators[0].iter, fr)), fr, lambda f: append_segs(acc, [Items([ev(e.elt, f)])]))
    return Lst(acc.p)

def e_setcomp(e, fr):
    return SetV(unique_values(e_listcomp(e, fr).p))

def e_dictcomp(e, fr):
    acc = Hidden(())
    def emit(f):
        k = ev(e.key, f)
        hashable(k)
        append_segs(acc, [Items([("set", k, ev(e.value, f))])])
    g = e.generators[0]
    # {k: f(v) for k, v in d.items()} is the same map with other values
    if len(e.generators) == 1 and not g.ifs and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts) \
            and isinstance(e.key, ast.Name) and e.key.id == g.target.elts[0].id and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" \
            and not any(isinstance(x, ast.Name) and x.id == e.key.id for x in ast.walk(e.value)):
        d = ev(g.iter.func.value, fr)
        if isinstance(d, Dct) and dct_map(d) is None:
            def one(op):
                if op[0] == "del":
                    append_segs(acc, [Items([op])])
                    return None
                f = comp_frame(fr)
                assign(g.target, (op[1], op[2]), f)
                append_segs(acc, [Items([("set", op[1], ev(e.value, f))])])
                return None
            run_loop(d.p, one)
            return Dct(acc.p)
    comp_loop(e.generators, to_segs(ev(g.iter, fr)), fr, emit)
    return Dct(acc.p)

def e_genexp(e, fr):
    src = ev(e.generators[0].iter, fr)
    def force():
        acc = Hidden(())
        comp_loop(e.generators, to_segs(src), fr, lambda f: append_segs(acc, [Items([ev(e.elt, f)])]))
        return acc.p
    def gens(is_any):
        def go(k, fr2, segs):
            g = e.generators[k]
            def one(v):
                f = comp_frame(fr2)
                assign(g.target, v, f)
                for c in g.ifs:
                    t = truth(ev(c, f))
                    if not decide(t):
                        return not is_any
                if k + 1 < len(e.generators):
                    return go(k + 1, f, to_segs(ev(e.generators[k + 1].iter, f)))
                return truth(ev(e.elt, f))
            return quantify(segs, one, is_any)
        return go(0, fr, to_segs(src))
    return LazyV(force, gens)

def e_joined(e, fr):
    parts = []
    for x in e.values:
        if isinstance(x, ast.Constant):
            parts.append(x.value)
        else:
            v = ev(x.value, fr)
            if x.format_spec is not None or x.conversion not in (-1, 115):
                parts.append(native_call(repr, v) if is_concrete(v) and not isinstance(v, HObj) and x.conversion == 114 and x.format_spec is None else opaque())
            else:
                parts.append(str_of(v))
    return concatenated([y for p in parts for y in cat_parts(p)])

def e_named(e, fr):
    v = ev(e.value, fr)
    f = fr
    while f.cls is None and f.parent is not None:
        f = f.parent
    assign_name(e.target.id, v, f)
    return v

EXPR = {ast.Constant: e_const, ast.Name: e_name, ast.Attribute: e_attr, ast.Subscript: e_subscript, ast.Call: e_call, ast.BoolOp: e_boolop, ast.UnaryOp: e_unary,
        ast.BinOp: e_binop, ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.List: e_list, ast.Tuple: e_tuple, ast.Set: e_set, ast.Dict: e_dict, ast.Lambda: e_lambda,
        ast.ListComp: e_listcomp, ast.SetComp: e_setcomp, ast.DictComp: e_dictcomp, ast.GeneratorExp: e_genexp, ast.JoinedStr: e_joined, ast.NamedExpr: e_named}
