"""Operations on symbolic values: templates, lists, dicts, comparison, copying."""
import enum
import types
import z3
from dv.core import *
from dv import core

SCALARS = (type(None), bool, int, float, str, bytes)

# ------------------------------------------------------------------ freezing and instantiation
def freeze(v, mark, seen=None):
    """An immutable copy of v for use in a template; objects older than mark are kept by reference."""
    if isinstance(v, HObj):
        if v.oid < mark:
            return v
        if isinstance(v, (Frame, Iter)):
            raise Unsupported("frame or iterator in a template")
        seen = seen or ()
        if v in seen:
            raise Unsupported("cyclic object in a template")
        seen = seen + (v,)
        if isinstance(v, Obj):
            return FObj(Obj, v.cls, {k: freeze(x, mark, seen) for k, x in v.p.items()})
        return FObj(type(v), None, freeze_segs(v.p, mark, seen))
    if isinstance(v, tuple):
        return tuple(freeze(x, mark, seen) for x in v)
    if isinstance(v, FObj):
        return FObj(v.kind, v.cls, {k: freeze(x, mark, seen) for k, x in v.p.items()} if v.kind is Obj else freeze_segs(v.p, mark, seen))
    if isinstance(v, Bound):
        return Bound(freeze(v.self, mark, seen), v.func)
    if isinstance(v, Line):
        return Line(freeze(v.words, mark, seen))
    if isinstance(v, Splice):
        return Splice(freeze_segs(v.segs, mark, seen))
    if isinstance(v, Closure) and v.frame is not None and v.frame.oid >= mark:
        raise Unsupported("closure in a template")
    if isinstance(v, (Poison, Late)):
        raise Unsupported("unknown value in a template")
    return v

def freeze_segs(segs, mark, seen=None):
    out = []
    for s in segs:
        if isinstance(s, Items):
            out.append(Items([freeze(x, mark, seen) for x in s.vals]))
        else:
            out.append(Tmpl(s.n, s.idx, [(g, tuple(freeze(x, mark, seen) for x in vs)) for g, vs in s.alts], s.facts))
    return tuple(out)

def sub(t, pairs):
    return reduced(z3.substitute(t, *pairs)) if pairs else t

def inst(v, pairs, thaw=True):
    """A frozen value with indices replaced; thaw: as heap objects (that cannot be written)."""
    if isinstance(v, Sym):
        t = sub(v.t, pairs)
        if isinstance(v, SEnum):
            return SEnum(v.cls, t)
        if isinstance(v, SBool):
            return SBool(t, v.weak)
        return type(v)(t)
    if isinstance(v, FObj):
        if v.kind is Obj:
            f = {k: inst(x, pairs, thaw) for k, x in v.p.items()}
            return Obj(v.cls, f, "template") if thaw else FObj(Obj, v.cls, f)
        segs = inst_segs(v.p, pairs, thaw)
        if not thaw:
            return FObj(v.kind, None, segs)
        o = v.kind.__new__(v.kind)
        HObj.__init__(o, norm(segs), "template")
        return o
    if isinstance(v, tuple):
        return tuple(inst(x, pairs, thaw) for x in v)
    if isinstance(v, Bound):
        return Bound(inst(v.self, pairs, thaw), v.func)
    if isinstance(v, Line):
        return Line(inst(v.words, pairs, thaw))
    if isinstance(v, Splice):
        return Splice(inst_segs(v.segs, pairs))
    return v

def inst_segs(segs, pairs, thaw=False):
    out = []
    for s in segs:
        if isinstance(s, Items):
            out.append(Items([inst(x, pairs, thaw) for x in s.vals]))
        else:
            out.append(sub_tmpl(s, pairs))
    return tuple(out)

def sub_tmpl(s, pairs, n=None):
    """Replace indices other than the template's own one."""
    return Tmpl(sub(s.n, pairs) if n is None else n, s.idx, [(sub(g, pairs), tuple(inst(x, pairs, False) for x in vs)) for g, vs in s.alts],
                [sub(f, pairs) for f in s.facts])

def new_index(name="i"):
    E.names += 1
    return z3.Int("%s!%d" % (name, E.names))

def reindexed(tm, f, n):
    """The template of the elements at positions f(0), ..., f(n-1)."""
    j = new_index("j")
    p = [(tm.idx, f(j))]
    return Tmpl(z3.simplify(n), j, [(sub(g, p), tuple(inst(x, p, False) for x in vs)) for g, vs in tm.alts], [sub(x, p) for x in tm.facts])

def at(tm, t):
    """[(guard, values)] at index t."""
    p = [(tm.idx, t)]
    key = ("at", id(tm), t.get_id())
    m = E.memo.get(key)
    if m is None:
        m = E.memo[key] = ([sub(f, p) for f in tm.facts], [(sub(g, p), vs, p) for g, vs in tm.alts], tm, t)
    for f in m[0]:
        E.ground(f)
    return m[1]

def spread(vals):
    """Segments of values that may contain lists in place."""
    out = []
    for v in vals:
        if isinstance(v, Splice):
            out.extend(v.segs)
        else:
            out.append(Items([v]))
    return norm(out)

def pick(tm, t):
    vs = pick_nested(tm, t)
    if any(isinstance(v, Splice) for v in vs):
        segs = spread(vs)
        if not all(isinstance(s, Items) for s in segs):
            raise Unsupported("element of a list of lists")
        return [v for s in segs for v in s.vals]
    return vs

def pick_nested(tm, t):
    """The values at index t (decides between the alternatives)."""
    alts = at(tm, t)
    for k, (g, vs, p) in enumerate(alts):
        if k == len(alts) - 1:
            if not z3.is_true(g):
                E.add(g)
            return [inst(x, p) for x in vs]
        if E.decide(g):
            return [inst(x, p) for x in vs]
    return []

def merged(tm, t):
    """The single value at index t as one value: a term where the alternatives are scalars of one kind."""
    alts = at(tm, t)
    if len(alts) > 1 and all(len(vs) == 1 and not isinstance(vs[0], (FObj, tuple)) for g, vs, p in alts):
        vals = [inst(vs[0], p) for g, vs, p in alts]
        v = ite([g for g, vs, p in alts], vals)
        if v is not None:
            return [v]
    for k, (g, vs, p) in enumerate(alts):
        if k == len(alts) - 1:
            if not z3.is_true(g):
                E.add(g)
        elif not E.decide(g):
            continue
        return [inst(x, p) for x in vs]
    return []

def ite(guards, vals):
    """One scalar value equal to vals[k] if guards[k], or None."""
    if all(v is vals[0] for v in vals) and isinstance(vals[0], (HObj, type, enum.Enum)):
        return vals[0]
    if not all(isinstance(v, (Sym, bool, int, str, enum.Enum)) for v in vals):
        return None
    ks = {kind(v) for v in vals}
    if len(ks) != 1:
        return None
    k = ks.pop()
    t = term(vals[-1])
    for g, v in zip(guards[-2::-1], vals[-2::-1]):
        t = z3.If(g, term(v), t)
    return mk(k, t)

# ------------------------------------------------------------------ scalars
def kind(v):
    if isinstance(v, (SBool, bool)): return "bool"
    if isinstance(v, (SInt, int)): return "int"
    if isinstance(v, (SStr, str)): return "str"
    if isinstance(v, SEnum): return v.cls
    if isinstance(v, enum.Enum): return type(v)
    if v is None: return "none"
    if isinstance(v, Obj): return "obj"
    if isinstance(v, Lst): return "list"
    if isinstance(v, Dct): return "dict"
    if isinstance(v, SetV): return "set"
    if isinstance(v, tuple): return "tuple"
    if isinstance(v, Line): return "line"
    return "native"

_members = {}
def members(cls):
    m = _members.get(cls)
    if m is None:
        m = _members[cls] = list(cls)
    return m

def term(v):
    if isinstance(v, Sym): return v.t
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, str): return lit(v)
    if isinstance(v, enum.Enum): return z3.IntVal(members(type(v)).index(v))
    raise Unsupported("no term for %r" % (v,))

def mk(k, t):
    t = z3.simplify(t)
    if k == "bool":
        return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)
    if z3.is_int_value(t):
        n = t.as_long()
        if k == "int": return n
        if k == "str" and text_of_code(n) is not None: return text_of_code(n)
        if isinstance(k, type) and 0 <= n < len(members(k)): return members(k)[n]
    return SInt(t) if k == "int" else SStr(t) if k == "str" else SEnum(k, t)

def boolv(t):
    """bool, or SBool, from a bool or z3 term."""
    if isinstance(t, (bool, SBool)):
        return t
    return mk("bool", t)

def bterm(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(v)

def is_weak(v):
    return isinstance(v, SBool) and v.weak

def and_(vs):
    vs = list(vs)
    if any(v is False for v in vs):
        return False
    w = any(is_weak(v) for v in vs)
    r = mk("bool", conj([bterm(v) for v in vs]))
    return SBool(r.t, w) if isinstance(r, SBool) and w else r
def or_(vs):
    vs = list(vs)
    if any(v is True for v in vs):
        return True
    w = any(is_weak(v) for v in vs)
    r = mk("bool", disj([bterm(v) for v in vs]))
    return SBool(r.t, w) if isinstance(r, SBool) and w else r
def not_(v):
    if is_weak(v):
        raise Unsupported("negation of a comparison that is only decided one way")
    return (not v) if isinstance(v, bool) else mk("bool", z3.Not(v.t))

def intv(t):
    return t if isinstance(t, int) else mk("int", t)

# ------------------------------------------------------------------ raising
def raise_py(cls, msg=""):
    raise PyRaise(Obj(cls, {"args": (msg,)}))

# ------------------------------------------------------------------ lengths
def weight(tm):
    return z3.simplify(z3.Sum([z3.If(g, alt_len(vs), z3.IntVal(0)) for g, vs in tm.alts])) if tm.alts else z3.IntVal(0)

def alt_len(vs):
    n = length(spread(vs))
    return z3.IntVal(n) if isinstance(n, int) else n.t

def widest(tm):
    return None if tm.nested() else max(len(vs) for g, vs in tm.alts)

def count_function(tm):
    """C with C(j) = number of values at indices below j; a function of the outer indices the template mentions."""
    w = weight(tm)
    k = z3.Int("k")
    body = z3.simplify(z3.substitute(w, (tm.idx, k)))
    outer = [s for s in E.scopes if mentions(body, s)]
    same_outer = [e for e in E.counts if len(e[1]) == len(outer) and all(x.eq(y) for x, y in zip(e[1], outer))]
    for (b, o, f, m) in same_outer:
        if b.eq(body):
            return (lambda j: f(*outer, j)), body, k
    # the same count written in another way: equal at every index under what is known here
    if same_outer:
        at_k = [sub(x, [(tm.idx, k)]) for x in tm.facts]
        for (b, o, f, m) in same_outer:
            if not E.feasible(z3.And(0 <= k, k < tm.n, *at_k, b != body)):
                return (lambda j: f(*outer, j)), b, k
    f = z3.Function("cnt!%d" % len(E.counts), *([I] * (len(outer) + 1)), I)
    E.counts.append((body, outer, f, widest(tm)))
    return (lambda j: f(*outer, j)), body, k

def count(tm):
    """Number of values of the template, as a term."""
    w = tm.width()
    if w is not None:
        return z3.simplify(tm.n * w)
    C, body, k = count_function(tm)
    n = tm.n
    c = C(n)
    m = widest(tm)
    bounds = [c >= 0] if m is None else [c >= 0, c <= m * n]
    name = C(z3.IntVal(0)).decl().name()
    for u in E.uppers.setdefault(name, []):
        if not u.eq(n):
            for x, y in ((n, u), (u, n)):
                E.ground(z3.Implies(z3.And(0 <= x, x < y), z3.And(C(x) + z3.substitute(body, (k, x)) <= C(y))))
    if not any(u.eq(n) for u in E.uppers[name]):
        E.uppers[name].append(n)
        E.ground(C(z3.IntVal(0)) == 0)
        E.ground(z3.Implies(n >= 0, z3.And(*bounds)))
    E.always(C(z3.IntVal(0)) == 0)
    E.always(z3.Implies(n >= 0, z3.And(*bounds)))
    E.always(z3.Implies(n >= 0, (c == 0) == z3.Not(exists(k, n, body > 0))))
    j = z3.Int("k")
    E.always(for_all(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(C(j) >= 0, C(j + 1) == C(j) + body, C(j) + body <= c)), C(j)))
    return c

def count_term(t):
    """(index, body at the index, C, offset, maximum width) if t is C(index) + offset for a count function C."""
    off = 0
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(a): a, b = b, a
        if not z3.is_int_value(b):
            return None
        t, off = a, b.as_long()
    if not (z3.is_app(t) and t.num_args() > 0 and t.decl().name().startswith("cnt!")):
        return None
    body, outer, f, m = E.counts[int(t.decl().name()[4:])]
    args = [t.arg(i) for i in range(t.num_args())]
    pairs = list(zip(outer, args))
    if any(not a.eq(b) for a, b in pairs):
        return None
    return args[-1], (lambda x: z3.substitute(body, (z3.Int("k"), x))), (lambda x: f(*args[:-1], x)), off, m

def counted_range(n):
    """Segments of range(n) following the list whose length n is, where n is a count or the length of a list of several segments."""
    l = E.lens.get(n.get_id())
    if l is not None:
        out, off = [], z3.IntVal(0)
        for s in l[1]:
            if isinstance(s, Items):
                out.append(Items([mk("int", z3.simplify(off + q)) for q in range(len(s.vals))]))
                off = z3.simplify(off + len(s.vals))
                continue
            j = new_index("r")
            if s.width() == 1:
                out.append(Tmpl(s.n, j, [(TRUE, (mk("int", off + j),))]))
                off = z3.simplify(off + s.n)
                continue
            C, body, k = count_function(s)
            b = z3.substitute(body, (k, j))
            p = [(s.idx, j)]
            out.append(Tmpl(s.n, j, [(sub(g, p), tuple(mk("int", off + C(j) + q) for q in range(len(vs)))) for g, vs in s.alts],
                            [sub(f, p) for f in s.facts] + [z3.And(C(j) >= 0, C(j) <= C(s.n), C(j + 1) == C(j) + b, C(j) + b <= C(s.n))]))
            off = z3.simplify(off + C(s.n))
        return norm(out)
    c = count_term(n)
    if c is None or c[3] < 0 or c[4] is None:
        return None
    upper, body, C, off, m = c
    j = new_index("r")
    b = body(j)
    alts = [(z3.simplify(b == w), tuple(mk("int", C(j) + q) for q in range(w))) for w in range(m + 1)]
    facts = [z3.And(C(j) >= 0, C(j + 1) == C(j) + b, C(j) + b <= C(upper))]
    segs = [Tmpl(upper, j, alts, facts)]
    if off:
        segs.append(Items([mk("int", C(upper) + q) for q in range(off)]))
    return norm(segs)

def seg_len(s):
    return len(s.vals) if isinstance(s, Items) else count(s)

def length(segs):
    n, t = 0, []
    for s in segs:
        l = seg_len(s)
        if isinstance(l, int):
            n += l
        else:
            t.append(l)
    if not t:
        return n
    r = mk("int", z3.Sum(t + [z3.IntVal(n)]) if n or len(t) > 1 else t[0])
    if isinstance(r, SInt) and (len(segs) > 1 or segs[0].width() is None) and not any(isinstance(s, Tmpl) and s.nested() for s in segs):
        E.lens[r.t.get_id()] = (r.t, segs)
    return r

# ------------------------------------------------------------------ taking lists apart
def split_first(segs):
    """(value, rest) or None if empty; decides."""
    segs = list(segs)
    while segs:
        s = segs[0]
        if isinstance(s, Items):
            return s.vals[0], norm([Items(s.vals[1:])] + segs[1:])
        w = s.width()
        if w == 1:
            if E.decide(s.n > 0):
                v = merged(s, z3.IntVal(0))
                return v[0], norm([reindexed(s, lambda j: j + 1, s.n - 1)] + segs[1:])
        else:
            g = z3.simplify(weight(s) > 0)
            if E.decide(exists(s.idx, s.n, g)):
                k = E.fresh("first", I)
                E.fact(z3.And(0 <= k, k < s.n, sub(g, [(s.idx, k)])))
                E.fact(forall(s.idx, k, z3.Not(g)))
                vs = pick_nested(s, k)
                if not vs:
                    raise Infeasible()
                if isinstance(vs[0], Splice):
                    segs = list(spread(vs)) + [reindexed(s, lambda j: j + k + 1, s.n - k - 1)] + segs[1:]
                    continue
                return vs[0], norm(spread(vs[1:]) + (reindexed(s, lambda j: j + k + 1, s.n - k - 1),) + tuple(segs[1:]))
        segs = segs[1:]
    return None

def split_last(segs):
    segs = list(segs)
    while segs:
        s = segs[-1]
        if isinstance(s, Items):
            return s.vals[-1], norm(segs[:-1] + [Items(s.vals[:-1])])
        if s.width() != 1:
            g = z3.simplify(weight(s) > 0)
            if not E.decide(exists(s.idx, s.n, g)):
                segs = segs[:-1]
                continue
            raise Unsupported("last element of a filtered list")
        if E.decide(s.n > 0):
            v = merged(s, s.n - 1)
            return v[0], norm(segs[:-1] + [Tmpl(z3.simplify(s.n - 1), s.idx, s.alts, s.facts)])
        segs = segs[:-1]
    return None

def drop_front(segs, k):
    """The list without its first k elements (all if there are fewer); k int >= 0 or term known to be >= 0."""
    segs = list(segs)
    if isinstance(k, int):
        while k > 0 and segs:
            s = segs[0]
            if isinstance(s, Items):
                m = min(k, len(s.vals))
                segs = list(norm([Items(s.vals[m:])] + segs[1:]))
                k -= m
            elif s.width() == 1:
                if E.decide(s.n >= k):
                    return norm([reindexed(s, lambda j: j + k, s.n - k)] + segs[1:])
                if len(segs) == 1:
                    return ()
                r = split_first(segs)
                if r is None:
                    return ()
                segs, k = list(r[1]), k - 1
            else:
                r = split_first(segs)
                if r is None:
                    return ()
                segs, k = list(r[1]), k - 1
        return norm(segs)
    while segs:
        if z3.is_int_value(k) and k.as_long() <= 0:
            return norm(segs)
        s = segs[0]
        l = seg_len(s)
        lt = z3.IntVal(l) if isinstance(l, int) else l
        if E.decide(k >= lt):
            k = z3.simplify(k - lt)
            segs = segs[1:]
            continue
        if isinstance(s, Items):
            for j in range(l):
                if E.decide(k == j):
                    return norm([Items(s.vals[j:])] + segs[1:])
            raise Infeasible()
        if s.width() != 1:
            raise Unsupported("symbolic slice of a filtered list")
        kk = k
        return norm([reindexed(s, lambda j: j + kk, s.n - kk)] + segs[1:])
    return ()

def take_front(segs, k):
    """The first k elements (all if there are fewer)."""
    out = []
    kt = z3.IntVal(k) if isinstance(k, int) else k
    for s in segs:
        if z3.is_int_value(kt) and kt.as_long() <= 0:
            break
        l = seg_len(s)
        lt = z3.IntVal(l) if isinstance(l, int) else l
        if E.decide(kt >= lt):
            out.append(s)
            kt = z3.simplify(kt - lt)
            continue
        if isinstance(s, Items):
            for j in range(l):
                if E.decide(kt == j):
                    out.append(Items(s.vals[:j]))
                    return norm(out)
            raise Infeasible()
        if s.width() != 1:
            raise Unsupported("slice of a filtered list")
        out.append(Tmpl(kt, s.idx, s.alts, s.facts))
        return norm(out)
    return norm(out)

def drop_last(segs, k):
    segs = norm(segs)
    for _ in range(k):
        r = split_last(segs)
        if r is None:
            return ()
        segs = r[1]
    return segs

def element(segs, i):
    """segs[i]; raises IndexError; decides."""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if i >= 0:
            for k in range(i + 1):
                r = split_first(segs)
                if r is None:
                    raise_py(IndexError, "list index out of range")
                v, segs = r
            return v
        for k in range(-i):
            r = split_last(segs)
            if r is None:
                raise_py(IndexError, "list index out of range")
            v, segs = r
        return v
    if not isinstance(i, SInt):
        raise_py(TypeError, "list indices must be integers")
    t = i.t
    if E.decide(t < 0):
        n = length(segs)
        t = z3.simplify(t + (z3.IntVal(n) if isinstance(n, int) else n.t))
        if E.decide(t < 0):
            raise_py(IndexError, "list index out of range")
    for s in segs:
        l = seg_len(s)
        lt = z3.IntVal(l) if isinstance(l, int) else l
        if E.decide(t >= lt):
            t = z3.simplify(t - lt)
            continue
        if isinstance(s, Items):
            v = ite([t == j for j in range(l)], list(s.vals)) if l > 1 else None
            if v is not None:
                return v
            for j in range(l):
                if j == l - 1 or E.decide(t == j):
                    return s.vals[j]
        if s.width() != 1:
            if s.nested():
                return element_nested(s, t)
            C, body, kk = count_function(s)
            c = count_term(t)
            if c is not None and c[2](z3.IntVal(0)).eq(C(z3.IntVal(0))) and \
                    not E.feasible(z3.Not(z3.And(0 <= c[0], c[0] < s.n, 0 <= c[3], c[3] < c[1](c[0])))):
                vs = pick(s, c[0])
                if len(vs) <= c[3]:
                    raise Infeasible()
                return vs[c[3]]
            k = E.fresh("sel", I)
            E.fact(z3.And(0 <= k, k < s.n, C(k) <= t, t < C(k) + sub(body, [(kk, k)])))
            vs = pick(s, k)
            for j in range(len(vs)):
                if j == len(vs) - 1 or E.decide(t == C(k) + j):
                    return vs[j]
            raise Infeasible()
        return merged(s, t)[0]
    raise_py(IndexError, "list index out of range")

def element_nested(s, t):
    """The element with number t of a template with lists among its values."""
    C, body, kk = count_function(s)
    name = C(z3.IntVal(0)).decl().name()
    at_ = None
    for a in (t.children() if z3.is_add(t) else [t]):
        if z3.is_app(a) and a.num_args() and a.decl().name() == name and C(a.arg(a.num_args() - 1)).eq(a):
            j = a.arg(a.num_args() - 1)
            r = z3.simplify(t - a)
            if not E.feasible(z3.Not(z3.And(0 <= j, j < s.n, 0 <= r, r < z3.substitute(body, (kk, j))))):
                at_ = (j, r)
    if at_ is None:
        j = E.fresh("sel", I)
        E.fact(z3.And(0 <= j, j < s.n, C(j) <= t, t < C(j) + z3.substitute(body, (kk, j))))
        at_ = (j, z3.simplify(t - C(j)))
    j, r = at_
    for v in pick_nested(s, j):
        n = length(v.segs) if isinstance(v, Splice) else 1
        n = z3.IntVal(n) if isinstance(n, int) else n.t
        if E.decide(r < n):
            return element(v.segs, mk("int", r)) if isinstance(v, Splice) else v
        r = z3.simplify(r - n)
    raise Infeasible()

def reverse_segs(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Tmpl) and s.nested():
            raise Unsupported("reversed list of lists")
        if isinstance(s, Items):
            out.append(Items(s.vals[::-1]))
        else:
            r = reindexed(s, lambda j: s.n - 1 - j, s.n)
            r.alts = [(g, vs[::-1]) for g, vs in r.alts]
            out.append(r)
    return norm(out)

# ------------------------------------------------------------------ sub-explorations
class NotPure(Exception):
    pass

def run_pure(thunk, assume=(), scope=None):
    """All outcomes of a computation without effects on older objects: [(guard, facts, result)]; NotPure if it has effects or raises.
    scope: (idx, n): a generic index."""
    mark = next(E.oids)
    jm = len(E.journal)
    def go():
        if scope is not None:
            E.scopes.append(scope[0])
            E.add(z3.And(0 <= scope[0], scope[0] < scope[1]))
        for a in assume:
            E.add(a)
        try:
            v = thunk()
        except PyRaise as e:
            if E.contradictory():
                raise Infeasible()
            return "raise", e.exc
        for o, p, _ in E.journal[jm:]:
            if o.oid < mark and not (isinstance(o, Frame)):
                return "effect", o
        return "value", freeze(v, mark)
    res = E.explore(go)
    out = []
    for lv, (k, v) in res:
        if k != "value":
            raise NotPure("%s %r" % (k, v))
        out.append((conj(lv.decisions), lv.facts, v))
    export_facts([(lv, None) for lv, r in res], scope, assume)
    return out

def export_facts(res, scope, assume=()):
    """Facts recorded on the paths of a sub-exploration, generalised over its index."""
    done = set()
    a = conj(list(assume))
    for lv, _ in res:
        for h in lv.always:
            if h.get_id() in done:
                continue
            done.add(h.get_id())
            E.keep.append(h)
            if scope is None:
                E.always(h)
            elif mentions(h, scope[0]):
                E.always(forall_fact(scope[0], scope[1], h))
            else:
                E.always(h)
    for lv, _ in res:
        for dec, f in lv.ground:
            h = z3.simplify(z3.Implies(conj(list(assume) + dec), f)) if dec or assume else f
            if (scope is None or not mentions(h, scope[0])) and h.get_id() not in done:
                done.add(h.get_id())
                E.ground(h)
        for dec, f in lv.facts:
            g = conj(dec)
            h = z3.simplify(z3.Implies(z3.And(a, g), f)) if dec or assume else f
            if z3.is_true(h) or h.get_id() in done:
                continue
            done.add(h.get_id())
            E.keep.append(h)
            if scope is not None:
                if mentions(h, scope[0]):
                    E.fact(forall_fact(scope[0], scope[1], h))
            else:
                E.fact(h)

def forall_fact(idx, n, f):
    k = z3.Int("k")
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.substitute(f, (idx, k))))

def path_facts(lv, quantified=False):
    """Quantifier-free facts of a path for ground instantiation."""
    out, done = [], set()
    for dec, f in lv.ground + lv.facts:
        h = z3.simplify(z3.Implies(conj(dec), f)) if dec else f
        if not z3.is_true(h) and (quantified or not has_quantifier(h)) and h.get_id() not in done:
            done.add(h.get_id())
            out.append(h)
    E.keep.append(out)
    return out

def merge_bool(thunk, assume=()):
    """The truth value of a pure computation as bool or SBool."""
    r = run_pure(thunk, assume)
    if not r:
        return True             # infeasible assumption
    if any(not isinstance(v, (bool, SBool)) for g, f, v in r):
        raise NotPure("not a truth value")
    if len(r) == 1:
        return r[0][2]
    w = any(is_weak(v) for g, f, v in r)
    v = mk("bool", disj([conj([g, bterm(v)]) for g, f, v in r]))
    return SBool(v.t, w) if w and isinstance(v, SBool) else v
