"""while loops.

1. As long as the condition is decided, the loop is unrolled.
2. If a counter of the loop points at the beginning of a list of unknown length, one iteration per element of that list is summarised
   (each iteration must leave the counter at the beginning of the next element).
3. Otherwise all remaining iterations are summarised: the values of the counters at iteration k are functions of k that are described by
   the first value, the step and the condition under which the loop ends.  Two loops with equivalent steps and end conditions
   have the same functions, which is how two loops over the same list are compared.
"""
import ast
import z3
from dv.core import *
from dv.values import *
from dv import interp as X

def assigned_names(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out

def is_int(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)

def attempt(f):
    """The result of f(), or None if the verifier cannot do it."""
    try:
        return f()
    except Unsupported as e:
        E.check_time()
        if str(e) == STOPPED:
            raise
        if E.depth_debug:
            print("  while:", f.__name__, "failed:", e)
        return None

def run(s, fr):
    symbolic = 0
    names = assigned_names(s)
    for k in range(400):
        start = list_starts(s, fr, names)
        if any(attempt(lambda: element_wise(s, fr, v, g, names)) for v, g in start):
            continue
        t = X.truth(X.ev(s.test, fr))
        decided = not isinstance(t, SBool) or not E.feasible(z3.Not(t.t)) or not E.feasible(t.t)
        if not decided or start:
            r = attempt(lambda: dynamic(s, fr, names))
            if callable(r):
                return r()
            if r != "one":
                symbolic += 1
                if symbolic > 6:
                    raise Unsupported("while loop with an unknown number of iterations")
        if not X.decide(t):
            return X.run_block(s.orelse, fr) if s.orelse else None
        r = X.run_block(s.body, fr)
        if r == "break":
            return None
        if r is not None and r != "continue":
            return r
    raise Unsupported("while loop too long")

# ------------------------------------------------------------------ one iteration per element
def list_starts(s, fr, names):
    """[(counter, template)] where a counter of the loop points at the first element of a template of a list; lists that the loop
    reads at this counter come first."""
    read = {(n.value.id, m.id) for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)
            for m in ast.walk(n.slice) if isinstance(m, ast.Name)}
    out = []
    for v in names:
        x = fr.p.get(v)
        if x is None or not is_int(x):
            continue
        for name, l in fr.p.items():
            if not isinstance(l, X.Lst):
                continue
            off = z3.IntVal(0)
            for g in l.p:
                if isinstance(g, Tmpl) and z3.simplify(term(x) == off).eq(TRUE):
                    out.append(((name, v) not in read, len(out), v, g))
                    break
                off = z3.simplify(off + X.seg_len(g))
    out.sort(key=lambda x: x[:2])
    return [x[2:] for x in out][:3] if not out or not out[0][0] else [x[2:] for x in out][:1]

def element_wise(s, fr, var, tm, names):
    """Other counters may be what they were at the same iteration of a loop summarised before (an invariant that is checked)."""
    others = [v for v in names if v != var and is_int(fr.p.get(v))]
    scopes = tuple(x.get_id() for x in E.scopes)
    if others:
        for r in reversed(E.loops):
            if r.scopes == scopes and r.extra is not None and (r.N.eq(tm.n) or E.entails(r.N == tm.n)):
                for u in others:
                    for q in r.like:
                        if attempt(lambda: element_wise_(s, fr, var, tm, [(u, q)], r.extra)):
                            return True
    return element_wise_(s, fr, var, tm, [], None)

def element_wise_(s, fr, var, tm, like, extra):
    old = fr.p[var]
    starts = {u: term(fr.p[u]) for u, q in like}
    init = term(old)
    if tm.width() == 1:
        C, W = (lambda j: j), (lambda j: z3.IntVal(1))
    else:
        count(tm)
        C, body, kk = count_function(tm)
        W = lambda j: z3.substitute(body, (kk, j))
    def step(jv):
        j = jv.t
        fr.set(var, mk("int", z3.simplify(init + C(j))))
        E.ground(z3.And(C(j) >= 0, C(j) + W(j) <= (tm.n if tm.width() == 1 else count(tm))))     # weights are not negative
        before = {u: fr.p[u] for u, q in like}
        if tm.width() != 1:
            pick_nested(tm, j)
            if E.decide(z3.simplify(W(j) == 0)):
                if E.contradictory():
                    raise Infeasible()
                if like:
                    raise Unsupported("empty element")
                fr.set(var, old)
                return None
        for u, q in like:
            fr.set(u, mk("int", z3.simplify(starts[u] + q(j))))
        if extra is not None:
            for f in extra(j):
                E.ground(f)
        t = X.truth(X.ev(s.test, fr))
        if not X.decide(t):
            raise Infeasible() if E.contradictory() else Unsupported("the loop may end within the list")
        r = X.run_block(s.body, fr)
        if r not in (None, "continue"):
            raise Infeasible() if E.contradictory() else Unsupported("the loop may be left within the list")
        for u, q in like:
            if not is_int(fr.p[u]) or not E.entails(term(fr.p[u]) == starts[u] + q(j + 1)):
                raise Unsupported("another step than the loop before")
            fr.set(u, before[u])
        if not is_int(fr.p[var]) or not E.entails(term(fr.p[var]) == init + C(j) + W(j)):
            raise Unsupported("another step than the length of the element")
        fr.set(var, old)
        return None
    j = new_index("e")
    X.summarise(Tmpl(tm.n, j, [(TRUE, (SInt(j),))]), step)
    fr.set(var, mk("int", z3.simplify(init + count(tm))))
    for u, q in like:
        fr.set(u, mk("int", z3.simplify(starts[u] + q(tm.n))))
    return True

# ------------------------------------------------------------------ all remaining iterations
class Known:
    """A loop that has been summarised: its counters at iteration k are P[v](k) for k up to N.  ends, steps: over index K and counters D."""
    def __init__(self, K, D, ends, steps, facts, P, N):
        self.K, self.D, self.ends, self.steps, self.facts, self.P, self.N = K, D, ends, steps, facts, P, N
        self.extra = None

def lengths(fr):
    out = []
    f = fr
    while f is not None:
        for l in f.p.values():
            if isinstance(l, X.Lst):
                n = length(l.p)
                out.append(z3.IntVal(n) if isinstance(n, int) else n.t)
        f = f.parent
    return out

def dynamic(s, fr, names):
    """Summarises the loop from here to its end: a function that leaves the loop.  "one": the next iteration leaves the loop."""
    counters = [v for v in names if is_int(fr.p.get(v))]
    init = {v: term(fr.p[v]) for v in counters}
    bounds = lengths(fr)
    names0 = E.names
    nobls = len(E.obls)

    def iteration(k, N, P, guess, jm_mark, extra):
        """Effects of iteration k (< N if N is given); the counters in P are functions."""
        mark, jm = jm_mark
        E.scopes.append(k)
        E.add(0 <= k)
        if N is not None:
            E.add(k < N)
        if guess is not None:
            X.apply_effects(guess, k)
        for v in P:
            fr.set(v, mk("int", z3.simplify(init[v] + P[v](k))))
        for f in extra(k):
            E.ground(f)
        jm = len(E.journal)
        try:
            t = X.truth(X.ev(s.test, fr))
            if not X.decide(t):
                return "exit", None, None
            r = X.run_block(s.body, fr)
        except PyRaise:
            if E.contradictory():
                raise Infeasible()
            return "exit", None, None
        if r not in (None, "continue"):
            return "exit", None, None
        eff = X.effects_of(jm, mark)
        incs = {}
        for v in P:
            e = eff.pop((fr, v), ("inc", 0))
            if e[0] != "inc":
                raise NotCounter(v)
            incs[v] = e[1]
        return "end", eff, incs

    def rounds(P, N, extra):
        guess, gkey = None, None
        for rnd in range(6):
            E.names = names0
            del E.obls[nobls:]
            k = new_index("w")
            mark = next(E.oids)
            res = E.explore(lambda: iteration(k, N, P, guess, (mark, None), extra))
            exitc = disj([conj(lv.decisions) for lv, x in res if x[0] == "exit"])
            eff = X.combine([(lv, (x[0], x[1])) for lv, x in res], k, exitc, N if N is not None else k + 1)
            key = (X.effects_key(eff), X.tid(exitc), tuple(sorted(X.facts_key(lv) for lv, r in res)))
            if key == gkey:
                return k, res, exitc, eff
            guess, gkey = eff, key
        raise Unsupported("loop effect not found")

    # 1. counters as unknown functions
    dyn = list(counters)
    while True:
        E.names = names0
        P = {v: at_scope("at:%s" % v) for v in dyn}
        try:
            k, res, exitc, eff = rounds(P, None, lambda k: [P[v](k) >= 0 for v in dyn])
        except NotCounter as e:
            dyn.remove(e.v)
            continue
        consts = {}
        for v in dyn:
            cs = {x[2][v] for lv, x in res if x[0] == "end"}
            if any(c < 0 for c in cs):
                raise Unsupported("counter that decreases")
            if len(cs) <= 1:
                consts[v] = cs.pop() if cs else 0
        break
    steps = {v: z3.simplify(z3.Sum([z3.If(conj(lv.decisions), z3.IntVal(x[2][v]), z3.IntVal(0)) for lv, x in res if x[0] == "end"] or [z3.IntVal(0)])) for v in dyn}
    facts = [f for lv, x in res for f in X.path_facts(lv)]
    for v, c in consts.items():
        p = P[v]
        tmp = z3.Int("cst!%s" % v)
        P[v] = (lambda c: lambda t: z3.simplify(t * c))(c)
        old, new = p(k), P[v](k)
        exitc = z3.substitute(exitc, (old, new))
        steps = {u: z3.substitute(t, (old, new)) for u, t in steps.items()}
        facts = [z3.substitute(f, (old, new)) for f in facts]
    var = [v for v in dyn if v not in consts]
    if E.depth_debug:
        print("  while: ends", z3.simplify(exitc), "steps", steps, "constant", consts)
    # 2. is the loop over?
    zero = [(P[v](k), z3.IntVal(0)) for v in var] + [(k, z3.IntVal(0))]
    if E.entails(z3.substitute(exitc, *zero), 2000, True):
        return "one"
    # 3. the same loop as before?
    K = z3.Int("K")
    D = [z3.Int("D%d" % j) for j in range(len(var))]
    pairs = [(P[v](k), d) for v, d in zip(var, D)] + [(k, K)]
    ends_ = z3.substitute(exitc, *pairs)
    steps_ = [z3.substitute(steps[v], *pairs) for v in var]
    facts_ = [z3.substitute(f, *pairs) for f in facts]
    if any(mentions(f, P[v](k)) for f in [ends_] + steps_ for v in var):
        raise Unsupported("loop")
    found = None
    for r in E.loops:
        if len(r.D) == len(D) and r.scopes == tuple(x.get_id() for x in E.scopes):
            same = z3.And(r.ends == ends_, z3.Or(ends_, *[]) if not D else z3.Or(ends_, z3.And(*[a == b for a, b in zip(r.steps, steps_)])))
            hyp = z3.And(K >= 0, *[d >= 0 for d in D], *r.facts, *facts_)
            if E.entails(ordered(z3.simplify(z3.Implies(hyp, same))), 6000, True):
                found = r
                break
    if found is None:
        tag = len(E.loops)
        N = at_scope("iterations!%d" % tag)(z3.IntVal(0))
        Q = [at_scope("at:%s!%d" % (v, tag)) for v in var]
        found = Known(K, D, ends_, steps_, facts_, Q, N)
        found.scopes = tuple(x.get_id() for x in E.scopes)
        # it ends: some bound on the number of iterations
        low = [min(x[2][v] for lv, x in res if x[0] == "end") for v in var]
        hyp = z3.And(K >= 0, *[z3.And(d >= 0, d >= K * c) for d, c in zip(D, low)], *facts_, z3.Not(ends_))
        bound = None
        for b in bounds:
            if not E.feasible(z3.And(hyp, K >= b)) or E.entails(z3.Not(z3.And(hyp, K >= b))):
                bound = b
                break
        if bound is None:
            raise Unsupported("while loop not known to end")
        found.bound = bound
        found.low = low
        E.loops.append(found)
    at_ = lambda f, t: z3.substitute(f, *([(K, t)] + [(d, q(t)) for d, q in zip(D, found.P)]))
    N = found.N
    def extra(t):
        """What is known about iteration t < N."""
        fs = [z3.Not(at_(found.ends, t))]
        for q, st, c in zip(found.P, found.steps, found.low):
            fs += [q(t) >= 0, q(t) >= t * c, q(t + 1) == q(t) + at_(st, t), q(t) + at_(st, t) <= q(N)]     # (steps are not negative)
        return [f for f in fs] + [at_(f, t) for f in found.facts if not has_quantifier(f)]
    found.extra = extra
    E.fact(z3.And(N >= 0, z3.Implies(found.bound >= 0, N <= found.bound)))
    for q, c in zip(found.P, found.low):
        E.fact(q(z3.IntVal(0)) == 0)
        E.fact(z3.And(q(N) >= 0, q(N) >= N * c))
    # what holds at every iteration before the last
    E.fact(forall_fact(k, N, z3.And(*extra(k))))
    E.fact(at_(found.ends, N))
    for v, q in zip(var, found.P):
        P[v] = q
    found.like = [P[v] for v in dyn]
    # 4. the effects, with these functions
    names0 = E.names
    k, res, exitc, eff = rounds(P, N, extra)
    if any(x[0] == "exit" for lv, x in res):
        for lv, x in res:
            if x[0] == "exit" and E.feasible(conj(lv.decisions + [z3.And(0 <= k, k < N), *extra(k)])) and \
                    not E.entails(z3.Not(z3.And(conj(lv.decisions), 0 <= k, k < N, *extra(k)))):
                raise Unsupported("loop left earlier")
    def leave():
        X.export_facts([(lv, None) for lv, x in res], (k, N))
        X.apply_effects(eff, N)
        for v in P:
            fr.set(v, mk("int", z3.simplify(init[v] + P[v](N))))
        # 5. the iteration that leaves the loop
        t = X.truth(X.ev(s.test, fr))
        if not X.decide(t):
            return X.run_block(s.orelse, fr) if s.orelse else None
        r = X.run_block(s.body, fr)
        if r in (None, "continue"):
            if E.contradictory():
                raise Infeasible()
            raise Unsupported("last iteration does not leave the loop")
        return None if r == "break" else r
    return leave

class NotCounter(Exception):
    def __init__(self, v):
        self.v = v

def at_scope(name):
    """A new function of the iteration (and of the indices in scope)."""
    f = z3.Function(name, *([I] * (len(E.scopes) + 1)), I)
    outer = list(E.scopes)
    return lambda t: f(*outer, t)
