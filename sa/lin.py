"""Linear expressions over integer symbols and a small convex-polyhedra domain.

An expression is (k, ((sym, coef), ...)) with the terms sorted.  A constraint e
means e >= 0.  Entailment is decided by Fourier-Motzkin elimination over the
rationals after integer tightening; "not entailed" is always a safe answer."""
from functools import lru_cache
from math import gcd

ZERO = (0, ())


def const(k):
    return (k, ())


@lru_cache(maxsize=None)
def sym(s):
    return (0, ((s, 1),))


def _key(s):
    return s if isinstance(s, str) else repr(s)


@lru_cache(maxsize=200000)
def add(a, b, cb=1):
    k = a[0] + cb * b[0]
    if not b[1] or cb == 0:
        return (k, a[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + cb * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (k, tuple(sorted(d.items(), key=lambda t: _key(t[0]))))


def sub(a, b):
    return add(a, b, -1)


def scale(a, c):
    if c == 0:
        return ZERO
    return (a[0] * c, tuple((s, v * c) for s, v in a[1]))


def neg(a):
    return scale(a, -1)


def is_const(a):
    return not a[1]


def syms(a):
    return [s for s, _ in a[1]]


def subst(a, m):
    """substitute symbols by expressions"""
    r = const(a[0])
    for s, c in a[1]:
        r = add(r, m[s] if s in m else sym(s), c)
    return r


@lru_cache(maxsize=200000)
def tighten(e):
    """divide by the gcd of the coefficients, flooring the constant (integers)"""
    k, t = e
    g = 0
    for _, c in t:
        g = gcd(g, c)
    if g > 1:
        return (k // g, tuple((s, c // g) for s, c in t))
    return e


def _relevant(facts, goal_syms):
    """the facts connected to the goal through shared symbols"""
    want = set(goal_syms)
    rest = list(facts)
    out = []
    while True:
        nr, grew = [], False
        for f in rest:
            if any(s in want for s, _ in f[1]):
                out.append(f)
                for s, _ in f[1]:
                    if s not in want:
                        want.add(s)
                        grew = True
            else:
                nr.append(f)
        rest = nr
        if not grew:
            return out


def project(facts, keep):
    """eliminate every symbol not in `keep`; facts that would blow up are dropped.
    Returns (facts, lossless?)"""
    cons = set(tighten(c) for c in facts)
    ok = True
    while True:
        dead = {}
        for k, t in cons:
            for s, c in t:
                if s not in keep:
                    p = dead.setdefault(s, [0, 0])
                    p[0 if c > 0 else 1] += 1
        if not dead:
            return frozenset(c for c in cons if c[1] or c[0] < 0), ok
        best = min(dead, key=lambda s: (dead[s][0] * dead[s][1] - dead[s][0] - dead[s][1], _key(s)))
        pos, ng, rest = [], [], set()
        for e in cons:
            c = dict(e[1]).get(best, 0)
            if c > 0:
                pos.append((e, c))
            elif c < 0:
                ng.append((e, c))
            else:
                rest.add(e)
        if len(pos) * len(ng) > 60:
            cons = rest
            ok = False
            continue
        for (e, c) in pos:
            for (f, d) in ng:
                rest.add(tighten(add(scale(e, -d), f, c)))
        # keep the strongest constant per direction
        nxt = {}
        for k, t in rest:
            if t not in nxt or nxt[t] > k:
                nxt[t] = k
        cons = {(k, t) for t, k in nxt.items()}


@lru_cache(maxsize=100000)
def _infeasible(cons):
    cons = set(tighten(c) for c in cons)
    # equalities with a unit coefficient are solved first (exact over the integers)
    go = True
    while go:
        go = False
        for e in cons:
            if e[1] and scale(e, -1) in cons:
                u = [(s, c) for s, c in e[1] if c in (1, -1)]
                if u:
                    v, c = u[0]
                    # c*v + rest = 0
                    m = {v: scale(sub(e, scale(sym(v), c)), -c)}
                    cons = set(tighten(subst(x, m)) if any(y == v for y, _ in x[1]) else x for x in cons)
                    if any(not x[1] and x[0] < 0 for x in cons):
                        return True
                    cons = {x for x in cons if x[1]}
                    go = True
                    break
    while True:
        nxt = {}
        for e in cons:
            if not e[1]:
                if e[0] < 0:
                    return True
                continue
            if e[1] not in nxt or nxt[e[1]] > e[0]:
                nxt[e[1]] = e[0]
        cons = {(k, t) for t, k in nxt.items()}
        if not cons:
            return False
        # choose the symbol with the fewest products
        occ = {}
        for k, t in cons:
            for s, c in t:
                p = occ.setdefault(s, [0, 0])
                p[0 if c > 0 else 1] += 1
        best = min(occ, key=lambda s: (occ[s][0] * occ[s][1] - occ[s][0] - occ[s][1], _key(s)))
        pos, ng, rest = [], [], []
        for e in cons:
            c = dict(e[1]).get(best, 0)
            (pos if c > 0 else ng if c < 0 else rest).append((e, c) if c else e)
        new = set(rest)
        for (e, c) in pos:
            for (f, d) in ng:
                new.add(tighten(add(scale(e, -d), f, c)))
        if len(new) > 400:
            return False  # give up: "not known infeasible"
        cons = new


def infeasible(facts):
    return _infeasible(frozenset(facts))


def entails(facts, e):
    """do the facts imply e >= 0?"""
    if not e[1]:
        return e[0] >= 0
    f = tighten(e)
    if f in facts:
        return True
    rel = _relevant(facts, [s for s, _ in e[1]])
    return _infeasible(frozenset(rel) | {add(neg(e), const(-1))})


def witness(facts, limit=14, budget=4000):
    """an integer assignment within 0..limit that satisfies the facts, or None when none was found"""
    facts = [f for f in facts if f[1]]
    left = [budget]

    def go(fs, got):
        left[0] -= 1
        if left[0] < 0:
            return None
        if any(not f[1] and f[0] < 0 for f in fs):
            return None
        fs = [f for f in fs if f[1]]
        if not fs:
            return got
        occ = {}
        for f in fs:
            for s, _ in f[1]:
                occ[s] = occ.get(s, 0) + 1 + (3 if len(f[1]) == 1 else 0)
        v = max(occ, key=lambda s: (occ[s], _key(s)))
        for k in range(limit + 1):
            m = {v: const(k)}
            r = go([subst(f, m) if any(s == v for s, _ in f[1]) else f for f in fs], dict(got, **{_key(v): k}))
            if r is not None:
                return r
        return None
    return go(facts, {})


def fmt(e):
    k, t = e
    out = []
    for s, c in t:
        n = s if isinstance(s, str) else str(s)
        out.append(("%s" % n) if c == 1 else "%d*%s" % (c, n))
    if k or not out:
        out.append(str(k))
    return " + ".join(out)
