"""Linear integer facts: forms over symbols, entailment by elimination (the polyhedral domain's test).

A form is a tuple of (symbol, coefficient) sorted by repr; the constant has the symbol 1."""
from math import gcd


def mk(d):
    return tuple(sorted(((k, c) for k, c in d.items() if c), key=repr))


def con(c):
    return ((1, c),) if c else ()


def sym(s):
    return ((s, 1),)


def add(a, b, k=1):
    d = dict(a)
    for s, c in b:
        d[s] = d.get(s, 0) + k * c
    return mk(d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return mk({s: c * k for s, c in a})


def cst(a):
    for s, c in a:
        if s == 1:
            return c
    return 0


def isconst(a):
    return all(s == 1 for s, _ in a)


def div(a, n):
    """a/n when every coefficient divides, else None"""
    if all(c % n == 0 for _, c in a):
        return mk({s: c // n for s, c in a})
    return None


def subst(a, m):
    """replace symbols by forms"""
    r = ()
    for s, c in a:
        r = add(r, scale(m[s], c) if s in m else ((s, c),))
    return r


def tighten(d):
    """d >= 0 over the integers: divide by the gcd of the non-constant coefficients"""
    g = 0
    for s, c in d.items():
        if s != 1:
            g = gcd(g, abs(c))
    if g > 1:
        return {s: (c // g if s != 1 else c // g) for s, c in d.items() if s != 1 or c // g}
    return d


class Contradiction(Exception):
    pass


def infeasible(ges, eqs, cap=400):
    """True when the conjunction of g >= 0 (ges) and e == 0 (eqs) has no integer solution we can see"""
    G = [dict(g) for g in ges]
    E = [dict(e) for e in eqs]
    # equalities: substitute a symbol with a unit coefficient
    while E:
        e = {s: c for s, c in E.pop().items() if c}
        syms = [s for s in e if s != 1]
        if not syms:
            if e.get(1, 0) != 0:
                return True
            continue
        u = [s for s in syms if abs(e[s]) == 1]
        if not u:
            g = 0
            for s in syms:
                g = gcd(g, abs(e[s]))
            if e.get(1, 0) % g:
                return True
            if g > 1:
                E.append({s: c // g for s, c in e.items()})
                continue
            G.append(dict(e)); G.append({s: -c for s, c in e.items()})
            continue
        s = min(u, key=lambda z: (sum(1 for g in G if g.get(z)) + sum(1 for g in E if g.get(z)), repr(z)))
        k = e[s]
        # s = -(e - k*s)/k
        rest = {t: -c * k for t, c in e.items() if t != s}
        for lst in (G, E):
            for i, g in enumerate(lst):
                c = g.get(s)
                if c:
                    n = {t: v for t, v in g.items() if t != s}
                    for t, v in rest.items():
                        n[t] = n.get(t, 0) + c * v
                    lst[i] = {t: v for t, v in n.items() if v}
    cons = set()
    for g in G:
        g = tighten({s: c for s, c in g.items() if c})
        syms = [s for s in g if s != 1]
        if not syms:
            if g.get(1, 0) < 0:
                return True
            continue
        cons.add(mk(g))
    while cons:
        cnt = {}
        for g in cons:
            for s, c in g:
                if s != 1:
                    p, n = cnt.get(s, (0, 0))
                    cnt[s] = (p + 1, n) if c > 0 else (p, n + 1)
        s = min(cnt, key=lambda z: (cnt[z][0] * cnt[z][1] - cnt[z][0] - cnt[z][1], repr(z)))
        pos, neg, oth = [], [], set()
        for g in cons:
            c = dict(g).get(s, 0)
            (pos if c > 0 else neg if c < 0 else oth).append((g, c)) if c else oth.add(g)
        for g, c in pos:
            for h, e in neg:
                l = c * -e // gcd(c, -e)
                n = {}
                for t, v in g:
                    n[t] = n.get(t, 0) + v * (l // c)
                for t, v in h:
                    n[t] = n.get(t, 0) + v * (l // -e)
                n = tighten({t: v for t, v in n.items() if v})
                if not any(t != 1 for t in n):
                    if n.get(1, 0) < 0:
                        return True
                    continue
                oth.add(mk(n))
        # keep only the strongest of parallel constraints
        best = {}
        for g in oth:
            k = tuple((t, v) for t, v in g if t != 1)
            if k not in best or cst(g) < cst(best[k]):
                best[k] = g
        cons = set(best.values())
        if len(cons) > cap:
            return False
    return False


def relevant(forms, seed):
    """forms sharing symbols with seed, transitively"""
    syms = {s for g in seed for s, _ in g if s != 1}
    left = list(forms)
    out = []
    ch = True
    while ch:
        ch = False
        nl = []
        for g in left:
            if any(s in syms for s, _ in g if s != 1):
                out.append(g)
                syms |= {s for s, _ in g if s != 1}
                ch = True
            else:
                nl.append(g)
        left = nl
    return out


def proves(ges, eqs, goal):
    """g >= 0 and e == 0 imply goal >= 0"""
    if isconst(goal):
        if cst(goal) >= 0:
            return True
    neg = add(scale(goal, -1), con(-1))
    tag = [("g", g) for g in ges] + [("e", e) for e in eqs]
    syms = {s for s, _ in neg if s != 1}
    rg, re = [], []
    left = tag
    ch = True
    while ch:
        ch = False
        nl = []
        for t, g in left:
            if isconst(g) or any(s in syms for s, _ in g if s != 1):
                (rg if t == "g" else re).append(g)
                n = len(syms)
                syms |= {s for s, _ in g if s != 1}
                ch = ch or len(syms) != n
            else:
                nl.append((t, g))
        left = nl
    return infeasible(rg + [neg], re)
