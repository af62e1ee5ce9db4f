"""Interprocedural summaries used by several checks."""
import ir
from ir import strip


def origins(f, v, seen=None):
    """SSA values a value can come from, through phi/select/casts"""
    seen = set() if seen is None else seen
    v = strip(f, v)
    if v in seen:
        return set()
    seen.add(v)
    x = f.get(v)
    if x is None:
        return {v}
    if x.op == "phi":
        s = set()
        for a, _ in x.o:
            s |= origins(f, a, seen)
        return s
    if x.op == "select":
        return origins(f, x.o[1], seen) | origins(f, x.o[2], seen)
    return {("i", x.i)}


def fresh_functions(P, seeds, skip_files=(), returns_arg=()):
    """functions that (can) return a resource freshly acquired by one of seeds"""
    fresh = set(seeds)
    ch = True
    while ch:
        ch = False
        for n, f in P.funcs.items():
            if n in fresh or f.ret != "ptr" or f.file.endswith(tuple(skip_files)) or n in returns_arg:
                continue
            k = False
            for r in f.rets():
                if not r.o:
                    continue
                for v in origins(f, r.o[0]):
                    x = f.get(v)
                    if x is not None and x.op == "call" and any(t in fresh for t in P.targets(x)):
                        k = True
            if k:
                fresh.add(n); ch = True
    return fresh


class ArgEffects:
    """effect of passing a pointer as argument i of function fn:
       borrow / release / escape / maybe (released on some paths only) """

    def __init__(self, P, release, builtin=None, returns_arg=None, ext_default="borrow"):
        self.P, self.release_fns = P, release          # {(fn,i)}
        self.builtin = builtin or {}
        self.returns_arg = returns_arg or {}
        self.ext = ext_default
        self.memo = {}

    def of(self, fn, i):
        if (fn, i) in self.release_fns:
            return "release"
        if (fn, i) in self.builtin:
            return self.builtin[(fn, i)]
        if fn in self.builtin:
            return self.builtin[fn]
        f = self.P.funcs.get(fn)
        if f is None:
            return self.ext
        if (fn, i) in self.memo:
            return self.memo[(fn, i)]
        self.memo[(fn, i)] = "borrow"
        r = self._flow(f, ("a", i))
        self.memo[(fn, i)] = r
        return r

    def _flow(self, f, v0):
        work, seen = [v0], {v0}
        rel = esc = False
        while work:
            v = work.pop()
            for x in f.uses.get(v, ()):
                if x.op in ir.CAST or x.op == "phi" or x.op == "select":
                    y = ("i", x.i)
                    if y not in seen:
                        seen.add(y); work.append(y)
                elif x.op == "store":
                    if strip(f, x.o[0]) == v or x.o[0] == v:
                        esc = True
                elif x.op == "ret":
                    esc = True
                elif x.op == "call":
                    for ai, a in enumerate(x.o):
                        if a == v:
                            for t in (self.P.targets(x) or [None]):
                                e = self.of(t, ai) if t else "borrow"
                                if e == "release":
                                    rel = True
                                elif e in ("escape", "maybe"):
                                    esc = True
                            if x.callee in self.returns_arg and self.returns_arg[x.callee] == ai:
                                y = ("i", x.i)
                                if y not in seen:
                                    seen.add(y); work.append(y)
        if esc:
            return "escape"
        return "release" if rel else "borrow"

    def at(self, x, ai):
        ts = self.P.targets(x)
        if not ts:
            return self.ext
        es = {self.of(t, ai) for t in ts}
        if len(es) == 1:
            return es.pop()
        if "escape" in es or "maybe" in es:
            return "escape"
        return "maybe"
