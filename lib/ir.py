"""Model of the normalised program (see tool/irdump.cc)."""
import json, os, sys
from functools import lru_cache
from collections import defaultdict
import build

NORETURN = {"exit", "abort", "_exit", "__assert_fail", "longjmp"}


class Ins:
    __slots__ = ("f", "b", "i", "op", "t", "line", "o", "fn", "path", "p", "at", "sz", "v", "dt", "cases", "default", "succ",
                 "inl", "pos", "_s")

    def __init__(self, f, b, d):
        self.f, self.b = f, b
        self.i = d["i"]; self.op = d["op"]; self.t = d.get("t")
        self.line = d.get("ol") or d.get("l") or 0
        self.inl = d.get("if")
        o = d.get("o", [])
        self.fn = tup(d["fn"]) if "fn" in d else None
        self.path = tup(d["path"]) if "path" in d else None
        self.p = d.get("p"); self.at = d.get("at"); self.sz = d.get("sz"); self.v = d.get("v"); self.dt = d.get("dt")
        self.cases = [tuple(c) for c in d["cases"]] if "cases" in d else None
        self.default = d.get("def")
        self.succ = d.get("succ")
        self.o = [(tup(x[0]), x[1]) for x in o] if self.op == "phi" else [tup(x) for x in o]

    @property
    def callee(self):
        if self.op == "call" and self.fn[0] == "fn":
            return self.fn[1]
        return None

    @property
    def loc(self):
        return "%s:%d" % (self.f.file, self.line)

    def __repr__(self):
        return "<%s %s i%d %s %s>" % (self.f.name, self.loc, self.i, self.op, self.callee or "")


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


class Func:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d["name"]; self.line = d["line"]; self.internal = d["internal"]
        fl = d["file"]
        self.abspath = fl
        root = os.path.join(build.REPO, "")
        self.file = fl[len(root):] if fl.startswith(root) else fl
        self.args = d["args"]; self.dargs = d["dargs"]; self.ret = d["ret"]; self.dret = d["dret"]; self.targs = d.get("targs", [])
        self.blocks = []
        self.ins = {}
        for bi, b in enumerate(d["blocks"]):
            bl = [Ins(self, bi, x) for x in b]
            for p, x in enumerate(bl):
                x.pos = p
                self.ins[x.i] = x
            self.blocks.append(bl)
        self._build()

    def _build(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            # blocks after a noreturn call do not continue
            if t.op == "br":
                s = list(t.succ)
            elif t.op == "switch":
                s = [t.default] + [c[1] for c in t.cases]
            else:
                s = []
            if any(self.prog.noreturn_call(x) for x in b if x.op == "call"):
                s = []
            out = []
            for x in s:
                if x not in out:
                    out.append(x)
            self.succ[bi] = out
        # drop unreachable
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in seen:
                    seen.add(y); st.append(y)
        self.reach = seen
        for bi in seen:
            for y in self.succ[bi]:
                self.pred[y].append(bi)
        self._uses = None
        self._dom = self._pdom = None
        self._cd = None

    # ---- iteration
    def instrs(self):
        for bi in range(len(self.blocks)):
            if bi in self.reach:
                for x in self.blocks[bi]:
                    yield x

    def calls(self, name=None):
        for x in self.instrs():
            if x.op == "call":
                if name is None or x.callee == name or (isinstance(name, (set, frozenset, dict)) and x.callee in name):
                    yield x

    def get(self, v):
        return self.ins.get(v[1]) if v and v[0] == "i" else None

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for x in self.instrs():
                for v in ops(x):
                    if v[0] in ("i", "a"):
                        u[v].append(x)
            self._uses = u
        return self._uses

    def rets(self):
        return [x for x in self.instrs() if x.op == "ret"]

    # ---- dominators (sets; functions are small)
    def _domsets(self, succ, pred, roots, nodes):
        full = set(nodes)
        dom = {n: set(full) for n in nodes}
        for r in roots:
            dom[r] = {r}
        order = list(nodes)
        ch = True
        while ch:
            ch = False
            for n in order:
                if n in roots:
                    continue
                ps = [p for p in pred[n] if p in full]
                if ps:
                    s = set.intersection(*[dom[p] for p in ps]) | {n}
                else:
                    s = {n}
                if s != dom[n]:
                    dom[n] = s; ch = True
        return dom

    def rpo(self):
        if getattr(self, "_rpo", None) is None:
            seen, out = set(), []
            st = [(0, iter(self.succ[0]))]
            seen.add(0)
            while st:
                n, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(self.succ[y]))); break
                else:
                    out.append(n); st.pop()
            self._rpo = out[::-1]
        return self._rpo

    @property
    def dom(self):
        if self._dom is None:
            self._dom = self._domsets(self.succ, self.pred, {0}, self.rpo())
        return self._dom

    @property
    def pdom(self):
        """post-dominators with respect to normal returns and other exits (virtual exit -1)"""
        if self._pdom is None:
            nodes = self.rpo()[::-1]
            exits = [n for n in nodes if not self.succ[n]]
            succ = {n: list(self.succ[n]) for n in nodes}
            for e in exits:
                # noreturn ends (fatal error) are not exits we care about
                succ[e] = [-1] if self.blocks[e][-1].op == "ret" and not self.dead_end(e) else []
            nodes2 = [-1] + nodes
            full = set(nodes2)
            dom = {n: set(full) for n in nodes2}
            dom[-1] = {-1}
            ch = True
            while ch:
                ch = False
                for n in nodes:
                    ss = succ[n]
                    if ss:
                        s = set.intersection(*[dom[p] for p in ss]) | {n}
                    else:
                        continue        # never returns: vacuous
                    if s != dom[n]:
                        dom[n] = s; ch = True
            self._pdom = dom
        return self._pdom

    def dead_end(self, b):
        return any(self.prog.noreturn_call(x) for x in self.blocks[b] if x.op == "call")

    def dominates(self, x, y):
        """instruction x dominates instruction y"""
        if x.b == y.b:
            return x.pos < y.pos
        return x.b in self.dom[y.b]

    def control_deps(self):
        """block -> set of (branch block, successor index block) it is control dependent on (direct)"""
        if self._cd is None:
            cd = defaultdict(set)
            pd = self.pdom
            live, st = set(), [n for n in self.reach if self.blocks[n][-1].op == "ret" and not self.dead_end(n)]
            while st:
                x = st.pop()
                if x not in live:
                    live.add(x); st.extend(self.pred[x])
            for a in self.reach:
                if len(self.succ[a]) > 1:
                    for s in self.succ[a]:
                        if s not in live:
                            continue        # a fatal error: never continues
                        # nodes that post-dominate s but not strictly a
                        for n in pd[s]:
                            if n == -1:
                                continue
                            if n not in pd[a] or n == a:
                                cd[n].add((a, s))
            self._cd = cd
        return self._cd

    def all_control_deps(self, b):
        """transitive control dependences of block b: set of (branch block, succ)"""
        cd = self.control_deps()
        out, st = set(), [b]
        seen = {b}
        while st:
            x = st.pop()
            for (a, s) in cd.get(x, ()):
                out.add((a, s))
                if a not in seen:
                    seen.add(a); st.append(a)
        return out

    def argt(self, i):
        return self.targs[i] if i < len(self.targs) else ""

    def reachable_from(self, b, without=()):
        if not without:
            c = self.__dict__.setdefault("_rf", {})
            if b not in c:
                c[b] = self._reachable_from(b)
            return c[b]
        return self._reachable_from(b, without)

    def _reachable_from(self, b, without=()):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in seen and y not in without:
                    seen.add(y); st.append(y)
        return seen

    def ordered(self, xs):
        """instructions in execution order (later = reachable from); inside a common loop by reverse post order"""
        rp = {b: i for i, b in enumerate(self.rpo())}
        reach = {x.b: self.reachable_from(x.b) for x in xs}
        out = []
        for x in sorted(xs, key=lambda x: (rp[x.b], x.pos)):
            i = len(out)
            while i > 0:
                y = out[i - 1]
                if y.b != x.b and y.b in reach[x.b] and x.b not in reach[y.b]:
                    i -= 1
                else:
                    break
            out.insert(i, x)
        return out

    def loops(self):
        """natural loops: header -> set of blocks"""
        L = {}
        for n in self.reach:
            for h in self.succ[n]:
                if h in self.dom[n]:
                    body = {h, n}
                    st = [n]
                    while st:
                        x = st.pop()
                        if x == h:
                            continue
                        for p in self.pred[x]:
                            if p not in body:
                                body.add(p); st.append(p)
                    L.setdefault(h, set()).update(body)
        return L


def ops(x):
    if x.op == "phi":
        for v, _ in x.o:
            yield v
        return
    for v in x.o:
        yield from leafs(v)
    if x.op == "call" and x.fn[0] in ("i", "a"):
        yield x.fn
    if x.path:
        for p in x.path:
            if p[0] == "x" and p[1][0] in ("i", "a"):
                yield p[1]


def leafs(v):
    if v and v[0] == "ce":
        for y in v[2:]:
            yield from leafs(y)
    else:
        yield v


class Program:
    def __init__(self, cfg="default"):
        self.cfg = cfg
        self.structs, self.globals, self.funcs = {}, {}, {}
        raw = []
        with open(build.dump(cfg)) as f:
            for l in f:
                d = json.loads(l)
                if d["k"] == "struct":
                    self.structs[d["name"]] = d["fields"]
                elif d["k"] == "global":
                    self.globals[d["name"]] = d
                    if "init" in d:
                        d["init"] = tup(d["init"])
                else:
                    raw.append(d)
        self.fatal_ok = True
        for d in raw:
            self.funcs[d["name"]] = Func(self, d)
        if len(self.funcs) < 1000 and cfg == "default":
            raise build.Broken("only %d functions in the dump" % len(self.funcs))
        self._callers = None

    def noreturn_call(self, x):
        c = x.callee
        if c in NORETURN:
            return True
        if c == "MSTK_Report" and len(x.o) == 3 and x.o[2] == ("c", 3):
            return True
        return False

    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.funcs.values():
                for x in f.instrs():
                    if x.op == "call":
                        if x.callee:
                            c[x.callee].append(x)
                        else:
                            for t in self.targets(x):
                                c[t].append(x)
            self._callers = c
        return self._callers

    def global_fns(self, g):
        """functions in the initialiser of global g"""
        out = []

        def w(v):
            if v[0] == "fn":
                out.append(v[1])
            elif v[0] == "agg":
                for y in v[1]:
                    w(y)
            elif v[0] == "ce":
                for y in v[2:]:
                    w(y)
        d = self.globals.get(g)
        if d and "init" in d:
            w(d["init"])
        return out

    def table_of(self, x):
        """global table an indirect call goes through, or None"""
        f = x.f
        v = x.fn
        if v[0] == "i":
            d = f.get(v)
            if d is not None and d.op == "load":
                a = d.o[0]
                if a[0] == "gc":
                    return a[1][1] if a[1][0] == "g" else None
                if a[0] == "g":
                    return a[1]
                g = f.get(a)
                if g is not None and g.op == "getelementptr" and g.o[0][0] == "g":
                    return g.o[0][1]
        return None

    def targets(self, x):
        """possible callees of call x"""
        if x.callee:
            return [x.callee]
        t = self.table_of(x)
        if t:
            return sorted(set(self.global_fns(t)))
        return []


# ---------------------------------------------------------------- expressions
COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}
CAST = {"sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "freeze"}


def strip(f, v):
    """look through casts"""
    while True:
        x = f.get(v)
        if x is not None and x.op in CAST:
            v = x.o[0]
        else:
            return v


def expr(f, v, depth=8, phi="phi", _seen=None):
    """canonical expression tree of value v (tuples)."""
    if v[0] == "i":
        x = f.get(v)
        if x is None or depth <= 0:
            return ("?",)
        if x.op in CAST:
            return expr(f, x.o[0], depth, phi, _seen)
        if x.op == "phi":
            return ("phi", x.i)
        if x.op == "alloca":
            return ("var", x.v or ("i%d" % x.i))
        if x.op == "call":
            c = x.callee
            if c is None:
                t = f.prog.table_of(x)
                c = "*" + (t or "?")
            return ("call", c) + tuple(expr(f, a, depth - 1, phi) for a in x.o)
        if x.op == "load":
            return ("ld", expr(f, x.o[0], depth - 1, phi))
        if x.op == "getelementptr":
            e = expr(f, x.o[0], depth - 1, phi)
            for p in x.path:
                if p[0] == "f":
                    e = ("fld", e, p[1] + "." + p[2])
                else:
                    ix = expr(f, p[1], depth - 1, phi)
                    if ix == ("c", 0) and p is x.path[0]:
                        continue
                    e = ("idx", e, ix)
            return e
        if x.op == "icmp" or x.op == "fcmp":
            return (x.op, x.p) + tuple(expr(f, a, depth - 1, phi) for a in x.o)
        if x.op == "shl" and x.o[1][0] == "c":
            return ("mul",) + tuple(sorted([expr(f, x.o[0], depth - 1, phi), ("c", 1 << x.o[1][1])], key=repr))
        a = [expr(f, y, depth - 1, phi) for y in x.o]
        if x.op in COMM:
            a = sorted(a, key=repr)
        return (x.op,) + tuple(a)
    if v[0] == "a":
        return ("arg", v[1])
    if v[0] == "gc":
        return ("gc", v[1][1] if len(v[1]) > 1 else "?", v[2])
    return v


def show(f, e):
    """readable form of an expression"""
    k = e[0]
    if k == "arg":
        return f.args[e[1]] if e[1] < len(f.args) and f.args[e[1]] else "arg%d" % e[1]
    if k in ("c", "f"):
        return str(e[1])
    if k == "s":
        return '"%s"' % e[1]
    if k in ("g", "fn", "var"):
        return str(e[1])
    if k == "call":
        return "%s(%s)" % (e[1], ",".join(show(f, x) for x in e[2:]))
    if k == "ld":
        return "*" + show(f, e[1])
    if k == "fld":
        return "%s->%s" % (show(f, e[1]), e[2].split(".")[-1])
    if k == "idx":
        return "%s[%s]" % (show(f, e[1]), show(f, e[2]))
    if k == "phi":
        return "phi%d" % e[1]
    if k in ("icmp", "fcmp"):
        return "(%s %s %s)" % (show(f, e[2]), e[1], show(f, e[3]))
    return "%s(%s)" % (k, ",".join(show(f, x) if isinstance(x, tuple) else str(x) for x in e[1:]))


_progs = {}


def program(cfg="default"):
    if cfg not in _progs:
        _progs[cfg] = Program(cfg)
    return _progs[cfg]


# ------------------------------------------------------ versions of locals
def memver(f):
    """load of an address-taken scalar local -> canonical value: the value of the
    only store that reaches it, or ("m", local, definition) for a call that was
    given its address.  Loads reached by several definitions map to nothing."""
    if getattr(f, "_mv", None) is not None:
        return f._mv
    al = [x for x in f.instrs() if x.op == "alloca"]
    out = {}
    f._mvdefs = defaultdict(set)
    for a in al:
        v = ("i", a.i)
        defs = defaultdict(list)           # block -> [(pos, ins)]
        loads = []
        ok = True
        for x in f.uses.get(v, ()):
            if x.op == "load":
                loads.append(x)
            elif x.op == "store" and x.o[1] == v and x.o[0] != v:
                defs[x.b].append((x.pos, x))
            elif x.op == "call":
                defs[x.b].append((x.pos, x))
            elif x.op in ("icmp",):
                pass
            else:
                ok = False
        if not ok or not loads:
            continue
        for b in defs:
            defs[b].sort(key=lambda t: t[0])
        lastdef = {b: d[-1][1] for b, d in defs.items()}
        IN = {b: set() for b in f.reach}
        IN[0] = {None}
        OUT = {b: ({lastdef[b].i} if b in lastdef else set(IN[b])) for b in f.reach}
        ch = True
        order = f.rpo()
        while ch:
            ch = False
            for b in order:
                i = set(IN[b]) if b == 0 else set()
                for p in f.pred[b]:
                    i |= OUT[p]
                o = {lastdef[b].i} if b in lastdef else i
                if i != IN[b] or o != OUT[b]:
                    IN[b], OUT[b] = i, o; ch = True
        for l in loads:
            r = None
            for pos, d in defs.get(l.b, ()):
                if pos < l.pos:
                    r = d
            if r is None:
                if len(IN[l.b]) != 1:
                    continue
                d = next(iter(IN[l.b]))
                if d is None:
                    continue
                r = f.ins[d]
            if r.op == "store":
                out[l.i] = r.o[0]
            else:
                m = ("m", a.i, r.i)
                out[l.i] = m
                f._mvdefs[r.b].add(m)
    f._mv = out
    return out


def canon(f, v):
    """strip casts and loads of locals whose value is known"""
    n = 0
    while n < 20:
        n += 1
        v = strip(f, v)
        x = f.get(v)
        if x is not None and x.op == "load":
            m = memver(f).get(x.i)
            if m is None:
                return v
            v = m
        else:
            return v
    return v


# ------------------------------------------------------------ path conditions
def cond_key(f, v):
    """(key, polarity) describing the truth of i1 value v; conditions on the same
    SSA operands get the same key."""
    x = f.get(v)
    if x is None:
        return (v, True)
    if x.op == "icmp":
        a, b = canon(f, x.o[0]), canon(f, x.o[1])
        p = x.p
        if b[0] not in ("c", "null") and a[0] in ("c", "null"):
            a, b = b, a
            p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
        # (x cmp ...) != 0 : look through
        if b == ("c", 0) and p in ("ne", "eq"):
            y = f.get(a)
            if y is not None and y.op in ("icmp", "fcmp"):
                k, pol = cond_key(f, a)
                return (k, pol if p == "ne" else not pol)
        if p in ("sgt", "sle") and b[0] == "i":
            # a > b - 1  is  not a < b
            y = f.get(b)
            c = None
            if y.op == "add" and ("c", -1) in y.o:
                c = [o for o in y.o if o != ("c", -1)]
            elif y.op == "sub" and y.o[1] == ("c", 1):
                c = [y.o[0]]
            if c and len(c) == 1:
                b = canon(f, c[0])
                return ((a, "slt", b), p == "sle")
        if p == "ne":
            return ((a, "eq", b), False)
        if p == "sge":
            return ((a, "slt", b), False)
        if p == "sle":
            return ((a, "sgt", b), False)
        return ((a, p, b), True)
    if x.op == "xor" and ("c", -1) in x.o or x.op == "xor" and ("c", 1) in x.o:
        o = [y for y in x.o if y[0] != "c"]
        if len(o) == 1:
            k, pol = cond_key(f, o[0])
            return (k, not pol)
    if x.op in CAST:
        return cond_key(f, x.o[0])
    return (v, True)
