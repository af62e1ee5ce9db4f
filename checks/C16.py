"""C16: no result depends on an uninitialised local variable or on memory that was allocated and never set."""
import core, own, summ, ir
from ir import canon, strip, cond_key
from walk import walk, STOP
from own import Undecided

RULES = {
    "local": "no path leads from the start of a routine, or from the declaration in a loop body, to a use of a local variable that it has not been given a value on",
    "out": "a routine that is given the address of a local variable without a value sets it on every path to its return, or the variable is not used after the call on the paths where it does not",
    "object": "a routine that allocates an object of the library sets every field that is read anywhere in the library before it returns the object",
    "heap": "no element of memory obtained from malloc is read before the routine has written to that memory, filled it in a loop, or passed it on",
}
EXPLAIN = ("Every local scalar and pointer variable is given an explicit 'uninitialised' value when the source is compiled to IR; that value is followed through copies, merges "
           "and memory along every path, with branch facts, to anything that depends on it: a branch, an address, a stored or returned value, an argument of a routine "
           "that uses that parameter on every path.")
ASSUME = ["a loop that fills an allocated array fills the part that is read later", "library functions outside MSTK (fscanf, MPI, METIS, Zoltan, Exodus) set what they are given the address of"]
CONFIGS = ["undef"]
CONFIGS_THOROUGH = ["undef"]
MIN = {"local": 500, "heap": 300, "object": 60}
PURE = {"getelementptr", "icmp", "fcmp", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul",
        "fdiv", "fneg", "sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "select", "ptrtoint", "inttoptr", "freeze", "frem"}


class Must:
    """does a routine use parameter i on every path from its entry to a return?"""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def uses(self, name, i):
        f = self.P.funcs.get(name)
        if f is None:
            return True
        k = (name, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        blocks = {u.b for u in f.uses.get(("a", i), ()) if u.op != "phi" and not (u.op == "call" and not self.at(u, ("a", i), f))}
        seen, st, ok = {0}, [0], True
        if 0 in blocks:
            st = []
        while st:
            b = st.pop()
            if not f.succ[b] and f.blocks[b][-1].op == "ret":
                ok = False
                break
            for s in f.succ[b]:
                if s not in seen and s not in blocks:
                    seen.add(s)
                    st.append(s)
        self.memo[k] = ok
        return ok

    def at(self, x, v, f):
        """is argument value v of call x used by every routine it may call?"""
        ix = [i for i, o in enumerate(x.o) if o == v]
        if not ix:
            return True
        for t in self.P.targets(x) or [x.callee]:
            for i in ix:
                if not self.uses(t, i):
                    return False
        return True


class Sets:
    """does a routine write through pointer parameter i on every path to a return?"""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def must(self, name, i):
        f = self.P.funcs.get(name)
        if f is None:
            return True
        k = (name, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = True
        a = ("a", i)
        fail = []

        def step(x, st):
            if x.op == "store" and strip(f, x.o[1]) == a:
                return STOP
            if x.op == "store" and strip(f, x.o[0]) == a:
                return STOP            # address kept: may be set elsewhere
            if x.op == "call" and any(strip(f, o) == a for o in x.o):
                if self.call(f, x, a):
                    return STOP
            if x.op == "ret":
                fail.append(x)
            return st

        def edge(c, val, st):
            # a null pointer cannot be written through
            if c[0] == a and len(c) == 3 and c[2] == ("null",) and c[1] == "eq" and val:
                return STOP
            return st
        try:
            walk(f, (0, 0), 0, step, edge=edge, limit=4000)
        except Undecided:
            fail = []
        self.memo[k] = not fail
        return not fail

    def reads(self, name, i):
        """does it read through pointer parameter i before it writes through it, on a path?"""
        f = self.P.funcs.get(name)
        if f is None:
            return False
        k = (name, i, "r")
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        a = ("a", i)
        hit = []

        def step(x, st):
            if x.op == "load" and strip(f, x.o[0]) == a:
                if any(u.op != "store" for u in f.uses.get(("i", x.i), ())):
                    hit.append(x)
                return STOP
            if x.op == "store" and (strip(f, x.o[1]) == a or strip(f, x.o[0]) == a):
                return STOP
            if x.op == "call" and any(strip(f, o) == a for o in x.o):
                if self.read_by(f, x, a):
                    hit.append(x)
                return STOP
            return st
        def edge(c, val, st):
            return st if self.plain(f, c) else STOP
        try:
            walk(f, (0, 0), 0, step, edge=edge, limit=4000, facts=False)
            if hit:
                hit = []
                walk(f, (0, 0), 0, step, edge=edge, limit=4000)
        except Undecided:
            hit = []
        self.memo[k] = bool(hit)
        return bool(hit)

    @staticmethod
    def plain(f, k):
        """does the condition depend only on the arguments and what they point to (not on the rank of the process, ...)?"""
        vs, done = [v for v in k if isinstance(v, tuple)], set()
        while vs:
            v = vs.pop()
            if v in done:
                continue
            done.add(v)
            if v[0] == "m":
                v = ("i", v[1])
            x = f.get(v)
            if x is None:
                continue
            if x.op in ("alloca", "call"):
                return False
            vs += [w for w, _ in x.o] if x.op == "phi" else list(x.o)
        return True

    def read_by(self, f, x, v):
        return any(self.reads(t, i) for t in self.P.targets(x) for i, o in enumerate(x.o) if strip(f, o) == v)

    def call(self, f, x, v):
        ts = self.P.targets(x) or [x.callee]
        return all(self.must(t, i) for t in ts for i, o in enumerate(x.o) if strip(f, o) == v)


def cond_blocks(f):
    """condition -> block of the branch that tests it"""
    if not hasattr(f, "_condb"):
        f._condb = {}
        for blk in f.blocks:
            t = blk[-1]
            if t.op == "br" and t.o:
                f._condb[cond_key(f, t.o[0])[0]] = t.b
    return f._condb


def counter(f, v):
    """a loop counter that starts at a constant >= 0 and goes up"""
    x = f.get(v)
    if x is None or x.op != "phi":
        return False
    for w, pb in x.o:
        y = f.get(w)
        if w[0] == "c" and w[1] >= 0:
            continue
        if y is not None and y.op == "add" and y.o[0] == v and y.o[1][0] == "c" and y.o[1][1] > 0:
            continue
        return False
    return True


class Heap:
    """one malloc: is its memory read before something is written to it?"""

    def __init__(self, f, x):
        self.f, self.x, self.res = f, x, []
        # every pointer into it, flow insensitive
        me = ("i", x.i)
        self.ptr, self.slots = {me}, set()
        ch = True
        while ch:
            ch = False
            for y in f.instrs():
                v = ("i", y.i)
                if v in self.ptr:
                    continue
                if (y.op in ("getelementptr", "bitcast", "freeze") and y.o[0] in self.ptr) or \
                   (y.op in ("phi",) and any(w in self.ptr for w, _ in y.o)) or (y.op == "select" and any(w in self.ptr for w in y.o[1:])) or \
                   (y.op == "load" and canon(f, y.o[0]) in self.slots):
                    self.ptr.add(v)
                    ch = True
            for y in f.instrs():
                if y.op == "store" and y.o[0] in self.ptr:
                    a = canon(f, y.o[1])
                    if a not in self.slots and y.o[1] not in self.ptr:
                        self.slots.add(a)
                        ch = True
        # writes that give a value: not x[i] += .., and not always the same constant
        self.w = [y for y in f.instrs() if self.writes(y)]
        con = {(y.o[0] if y.o[0][0] in ("c", "null") else None) if y.op == "store" else None for y in self.w if not self.rmw(y)}
        if len(con) == 1 and None not in con:
            self.con = next(iter(con))
            self.w = []
        else:
            self.con = None
            self.w = [y for y in self.w if not self.rmw(y)]

    def rmw(self, y):
        """x[i] = x[i] op .."""
        if y.op != "store":
            return False
        f = self.f
        a = canon(f, y.o[1])
        seen, todo = set(), [y.o[0]]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            z = f.get(v)
            if z is None:
                continue
            if z.op == "load":
                if canon(f, z.o[0]) == a:
                    return True
            elif z.op in PURE:
                todo += z.o
        return False

    def writes(self, y):
        if y.op == "store":
            return y.o[1] in self.ptr
        if y.op == "call" and y is not self.x:
            c = y.callee or ""
            if c == "free" or c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c.startswith("__undef"):
                return False
            return any(o in self.ptr or strip(self.f, o) in self.slots for o in y.o)
        return False

    def run(self):
        """a read that no write can have come before"""
        f, x = self.f, self.x
        if not self.ptr or any(self.f.get(a) is None or self.f.get(a).op != "alloca" for a in self.slots):
            return                              # kept in an object: set elsewhere
        if any(y.op == "ret" and y.o and y.o[0] in self.ptr for y in f.instrs()):
            return
        rs = [y for y in f.instrs() if y.op == "load" and y.o[0] in self.ptr]
        if self.con is not None:
            rs = [y for y in rs if any(z.op not in ("store",) for z in f.uses.get(("i", y.i), ()))]
        after = {y.b: y for y in self.w}
        ok = set()
        for y in self.w:
            ok |= f.reachable_from(y.b)
        # x[i] += ..: every way to it must pass a write, or a loop that fills it
        upd = {z.i for y in f.instrs() if y.op == "store" and y.o[1] in self.ptr and self.rmw(y)
               for z in rs if canon(f, z.o[0]) == canon(f, y.o[1])}
        if self.con is None and upd:
            for r in rs:
                if r.i not in upd:
                    continue
                fill = {h for h, bl in f.loops().items() if r.b not in bl and any(b in bl for b in after)}
                if any(w.b == r.b and w.pos < r.pos for w in self.w) or any(w.b == x.b and w.pos > x.pos for w in self.w):
                    continue
                seen, st = set(), [x.b]
                while st:
                    b = st.pop()
                    for q in f.succ[b]:
                        if q not in seen and q not in fill and q not in after:
                            seen.add(q)
                            st.append(q)
                        elif q == r.b and q not in fill:
                            seen.add(q)
                if r.b in seen:
                    self.res.append((r, " (it is updated there)"))
                    break
        for r in rs:
            if r.b in ok or (r.b in after and any(w.b == r.b and w.pos < r.pos for w in self.w)):
                continue
            if r.b == x.b and r.pos < x.pos and not any(r.b in f.reachable_from(s) for s in f.succ[x.b]):
                continue
            if r.b != x.b and r.b not in f.reachable_from(x.b):
                continue
            self.res.append((r, "" if self.con is None else ": only %s is ever stored there" % self.con[-1]))


class Fields:
    """every field of a new object that is read anywhere is set before the object is returned"""

    def __init__(self, P):
        self.P = P
        self.read = {}
        for f in P.funcs.values():
            for x in f.instrs():
                if x.op == "load":
                    k = self.field(f, x.o[0])
                    if k and not self.array(f, x.o[0]):
                        self.read.setdefault(k[1], f.name)
        self.memo = {}

    @staticmethod
    def field(f, a):
        """(base, (struct, field)) of an address"""
        g = f.get(strip(f, a))
        # an element or a component of the field
        while g is not None and g.op == "getelementptr":
            p = [q for q in g.path if q[0] == "f"]
            if p:
                return canon(f, g.o[0]), tuple(p[0][1:3])
            g = f.get(strip(f, g.o[0]))
        return None

    @staticmethod
    def array(f, a):
        """an element of an array that is part of the object (how much of it is used is not fixed)"""
        g = f.get(strip(f, a))
        return g.op == "getelementptr" and (not g.path or g.path[-1][0] != "f")

    def sets(self, name, i, fld):
        """does the routine set field fld of parameter i on every path to a return?"""
        k = (name, i, fld)
        if k not in self.memo:
            self.memo[k] = False
            f = self.P.funcs.get(name)
            if f is not None:
                self.memo[k] = not self.missing(f, (0, 0), ("a", i), fld)
        return self.memo[k]

    def missing(self, f, start, base, fld):
        bad = []

        def step(x, st):
            if x.op == "store":
                k = self.field(f, x.o[1])
                if k and k[0] == base and k[1] == fld:
                    return STOP
            elif x.op == "call":
                if x.callee == "free" and any(canon(f, o) == base for o in x.o):
                    return STOP
                if x.callee and x.callee.startswith(("llvm.memset", "memset", "llvm.memcpy", "memcpy")) and x.o and (canon(f, x.o[0]) == base or (self.field(f, x.o[0]) or (0, 0)) == (base, fld)):
                    return STOP
                for i, o in enumerate(x.o):
                    if canon(f, o) == base:
                        ts = self.P.targets(x)
                        if ts and all(self.sets(t, i, fld) for t in ts):
                            return STOP
                    elif o[0] != "c" and self.field(f, o) == (base, fld):
                        return STOP
            elif x.op == "ret":
                bad.append(x)
            return st

        def edge(k, val, st):
            if k[0] == base and len(k) == 3 and k[1] == "eq" and k[2] == ("null",) and val:
                return STOP
            return st
        for facts in (False, True):
            bad.clear()
            try:
                walk(f, start, 0, step, edge=edge, facts=facts, limit=5000)
            except Undecided:
                return []
            if not bad:
                break
        return list(bad)


def run(P, R):
    M, S = Must(P), Sets(P)

    def one(name):
        f = P.funcs[name]
        out = []
        lv = [x for x in f.calls() if (x.callee or "").startswith("__undef")]
        for x in lv:
            res = {}
            for facts in (False, True):
                res = {}

                def deps(y, st):
                    return [o for o in y.o if (o[0] == "i" and o in st)]

                def enter(b, prev, st):
                    add, rem = set(), set()
                    for p in f.blocks[b]:
                        if p.op != "phi":
                            break
                        me = ("i", p.i)
                        v = [v for v, pb in p.o if pb == prev]
                        (add if any(w in st for w in v) else rem).add(me)
                    # values computed again in a loop
                    st = (st - rem) | add
                    if not any(e[0] != "k" for e in st):
                        return STOP
                    if facts:
                        d = dict(e[1:] for e in st if e[0] == "k")
                        for p in f.blocks[b]:
                            if p.op != "phi":
                                break
                            me = ("i", p.i)
                            v = [v for v, pb in p.o if pb == prev]
                            if v and v[0] in d:
                                v = [d[v[0]]]
                            st = frozenset(e for e in st if e[:2] != ("k", me))
                            if v and v[0][0] in ("c", "null") and me in pairs:
                                st = st | {("k", me, v[0])}
                    return st

                def step(y, st):
                    me = ("i", y.i)
                    if y is x:
                        return st
                    if y.op == "store":
                        a = canon(f, y.o[1])
                        if y.o[0] in st:
                            if f.get(a) is not None and f.get(a).op == "alloca":
                                return st | {("m",) + a}
                            res.setdefault((y.line, "stored"), y)
                            return STOP
                        if y.o[1] in st:
                            res.setdefault((y.line, "used as an address"), y)
                            return STOP
                        if ("m",) + a in st:
                            st = st - {("m",) + a}
                        v = strip(f, y.o[0])
                        if ("m",) + v in st:
                            st = st - {("m",) + v}     # address kept
                        return st if any(e[0] != "k" for e in st) else STOP
                    if y.op == "load":
                        a = canon(f, y.o[0])
                        if ("m",) + a in st:
                            return st | {me}
                        if y.o[0] in st:
                            res.setdefault((y.line, "used as an address"), y)
                            return STOP
                        st = st - {me}
                        return st if any(e[0] != "k" for e in st) else STOP
                    d = deps(y, st)
                    if y.op == "call":
                        if (y.callee or "").startswith("llvm.lifetime") or (y.callee or "").startswith("llvm.dbg"):
                            return st
                        for v in d:
                            if M.at(y, v, f):
                                res.setdefault((y.line, "passed to %s" % (y.callee or "a function")), y)
                                return STOP
                        for o in y.o:
                            v = strip(f, o)
                            if ("m",) + v in st:
                                if S.read_by(f, y, v):
                                    res.setdefault((y.line, "read by %s" % (y.callee or "a function")), y)
                                    return STOP
                                if S.call(f, y, v):
                                    st = st - {("m",) + v}
                                else:
                                    st = st - {("m",) + v} | {("p", y.i) + v}
                        st = st - {me}
                        # set by the call on some paths only: its use is judged by rule 'out'
                        st = frozenset(st)
                        return st if any(e[0] != "k" for e in st) else STOP
                    if d:
                        if y.op in PURE:
                            return st | {me}
                        if y.op == "br" or y.op == "switch":
                            res.setdefault((y.line, "decides a branch"), y)
                            return STOP
                        if y.op == "ret":
                            res.setdefault((y.line, "returned"), y)
                            return STOP
                        return st | {me}
                    if me in st:
                        st = st - {me}
                        return st if any(e[0] != "k" for e in st) else STOP
                    return st

                def edge(k, val, st):
                    # loop and merge counters that are constant on this path
                    c = dict(e[1:] for e in st if e[0] == "k")
                    if len(k) != 3 or k[1] not in ("eq", "slt", "sgt"):
                        return st
                    a, b = c.get(k[0], k[0]), c.get(k[2], k[2])
                    if a[0] == "c" and b[0] == "c":
                        t = {"eq": a[1] == b[1], "slt": a[1] < b[1], "sgt": a[1] > b[1]}[k[1]]
                        if t != val:
                            return STOP
                    # 0 < n after i < n, for a counter i that starts at 0
                    if k[1] == "slt" and a[0] == "c" and not val and a[1] <= 0:
                        for q, w in own.dominating_facts(f, uses_of[k] if k in uses_of else 0).items():
                            if w and len(q) == 3 and q[1] == "slt" and q[2] == k[2] and counter(f, q[0]):
                                return STOP
                    return st
                uses_of = cond_blocks(f)
                pairs = {v for k in uses_of if len(k) == 3 and k[0][0] == "i" and k[2][0] == "i" for v in (k[0], k[2])}
                try:
                    walk(f, (x.b, x.pos + 1), frozenset([("i", x.i)]), step, edge=edge if facts else None, enter=enter, facts=facts, limit=20000)
                except Undecided:
                    if facts:
                        out.append(("undec", x.callee, None, None))
                        res = {}
                if not res:
                    break
            out.append(("ob", x.callee, None, None))
            for (line, how), y in res.items():
                out.append(("bad", x.callee.split(".", 2)[2], line, how))
        return name, out
    F = Fields(P)

    def objects(name):
        f = P.funcs[name]
        out = []
        for x in f.calls():
            if x.callee != "malloc":
                continue
            me = ("i", x.i)
            fl = {}
            for y in f.instrs():
                if y.op == "store":
                    k = F.field(f, y.o[1])
                    if k and k[0] == me:
                        fl.setdefault(k[1][0], set()).add(k[1])
            for s in fl:
                for k in sorted(F.read):
                    if k[0] == s:
                        out.append(("ob", s, k, None))
                        for r in F.missing(f, (x.b, x.pos + 1), me, k)[:1]:
                            out.append(("bad", s, k, x.line))
        return name, out
    for name, out in core.parallel(sorted(n for n, f in P.funcs.items() if f.calls("malloc")), objects):
        f = P.funcs[name]
        for k, st, fld, line in out:
            if k == "ob":
                R.ob("object", st, sample="%s: %s.%s" % (name, st, fld[1]))
            else:
                R.bad("object", "%s %s.%s" % (name, st.lstrip("%"), fld[1]), "%s:%s %s" % (f.file, line, name),
                      "a new %s is returned without its field '%s', which %s reads, having been set" % (st.lstrip("%"), fld[1], F.read[fld]))

    def heap(name):
        f = P.funcs[name]
        out = []
        for x in f.instrs():
            arr = x.op == "alloca" and any(y.op == "getelementptr" for y in f.uses.get(("i", x.i), ()))
            if not arr and (x.op != "call" or x.callee != "malloc"):
                continue
            h = Heap(f, x)
            try:
                h.run()
                out.append(("ob", None, None))
            except Undecided:
                out.append(("undec", None, None))
            for y, how in h.res[:1]:
                out.append(("bad", y.line, how))
        return name, out
    for name, out in core.parallel(sorted(P.funcs), heap):
        f = P.funcs[name]
        for k, line, how in out:
            if k == "ob":
                R.ob("heap", f.file)
            elif k == "undec":
                R.undec("heap", name)
            else:
                R.bad("heap", name, "%s:%s %s" % (f.file, line, name), "memory from malloc, or an array, is read here before anything was written to it%s" % how)
    for name, out in core.parallel(sorted(n for n, f in P.funcs.items() if any((x.callee or "").startswith("__undef") for x in f.calls())), one):
        f = P.funcs[name]
        for k, v, line, how in out:
            if k == "ob":
                R.ob("local", f.file)
            elif k == "undec":
                R.undec("local", "%s %s" % (name, v))
            else:
                R.bad("local", "%s %s" % (name, v), "%s:%s %s" % (f.file, line, name), "'%s' may have no value here (%s)" % (v, how))
