"""Bit-provenance dataflow: every bit of every value is a constant, a bit of an argument, a bit of memory at entry, or unknown.

Conditional propagation: a branch whose condition is decided by known bits is followed on one side only; states are joined bit by bit."""
import ir
from ir import strip
TOP = None
W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64, "double": 64, "float": 32}


def const(c, w):
    return tuple((c >> i) & 1 for i in range(w))


def known(v):
    """integer value of a bit vector, None when not constant"""
    if not isinstance(v, tuple) or any(b not in (0, 1) for b in v) or any(isinstance(b, tuple) for b in v):
        return None
    return sum(b << i for i, b in enumerate(v))


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


class Ptr:
    __slots__ = ("root", "off")

    def __init__(self, root, off=0):
        self.root, self.off = root, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.root == o.root and self.off == o.off

    def __hash__(self):
        return hash((self.root, self.off))

    def __repr__(self):
        return "%s+%d" % (self.root, self.off)


class State:
    def __init__(self):
        self.mem = {}       # (root, bit offset) -> bit
        self.wild = set()   # roots whose contents are unknown
        self.lost = False   # something was written nobody knows where

    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.wild = set(self.wild); s.lost = self.lost
        return s

    def get(self, root, off):
        k = (root, off)
        if k in self.mem:
            return self.mem[k]
        if self.lost or self.hit(root):
            return TOP
        if root[0] in ("al", "new"):
            return TOP
        return ("m", root, off)

    def hit(self, root):
        while True:
            if root in self.wild:
                return True
            if root[0] in ("ld", "elem"):
                root = root[1]
            else:
                return False

    def havoc(self, root):
        self.wild.add(root)
        for k in list(self.mem):
            r = k[0]
            while r != root and r[0] in ("ld", "elem"):
                r = r[1]
            if r == root:
                del self.mem[k]

    def join(self, o):
        """self := self joined with o; True when changed"""
        ch = False
        if o.lost and not self.lost:
            self.lost = ch = True
        for r in o.wild:
            if r not in self.wild:
                self.wild.add(r); ch = True
        for k in set(self.mem) | set(o.mem):
            a, b = self.get(*k), o.get(*k)
            v = a if a == b else TOP
            if k not in self.mem or self.mem[k] != v:
                self.mem[k] = v; ch = True
        return ch


class Bits:
    """run(f, args, state) -> (state at the exits, returned value)"""

    def __init__(self, P, depth=5, limit=400):
        self.P, self.depth, self.limit = P, depth, limit
        self.trouble = set()
        self.fresh = 0

    def width(self, t):
        return W.get(t, 0)

    def args(self, f, pre="a"):
        out = []
        for i, d in enumerate(f.dargs):
            t = str(d)
            if f.argt(i) == "ptr":
                out.append(Ptr((pre, i)))
            else:
                w = self.width(f.argt(i)) or 64
                out.append(tuple((pre, i, k) for k in range(w)))
        return out

    def run(self, f, args, st, depth=0):
        if depth > self.depth or sum(len(b) for b in f.blocks) > self.limit:
            return None
        env, ins, out = {}, {0: st.copy()}, None
        ret = "none"
        taken = set()
        work, n = [0], 0
        order = {b: i for i, b in enumerate(f.rpo())}
        while work:
            work.sort(key=lambda b: order.get(b, 0))
            b = work.pop(0)
            n += 1
            if n > 400:
                return None
            s = ins[b].copy()
            nxt = None
            for x in f.blocks[b]:
                if x.op == "ret":
                    v = self.val(f, env, args, x.o[0]) if x.o else "void"
                    ret = v if ret == "none" else self.meet(ret, v)
                    if out is None:
                        out = s.copy()
                    else:
                        out.join(s)
                elif x.op == "br":
                    nxt = list(x.succ)
                    if x.o and len(nxt) == 2:
                        c = known(self.val(f, env, args, x.o[0]))
                        if c is not None:
                            nxt = [nxt[0] if c else nxt[1]]
                elif x.op == "switch":
                    v = self.val(f, env, args, x.o[0])
                    c = known(v)
                    if c is None:
                        nxt = [x.default] + [t for _, t in x.cases]
                    else:
                        c = signed(c, len(v))
                        t = [t for k, t in x.cases if k == c]
                        nxt = t or [x.default]
                elif x.op == "phi":
                    v = "none"
                    for o, p in x.o:
                        if (p, b) in taken:
                            w = self.val(f, env, args, o)
                            v = w if v == "none" else self.meet(v, w)
                    env[x.i] = v
                else:
                    env[x.i] = self.ins(f, env, args, s, x, depth)
                    if x.op == "call" and self.P.noreturn_call(x):
                        nxt = []
                        break
            for t in dict.fromkeys(nxt or ()):
                new = (b, t) not in taken
                taken.add((b, t))
                if t not in ins:
                    ins[t] = s.copy()
                    work.append(t)
                elif ins[t].join(s) or new:
                    if t not in work:
                        work.append(t)
        if out is None:
            return None
        return out, ret

    def meet(self, a, b):
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(x if x == y else TOP for x, y in zip(a, b))
        return TOP

    def val(self, f, env, args, v, w=None):
        if v[0] == "a":
            return args[v[1]]
        if v[0] == "c":
            return const(v[1], w or 64)
        if v[0] == "null":
            return const(0, 64)
        if v[0] == "i":
            return env.get(v[1], TOP)
        if v[0] in ("g", "gv", "glob"):
            return Ptr(("g", v[1]))
        return TOP

    def aspointer(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, tuple) and len(v) == 64:
            b = v[0]
            if isinstance(b, tuple) and b[0] == "m" and all(isinstance(c, tuple) and c == ("m", b[1], b[2] + i) for i, c in enumerate(v)):
                return Ptr(("ld", b[1], b[2]))
            if isinstance(b, tuple) and b[0] == "p" and all(isinstance(c, tuple) and c == ("p", b[1], i) for i, c in enumerate(v)):
                return b[1]
        return None

    def asbits(self, v, w=64):
        if isinstance(v, Ptr):
            return tuple(("p", v, i) for i in range(64))
        return v

    def ins(self, f, env, args, s, x, depth):
        op = x.op
        w = self.width(x.t)
        V = lambda o, ww=None: self.val(f, env, args, o, ww)
        if op == "alloca":
            return Ptr(("al", f.name, x.i, depth))
        if op == "getelementptr":
            p = self.aspointer(V(x.o[0]))
            if p is None:
                return TOP
            root, off = p.root, p.off
            for q in x.path:
                if q[0] == "f":
                    o = dict((n, o) for o, n in self.P.structs.get(q[1].lstrip("%"), ())).get(q[2])
                    if o is None:
                        return TOP
                    off += o
                else:
                    iv = V(q[1], 64)
                    c = known(iv)
                    if c is not None:
                        off += signed(c, len(iv)) * q[2] * 8
                    elif iv is TOP or any(b is TOP for b in iv):
                        return TOP
                    else:
                        root, off = ("elem", root, off, iv, q[2]), 0
            return Ptr(root, off)
        if op == "load":
            p = self.aspointer(V(x.o[0]))
            if p is None or not w:
                return TOP
            r = tuple(s.get(p.root, p.off + i) for i in range(w))
            if x.t == "ptr":
                q = self.aspointer(r)
                return q if q is not None else r
            return r
        if op == "store":
            p = self.aspointer(V(x.o[1]))
            w = self.width(x.at)
            if p is None or not w:
                s.lost = True
                s.mem.clear()
                return TOP
            v = self.asbits(V(x.o[0], w))
            for i in range(w):
                s.mem[(p.root, p.off + i)] = v[i] if isinstance(v, tuple) and i < len(v) else TOP
            return TOP
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr"):
            a, b = self.asbits(V(x.o[0], w)), self.asbits(V(x.o[1], w))
            return self.arith(op, a, b, w)
        if op in ("zext", "sext", "trunc", "freeze", "ptrtoint", "inttoptr", "bitcast"):
            v = V(x.o[0])
            if op in ("freeze", "bitcast"):
                return v
            v = self.asbits(v)
            if not isinstance(v, tuple):
                return (TOP,) * w if op != "zext" else TOP
            if op in ("inttoptr", "ptrtoint"):
                return v
            if w <= len(v):
                return v[:w]
            return v + ((0,) if op == "zext" else (v[-1],)) * (w - len(v))
        if op == "icmp":
            return self.icmp(x.p, V(x.o[0]), V(x.o[1]), f, x)
        if op == "select":
            c = known(V(x.o[0]))
            a, b = V(x.o[1], w), V(x.o[2], w)
            return a if c == 1 else b if c == 0 else self.meet(a, b)
        if op == "call":
            return self.call(f, env, args, s, x, depth)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fadd", "fmul", "fsub", "fdiv", "fpext", "fptrunc", "fneg", "fcmp", "udiv", "sdiv", "urem", "srem"):
            return (TOP,) * w if w else TOP
        return (TOP,) * w if w else TOP

    def arith(self, op, a, b, w):
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return (TOP,) * w
        if op == "and":
            return tuple(0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else TOP for p, q in zip(a, b))
        if op == "or":
            return tuple(1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else TOP for p, q in zip(a, b))
        if op == "xor":
            return tuple(q if p == 0 else p if q == 0 else (p ^ q) if p in (0, 1) and q in (0, 1) else 0 if p == q and p is not TOP else TOP for p, q in zip(a, b))
        n, m = known(a), known(b)
        if op in ("shl", "lshr", "ashr"):
            if m is None:
                return (TOP,) * w
            if op == "shl":
                return ((0,) * m + a)[:w]
            return (a[m:] + ((0,) if op == "lshr" else (a[-1],)) * w)[:w]
        if n is not None and m is not None:
            return const(n + m if op == "add" else n - m if op == "sub" else n * m, w)
        if op == "add":
            # no carries: every position has a zero on one side
            if all(p == 0 or q == 0 for p, q in zip(a, b)):
                return tuple(q if p == 0 else p for p, q in zip(a, b))
        if op == "mul" and (n is not None or m is not None):
            c, v = (n, b) if n is not None else (m, a)
            if c and c & (c - 1) == 0:
                return ((0,) * (c.bit_length() - 1) + v)[:w]
        # low bits where nothing can carry in
        out, i = [], 0
        if op in ("add", "sub"):
            while i < w and b[i] == 0:
                out.append(a[i]); i += 1
        return tuple(out) + (TOP,) * (w - i)

    def icmp(self, p, a, b, f, x):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            n = b if isinstance(a, Ptr) else a
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a == b:
                    return (1,) if p == "eq" else (0,) if p == "ne" else (TOP,)
                return (TOP,)
            q = a if isinstance(a, Ptr) else b
            if known(n) == 0 and q.root[0] in ("a", "al", "new", "data", "s"):
                return (0,) if p == "eq" else (1,) if p == "ne" else (TOP,)
            return (TOP,)
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return (TOP,)
        w = min(len(a), len(b))
        a, b = a[:w], b[:w]
        n, m = known(a), known(b)
        if n is not None and m is not None:
            if p[0] == "s":
                n, m = signed(n, w), signed(m, w)
            k = p[1:] if p[0] in "su" else p
            return (int({"eq": n == m, "ne": n != m, "lt": n < m, "le": n <= m, "gt": n > m, "ge": n >= m}[k]),)
        if p in ("eq", "ne"):
            for u, v in zip(a, b):
                if u in (0, 1) and v in (0, 1) and u != v and not isinstance(u, tuple) and not isinstance(v, tuple):
                    return (0,) if p == "eq" else (1,)
            if a == b and not any(u is TOP for u in a):
                return (1,) if p == "eq" else (0,)
        # a value with few bits against a larger constant
        if m is not None and all(u == 0 for u in a[a_top(a):]) and a_top(a) < w:
            hi = (1 << a_top(a)) - 1
            mm = signed(m, w) if p[0] == "s" else m
            if p in ("slt", "ult") and hi < mm or p in ("sle", "ule") and hi <= mm:
                return (1,)
            if p in ("sgt", "ugt") and hi <= mm or p in ("sge", "uge") and hi < mm:
                return (0,)
            if p in ("slt",) and mm <= 0 or p in ("sle",) and mm < 0:
                return (0,)
            if p == "sgt" and mm < 0 or p == "sge" and mm <= 0:
                return (1,)
        return (TOP,)

    PURE = ("MSTK_Report", "printf", "fprintf", "sprintf", "puts")

    def call(self, f, env, args, s, x, depth):
        n = x.callee
        w = self.width(x.t)
        top = (TOP,) * w if w else TOP
        if n is None or n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n in self.PURE:
            if n is None:
                s.lost = True; s.mem.clear()
            return top
        if n in ("malloc", "calloc"):
            self.fresh += 1
            return Ptr(("new", f.name, x.i, depth))
        if n == "free":
            return top
        vals = [self.val(f, env, args, o, 64) for o in x.o]
        g = self.P.funcs.get(n)
        if g is not None:
            av = []
            for i, v in enumerate(vals):
                aw = self.width(g.argt(i)) if i < len(g.dargs) else 64
                av.append(v[:aw] if isinstance(v, tuple) and aw and len(v) > aw else v)
            r = self.run(g, av, s, depth + 1)
            if r is not None and (s.lost or not r[0].lost):
                o, v = r
                s.mem, s.wild, s.lost = o.mem, o.wild, o.lost
                return v if v not in ("none", "void") else top
        if n.startswith("llvm.memcpy") and known(vals[2]) is not None and known(vals[2]) <= 256:
            d, q = self.aspointer(vals[0]), self.aspointer(vals[1])
            if d is not None and q is not None:
                c = known(vals[2]) * 8
                bits = [s.get(q.root, q.off + i) for i in range(c)]
                for i, b in enumerate(bits):
                    s.mem[(d.root, d.off + i)] = b
                return top
        for i, v in enumerate(vals):
            p = self.aspointer(v) if v is not TOP else None
            if p is not None and (g is None and n not in ("strlen", "strcmp") and not (i == 1 and n in ("strcpy", "memcpy", "llvm.memcpy.p0.p0.i64")) or g is not None and self.modifies(g, i)):
                s.havoc(p.root)
        return top

    def modifies(self, g, i):
        """does g change what its parameter i points to"""
        key = (g.name, i)
        m = self.__dict__.setdefault("_mod", {})
        if key in m:
            return m[key]
        m[key] = False
        m[key] = self._modifies(g, i)
        return m[key]

    def _modifies(self, g, i):
        work, seen = [("a", i)], set()
        while work:
            p = work.pop()
            if p in seen:
                continue
            seen.add(p)
            for u in g.uses.get(p, ()):
                if u.op in ("getelementptr", "phi", "select", "bitcast"):
                    work.append(("i", u.i))
                elif u.op == "store" and strip(g, u.o[1]) == p:
                    return True
                elif u.op == "call":
                    n = u.callee
                    if n is None:
                        return True
                    if n.startswith("llvm.dbg") or n in self.PURE:
                        continue
                    h = self.P.funcs.get(n)
                    if h is None:
                        if n in ("strlen", "strcmp"):
                            continue
                        return True
                    if any(strip(g, o) == p and self.modifies(h, j) for j, o in enumerate(u.o) if j < len(h.dargs)):
                        return True
        return False


def a_top(a):
    i = len(a)
    while i and a[i - 1] == 0:
        i -= 1
    return i
