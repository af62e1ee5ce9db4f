"""Integer values as polynomials over atoms (canonical, independent of how they are written)."""
import ir
from ir import strip, canon


def padd(a, b, s=1):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + s * c
        if d[k] == 0:
            del d[k]
    return d


def pmul(a, b):
    d = {}
    for k, c in a.items():
        for l, e in b.items():
            m = tuple(sorted(k + l, key=repr))
            d[m] = d.get(m, 0) + c * e
            if d[m] == 0:
                del d[m]
    return d


def const(c):
    return {(): c} if c else {}


def isconst(p):
    return all(k == () for k in p)


def cval(p):
    return p.get((), 0)


def atom(a):
    return {(a,): 1}


class Poly:
    """poly.of(v); subclass hook atom_of(v) gives the polynomial of a leaf value or None (default: the value itself)"""

    def __init__(self, f):
        self.f = f
        self.memo = {}
        self.loops = f.loops()

    def leaf(self, v, x):
        return None

    def of(self, v, depth=30):
        f = self.f
        v = canon(f, v)
        if v[0] == "c":
            return const(v[1])
        if v in self.memo:
            return self.memo[v]
        x = f.get(v)
        self.memo[v] = atom(v)
        r = self.leaf(v, x)
        if r is None and x is not None and depth > 0:
            if x.op == "add":
                r = padd(self.of(x.o[0], depth - 1), self.of(x.o[1], depth - 1))
            elif x.op == "sub":
                r = padd(self.of(x.o[0], depth - 1), self.of(x.o[1], depth - 1), -1)
            elif x.op == "mul":
                r = pmul(self.of(x.o[0], depth - 1), self.of(x.o[1], depth - 1))
            elif x.op == "shl" and x.o[1][0] == "c":
                r = pmul(self.of(x.o[0], depth - 1), const(1 << x.o[1][1]))
            elif x.op == "phi":
                r = self.loop_value(x, depth)
        if r is None:
            r = atom(v)
        self.memo[v] = r
        return r

    # ---- induction variables
    def induction(self, x):
        """header phi -> (initial value, step polynomial, loop header) or None"""
        f = self.f
        if x.b not in self.loops:
            return None
        body = self.loops[x.b]
        init = {v for v, pb in x.o if pb not in body}
        nxt = {v for v, pb in x.o if pb in body}
        if len(init) != 1 or len(nxt) != 1:
            return None
        n = next(iter(nxt))
        me = ("i", x.i)
        return next(iter(init)), n, x.b

    def step(self, x):
        """constant polynomial added per iteration or None"""
        ind = self.induction(x)
        if ind is None:
            return None
        init, n, h = ind
        me = ("i", x.i)
        saved = dict(self.memo)
        self.memo[me] = atom(me)
        p = self.of(n)
        self.memo.clear(); self.memo.update(saved)
        if p.get((me,)) != 1:
            return None
        q = padd(p, atom(me), -1)
        if any(me in k for k in q):
            return None
        return q

    def stride(self, x):
        """like step, also when the addition happens on some iterations only"""
        s = self.step(x)
        if s is not None:
            return s
        ind = self.induction(x)
        if ind is None:
            return None
        me = ("i", x.i)
        vals, seen, work = set(), set(), [ind[1]]
        body = self.loops[x.b]
        while work:
            v = strip(self.f, work.pop())
            if v in seen:
                continue
            seen.add(v)
            y = self.f.get(v)
            if v != me and y is not None and y.op == "phi" and y.b in body:
                work += [o for o, _ in y.o]
            elif v != me:
                vals.add(v)
        if len(vals) != 1:
            return None
        saved = dict(self.memo)
        self.memo[me] = atom(me)
        p = self.of(next(iter(vals)))
        self.memo.clear(); self.memo.update(saved)
        if p.get((me,)) != 1:
            return None
        q = padd(p, atom(me), -1)
        return None if any(me in k for k in q) else q

    def trip(self, h):
        """number of iterations of the loop with header h (exit only in the header by i < N, i from 0 step 1), or None"""
        f = self.f
        t = f.blocks[h][-1]
        body = self.loops[h]
        if t.op != "br" or not t.o:
            return None
        for b in body:
            if b != h and any(s not in body for s in f.succ[b]):
                return None
        k, pol = ir.cond_key(f, t.o[0])
        if len(k) != 3 or k[1] not in ("slt", "eq"):
            return None
        stay = [s for s in t.succ if s in body]
        if len(stay) != 1:
            return None
        val = (t.succ.index(stay[0]) == 0) == pol
        if (k[1] == "slt") != val:
            return None
        i = f.get(k[0])
        if i is None or i.op != "phi" or i.b != h:
            return None
        ind = self.induction(i)
        if ind is None or ind[0] != ("c", 0) or self.step(i) != const(1):
            return None
        return self.of(k[2])

    def loop_value(self, x, depth):
        """value of an accumulating header phi after the loop, when it is 0 + step per iteration"""
        return None

    def after_loop(self, v):
        """value v seen after the loop that defines it: replaces header phis by init + step * trip"""
        f = self.f
        x = f.get(canon(f, v))
        if x is not None and x.op == "phi" and x.b in self.loops:
            ind = self.induction(x)
            st = self.step(x)
            tr = self.trip(x.b)
            if ind is not None and st is not None and tr is not None and self.invariant(st, x.b):
                return padd(self.of(ind[0]), pmul(st, tr))
        return self.of(v)

    def invariant(self, p, h):
        body = self.loops[h]
        for k in p:
            for a in k:
                if isinstance(a, tuple) and a and a[0] == "i":
                    y = self.f.get(a)
                    if y is not None and y.b in body:
                        return False
                elif isinstance(a, tuple) and a and a[0] == "m":
                    y = self.f.ins.get(a[2])
                    if y is not None and y.b in body:
                        return False
        return True


def show(p, name=str):
    if not p:
        return "0"
    out = []
    for k in sorted(p, key=repr):
        t = "*".join(name(a) for a in k)
        c = p[k]
        out.append(t if c == 1 and k else ("%d" % c if not k else "%d*%s" % (c, t)))
    return " + ".join(out)
