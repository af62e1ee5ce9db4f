"""Buffers and requests of nonblocking communication."""
import ir, summ, own
from ir import strip, canon, expr, show
from walk import walk, STOP
from own import Undecided, base_of
RULES = {
    "kept": "the request of every nonblocking operation is completed, or recorded in the request list handed to the caller, before it is overwritten or the routine returns",
    "buffer": "the buffer of a nonblocking operation is neither released, reused nor left on the stack before the operation completes; it is recorded for release unless the routine releases it after completion",
    "room": "request and pointer lists have room for every entry recorded in them",
    "wait": "the owner of a request list waits for all requests before it drops them, releases the buffers or returns",
    "once": "the owner of a pointer list releases its buffers, exactly once",
}
EXPLAIN = ("Every nonblocking operation is followed on all paths (condition-correlated) together with the offset of each counter from its value at "
           "entry, so the slot of each recorded request/buffer is known; helpers are summarised. For owners of the lists a typestate "
           "(idle / pending, empty / held / released) is followed on all paths, with the tests of the request count honoured.")
ASSUME = ["a request list is only grown by its own routines: its capacity is zero or at least the smallest initial capacity used",
          "MPI implementations may defer reading a send buffer until the send is waited for"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers"]
MIN = {"kept": 10, "buffer": 10, "room": 10, "wait": 8, "once": 5}
START = {"MPI_Isend": 6, "MPI_Issend": 6, "MPI_Ibsend": 6, "MPI_Irsend": 6, "MPI_Irecv": 6}
WAIT1 = {"MPI_Wait": 0, "MPI_Test": 0}
WAITN = {"MPI_Waitall": (0, 1), "MPI_Testall": (0, 1)}
WRITES = {"memset": (0,), "memcpy": (0,), "memmove": (0,), "llvm.memcpy": (0,), "llvm.memset": (0,), "llvm.memmove": (0,), "strcpy": (0,), "strncpy": (0,), "sprintf": (0,),
          "MPI_Recv": (0,), "MPI_Irecv": (0,), "MPI_Bcast": (0,), "fread": (0,), "strcat": (0,), "snprintf": (0,)}


def locof(f, a):
    """identity of the memory cell at address a: parameter, local, or None"""
    a = strip(f, a)
    if a[0] == "a":
        return a
    x = f.get(a)
    if x is not None and x.op == "alloca":
        return a
    return None


def linear(f, v, depth=12):
    """v as {load instr id: coef} + const, or None"""
    v = strip(f, v)
    if v[0] == "c":
        return {}, v[1]
    x = f.get(v)
    if x is None or depth == 0:
        return ({v: 1}, 0)
    if x.op in ("add", "sub"):
        a, b = linear(f, x.o[0], depth - 1), linear(f, x.o[1], depth - 1)
        s = 1 if x.op == "add" else -1
        d = dict(a[0])
        for k, c in b[0].items():
            d[k] = d.get(k, 0) + s * c
        return {k: c for k, c in d.items() if c}, a[1] + s * b[1]
    if x.op in ("mul", "shl"):
        a, b = linear(f, x.o[0], depth - 1), linear(f, x.o[1], depth - 1)
        if x.op == "shl":
            if b[0]:
                return ({v: 1}, 0)
            b = ({}, 1 << b[1])
        if not b[0]:
            return {k: c * b[1] for k, c in a[0].items()}, a[1] * b[1]
        if not a[0]:
            return {k: c * a[1] for k, c in b[0].items()}, b[1] * a[1]
    return ({v: 1}, 0)


def slot_addr(f, a):
    """address a as (pointer cell X, index value) when a = &(*X)[index]"""
    a = strip(f, a)
    x = f.get(a)
    if x is None:
        return None
    if x.op == "getelementptr" and len(x.path) == 1 and x.path[0][0] == "x":
        b = f.get(strip(f, x.o[0]))
        if b is not None and b.op == "load":
            X = locof(f, b.o[0])
            if X is not None:
                return X, x.path[0][1]
    return None


class Helper:
    """summary of a helper that records a value: fn(.., value or &value, .., numbers ..)"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def of(self, fn, i):
        """parameter i of fn (the value, or the address of it) is stored in slot [*n] of *X and n incremented, on all paths:
        returns (X param, n param) or None"""
        k = (fn, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        f = self.P.funcs.get(fn)
        if f is None:
            return None
        vals = {("a", i)}
        for u in f.uses.get(("a", i), ()):
            if u.op == "load" and strip(f, u.o[0]) == ("a", i):
                vals.add(("i", u.i))
        for x in f.instrs():
            if x.op == "store" and strip(f, x.o[0]) in vals:
                s = slot_addr(f, x.o[1])
                if s and s[0][0] == "a":
                    l, c = linear(f, s[1])
                    if len(l) == 1 and c == 0:
                        ld = f.get(next(iter(l)))
                        if ld is not None and ld.op == "load" and locof(f, ld.o[0]) and locof(f, ld.o[0])[0] == "a":
                            n = locof(f, ld.o[0])
                            # increment on all paths to a return after the store
                            inc = [y for y in f.instrs() if y.op == "store" and locof(f, y.o[1]) == n and linear(f, y.o[0])[1] == 1]
                            if inc and all(x.b in f.dom[r.b] and any(y.b in f.dom[r.b] for y in inc) for r in f.rets()):
                                self.memo[k] = (s[0], n)
        return self.memo[k]


class Growers:
    """helpers that make room: fn(max cell, count cell, pointer cell, ...) are not modelled; a call given the address of the capacity clears the limit"""


def writes_arg(P, fn, i, memo):
    if fn in WRITES:
        return i in WRITES[fn]
    f = P.funcs.get(fn)
    if f is None:
        return False
    k = (fn, i)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = False
    for x in f.instrs():
        if x.op == "store" and base_of(f, x.o[1]) == ("a", i):
            r = True
        elif x.op == "call":
            for j, a in enumerate(x.o):
                if base_of(f, a) == ("a", i) and any(writes_arg(P, t, j, memo) for t in P.targets(x)):
                    r = True
    memo[k] = r
    return r


def wname(c):
    return c if c is None or not c.startswith("llvm.") else ".".join(c.split(".")[:2])


def init_caps(P, names):
    """smallest initial capacity stored"""
    m = []
    for n in names:
        f = P.funcs[n]
        for x in f.instrs():
            if x.op == "store" and x.o[0][0] == "c" and x.o[0][1] > 4 and locof(f, x.o[1]) and locof(f, x.o[1])[0] == "a" and x.at == "i32":
                m.append(x.o[0][1])
    return min(m) if m else 10


def starter(P, f, R, H, eff, memo, M0):
    """follow the nonblocking operations started in f; returns (reqcell, countcell, ptrcell, ptrcount) parameters used"""
    roles = set()
    starts = {x.i: x for x in f.instrs() if x.op == "call" and x.callee in START}
    bufs = {}
    for i, x in starts.items():
        bufs[i] = frozenset(o2 for o in summ.origins(f, x.o[0]) for o2 in deep(f, o))
    # cells used as counters / capacities: any i32 cell that is loaded
    tagged = {}
    for x in f.instrs():
        if x.op == "load":
            l = locof(f, x.o[0])
            if l is not None:
                tagged[x.i] = l
    bad = {}

    def report(rule, key, where, msg):
        bad.setdefault((rule, key, where), msg)

    # state: (pend, rq, off, tags, limits, filled)
    #  pend  frozenset of (op, slot or None, tracked slot or None); slot = (X, n, epoch, offset)
    #  rq    frozenset of (alloca, op)
    #  off   frozenset of (n, epoch, offset); tags frozenset of (load, epoch, offset)
    #  lim   frozenset of (X or ('m',max), ...) see below
    D = lambda fs: {t[0]: t[1:] for t in fs}
    F = lambda d: frozenset((k,) + tuple(v) for k, v in d.items())

    def offs(st, l):
        return D(st[2]).get(l, ("e", 0))

    def lin_slot(st, ix):
        l, c = linear(f, ix)
        if len(l) == 1:
            k, co = next(iter(l.items()))
            if co == 1 and k[0] == "i" and k[1] in tagged:
                t = D(st[3]).get(k[1])
                if t:
                    return tagged[k[1]], t[0], t[1] + c
        return None

    def record(x, st, s, what, opset):
        """a value is stored in slot s=(X, idx)"""
        ls = lin_slot(st, s[1])
        if ls is None:
            return st
        n, ep, o = ls
        slot = (s[0], n, ep, o)
        roles.add((what, s[0], n))
        pend = set()
        for (op, a, b) in st[0]:
            if what == "req" and a == slot and op not in opset:
                report("kept", "%s|%s" % (f.name, starts[op].callee), starts[op].loc, "the request of this %s is overwritten in the request list before it completes" % starts[op].callee)
            if what == "buf" and b == slot and op not in opset:
                report("buffer", "%s|%s" % (f.name, starts[op].callee), starts[op].loc, "the buffer of this %s is overwritten in the list of buffers to release" % starts[op].callee)
            if op in opset:
                if what == "req":
                    a = slot
                else:
                    b = slot
            pend.add((op, a, b))
        # room
        lim = D(st[4]).get(("n", n))
        R_key = "%s|%s" % (f.name, cell(f, s[0]))
        ok = lim is not None and lim[0] == ep and o < lim[1]
        checked.add((x.i, "room"))
        if not ok:
            report("room", R_key, x.loc, "%s stores an entry in %s without having made room for it on some path" % (f.name, cell(f, s[0])))
        return (frozenset(pend),) + st[1:]

    checked = set()

    def step(x, st):
        op = x.op
        if op == "load" and x.i in tagged:
            t = D(st[3])
            t[x.i] = offs(st, tagged[x.i])
            st = st[:3] + (F(t),) + st[4:]
            return st
        if op == "load" and st[0]:
            b = base_of(f, x.o[0])
            for (o, a, t) in st[0]:
                if starts[o].callee == "MPI_Irecv" and b in bufs[o]:
                    report("buffer", "%s|MPI_Irecv" % f.name, x.loc, "the receive buffer is read before the receive of line %d has completed" % starts[o].line)
        if op == "store":
            v = strip(f, x.o[0])
            l = locof(f, x.o[1])
            # request variable
            if l is not None and x.at != "ptr":
                d = D(st[2])
                ln, c = linear(f, x.o[0])
                if len(ln) == 1 and list(ln.values()) == [1] and next(iter(ln))[0] == "i" and next(iter(ln))[1] in tagged and tagged[next(iter(ln))[1]] == l:
                    t = D(st[3]).get(next(iter(ln))[1])
                    if t:
                        d[l] = (t[0], t[1] + c)
                elif not ln:
                    d[l] = ("z", c) if c == 0 else ("k%d" % c, 0)
                else:
                    d[l] = ("s%d" % x.i, 0)
                st = st[:2] + (F(d),) + st[3:]
                # capacity store
                lim = D(st[4])
                for (m, X, n) in caps:
                    if m == l:
                        lim.pop(("n", n), None)
                        if not ln:
                            lim[("m", m)] = ("z", c)
                        else:
                            k = [kk for kk in ln if kk[0] == "i" and kk[1] in tagged and tagged[kk[1]] == m]
                            cf = ln[k[0]] if k else None
                            if cf is not None and len(ln) == 1 and cf >= 1:
                                o = offs(st, n)
                                lim[("m", m)] = (o[0], o[1] + (cf - 1) * M0 + c)
                            else:
                                o = offs(st, n)
                                lim[("m", m)] = (o[0], o[1] + M0)
                        st = st[:4] + (F(lim),) + st[5:]
                return st
            s = slot_addr(f, x.o[1])
            if s is not None:
                # a request or a buffer recorded
                y = f.get(v)
                ops_ = set()
                if y is not None and y.op == "load":
                    q = locof(f, y.o[0])
                    ops_ = {o for (a, o) in st[1] if a == q}
                if ops_:
                    return record(x, st, s, "req", ops_)
                orig = {o2 for o in summ.origins(f, v) for o2 in deep(f, o)}
                ops_ = {o for (o, a, t) in st[0] if orig & bufs[o]}
                if x.at == "ptr" and s[0][0] == "a":
                    return record(x, st, s, "buf", ops_)
                return st
            if l is not None and x.at == "ptr":
                # *X = malloc(max*size)
                y = f.get(v)
                if y is not None and y.op == "call" and y.callee in ("malloc", "realloc", "calloc"):
                    szv = linear(f, y.o[-1])
                    for (m, X, n) in caps:
                        if X == l:
                            lim = D(st[4])
                            ks = [k for k in szv[0] if k[0] == "i" and k[1] in tagged and tagged[k[1]] == m]
                            mt = D(st[3]).get(ks[0][1]) if ks else None
                            fresh = mt is not None and mt == offs(st, m)
                            if ks and szv[0][ks[0]] >= 8 and szv[1] >= 0 and fresh and ("m", m) in lim:
                                lim[("n", n)] = lim[("m", m)]
                            elif not szv[0]:
                                lim[("n", n)] = ("z", szv[1] // 8)
                            st = st[:4] + (F(lim),) + st[5:]
                return st
            if st[0]:
                b = base_of(f, x.o[1])
                for (o, a, t) in st[0]:
                    if b in bufs[o]:
                        report("buffer", "%s|%s" % (f.name, starts[o].callee), x.loc, "the buffer of the %s at line %d is modified before the operation has completed" % (starts[o].callee, starts[o].line))
            return st
        if op == "call":
            c = x.callee
            if c in START:
                q = strip(f, x.o[START[c]])
                pend = set(st[0])
                pend = {t for t in pend if t[0] != x.i}
                for (o, a, t) in st[0]:
                    if o == x.i and a is None:
                        report("kept", "%s|%s" % (f.name, c), x.loc, "started again while the previous operation of this statement is neither completed nor recorded")
                    if c == "MPI_Irecv" and bufs[o] & bufs[x.i] and o != x.i:
                        report("buffer", "%s|%s" % (f.name, c), x.loc, "receives into a buffer that the operation at line %d still uses" % starts[o].line)
                rq = set(st[1])
                s = slot_addr(f, q)
                l = locof(f, q)
                slot = None
                for (a, o) in list(rq):
                    if l is not None and a == l and l[0] == "i":
                        for (p, sl, t) in st[0]:
                            if p == o and sl is None and p != x.i:
                                report("kept", "%s|%s" % (f.name, starts[o].callee), starts[o].loc, "the request of this %s is overwritten by the operation at line %d before it is recorded" % (starts[o].callee, x.line))
                rq = {(a, o) for (a, o) in rq if a != l}
                pend.add((x.i, None, None))
                if l is not None:
                    rq.add((l, x.i))
                st = (frozenset(pend), frozenset(rq)) + st[2:]
                if s is not None:
                    st = record(x, st, s, "req", {x.i})
                elif l is None:
                    # an element of an array of requests that belongs to this routine
                    b = base_of(f, q)
                    pend = {t for t in st[0] if t[0] != x.i} | {(x.i, ("arr", b), None)}
                    st = (frozenset(pend),) + st[1:]
                return st
            if c in WAIT1:
                l = locof(f, x.o[0])
                gone = {o for (a, o) in st[1] if a == l}
                return (frozenset(t for t in st[0] if t[0] not in gone),) + st[1:]
            if c in WAITN:
                y = f.get(strip(f, x.o[1]))
                X = locof(f, y.o[0]) if y is not None and y.op == "load" else None
                b = base_of(f, x.o[1])
                gone = {t[0] for t in st[0] if t[1] and t[1][0] == X and X is not None} | {o for (a, o) in st[1] if a == b} | \
                    {t[0] for t in st[0] if t[1] == ("arr", b)}
                return (frozenset(t for t in st[0] if t[0] not in gone),) + st[1:]
            for ai, a in enumerate(x.o):
                sa = strip(f, a)
                # helper recording the request or the buffer
                ops_r = {o for (q, o) in st[1] if q == sa and sa[0] == "i"}
                y = f.get(sa)
                if y is not None and y.op == "load":
                    ops_r |= {o for (q, o) in st[1] if q == locof(f, y.o[0])}
                orig = {o2 for o in summ.origins(f, a) for o2 in deep(f, o)} if st[0] else set()
                ops_b = {o for (o, q, t) in st[0] if orig & bufs[o]}
                for t in P.targets(x):
                    h = H.of(t, ai)
                    if h is not None and (ops_r or ops_b):
                        X, n = locof(f, x.o[h[0][1]]), locof(f, x.o[h[1][1]])
                        if X is not None and n is not None:
                            o = offs(st, n)
                            d = D(st[2]); d[n] = (o[0], o[1] + 1)
                            slot = (X, n, o[0], o[1])
                            pend = {(p, slot if p in ops_r else q, slot if p in ops_b and p not in ops_r else tr) for (p, q, tr) in st[0]}
                            roles.add(("req" if ops_r else "buf", X, n))
                            st = (frozenset(pend), st[1], F(d)) + st[3:]
                if ops_b:
                    e = eff.at(x, ai)
                    for o in ops_b:
                        if e == "release" or c == "realloc":
                            report("buffer", "%s|%s" % (f.name, starts[o].callee), x.loc, "the buffer of the %s at line %d is released before the operation has completed" % (starts[o].callee, starts[o].line))
                        elif writes_arg(P, wname(c) or "", ai, memo) and c not in START:
                            report("buffer", "%s|%s" % (f.name, starts[o].callee), x.loc, "the buffer of the %s at line %d is overwritten by %s before the operation has completed" % (starts[o].callee, starts[o].line, c))
            # a call given the address of a counter may change it
            d = D(st[2]); lim = D(st[4]); ch = False
            for a in x.o:
                l = locof(f, a)
                if l is not None and l in counters and P.targets(x) and not any(H.of(t, i) for t in P.targets(x) for i in range(len(x.o))) and any(t in P.funcs for t in P.targets(x)):
                    d[l] = ("f%d" % x.i, 0); lim.pop(("n", l), None); ch = True
                    for (m, X, n) in caps:
                        # a helper that makes room
                        if any(locof(f, q) == m for q in x.o):
                            lim[("n", n)] = (d.get(n, ("e", 0))[0], d.get(n, ("e", 0))[1] + 1000)
            if ch:
                st = st[:2] + (F(d), st[3], F(lim))
            return st
        if op == "ret":
            d = D(st[2])
            for (o, a, t) in st[0]:
                s = starts[o]
                key = "%s|%s" % (f.name, s.callee)
                if a is None or a[0] == "arr":
                    report("kept", key, s.loc, "the request of this %s is neither completed nor recorded when %s returns" % (s.callee, f.name))
                else:
                    cur = d.get(a[1], ("e", 0))
                    if a[2] != cur[0] or a[3] >= cur[1]:
                        report("kept", key, s.loc, "the request of this %s is recorded outside the counted part of the request list when %s returns" % (s.callee, f.name))
                k = base_kind(f, bufs[o])
                if k == "stack":
                    report("buffer", key, s.loc, "the buffer of this %s is a local variable of %s, which returns before the operation completes" % (s.callee, f.name))
                elif k == "heap":
                    if t is None:
                        report("buffer", key, s.loc, "the buffer of this %s is not recorded for release when %s returns" % (s.callee, f.name))
                    else:
                        cur = d.get(t[1], ("e", 0))
                        if t[2] != cur[0] or t[3] >= cur[1]:
                            report("buffer", key, s.loc, "the buffer of this %s is recorded outside the counted part of the list of buffers to release" % s.callee)
            return STOP
        return st

    # capacity cells: (max, X, n) from growth: *X = (re)alloc(load(max)*8) ; X[load n]
    counters = set()
    ncell = {}
    for x in f.instrs():
        if x.op == "store" or (x.op == "call" and x.callee in START):
            s = slot_addr(f, x.o[1] if x.op == "store" else x.o[START[x.callee]])
            if s is not None:
                l, c = linear(f, s[1])
                for k in l:
                    if k[0] == "i" and k[1] in tagged and (tagged[k[1]][0] == "a" or tagged[k[1]] in f.uses):
                        ncell[s[0]] = tagged[k[1]]
    caps = set()
    for x in f.instrs():
        if x.op == "store" and locof(f, x.o[1]) in ncell:
            y = f.get(strip(f, x.o[0]))
            if y is not None and y.op == "call" and y.callee in ("malloc", "realloc"):
                for k in linear(f, y.o[-1])[0]:
                    if k[0] == "i" and k[1] in tagged:
                        caps.add((tagged[k[1]], locof(f, x.o[1]), ncell[locof(f, x.o[1])]))
    # a capacity cell given to a helper
    counters = set(ncell.values())

    def edge(k, val, st):
        if len(k) == 3 and k[1] in ("slt", "sgt") and caps:
            la, lb = linear(f, k[0]), linear(f, k[2])
            d = dict(la[0])
            for q, c in lb[0].items():
                d[q] = d.get(q, 0) - c
            c0 = la[1] - lb[1]
            d = {q: c for q, c in d.items() if c}
            # d + c0 < 0 (slt) or > 0
            sg = 1
            if k[1] == "sgt":
                sg = -1
            d = {q: c * sg for q, c in d.items()}; c0 *= sg
            # now: (d + c0 < 0) == val
            ml = [q for q in d if q[0] == "i" and q[1] in tagged and tagged[q[1]] in {m for m, _, _ in caps}]
            nl = [q for q in d if q[0] == "i" and q[1] in tagged and tagged[q[1]] in counters]
            if len(d) == 2 and len(ml) == 1 and len(nl) == 1:
                m = tagged[ml[0][1]]; n = tagged[nl[0][1]]
                t = D(st[3]).get(nl[0][1])
                room = None
                if d[ml[0]] == 1 and d[nl[0]] == -1 and not val:
                    room = -c0          # max - n + c0 >= 0
                elif d[ml[0]] == -1 and d[nl[0]] == 1 and val:
                    room = c0 + 1       # n - max + c0 < 0  -> max - n > c0
                if room is not None and t:
                    lim = D(st[4])
                    lim[("n", n)] = (t[0], t[1] + room)
                    lim[("m", m)] = (t[0], t[1] + room)
                    st = st[:4] + (F(lim),)
        return st
    if not starts and not any(H.of(t, i) for x in f.instrs() if x.op == "call" for t in P.targets(x) for i in range(len(x.o))):
        return roles
    st0 = (frozenset(), frozenset(), frozenset(), frozenset(), frozenset())
    try:
        walk(f, (0, 0), st0, step, edge=edge)
        dec = True
    except Undecided:
        bad.clear()
        try:
            walk(f, (0, 0), st0, step, edge=edge, facts=False)
            dec = not bad
        except Undecided:
            dec = False
    if not dec:
        R.undec("kept", f.name)
        return roles
    for x in starts.values():
        R.ob("kept", f.file, sample="%s: %s at line %d" % (f.name, x.callee, x.line))
        R.ob("buffer", f.file)
    for _ in checked:
        R.ob("room", f.file)
    for (rule, key, where), msg in bad.items():
        R.bad(rule, key, where, msg)
    return roles


def cell(f, X):
    if X[0] == "a":
        return "*" + f.args[X[1]]
    x = f.get(X)
    return x.v or "a local list"


def deep(f, o, seen=None):
    """base objects of a buffer pointer"""
    b = base_of(f, o)
    if b != o:
        out = set()
        for q in summ.origins(f, b):
            out |= deep(f, q)
        return out
    return {o}


def base_kind(f, bs):
    ks = set()
    for b in bs:
        x = f.get(b)
        if x is not None and x.op == "alloca":
            ks.add("stack")
        elif x is not None and x.op == "call":
            ks.add("heap")
        else:
            ks.add("arg")
    for k in ("stack", "heap"):
        if k in ks:
            return k
    return "arg"


# ------------------------------------------------------------------ owners
def owner(P, f, R, adders):
    """typestate of request/pointer lists in functions that call adders"""
    sites = [x for x in f.instrs() if x.op == "call" and any(t in adders for t in P.targets(x))]
    if not sites:
        return set()
    pairs = {}
    for x in sites:
        for t in P.targets(x):
            for (what, X, n) in adders.get(t, ()):
                if X[0] == "a" and n[0] == "a" and X[1] < len(x.o) and n[1] < len(x.o):
                    cx, cn = locof(f, x.o[X[1]]), locof(f, x.o[n[1]])
                    if cx is not None and cn is not None:
                        pairs.setdefault((what, cx, cn), set()).add(x.i)
    reqs = [(X, n) for (w, X, n) in pairs if w == "req"]
    ptrs = [(X, n) for (w, X, n) in pairs if w == "buf"]
    if not reqs or not ptrs:
        return set()
    LD = {}
    for x in f.instrs():
        if x.op == "load" and locof(f, x.o[0]) is not None:
            LD[x.i] = locof(f, x.o[0])

    def cellv(q):
        """the cell a (canonical) value was loaded from"""
        if q[0] == "m":
            return ("i", q[1])
        return LD.get(q[1]) if q[0] == "i" else None
    addsite = {x.i for x in sites}
    bad = {}
    seen = set()

    def report(rule, key, where, msg):
        bad.setdefault((rule, key, where), msg)
    RX = {X for X, n in reqs}; RN = {n for X, n in reqs}
    PX = {X for X, n in ptrs}; PN = {n for X, n in ptrs}

    def elem_free(x):
        """free of an element of a pointer list: cell or None"""
        if x.op == "call" and x.callee == "free":
            y = f.get(strip(f, x.o[0]))
            if y is not None and y.op == "load":
                s = slot_addr(f, y.o[0])
                if s is not None and s[0] in PX:
                    return s
        return None
    # release loops: header -> pointer cell
    rel = {}
    L = f.loops()
    for x in f.instrs():
        s = elem_free(x)
        if s is None:
            continue
        hs = [h for h in L if x.b in L[h]]
        if not hs:
            continue
        h = min(hs, key=lambda q: len(L[q]))
        rel[h] = s[0]
        # bounds: index starts at 0, step 1, up to the count
        ix = f.get(canon(f, s[1]))
        R.ob("once", f.file, sample="%s: release loop at line %d" % (f.name, x.line))
        ok = False
        if ix is not None and ix.op == "phi":
            init = [v for v, pb in ix.o if pb not in L[h]]
            t = f.blocks[h][-1]
            if init and all(v == ("c", 0) for v in init):
                for b in L[h]:
                    tt = f.blocks[b][-1]
                    if tt.op == "br" and tt.o and any(q not in L[h] for q in f.succ[b]):
                        k, pol = ir.cond_key(f, tt.o[0])
                        if len(k) == 3:
                            l = linear(f, k[2])
                            if l[1] == 0 and len(l[0]) == 1:
                                q = next(iter(l[0]))
                                if cellv(q) in PN and k[1] in ("slt", "eq"):
                                    ok = True
                            l = linear(f, k[0])
        elif ix is not None:
            ok = True     # other loop forms are not judged here
        if ix is not None and ix.op == "phi" and not ok:
            # count down: init = count-1 ... 0
            init = [v for v, pb in ix.o if pb not in L[h]]
            for v in init:
                l = linear(f, v)
                if len(l[0]) == 1 and cellv(next(iter(l[0]))) in PN:
                    ok = True
        if not ok:
            report("once", "%s|range" % f.name, x.loc, "%s does not release every recorded buffer: the loop does not run over the counted entries" % f.name)

    # state: (pend of first req list, ptr state)
    def enter(b, prev, st):
        if b in rel:
            if st[0]:
                report("wait", "%s|release" % f.name, "%s:%d" % (f.file, f.blocks[b][-1].line), "%s releases the recorded buffers although requests may still be pending" % f.name)
            if prev not in L[b]:
                if st[1] == "released":
                    report("once", "%s|twice" % f.name, "%s:%d" % (f.file, f.blocks[b][-1].line), "%s releases recorded buffers a second time: the count was not reset" % f.name)
                return (st[0], "released")
        return st

    def step(x, st):
        p, q = st
        if x.op == "call":
            if x.i in addsite:
                if q == "released":
                    report("once", "%s|reset" % f.name, x.loc, "%s records further buffers without having reset the count of released ones" % f.name)
                return (True, "held")
            if x.callee in WAITN:
                l = linear(f, x.o[0])
                y = f.get(strip(f, x.o[1]))
                X = LD.get(y.i) if y is not None and y.op == "load" else None
                full = l[1] == 0 and len(l[0]) == 1 and list(l[0].values()) == [1] and cellv(next(iter(l[0]))) in RN
                seen.add(x.i)
                if X in RX:
                    if not full:
                        report("wait", "%s|count" % f.name, x.loc, "%s waits for another number of requests than are recorded" % f.name)
                    return (False, q)
                return st
            if x.callee == "free":
                y = f.get(strip(f, x.o[0]))
                if y is not None and y.op == "load" and LD.get(y.i) in RX and p:
                    report("wait", "%s|free" % f.name, x.loc, "%s releases the request list although requests may still be pending" % f.name)
            # a helper that is given the lists and waits / releases
            for t in P.targets(x):
                w = helper_wait(P, t)
                if w:
                    return (False, "empty" if w == 2 else q)
        elif x.op == "store":
            l = locof(f, x.o[1])
            if l in RN and x.o[0] == ("c", 0):
                if p:
                    report("wait", "%s|drop" % f.name, x.loc, "%s drops requests that may still be pending" % f.name)
                return st
            if l in PN and x.o[0] == ("c", 0):
                if q == "held":
                    report("once", "%s|lost" % f.name, x.loc, "%s forgets recorded buffers without releasing them" % f.name)
                return (p, "empty")
        elif x.op == "ret":
            mine = any(X[0] == "i" for X in RX)
            if mine:
                if p:
                    report("wait", "%s|return" % f.name, x.loc, "%s returns although requests may still be pending" % f.name)
                if q == "held" and any(X[0] == "i" for X in PX):
                    report("once", "%s|lost" % f.name, x.loc, "%s returns without releasing the recorded buffers" % f.name)
            elif q == "released":
                report("once", "%s|reset" % f.name, x.loc, "%s returns released buffers to its caller as still recorded" % f.name)
            exits.add(st)
            return STOP
        return st
    exits = set()

    def edge(k, val, st):
        if len(k) == 3 and k[2][0] == "c":
            if cellv(k[0]) in RN:
                c = k[2][1]
                zero = (k[1] == "eq" and c == 0 and val) or (k[1] == "sgt" and c <= 0 and not val) or (k[1] == "slt" and c <= 1 and val)
                if zero:
                    return (False, st[1] if st[1] != "held" else "held0")
        return st
    try:
        walk(f, (0, 0), (False, "empty"), step, edge=edge, enter=enter, facts=False)
    except Undecided:
        R.undec("wait", f.name)
        return set()
    for x in sites:
        R.ob("wait", f.file, sample="%s: %s at line %d" % (f.name, P.targets(x)[0], x.line))
        R.ob("once", f.file)
    for (rule, key, where), msg in bad.items():
        R.bad(rule, key, where, msg)
    out = set()
    for (w, X, n) in pairs:
        if X[0] == "a" and n[0] == "a":
            out.add((w, X, n))
    return out


_hw = {}


def helper_wait(P, t):
    """0 no; 1 waits for a request list given by parameters on all paths; 2 also releases the buffers"""
    if t in _hw:
        return _hw[t]
    _hw[t] = 0
    f = P.funcs.get(t)
    if f is None or not f.internal:
        return 0
    w = [x for x in f.instrs() if x.op == "call" and x.callee in WAITN and base_of(f, x.o[1])[0] in ("a", "i")]
    ok = [x for x in w if all(x.b in f.dom[r.b] for r in f.rets())]
    if not ok:
        # guarded by the count: if (*numreq) wait
        ok = w if w and not any(x.op == "call" and x.callee in START for x in f.instrs()) else []
    if ok:
        _hw[t] = 2 if any(x.op == "call" and x.callee == "free" for x in f.instrs()) else 1
    return _hw[t]


def run(P, R):
    _hw.clear()
    H = Helper(P)
    eff = summ.ArgEffects(P, {("free", 0), ("realloc", 0)}, builtin={})
    memo = {}
    st = [f for f in P.funcs.values() if any(x.op == "call" and x.callee in START for x in f.instrs())]
    M0 = init_caps(P, [f.name for f in st])
    R.note("smallest initial capacity %d" % M0)
    adders = {}
    for f in st:
        roles = starter(P, f, R, H, eff, memo, M0)
        rs = {r for r in roles if r[1][0] == "a" and r[2][0] == "a"}
        if rs:
            adders[f.name] = rs
    # owners, bottom up
    done = set()
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.name in done or f.name in adders:
                continue
            if any(x.op == "call" and any(t in adders for t in P.targets(x)) for x in f.instrs()):
                done.add(f.name)
                out = owner(P, f, R, adders)
                # dispatchers that pass everything on are adders themselves
                if out:
                    adders[f.name] = out
                ch = True
