"""Arrays are large enough for what is stored in them; message buffers have the declared type."""
import ir, summ
import C15
from ir import strip, canon, cond_key
from poly import Poly, padd, pmul, const, isconst, cval
import poly
RULES = {
    "extent": "an array (local or allocated in the same function) is not indexed beyond the size it was given: constant indices, and indices that run to a loop bound",
    "mpi-type": "the elements of a message buffer have the C type named by the MPI datatype",
    "mpi-extent": "a message buffer allocated in the routine has room for the number of values passed to MPI",
    "record": "an array allocated for K values per item is written in records of at most K values",
    "string": "text copied, appended or formatted into a block (of the length of its parts), a character array, or with a length limit, fits with its end mark",
    "grow-capacity": "an array that is enlarged in a loop has a variable that equals (or is less than) the number of elements it has room for, on every path",
    "grow-guard": "an element is appended to such an array only after a test against that variable that ensures room for it",
}
EXPLAIN = ("Symbolic polynomials for allocation sizes, loop bounds and message counts over SSA values; element types from the typed address computations of each "
           "base pointer, followed through phis, casts and parameters.")
ASSUME = []
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"string": 180, "extent": 700, "record": 80, "mpi-type": 90, "mpi-extent": 80, "grow-capacity": 20, "grow-guard": 25}
T = {}


def mpi_type(v):
    if v[0] == "g" and v[1].startswith("ompi_mpi_"):
        return {"ompi_mpi_int": ("i32", 4), "ompi_mpi_double": ("double", 8), "ompi_mpi_char": ("i8", 1), "ompi_mpi_byte": ("?", 1), "ompi_mpi_unsigned": ("i32", 4),
                "ompi_mpi_float": ("float", 4), "ompi_mpi_long": ("i64", 8), "ompi_mpi_short": ("i16", 2), "ompi_mpi_unsigned_long": ("i64", 8)}.get(v[1])
    if v[0] == "gc":
        return mpi_type(v[1])
    return None


# (buffer, count, type, scaled by communicator size)
SIG = {"MPI_Send": [(0, 1, 2, 0)], "MPI_Recv": [(0, 1, 2, 0)], "MPI_Isend": [(0, 1, 2, 0)], "MPI_Irecv": [(0, 1, 2, 0)], "MPI_Ssend": [(0, 1, 2, 0)],
       "MPI_Bcast": [(0, 1, 2, 0)], "MPI_Allgather": [(0, 1, 2, 0), (3, 4, 5, 1)], "MPI_Gather": [(0, 1, 2, 0), (3, 4, 5, 1)],
       "MPI_Scatter": [(0, 1, 2, 1), (3, 4, 5, 0)], "MPI_Allreduce": [(0, 2, 3, 0), (1, 2, 3, 0)], "MPI_Reduce": [(0, 2, 3, 0), (1, 2, 3, 0)]}


class Arrays:
    def __init__(self, f):
        self.f = f
        self.po = Poly(f)

    def roots(self, v):
        """(base object instruction, offset path constant?) of pointer v"""
        f = self.f
        out = set()
        for o in summ.origins(f, canon(f, v)):
            out.add(o)
        return out

    def flow(self, base):
        """SSA names that point to the start of base, and accesses through them: [(ins, path elements)]"""
        f = self.f
        names, work = {("i", base.i)}, [("i", base.i)]
        gep = []
        while work:
            v = work.pop()
            for x in f.uses.get(v, ()):
                if x.op in ir.CAST or x.op in ("phi", "select") and all(
                        o == ("i", base.i) or o[0] in ("null", "undef", "u") for o in summ.origins(f, ("i", x.i))):
                    y = ("i", x.i)
                    if y not in names:
                        names.add(y); work.append(y)
                elif x.op == "getelementptr" and x.o[0] == v:
                    gep.append(x)
                elif x.op == "store" and x.o[0] == v:
                    # held in an address-taken local: canonical loads
                    pass
        for x in f.instrs():
            if x.op == "getelementptr" and x not in gep and canon(f, x.o[0]) in names:
                gep.append(x)
        return names, gep


def bound(A, v, at):
    """polynomial that v can reach (its largest value), or None"""
    f = A.f
    p = A.po.of(v)
    if isconst(p):
        return p
    # one induction variable with positive coefficient
    out = dict(p)
    for k in list(p):
        for a in k:
            if isinstance(a, tuple) and a and a[0] == "i":
                x = f.get(a)
                if x is not None and x.op == "phi" and x.b in A.po.loops and at in A.po.loops[x.b]:
                    tr = limit(A, x, at)
                    if tr is None:
                        return None
                    if len(k) != 1 or p[k] < 0:
                        return None
                    del out[k]
                    out = padd(out, pmul(const(p[k]), padd(tr, const(1), -1)))
                elif x is not None and x.op == "phi":
                    return None
    return out


def limit(A, x, at):
    """i < limit whenever block `at` of the loop of header phi x runs"""
    f = A.f
    body = A.po.loops[x.b]
    st = A.po.step(x)
    if st != const(1):
        return None
    me = ("i", x.i)
    best = None
    for (c, s) in f.all_control_deps(at):
        if c not in body:
            continue
        t = f.blocks[c][-1]
        if t.op != "br" or not t.o:
            continue
        k, pol = cond_key(f, t.o[0])
        if len(k) != 3 or k[0] != me:
            if len(k) == 3 and k[2] == me and k[1] in ("sgt",):
                val = (t.succ.index(s) == 0) == pol
                if val:
                    return A.po.of(k[0])
            continue
        val = (t.succ.index(s) == 0) == pol
        if k[1] == "slt" and val:
            return A.po.of(k[2])
        if k[1] == "sgt" and not val:
            return padd(A.po.of(k[2]), const(1))
        if k[1] == "eq" and not val and c == x.b:
            return A.po.of(k[2])
    return None


def alloc_bytes(A, x):
    if x.op == "alloca":
        return const(x.sz) if len(x.o) < 1 or x.o[0] == ("c", 1) else pmul(const(x.sz), A.po.of(x.o[0]))
    if x.callee == "malloc":
        return A.po.of(x.o[0])
    if x.callee == "calloc":
        return pmul(A.po.of(x.o[0]), A.po.of(x.o[1]))
    return None


def too_small(need, have):
    d = padd(need, have, -1)
    return d if d and all(c > 0 for c in d.values()) else None



class Eq:
    """loads of the same location with no store to it in between count as one value"""

    def __init__(self, f):
        self.f = f
        self.stores = [x for x in f.instrs() if x.op == "store"]

    def key(self, a):
        f = self.f
        x = f.get(a) if isinstance(a, tuple) and a and a[0] in ("i",) else None
        if x is not None and x.op == "load":
            return ("ld", canon(f, x.o[0]))
        return a

    def same(self, a, b):
        f = self.f
        if a == b:
            return True
        if self.key(a) != self.key(b) or self.key(a) == a:
            return False
        x, y = f.get(a), f.get(b)
        loc = canon(f, x.o[0])
        if not f.dominates(x, y):
            x, y = y, x
        if not f.dominates(x, y):
            return False
        for s in self.stores:
            if canon(f, s.o[1]) != loc:
                continue
            # is s between x and y without passing x again
            if s.b == y.b and s.pos < y.pos and not (s.b == x.b and s.pos < x.pos and x.pos < y.pos):
                return False
            if s.b != y.b and y.b in f.reachable_from(s.b, without=(x.b,)) and (s.b == x.b and s.pos > x.pos or s.b != x.b and s.b in f.reachable_from(x.b)):
                return False
        return True

    def merge(self, p):
        """merge equal atoms of a polynomial"""
        names = []
        out = {}
        for k, c in p.items():
            m = []
            for a in k:
                for r in names:
                    if self.same(r, a):
                        m.append(r); break
                else:
                    names.append(a); m.append(a)
            m = tuple(sorted(m, key=repr))
            out[m] = out.get(m, 0) + c
            if out[m] == 0:
                del out[m]
        return out


def grow(P, f, R):
    """arrays that are enlarged with realloc"""
    rl = [x for x in f.instrs() if x.op == "call" and x.callee == "realloc"]
    if not rl:
        return
    A = Arrays(f)
    po = A.po
    comp = {}

    def find(a):
        while comp.setdefault(a, a) != a:
            a = comp[a]
        return a
    ptr, work = set(), [("i", x.i) for x in rl]
    while work:
        v = work.pop()
        for u in f.uses.get(v, ()):
            w = ("i", u.i)
            if (u.op == "phi" or u.op in ir.CAST) and w not in ptr:
                ptr.add(w); work.append(w)
    phis = sorted(p for p in ptr if f.get(p).op == "phi")
    for p in phis:
        for v, _ in f.get(p).o:
            v = strip(f, v)
            if v[0] in "ia":
                comp[find(p)] = find(v)
    for x in rl:
        v = strip(f, x.o[0])
        if v[0] in "ia":
            comp[find(("i", x.i))] = find(v)
    es = {}
    for x in f.instrs():
        if x.op == "getelementptr" and x.path and x.path[0][0] == "x":
            b = strip(f, x.o[0])
            if b in comp:
                es.setdefault(find(b), set()).add(x.path[0][2])
    S = {}
    for p in phis:
        x = f.get(p)
        S[p] = {(("i", y.i), e) for y in f.blocks[x.b] if y.op == "phi" and y.t in ("i32", "i64") for e in es.get(find(p), ())}

    def size(v):
        x = f.get(v)
        if x is not None and x.op == "call":
            if x.callee == "realloc":
                return po.of(x.o[1])
            return alloc_bytes(A, x)
        return None

    def holds(pv, cv, e, seen=()):
        pv = strip(f, pv)
        if pv[0] not in "ia":
            return True
        s = size(pv)
        if s is not None:
            return all(k >= 0 for k in padd(s, pmul(const(e), po.of(cv)), -1).values())
        if pv in S:
            cc = canon(f, cv)
            if (cc, e) in S[pv]:
                return True
            x, y = f.get(pv), f.get(cc)
            if y is None or y.b != x.b or y.op != "phi":
                return pv in seen or all(holds(v, cv, e, seen + (pv,)) for v, _ in x.o)
        return False
    ch = True
    while ch:
        ch = False
        for p in S:
            x = f.get(p)
            for (c, e) in list(S[p]):
                m = {b: v for v, b in f.get(c).o}
                if not all(holds(v, m[b], e) for v, b in x.o):
                    S[p].discard((c, e)); ch = True
    L = f.loops()
    eq = Eq(f)
    nm = lambda a: ir.show(f, ir.expr(f, a, 3)) if isinstance(a, tuple) and a[0] in ("i", "a") else "processes" if a == ("commsize",) else str(a)
    writes = {}
    for g in f.instrs():
        if g.op == "getelementptr" and g.path and g.path[0][0] == "x":
            b = strip(f, g.o[0])
            if b in comp and any(u.op == "store" and u.o[1] == ("i", g.i) for u in f.uses.get(("i", g.i), ())):
                writes.setdefault(find(b), []).append(g)
    growing = {}
    for p in S:
        x = f.get(p)
        if x.b in L and any(r.b in L[x.b] and find(("i", r.i)) == find(p) for r in rl):
            growing.setdefault(find(p), []).append(p)
    for c0, ps in sorted(growing.items()):
        lines = sorted(r.line for r in rl if find(("i", r.i)) == c0)
        mycaps = {c for p in S if find(p) == c0 for (c, e) in S[p]}
        for p in ps:
            w = [g for g in writes.get(c0, ()) if g.b in L[f.get(p).b]]
            if not w:
                continue
            R.ob("grow-capacity", f.name)
            if not S[p]:
                R.bad("grow-capacity", f.name, "%s:%d" % (f.file, lines[0]),
                      "array enlarged at line %s: no variable keeps the number of elements it has room for on every path (written at line %d)" % (
                          ",".join(map(str, lines)), w[0].line))
        for g in writes.get(c0, ()):
            if not any(g.b in L[f.get(p).b] for p in ps):
                continue
            idx = po.of(g.path[0][1])
            if isconst(idx):
                continue
            R.ob("grow-guard", f.name)
            res = []
            for blk in f.dom[g.b]:
                t = f.blocks[blk][-1]
                if t.op != "br" or not t.o:
                    continue
                k, pol = cond_key(f, t.o[0])
                if len(k) != 3:
                    continue
                a, c = po.of(k[0]), po.of(k[2])
                for (l, r, sw) in ((a, c, 0), (c, a, 1)):
                    rc = [m for m in r if len(m) == 1 and m[0] in mycaps]
                    if len(r) == 1 and rc and r[rc[0]] == 1:
                        allowed = {"eq": 0, "slt": -1 if sw else 0, "sgt": 0 if sw else -1}.get(k[1])
                        if allowed is not None:
                            res.append((t.line, eq.merge(padd(idx, l, -1)), allowed))
            if not res:
                # bounded by a loop whose limit is the requested size: decided by grow-capacity only
                if any(isinstance(a, tuple) and a[0] == "i" and f.get(a) is not None and f.get(a).op == "phi" and f.get(a).b in L and g.b in L[f.get(a).b]
                       and limit(A, f.get(a), g.b) is not None for k in idx for a in k):
                    R.undec("grow-guard", "%s:%d" % (f.file, g.line)); continue
                if isconst(idx):
                    continue
                R.bad("grow-guard", f.name, "%s:%d" % (f.file, g.line), "element %s of an array that is enlarged at line %s is written without a test of the room left" % (
                    poly.show(idx, nm), ",".join(map(str, lines))))
                continue
            dec = [(ln, cval(d), al) for ln, d, al in res if isconst(d)]
            if not dec:
                R.undec("grow-guard", "%s:%d" % (f.file, g.line))
            elif all(d > al for ln, d, al in dec):
                R.bad("grow-guard", f.name, "%s:%d" % (f.file, g.line), "element %s is written but the test at line %d only ensures room for %d fewer" % (
                    poly.show(idx, nm), dec[0][0], dec[0][1] - dec[0][2]))


def comm_size(f, x):
    """names that hold the size of the communicator in f"""
    return {a for y in f.calls("MPI_Comm_size") for a in [canon(f, y.o[1])]}


def mpi(P, f, R):
    A = sizes = None
    for x in f.calls(SIG):
        A = A or Arrays(f)
        for bi, ci, ti, scaled in SIG[x.callee]:
            ty = mpi_type(x.o[ti])
            if ty is None:
                R.undec("mpi-type", "%s:%d" % (f.file, x.line)); continue
            buf = x.o[bi]
            elem = elem_types(f, buf)
            if elem is None:
                R.undec("mpi-type", "%s:%d %s argument %d" % (f.file, x.line, x.callee, bi))
            else:
                R.ob("mpi-type", x.callee)
                if ty[0] != "?" and any(e != ty[0] for e in elem):
                    R.bad("mpi-type", "%s|%s" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s in %s names the datatype of %s but the buffer holds %s" % (
                        x.callee, f.name, ty[0], ",".join(sorted(elem))))
            cnt = bound(A, x.o[ci], x.b)
            if cnt is None:
                cnt = A.po.of(x.o[ci])
            for o in summ.origins(f, canon(f, buf)):
                b, off = base_offset(A, o, x.b)
                if b is None or off is None:
                    continue
                have = alloc_bytes(A, b) if b.op == "alloca" or b.op == "call" and b.callee in ("malloc", "calloc") else None
                if have is None:
                    continue
                R.ob("mpi-extent", x.callee)
                need = padd(off, pmul(cnt, const(ty[1])))
                if scaled:
                    if sizes is None:
                        sizes = comm_sizes(f)
                    if not any(a in sizes for k in have for a in k):
                        R.undec("mpi-extent", "%s:%d %s" % (f.file, x.line, x.callee)); continue
                    one = ("commsize",)
                    have = {}
                    for k, c in alloc_bytes(A, b).items():
                        k = tuple(sorted((one if a in sizes else a for a in k), key=str))
                        have[k] = have.get(k, 0) + c
                    need = {}
                    for k, c in pmul(cnt, const(ty[1])).items():
                        k = tuple(sorted([one if a in sizes else a for a in k] + [one], key=str))
                        need[k] = need.get(k, 0) + c
                    need = padd(need, off)
                d = too_small(need, have)
                if d:
                    nm = lambda a: ir.show(f, ir.expr(f, a, 3)) if isinstance(a, tuple) and a[0] in ("i", "a") else "processes" if a == ("commsize",) else str(a)
                    R.bad("mpi-extent", "%s|%s" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s in %s transfers %s bytes, the buffer has %s" % (
                        x.callee, f.name, poly.show(need, nm), poly.show(have, nm)))


def comm_sizes(f):
    """values that are the number of processes"""
    loc = {strip(f, x.o[1]) for x in f.calls("MPI_Comm_size")}
    out = set()
    for x in f.instrs():
        if x.op == "load" and strip(f, x.o[0]) in loc:
            out |= {("i", x.i), canon(f, ("i", x.i))}
    return out


def base_offset(A, v, at):
    f = A.f
    off = const(0)
    while True:
        x = f.get(strip(f, v))
        if x is None:
            return None, None
        if x.op == "getelementptr":
            for p in x.path:
                if p[0] != "x":
                    return None, None
                b = bound(A, p[1], at)
                if b is None:
                    return None, None
                off = padd(off, pmul(b, const(p[2])))
            v = canon(f, x.o[0])
            continue
        return x, off


SCAL = {"i32", "double", "i8", "ptr", "i64", "float", "i16"}


def elem_types(f, v):
    """types of the elements a pointer points to, from the accesses made through the same base in this function, or its declared type"""
    out = set()
    for o in summ.origins(f, canon(f, v)):
        x = f.get(o)
        while x is not None and x.op == "getelementptr":
            o = canon(f, x.o[0]); x = f.get(o)
        for o2 in summ.origins(f, o):
            t = base_types(f, o2)
            if t is None:
                return None
            out |= t
    return out or None


DECL = {"*int": "i32", "*double": "double", "*char": "i8", "*unsigned int": "i32", "*float": "float"}


def base_types(f, o):
    if o[0] in ("null", "u", "undef", "c"):
        return set()
    if o[0] == "a":
        d = str(f.dargs[o[1]])
        return {DECL[d]} if d in DECL else None
    x = f.get(o)
    if x is None:
        return None
    if x.op == "alloca":
        t = str(x.at)
        while t.startswith("["):
            t = t[t.index(" x ") + 3:-1]
        return {t} if t in SCAL else None
    # accesses
    out = set()
    names, work = {o}, [o]
    elems = []
    while work:
        v = work.pop()
        for u in f.uses.get(v, ()):
            w = ("i", u.i)
            if u.op in ir.CAST or u.op in ("phi", "select") or u.op == "getelementptr" and u.o[0] == v:
                if w not in names:
                    names.add(w); work.append(w)
            elif u.op == "load":
                out.add(u.t)
            elif u.op == "store" and u.o[1] == v:
                out.add(u.at)
    for u in f.instrs():
        if u.op == "getelementptr" and canon(f, u.o[0]) in names and ("i", u.i) not in names:
            for w in f.uses.get(("i", u.i), ()):
                if w.op == "load":
                    out.add(w.t)
                elif w.op == "store" and w.o[1] == ("i", u.i):
                    out.add(w.at)
        elif u.op in ("load", "store"):
            a = u.o[0] if u.op == "load" else u.o[1]
            if a not in names and canon(f, a) in names:
                out.add(u.t if u.op == "load" else u.at)
    if out and out <= SCAL:
        return out
    return None


def record(R, A, f, n, x, g, have):
    """room for K values per item, written in records of at most K"""
    if len(have) != 1 or len(g.path) != 1 or g.path[0][0] != "x":
        return
    (m, c), = have.items()
    if len(m) < 1 or c % g.path[0][2]:
        if m and not isconst(A.po.of(g.path[0][1])):
            R.bad("record", "%s|%s" % (n, x.v or "alloc"), "%s:%d" % (f.file, g.line), "array allocated (line %d) in units of %d bytes holds elements of %d bytes" % (x.line, c, g.path[0][2]))
        return
    K = c // g.path[0][2]
    idx = A.po.of(g.path[0][1])
    ph = [k for k in idx if k != ()]
    if len(ph) != 1 or len(ph[0]) != 1 or idx[ph[0]] != 1:
        return
    y = f.get(ph[0][0]) if ph[0][0][0] == "i" else None
    if y is None or y.op != "phi" or y.b not in A.po.loops or g.b not in A.po.loops[y.b]:
        return
    if not any(u.op == "store" and u.o[1] == ("i", g.i) for u in f.uses.get(("i", g.i), ())):
        return
    st = A.po.stride(y)
    ind = A.po.induction(y)
    if st is None or not isconst(st) or ind is None or ind[0] != ("c", 0):
        return
    R.ob("record", n)
    s, j = cval(st), cval(idx)
    if s > K or j >= K:
        R.bad("record", "%s|%s" % (n, x.v or "alloc"), "%s:%d" % (f.file, g.line), "array allocated (line %d) for %d values per item is written in records of %d" % (x.line, K, max(s, j + 1)))


def linear(f, e):
    """expression as {symbol: coefficient}, lengths of the same text being the same symbol; None if not linear"""
    if isinstance(e, tuple) and e:
        if e[0] == "c":
            return {1: e[1]}
        if e[0] in ("add", "sub") and len(e) == 3:
            a, b = linear(f, e[1]), linear(f, e[2])
            return None if a is None or b is None else plus(a, b, 1 if e[0] == "add" else -1)
        if e[0] in ("mul", "shl") and len(e) == 3:
            a, b = linear(f, e[1]), linear(f, e[2])
            if a is None or b is None:
                return None
            if e[0] == "shl":
                b = {1: 1 << b.get(1, 0)} if set(b) <= {1} and 0 <= b.get(1, 0) < 32 else None
                if b is None:
                    return None
            if set(a) <= {1}:
                a, b = b, a
            return {k: v * b.get(1, 0) for k, v in a.items()} if set(b) <= {1} else {repr(e): 1}
        if e[0] == "call" and e[1] == "strlen" and isinstance(e[2], tuple) and e[2][0] == "s":
            return {1: len(e[2][1])}
    return {repr(e): 1}


def plus(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def text(f, v, exact):
    """length of the text v: exact as symbols, or (for arrays of fixed size) at least"""
    e = ir.expr(f, v)
    if isinstance(e, tuple) and e[0] == "s":
        return {1: len(e[1])}
    return {repr(("call", "strlen", e)): 1} if exact else {}


def formatted(f, x, i, exact):
    e = ir.expr(f, x.o[i])
    if not (isinstance(e, tuple) and e[0] == "s"):
        return None if exact else {}
    n, i, s, j = {}, i + 1, e[1], 0
    while j < len(s):
        if s[j] != "%":
            n = plus(n, {1: 1}); j += 1; continue
        j += 1
        w, star = "", False
        while j < len(s) and s[j] in "-+ #0123456789.*":
            star |= s[j] == "*"
            w += s[j]; j += 1
        while j < len(s) and s[j] in "hlqjzt":
            j += 1
        if j >= len(s):
            return None if exact else n
        c = s[j]; j += 1
        if c == "%":
            n = plus(n, {1: 1}); continue
        w = w.lstrip("-+ #0").split(".")[0]
        w = int(w) if w.isdigit() and not star else 0
        if c == "s" and i < len(x.o):
            t = text(f, x.o[i], exact)
            if w and (exact or t.get(1, 0) < w):
                t = None if exact else {1: w}
        elif c == "c":
            t = {1: max(1, w)}
        elif c in "di":
            t = {1: max(11 if exact else 1, w)}
        elif c in "uxXo":
            t = {1: max(10 if exact else 1, w)}
        else:
            t = None if exact else {1: max(1, w)}
        i += 1
        if t is None:
            return None
        n = plus(n, t)
    return n


_fitted = {}


def fitted(P):
    """fields whose blocks are allocated to fit a text: malloc(strlen(...) + ...)"""
    if P not in _fitted:
        C = C15.Cells(P)
        r = {}
        for f in P.funcs.values():
            for x in f.instrs():
                if x.op == "store" and x.at == "ptr":
                    y = f.get(canon(f, x.o[0]))
                    if y is None or y.op != "call" or y.callee != "malloc":
                        continue
                    q = C.ref(f, x.o[1])
                    t = linear(f, ir.expr(f, y.o[0])) if q else None
                    if t and set(t) - {1}:
                        for c in q[1]:
                            r[c] = "%s, line %d" % (f.name, y.line)
        _fitted[P] = (C, r)
    return _fitted[P]


def strings(f, R):
    """sizes of the blocks and arrays that text is put into, against what is put there"""
    calls = [x for x in f.calls() if x.callee in ("strcpy", "strcat", "sprintf", "snprintf", "strncpy", "strncat", "fgets", "vsnprintf")]
    if not calls:
        return
    base = {}
    for x in calls:
        o = summ.origins(f, x.o[0])
        if len(o) != 1:
            continue
        o = next(iter(o))
        if o[0] != "i":
            continue
        y = f.ins[o[1]]
        if y.op == "load":
            # the block was stored in this place before
            e = ir.expr(f, y.o[0])
            st = [z for z in f.instrs() if z.op == "store" and ir.expr(f, z.o[1]) == e and f.dominates(z, y)]
            last = [z for z in st if all(z is w or f.dominates(w, z) for w in st)]
            if not st and x.callee in ("strcpy", "strcat", "sprintf"):
                C, fields = fitted(f.prog)
                q = C.ref(f, y.o[0])
                own_ = [c for c in q[1] if c in fields] if q else ()
                if own_:
                    R.ob("string", f.name, sample="%s at line %d" % (x.callee, x.line))
                    R.bad("string", "%s|field" % f.name, "%s:%d" % (f.file, x.line), "text is put into a block that was allocated for another text (%s)" % fields[own_[0]])
                continue
            if len(last) != 1:
                continue
            o2 = summ.origins(f, last[0].o[0])
            if len(o2) != 1 or next(iter(o2))[0] != "i":
                continue
            y = f.ins[next(iter(o2))[1]]
        if y.op == "alloca" and (str(y.at).startswith("[") and str(y.at).endswith(" x i8]")) and not (y.o and y.o[0] != ("c", 1)):
            base[x.i] = (y, {1: y.sz}, False)
        elif y.op == "call" and y.callee in ("malloc", "calloc", "realloc"):
            e = ir.expr(f, y.o[1 if y.callee == "realloc" else 0])
            have = linear(f, e if y.callee != "calloc" else ("mul", e, ir.expr(f, y.o[1])))
            base[x.i] = (y, have, True)
    ln = {}
    out = {}
    loops = f.loops()
    back = {(t, h) for h, body in loops.items() for t in f.pred[h] if t in body}

    def show(p):
        return " + ".join(str(v) if k == 1 else ("%d*" % v if v != 1 else "") + k for k, v in sorted(p.items(), key=str)) or "0"

    for b in f.rpo():
        st = {}
        for q in f.pred[b]:
            if (q, b) in back or q not in out:
                continue
            for k, v in out[q].items():
                if k not in st:
                    st[k] = v
                elif st[k] != v:
                    a, c = st[k], v
                    d = None if a is None or c is None else plus(a, c, -1)
                    st[k] = None if d is None or set(d) - {1} else a if d.get(1, 0) >= 0 else c
        for x in f.blocks[b]:
            if x.i not in base:
                continue
            y, have, exact = base[x.i]
            R.ob("string", f.name, sample="%s at line %d" % (x.callee, x.line))
            c = x.callee
            if c in ("snprintf", "vsnprintf", "fgets", "strncpy"):
                need = linear(f, ir.expr(f, x.o[2 if c == "strncpy" else 1]))
                if need is not None and set(need) - {1} and not exact:
                    need = None
                if not exact:
                    st[y.i] = {}
                else:
                    st[y.i] = None
            elif c == "strncat":
                st[y.i] = None if exact else {}
                continue
            else:
                t = formatted(f, x, 1, exact) if c == "sprintf" else text(f, x.o[1], exact)
                if c == "strcat":
                    old = st.get(y.i, None if exact else {})
                    t = None if t is None or old is None else plus(old, t)
                    if exact and any(b in body and y.b not in body for body in loops.values()):
                        t = None
                st[y.i] = t
                need = None if t is None else plus(t, {1: 1})
            if need is None or have is None:
                R.undec("string", "%s:%d" % (f.file, x.line)); continue
            d = plus(need, have, -1)
            # too much by a constant or by further texts
            if d and (all(v > 0 for v in d.values()) or exact and d.get(1, 0) > 0 and all(v >= 0 for v in d.values())):
                R.bad("string", "%s|%s" % (f.name, y.v or "block"), "%s:%d" % (f.file, x.line), "%s bytes of text are put into %s bytes (allocated at line %d)" % (show(need), show(have), y.line))
        out[b] = st


def run(P, R):
    for n, f in sorted(P.funcs.items()):
        A = Arrays(f)
        ac = {}
        for x in f.instrs():
            if x.op == "alloca" and str(x.at).startswith("[") or x.op == "call" and x.callee in ("malloc", "calloc"):
                have = alloc_bytes(A, x)
                names, gep = A.flow(x)
                for g in gep:
                    need = const(0)
                    esz = None
                    ok = True
                    record(R, A, f, n, x, g, have)
                    for p in g.path:
                        if p[0] == "x":
                            b = bound(A, p[1], g.b)
                            if b is None:
                                ok = False; break
                            need = padd(need, pmul(b, const(p[2])))
                            esz = p[2]
                        else:
                            ok = False; break
                    if not ok:
                        R.undec("extent", "%s:%d" % (f.file, g.line)); continue
                    if esz is None:
                        continue
                    # last element must fit
                    used = any(u.op in ("load", "store") for u in f.uses.get(("i", g.i), ()))
                    need = padd(need, const(esz if used else 0))
                    R.ob("extent", n)
                    d = too_small(need, have)
                    if d:
                        R.bad("extent", "%s|%s" % (n, x.v or "alloc"), "%s:%d" % (f.file, g.line), "array of %s bytes (line %d) accessed up to byte %s" % (
                            poly.show(have, lambda a: ir.show(f, ir.expr(f, a)) if a[0] in 'ia' else str(a)), x.line, poly.show(need, lambda a: ir.show(f, ir.expr(f, a)) if a[0] in 'ia' else str(a))))
        grow(P, f, R)
        mpi(P, f, R)
        strings(f, R)
