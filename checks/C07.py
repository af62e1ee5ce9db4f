"""Send and receive routines agree on every message and every word."""
import re
import ir, summ, own
from ir import strip, canon, cond_key
from poly import Poly, padd, pmul, const, isconst, cval, atom, show
from own import base_of
RULES = {
    "sequence": "a send routine and its receive routine exchange the same messages in the same order, under the same conditions, with the same datatype",
    "count": "the receiver receives as many values as the sender sends",
    "word": "every quantity packed by the sender is unpacked by the receiver from the same word and bits, for the same purpose, and nothing else is unpacked there",
    "order": "every routine that sends or receives a whole mesh does so part by part in the same order, attributes and sets only on request",
}
EXPLAIN = ("For each MESH_Send_X / MESH_Recv_X pair the messages are listed in order with datatype, count polynomial and guard; values packed into send "
           "buffers are decomposed into bit fields with their meaning (the query they come from), values unpacked are followed to the setter they reach; "
           "positions are polynomials in record start, inner index and record length.")
ASSUME = ["a query and the setter of the same name concern the same quantity (decided by C12/C25-type rules elsewhere)",
          "faces have at most MAXPV2 edges and regions at most MAXPF3 faces (library limits)"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers"]
MIN = {"sequence": 10, "count": 10, "word": 25, "order": 2}
PRE = re.compile(r"^(MV|ME|MF|MR|MEnt|MESH|MAttrib|MSet|List)_")
SENDS = {"MPI_Isend": (0, 1, 2), "MPI_Send": (0, 1, 2), "MPI_Ssend": (0, 1, 2), "MPI_Issend": (0, 1, 2), "MPI_Bsend": (0, 1, 2), "MPI_Ibsend": (0, 1, 2)}
RECVS = {"MPI_Irecv": (0, 1, 2), "MPI_Recv": (0, 1, 2)}
SUF = re.compile(r"_(FN|F1|F4|R1|R2|R4|R1R2|F1F3|R3R4|RN|point)$")
ARG = {"MAttrib_New": {1: "Name", 2: "Type", 3: "EntDim", 4: "NumComps"}, "MSet_New": {1: "Name", 2: "EntDim"},
       "MEnt_Set_AttVal": {2: "AttVal.2", 3: "AttVal.3", 4: "AttVal.4"},
       "MF_Set_Edges": {1: "Num_Entries.Edges", 2: "ID.Entry.Edges", 3: "dir"},
       "MR_Set_Faces": {1: "Num_Entries.Faces", 2: "ID.Entry.Faces", 3: "dir"},
       "MESH_SetRepType": {1: "RepType"}}
FULL = {"PType": 3, "GEntDim": 7}


def short(n):
    n = SUF.sub("", PRE.sub("", n))
    return re.sub(r"^Get_", "", n)


class Side:
    def __init__(self, P, f, kind, params=None):
        self.P, self.f, self.kind = P, f, kind
        self.pm = params or {}             # parameter -> polynomial with named atoms
        self.poly = PN(self)
        self.loops = f.loops()
        self.msgs = []
        tab = SENDS if kind == "send" else RECVS
        cs = f.ordered([x for x in f.instrs() if x.op == "call" and x.callee in tab])
        for x in cs:
            b, c, t = tab[x.callee]
            bases = set()
            for o in summ.origins(f, x.o[b]):
                bases |= deepbase(f, o)
            self.msgs.append(dict(ins=x, base=bases, dtype=dtype(x.o[t]), count=x.o[c]))
        self.wordmap = None

    def msg_of(self, addr):
        bs = set()
        for o in summ.origins(self.f, base_of(self.f, addr)):
            bs |= deepbase(self.f, o)
        for i, m in enumerate(self.msgs):
            if m["base"] & bs:
                return i
        return None

    def index(self, addr):
        """element index (polynomial) of address addr in its buffer, or None"""
        f = self.f
        p = {}
        v = addr
        while True:
            x = f.get(v)
            if x is None:
                return p
            if x.op in ir.CAST:
                v = x.o[0]
                continue
            if x.op == "getelementptr":
                q = [t for t in x.path if t[0] == "x"]
                if len(x.path) == 2 and x.path[0][0] == "x" and x.path[0][1] == ("c", 0):
                    q = q[1:]
                if len(q) != 1:
                    return None
                p = padd(p, self.poly.of(q[0][1]))
                v = x.o[0]
                continue
            if x.op == "phi":
                return p
            return p

    def outer(self, b):
        hs = [h for h in self.loops if b in self.loops[h]]
        if not hs:
            return None
        return max(hs, key=lambda h: len(self.loops[h]))

    def position(self, ins, p):
        """(offset polynomial with named atoms, stride polynomial) of index p used at ins"""
        h = self.outer(ins.b)
        f = self.f
        off, stride = {}, {}
        for k, c in p.items():
            rest, st, inner = [], None, False
            for a in k:
                x = f.get(a) if a[0] == "i" else None
                if x is not None and x.op == "phi" and x.b in self.loops and self.poly.induction(x) is not None and self.poly.stride(x) is not None:
                    if x.b == h:
                        st = self.poly.stride(x)
                    else:
                        rest.append(("#",))
                else:
                    rest.append(a)
            if st is not None:
                stride = padd(stride, pmul({tuple(rest): c}, st))
            else:
                off = padd(off, {tuple(sorted(rest, key=repr)): c})
        return self.named(off, ins), self.named(stride, ins)

    def named(self, p, ins=None):
        d = {}
        for k, c in p.items():
            m = tuple(sorted((self.aname(a, ins) for a in k), key=repr))
            d[m] = d.get(m, 0) + c
        return tuple(sorted(((k, c) for k, c in d.items() if c), key=repr))

    def aname(self, a, ins=None):
        if a[0] in ("#", "n"):
            return a
        if self.wordmap and a in self.wordmap:
            return ("w", self.wordmap[a])
        m = self.meaning(a)
        return ("n", m) if m else ("v", self.f.name, a)

    def meaning(self, v, depth=6):
        f = self.f
        v = canon(f, v)
        if v[0] == "c":
            return str(v[1])
        if v[0] == "m":
            c = f.ins.get(v[2])
            if c is not None and c.op == "call" and c.callee:
                for i, a in enumerate(c.o):
                    if strip(f, a) == ("i", v[1]):
                        return "%s.%d" % (short(c.callee), i)
            return None
        x = f.get(v)
        if x is None or depth == 0:
            return None
        if x.op == "call" and x.callee:
            n = short(x.callee)
            if n == "Num_Entries" or n == "Entry" or n in ("ID", "Vertex") or n == "Next_Entry":
                if not x.o:
                    return n
                m = self.meaning(x.o[0], depth - 1)
                if n == "Vertex" and x.callee == "ME_Vertex":
                    return "Vertex(%s)" % self.meaning(x.o[1])
                if n == "Vertex":
                    return "ent"
                if n == "ID":
                    return "ID." + m if m else "ID"
                return n + ("." + m if m else "")
            return n
        if x.op == "load":
            a = base_of(f, x.o[0])
            for o in summ.origins(f, a):
                y = canon(f, o)
                if y[0] == "m":
                    return self.meaning(y, depth - 1)
                z = f.get(y)
                if z is not None and z.op == "alloca":
                    # a local array filled by a call
                    for u in f.uses.get(y, ()):
                        if u.op == "call" and u.callee and u.callee not in ("strcpy", "strncpy"):
                            for i, q in enumerate(u.o):
                                if q == y:
                                    return "%s.%d" % (short(u.callee), i)
        if x.op in ("phi", "select"):
            ms = {self.meaning(o, depth - 1) for o in summ.origins(f, v) if o[0] not in ("c", "null", "f", "fc")}
            ms.discard(None)
            if ms:
                return "|".join(sorted(ms))
        return None


class PN(Poly):
    def __init__(self, side):
        Poly.__init__(self, side.f)
        self.side = side

    def leaf(self, v, x):
        if v[0] == "a":
            return self.side.pm.get(v[1])
        return None


def deepbase(f, o):
    """objects a pointer may point into"""
    b = base_of(f, o)
    if b != o:
        out = set()
        for q in summ.origins(f, b):
            out |= deepbase(f, q)
        return out
    return {o} if o[0] in ("i", "a", "g") else set()


def dtype(v):
    return v[1].replace("ompi_mpi_", "").upper() if v[0] == "g" else str(v)


def parts(S, v, shift=0):
    """bit fields of a packed value: [(shift, leaf value)]"""
    f = S.f
    v = strip(f, v)
    x = f.get(v)
    if x is not None and x.op == "or":
        return parts(S, x.o[0], shift) + parts(S, x.o[1], shift)
    if x is not None and x.op == "add" and all(shifted(S, y) for y in x.o):
        return parts(S, x.o[0], shift) + parts(S, x.o[1], shift)
    if x is not None and x.op == "shl" and x.o[1][0] == "c":
        return parts(S, x.o[0], shift + x.o[1][1])
    if x is not None and x.op == "mul":
        for i in (0, 1):
            c = x.o[i]
            if c[0] == "c" and c[1] > 0 and c[1] & (c[1] - 1) == 0 and c[1] > 1:
                return parts(S, x.o[1 - i], shift + c[1].bit_length() - 1)
    if x is not None and x.op == "phi":
        g = flagged(S, x)
        if g:
            return (parts(S, g[0], shift) if g[0] is not None else []) + [(shift + g[1], g[2])]
    return [(shift, v)]


def flagged(S, x):
    """a phi that sets one more bit on one way than on the other: (plain value or None, bit, tested value)"""
    f = S.f
    if len(x.o) != 2:
        return None
    for i in (0, 1):
        (v, pb), (w, qb) = x.o[i], x.o[1 - i]
        v, w = strip(f, v), strip(f, w)
        y = f.get(v)
        bit = None
        if v[0] == "c" and w == ("c", 0) and v[1] > 0 and v[1] & (v[1] - 1) == 0:
            bit, base = v[1], None
        elif y is not None and y.op == "or":
            for j in (0, 1):
                c = y.o[j]
                if c[0] == "c" and c[1] > 0 and c[1] & (c[1] - 1) == 0 and strip(f, y.o[1 - j]) == w:
                    bit, base = c[1], w
        if bit is None:
            continue
        for a, s in f.control_deps().get(pb, ()) or [(qb, None)]:
            t = f.blocks[a][-1]
            if t.op != "br" or not t.o:
                continue
            k, pol = cond_key(f, t.o[0])
            if len(k) == 3 and k[1] == "eq" and k[2] == ("c", 0):
                # which way sets the bit
                way = t.succ[0] if (s is None or s == t.succ[0]) else t.succ[1]
                if s is None:
                    way = x.b if a == pb else None
                val = (way == t.succ[0]) == pol
                if not val:
                    return base, bit.bit_length() - 1, k[0]
    return None


def shifted(S, v):
    x = S.f.get(strip(S.f, v))
    return x is not None and x.op in ("shl", "or", "call", "add", "mul")


def sent(S):
    """fields packed: list of (msg, offset, stride, shift, meaning, ins)"""
    f, out = S.f, []
    # names of record lengths: value stored at offset 0 of a variable record
    S.wordmap = {}
    st = []
    for x in f.instrs():
        if x.op == "store":
            m = S.msg_of(x.o[1])
            if m is None:
                continue
            p = S.index(x.o[1])
            if p is None:
                continue
            st.append((x, m, p))
    for x, m, p in st:
        off, stride = S.position(x, p)
        v = canon(f, x.o[0])
        if off == () and v[0] == "i" and any(v in k for k in varstride(S, x, p)):
            S.wordmap[v] = m
    for x, m, p in st:
        off, stride = S.position(x, p)
        for sh, v in parts(S, x.o[0]):
            mg = None
            y = f.get(v)
            sign = None
            if y is not None and y.op == "mul":
                sel = [(a, b) for a, b in ((y.o[0], y.o[1]), (y.o[1], y.o[0])) if sgn(f, a)]
                if sel:
                    sign = sgn(f, sel[0][0])
                    mg = S.meaning(sel[0][1])
                    if mg and sign != "+":
                        mg += "!reversed"
            if mg is None:
                mg = S.meaning(v)
            if v[0] == "c" and mg == "0":
                continue
            if mg is None:
                mg = ("val", v)
            out.append((m, off, stride, sh, mg, x))
            if sign:
                out.append((m, off, stride, sh, "dir" if sign == "+" else "dir!reversed", x))
    for x in f.instrs():
        if x.op != "call" or not x.callee or x.callee.startswith("MPI_") or x.callee.startswith("llvm.dbg"):
            continue
        for i, a in enumerate(x.o):
            if f.get(a) is None and a[0] != "i":
                continue
            m = S.msg_of(a)
            if m is None or x.callee in ("free", "realloc"):
                continue
            p = S.index(a)
            if p is None:
                continue
            off, stride = S.position(x, p)
            if x.callee in ("strcpy", "strncpy", "memcpy") and i == 0:
                b = base_of(f, x.o[1])
                mg = None
                for u in f.uses.get(b, ()):
                    if u.op == "call" and u.callee and u is not x:
                        for j, q in enumerate(u.o):
                            if q == b and short(u.callee) in ("Name",):
                                mg = "Name"
                out.append((m, off, stride, 0, mg or ("call", x.callee), x))
            elif short(x.callee) in ("Name",):
                out.append((m, off, stride, 0, "Name", x))
            elif x.callee in ("MV_Coords",):
                out.append((m, off, stride, 0, "Coords", x))
    return out


def varstride(S, x, p):
    h = S.outer(x.b)
    for k in p:
        for a in k:
            y = S.f.get(a) if a[0] == "i" else None
            if y is not None and y.op == "phi" and y.b == h:
                st = S.poly.step(y)
                if st is not None:
                    yield from st


def sgn(f, v):
    """v is 1 / -1 depending on a direction: '+' when a true direction gives 1"""
    v = strip(f, v)
    x = f.get(v)
    if x is None:
        return None
    if x.op == "select" and {x.o[1], x.o[2]} == {("c", 1), ("c", -1)}:
        c = x.o[0]
        pos = x.o[1] == ("c", 1)
    elif x.op == "phi" and {v for v, _ in x.o} == {("c", 1), ("c", -1)} and len(x.o) == 2:
        # diamond
        d = {v: pb for v, pb in x.o}
        pb = d[("c", 1)]
        c = None
        for (a, s) in f.control_deps().get(pb, ()):
            t = f.blocks[a][-1]
            if t.op == "br" and t.o:
                c = t.o[0]; pos = (t.succ[0] == s)
        if c is None:
            return None
    else:
        return None
    k, pol = ir.cond_key(f, c)
    if len(k) == 3 and k[1] == "eq" and k[2] == ("c", 0):
        val = not pos
    elif len(k) == 3 and k[1] == "eq" and k[2] == ("c", 1):
        val = pos
    elif len(k) == 3 and k[1] == "sgt" and k[2] == ("c", 0):
        val = pos
    else:
        return None
    if not pol:
        val = not val
    # the condition is a direction query
    y = f.get(k[0])
    if y is None or y.op != "call" or not y.callee or "Dir" not in y.callee:
        return None
    return "+" if val else "-"


def received(S):
    """fields unpacked: list of (msg, offset, stride, shift, mask or None, meaning, ins)"""
    f, out = S.f, []
    S.wordmap = {}
    lds = []
    for x in f.instrs():
        if x.op == "load":
            m = S.msg_of(x.o[0])
            if m is None:
                continue
            p = S.index(x.o[0])
            if p is not None:
                lds.append((x, m, p))
    for x, m, p in lds:
        off, stride = S.position(x, p)
        if off == () and any(("i", x.i) in k for k in varstride(S, x, p)):
            S.wordmap[("i", x.i)] = m
    # a record length may be loaded several times
    for x, m, p in lds:
        off, stride = S.position(x, p)
        for (sh, mask, mg, at) in sinks(S, x):
            out.append((m, off, stride, sh, mask, mg, at))
    for x in f.instrs():
        if x.op != "call" or not x.callee or x.callee.startswith("MPI_"):
            continue
        for i, a in enumerate(x.o):
            if a[0] != "i":
                continue
            for o in summ.origins(f, a):
                m = S.msg_of(o)
                y = f.get(o)
                if m is None or y is None or y.op == "alloca" or x.callee in ("free", "realloc"):
                    continue
                p = S.index(o)
                if p is None:
                    continue
                off, stride = S.position(y if y.op == "getelementptr" else x, p)
                if x.callee in ("MV_Set_Coords",):
                    out.append((m, off, stride, 0, None, "Coords", x))
                elif x.callee in ("strcpy", "strncpy") and i == 1:
                    b = base_of(f, x.o[0])
                    for u in f.uses.get(b, ()):
                        if u.op == "call" and u.callee in ARG:
                            for j, q in enumerate(u.o):
                                if q == b and j in ARG[u.callee]:
                                    out.append((m, off, stride, 0, None, ARG[u.callee][j], x))
                elif x.callee in ARG and i in ARG[x.callee]:
                    mg = ARG[x.callee][i]
                    out.append((m, off + (((("#",),), 1),) if mg == "AttVal.4" else off, stride, 0, None, mg, x))
    return out


def norm(sh, mask):
    if mask is None:
        return sh, None
    while mask and mask & 1 == 0:
        mask >>= 1; sh += 1
    return sh, mask


def sinks(S, ld):
    """where a received word goes: (shift, mask, meaning, instruction)"""
    f = S.f
    out = []
    seen = set()
    work = [(("i", ld.i), 0, None, "")]
    while work:
        v, sh, mask, mod = work.pop()
        if (v, sh, mask, mod) in seen:
            continue
        seen.add((v, sh, mask, mod))
        for u in f.uses.get(v, ()):
            me = ("i", u.i)
            if u.op in ir.CAST or u.op == "phi":
                work.append((me, sh, mask, mod))
            elif u.op == "select" and u.o[0] != v:
                work.append((me, sh, mask, mod))
            elif u.op == "and" and any(o[0] == "c" for o in u.o):
                c = [o[1] for o in u.o if o[0] == "c"][0]
                s2, m2 = norm(sh, c)
                if s2 != sh:
                    work.append((me, s2, m2, mod + "unshifted" if mod == "" else mod))
                else:
                    work.append((me, s2, m2, mod))
            elif u.op in ("ashr", "lshr") and u.o[1][0] == "c" and u.o[0] == v:
                work.append((me, sh + (u.o[1][1] if mod != "unshifted" else 0), mask, "" if mod == "unshifted" else mod))
            elif u.op == "sdiv" and u.o[1][0] == "c" and u.o[0] == v and u.o[1][1] > 0:
                work.append((me, sh + u.o[1][1].bit_length() - 1, mask, mod))
            elif u.op == "call" and u.callee and (u.callee == "abs" or u.callee.startswith("llvm.abs")):
                work.append((me, sh, mask, "abs"))
            elif u.op == "sub" and u.o[0] == v and u.o[1] == ("c", 1) and mod == "abs" or u.op == "add" and ("c", -1) in u.o and mod == "abs":
                work.append((me, sh, mask, "idx"))
            elif u.op == "getelementptr" and mod == "idx":
                for w in f.uses.get(me, ()):
                    if w.op == "load":
                        for z in f.uses.get(("i", w.i), ()):
                            if z.op == "store" and z.o[0] == ("i", w.i):
                                ar(S, out, z, sh, mask, ld)
            elif u.op == "call" and u.callee:
                i = [j for j, o in enumerate(u.o) if o == v]
                for j in i:
                    if u.callee in ARG and j in ARG[u.callee]:
                        out.append((sh, mask, ARG[u.callee][j], u))
                    else:
                        n = short(u.callee)
                        if n == "Set_Vertex" and j == 2:
                            continue
                        if n.startswith("Set_") and j == 1:
                            out.append((sh, mask, n[4:] + ("" if mod == "" else "!" + mod), u))
                        elif n.endswith("FromGlobalID") and j == 1:
                            out.append((sh, mask, "GlobalID", u))
                        elif n == "VertexFromID" and j == 1:
                            for w in f.uses.get(me, ()):
                                if w.op == "call" and w.callee == "ME_Set_Vertex":
                                    out.append((sh, mask, "ID.Vertex(%s)" % (w.o[1][1] if w.o[1][0] == "c" else "?"), w))
                        elif n.endswith("FromID") and j == 1:
                            out.append((sh, mask, "ID", u))
            elif u.op == "switch":
                out.append((sh, mask, "Dim", u))
            elif u.op == "icmp":
                o = [q for q in u.o if q != v]
                if o and o[0][0] == "i":
                    m = S.meaning(o[0])
                    y = f.get(canon(f, o[0]))
                    if m and u.p in ("eq", "ne") and y is not None and y.op == "call":
                        out.append((sh, mask, m, u))
                elif o and o[0] == ("c", 0) and u.p in ("ne", "eq"):
                    for w in f.uses.get(me, ()):
                        if w.op == "br":
                            blk = w.succ[0] if u.p == "ne" else w.succ[1]
                            if len(f.pred[blk]) == 1:
                                for z in f.blocks[blk]:
                                    if z.op == "call" and z.callee and short(z.callee).startswith("Flag_"):
                                        out.append((sh, mask, short(z.callee)[5:], z))
                elif o and o[0][0] == "c" and u.p in ("sgt", "sge", "slt", "sle"):
                    c = o[0][1]
                    pos = (u.p == "sgt" and c == 0) or (u.p == "sge" and c in (0, 1))
                    neg = (u.p == "slt" and c in (0, 1)) or (u.p == "sle" and c == 0)
                    if pos or neg:
                        for w in f.uses.get(me, ()):
                            one = None
                            if w.op == "select" and {w.o[1], w.o[2]} == {("c", 1), ("c", 0)}:
                                one = (w.o[1] == ("c", 1)) == pos
                            elif w.op == "zext":
                                one = pos
                            if one is None:
                                continue
                            vals = [("i", w.i)]
                            for q in vals:
                                for z in f.uses.get(q, ()):
                                    if z.op in ir.CAST or z.op == "phi":
                                        if ("i", z.i) not in vals:
                                            vals.append(("i", z.i))
                                    elif z.op == "store" and z.o[0] == q:
                                        ar(S, out, z, sh, mask, ld, "" if one else "!reversed")
    return out


def ar(S, out, z, sh, mask, ld, suffix=""):
    """word ends up in an element of a local array: which argument of a setter is that array, and is the element the inner index?"""
    f = S.f
    bs = deepbase(f, z.o[1])
    p = S.index(z.o[1])
    off, stride = S.position(z, p) if p is not None else (None, None)
    inner = off == (((("#",),), 1),)
    for u in f.instrs():
        if u.op == "call" and u.callee in ARG:
            for j, a in enumerate(u.o):
                if j in ARG[u.callee] and a[0] == "i":
                    ob = set()
                    for o in summ.origins(f, a):
                        ob |= deepbase(f, o)
                    if ob & bs:
                        out.append((sh, mask, ARG[u.callee][j] + suffix + ("" if inner else "!elsewhere"), u))


# ---------------------------------------------------------------- guards and counts
def guards(S, m):
    """conditions on which a message depends, as (polynomial == 0, polarity), named"""
    f = S.f
    out = set()
    for (a, s) in f.all_control_deps(m["ins"].b):
        t = f.blocks[a][-1]
        if t.op == "br" and t.o:
            k, pol = ir.cond_key(f, t.o[0])
            val = (t.succ[0] == s) == pol
            if len(k) == 3 and k[1] in ("eq", "sgt", "slt") and k[2][0] == "c":
                c = k[2][1]
                if k[1] == "sgt" and c == 0:
                    val, c, kk = (not val), 0, "eq"
                elif k[1] == "slt" and c == 1:
                    kk, c = "eq", 0
                elif k[1] == "eq":
                    kk = "eq"
                else:
                    continue
                # the check of an MPI return code, or of a pointer
                x = f.get(k[0])
                if x is not None and x.op == "call" and x.callee and x.callee.startswith("MPI_"):
                    continue
                if x is not None and x.op == "load" and k[0][0] == "i" and ir.strip(f, x.o[0])[0] == "a":
                    continue
                p = S.named(S.count(k[0]))
                out.add((p, c, val))
        elif t.op == "switch":
            pass
    return frozenset(out)


def count(S, v):
    return S.poly.after_loop(v)


Side.count = count


def unify(ps, pr, env):
    """do the named polynomials ps (sender) and pr (receiver) agree, with env: received word -> sender polynomial"""
    d = {}
    for k, c in pr:
        t = {(): c}
        for a in k:
            if a in env:
                t = pmul(t, env[a])
            else:
                t = pmul(t, {(a,): 1})
        d = padd(d, t)
    return tuple(sorted(((tuple(sorted(k, key=repr)), c) for k, c in d.items() if c), key=repr))


def nm(p):
    def one(a):
        if a[0] == "n":
            return str(a[1])
        if a[0] == "w":
            return "len"
        if a[0] == "#":
            return "k"
        return "?"
    if not p:
        return "0"
    return " + ".join(("%d" % c if not k else (("" if c == 1 else "%d*" % c) + "*".join(one(a) for a in k))) for k, c in p)


def pairs(P):
    out = []
    for n in P.funcs:
        if n.startswith("MESH_Send_"):
            r = n.replace("MESH_Send_", "MESH_Recv_")
            if r in P.funcs:
                out.append((n, r))
    return out


def compare(P, R, sn, rn, pm):
    fs, fr = P.funcs[sn], P.funcs[rn]
    S, T = Side(P, fs, "send"), Side(P, fr, "recv", pm.get(rn))
    if not S.msgs and not T.msgs:
        return None
    key = "%s|%s" % (sn, rn)
    ms, mr = S.msgs, T.msgs
    # match messages in order; alternatives (mutually exclusive) may be listed in either order
    perm = match(S, T)
    R.ob("sequence", fs.file, n=max(len(ms), len(mr)), sample="%s -> %s: %s" % (sn, rn, ",".join(m["dtype"] for m in ms)))
    if perm is None:
        R.bad("sequence", key, ms[0]["ins"].loc if ms else fs.file, "%s sends %s but %s receives %s" % (
            sn, [m["dtype"] for m in ms], rn, [m["dtype"] for m in mr]))
        return None
    sf = sent(S)
    rf0 = received(T)
    rf = [(perm[t[0]],) + t[1:] for t in rf0]
    T.wordmap = {k: perm[v] for k, v in T.wordmap.items()}
    # a received word used in counts/guards stands for what the sender stored there
    env = {}
    for x in fr.instrs():
        if x.op == "load":
            m = T.msg_of(x.o[0])
            p = T.index(x.o[0]) if m is not None else None
            if p is not None and isconst(p):
                for (mm, off, stride, sh, mg, st) in sf:
                    if mm == perm[m] and sh == 0 and stride == () and off == T.named(p):
                        env[("v", fr.name, ("i", x.i))] = dict(S.named(S.count(st.o[0])))
                        c = canon(fr, ("i", x.i))
                        env[("v", fr.name, c)] = dict(S.named(S.count(st.o[0])))
    for i, b in enumerate(mr):
        x = b["ins"]
        y = fr.get(strip(fr, x.o[0]))
        if y is not None and y.op == "alloca":
            for (mm, off, stride, sh, mg, st) in sf:
                if mm == perm[i] and sh == 0 and stride == () and off == ():
                    env[("v", fr.name, ("m", y.i, x.i))] = dict(S.named(S.count(st.o[0])))
                    env[("n", "MPI_Recv.0")] = dict(S.named(S.count(st.o[0]))) if len([1 for q in mr if fr.get(strip(fr, q["ins"].o[0])) is not None and fr.get(strip(fr, q["ins"].o[0])).op == "alloca"]) == 1 else {}
    for i, b in enumerate(mr):
        a = ms[perm[i]]
        ca, cb = S.named(S.count(a["count"])), T.named(T.count(b["count"]))
        cb2 = unify(ca, cb, env)
        R.ob("count", fs.file, sample="%s: %s" % (sn, nm(ca)))
        if ca != cb2:
            # variable records: the receiver provides for the longest record
            x = fs.get(canon(fs, a["count"]))
            st = S.poly.step(x) if x is not None and x.op == "phi" and x.b in S.loops else None
            ok = False
            if st is not None and not isconst(st):
                fixed = cval(st)
                tr = S.poly.trip(x.b)
                if tr is not None:
                    tn = S.named(tr)
                    if len(tn) == 1 and len(cb2) == 1 and tn[0][0] == cb2[0][0] and cb2[0][1] >= (fixed + 30) * tn[0][1]:
                        ok = True
            if not ok:
                R.bad("count", key + "|%d" % perm[i], b["ins"].loc, "%s sends %s values in message %d, %s receives %s" % (sn, nm(ca), perm[i] + 1, rn, nm(cb2)))
        ga, gb = guards(S, a), guards(T, b)
        gb2 = frozenset((unify((), p, env), c, v) for p, c, v in gb)
        know = lambda g: frozenset((p, c, v) for p, c, v in g if p and not any(at[0] == "v" for k, _ in p for at in k) or any(at[0] == "v" and at[1] == fs.name for k, _ in p for at in k))
        ga, gb2 = know(ga), know(gb2)
        # MPI: a count test of the message itself
        if ga != gb2:
            d = (ga - gb2) | (gb2 - ga)
            p, c, v = sorted(d, key=repr)[0]
            R.bad("sequence", key + "|%d" % perm[i], b["ins"].loc, "message %d of %s / %s: only one side makes it depend on %s %s %d" % (
                perm[i] + 1, sn, rn, nm(p), "==" if v else "!=", c))
    # fields
    S_by = {}
    for (m, off, stride, sh, mg, st) in sf:
        S_by.setdefault((m, mg if isinstance(mg, str) else None), []).append((off, stride, sh, st))
    matched = set()
    seen = set()
    loaded = {perm[q] for q in (T.msg_of(x.o[0]) for x in fr.instrs() if x.op == "load") if q is not None} | {t[0] for t in rf}
    for (m, off, stride, sh, mask, mg, at) in rf:
        k = (m, off, sh, mask, mg, at.i)
        if k in seen:
            continue
        seen.add(k)
        R.ob("word", fr.file, sample="%s: %s from word %s bits %d" % (rn, mg, nm(off), sh))
        cands = S_by.get((m, mg), [])
        good = [c for c in cands if c[0] == off and c[1] == stride and c[2] == sh]
        if not good:
            if cands:
                c = cands[0]
                why = "packed at word %s bit %d%s, unpacked at word %s bit %d%s" % (nm(c[0]), c[2], strd(c[1]), nm(off), sh, strd(stride))
            else:
                why = "%s is unpacked from word %s bit %d of message %d but never packed there" % (mg, nm(off), sh, m + 1)
            R.bad("word", key + "|" + mg, at.loc, "%s / %s: %s: %s" % (sn, rn, mg, why))
            continue
        matched.add((m, mg))
        # width
        others = [c2 for (m2, o2, s2, sh2, g2, st2) in sf if m2 == m and o2 == off and sh2 > sh for c2 in [sh2]]
        gap = min(others) - sh if others else None
        if gap is not None:
            need = min((1 << gap) - 1, FULL.get(mg, (1 << gap) - 1))
            if mask is None or mask >> gap or (mask & need) != need:
                R.bad("word", key + "|" + mg + "|mask", at.loc, "%s / %s: %s occupies %d bits from bit %d but is unpacked with mask %s" % (
                    sn, rn, mg, gap, sh, "none" if mask is None else hex(mask)))
        elif mask is not None:
            need = FULL.get(mg)
            if need is None or (mask & need) != need:
                R.bad("word", key + "|" + mg + "|mask", at.loc, "%s / %s: %s is the last field of its word but is unpacked with mask %s" % (sn, rn, mg, hex(mask)))
    for (m, off, stride, sh, mg, st) in sf:
        if isinstance(mg, str):
            R.ob("word", fs.file)
            if (m, mg) not in matched and m in loaded and not countword(S, T, m, off, stride, perm, env, mg):
                R.bad("word", key + "|unread|" + mg, st.loc, "%s packs %s into word %s of message %d but %s never uses it" % (sn, mg, nm(off), m + 1, rn))
    # overlap of fields
    byw = {}
    for (m, off, stride, sh, mg, st) in sf:
        byw.setdefault((m, off), {}).setdefault(sh, set()).add(mg)
    for (m, off), d in byw.items():
        ss = sorted(d)
        for s1, s2 in zip(ss, ss[1:]):
            for g in d[s1]:
                if isinstance(g, str) and FULL.get(g, 0) >> (s2 - s1):
                    R.bad("word", key + "|overlap|" + g, fs.file, "%s packs %s into %d bits" % (sn, g, s2 - s1))
    return S, T, sf


def strd(s):
    return " (stride %s)" % nm(s) if s else ""


def countword(S, T, m, off, stride, perm, env, mg):
    """the word is a count or kind that the receiver uses as a variable (loop bound, out parameter)"""
    f = T.f
    for x in f.instrs():
        if x.op == "load":
            mm = T.msg_of(x.o[0])
            if mm is None or perm[mm] != m:
                continue
            p = T.index(x.o[0])
            if p is None:
                continue
            o2, s2 = T.position(x, p)
            if o2 == off and s2 == stride:
                for u in f.uses.get(("i", x.i), ()):
                    if u.op == "store" and u.o[0] == ("i", x.i) and strip(f, u.o[1])[0] == "a":
                        return True
                    if "Num_" in mg and u.op in ("icmp", "call", "mul", "sext"):
                        return True
    return False


def match(S, T):
    ms, mr = S.msgs, T.msgs
    if len(ms) != len(mr):
        return None
    perm = {}
    used = set()
    for i, b in enumerate(mr):
        j = None
        for q, a in enumerate(ms):
            if q in used:
                continue
            if a["dtype"] == b["dtype"]:
                j = q
                break
            # may be skipped only if exclusive with the one that matches
        if j is None:
            return None
        for q in range(j):
            if q not in used:
                # message q comes first at the sender: acceptable only when q and j exclude each other
                if not exclusive(S.f, ms[q]["ins"], ms[j]["ins"]):
                    return None
        perm[i] = j; used.add(j)
    return perm


def exclusive(f, x, y):
    if x.b == y.b:
        return False
    return y.b not in f.reachable_from(x.b) and x.b not in f.reachable_from(y.b)


# ------------------------------------------------------------------ whole mesh
KIND = re.compile(r"^MESH_(Send|Recv)_(\w+)$")


def whole(P, R):
    seqs = {}
    for n, f in P.funcs.items():
        xs = [x for x in f.instrs() if x.op == "call" and x.callee and KIND.match(x.callee) and x.callee in P.funcs]
        if KIND.match(n) or not xs:
            continue
        xs = f.ordered(xs)
        for d in ("Send", "Recv"):
            seq = []
            for x in xs:
                mm = KIND.match(x.callee)
                if mm.group(1) != d:
                    continue
                opt = False
                for (a, s) in f.all_control_deps(x.b):
                    t = f.blocks[a][-1]
                    if t.op == "br" and t.o:
                        k, pol = ir.cond_key(f, t.o[0])
                        if len(k) == 3 and k[0][0] == "a" and k[2] == ("c", 0) and "attr" in (f.args[k[0][1]] or "") and ((t.succ[0] == s) == pol) is False:
                            opt = True
                        elif k[0] == "a" or (len(k) == 3 and k[0][0] == "a" and "attr" in (f.args[k[0][1]] or "")):
                            opt = "other" if not opt else opt
                it = mm.group(2) in ("Attribute", "MSet")
                lo = loopdepth(f, x)
                seq.append((mm.group(2), opt, x))
            if seq:
                seqs[(n, d)] = seq
    if not seqs:
        return
    ref = max(((k, v) for k, v in seqs.items() if k[1] == "Recv"), key=lambda t: len(t[1]), default=None)
    if ref is None:
        return
    rs = [(a, b) for a, b, _ in ref[1]]
    for (n, d), seq in seqs.items():
        s = [(a, b) for a, b, _ in seq]
        R.ob("order", P.funcs[n].file, sample="%s: %s" % (n, ",".join(a for a, _ in s)))
        if s != rs:
            i = next((i for i, (a, b) in enumerate(zip(s, rs)) if a != b), min(len(s), len(rs)))
            x = seq[min(i, len(seq) - 1)][2]
            R.bad("order", n, x.loc, "%s: step %d is %s, %s expects %s" % (
                n, i + 1, desc(s, i), ref[0][0], desc(rs, i)))


def desc(s, i):
    if i >= len(s):
        return "missing"
    return s[i][0] + (" (only with attributes)" if s[i][1] is True else "")


def loopdepth(f, x):
    return sum(1 for h, b in f.loops().items() if x.b in b)


def params(P, pr):
    """meaning of count parameters of receive routines, from the metadata message"""
    pm = {}
    outp = {}
    for sn, rn in pr:
        fs, fr = P.funcs[sn], P.funcs[rn]
        S, T = Side(P, fs, "send"), Side(P, fr, "recv")
        if not S.msgs or not T.msgs or len(S.msgs) != len(T.msgs):
            continue
        sf = sent(S)
        for x in fr.instrs():
            if x.op == "store" and strip(fr, x.o[1])[0] == "a":
                y = fr.get(strip(fr, x.o[0]))
                if y is not None and y.op == "load":
                    m = T.msg_of(y.o[0])
                    p = T.index(y.o[0]) if m is not None else None
                    if p is not None and isconst(p):
                        for (mm, off, stride, sh, mg, st) in sf:
                            if mm == m and off == T.named(p) and stride == () and isinstance(mg, str):
                                outp[(rn, strip(fr, x.o[1])[1])] = mg
    for n, f in P.funcs.items():
        for x in f.instrs():
            if x.op == "call" and x.callee and any(x.callee == r for _, r in pr) or x.op == "call" and any(t in P.funcs and t.startswith("MESH_Recv_") for t in P.targets(x)):
                for i, a in enumerate(x.o):
                    v = canon(f, a)
                    if v[0] == "m":
                        c = f.ins[v[2]]
                        for j, q in enumerate(c.o):
                            if strip(f, q) == ("i", v[1]) and (c.callee, j) in outp:
                                for t in P.targets(x):
                                    pm.setdefault(t, {})[i] = atom(("n", outp[(c.callee, j)]))
    # dispatchers
    for _ in range(2):
        for n, f in P.funcs.items():
            if n in pm:
                for x in f.instrs():
                    if x.op == "call":
                        for i, a in enumerate(x.o):
                            v = canon(f, a)
                            if v[0] == "a" and v[1] in pm[n]:
                                for t in P.targets(x):
                                    if t.startswith("MESH_Recv"):
                                        pm.setdefault(t, {})[i] = pm[n][v[1]]
    return pm


def run(P, R):
    pr = pairs(P)
    pm = params(P, pr)
    for sn, rn in pr:
        compare(P, R, sn, rn, pm)
    whole(P, R)
