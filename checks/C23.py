"""C23: the direction of an edge in a face, and of a face in a region, goes with it."""
import re, sys
import core, ir, own, summ
from ir import canon, strip
import C17
from C17 import symbol, innermost

LISTF = ("fedges", "rfaces")
GETI = {"MF_EdgeDir_i": "F", "MR_FaceDir_i": "R"}
GETE = {"MF_EdgeDir": "F", "MR_FaceDir": "R"}
SETI = {"MR_Set_FaceDir_i": "R"}
SETE = {"MR_Set_FaceDir": "R"}
SIDED = {"ME_Vertex": 1, "ME_VertexID": 1, "MF_Region": 1, "MF_RegionID": 1}
SPANS = {"MF_Vertices": 1, "MF_Edges": 1, "MF_VertexIDs": 1, "MF_EdgeIDs": 1}

RULES = {
    "place": "an edge or face that is put into a face or region has its direction recorded at the place it is put",
    "moved": "when an edge or face is taken out or put in between, the directions of all that follow it move by one place with them",
    "given": "the direction recorded is the one given (or worked out) for that very edge or face",
    "word": "a direction is written over no other one and replaces what was recorded there before",
    "side": "a region is attached to a face on the side that its direction of the face says",
    "same": "a direction is used together with the edge or face whose direction it is",
    "worked": "a direction worked out by comparing vertices is forward exactly when they follow each other in that order",
    "sense": "the vertices and edges of a face are listed forward or backward as asked for, each edge entered at the right end",
}
EXPLAIN = ("Direction words (the first fields of the face and region records) and the lists that go with them are found in the record types. Every call that changes such a list is an obligation: the store "
           "that records the direction must use the same place (positions compared as polynomials, the number of entries followed through counters), and a removal or insertion needs a loop that moves "
           "each later bit by one, from the first to the last, in the order that does not overwrite what is still to be moved. Outside the records, uses of MF_EdgeDir(_i) and MR_FaceDir(_i) are matched "
           "with the entity they are used with.")
ASSUME = ["directions handed in are 0 or 1", "what List_Rem is asked to remove is in the list",
          "positions that are not written as sums, products and remainders of counters are left open (undecided)"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"place": 5, "moved": 9, "given": 5, "word": 16, "side": 4, "same": 23, "sense": 33, "worked": 20}


# ------------------------------------------------------------------ positions
def padd(a, b, s=1):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + s * c
        if not d[k]:
            del d[k]
    return d


def frz(p):
    return tuple(sorted(p.items(), key=repr))


def pol(f, v, depth=0):
    v = canon(f, v)
    if v[0] == "c":
        return {(): v[1]} if v[1] else {}
    if v[0] == "null":
        return {}
    memo = f.__dict__.setdefault("_pol23", {})
    if v in memo:
        return memo[v]
    x = f.get(v)
    r = None
    if x is not None and depth < 20:
        if x.op in ("add", "sub"):
            r = padd(pol(f, x.o[0], depth + 1), pol(f, x.o[1], depth + 1), 1 if x.op == "add" else -1)
        elif x.op == "mul":
            a, b = pol(f, x.o[0], depth + 1), pol(f, x.o[1], depth + 1)
            if all(k == () for k in a):
                a, b = b, a
            if all(k == () for k in b):
                c = b.get((), 0)
                r = {k: w * c for k, w in a.items() if w * c}
        elif x.op in ("srem", "urem"):
            r = {("mod", frz(pol(f, x.o[0], depth + 1)), frz(pol(f, x.o[1], depth + 1))): 1}
        elif x.op == "and" and canon(f, x.o[1])[0] == "c" and canon(f, x.o[1])[1] in (31, 63):
            r = {("mod", frz(pol(f, x.o[0], depth + 1)), frz({(): canon(f, x.o[1])[1] + 1})): 1}
        elif x.op in ("udiv", "sdiv"):
            r = {("div", frz(pol(f, x.o[0], depth + 1)), frz(pol(f, x.o[1], depth + 1))): 1}
        elif x.op == "lshr" and canon(f, x.o[1])[0] == "c":
            r = {("div", frz(pol(f, x.o[0], depth + 1)), frz({(): 1 << canon(f, x.o[1])[1]})): 1}
        elif x.op in ("load",):
            r = {("sym", symbol(f, v)): 1}
    if r is None:
        r = {v: 1}
    memo[v] = r
    return r


def const(p):
    return all(k == () for k in p)


# ------------------------------------------------------------------ direction words
class Words:
    """accesses of direction words in one function"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.kinds = {}
        self.bad = []
        dirs = {}
        for s, fs in P.structs.items():
            for off, n in fs:
                if n in ("edirs", "fdirs"):
                    dirs[s] = (off, n)
        self.dirs = dirs
        # record symbols by struct
        self.rec = {}
        self.listops, self.stores = [], []
        self.memo = {}
        for x in f.instrs():
            if x.op == "getelementptr" and x.path:
                for p in x.path:
                    if p[0] == "f" and p[1].lstrip("%") in dirs and not self.vertex(symbol(f, x.o[0])):
                        self.rec[symbol(f, x.o[0])] = p[1].lstrip("%")

    def is_rec(self, s):
        if s in self.rec:
            return True
        return s[0] == "ld" and s[1][0] == "gep" and any(len(p) > 2 and p[0] == "f" and p[2] == "adj" for p in s[1][2])

    def word(self, addr):
        """address -> (record symbol, index polynomial of the word or None)"""
        f = self.f
        s = symbol(f, addr)
        if s[0] == "gep" and any(p[0] == "f" and p[2] in ("edirs",) for p in s[2]):
            return s[1], {}
        if self.is_rec(s):
            if self.dirs.get(self.rec.get(s), (0, ""))[1] == "fdirs" or s not in self.rec and self.region(s):
                return None
            return s, {}
        a = f.get(strip(f, addr))
        if a is not None and a.op == "getelementptr" and len(a.path) == 1 and a.path[0][0] == "x":
            p = self.array(a.o[0])
            if p is not None:
                return p, pol(f, a.path[0][1])
        p = self.array(addr)
        if p is not None:
            return p, {}
        return None

    def vertex(self, s):
        """record of an entity that has no directions (types of the same layout may go by one name)"""
        return s[0] == "ld" and s[1][0] == "gep" and any(p[0] == "f" and p[2] == "adj" and p[1] not in ("%MRegion", "%MFace") for p in s[1][2])

    def region(self, s):
        return s[0] == "ld" and s[1][0] == "gep" and any(p[0] == "f" and p[1] == "%MRegion" for p in s[1][2])

    def array(self, v):
        """pointer to the first word of fdirs -> record symbol"""
        f = self.f
        s = symbol(f, v)
        if s[0] != "ld":
            return None
        b = s[1]
        if b[0] == "gep" and any(p[0] == "f" and p[2] == "fdirs" for p in b[2]):
            return b[1]
        if self.rec.get(b) == "MRegion_Adj_FN":
            return b
        if b[0] == "ld" and self.is_rec(b) and b[1][0] == "gep" and any(p[0] == "f" and p[1] == "%MRegion" for p in b[1][2]):
            return b
        return None

    def position(self, j, k):
        """bit k of word j -> position polynomial, or None (and what is wrong)"""
        kp, jp = pol(self.f, k), j
        if not jp and not any(a != () and a[0] == "mod" and a[2] == frz({(): 32}) for a in kp):
            return kp, None
        if len(kp) == 1 and len(jp) == 1:
            (ka, kc), (ja, jc) = next(iter(kp.items())), next(iter(jp.items()))
            if kc == jc == 1 and ka and ja and ka[0] == "mod" and ja[0] == "div" and ka[2] == ja[2]:
                if ka[1] == ja[1]:
                    return dict(ka[1]), None
                return None, "the bit and the word of a direction are not of the same place"
        if len(jp) == 1 and next(iter(jp))[:1] == ("div",) and not any(a != () and a[0] == "mod" for a in kp):
            return None, "the bit and the word of a direction are not of the same place"
        if const(kp) and const(jp):
            return {(): 32 * jp.get((), 0) + kp.get((), 0)}, None
        return None, "?"

    def get(self, v):
        """value of one direction bit -> (owner symbol, position, load instruction)"""
        f = self.f
        v = canon(f, v)
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = None
        x = f.get(v)
        r = None
        if x is not None and x.op == "call" and x.callee in GETI and len(x.o) >= 2:
            r = (symbol(f, x.o[0]), pol(f, x.o[1]), x)
        elif x is not None and x.op == "and":
            a, b = canon(f, x.o[0]), canon(f, x.o[1])
            if a == ("c", 1):
                a, b = b, a
            if b == ("c", 1):
                y = f.get(a)
                k = ("c", 0)
                if y is not None and y.op in ("lshr", "ashr"):
                    k = y.o[1]
                    y = f.get(strip(f, y.o[0]))
                if y is not None and y.op == "load":
                    w = self.word(y.o[0])
                    if w is not None:
                        p, why = self.position(w[1], k)
                        if p is not None:
                            r = (self.owner(w[0]), p, y)
                        elif why != "?":
                            self.bad.append((x, why))
        elif x is not None and x.op == "icmp" and x.p == "ne" and canon(f, x.o[1]) == ("c", 0):
            m = f.get(strip(f, x.o[0]))
            if m is not None and m.op == "and":
                for a, b in ((m.o[0], m.o[1]), (m.o[1], m.o[0])):
                    y, sft = f.get(strip(f, a)), self.shifted(b)
                    if y is not None and y.op == "load" and sft is not None and canon(f, sft[1]) == ("c", 1):
                        w = self.word(y.o[0])
                        if w is not None:
                            p, why = self.position(w[1], sft[0])
                            if p is not None:
                                r = (self.owner(w[0]), p, y)
                if r is None and self.get(strip(f, x.o[0])) is not None:
                    r = self.get(strip(f, x.o[0]))
        self.memo[v] = r
        return r

    def owner(self, rec):
        """record symbol -> symbol of the entity"""
        if rec[0] == "ld" and rec[1][0] == "gep":
            return rec[1][1]
        return rec

    def shifted(self, v):
        """v << k of a value -> (k, value) ; 1 << k -> (k, 1)"""
        f = self.f
        x = f.get(strip(f, v))
        if x is not None and x.op == "shl":
            return x.o[1], x.o[0]
        return None

    def store(self, x):
        """store into a direction word -> list of (kind, record, position, value)"""
        f = self.f
        w = self.word(x.o[1])
        if w is None:
            return None
        rec, j = w
        v = strip(f, x.o[0])
        if v in (("c", 0), ("null",)) or v[0] == "null":
            return [("zero", rec, None, None)]

        def isload(u):
            y = f.get(strip(f, u))
            if y is None or y.op != "load":
                return False
            q = self.word(y.o[0])
            return q is not None and q[0] == rec and q[1] == j

        def parse(u):
            if isload(u):
                return []
            y = f.get(strip(f, u))
            if y is None or y.op not in ("and", "or", "xor"):
                return None
            for a, b in ((y.o[0], y.o[1]), (y.o[1], y.o[0])):
                inner = parse(a)
                if inner is None:
                    continue
                if y.op == "and":
                    m = f.get(strip(f, b))
                    if m is not None and m.op == "xor" and any(strip(f, o) == ("c", -1) for o in m.o):
                        sh = self.shifted([o for o in m.o if strip(f, o) != ("c", -1)][0])
                        if sh is not None and canon(f, sh[1]) == ("c", 1):
                            p, why = self.position(j, sh[0])
                            return inner + [("clear", rec, p, None, why)]
                    c = canon(f, b)
                    if c[0] == "c" and c[1] in (-2, 0xfffffffe):
                        return inner + [("clear", rec, {}, None, None)]
                elif y.op == "or":
                    sh = self.shifted(b)
                    if sh is not None:
                        p, why = self.position(j, sh[0])
                        return inner + [("or", rec, p, sh[1], why)]
                    elif self.get(b) is not None:
                        return inner + [("or", rec, {}, b, None)]
                else:
                    sh = self.shifted(b)
                    if sh is not None and canon(f, sh[1]) == ("c", 1):
                        p, why = self.position(j, sh[0])
                        return inner + [("flip", rec, p, None, why)]
            return None
        r = parse(v)
        if r is None:
            return [("other", rec, None, None)]
        out = []
        for k, rc, p, val, why in r:
            if p is None and why not in (None, "?"):
                self.bad.append((x, why))
            out.append((k, rc, p, val))
        return out


def list_of(W, f, v):
    """list value -> record symbol when it is the edge or face list of a face or region"""
    s = symbol(f, v)
    if s[0] == "ld" and s[1][0] == "gep" and any(p[0] == "f" and p[2] in LISTF and p[1].lstrip("%") in W.dirs for p in s[1][2]) and not W.vertex(s[1][1]):
        return s[1][1]
    return None


INF = float("inf")
CHANGE = {"List_Add": 1, "List_ChknAdd": 1, "List_Inserti": 1, "List_Insert": 1, "List_Remi": -1, "List_Rem": -1, "List_RemSorted": -1, "List_Replacei": 0, "List_Replace": 0}


def counts(W, f, rec, ops):
    """per block: value -> (lo, hi) with number of entries + lo <= value <= number of entries + hi, at its start"""
    by = {x.i: d for x, d in ops}
    numb = set()
    news = set()
    for x in f.instrs():
        if x.op == "call" and x.callee == "List_Num_Entries" and list_of(W, f, x.o[0]) == rec:
            numb.add(x.i)
        if x.op == "store":
            s = symbol(f, x.o[1])
            if s[0] == "gep" and s[1] == rec and any(p[0] == "f" and p[2] in LISTF for p in s[2]):
                y = f.get(canon(f, x.o[0]))
                news.add((x.i, y is not None and y.op == "call" and y.callee == "List_New"))
    news = dict(news)

    def flow(st, x):
        if x.i in by:
            st = {v: (d[0] - by[x.i], d[1] - by[x.i]) for v, d in st.items()}
        elif x.i in numb:
            st[("i", x.i)] = (0, 0)
        elif x.i in news:
            st = {("c", 0): (0, 0)} if news[x.i] else {}
        elif x.op in ("add", "sub"):
            a, b = canon(f, x.o[0]), canon(f, x.o[1])
            if x.op == "add" and a[0] == "c":
                a, b = b, a
            if b[0] == "c" and a in st:
                k = b[1] if x.op == "add" else -b[1]
                st[("i", x.i)] = (st[a][0] + k, st[a][1] + k)
        return st
    IN = {0: {}}
    OUT = {}
    work = list(f.rpo())
    n = 0
    order = list(f.rpo())
    while n < 60:
        n += 1
        ch = False
        for b in order:
            ps = [p for p in f.pred[b] if p in OUT]
            if b != order[0]:
                if not ps:
                    continue
                st = None
                for p in ps:
                    o = dict(OUT[p])
                    for x in f.blocks[b]:
                        if x.op != "phi":
                            break
                        o.pop(("i", x.i), None)
                    for x in f.blocks[b]:
                        if x.op != "phi":
                            break
                        for v, pb in x.o:
                            if pb == p:
                                c = canon(f, v)
                                if c in OUT[p]:
                                    o[("i", x.i)] = OUT[p][c]
                    st = o if st is None else {k: (min(d[0], o[k][0]), max(d[1], o[k][1])) for k, d in st.items() if k in o}
                if n > 12 and b in IN:
                    st = {k: (d[0] if d[0] >= IN[b].get(k, d)[0] else -INF, d[1] if d[1] <= IN[b].get(k, d)[1] else INF) for k, d in st.items()}
            else:
                st = {}
            if IN.get(b) != st or b not in OUT:
                IN[b] = st
                ch = True
            cur = dict(st)
            for x in f.blocks[b]:
                if x.op != "phi":
                    cur = flow(cur, x)
            if OUT.get(b) != cur:
                OUT[b] = cur
                ch = True
        if not ch:
            break

    def at(x):
        cur = dict(IN.get(x.b, {}))
        for y in f.blocks[x.b]:
            if y.i == x.i:
                break
            if y.op != "phi":
                cur = flow(cur, y)
        return cur

    def offset(p, x, after=False):
        """polynomial -> d with p = number of entries + d before (after) x, or None"""
        st = at(x)
        if after:
            st = flow(dict(st), x)
        c = p.get((), 0)
        rest = {k: w for k, w in p.items() if k != ()}
        if not rest:
            return tuple(d + c for d in st[("c", 0)]) if ("c", 0) in st else None
        if len(rest) == 1 and next(iter(rest.values())) == 1:
            k = next(iter(rest))
            if k in st:
                return tuple(d + c for d in st[k])
        return None
    return offset


# ------------------------------------------------------------------ loops that move bits
def last_of(f, h, iv):
    """loop header h, counter iv (phi): (first value, step, last value) as polynomials, or None"""
    x = f.get(iv)
    loops = f.loops()
    body = loops[h]
    init = {canon(f, v) for v, pb in x.o if pb not in body}
    nxt = {canon(f, v) for v, pb in x.o if pb in body}
    if len(init) != 1 or len(nxt) != 1:
        return None
    st = padd(pol(f, next(iter(nxt))), {iv: 1}, -1)
    if not const(st) or st.get((), 0) not in (1, -1):
        return None
    step = st[()]
    exits = [(b, s) for b in body for s in f.succ[b] if s not in body]
    if len(exits) != 1:
        return None
    b, s = exits[0]
    t = f.blocks[b][-1]
    if t.op != "br" or not t.o:
        return None
    c = f.get(strip(f, t.o[0]))
    if c is None or c.op != "icmp":
        return None
    p, a, q = c.p, pol(f, c.o[0]), pol(f, c.o[1])
    stay = f.succ[b][0] in body
    me = {iv: 1}
    if iv not in a and iv in q:
        a, q = q, a
        p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
    if a.get(iv) != 1 or iv in q:
        return None
    q = padd(q, padd(a, me, -1), -1)
    if not stay:
        p = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[p]
    p = p.lstrip("u").lstrip("s") if p not in ("eq", "ne") else p
    if p == "lt" and step == 1:
        last = padd(q, {(): 1}, -1)
    elif p == "le" and step == 1:
        last = q
    elif p == "gt" and step == -1:
        last = padd(q, {(): 1})
    elif p == "ge" and step == -1:
        last = q
    elif p == "ne":
        last = padd(q, {(): step}, -1)
    else:
        return None
    return next(iter(init)), step, last


def together(f, a, b):
    """the two instructions are executed the same number of times, in the same round of the same loops"""
    if a.b == b.b:
        return True
    if innermost(f, a.b) != innermost(f, b.b):
        return False
    for p, q in ((a.b, b.b), (b.b, a.b)):
        if p in f.dom[q] and q in f.pdom[p]:
            return True
    return False


def chooser(f, b):
    """block reached by one decision within its round: (block that decides, value decided on, 1 if taken when it is 0), or None"""
    if len(f.pred[b]) != 1:
        return None
    d = f.pred[b][0]
    t = f.blocks[d][-1]
    if t.op != "br" or not t.o or len(set(f.succ[d])) != 2 or innermost(f, d) != innermost(f, b):
        return None
    c = f.get(strip(f, t.o[0]))
    val, n = strip(f, t.o[0]), 0
    if c is not None and c.op == "icmp" and c.p in ("eq", "ne") and canon(f, c.o[1]) == ("c", 0):
        n = c.p == "eq"
        val = canon(f, c.o[0])
        m = f.get(val)
        if m is not None and m.op == "and" and canon(f, m.o[1]) != ("c", 1) and canon(f, m.o[0]) != ("c", 1):
            val, n = ("i", c.i), 0
    return d, val, int(n != (f.succ[d][0] != b))


def outer(f, h):
    """header of the loop around the loop with header h, or None"""
    loops = f.loops()
    ls = [(len(bl), g) for g, bl in loops.items() if g != h and h in bl]
    return min(ls)[1] if ls else None


class Move:
    pass


def analyse(P, R, f):
    W = Words(P, f)
    name = f.name
    out = []

    def loc(x):
        return "%s:%d" % (f.file, x.line)
    ops = {}
    for x in f.instrs():
        if x.op == "call" and x.callee in CHANGE and x.o:
            rec = list_of(W, f, x.o[0])
            if rec is not None:
                ops.setdefault(rec, []).append((x, CHANGE[x.callee]))
    bits = []      # (instruction, kind, record, position, value)
    for x in f.instrs():
        if x.op == "store":
            r = W.store(x)
            for q in r or ():
                if q[0] == "other" and q[1] not in W.rec:
                    continue
                bits.append((x,) + q)
        elif x.op == "call" and x.callee in SETI and len(x.o) > 2:
            bits.append((x, "aset", ("rec", symbol(f, x.o[0])), pol(f, x.o[1]), x.o[2]))
        elif x.op == "call" and x.callee in SETE and len(x.o) > 2:
            bits.append((x, "eset", ("rec", symbol(f, x.o[0])), x.o[1], x.o[2]))
    if not ops and not any(b[1] in ("clear", "or", "flip", "aset") for b in bits):
        return out

    def same_rec(rb, rec):
        return rb == rec or rb[0] == "rec" and rb[1] == W.owner(rec)
    # ---- setting = clear and or at one place
    sets = []       # (instruction, record, position, value, how)
    used = set()
    zeroed = {b[2] for b in bits if b[1] == "zero"}
    for x in f.instrs():          # words fresh from calloc
        if x.op == "store":
            s = symbol(f, x.o[1])
            y = f.get(canon(f, x.o[0]))
            if y is not None and y.op == "call" and y.callee == "calloc":
                if W.is_rec(s):
                    zeroed.add(s)
                elif s[0] == "gep" and any(p[0] == "f" and p[2] == "fdirs" for p in s[2]):
                    zeroed.add(s[1])
    for x, k, rec, p, v in bits:
        if k == "aset":
            sets.append((x, rec, p, v, "aset"))
        if k != "or" or p is None:
            continue
        cl = [c for c in bits if c[1] == "clear" and c[2] == rec and c[3] is not None and c[3] == p and together(f, c[0], x)
              and (c[0].i == x.i or c[0].b in f.dom[x.b] and (c[0].b != x.b or c[0].pos < x.pos))]
        fresh = rec in zeroed and not any(c[1] == "clear" and c[2] == rec for c in bits)
        if canon(f, v) == ("c", 1):
            # if (v) set the bit [else clear it]
            t = chooser(f, x.b)
            if t is not None:
                tb, val, n = t
                arm = [c for c in bits if c[1] == "clear" and c[2] == rec and c[3] == p and chooser(f, c[0].b) == (tb, val, 1 - n)]
                pre = [c for c in bits if c[1] == "clear" and c[2] == rec and c[3] == p and together(f, c[0], f.blocks[tb][-1]) and c[0].b in f.dom[tb]]
                used.update(c[0].i for c in arm + pre)
                if arm or pre:
                    cl = arm + pre
                if n == 0:
                    x, v = f.blocks[tb][-1], val
        out.append(("word", name, 1))
        if cl:
            used.update(c[0].i for c in cl)
        elif not fresh:
            late = [c for c in bits if c[1] == "clear" and c[2] == rec and c[3] == p and together(f, c[0], x)]
            out.append(("bad", "word", "%s or" % name, loc(x), "%s puts a direction into a place %s" % (
                name, "and clears the place afterwards" if late else "that has not been cleared of the one recorded there before")))
        sets.append((x, rec, p, v, "or"))
    for x, k, rec, p, v in bits:
        if k == "clear" and p is not None and x.i not in used:
            out.append(("bad", "word", "%s clear" % name, loc(x), "%s clears the direction of a place and records none there%s" % (name, "")))
        elif k == "clear":
            out.append(("word", name, 1))
        elif k == "flip":
            out.append(("word", name, 1))
        elif k == "other":
            out.append(("undec", "word", "%s:%d" % (name, x.line)))
    for x, why in W.bad:
        out.append(("bad", "word", "%s bit" % name, loc(x), "%s: %s" % (name, why)))
    # ---- moves
    moves = []
    rest = []
    loops = f.loops()
    for x, rec, p, v, how in sets:
        g = W.get(v)
        h = innermost(f, x.b)
        mv = None
        if g is not None and h is not None and p is not None and (g[0] == W.owner(rec) or rec[0] == "rec" and g[0] == rec[1]):
            dif = padd(g[1], p, -1)
            if const(dif) and abs(dif.get((), 0)) == 1:
                ivs = [k for k in p if k != () and k[0] == "i" and p[k] == 1 and f.get(k) is not None and f.get(k).op == "phi" and f.get(k).b == h]
                if len(ivs) == 1:
                    rg = last_of(f, h, ivs[0])
                    if rg is not None:
                        mv = Move()
                        mv.x, mv.rec, mv.h, mv.how = x, rec, h, how
                        mv.dif = dif[()]
                        rest_p = padd(p, {ivs[0]: 1}, -1)
                        mv.first = padd(pol(f, rg[0]), rest_p)
                        mv.last = padd(rg[2], rest_p)
                        mv.step = rg[1]
                        moves.append(mv)
                    else:
                        out.append(("undec", "moved", "%s:%d loop" % (name, x.line)))
                        mv = True
                elif ivs == []:
                    pass
        if mv is None:
            rest.append((x, rec, p, v, how))
    for m in moves:
        out.append(("moved", name, 1))
        if m.dif != m.step:
            out.append(("bad", "moved", "%s order" % name, loc(m.x), "%s moves directions by one place in the order that overwrites the ones still to be moved" % name))
        # every round moves: the store is reached on every round, or is skipped only when nothing would change
        cds = [(c, s) for c, s in f.control_deps().get(m.x.b, ()) if c in loops[m.h] and c != m.h and any(t not in loops[m.h] for t in f.succ[c]) is False]
        for c, s in cds:
            t = f.blocks[c][-1]
            cc = f.get(strip(f, t.o[0])) if t.o else None
            ok = False
            if cc is not None and cc.op == "icmp" and cc.p in ("ne", "eq"):
                a, b2 = W.get(cc.o[0]), W.get(cc.o[1])
                if a is not None and b2 is not None:
                    d2 = padd(a[1], b2[1], -1)
                    taken = f.succ[c][0] == s if s in f.succ[c] else True
                    ok = const(d2) and abs(d2.get((), 0)) == 1 and (cc.p == "ne") == taken
            if not ok:
                out.append(("bad", "moved", "%s condition" % name, loc(m.x), "%s moves a direction with its edge or face only under a condition" % name))
    # ---- every change of the list has its change of the directions
    matched = set()
    mm = set()
    for rec, lops in ops.items():
        offset = counts(W, f, rec, lops)
        rmoves = [m for m in moves if same_rec(m.rec, rec)]
        opaque = any(b[1] == "other" and b[2] == rec for b in bits)      # directions are also changed in ways that are not taken apart
        # two loops in a row, one per change: the one that belongs to a change is in the same round
        for x, d in lops:
            n = x.callee
            head = innermost(f, x.b)

            def near(m):
                if outer(f, m.h) != head:
                    return None
                pre = m.h
                if x.b in f.dom[pre] and pre in f.pdom[x.b]:
                    return "after"
                if pre in f.dom[x.b] and x.b in f.pdom[pre]:
                    return "before"
                return None
            ms = [(m, near(m)) for m in rmoves if near(m)]
            key = "%s %s" % (name, n)
            if n in ("List_Remi", "List_Rem", "List_RemSorted"):
                out.append(("moved", name, 1))
                downs = [(m, w) for m, w in ms if m.dif == 1]
                if not downs:
                    if n == "List_Remi" and not any(m.dif == 1 for m in rmoves):
                        if opaque:
                            out.append(("undec", "moved", key))
                        else:
                            out.append(("bad", "moved", key, loc(x), "%s takes an entry out of the list and leaves the directions of those that follow where they were" % name))
                    else:
                        out.append(("undec", "moved", key))
                    continue
                m, w = downs[0]
                mm.add(m.x.i)
                if n == "List_Remi":
                    at = pol(f, x.o[1])
                    if frz(at) != frz(m.first):
                        out.append(("bad", "moved", key + " first", loc(m.x), "%s: the directions are moved from another place than the one where the entry was taken out" % name))
                d1 = offset(m.last, x, after=(w == "after"))
                # after the removal there are c entries, places 0..c-1; place c-1 gets what was at c
                if d1 is None:
                    out.append(("undec", "moved", key + " last"))
                else:
                    # (moving what is recorded behind the last entry does no harm)
                    if d1[0] < (-1 if w == "after" else -2):
                        out.append(("bad", "moved", key + " last", loc(m.x), "%s: the move of the directions ends before the last entry" % name))
                if m.how == "aset" and w != "after":
                    out.append(("bad", "side", key, loc(m.x), "%s records the directions of the following entries (and the sides of their faces) before the entry is taken out of the list: other faces change sides" % name))
            elif n in ("List_Inserti",):
                out.append(("moved", name, 1)); out.append(("place", name, 1))
                at = pol(f, x.o[2])
                ups = [(m, w) for m, w in ms if m.dif == -1]
                if not ups:
                    out.append(("bad", "moved", key, loc(x), "%s puts an entry into the list and leaves the directions of those that follow where they were" % name) if not any(
                        b[1] == "other" and b[2] == rec for b in bits) else ("undec", "moved", key))
                else:
                    m, w = ups[0]
                    mm.add(m.x.i)
                    if frz(padd(at, {(): 1})) != frz(m.last):
                        out.append(("bad", "moved", key + " last", loc(m.x), "%s: the directions are moved from another place than the one where the entry was put in" % name))
                    d1 = offset(m.first, x, after=(w == "after"))
                    if d1 is None:
                        out.append(("undec", "moved", key + " first"))
                    else:
                        if d1[0] < (-1 if w == "after" else 0):
                            out.append(("bad", "moved", key + " first", loc(m.x), "%s: the move of the directions does not start at the last entry" % name))
                place(f, W, out, key, x, at, x.o[1], rest, rec, same_rec, matched, loc, ups[0][0] if ups else None, opaque)
            elif n == "List_Replacei":
                out.append(("place", name, 1))
                place(f, W, out, key, x, pol(f, x.o[1]), x.o[2], rest, rec, same_rec, matched, loc, None, opaque)
            elif n == "List_Add":
                out.append(("place", name, 1))
                hits = []
                for y, rb, p, v, how in rest:
                    if same_rec(rb, rec) and together(f, x, y) and p is not None:
                        dd = offset(p, y)
                        hits.append((y, dd, v, how))
                es = [b for b in bits if b[1] == "eset" and same_rec(b[2], rec) and canon(f, b[3]) == canon(f, x.o[1]) or b[1] == "eset" and same_rec(b[2], rec) and symbol(f, b[3]) == symbol(f, x.o[1])]
                es = [b for b in es if together(f, x, b[0])]
                if es:
                    b = es[0]
                    if not (x.b in f.dom[b[0].b] and (x.b != b[0].b or x.pos < b[0].pos)):
                        out.append(("bad", "place", key, loc(x), "%s sets the direction of an entry before the entry is in the list" % name))
                    paired(f, W, out, key, x, x.o[1], b[4], loc)
                elif not hits and opaque:
                    out.append(("undec", "place", key))
                elif not hits:
                    out.append(("bad", "place", key, loc(x), "%s puts an entry at the end of the list and records no direction for it" % name))
                else:
                    y, dd, v, how = hits[0]
                    before = y.b in f.dom[x.b] and (y.b != x.b or y.pos < x.pos)
                    want = 0 if before else -1
                    if dd is None:
                        out.append(("undec", "place", key))
                    elif dd[0] == dd[1] and dd[0] != want or want < dd[0] or want > dd[1] or INF in dd or -INF in dd:
                        out.append(("bad", "place", key, loc(y), "%s records the direction of an entry put at the end of the list at another place" % name))
                    matched.add(y.i)
                    paired(f, W, out, key, x, x.o[1], v, loc)
            else:
                out.append(("undec", "place", key))
    for m in moves:
        if m.x.i not in mm and ops:
            out.append(("undec", "moved", "%s:%d alone" % (name, m.x.line)))
    return out


def place(f, W, out, key, x, at, e, rest, rec, same_rec, matched, loc, mv, opaque=False):
    """the direction of entry e, put at place `at` by x, is recorded at the same place"""
    c = [r for r in rest if same_rec(r[1], rec) and together(f, x, r[0])]
    if not c:
        out.append(("undec", "place", key) if opaque else ("bad", "place", key, loc(x), "%s puts an entry into the list and records no direction for it" % f.name))
        return
    y = None
    for r in c:
        if r[2] is not None and frz(r[2]) == frz(at):
            y = r
            if mv is not None and not (mv.h in f.dom[r[0].b]):
                out.append(("bad", "word", key, loc(r[0]), "%s records the direction of the new entry before the ones behind it are moved away" % f.name))
            break
    if y is None:
        if any(r[2] is None for r in c):
            out.append(("undec", "place", key))
        else:
            out.append(("bad", "place", key, loc(c[0][0]), "%s records the direction of an entry at another place than the entry itself" % f.name))
        return
    matched.add(y[0].i)
    paired(f, W, out, key, x, e, y[3], loc)


def element(f, v):
    """value read from an array -> (array symbol, index polynomial)"""
    x = f.get(canon(f, v))
    if x is None or x.op != "load":
        return None
    a = f.get(strip(f, x.o[0]))
    if a is not None and a.op == "getelementptr" and a.path and all(p[0] == "x" for p in a.path):
        return symbol(f, a.o[0]), pol(f, a.path[-1][1])
    if a is None or a.op in ("alloca", "call", "phi"):
        return symbol(f, x.o[0]), {}
    return None


def paired(f, W, out, key, x, e, v, loc):
    """direction v goes with entry e"""
    out.append(("given", f.name, 1))
    a, b = element(f, e), element(f, v)
    if a is not None and b is not None:
        if frz(a[1]) != frz(b[1]):
            out.append(("bad", "given", key, loc(x), "%s records the direction that was given for another entry (element %s, the entry is element %s)" % (f.name, sh(f, b[1]), sh(f, a[1]))))
            return
        filled(f, W, out, key, x, a[0], b[0], loc)
        return
    ce, cv = canon(f, e), canon(f, v)
    if ce[0] == "a" and cv[0] == "a":
        return
    if cv[0] == "c":
        out.append(("bad", "given", key, loc(x), "%s records a fixed direction for an entry whose direction was given" % f.name))
        return
    y = f.get(cv)
    if y is not None and (y.op == "xor" or y.op == "icmp"):
        o = [q for q in y.o if canon(f, q)[0] != "c"]
        if len(o) == 1 and (canon(f, o[0])[0] == "a" or element(f, o[0]) is not None):
            out.append(("bad", "given", key, loc(x), "%s records the opposite of the direction given" % f.name))
            return
    out.append(("undec", "given", key))


def stores_of(f, arr):
    out = []
    for y in f.instrs():
        if y.op == "store":
            a = f.get(strip(f, y.o[1]))
            if a is not None and a.op == "getelementptr" and a.path and all(p[0] == "x" for p in a.path) and symbol(f, a.o[0]) == arr:
                out.append((y, pol(f, a.path[-1][1])))
            elif symbol(f, y.o[1]) == arr and arr[0] == "i":
                out.append((y, {}))
    return out


def filled(f, W, out, key, x, E, D, loc):
    """local arrays of entries and directions: filled together, each direction worked out from its own entry"""
    es, ds = stores_of(f, E), stores_of(f, D)
    if not es or not ds:
        return
    out.append(("given", f.name, 1))
    pairs = [(e, d) for e, pe in es for d, pd in ds if frz(pe) == frz(pd) and together(f, e, d)]
    if not pairs:
        out.append(("bad", "given", key + " arrays", loc(x), "%s records directions that were worked out for other entries" % f.name))
        return
    for e, d in pairs:
        c, n = negs(f, d.o[0])
        q = f.get(c)
        if q is None or q.op != "icmp" or q.p not in ("eq", "ne"):
            continue
        for o, w in ((q.o[0], q.o[1]), (q.o[1], q.o[0])):
            y = f.get(canon(f, o))
            ph = f.get(canon(f, w))
            if y is None or y.op != "call" or y.callee != "ME_Vertex" or canon(f, y.o[1])[0] != "c" or ph is None or ph.op != "phi" or ph.b not in f.loops():
                continue
            end = canon(f, y.o[1])[1]
            par = (n + (q.p == "ne")) % 2
            out.append(("sense", f.name, 1))
            body = f.loops()[ph.b]
            init = [v for v, pb in ph.o if pb not in body]
            nxt = [v for v, pb in ph.o if pb in body]
            # w is where the entry starts
            if (end != 0) != bool(par):
                out.append(("bad", "sense", key + " direction", loc(d), "%s takes an edge that starts at the vertex reached so far for one used backward" % f.name))
            for v in nxt:
                z = f.get(canon(f, v))
                if z is None or z.op != "call" or z.callee != "ME_Vertex":
                    continue
                out.append(("sense", f.name, 1))
                zc, zn = negs(f, z.o[1])
                same = zc == c and zn % 2 == n % 2
                el = element(f, z.o[1])
                if el is not None and el[0] == D:
                    same = any(dd is d and frz(pd) == frz(el[1]) for dd, pd in ds)
                    zc = c
                if zc[0] == "c" or zc == c and not same:
                    out.append(("bad", "sense", key + " next", loc(z), "%s goes on from the wrong end of an edge" % f.name))
            for v in init:
                z = f.get(canon(f, v))
                if z is not None and z.op == "call" and z.callee == "ME_Vertex":
                    zc, zn = negs(f, z.o[1])
                    a, b = element(f, z.o[0]), element(f, zc)
                    if a is not None and b is not None:
                        out.append(("sense", f.name, 1))
                        if frz(a[1]) != frz(b[1]) or a[1] or zn % 2 == 0:
                            out.append(("bad", "sense", key + " start", loc(z), "%s does not begin where the first edge replaced begins" % f.name))


def sh(f, p):
    return " + ".join(("" if c == 1 else "%d*" % c) + (str(k[-1]) if k and k[0] in ("i", "a") else "..") if k != () else str(c) for k, c in p.items()) or "0"


# ------------------------------------------------------------------ uses
def edge_facts(f, pb, b):
    """conditions known on the edge pb -> b: {condition: truth}"""
    out = {}
    if pb not in f.dom:
        return out
    chain = [(d, s) for d in f.dom[pb] for s in set(f.succ[d]) if f.pred[s] == [d] and s in f.dom[pb]] + [(pb, b)]
    for d, s in chain:
        t = f.blocks[d][-1]
        if t.op == "br" and t.o and len(set(f.succ[d])) == 2:
            k, po = ir.cond_key(f, t.o[0])
            out[k] = po == (f.succ[d][0] == s)
    return out


def compatible(f, t, u):
    def facts(z):
        if z is None:
            return {}
        return {z[1]: z[2]} if z[0] == "sel" else edge_facts(f, z[2], z[1])
    a, b = facts(t), facts(u)
    return not any(k in b and b[k] != v for k, v in a.items())


def arms(f, v):
    """value -> [(token, value)]: the alternatives of a choice, recognisable in other choices by their token"""
    c = strip(f, v)
    x = f.get(c)
    if x is not None and x.op == "select":
        k, pol_ = ir.cond_key(f, x.o[0])
        return [(("sel", k, pol_), x.o[1]), (("sel", k, not pol_), x.o[2])]
    if x is not None and x.op == "phi" and x.b not in f.loops():
        return [(("phi", x.b, pb), w) for w, pb in x.o]
    return [(None, v)]


def getsin(W, f, v, depth=0):
    """direction bits a value is computed from"""
    g = W.get(v)
    if g is not None:
        return [(canon(f, v), g)]
    x = f.get(canon(f, v))
    if x is None or depth > 6 or x.op not in ("xor", "and", "or", "icmp", "select", "sub", "zext"):
        return []
    out = []
    for o in x.o:
        out += getsin(W, f, o, depth + 1)
    return out


def entry(W, f, v):
    """entity value -> (owner symbol, place) when it was taken from the edges of a face or the faces of a region"""
    x = f.get(canon(f, v))
    if x is None or x.op != "call" or x.callee != "List_Entry":
        return None
    rec = list_of(W, f, x.o[0])
    if rec is not None:
        return W.owner(rec), pol(f, x.o[1])
    y = f.get(canon(f, x.o[0]))
    if y is not None and y.op == "call":
        if y.callee == "MF_Edges" and canon(f, y.o[1]) == ("c", 1) and canon(f, y.o[2]) in (("null",), ("c", 0)):
            return symbol(f, y.o[0]), pol(f, x.o[1])
        if y.callee == "MF_Edges" and len(y.o) > 2:
            return symbol(f, y.o[0]), None
        if y.callee == "MR_Faces":
            return symbol(f, y.o[0]), pol(f, x.o[1])
    return None


def uses(P, R, f):
    W = Words(P, f)
    name = f.name
    out = []

    def loc(x):
        return "%s:%d" % (f.file, x.line)
    has = False
    stores = {}
    for x in f.instrs():
        if x.op == "call" and x.callee in SIDED or x.op == "call" and x.callee in SPANS:
            if len(x.o) < 2:
                continue
            ea, sa = arms(f, x.o[0]), arms(f, x.o[1])
            for te, e in ea:
                for ts, s in sa:
                    if not compatible(f, te, ts):
                        continue
                    gs = getsin(W, f, s)
                    y = f.get(strip(f, s))
                    if not gs and y is not None and y.op == "xor":      # the choice lies inside
                        for o in y.o:
                            for to, w in arms(f, o):
                                if to is not None and compatible(f, te, to):
                                    gs += getsin(W, f, w)
                    for _, g in gs:
                        en = entry(W, f, e)
                        if en is None or en[0] != g[0]:
                            continue
                        out.append(("same", name, 1))
                        if en[1] is None:
                            out.append(("undec", "same", "%s:%d" % (name, x.line)))
                        elif frz(en[1]) != frz(g[1]):
                            out.append(("bad", "same", "%s %s" % (name, x.callee), loc(x), "%s uses the direction recorded at one place with the entry of another" % name))
        if x.op == "store":
            a = f.get(strip(f, x.o[1]))
            if a is not None and a.op == "getelementptr" and a.path and all(p[0] == "x" for p in a.path):
                stores.setdefault((x.b, frz(pol(f, a.path[-1][1]))), []).append(x)
        if x.op == "call" and x.callee in GETE and len(x.o) > 1:
            for u in f.uses.get(("i", x.i), ()):
                if u.op == "call" and u.callee in SIDED and canon(f, u.o[1]) == ("i", x.i):
                    a, b = symbol(f, x.o[1]), symbol(f, u.o[0])
                    if a[0] in ("i", "a") and b[0] in ("i", "a"):
                        out.append(("same", name, 1))
                        if a != b and not (ir_alias(f, a, b)):
                            out.append(("undec", "same", "%s:%d" % (name, u.line)))
    for key, ss in stores.items():
        for d in ss:
            for _, g in getsin(W, f, d.o[0]):
                for e in ss:
                    en = entry(W, f, e.o[0])
                    if e is not d and en is not None and en[0] == g[0]:
                        out.append(("same", name, 1))
                        if en[1] is None:
                            out.append(("undec", "same", "%s:%d" % (name, e.line)))
                        elif frz(en[1]) != frz(g[1]):
                            out.append(("bad", "same", "%s array" % name, loc(d), "%s notes the direction recorded at one place along with the entry of another" % name))
    # found by comparison, then asked by place
    for b, blk in enumerate(f.blocks):
        t = blk[-1]
        if t.op != "br" or not t.o or len(f.succ[b]) != 2:
            continue
        c = f.get(strip(f, t.o[0]))
        if c is None or c.op != "icmp" or c.p not in ("eq", "ne"):
            continue
        for o in c.o:
            en = entry(W, f, o)
            if en is None or en[1] is None:
                continue
            s = f.succ[b][0 if c.p == "eq" else 1]
            if f.pred[s] != [b]:
                continue
            for y in f.blocks[s]:
                g = W.get(("i", y.i)) if y.op in ("and", "call") else None
                if g is not None and g[0] == en[0]:
                    out.append(("same", name, 1))
                    if frz(g[1]) != frz(en[1]):
                        out.append(("bad", "same", "%s found" % name, loc(y), "%s finds an entry at one place and reads the direction at another" % name))
                if y.op == "call" and y.callee and y.callee in P.funcs and len(y.o) > 1 and re.search(r"Dir_i(_|$)", y.callee) and symbol(f, y.o[0]) == en[0]:
                    out.append(("same", name, 1))
                    if frz(pol(f, y.o[1])) != frz(en[1]):
                        out.append(("bad", "same", "%s found" % name, loc(y), "%s finds an entry at one place and sets the direction at another" % name))
    return out


def varies(f, v, body, depth=0, seen=None):
    """the value can change from one round of the loop to the next"""
    seen = set() if seen is None else seen
    v = canon(f, v)
    if v in seen or v[0] != "i":
        return False
    seen.add(v)
    x = f.get(v)
    if x is None or x.b not in body:
        return False
    if x.op in ("phi", "load", "call") or depth > 12:
        return x.op != "call" or x.callee not in ("List_Entry", "List_Num_Entries") or any(varies(f, o, body, depth + 1, seen) for o in x.o)
    return any(varies(f, o, body, depth + 1, seen) for o in x.o if isinstance(o, tuple) and len(o) == 2)


def stepping(P, R, f):
    """directions of the entries of a face or region that a loop steps through"""
    out = []
    for x in f.instrs():
        if x.op != "call" or x.callee not in GETI or len(x.o) < 2:
            continue
        h = innermost(f, x.b)
        if h is None:
            continue
        body = f.loops()[h]
        if varies(f, x.o[0], body):
            continue
        F = symbol(f, x.o[0])
        why = None
        for y in f.instrs():
            if y.b not in body or innermost(f, y.b) != h:
                continue
            if y.op == "call" and y.callee in ("List_Entry", "List_Next_Entry"):
                z = f.get(canon(f, y.o[0]))
                if z is not None and z.op == "call" and z.callee in ("MF_Edges", "MR_Faces") and symbol(f, z.o[0]) == F and (y.callee == "List_Next_Entry" or varies(f, y.o[1], body)):
                    why = "steps through the %s and asks for the direction of the same one every time" % ("edges of a face" if GETI[x.callee] == "F" else "faces of a region")
            if y.op == "store" and canon(f, negs(f, y.o[0])[0]) == ("i", x.i):
                a = f.get(strip(f, y.o[1]))
                if a is not None and a.op == "getelementptr" and a.path and a.path[-1][0] == "x" and varies(f, a.path[-1][1], body):
                    why = why or "notes the same direction at every place"
        if why:
            out.append(("same", f.name, 1))
            if not varies(f, x.o[1], body):
                out.append(("bad", "same", "%s %s" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s %s" % (f.name, why)))
    return out


def ir_alias(f, a, b):
    return summ.origins(f, a) == summ.origins(f, b)


BUILD = {"MF_Set_Edges": [(2, 3)], "MR_Set_Faces": [(2, 3)], "MR_Replace_Faces": [(4, 5)]}


def reaches(f, d, x, ds):
    """what d stores is still there at x"""
    if d.b == x.b and d.pos < x.pos:
        return not any(e is not d and e.b == x.b and d.pos < e.pos < x.pos for e, _ in ds)
    return d.b in f.dom[x.b] and not any(e is not d and e.b in f.dom[x.b] and d.b in f.dom[e.b] and not (e.b == x.b and e.pos > x.pos) for e, _ in ds)


def built(P, R, f):
    """arrays of entities and directions handed to the operation that makes a face or region of them"""
    out = []
    done = set()
    for x in f.instrs():
        if x.op != "call" or x.callee not in BUILD:
            continue
        for i, j in BUILD[x.callee]:
            if len(x.o) <= j:
                continue
            E, D = symbol(f, x.o[i]), symbol(f, x.o[j])
            if (E, D) in done or D[0] == "null":
                continue
            done.add((E, D))
            es, ds = stores_of(f, E), stores_of(f, D)
            if x.callee == "MR_Replace_Faces":
                vals = [(d, d.o[0]) for d, pd in ds]
                for d, v in vals:
                    c, n = negs(f, v)
                    g = f.get(c)
                    if g is not None and g.op == "call" and (g.callee in GETE or g.callee in GETI) and (GETE.get(g.callee) or GETI.get(g.callee)) == "R":
                        if not reaches(f, d, x, ds):
                            continue
                        out.append(("given", f.name, 1))
                        if (symbol(f, g.o[0]) == symbol(f, x.o[0])) != (n % 2 == 0) and (n % 2 == 0 or g.callee in GETI):
                            out.append(("bad", "given", "%s %s region" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s hands on a direction in another region" % f.name))
            for d, pd in ds:
                same = [e for e, pe in es if frz(pe) == frz(pd) and together(f, e, d)]
                el = element(f, negs(f, d.o[0])[0])
                for e in same:
                    ee = element(f, e.o[0])
                    if el is None or ee is None:
                        continue
                    out.append(("given", f.name, 1))
                    if frz(el[1]) != frz(ee[1]):
                        out.append(("bad", "given", "%s %s" % (f.name, x.callee), "%s:%d" % (f.file, d.line), "%s hands on an entity along with the direction of another" % f.name))
                if es and not same and el is not None:
                    out.append(("given", f.name, 1))
                    near = [e for e, pe in es if together(f, e, d)]
                    if near and all(element(f, e.o[0]) is not None for e in near) and len(near) == 1 and len([q for q, _ in ds if together(f, near[0], q)]) == 1:
                        out.append(("bad", "given", "%s %s place" % (f.name, x.callee), "%s:%d" % (f.file, d.line), "%s hands on a direction at another place than its entity" % f.name))
                    else:
                        out.append(("undec", "given", "%s:%d" % (f.name, d.line)))
    return out


# ------------------------------------------------------------------ sides
def negs(f, v, depth=0):
    """value -> (core value, number of negations)"""
    n = 0
    while depth < 8:
        depth += 1
        c = canon(f, v)
        x = f.get(c)
        if x is None:
            return c, n
        if x.op == "xor" and any(canon(f, o) == ("c", 1) for o in x.o) or x.op == "xor" and x.t == "i1" and any(strip(f, o) == ("c", -1) for o in x.o):
            v = [o for o in x.o if canon(f, o)[0] != "c"][0]
            n += 1
        elif x.op == "icmp" and x.p in ("eq", "ne") and any(canon(f, o)[0] == "c" for o in x.o):
            k = [canon(f, o) for o in x.o if canon(f, o)[0] == "c"][0][1]
            oo = [o for o in x.o if canon(f, o)[0] != "c"]
            if len(oo) != 1 or k not in (0, 1):
                return c, n
            v = oo[0]
            n += (k == 0) == (x.p == "eq")
        elif x.op == "sub" and canon(f, x.o[0]) == ("c", 1):
            v = x.o[1]
            n += 1
        elif x.op == "select" and canon(f, x.o[1])[0] == "c" and canon(f, x.o[2])[0] == "c":
            a, b = canon(f, x.o[1])[1], canon(f, x.o[2])[1]
            if (a, b) == (1, 0):
                v = x.o[0]
            elif (a, b) == (0, 1):
                v = x.o[0]
                n += 1
            else:
                return c, n
        else:
            return c, n
    return c, n


def sides(P, R, f):
    out = []
    calls = [x for x in f.instrs() if x.op == "call" and x.callee == "MF_Add_Region" and len(x.o) > 2]
    if not calls:
        return out
    W = Words(P, f)
    name = f.name
    dirs = []     # (owner symbol, face symbol or None, place or None, core value, parity, instruction)
    flips = []
    for x in f.instrs():
        if x.op == "store":
            for k, rec, p, v in W.store(x) or ():
                if k == "or" and p is not None:
                    c, n = negs(f, v)
                    dirs.append((W.owner(rec), None, p, c, n, x))
                elif k == "flip":
                    flips.append((W.owner(rec), p, x))
        elif x.op == "call" and x.callee in SETI and len(x.o) > 2:
            c, n = negs(f, x.o[2])
            dirs.append((symbol(f, x.o[0]), None, pol(f, x.o[1]), c, n, x))
        elif x.op == "call" and x.callee in SETE and len(x.o) > 2:
            c, n = negs(f, x.o[2])
            dirs.append((symbol(f, x.o[0]), symbol(f, x.o[1]), None, c, n, x))
    for x in calls:
        F, G, S = symbol(f, x.o[0]), symbol(f, x.o[1]), x.o[2]
        key = "%s MF_Add_Region" % name
        loc = "%s:%d" % (f.file, x.line)
        c, n = negs(f, S)
        want = None
        who = None
        for own_, fs, p, v, m, y in dirs:
            same_v = v == c or element(f, v) is not None and element(f, v) == element(f, c)
            if same_v and own_ == G and (fs is None or fs == F) and together_or_dom(f, x, y):
                want = (m + 1) % 2
                who = y
                break
        if want is None:
            g = W.get(c)
            if g is not None:
                m = 0
                for own_, p, y in flips:
                    if own_ == g[0] and p == g[1]:
                        l = g[2]
                        if not (y.b in f.dom[l.b] and (y.b != l.b or y.pos < l.pos)):
                            m = 1
                en = entry(W, f, x.o[0])
                if en is not None and en[0] == g[0] and en[1] is not None and frz(en[1]) != frz(g[1]):
                    out.append(("bad", "side", key, loc, "%s attaches a region to a face on the side that the direction of another face says" % name))
                    continue
                want = (1 + m) % 2 if g[0] == G else (0 + m) % 2
                if g[0] != G and en is None:
                    want = None
        if want is None:
            # element pairs: faces[i] and dirs[i] handed in together
            a, b = element(f, x.o[0]), element(f, c)
            if a is not None and b is not None and any(v == c or element(f, v) == b for _, _, _, v, _, _ in dirs):
                if frz(a[1]) != frz(b[1]):
                    out.append(("bad", "side", key, loc, "%s attaches a region to a face on the side that the direction of another face says" % name))
                    continue
            out.append(("undec", "side", "%s:%d" % (name, x.line)))
            continue
        out.append(("side", name, 1))
        if n % 2 != want:
            out.append(("bad", "side", key, loc, "%s attaches a region to the other side of a face than its direction says" % name))
        a, b = element(f, x.o[0]), element(f, c)
        if a is not None and b is not None and frz(a[1]) != frz(b[1]):
            out.append(("bad", "side", key, loc, "%s attaches a region to a face on the side that the direction of another face says" % name))
    return out


def together_or_dom(f, x, y):
    return together(f, x, y) or y.b in f.dom[x.b] or x.b in f.dom[y.b]


# ------------------------------------------------------------------ listing forward and backward
LISTING = re.compile(r"^MF_(Vertices|Edges|VertexIDs|EdgeIDs)_(F1F3|F2F4|R1|R2|R4|RN|F1|F4)$")


def known(f, b, a):
    """what argument a is known to be (True: not 0) in block b, or None"""
    for d in f.dom[b]:
        t = f.blocks[d][-1]
        if t.op != "br" or not t.o or len(f.succ[d]) != 2:
            continue
        c, n = negs(f, t.o[0])
        if c != a:
            continue
        for i, s in enumerate(f.succ[d]):
            if f.pred[s] == [d] and s in f.dom[b] or s == b and f.pred[s] == [d]:
                return (i == 0) == (n % 2 == 0)
    return None


def truth(W, f, v, a, g, env, depth=0):
    c = canon(f, v)
    if c == a:
        return env["dir"]
    if c[0] == "c":
        return c[1]
    if c == g:
        return env["bit"]
    x = f.get(c)
    if x is None or depth > 8:
        return None
    o = [truth(W, f, w, a, g, env, depth + 1) for w in x.o if w[0] != "b"] if x.op in ("xor", "and", "or", "icmp", "sub", "select") else None
    if x.op == "select" and o and o[0] is not None:
        return o[1] if o[0] else o[2]
    if not o or None in o:
        return None
    if x.op == "xor":
        return (o[0] ^ o[1]) & 1
    if x.op == "and":
        return o[0] & o[1]
    if x.op == "or":
        return o[0] | o[1]
    if x.op == "sub":
        return o[0] - o[1]
    if x.p in ("eq", "ne"):
        return int((o[0] == o[1]) == (x.p == "eq"))
    return None


def listing(P, R, f):
    out = []
    if not LISTING.match(f.name):
        return out
    W = Words(P, f)
    name = f.name
    a = ("a", 1)
    for x in f.instrs():
        loc = "%s:%d" % (f.file, x.line)
        if x.op == "call" and x.callee in ("ME_Vertex", "ME_VertexID"):
            y = f.get(canon(f, x.o[1]))
            cands = getsin(W, f, x.o[1])
            extra = []
            if not cands and y is not None:
                for o in y.o:
                    for t, w in arms(f, o):
                        if t is not None and W.get(w) is not None:
                            cands = [(canon(f, o), None)]
            if not cands:
                continue
            out.append(("sense", name, 1))
            dk = known(f, x.b, a)
            tab = {}
            for d in (0, 1):
                if dk is not None and d != int(dk):
                    continue
                for bit in (0, 1):
                    tab[(d, bit)] = truth(W, f, x.o[1], a, cands[0][0], {"dir": d, "bit": bit})
            if None in tab.values():
                out.append(("undec", "sense", "%s:%d" % (name, x.line)))
            elif any(v != d ^ bit for (d, bit), v in tab.items()):
                out.append(("bad", "sense", "%s %s" % (name, x.callee), loc, "%s takes the wrong end of an edge for one of the ways round the face" % name))
        if x.op == "call" and x.callee == "List_Entry":
            for t, w in arms(f, x.o[1]):
                d = known(f, x.b, a)
                if t is not None and t[0] == "sel":
                    k = t[1]
                    if k == (a, "eq", ("c", 0)) or k == a:
                        d = t[2] if k == a else not t[2]
                elif t is not None and t[0] == "phi":
                    d2 = known(f, t[2], a)
                    d = d2 if d2 is not None else d
                if d is None:
                    continue
                sg = slope(f, w)
                if sg is None:
                    continue
                out.append(("sense", name, 1))
                if sg != (1 if d else -1):
                    out.append(("bad", "sense", "%s order" % name, loc, "%s goes round the face the wrong way when asked for %s" % (name, "its own direction" if d else "the other direction")))
    return out


def slope(f, v):
    """+1/-1: by how much a position changes from one round of its loop to the next"""
    p = pol(f, v)
    if len(p) == 1:
        k = next(iter(p))
        if k != () and k[0] == "mod" and p[k] == 1:
            p = dict(k[1])
    tot = None
    for k, c in p.items():
        if k != () and k[0] == "i" and f.get(k) is not None and f.get(k).op == "phi" and f.get(k).b in f.loops():
            x = f.get(k)
            body = f.loops()[x.b]
            nx = {canon(f, w) for w, pb in x.o if pb in body}
            if len(nx) != 1:
                return None
            st = padd(pol(f, next(iter(nx))), {k: 1}, -1)
            if not const(st):
                continue      # found in a search, not a counter
            st = st.get((), 0) * c
            if st == 0:
                continue
            if tot is not None:
                return None
            tot = st
    return tot if tot in (1, -1) else None


# ---------------------------------------------------------------- worked out
def sympol(f, v, depth=0):
    """as symbol, with places in arrays written as polynomials"""
    v = canon(f, v)
    x = f.get(v)
    if x is not None and x.op == "load" and depth < 8:
        return ("ld", sympol(f, x.o[0], depth + 1))
    if x is not None and x.op == "getelementptr" and depth < 8:
        return ("gep", sympol(f, x.o[0], depth + 1), tuple(("x", frz(pol(f, p[1]))) if p[0] == "x" else tuple(p) for p in x.path or ()))
    if x is not None and x.op in ("sext", "zext", "trunc") and depth < 8:
        return sympol(f, x.o[0], depth + 1)
    return v


def at(f, v, depth=0):
    """value -> (sequence, place): what is read at a place of an array or a list, also by way of a table of places"""
    x = f.get(canon(f, v))
    if x is None or depth > 4:
        return None
    if x.op == "call":
        if x.callee == "List_Entry":
            return sympol(f, x.o[0]), pol(f, x.o[1])
        if x.callee in ("ME_Vertex", "ME_VertexID") and canon(f, x.o[1])[0] == "c":
            return ("ends", sympol(f, x.o[0])), pol(f, x.o[1])
        if x.callee and re.match(r"M[VEFR]_(Global)?ID$", x.callee):
            return at(f, x.o[0], depth + 1)
        return None
    if x.op in ("sext", "zext", "trunc"):
        return at(f, x.o[0], depth + 1)
    if x.op == "load":
        a = strip(f, x.o[0])
        g = f.get(a)
        if g is None or g.op != "getelementptr":
            return ("start", sympol(f, a)), {}
        if not g.path or g.path[-1][0] != "x":
            return None
        i = g.path[-1][1]
        y = f.get(canon(f, i))
        if y is not None and y.op == "load":
            t = at(f, i, depth + 1)
            if t is not None and t[0][0] != "start":
                return ("by", sympol(f, g.o[0]), t[0]), t[1]
        rest = tuple(frz(pol(f, q[1])) if q[0] == "x" else q for q in g.path[:-1] if q[1] != ("c", 0))
        b = sympol(f, g.o[0])
        return (("start", b) if i == ("c", 0) and len(g.path) == 1 else ("arr", b, rest)), pol(f, i)
    return None


def base(t):
    """sequences whose first entry is read without an offset"""
    return t[1] if t[0] in ("start",) or t[0] == "arr" and not t[2] else t


def turn(f, p, q):
    """+1 if place q (taken around) follows place p, -1 if it comes before it, or None"""
    m = [k for k in q if isinstance(k, tuple) and k and k[0] == "mod"]
    if len(m) != 1 or q[m[0]] != 1 or any(isinstance(k, tuple) and k and k[0] == "mod" for k in p):
        return None
    off = {k: c for k, c in q.items() if k != m[0]}
    d = padd(padd(dict(m[0][1]), p, -1), off)
    n = dict(m[0][2])
    for k in (0, -1, 1):
        e = padd(d, {t: c * k for t, c in n.items()})
        if set(e) <= {()} and e.get((), 0) in (1, -1):
            return e[()]
    return None


def evidence(f, facts):
    """+1 / -1: two entries that follow each other are known to be reference entries in this / the other order"""
    eq = []
    for k, t in facts.items():
        if not (isinstance(k, tuple) and len(k) == 3 and (k[1], t) in (("eq", True), ("ne", False))):
            continue
        for a, b in ((k[0], k[2]), (k[2], k[0])):
            s, r = at(f, a), at(f, b)
            if s is None or r is None or not set(r[1]) <= {()} or set(s[1]) <= {()}:
                continue
            eq.append((s[0], s[1], base(r[0]), r[1].get((), 0)))
    out = set()
    for s in eq:
        for q in eq:
            if s is q or base(s[0]) != base(q[0]) or s[2] != q[2] or abs(s[3] - q[3]) != 1:
                continue
            d = turn(f, s[1], q[1])
            if d is not None:
                out.add(d * (q[3] - s[3]))
    return out.pop() if len(out) == 1 else None


def others(f, al):
    """the arms of a choice that are ends of edges"""
    return [(o, f.get(canon(f, o))) for o, _ in al if f.get(canon(f, o)) is not None and f.get(canon(f, o)).op == "call" and f.get(canon(f, o)).callee == "ME_Vertex"]


def worked(P, R, f):
    out = []
    loc = lambda x: "%s:%d" % (f.file, x.line or f.line)
    # an edge found against an edge made
    for x in f.instrs():
        if x.op != "store":
            continue
        c, n = negs(f, x.o[0])
        t = f.get(c)
        if t is None or t.op != "icmp" or t.p not in ("eq", "ne"):
            continue
        n += t.p == "ne"
        g = f.get(strip(f, x.o[1]))
        for i in (0, 1):
            e = f.get(canon(f, t.o[i]))
            if e is None or e.op != "call" or e.callee != "ME_Vertex" or canon(f, e.o[1]) not in (("c", 0), ("c", 1)):
                continue
            k, V = canon(f, e.o[1])[1], symbol(f, t.o[1 - i])
            if g is not None and g.op == "getelementptr" and g.path:
                D, pl = symbol(f, g.o[0]), pol(f, g.path[-1][1])
            else:
                D, pl = symbol(f, x.o[1]), {}
            zs = [z for z, pz in stores_of(f, D) if frz(pz) == frz(pl) and z.o[0][0] == "c" and z.o[0][1] in (0, 1)]
            for z in zs:
                near = [q for q in f.calls("ME_Set_Vertex") if (q.b == z.b or z.b in f.dom[q.b] or q.b in f.dom[z.b]) and x.b not in f.dom[q.b] and not (q.b in f.dom[x.b])]
                A = {symbol(f, q.o[2]) for q in near if canon(f, q.o[1]) == ("c", 0)}
                B = {symbol(f, q.o[2]) for q in near if canon(f, q.o[1]) == ("c", 1)}
                if len(A) != 1 or len(B) != 1 or A == B or V not in A | B:
                    continue
                out.append(("worked", f.name, 1))
                want = z.o[0][1] ^ (k == 1) ^ (V in B)
                if want != (n % 2 == 0):
                    out.append(("bad", "worked", "%s|edge" % f.name, loc(x), "%s gives an edge that is there already another direction than one it makes" % f.name))
    # the other end of an edge
    for x in f.instrs():
        if x.op == "phi" and x.b not in f.loops():
            al = [(o, edge_facts(f, pb, x.b)) for o, pb in x.o]
        elif x.op == "select":
            k, po = ir.cond_key(f, x.o[0])
            al = [(x.o[1], {k: po}), (x.o[2], {k: not po})]
        else:
            continue
        for o, facts in al:
            e = f.get(canon(f, o))
            if e is None or e.op != "call" or e.callee != "ME_Vertex" or canon(f, e.o[1]) not in (("c", 0), ("c", 1)):
                continue
            for k, t in facts.items():
                if not (isinstance(k, tuple) and len(k) == 3 and k[1] in ("eq", "ne")):
                    continue
                q = [f.get(canon(f, w)) for w in (k[0], k[2])]
                q = [w for w in q if w is not None and w.op == "call" and w.callee == "ME_Vertex" and canon(f, w.o[1]) in (("c", 0), ("c", 1)) and symbol(f, w.o[0]) == symbol(f, e.o[0])]
                if len(q) != 1:
                    continue
                if (k[1] == "eq") != t or not {canon(f, w[1].o[1]) for w in others(f, al) if symbol(f, w[1].o[0]) == symbol(f, e.o[0])} > {canon(f, e.o[1])}:
                    continue
                out.append(("worked", f.name, 1))
                if canon(f, q[0].o[1]) == canon(f, e.o[1]):
                    out.append(("bad", "worked", "%s|end" % f.name, loc(e), "%s takes the end of an edge that it has just found to be the vertex it comes from" % f.name))
    # going round a sequence
    named = re.search(r"(Edge|Face)Dir", f.name)
    dirs, both, told = set(), {}, set()
    for x in f.instrs():
        if x.op == "phi":
            if x.b in f.loops():
                continue
            arms_, todo, seen = [], [x], set()
            while todo:
                y = todo.pop()
                if y.i in seen:
                    continue
                seen.add(y.i)
                for o, pb in y.o:
                    if o[0] == "c" and o[1] in (0, 1):
                        arms_.append((o[1], evidence(f, edge_facts(f, pb, y.b)), pb))
                    elif o[0] == "i" and f.get(o).op == "phi" and f.get(o).b not in f.loops():
                        todo.append(f.get(o))
            arms_ = [a for a in arms_ if a[1] is not None]
            if not arms_:
                continue
            fw, bw = {a[0] for a in arms_ if a[1] == 1}, {a[0] for a in arms_ if a[1] == -1}
            if named and {a[0] for a in arms_} == {0, 1} and any((a[1] == 1) != (a[0] == 1) for a in arms_):
                out.append(("bad", "worked", "%s|order" % f.name, loc(x), "%s takes vertices that follow each other backward for forward" % f.name))
                told.add(x.b)
                continue
            if fw and bw:
                both.setdefault(x.b, x)
                if fw != bw:
                    told.add(x.b)
                    out.append(("worked", f.name, len(arms_)))
                    dirs.add(x.i)
                    if fw != {1} or bw != {0}:
                        out.append(("bad", "worked", "%s|order" % f.name, loc(x), "%s takes vertices that follow each other backward for forward" % f.name))
        elif x.op == "store":
            c, n = negs(f, x.o[0])
            g = f.get(c)
            if n % 2 and g is not None and g.op == "load" and symbol(f, g.o[0]) == symbol(f, x.o[1]):
                ev = evidence(f, own.dominating_facts(f, x.b))
                if ev is not None:
                    out.append(("worked", f.name, 1))
                    if ev == 1:
                        out.append(("bad", "worked", "%s|flip" % f.name, loc(x), "%s turns a direction round where the vertices follow each other forward" % f.name))
    for b in sorted(set(both) - told) if named else ():
        out.append(("bad", "worked", "%s|told" % f.name, loc(both[b]), "%s gives the same direction whichever way the vertices follow each other" % f.name))
    if dirs:
        grown = True
        while grown:
            grown = False
            for x in f.instrs():
                if x.op == "phi" and x.i not in dirs and x.t != "i1" and any(o[0] == "i" and o[1] in dirs for o, _ in x.o):
                    dirs.add(x.i)
                    grown = True
        for x in f.instrs():
            if x.op != "icmp" or x.p not in ("eq", "ne"):
                continue
            a, b = at(f, x.o[0]), at(f, x.o[1])
            if a is None or b is None:
                continue
            for s, r in ((a, b), (b, a)):
                m = [k for k in s[1] if isinstance(k, tuple) and k and k[0] == "mod"]
                j = [k for k in r[1] if k != ()]
                if len(m) != 1 or len(j) != 1 or j[0][0] == "mod" or r[1][j[0]] != 1:
                    continue
                c = dict(m[0][1]).get(j[0])
                if c not in (1, -1):
                    continue
                for k, t in own.dominating_facts(f, x.b).items():
                    if isinstance(k, tuple) and len(k) == 3 and k[2] == ("c", 0) and k[1] in ("eq", "ne") and k[0][0] == "i" and k[0][1] in dirs:
                        fwd = (k[1] == "ne") == t
                        out.append(("worked", f.name, 1))
                        if fwd != (c == 1):
                            out.append(("bad", "worked", "%s|walk" % f.name, loc(x), "%s goes round the vertices the other way than they were found to follow each other" % f.name))
    return out


def run(P, R):
    names = sorted(n for n, f in P.funcs.items() if f.file.startswith("src/"))

    def one(n):
        f = P.funcs[n]
        return analyse(P, R, f) + uses(P, R, f) + sides(P, R, f) + listing(P, R, f) + built(P, R, f) + stepping(P, R, f) + worked(P, R, f)
    for n, res in zip(names, core.parallel(names, one)):
        for r in res:
            if r[0] == "bad":
                R.bad(r[1], r[2], r[3], r[4])
            elif r[0] == "undec":
                R.undec(r[1], r[2])
            else:
                R.ob(r[0], r[1], r[2])
