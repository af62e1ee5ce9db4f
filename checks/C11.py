"""Handles keep their kind: vertices, edges, faces, regions are never mixed up behind the untyped handles."""
import re
import ir, summ
from ir import strip, canon, cond_key, show, expr
RULES = {
    "argument": "a handle passed where a function expects a vertex (edge, face, region) is never the handle of another kind of entity",
    "array": "an array of handles passed where a function expects an array of vertices (edges, ...) holds handles of that kind",
    "return": "a function that returns one kind of entity, or a list of one kind, never returns another kind",
    "case": "code that runs only when an entity (or the entity type asked for) is of one kind uses the operations of that kind",
    "id": "queries for the IDs or the number of entities of one kind deliver the IDs, or count, entities of that kind",
    "attribute": "an attribute made for one kind of entity is set on, read from and removed from entities of that kind",
    "count": "a loop that takes the entities of one kind from a mesh by index runs to the number of entities of that kind",
    "entry": "an entity is taken from, added to and removed from the mesh list of its own kind",
}
EXPLAIN = ("The handle types are all void * to the compiler. The kind of every handle is inferred from declared parameter and result types, from the lists and arrays it is kept in and from "
           "the mesh and adjacency fields it is stored in, and compared with the kind every use requires.")
ASSUME = ["declared parameter and result types (MVertex_ptr, MEdge_ptr, MFace_ptr, MRegion_ptr) and the names of adjacency queries state the intended kind"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "serial", "markers"]
MIN = {"argument": 1800, "array": 60, "entry": 14, "count": 14, "case": 15, "return": 80}
PT = {"MVertex_ptr": "V", "MEdge_ptr": "E", "MFace_ptr": "F", "MRegion_ptr": "R"}
NAME = {"V": "vertex", "E": "edge", "F": "face", "R": "region"}
DIM = {0: "V", 1: "E", 2: "F", 3: "R"}
WORD = {"regions": "R", "vertex": "V", "vertices": "V", "edge": "E", "edges": "E", "face": "F", "faces": "F", "region": "R"}
PASS = ("List_Copy", "List_Compress", "List_Add", "List_ChknAdd", "List_Inserti", "List_Insert")
ADD = {"List_Add": 1, "List_ChknAdd": 1, "List_Insert": 1, "List_Inserti": 1, "List_Replace": 2, "List_Replacei": 2}
USE = {"List_Rem": 1, "List_RemSorted": 1, "List_Contains": 1, "List_Locate": 1, "List_Replace": 1}
LNAME = re.compile(r"^(?:M[VEFR]|MESH)_(?:Adj|Ghost|Overlap)?(Vertices|Edges|Faces|Regions|Vertex_List|Edge_List|Face_List|Region_List|Vertex|Edge|Face|Region)(?:_List)?(?:_[FR][N1-4R]*)?$")


def lkind(n):
    m = LNAME.match(n or "")
    return frozenset(WORD[m.group(1).split("_")[0].lower()]) if m else None


REP = re.compile(r"_((?:[FR][1-4N])+)$")


def reps(n):
    """representations a function is written for, by its name"""
    m = REP.search(n)
    if not m:
        return None
    out = set()
    for a, b in re.findall(r"([FR])([1-4N])", m.group(1)):
        out |= {a + c for c in ("1234" if b == "N" else b)}
    return frozenset(out)


def cells(fl):
    return [(fl[0], r, fl[2]) for r in sorted(fl[1])] if len(fl) == 3 else [fl]


def prototypes(P):
    """the functions in a dispatch table take what the dispatcher takes"""
    out = {}
    for t in P.globals:
        m = re.match(r"^%?@?(\w+)_jmp(?:\.\d+)*$", t)
        g = P.funcs.get(m.group(1)) if m else None
        for n in P.global_fns(t) if g else ():
            h = P.funcs.get(n)
            if h is not None and len(h.dargs) == len(g.dargs):
                out[n] = g.dargs
    return out


class Kinds:
    def __init__(self, P):
        self.proto = prototypes(P)
        self.P = P
        self.memo = {}
        self.fieldk = {}
        self.active = set()
        self.tests = {}
        # what lists kept in fields contain (two rounds, so that copies are seen)
        for rnd in (0, 1):
            self.memo = {}
            new = {}
            for f in P.funcs.values():
                for x in f.instrs():
                    if x.op == "call" and x.callee in ADD:
                        k = self.at(f, x.o[ADD[x.callee]], x)
                        fl = self.field(f, x.o[0])
                        if fl and k is not False:
                            self.put(new, fl, k if k is not None else "?")
                    elif x.op == "store" and x.at == "ptr":
                        fl = self.addr(f, x.o[1])
                        if fl and x.o[0][0] != "null":
                            k = self.kind(f, x.o[0])
                            self.put(new, fl, k if k is not None else "?", True)
            self.fieldk = new
        self.memo = {}

    def decl(self, f, i):
        d = self.proto.get(f.name, f.dargs)
        return str(d[i]) if i < len(d) else ""

    def at(self, f, v, x, ks=None):
        """kinds v can have at instruction x, tests of its dimension taken into account"""
        v = strip(f, v)
        if ks is None:
            ks = self.kind(f, v)
        n = self.tested(f, v).get(x.b, frozenset("VEFR"))
        if ks is None:
            return None if n == frozenset("VEFR") else n
        return ks & n if n != frozenset("VEFR") else ks

    def tested(self, f, v):
        """block -> kinds that the tests of MEnt_Dim(v) on the way from the definition of v leave possible"""
        v = canon(f, v)
        key = (f.name, v)
        if key in self.tests:
            return self.tests[key]
        self.tests[key] = out = {}
        dims = {("i", u.i) for u in f.instrs() if u.op == "call" and u.callee in ("MEnt_Dim", "MEnt_OrigDim") and canon(f, u.o[0]) == v} if f.calls("MEnt_Dim") or f.calls("MEnt_OrigDim") else ()
        d = f.get(v)
        start = d.b if d is not None else f.rpo()[0]
        if not dims or v[0] not in ("i", "a"):
            return out
        return self.flow(f, start, dims, out)

    def reach(self, f, v, dims):
        d = f.get(v)
        return self.flow(f, d.b if d is not None else f.rpo()[0], dims, {})

    def flow(self, f, start, dims, out):
        out[start] = frozenset("VEFR")
        work = [start]
        while work:
            b = work.pop()
            for s in f.succ[b]:
                if s == start:
                    continue
                k = out[b] & self.edge(f, b, s, dims)
                if k - out.get(s, frozenset()) or s not in out:
                    out[s] = out.get(s, frozenset()) | k
                    work.append(s)
        return out

    def edge(self, f, b, s, dims):
        """kinds the branch from b to s leaves possible"""
        full = frozenset("VEFR")
        x = f.blocks[b][-1]
        if x.op == "switch" and canon(f, x.o[0]) in dims:
            ks = {DIM[c] for c, t in x.cases if t == s and c in DIM}
            return full - {DIM[c] for c, t in x.cases if c in DIM} | ks if s == x.default else frozenset(ks)
        if x.op == "br" and x.o and len(x.succ) == 2 and x.succ[0] != x.succ[1]:
            k, pol = cond_key(f, x.o[0])
            if isinstance(k, tuple) and len(k) == 3 and k[0] in dims and k[2][0] == "c":
                c = k[2][1]
                t = {n for i, n in DIM.items() if (i == c if k[1] == "eq" else i < c if k[1] in ("slt", "ult") else i > c if k[1] in ("sgt", "ugt") else True)}
                if k[1] not in ("eq", "slt", "ult", "sgt", "ugt"):
                    return full
                return frozenset(t) if pol == (s == x.succ[0]) else full - t
        return full

    def addr(self, f, a):
        """the cell a pointer points to: (struct, field), or (kind, representations, bit offset) in an adjacency record"""
        v = canon(f, a)
        off, fl = 0, []
        for _ in range(3):
            g = f.get(v)
            if g is None or g.op != "getelementptr":
                break
            fl = [p for p in g.path if p[0] == "f"] or fl
            for p in g.path:
                if p[0] == "f":
                    off += dict((n, o) for o, n in self.P.structs.get(p[1].lstrip("%"), ())).get(p[2], 0)
            v = canon(f, g.o[0])
        k = self.owner(f, v)
        if k:
            rp = reps(f.name)
            return (k, rp, off) if rp else None
        return (fl[-1][1], fl[-1][2]) if fl else None

    def owner(self, f, v):
        """kind of entity whose adjacency record v points to"""
        ks = set()
        for o in summ.origins(f, v):
            x = f.get(o)
            if x is None or x.op not in ("load", "call"):
                return None
            if x.op == "load":
                g = f.get(canon(f, x.o[0]))
                if g is None or g.op != "getelementptr" or not any(p[0] == "f" and p[2] == "adj" for p in g.path):
                    return None
                k = self.kind(f, g.o[0])
                if not k or len(k) > 1:
                    return None
                ks |= k
            else:
                for u in f.uses.get(o, ()):
                    if u.op == "store" and strip(f, u.o[0]) == o:
                        g = f.get(canon(f, u.o[1]))
                        if g is not None and g.op == "getelementptr" and any(p[0] == "f" and p[2] == "adj" for p in g.path):
                            ks |= self.kind(f, g.o[0]) or frozenset("?")
        return ks.pop() if len(ks) == 1 and "?" not in ks else None

    def put(self, new, fl, ks, vec=False):
        for c in cells(fl):
            new.setdefault(("v",) + c if vec else c, set()).update(ks)

    def held(self, fl, vec=False):
        """kinds kept in a cell, None when unknown"""
        s = frozenset()
        for c in cells(fl):
            k = self.fieldk.get(("v",) + c if vec else c)
            if k and "?" in k:
                return None
            s |= frozenset(k or ())
        return s or None

    def field(self, f, v):
        """(struct, field) a list value is loaded from"""
        for o in summ.origins(f, canon(f, v)):
            x = f.get(o)
            if x is not None and x.op == "load":
                fl = self.addr(f, x.o[0])
                if fl:
                    return fl
        return None

    def ret(self, n):
        g = self.P.funcs.get(n)
        if g is None:
            return None
        k = PT.get(str(g.dret))
        return frozenset(k) if k else None

    def callee(self, x):
        return x.callee or self.P.table_of(x)

    def kind(self, f, v):
        """frozenset of kinds, None: unknown"""
        v = strip(f, v)
        key = (f.name, v)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return frozenset()
        self.active.add(key)
        r = self._kind(f, v)
        self.active.discard(key)
        self.memo[key] = r
        return r

    def _kind(self, f, v):
        if v[0] == "null" or v == ("c", 0) or v[0] == "undef":
            return frozenset()
        if v[0] == "a":
            k = PT.get(self.decl(f, v[1]))
            return frozenset(k) if k else None
        x = f.get(v)
        if x is None:
            return None
        if x.op in ("phi", "select"):
            s = frozenset()
            for o, p in (x.o if x.op == "phi" else [(o, None) for o in x.o[1:]]):
                k = self.kind(f, o) if p is None else self.at(f, o, f.blocks[p][-1])
                if k is None:
                    return None
                s |= k
            return s
        if x.op == "call":
            n = self.callee(x)
            if n in ("List_Entry", "List_Next_Entry"):
                return self.elems(f, x.o[0])
            if n is None:
                return None
            n = n[:-4] if n.endswith("_jmp") else n
            r = self.ret(n)
            return r
        if x.op == "load":
            return self.elems(f, x.o[0], True)
        return None

    def elems(self, f, v, mem=False):
        """kinds in a list (or array, with mem)"""
        v = canon(f, strip(f, v))
        key = (f.name, v, mem)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return frozenset()
        self.active.add(key)
        r = self._elems(f, v, mem)
        self.active.discard(key)
        self.memo[key] = r
        return r

    def _elems(self, f, v, mem):
        s = frozenset()
        if mem:
            fl = self.addr(f, v)
            if fl:
                return self.held(fl, True)
            x = f.get(v)
            while x is not None and x.op == "getelementptr":
                v = strip(f, x.o[0])
                x = f.get(v)
            if v[0] == "a":
                d = self.decl(f, v[1])
                k = PT.get(d[:-1]) if d.endswith("*") else None
                return frozenset(k) if k else None
            if x is None:
                return None
            if x.op == "phi":
                for o, _ in x.o:
                    if o[0] == "null":
                        continue
                    k = self.elems(f, o, True)
                    if k is None:
                        return None
                    s |= k
                return s
            if x.op == "alloca" and x.dt:
                k = PT.get(x.dt)
                if k:
                    return frozenset(k)
            if x.op == "call" and x.callee in ("malloc", "calloc", "realloc") or x.op == "alloca":
                if x.op == "call" and x.callee == "realloc":
                    k = self.elems(f, x.o[0], True)
                    if k is None:
                        return None
                    s |= k
                work, seen = [v], set()
                while work:
                    p = work.pop()
                    if p in seen:
                        continue
                    seen.add(p)
                    for u in f.uses.get(p, ()):
                        if u.op in ("getelementptr", "phi", "bitcast"):
                            work.append(("i", u.i))
                        elif u.op == "store":
                            if strip(f, u.o[1]) == p:
                                k = self.at(f, u.o[0], u)
                                if k is None:
                                    return None
                                s |= k
                            else:
                                return None
                        elif u.op == "call" and u.callee and not u.callee.startswith("llvm.dbg"):
                            if u.callee in ("free", "realloc", "qsort", "memset"):
                                continue
                            g = self.P.funcs.get(u.callee)
                            for i, o in enumerate(u.o):
                                if strip(f, o) == p:
                                    d = self.decl(g, i) if g else ""
                                    k = PT.get(d[:-1]) if d.endswith("*") else None
                                    if k is None:
                                        return None
                return s
            if x.op == "load":
                return None
            return None
        for o in summ.origins(f, v):
            if o[0] == "null":
                continue
            x = f.get(o)
            if x is None:
                return None
            if x.op == "call":
                n = self.callee(x)
                n = n[:-4] if n and n.endswith("_jmp") else n
                k = lkind(n)
                if k is not None and n in self.P.funcs and str(self.P.funcs[n].dret) != "List_ptr":
                    k = None
                if k is None and n == "List_New":
                    k = self.added(f, o)
                elif k is None and n in PASS:
                    k = self.elems(f, x.o[0])
                    if n == "List_Copy" and k is not None:
                        a = self.added(f, o)
                        k = None if a is None else k | a
                    elif n in ADD and k is not None:
                        a = self.at(f, x.o[1], x)
                        k = None if a is None else k | a
                if k is None:
                    return None
                s |= k
            elif x.op == "load":
                fl = self.addr(f, x.o[0])
                k = self.held(fl) if fl else None
                if k is None:
                    return None
                s |= k
            else:
                return None
        return s

    def added(self, f, o):
        """kinds added to the list created by o in this function; None when it escapes to something unknown"""
        s = frozenset()
        work, seen = [o], set()
        while work:
            p = work.pop()
            if p in seen:
                continue
            seen.add(p)
            for u in f.uses.get(p, ()):
                if u.op in ("phi", "bitcast", "select"):
                    work.append(("i", u.i))
                elif u.op == "store":
                    a = f.get(strip(f, u.o[1]))
                    if a is not None and a.op == "alloca":
                        for w in f.uses.get(strip(f, u.o[1]), ()):
                            if w.op == "load":
                                work.append(("i", w.i))
                            elif w.op == "call" and not (w.callee or "").startswith("llvm.dbg"):
                                return None
                    else:
                        return None
                elif u.op == "call":
                    n = u.callee
                    if n in ADD and strip(f, u.o[0]) == p:
                        k = self.at(f, u.o[ADD[n]], u)
                        if k is None:
                            return None
                        s |= k
                        work.append(("i", u.i))
                    elif n and n.startswith("List_") and n not in ("List_Cat",) or n is None or n.startswith("llvm.dbg"):
                        if n is None:
                            return None
                    elif n == "List_Cat" and strip(f, u.o[0]) == p:
                        k = self.elems(f, u.o[1])
                        if k is None:
                            return None
                        s |= k
                    elif n == "List_Cat":
                        pass
                    else:
                        return None
        return s


class Neutral:
    """parameters whose treatment does not depend on the kind of entity: only the header common to all kinds is read or written"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        h = P.structs.get("MEntity_Data") or []
        self.end = max([o for o, _ in h], default=-1)

    def __call__(self, g, i):
        key = (g.name, i)
        if key not in self.memo:
            self.memo[key] = False
            self.memo[key] = self.check(g, i)
        return self.memo[key]

    def check(self, g, i):
        work, seen = [("a", i)], set()
        while work:
            p = work.pop()
            if p in seen:
                continue
            seen.add(p)
            for u in g.uses.get(p, ()):
                if u.op in ("icmp", "bitcast"):
                    if u.op == "bitcast":
                        work.append(("i", u.i))
                elif u.op == "getelementptr":
                    fl = [q for q in u.path if q[0] == "f"]
                    off = dict((n, o) for o, n in self.P.structs.get(fl[0][1].lstrip("%"), ())).get(fl[0][2]) if fl else None
                    if off is None or off > self.end:
                        return False
                elif u.op in ("load", "store") and strip(g, u.o[-1]) == p:
                    continue
                elif u.op == "call":
                    n = u.callee
                    if n and n.startswith("llvm.dbg"):
                        continue
                    h = self.P.funcs.get(n) if n else None
                    if h is None:
                        return False
                    for j, o in enumerate(u.o):
                        if strip(g, o) == p and not (j < len(h.dargs) and str(h.dargs[j]) == "MEntity_ptr") and not self(h, j):
                            return False
                else:
                    return False
        return True


def named(ks):
    return " or ".join(NAME[k] for k in sorted(ks, key="VEFR".index))


def run(P, R):
    K = Kinds(P)
    K.neutral = Neutral(P)
    intable = {n for t in P.globals for n in P.global_fns(t)}
    for n, f in sorted(P.funcs.items()):
        if reps(n) and n not in intable and not P.callers.get(n):
            continue
        dk = PT.get(str(f.dret))
        for x in f.instrs():
            if x.op == "call":
                call(P, R, K, f, x)
            elif x.op == "ret" and x.o:
                if dk:
                    k = K.at(f, x.o[0], x)
                    R.ob("return", n)
                    if k and dk not in k:
                        R.bad("return", n, "%s:%d" % (f.file, x.line), "%s is declared to return a %s and returns a %s" % (n, NAME[dk], named(k)))
                elif str(f.dret) == "List_ptr" and lkind(n):
                    k = K.elems(f, x.o[0])
                    R.ob("return", n)
                    if k is None:
                        R.undec("return", n)
                    elif k - lkind(n):
                        R.bad("return", n, "%s:%d" % (f.file, x.line), "%s returns a list that contains a %s" % (n, named(k - lkind(n))))
        cases(P, R, K, f)
        counts(P, R, f)
        ids(P, R, K, f)
        attrs(P, R, K, f)


def call(P, R, K, f, x):
    n = K.callee(x)
    if n is None:
        return
    n = n[:-4] if n.endswith("_jmp") else n
    if n in ADD or n in USE or n in ("List_Locate",):
        i = ADD.get(n, USE.get(n, 1))
        if n not in ADD:
            k, w = K.at(f, x.o[i], x), K.elems(f, x.o[0])
            if k and w:
                R.ob("entry", f.name)
                if not k & w:
                    R.bad("entry", "%s|%s" % (f.name, n), "%s:%d" % (f.file, x.line), "%s looks with %s for a %s in a list of %s handles" % (f.name, n, named(k), named(w)))
        fl = K.field(f, x.o[0])
        if fl:
            w = fieldkind(fl)
            if w and not (n == "List_Replace"):
                k = K.at(f, x.o[i], x)
                R.ob("entry", f.name)
                if k and not (k & w):
                    R.bad("entry", "%s|%s" % (f.name, fl[1]), "%s:%d" % (f.file, x.line), "%s puts (or looks for) a %s in %s" % (f.name, named(k), fl[1]))
    g = P.funcs.get(n)
    if g is None:
        return
    for i, o in enumerate(x.o):
        if i >= len(g.dargs):
            break
        d = K.decl(g, i)
        if d in PT:
            k = K.at(f, o, x)
            R.ob("argument", f.name)
            if k is None:
                R.undec("argument", f.name)
            elif k and PT[d] not in k and not K.neutral(g, i):
                R.bad("argument", "%s|%s" % (f.name, n), "%s:%d" % (f.file, x.line), "%s passes a %s to %s, which expects a %s" % (f.name, named(k), n, NAME[PT[d]]))
        elif d.endswith("*") and d[:-1] in PT:
            k = K.elems(f, o, True)
            R.ob("array", f.name)
            if k is None:
                R.undec("array", f.name)
            elif k and PT[d[:-1]] not in k:
                R.bad("array", "%s|%s" % (f.name, n), "%s:%d" % (f.file, x.line), "%s passes an array of %s handles to %s, which expects %s handles" % (f.name, named(k), n, NAME[PT[d[:-1]]]))


MESHF = re.compile(r"^(?:gh|ov)?m?(vertex|edge|face|region)$")


def fieldkind(fl):
    if len(fl) == 3:
        return None
    st, n = fl
    m = MESHF.match(n)
    if m and "Mesh" in st:
        return frozenset(WORD[m.group(1)])
    return None


OP = re.compile(r"^MESH_(?:Next_|)(?:Ghost|Overlap|)(Vert(?:ex|ices)|Edges?|Faces?|Regions?)(?:FromID|FromGlobalID|)$")


def selected(f, x):
    """a count that is one of several a variable gets, depending on a case"""
    us = [u for u in f.uses.get(("i", x.i), ()) if not (u.callee or "").startswith("llvm.dbg")]
    return us and all(u.op == "phi" and sum(1 for o, _ in u.o if (f.get(strip(f, o)) is not None and NUM.match(f.get(strip(f, o)).callee or ""))) > 1 for u in us)


def cases(P, R, K, f):
    """under a test that an entity type is k, the mesh is asked for entities of kind k"""
    calls = [x for x in f.instrs() if x.op == "call" and x.callee and (OP.match(x.callee) or NUM.match(x.callee) and selected(f, x))]
    if not calls:
        return
    vals = [("a", i) for i, d in enumerate(f.dargs) if str(d) == "MType"]
    vals += [("i", x.i) for x in f.instrs() if x.op == "call" and x.callee in P.funcs and str(P.funcs[x.callee].dret) == "MType"]
    # other values that are told apart like entity types: compared with most of the types, and mostly followed by calls for that type
    asked = {}
    for b in f.blocks:
        x = b[-1]
        if x.op == "switch":
            asked.setdefault(canon(f, x.o[0]), set()).update(c for c, _ in x.cases if c in DIM)
        elif x.op == "br" and x.o:
            k, _ = cond_key(f, x.o[0])
            if isinstance(k, tuple) and len(k) == 3 and k[1] == "eq" and k[2][0] == "c" and k[2][1] in DIM:
                asked.setdefault(k[0], set()).add(k[2][1])
    guess = {v for v, cs in asked.items() if len(cs) >= 3 and v not in vals and isinstance(v, tuple) and v[0] in ("i", "a")}
    for v in vals + sorted(guess):
        t = K.reach(f, v, {v})
        if v in guess:
            fit = [next(iter(t[x.b])) == WORD[(OP.match(x.callee) or NUM.match(x.callee)).groups()[-1].lower()] for x in calls if len(t.get(x.b, "VEFR")) == 1]
            if sum(fit) < 2 or sum(fit) < 2 * (len(fit) - sum(fit)):
                continue
        for x in calls:
            s = t.get(x.b, frozenset("VEFR"))
            if len(s) != 1:
                continue
            m = OP.match(x.callee) or NUM.match(x.callee)
            w = WORD[m.group(m.lastindex).lower()]
            R.ob("case", f.name)
            if w not in s:
                R.bad("case", "%s|%s" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s calls %s where the entity type is %s" % (f.name, x.callee, named(s)))


NUM = re.compile(r"^MESH_Num_(Ghost|Overlap|)(Vertices|Edges|Faces|Regions)$")
IDX = re.compile(r"^MESH_(Ghost|Overlap|)(Vertex|Edge|Face|Region)$")


def counts(P, R, f):
    """MESH_Vertex(mesh,i) in a loop that runs to a MESH_Num_ of the mesh: the count is that of the vertices"""
    for x in f.instrs():
        m = IDX.match(x.callee or "") if x.op == "call" else None
        if not m:
            continue
        i = f.get(canon(f, x.o[1]))
        if i is None or i.op != "phi" or i.b not in f.loops():
            continue
        body = f.loops()[i.b]
        got = set()
        for b in body:
            t = f.blocks[b][-1]
            if t.op != "br" or len(t.succ) != 2 or all(s in body for s in t.succ):
                continue
            k, _ = cond_key(f, t.o[0])
            if isinstance(k, tuple) and len(k) == 3 and canon(f, k[0]) == ("i", i.i):
                c = f.get(canon(f, k[2]))
                n = NUM.match(c.callee or "") if c is not None and c.op == "call" else None
                if n and canon(f, c.o[0]) == canon(f, x.o[0]):
                    got.add((n.group(1), WORD[n.group(2).lower()]))
        if got:
            R.ob("count", f.name)
            if (m.group(1), WORD[m.group(2).lower()]) not in got:
                R.bad("count", "%s|%s" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s calls %s in a loop over the number of %s of the mesh" % (f.name, x.callee, " and ".join(sorted("%s entities of dimension %s" % (a.lower() or "all", "VEFR".index(b)) for a, b in got))))


IDS = re.compile(r"^M[VEFR]_(?:Adj)?(Vert|Vertex|Edge|Face|Region)IDs_")
CNT = re.compile(r"^M[VEFR]_Num_(?:Adj)?(Vertices|Edges|Faces|Regions)_")


def ids(P, R, K, f):
    """ID queries give the IDs of entities of the kind they are named after; count queries count them"""
    m = IDS.match(f.name)
    if m:
        w = WORD[m.group(1).lower().replace("vert", "vertex").replace("vertexex", "vertex")]
        for x in f.instrs():
            if x.op != "store" or x.at != "i32":
                continue
            for o in summ.origins(f, canon(f, x.o[0])):
                c = f.get(o)
                if c is not None and c.op == "call" and c.callee and re.match(r"^M(Ent|[VEFR])_ID$", c.callee):
                    k = K.at(f, c.o[0], x)
                    R.ob("id", f.name)
                    if k is None:
                        R.undec("id", f.name)
                    elif k - {w}:
                        R.bad("id", f.name, "%s:%d" % (f.file, x.line), "%s gives the ID of a %s" % (f.name, named(k - {w})))
    m = CNT.match(f.name)
    if m:
        # as many edges as vertices around a face, as many edges as neighbouring vertices at a vertex
        w = {"V", "E"} if f.name[1] in "VF" and WORD[m.group(1).lower()] in "VE" else {WORD[m.group(1).lower()]}
        work = [o[0] for r in f.rets() for o in [r.o] if o]
        seen = set()
        while work:
            v = strip(f, work.pop())
            if v in seen:
                continue
            seen.add(v)
            x = f.get(v)
            if x is None:
                continue
            if x.op == "phi":
                work += [o for o, _ in x.o]
            elif x.op == "select":
                work += x.o[1:]
            elif x.op == "add":
                work += x.o
                if any(f.get(strip(f, o)) is not None and f.get(strip(f, o)).op == "zext" for o in x.o):
                    continue
                for u in tests(f):
                    k = K.at(f, u, x)
                    d = f.get(strip(f, u))
                    if k is None or d is None or not (set(f.loops()) and any(x.b in b and d.b in b for b in f.loops().values())):
                        continue
                    R.ob("id", f.name)
                    if k - w:
                        R.bad("id", f.name, "%s:%d" % (f.file, x.line), "%s counts a %s" % (f.name, named(k - w)))
            elif x.op == "call" and x.callee == "List_Num_Entries":
                k = K.elems(f, x.o[0])
                R.ob("id", f.name)
                if k is None:
                    R.undec("id", f.name)
                elif k - w:
                    R.bad("id", f.name, "%s:%d" % (f.file, x.line), "%s returns the length of a list that contains a %s" % (f.name, named(k - w)))


def tests(f):
    return {strip(f, x.o[0]) for x in f.instrs() if x.op == "call" and x.callee == "MEnt_Dim"}


SETS = {"MEnt_Set_AttVal", "MEnt_Set_IntAttVal", "MEnt_Set_DblAttVal", "MEnt_Get_AttVal", "MEnt_Rem_AttVal", "MEnt_Get_IntAttVal"}


def attrs(P, R, K, f):
    """an attribute made for one kind of entity is attached to entities of that kind"""
    for x in f.instrs():
        if x.op != "call" or x.callee not in SETS:
            continue
        s = set()
        for o in summ.origins(f, canon(f, x.o[1])):
            c = f.get(o)
            if c is not None and c.op == "call" and c.callee == "MAttrib_New" and c.o[3][0] == "c":
                s.add(c.o[3][1])
            elif o[0] != "null":
                s = {5}
                break
        k = K.at(f, x.o[0], x)
        if not s or not s <= set(DIM):
            continue
        R.ob("attribute", f.name)
        if k is None:
            R.undec("attribute", f.name)
        elif k and not k & {DIM[c] for c in s}:
            R.bad("attribute", "%s|%s" % (f.name, x.callee), "%s:%d" % (f.file, x.line), "%s uses an attribute made for a %s on a %s" % (f.name, named({DIM[c] for c in s}), named(k)))
