"""C18: looking an entity up by its ID or global ID finds that entity; the lists of a mesh hold its entities."""
import core, own, ir, summ
from ir import canon, strip, cond_key

K4 = ("vertex", "edge", "face", "region")
LIST = {"m" + k: i for i, k in enumerate(K4)}
GID = {"gid_sorted_m%slist" % k[0]: i for i, k in enumerate(K4)}
GH = {a + k: i for a in ("gh", "ov") for i, k in enumerate(K4)}
NUM = {"n" + k[0]: i for i, k in enumerate(K4)}
MAX = {"max_%sid" % k[0]: i for i, k in enumerate(K4)}
KIND = dict(list(LIST.items()) + list(GID.items()) + list(GH.items()) + list(NUM.items()) + list(MAX.items()))
KN = ("Vertex", "Edge", "Face", "Region")
KP = ("MV", "ME", "MF", "MR")
ADD = {"List_Add", "List_ChknAdd", "List_Insert", "List_Inserti"}
REM = {"List_Rem", "List_RemSorted", "List_Remi", "List_Remi_Raw"}
MUT = ADD | REM | {"List_Replace", "List_Replacei", "List_Cat", "List_Clear"}

RULES = {
    "search": "a binary search by ID or global ID is over the list, the count and the kind of entity that belong together, with the comparison the list was sorted with and a key of that field",
    "nonempty": "a list that a mesh may not have is searched only where it was found to exist",
    "result": "MESH_*FromID and MESH_*FromGlobalID return the entity with that ID, or none",
    "dispatch": "MESH_EntityFromID and MESH_EntityFromGlobalID pass each kind to the search for that kind",
    "sorted": "the lists are flagged as sorted only when every kind was compressed and sorted, by the comparison the searches use",
    "unsorted": "every operation that changes the entity lists of a mesh, or an ID or global ID, flags the sorted lists as unsorted on every path",
    "count": "every operation that changes an entity list of a mesh brings the number of entities of that kind up to date on every path",
    "stale": "every operation that changes a ghost or overlap list flags the parallel adjacency as out of date",
    "largest": "the largest ID of each kind is at least the ID of every entity of the kind, so new entities get unused IDs",
    "order": "comparison functions give opposite answers when their arguments are exchanged and 0 for equal ones",
    "member": "a new entity is put into the list of its mesh once, a deleted one is taken out, and a restored one gets back into all lists it was taken out of",
}
EXPLAIN = ("List operations on fields of the mesh are found through casts, phis and helper functions; the flag, count and parallel-adjacency updates are tracked along every path of the routine "
           "(a static helper hands what it left undone to its callers). Searches and sorts are compared by the field their comparison function reads. Comparison functions are evaluated for all signs of the differences of their keys.")
ASSUME = ["the field of the mesh names the kind: nv, mvertex, gid_sorted_mvlist, max_vid, ghvertex and ovvertex belong together, and so on for edges, faces and regions"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "undef"]
MIN = {"search": 8, "nonempty": 8, "result": 8, "dispatch": 4, "sorted": 5, "unsorted": 16, "count": 6, "stale": 8, "largest": 3, "order": 4, "member": 8}


def mloc(f, ptr):
    g = f.get(strip(f, ptr))
    if g is not None and g.op == "getelementptr" and g.path and g.path[-1][0] == "f":
        return g.path[-1][1].lstrip("%"), g.path[-1][2], g.o[0]
    return None


DATA = [(0, "mesh"), (64, "AttInsList"), (128, "deleted")]      # from the program: see setup()


def setup(P):
    global DATA
    DATA = sorted((o, n) for o, n in P.structs.get("MEntity_Data", DATA))


def isent(f, p):
    """parameter p is a mesh entity"""
    t = (f.dargs or [""] * (p + 1))[p] if f.dargs and p < len(f.dargs) else ""
    return any(k in str(t) for k in ("MEntity", "MVertex", "MEdge", "MFace", "MRegion"))


def eloc(f, ptr):
    """bit offset of an entity data word and the entity"""
    l = mloc(f, ptr)
    if l and l[0] == "MEntity_Data":
        for o, n in DATA:
            if n == l[1]:
                return o, l[2]
    p = strip(f, ptr)
    if p[0] == "a" and isent(f, p[1]):
        return 0, p
    return None


def bitfield(f, v):
    """(field, entity) of entity data that a value holds"""
    sh, n = 0, 0
    while n < 8:
        n += 1
        v = strip(f, v)
        x = f.get(v)
        if x is None:
            return None
        if x.op in ("trunc", "zext", "sext", "and"):
            v = x.o[0]
        elif x.op in ("lshr", "ashr") and x.o[1][0] == "c":
            sh += x.o[1][1]
            v = x.o[0]
        elif x.op == "shl" and x.o[1][0] == "c":
            v = x.o[0]          # sign extension of a signed field: shl, then ashr
            sh -= x.o[1][1]
        elif x.op == "load":
            c = canon(f, v)
            if c != v:
                v = c
                continue
            e = eloc(f, x.o[0])
            if e is None:
                return None
            best = None
            for o, nme in DATA:
                if o <= e[0] + sh:
                    best = nme
            return best, canon(f, e[1])
        else:
            return None
    return None


def estores(f, x):
    """[(field, value or None, entity)] of entity data that a store changes"""
    e = eloc(f, x.o[1])
    if e is None:
        return []
    off, ent = e[0], canon(f, e[1])
    v = f.get(strip(f, x.o[0]))
    if v is not None and v.op in ("and", "or"):
        keep, val, sh = None, None, 0
        parts, n = [("i", v.i)], 0
        while parts and n < 9:
            n += 1
            y = f.get(strip(f, parts.pop()))
            if y is None:
                continue
            if y.op == "or":
                parts += [o for o in y.o if o[0] == "i"]
                if any(o[0] == "c" for o in y.o):
                    val = [o for o in y.o if o[0] == "c"][0]
            elif y.op == "and" and y.o[1][0] == "c":
                z = f.get(strip(f, y.o[0]))
                if z is not None and z.op == "load" and eloc(f, z.o[0]) == e:
                    keep = y.o[1][1] if keep is None else keep & y.o[1][1]
                else:
                    val = val or y.o[0]
            elif y.op == "shl":
                z = f.get(strip(f, y.o[0]))
                val = z.o[0] if z is not None and z.op == "and" else y.o[0]
        if keep is not None:
            ch = ~keep & ((1 << (32 if v.t == "i32" else 64)) - 1)
            out = []
            for i, (o, n) in enumerate(DATA):
                hi = DATA[i + 1][0] if i + 1 < len(DATA) else o + 32
                if off <= o < off + 64 and ch >> (o - off) & 1:
                    out.append((n, val, ent))
            return out
    for o, n in DATA:
        if o == off:
            return [(n, x.o[0], ent)]
    return []


def mfield(f, ptr):
    l = mloc(f, ptr)
    return l[1] if l and l[0] == "Mesh" else None


def vfields(f, v, through=True):
    """mesh fields (or ('a', i) parameters, ('d', i) what a parameter points to) a value is loaded from"""
    out = set()
    for o in summ.origins(f, v):
        x = f.get(o)
        if x is None:
            if o[0] == "a":
                out.add(o)
        elif x.op == "load":
            c = canon(f, o)
            if c != o and c != v:
                out |= vfields(f, c)
                continue
            m = mfield(f, x.o[0])
            p = strip(f, x.o[0])
            if m:
                out.add(m)
            elif p[0] == "a":
                out.add(("d", p[1]))
        elif x.op == "call" and through and x.callee in ADD:
            out |= vfields(f, x.o[0])
    return out


def edge_facts(f, b, idx):
    t = f.blocks[b][-1]
    if t.op == "br" and t.o and len(f.succ[b]) == 2 and t.succ[0] != t.succ[1]:
        k, pol = cond_key(f, t.o[0])
        return [(k, (idx == 0) == pol)]
    return []


class Fields:
    """entity data fields that functions return and set"""

    def __init__(self, P):
        self.P = P
        self.r, self.s = {}, {}

    def got(self, fn, depth=0):
        if fn in self.r or depth > 5:
            return self.r.get(fn, frozenset())
        self.r[fn] = frozenset()
        f = self.P.funcs.get(fn)
        out = set()
        if f is not None:
            for r in f.rets():
                for o in summ.origins(f, r.o[0]) if r.o else ():
                    x = f.get(o)
                    b = bitfield(f, o)
                    if b:
                        out.add(b[0])
                    elif x is not None and x.op == "call" and x.callee:
                        out |= self.got(x.callee, depth + 1)
        self.r[fn] = frozenset(out)
        return self.r[fn]

    def setter(self, fn, depth=0):
        """{(field, index of the value parameter)}"""
        if fn in self.s or depth > 5:
            return self.s.get(fn, frozenset())
        self.s[fn] = frozenset()
        f = self.P.funcs.get(fn)
        out = set()
        if f is not None:
            for x in f.instrs():
                if x.op == "store":
                    for fl, v, ent in estores(f, x):
                        if v is not None and canon(f, v)[0] == "a" and ent[0] == "a":
                            out.add((fl, canon(f, v)[1]))
                elif x.op == "call" and x.callee:
                    for fl, i in self.setter(x.callee, depth + 1):
                        if i < len(x.o) and strip(f, x.o[i])[0] == "a":
                            out.add((fl, strip(f, x.o[i])[1]))
        self.s[fn] = frozenset(out)
        return self.s[fn]

    def key(self, cmp):
        """fields a comparison function looks at"""
        f = self.P.funcs.get(cmp)
        out = set()
        if f is not None:
            for x in f.calls():
                if x.callee:
                    out |= self.got(x.callee)
        return out


def callers(P):
    if "_c18" not in P.__dict__:
        d = P._c18 = {}
        for f in P.funcs.values():
            for x in f.calls():
                if x.callee in P.funcs:
                    d.setdefault(x.callee, []).append((f, x))
    return P._c18


def sites(P, names):
    """(function, call, [values]) with parameters of static helpers resolved at their callers: values are (f, v)"""
    for n, f in sorted(P.funcs.items()):
        for x in f.calls():
            if x.callee in names:
                todo = [(f, x, [(f, o) for o in x.o], 0)]
                while todo:
                    g, y, vals, d = todo.pop()
                    lf = vfields(*vals[0])
                    if d < 3 and lf and all(isinstance(l, tuple) and l[0] == "a" for l in lf) and callers(P).get(g.name) and g.name not in names:
                        for h, z in callers(P)[g.name]:
                            nv = []
                            for (q, v) in vals:
                                w = canon(q, v)
                                nv.append((h, z.o[w[1]]) if q is g and w[0] == "a" and w[1] < len(z.o) else (q, v))
                            todo.append((h, z, nv, d + 1))
                        continue
                    yield g, y, vals


class Track:
    """what routines leave undone: list changed or ID changed (d), flagged (l), excused (e)"""

    def __init__(self, P, F):
        self.P, self.F = P, F
        self.flag = {}        # fn -> tokens it always flags
        self.left = {}        # static fn -> tokens left dirty
        self.raise_ = {}
        self.modl = {}        # fn -> {(how, i, class)} list parameters it changes
        self.events = {}
        self._lists()
        ch = True
        n = 0
        while ch and n < 8:
            n += 1
            ch = False
            for fn, f in P.funcs.items():
                fl, lf, ev = self.routine(f)
                if fl != self.flag.get(fn, frozenset()) or lf != self.left.get(fn, {}):
                    self.flag[fn], self.left[fn] = fl, lf
                    ch = True
                if ev:
                    self.events[fn] = ev

    def _lists(self):
        ch = True
        while ch:
            ch = False
            for fn, f in self.P.funcs.items():
                if f.file.endswith("util/List.c"):
                    continue
                out = set()
                for x in f.calls():
                    for fs in self.changed(f, x):
                        for l in fs:
                            if isinstance(l, tuple):
                                out.add(l)
                if out != self.modl.get(fn, set()):
                    self.modl[fn] = out
                    ch = True

    def changed(self, f, x):
        """lists that a call changes"""
        if x.callee in MUT:
            yield vfields(f, x.o[0])
        elif x.callee in self.modl:
            for how, i in self.modl[x.callee]:
                if i < len(x.o):
                    if how == "a":
                        yield vfields(f, x.o[i])
                    else:
                        m = mfield(f, x.o[i])
                        p = strip(f, x.o[i])
                        yield {m} if m else {("d", p[1])} if p[0] == "a" else set()

    def actions(self, f, x):
        """[(token, action)]"""
        out = []
        if x.op == "call":
            if x.callee:
                for fs in self.changed(f, x):
                    for l in fs:
                        if l in LIST:
                            out += [("lid", "d"), ("gid", "d"), ("n%d" % LIST[l], "d")]
                        elif l in GH:
                            out.append(("par", "d"))
                for t in self.flag.get(x.callee, ()):
                    out.append((t, "l"))
                for t in self.left.get(x.callee, ()):
                    out.append((t, "d"))
                for fl, i in self.F.setter(x.callee):
                    if fl == "id" and i < len(x.o):
                        if vfields(f, x.o[i]) & set(MAX) or any(y.op == "store" and mfield(f, y.o[1]) in MAX and canon(f, y.o[0]) == canon(f, x.o[i]) for y in f.instrs()):
                            out.append(("lid", "e"))
        elif x.op == "store":
            m = mfield(f, x.o[1])
            if m == "lidlists_sorted" or m == "gidlists_sorted":
                t = m[:3]
                if canon(f, x.o[0]) == ("c", 0):
                    out.append((t, "l"))
                else:
                    out.append((t, "r"))
            elif m == "par_adj_current" and canon(f, x.o[0]) == ("c", 0):
                out.append(("par", "l"))
            elif m in NUM:
                out.append(("n%d" % NUM[m], "l"))
            elif m in LIST:
                v = f.get(strip(f, x.o[0]))
                if v is not None and v.op == "call" and v.callee not in ADD and v.callee != "List_New" and not (vfields(f, x.o[0]) & {m}) and not (v.callee in self.modl):
                    out.append(("n%d" % LIST[m], "d"))
            else:
                for fl, v, ent in estores(f, x):
                    if fl in ("id", "globalid"):
                        fresh = any(y.op == "store" and y.o[0] == ("null",) and any(q[0] == "mesh" and q[2] == ent for q in estores(f, y)) for y in f.instrs())
                        if not fresh:
                            out.append(("lid" if fl == "id" else "gid", "d"))
        return out

    def routine(self, f):
        acts = {}
        toks = set()
        for x in f.instrs():
            a = self.actions(f, x)
            if a:
                acts[id(x)] = a
                toks |= {t for t, _ in a}
        if not toks:
            return frozenset(), {}, None
        dirt = {t for a in acts.values() for t, k in a if k == "d"}
        always, left, ev = set(), {}, {}
        for t in sorted(toks):
            st = {0: {(0, 0, 0)}}
            todo = [0]
            while todo:
                b = todo.pop()
                cur = set(st.get(b, ()))
                for x in f.blocks[b]:
                    for t2, k in acts.get(id(x), ()):
                        if t2 != t:
                            continue
                        cnt = t[0] == "n"
                        if k == "d":
                            cur = {(1, 0 if cnt else l, 0 if cnt else e) for d, l, e in cur}
                        elif k == "l":
                            cur = {(0, 1, 0)} if cnt else {(d, 1, e) for d, l, e in cur}
                        elif k == "e":
                            cur = {(d, l, 1) for d, l, e in cur}
                        elif k == "r":
                            cur = {(0, 0, e) for d, l, e in cur}
                for i, s in enumerate(f.succ[b]):
                    c2 = set(cur)
                    for key, val in edge_facts(f, b, i):
                        if len(key) == 3 and key[1] == "eq" and val and key[2] in (("c", 0), ("null",)):
                            y = f.get(key[0])
                            fl = None
                            q = bitfield(f, key[0])
                            if q:
                                fl = q[0]
                            elif y is not None and y.op == "call" and y.callee:
                                g = self.F.got(y.callee)
                                fl = "mesh" if g == {"mesh"} else None
                            if fl == "mesh" and t in ("lid", "gid") or fl == "id" and t == "lid":
                                c2 = {(d, l2, 1) for d, l2, e in c2}
                    if not c2 <= st.get(s, set()):
                        st.setdefault(s, set()).update(c2)
                        todo.append(s)
            # again, to the returns
            fin = set()
            for r in f.rets():
                cur = set(st.get(r.b, ()))
                for x in f.blocks[r.b]:
                    for t2, k in acts.get(id(x), ()):
                        if t2 != t:
                            continue
                        cnt = t[0] == "n"
                        if k == "d":
                            cur = {(1, 0 if cnt else l, 0 if cnt else e) for d, l, e in cur}
                        elif k == "l":
                            cur = {(0, 1, 0)} if cnt else {(d, 1, e) for d, l, e in cur}
                        elif k == "e":
                            cur = {(d, l, 1) for d, l, e in cur}
                        elif k == "r":
                            cur = {(0, 0, e) for d, l, e in cur}
                fin |= cur
            if fin and all(l for d, l, e in fin):
                always.add(t)
            if t in dirt:
                badend = any(d and not l and not e for d, l, e in fin)
                helper = f.internal and callers(self.P).get(f.name)
                if badend and helper:
                    left[t] = 1
                else:
                    ev[t] = badend
        return frozenset(always), left, ev


def antisym(P, f, F):
    """None when fine, text when not, False when it could not be evaluated"""
    # paths with the signs of the compared differences
    swap = {("a", 0): ("a", 1), ("a", 1): ("a", 0)}

    def ex(v, env, d=0):
        v = strip(f, v)
        if v in env:
            return env[v]
        x = f.get(v)
        if x is None or d > 14:
            return v
        if x.op == "phi":
            return ("phi", x.i)
        if x.op == "load":
            return ("ld", ex(x.o[0], env, d + 1))
        if x.op == "getelementptr":
            return ("gep", ex(x.o[0], env, d + 1), tuple((p[0], ex(p[1], env, d + 1), p[2]) if p[0] == "x" else tuple(p) for p in x.path))
        if x.op == "call":
            return ("call", x.callee) + tuple(ex(o, env, d + 1) for o in x.o)
        if x.op == "alloca":
            return ("loc", x.i)
        return (x.op,) + tuple(ex(o, env, d + 1) for o in x.o) + ((x.p,) if x.op in ("icmp", "fcmp") else ())

    # memory written by a call through a local: name it by the call and its other arguments
    names = {}
    for x in f.instrs():
        if x.op == "alloca":
            for y in f.calls():
                if y.callee and not y.callee.startswith(("llvm.", "__undef")) and any(strip(f, o) == ("i", x.i) for o in y.o):
                    names.setdefault(("i", x.i), []).append(y)

    def sw(e):
        if e in swap:
            return swap[e]
        if isinstance(e, tuple):
            return tuple(sw(q) for q in e)
        return e
    results = []

    def go(b, prev, env, signs, seen, n=[0]):
        n[0] += 1
        if n[0] > 4000:
            raise RecursionError
        env = dict(env)
        for x in f.blocks[b]:
            if x.op == "phi":
                for v, pb in x.o:
                    if pb == prev:
                        env[("i", x.i)] = ex(v, env) if b not in f.loops() or prev not in f.loops()[b] else ("again", x.i)
            elif x.op == "load":
                a = strip(f, x.o[0])
                g = f.get(a)
                base = a
                if g is not None and g.op == "getelementptr":
                    base = strip(f, g.o[0])
                q = names.get(base)
                if q:
                    env[("i", x.i)] = ("ld", ("filled", q[0].callee) + tuple(ex(o, env) for o in q[0].o if strip(f, o) != base), tuple((p[0], ex(p[1], env), p[2]) if p[0] == "x" else tuple(p) for p in (g.path if g is not None and g.op == "getelementptr" else ())))
                else:
                    c = canon(f, ("i", x.i))
                    if c != ("i", x.i):
                        env[("i", x.i)] = ex(c, env)
            elif x.op == "ret":
                results.append((dict(signs), ex(x.o[0], env)))
                return
            elif x.op in ("br", "switch"):
                break
        t = f.blocks[b][-1]
        if t.op == "br" and t.o and len(f.succ[b]) == 2:
            c = f.get(t.o[0])
            if c is None or c.op not in ("icmp", "fcmp"):
                raise RecursionError
            l, r = ex(c.o[0], env), ex(c.o[1], env)
            p = c.p
            for idx, s in enumerate(t.succ):
                if (b, s) in seen:
                    continue
                for key, sg in rel(l, p, r, idx == 0):
                    if key in signs and signs[key] != sg:
                        continue
                    s2 = dict(signs)
                    if key is not None:
                        s2[key] = sg
                    go(s, b, env, s2, seen | {(b, s)})
        else:
            for s in f.succ[b]:
                if (b, s) not in seen:
                    go(s, b, env, signs, seen | {(b, s)})

    def leaves(e):
        if e in swap:
            return {e[1]}
        return set().union(*[leaves(q) for q in e]) if isinstance(e, tuple) and e and e[:1] != ("c",) else set()

    def side(e):
        s = leaves(e)
        return min(s) if len(s) == 1 else None

    def rel(l, p, r, truth):
        """ways the comparison can have this outcome, as signs of a pair of keys"""
        p = p.lstrip("us") if p not in ("ugt", "ult", "uge", "ule", "une", "ueq") else p[1:]
        p = {"ogt": "gt", "olt": "lt", "oge": "ge", "ole": "le", "oeq": "eq", "one": "ne"}.get(p, p)
        m = {"gt": (1,), "lt": (-1,), "ge": (1, 0), "le": (-1, 0), "eq": (0,), "ne": (1, -1)}.get(p)
        if m is None:
            return [(None, 0)]
        # (a - b) > tol
        tol = False
        if isinstance(l, tuple) and l[:1] in (("fsub",), ("sub",)) and len(l) == 3 and sw(l[1]) == l[2] and r[0] in ("c", "f", "fp"):
            l, r, tol = l[1], l[2], True
        out = []
        sl, sr = side(l), side(r)
        if {sl, sr} == {0, 1}:
            for s in (1, 0, -1):
                if (s in m) == truth:
                    out.append(((l, r), s) if sl == 0 else ((r, l), -s))
        else:
            # a condition within one side, or on neither
            k = ("side", l, p, r)
            out.append((k, 1 if truth else 0))
        return out
    try:
        go(0, None, {}, {}, frozenset())
    except RecursionError:
        return False
    if not results:
        return False

    def val(r, signs):
        if r[0] == "c":
            return (r[1] > 0) - (r[1] < 0)
        if r[0] in ("sub", "fsub"):
            if sw(r[1]) == r[2]:
                return None, r
            if {side(r[1]), side(r[2])} == {0, 1}:
                return "differs", r
        if r[0] == "call" and len(r) == 4:
            return "call", r
        return "?"
    for signs, r in results:
        v = val(r, signs)
        if v == "?":
            return False
        if isinstance(v, tuple):
            if v[0] == "differs":
                return "subtracts two things that are not each other's counterpart"
            if v[0] is None:
                if len(results) > 1:
                    return False
                continue
            a, b = r[2], r[3]
            if sw(a) == b or swname(f, a, b, names, ex, sw):
                continue
            return "hands on two things that are not each other's counterpart"
    if any(isinstance(val(r, s), tuple) for s, r in results):
        return None
    def sub(e, d):
        if e in d:
            return d[e]
        return tuple(sub(q, d) for q in e) if isinstance(e, tuple) else e

    def same_keys(s):
        """write conditions on one side with the left of two keys that are equal"""
        d = {k[1]: k[0] for k, x in s.items() if len(k) == 2 and x == 0}
        return {(k if len(k) == 2 else sub(k, d)): x for k, x in s.items()}
    rs = [(same_keys(s), val(r, s)) for s, r in results]
    for s, v in rs:
        pairs = {k: x for k, x in s.items() if len(k) == 2}
        if pairs and all(x == 0 for x in pairs.values()) and v != 0:
            return "equal keys do not give 0"
        if not pairs and v != 0:
            return "answers %d without comparing the two" % v
    unsure = False
    for s, v in rs:
        m = {}
        for k, x in s.items():
            if len(k) == 2:
                m[(sw(k[1]), sw(k[0]))] = -x
            else:
                m[sw(k)] = x
        m = same_keys(m)
        same = [w for t, w in rs if t == m]
        if any(w != -v for w in same):
            return "does not give the opposite answer when the two are exchanged"
        if not same:
            near = [w for t, w in rs if all(t.get(k, x) == x for k, x in m.items())]
            if near and all(w != -v for w in near):
                return "does not give the opposite answer when the two are exchanged"
            if not near or any(w != -v for w in near):
                unsure = True
    return False if unsure else None


def swname(f, a, b, names, ex, sw):
    """locals filled from the two arguments by the same call"""
    if a[0] == "gep":
        a = a[1]
    if b[0] == "gep":
        b = b[1]
    if a[0] == "loc" and b[0] == "loc":
        x, y = names.get(("i", a[1])), names.get(("i", b[1]))
        if x and y:
            x = [c for c in x if any(ex(o, {}) not in (a, b) for o in c.o)]
            y = [c for c in y if any(ex(o, {}) not in (a, b) for o in c.o)]
            if x and y and x[0].callee == y[0].callee:
                p = [ex(o, {}) for o in x[0].o if ex(o, {}) != a]
                q = [ex(o, {}) for o in y[0].o if ex(o, {}) != b]
                return [sw(o) for o in p] == q
    return False


def run(P, R):
    setup(P)
    F = Fields(P)

    def where(f, x):
        return "%s:%s %s" % (f.file, x.line, f.name)
    # -- sorts and searches
    sorts = {}
    for f, x, vals in sites(P, {"List_Sort"}):
        ls = {l for l in vfields(*vals[0]) if isinstance(l, str)}
        g, v = vals[4 - 1]
        c = canon(*vals[3])
        for l in ls & (set(LIST) | set(GID)):
            if c[0] == "fn":
                sorts.setdefault(l, set()).add(c[1])
            R.ob("search", "sort of %s" % l, 1, sample="%s %s" % (f.name, l))
            cnt = counted(*vals[1])
            if cnt is None:
                R.undec("search", "%s: number of entries sorted (line %s)" % (f.name, x.line))
            elif cnt != {KIND[l]} and cnt != {l}:
                R.bad("search", "%s sort %s count" % (f.name, l), where(f, x), "%s is sorted with the number of entries of another list (%s)" % (l, sorted(map(str, cnt))))
    for l in sorted(LIST) + sorted(GID):
        if l not in sorts:
            R.undec("search", "no sort of %s found" % l)
    nsearch = set()
    for f, x, vals in sites(P, {"List_Search"}):
        ls = {l for l in vfields(*vals[0]) if isinstance(l, str)}
        if not ls & (set(LIST) | set(GID)):
            continue
        for l in ls:
            nsearch.add(l)
            key = "%s %s" % (f.name, l)
            R.ob("search", "search of %s" % l, 1, sample=key)
            cnt = counted(*vals[2])
            if cnt is None:
                R.undec("search", key + ": count")
            elif cnt != {KIND[l]} and cnt != {l}:
                R.bad("search", key + " count", where(f, x), "%s is searched with the number of entries of another list" % l)
            c = canon(*vals[4])
            if c[0] != "fn":
                R.undec("search", key + ": comparison")
                continue
            other = sorts.get(l, set()) - {c[1]}
            if other:
                R.bad("search", key + " comparison", where(f, x), "%s is searched with %s but sorted with %s" % (l, c[1], ", ".join(sorted(other))))
            # the key
            kf = F.key(c[1])
            g, kv = vals[1]
            slot = strip(g, kv)
            got = set()
            for y in g.calls():
                st = F.setter(y.callee) if y.callee else ()
                for fl, i in st:
                    if i < len(y.o) and any(sub == slot for sub in slots(g, y.o[0])):
                        got.add((fl, strip(g, y.o[i])[0] == "a" or canon(g, y.o[i])[0] == "a"))
            if not got:
                R.undec("search", key + ": key")
            elif not any(fl in kf and isid for fl, isid in got):
                R.bad("search", key + " key", where(f, x), "the key of the search has its %s set, the comparison looks at %s" % (sorted(fl for fl, _ in got), sorted(kf)))
            # the list exists
            R.ob("nonempty", key, 1)
            ok = False
            for q, w in [(f, x)] + [(g, None)]:
                if w is None:
                    continue
                for k, val in own.dominating_facts(q, w.b).items():
                    if len(k) == 3 and k[1] in ("eq",) and k[2] in (("c", 0), ("null",)) and not val:
                        fs = vfields(q, k[0])
                        if fs and fs <= {l, "n" + K4[KIND[l]][0]}:
                            ok = True
                    if len(k) == 3 and k[1] in ("slt",) and k[2] == ("c", 1) and not val or len(k) == 3 and k[1] == "sgt" and k[2] == ("c", 0) and val:
                        if vfields(q, k[0]) == {"n" + K4[KIND[l]][0]}:
                            ok = True
            if l in GID:
                pass
            if not ok:
                R.bad("nonempty", key, where(f, x), "%s may not exist here: nothing on every path to this search looked at it or the number of entries" % l)
    for l in sorted(set(LIST) | set(GID)):
        if l not in nsearch:
            R.undec("search", "no search of %s found" % l)

    # -- results
    for base, fld in (("FromID", "id"), ("FromGlobalID", "globalid")):
        for ki, kn in enumerate(KN):
            fn = "MESH_%s%s" % (kn, base)
            f = P.funcs.get(fn)
            if f is None:
                R.undec("result", fn); continue
            R.ob("result", fn, 1, sample=fn)
            for r in f.rets():
                for o in summ.origins(f, r.o[0]):
                    x = f.get(o)
                    if o[0] in ("null", "c") or x is None:
                        continue
                    if x.op != "call":
                        R.undec("result", fn); continue
                    if x.callee == "List_Search":
                        continue
                    ls = {l for q in x.o for l in vfields(f, q) if isinstance(l, str)}
                    kk = {KIND[l] for l in ls if l in KIND}
                    if x.callee in P.funcs and any(t in x.callee for t in ("FromID", "FromGlobalID")):
                        if x.callee != fn and not P.funcs[x.callee].internal and kn not in x.callee:
                            R.bad("result", "%s %s" % (fn, x.callee), where(f, x), "%s returns what %s found" % (fn, x.callee))
                        continue
                    if kk and kk != {ki} or x.callee.startswith("MESH_Next_") and x.callee != "MESH_Next_" + kn:
                        R.bad("result", "%s %s" % (fn, x.callee), where(f, x), "%s takes its result from the list of another kind" % fn)
                        continue
                    if P.funcs.get(x.callee) is not None and P.funcs[x.callee].internal:
                        continue                        # a helper: List_Search within
                    # every way from here to the return has seen the ID equal, or no entity
                    if not confirmed(f, x, r, F, fld):
                        R.bad("result", "%s %s" % (fn, x.callee), where(f, x), "%s can return an entity whose %s was not compared with the one asked for" % (fn, "ID" if fld == "id" else "global ID"))
    # -- dispatch by kind
    for base in ("FromID", "FromGlobalID"):
        f = P.funcs.get("MESH_Entity" + base)
        if f is None:
            R.undec("dispatch", base); continue
        for x in f.calls():
            for ki, kn in enumerate(KN):
                if x.callee == "MESH_%s%s" % (kn, base):
                    R.ob("dispatch", "%s %s" % (f.name, kn), 1)
                    vals = {k[2][1] for k, val in own.dominating_facts(f, x.b).items() if len(k) == 3 and k[0][0] == "a" and k[1] == "eq" and val and k[2][0] == "c"}
                    if vals and vals != {ki}:
                        R.bad("dispatch", "%s %s" % (f.name, kn), where(f, x), "%s is called for kind %s" % (x.callee, sorted(vals)))
                    ids = canon(f, x.o[1])
                    if ids[0] != "a":
                        R.bad("dispatch", "%s %s id" % (f.name, kn), where(f, x), "%s is not asked for the ID given" % x.callee)

    # -- flagged as sorted
    srt = {}            # fn -> {param index: comparisons} of lists it always sorts

    def musts(f):
        """tokens at each block start: must"""
        def gen(x, s):
            s = set(s)
            if x.op == "call" and x.callee:
                if x.callee == "List_Sort":
                    ls = vfields(f, x.o[0])
                    c = canon(f, x.o[3])
                    for l in ls:
                        s.add(("sorted", l, c[1] if c[0] == "fn" else None))
                elif x.callee == "List_Compress":
                    for l in vfields(f, x.o[0]):
                        s.add(("comp", l))
                elif x.callee in srt:
                    for (t, l, c) in srt[x.callee]:
                        if l[0] == "a" and l[1] < len(x.o):
                            for q in vfields(f, x.o[l[1]]):
                                cc = canon(f, x.o[c[1]]) if isinstance(c, tuple) and c[0] == "a" and c[1] < len(x.o) else ("fn", c)
                                s.add((t, q, cc[1] if cc[0] == "fn" else None) if t == "sorted" else (t, q))
            elif x.op == "store":
                m = mfield(f, x.o[1])
                if m in LIST or m in GID:
                    s = {t for t in s if t[1] != m}
                    if canon(f, x.o[0])[0] == "null":
                        s |= {("none", m)}
                    v = f.get(strip(f, x.o[0]))
                    if v is not None and v.op == "call" and v.callee == "List_Copy":
                        src = vfields(f, v.o[0])
                        s |= {("copied", m, tuple(sorted(map(str, src))))}
            return s
        n = len(f.blocks)
        inn = {0: set()}
        out = {}
        ch = True
        while ch:
            ch = False
            for b in f.rpo():
                if b not in inn:
                    continue
                s = set(inn[b])
                for x in f.blocks[b]:
                    s = gen(x, s)
                out[b] = s
                for i, t in enumerate(f.succ[b]):
                    e = set(s)
                    for k, val in edge_facts(f, b, i):
                        if len(k) == 3 and k[1] == "eq" and k[2] in (("c", 0), ("null",)):
                            for l in vfields(f, k[0], False):
                                if isinstance(l, tuple):
                                    if val:
                                        e.add(("none", l))
                                elif val and l in NUM:
                                    e |= {("none", "m" + K4[NUM[l]]), ("none", "gid_sorted_m%slist" % l[1])}
                                elif val and (l in LIST or l in GID):
                                    e.add(("none", l))
                                elif not val and l == "gidlists_sorted":
                                    e.add(("current", "gid"))
                                elif not val and l == "lidlists_sorted":
                                    e.add(("current", "lid"))
                    if len(f.pred[t]) > 1 or t in inn:
                        if t in inn:
                            q = norm(inn[t]) & norm(e)
                            if q != inn[t]:
                                inn[t] = q
                                ch = True
                        else:
                            inn[t] = norm(e); ch = True
                    else:
                        inn[t] = norm(e); ch = True
        return inn, gen

    def norm(s):
        """a list that does not exist counts as sorted, compressed and copied"""
        s = set(s)
        for t in list(s):
            if t[0] == "none":
                s.add(("oksort", t[1])); s.add(("okcopy", t[1]))
            elif t[0] == "sorted" and ("comp", t[1]) in s:
                if t[1] in KIND:
                    if t[2] in want.get(t[1], ()):
                        s.add(("oksort", t[1]))
            elif t[0] == "copied" and t[1] in GID:
                if t[2] == ("m" + K4[GID[t[1]]],):
                    s.add(("okcopy", t[1]))
            elif t == ("current", "gid"):
                for l in GID:
                    s.add(("okcopy", l))
        return s
    want = {l: sorts.get(l, set()) for l in KIND}
    for fn, f in sorted(P.funcs.items()):
        if f.internal and any(x.callee == "List_Sort" and any(l[0] == "a" for l in vfields(f, x.o[0]) if isinstance(l, tuple)) for x in f.calls()):
            inn, gen = musts(f)
            fin = None
            for r in f.rets():
                s = set(inn.get(r.b, ()))
                for x in f.blocks[r.b]:
                    s = gen(x, s)
                s = {(t[0], t[1], t[2] if len(t) > 2 else None) for t in s if isinstance(t[1], tuple)}
                nn = {t[1] for t in s if t[0] == "none"}
                s |= {("NONE", l, None) for l in nn}
                fin = s if fin is None else fin & s | {t for t in (fin | s) if ("NONE", t[1], None) in (s if t in fin else fin)}
            cmp = {x.o[3] for x in f.calls() if x.callee == "List_Sort"}
            res = set()
            for t, l, c in fin or ():
                if t in ("sorted", "comp"):
                    if t == "sorted" and c is None:
                        cs = [canon(f, v) for v in cmp]
                        c = cs[0] if len(cs) == 1 and cs[0][0] == "a" else None
                    res.add((t, l, c))
            srt[fn] = res
    for fn, f in sorted(P.funcs.items()):
        for x in f.instrs():
            if x.op != "store":
                continue
            m = mfield(f, x.o[1])
            if m not in ("lidlists_sorted", "gidlists_sorted") or canon(f, x.o[0]) == ("c", 0):
                continue
            R.ob("sorted", "%s %s" % (fn, m), 1, sample=fn)
            inn, gen = musts(f)
            s = set(inn.get(x.b, ()))
            for y in f.blocks[x.b]:
                if y is x:
                    break
                s = gen(y, s)
            s = norm(s)
            unres = [y for y in f.calls() if y.callee in ("List_Sort",) and not (vfields(f, y.o[0]) & set(KIND))]
            for l in sorted(LIST if m[0] == "l" else GID):
                R.ob("sorted", "%s %s" % (fn, l), 1)
                if ("oksort", l) not in s:
                    if unres:
                        R.undec("sorted", "%s %s" % (fn, l))
                    else:
                        R.bad("sorted", "%s %s" % (fn, l), where(f, x), "%s is set on a path on which %s was not compressed and sorted with %s" % (m, l, "/".join(sorted(want.get(l, ["?"])))))
                if l in GID and fn != "MESH_New" and ("okcopy", l) not in s:
                    R.bad("sorted", "%s %s copy" % (fn, l), where(f, x), "%s is set on a path on which %s need not have the current entities" % (m, l))
    # copies for the search by global ID are of the same kind
    for fn, f in sorted(P.funcs.items()):
        for x in f.instrs():
            if x.op == "store" and mfield(f, x.o[1]) in GID:
                v = f.get(strip(f, x.o[0]))
                if v is not None and v.op == "call" and v.callee == "List_Copy":
                    l = mfield(f, x.o[1])
                    src = vfields(f, v.o[0])
                    R.ob("sorted", "%s copy %s" % (fn, l), 1)
                    if src != {"m" + K4[GID[l]]}:
                        R.bad("sorted", "%s copy %s" % (fn, l), where(f, x), "%s is made a copy of %s" % (l, sorted(map(str, src))))

    # -- what routines leave undone
    T = Track(P, F)
    NM = {"lid": ("unsorted", "lidlists_sorted", "the lists stay flagged as sorted by ID"), "gid": ("unsorted", "gidlists_sorted", "the lists stay flagged as sorted by global ID"),
          "par": ("stale", "par_adj_current", "the parallel adjacency stays flagged as current")}
    for fn in sorted(T.events):
        f = P.funcs[fn]
        for t, badend in sorted(T.events[fn].items()):
            rule, flag, txt = NM.get(t, ("count", "n" + K4[int(t[1])][0] if t[0] == "n" else "", "the number of entries is not brought up to date"))
            R.ob(rule, "%s %s" % (fn, flag), 1, sample=fn)
            if badend:
                R.bad(rule, "%s %s" % (fn, flag), "%s:%s %s" % (f.file, f.line, fn), "a path of %s changes the lists or the ID and returns without updating %s: %s" % (fn, flag, txt))
    # what is stored as a count belongs to the list
    for fn, f in sorted(P.funcs.items()):
        for x in f.instrs():
            if x.op != "store" or mfield(f, x.o[1]) not in NUM:
                continue
            m = mfield(f, x.o[1])
            v = f.get(canon(f, x.o[0]))
            R.ob("count", "%s stores %s" % (fn, m), 1)
            if v is not None and v.op == "call" and v.callee == "List_Num_Entries":
                src = {l for l in vfields(f, v.o[0]) if isinstance(l, str)}
                if src and src != {"m" + K4[NUM[m]]}:
                    R.bad("count", "%s stores %s" % (fn, m), where(f, x), "%s is set to the number of entries of %s" % (m, sorted(src)))
            elif v is not None and v.op in ("add", "sub"):
                src = vfields(f, v.o[0]) | vfields(f, v.o[1])
                if not src & {m}:
                    R.bad("count", "%s stores %s" % (fn, m), where(f, x), "%s is computed from %s" % (m, sorted(map(str, src))))
            elif v is None and canon(f, x.o[0]) == ("c", 0):
                pass
            else:
                R.undec("count", "%s stores %s" % (fn, m))
    # -- lists and kinds in the operations on ghost and overlap lists, and the stored list
    for fn, f in sorted(P.funcs.items()):
        for x in f.instrs():
            if x.op == "store" and (mfield(f, x.o[1]) in LIST or mfield(f, x.o[1]) in GH):
                v = f.get(strip(f, x.o[0]))
                if v is not None and v.op == "call" and v.callee in ADD:
                    m = mfield(f, x.o[1])
                    src = {l for l in vfields(f, v.o[0]) if isinstance(l, str)}
                    if src:
                        R.ob("member", "%s %s" % (fn, m), 1)
                        if src != {m}:
                            R.bad("member", "%s %s" % (fn, m), where(f, x), "the list %s with the new entry becomes %s" % (sorted(src), m))

    # -- largest ID
    for fn, f in sorted(P.funcs.items()):
        st = [x for x in f.instrs() if x.op == "store" and mfield(f, x.o[1]) in MAX]
        for x in st:
            m = mfield(f, x.o[1])
            key = "%s %s" % (fn, m)
            R.ob("largest", key, 1, sample=key)
            v = canon(f, x.o[0])
            if v == ("c", 0):
                continue
            y = f.get(v)
            if y is not None and y.op == "add":
                src = vfields(f, y.o[0]) | vfields(f, y.o[1])
                cs = {o for o in y.o if o[0] == "c"}
                if src != {m} or not cs or min(c[1] for c in cs) < 1:
                    R.bad("largest", key, where(f, x), "%s is not made larger than it was" % m)
                continue
            if v[0] == "a":
                # raised only: not lowered
                ok = any(len(k) == 3 and v in (k[0], k[2]) and m in (vfields(f, k[0]) | vfields(f, k[2])) and
                         ((k[1] == "sgt" and (k[0] == v) == val) or (k[1] == "slt" and (k[2] == v) == val)) for k, val in own.dominating_facts(f, x.b).items())
                if not ok:
                    R.bad("largest", key, where(f, x), "%s is set to a value that may be smaller than it was" % m)
                # and chosen by the kind
                for k, val in own.dominating_facts(f, x.b).items():
                    if len(k) == 3 and k[1] == "eq" and val and k[0][0] == "a" and k[2][0] == "c" and k[2][1] != MAX[m]:
                        R.bad("largest", key + " kind", where(f, x), "%s is raised for entities of kind %d" % (m, k[2][1]))
                continue
            if y is not None and (y.op == "load" and mfield(f, y.o[0]) in NUM or y.op == "call" and (y.callee == "List_Num_Entries" or (y.callee or "").startswith("MESH_Num_"))):
                R.bad("largest", key, where(f, x), "%s is set to a number of entities: an ID may be larger" % m)
                continue
            # computed from the entities of the mesh: of the same kind
            kinds = set()
            seen, todo = set(), [(v, None)]
            while todo:
                w, fromb = todo.pop()
                w = strip(f, w)
                if w in seen:
                    continue
                seen.add(w)
                z = f.get(w)
                if z is None:
                    continue
                if z.op == "phi":
                    todo += [(a, pb) for a, pb in z.o]
                elif z.op == "select":
                    todo += [(o, z) for o in z.o[1:]]
                elif z.op == "call" and "id" in F.got(z.callee or ""):
                    e = f.get(canon(f, z.o[0]))
                    if fromb is not None:
                        if isinstance(fromb, int):
                            fd = dict(own.dominating_facts(f, fromb))
                            for i2, s2 in enumerate(f.succ[fromb]):
                                if any(q.op == "phi" and any(pb == fromb and strip(f, o) == w for o, pb in q.o) for q in f.blocks[s2]):
                                    fd.update(edge_facts(f, fromb, i2))
                        else:
                            k, pol = cond_key(f, fromb.o[0])
                            fd = {k: (strip(f, fromb.o[1]) == w) == pol}
                        bigger = False
                        for k, val in fd.items():
                            if len(k) == 3 and k[1] in ("slt", "sgt"):
                                for p, up in ((k[0], k[1] == "sgt"), (k[2], k[1] == "slt")):
                                    q = f.get(p)
                                    if q is not None and q.op == "call" and F.got(q.callee or "") == {"id"} and canon(f, q.o[0]) == canon(f, z.o[0]) and up == val:
                                        bigger = True
                        if not bigger:
                            R.bad("largest", key + " largest", where(f, z), "%s becomes an ID that was not found to be larger" % m)
                    for i, kn in enumerate(KN):
                        if e is not None and e.op == "call" and e.callee in ("MESH_Next_" + kn, "MESH_" + kn):
                            kinds.add(i)
                elif z.op == "load":
                    c = canon(f, w)
                    if c != w:
                        todo.append((c, fromb))
            if kinds and kinds != {MAX[m]}:
                R.bad("largest", key, where(f, x), "%s is computed from entities of another kind" % m)
            if not kinds:
                R.undec("largest", key)
    # whoever sets an ID raises the largest one
    def raises(fn, seen=frozenset(), d=0):
        f = P.funcs.get(fn)
        if f is None or d > 3:
            return set()
        out = {mfield(f, x.o[1]) for x in f.instrs() if x.op == "store" and mfield(f, x.o[1]) in MAX}
        for x in f.calls():
            if x.callee in P.funcs and x.callee not in seen:
                out |= raises(x.callee, seen | {fn}, d + 1)
        return out
    for fn, f in sorted(P.funcs.items()):
        for x in f.instrs():
            if x.op != "store":
                continue
            if not any(fl == "id" and v is not None and canon(f, v)[0] != "c" for fl, v, ent in estores(f, x)):
                continue
            R.ob("largest", "%s sets an ID" % fn, 1)
            cs = [y for y in f.calls() if y.callee and raises(y.callee) == set(MAX)]
            direct = raises(fn) == set(MAX)
            if not direct:
                R.bad("largest", "%s sets an ID" % fn, where(f, x), "an ID is set and the largest ID of the mesh is not raised to it")
                continue
            # on every path on which the entity has a mesh
            if cs:
                blocks = {y.b for y in cs}
                stop = set(blocks)
                miss = x.b not in blocks and passes(f, x.b, stop, F)
                if miss and not any(f.dominates(b, x.b) for b in blocks):
                    R.bad("largest", "%s sets an ID" % fn, where(f, x), "on some path an ID is set for an entity of a mesh and the largest ID is not raised to it")

    # -- comparison functions
    cmps = {}
    for fn, f in P.funcs.items():
        for x in f.calls():
            if x.callee in ("List_Sort", "List_Search", "qsort", "bsearch"):
                for o in x.o:
                    c = canon(f, o)
                    if c[0] == "fn" and c[1] in P.funcs:
                        cmps.setdefault(c[1], []).append((f, x))
    for c in sorted(cmps):
        R.ob("order", c, 1, sample=c)
        r = antisym(P, P.funcs[c], F)
        if r is False:
            R.undec("order", c)
        elif r:
            f = P.funcs[c]
            R.bad("order", c, "%s:%s %s" % (f.file, f.line, c), "comparison function %s" % r)

    # -- membership
    def listops(fn, ops, d=0, seen=frozenset()):
        f = P.funcs.get(fn)
        out = set()
        if f is None or d > 3 or fn in seen:
            return out
        for x in f.calls():
            if x.callee in ops:
                out |= {l for l in vfields(f, x.o[0]) if isinstance(l, str) and (l in LIST or l in GH)}
            elif x.callee in T.modl and T.modl[x.callee] and any(y.callee in ops for y in P.funcs[x.callee].calls()):
                for fs in T.changed(f, x):
                    out |= {l for l in fs if isinstance(l, str)}
            elif x.callee and (x.callee.startswith("MESH_") or P.funcs.get(x.callee) is not None and P.funcs[x.callee].internal):
                out |= listops(x.callee, ops, d + 1, seen | {fn})
        return out
    for ki in range(4):
        new, dele, rest = (KP[ki] + s for s in ("_New", "_Delete", "_Restore"))
        own_l = "m" + K4[ki]
        for fn, ops, need in ((new, ADD, {own_l}), (dele, REM, {own_l, "gh" + K4[ki], "ov" + K4[ki]})):
            if fn not in P.funcs:
                R.undec("member", fn); continue
            R.ob("member", fn, 1, sample=fn)
            have = listops(fn, ops)
            f = P.funcs[fn]
            if have - {own_l, "gh" + K4[ki], "ov" + K4[ki]}:
                R.bad("member", fn + " other", "%s:%s %s" % (f.file, f.line, fn), "%s changes %s" % (fn, sorted(have)))
            for l in sorted(need - have):
                R.bad("member", "%s %s" % (fn, l), "%s:%s %s" % (f.file, f.line, fn), "%s does not %s %s" % (fn, "add to" if ops is ADD else "remove from", l))
        if rest in P.funcs and dele in P.funcs:
            R.ob("member", rest, 1, sample=rest)
            a, r = listops(rest, ADD), listops(dele, REM)
            f = P.funcs[rest]
            for l in sorted(r - a):
                R.bad("member", "%s %s" % (rest, l), "%s:%s %s" % (f.file, f.line, rest), "%s takes an entity out of %s and %s does not put it back" % (dele, l, rest))
        # on every path, for entities of a mesh
        for fn, pref in ((new, "MESH_Add_"), (dele, "MESH_Rem_"), (rest, "MESH_Add_")):
            f = P.funcs.get(fn)
            if f is None:
                continue
            ops = ADD if pref == "MESH_Add_" else REM
            cs = [x for x in f.calls() if x.callee and own_l in listops(x.callee, ops)]
            if not cs:
                continue
            R.ob("member", fn + " paths", 1)
            if passes(f, 0, {x.b for x in cs}, F) and 0 not in {x.b for x in cs}:
                R.bad("member", fn + " paths", "%s:%s %s" % (f.file, f.line, fn), "on some path %s leaves the list %s of the mesh as it is" % (fn, own_l))
            if pref == "MESH_Add_":
                for x in cs:
                    for y in cs:
                        if x is not y and (y.b in f.reachable_from(x.b, set()) and y.b != x.b or y.b == x.b and y.pos > x.pos):
                            R.bad("member", fn + " twice", where(f, y), "%s adds the entity to %s twice" % (fn, own_l))


def slots(f, v):
    """locals a value was loaded from or stored to"""
    out = set()
    w = strip(f, v)
    x = f.get(w)
    if x is not None and x.op == "load":
        out.add(strip(f, x.o[0]))
    for c in {w, canon(f, v)}:
        for u in f.uses.get(c, ()):
            if u.op == "store" and strip(f, u.o[0]) == c:
                out.add(strip(f, u.o[1]))
    return out


def counted(f, v):
    """kind of entity, or list, a number of entries belongs to"""
    v = canon(f, v)
    n = 0
    while n < 6:
        n += 1
        x = f.get(v)
        if x is not None and x.op in ("sext", "zext", "trunc"):
            v = canon(f, x.o[0])
        else:
            break
    x = f.get(v)
    if x is None:
        return None
    if x.op == "load":
        m = mfield(f, x.o[0])
        return {NUM[m]} if m in NUM else None
    if x.op == "call" and x.callee == "List_Num_Entries":
        ls = {l for l in vfields(f, x.o[0]) if isinstance(l, str)}
        return {NUMOF(l) for l in ls} if ls and all(l in KIND for l in ls) else None
    if x.op == "call" and (x.callee or "").startswith("MESH_Num_"):
        nm = {"MESH_Num_Vertices": 0, "MESH_Num_Edges": 1, "MESH_Num_Faces": 2, "MESH_Num_Regions": 3}.get(x.callee)
        return {nm} if nm is not None else None
    return None


def NUMOF(l):
    return KIND[l] if l in LIST or l in GID else l


def confirmed(f, x, r, F, fld):
    """all ways from x to the return r with x's value compare its field with a parameter"""
    e = canon(f, ("i", x.i))

    def good(b, i, cur):
        e2 = (e, canon(f, cur))
        for k, val in edge_facts(f, b, i):
            if len(k) == 3 and k[1] == "eq" and val:
                for p, q in ((k[0], k[2]), (k[2], k[0])):
                    if canon(f, p) in e2 and q[0] == "null":
                        return True
                    y = f.get(p)
                    if y is not None and y.op == "call" and F.got(y.callee or "") == {fld} and canon(f, y.o[0]) in e2 and canon(f, q)[0] == "a":
                        return True
        return False
    # follow the value to the return
    st = [(x.b, ("i", x.i))]
    seen = set()
    while st:
        b, cur = st.pop()
        if (b, cur) in seen:
            continue
        seen.add((b, cur))
        if b == r.b and strip(f, r.o[0]) == cur:
            return False
        for i, s in enumerate(f.succ[b]):
            if good(b, i, cur):
                continue
            nxt = cur
            alive = True
            moved = False
            for y in f.blocks[s]:
                if y.op != "phi":
                    break
                for o, pb in y.o:
                    if pb == b and strip(f, o) == cur:
                        nxt = ("i", y.i); moved = True
            if s == x.b:
                continue
            st.append((s, nxt))
            if moved and cur != nxt:
                st.append((s, cur))
    return True


def passes(f, start, stop, F):
    """a return can be reached from start without a block of stop, by an entity that has a mesh and is not deleted"""
    seen, st = {start}, [start]
    while st:
        b = st.pop()
        if any(x.op == "ret" for x in f.blocks[b]) and b != -1:
            return True
        for i, s in enumerate(f.succ[b]):
            ex = False
            for k, val in edge_facts(f, b, i):
                if len(k) == 3 and k[1] == "eq" and val:
                    y = f.get(k[0])
                    if k[2] == ("null",) or k[2] == ("c", 0):
                        if k[0][0] == "a" and "Mesh" in str(f.dargs[k[0][1]] if f.dargs and k[0][1] < len(f.dargs) else ""):
                            ex = True
                        if (bitfield(f, k[0]) or (0,))[0] == "mesh" or y is not None and y.op == "call" and F.got(y.callee or "") == {"mesh"}:
                            ex = True
                    if y is not None and y.op == "call" and (y.callee or "").endswith("_Dim") and k[2][0] == "c" and k[2][1] == -1:
                        ex = True
            if ex or s in stop or s in seen:
                continue
            seen.add(s); st.append(s)
    return False
