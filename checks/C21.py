"""C21: a copied entity carries the properties of the entity it is a copy of and is connected to copies; a new entity is defined and classified."""
import re
from collections import Counter
import own, summ, ir
from ir import canon, strip
from walk import walk, STOP, Undecided

RULES = {
    "pair": "a property that is handed from one entity to another is the same property on both sides, and the two are different entities",
    "same": "everything copied onto one new entity comes from one and the same original",
    "complete": "a routine that copies entities copies classification, global ID and owner of every one of them, and whatever else (partition type, coordinates, ID, being on the "
                "partition boundary) it copies for one kind it copies for every kind it applies to, on every path from the creation of the copy to the next one",
    "linked": "the record that leads from an original to its copy leads to the copy of that original",
    "ends": "the vertices, edges and faces a copy is built from are not those of the original, each in the place its own original has there, and with the original's direction",
    "defined": "a routine that creates an edge, face or region gives it its vertices, edges or faces",
    "classified": "a routine that creates an entity records the dimension and number of the model entity it is on, or has it worked out from the entity's parts",
    "arms": "no choice by the representation of a mesh has an arm that no representation reaches",
    "index": "a table that is filled by the ID of one kind of entity is read by the ID of the same kind",
}
EXPLAIN = ("For every call of M?_New the values and memory slots that name the new entity are collected; the calls M?_Set_<property> on them are paired with the M?_<property> "
           "queries that feed them, and every path from the creation to the next creation or the return is followed with the set of properties set so far.")
ASSUME = ["the original of a copy is the entity the copied properties are read from",
          "allocation does not fail"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "serial", "markers"]
MIN = {"pair": 100, "same": 12, "complete": 14, "linked": 3, "ends": 20, "defined": 25, "classified": 40, "arms": 50, "index": 8}
PROPS = "GEntDim|GEntID|ID|PType|MasterParID|GlobalID"
SET = re.compile(r"^M([VEFR]|Ent)_Set_(%s)$" % PROPS)
GET = re.compile(r"^M([VEFR]|Ent)_(%s)$" % PROPS)
NEW = re.compile(r"^M([VEFR])_(New|GhostNew)$")
DEF = {"E": ("ME_Set_Vertex",), "F": ("MF_Set_Edges", "MF_Set_Vertices"), "R": ("MR_Set_Faces", "MR_Set_Vertices")}
NAME = {"V": "vertex", "E": "edge", "F": "face", "R": "region"}
WORD = {"Vertex": "V", "Edge": "E", "Face": "F", "Region": "R"}
FETCH = ("List_Entry", "List_Next_Entry")
DIRS = re.compile(r"^M[FR]_(EdgeDir_i|FaceDir_i|EdgeDir|FaceDir)$")


def reach(f, x):
    """what a load of a local variable can read: the stores into it and the calls that were handed its address"""
    memo = f.__dict__.setdefault("_reach21", {})
    if x.i in memo:
        return memo[x.i]
    memo[x.i] = None
    a = strip(f, x.o[0])
    al = f.get(a)
    if al is None or al.op != "alloca":
        return None
    writers = {}
    for y in f.uses.get(a, ()):
        if y.op == "store":
            if strip(f, y.o[1]) != a:
                return None
            writers.setdefault(y.b, []).append(y)
        elif y.op == "call":
            if not (y.callee or "").startswith("llvm."):
                writers.setdefault(y.b, []).append(y)
        elif y.op not in ("load",):
            return None
    out, seen, work = [], set(), [(x.b, x.pos)]
    while work:
        b, pos = work.pop()
        ws = [y for y in writers.get(b, ()) if pos is None or y.pos < pos]
        if ws:
            out.append(max(ws, key=lambda y: y.pos))
            continue
        for p in f.pred[b]:
            if p not in seen:
                seen.add(p); work.append((p, None))
    memo[x.i] = out
    return out


def org(f, v, depth=0, seen=None):
    """where a value comes from, through phis, selects, casts and local variables"""
    seen = set() if seen is None else seen
    out = set()
    for o in summ.origins(f, v):
        if o in seen:
            continue
        seen.add(o)
        x = f.get(o)
        ws = reach(f, x) if x is not None and x.op == "load" and depth < 6 else None
        if ws:
            for y in ws:
                if y.op == "store":
                    out |= org(f, y.o[0], depth + 1, seen)
                else:
                    out.add(("out", y.i))
        else:
            out.add(o)
    return out


def ident(f, v):
    """one name for a value that has one origin"""
    s = org(f, v)
    if len(s) == 1:
        o = next(iter(s))
        return canon(f, o) if o[0] != "out" else o
    return canon(f, v)


def base(f, v, depth=0):
    """the object an address points into, as a set of values"""
    out = set()
    for o in summ.origins(f, v):
        x = f.get(o)
        if x is not None and x.op == "getelementptr" and depth < 12:
            out |= base(f, x.o[0], depth + 1)
        elif x is not None and x.op == "load" and depth < 12:
            out |= {("at",) + (b,) for b in base(f, x.o[0], depth + 1)}
        elif x is not None or o[0] != "c":
            out.add(o)
    return out


def single(f, v):
    s = org(f, v)
    return f.get(next(iter(s))) if len(s) == 1 and next(iter(s))[0] == "i" else None


def elem(f, addr):
    """(objects an address points into, constant element number or None)"""
    out = set()
    for o in org(f, addr):
        x = f.get(o) if o[0] == "i" else None
        k = None
        if x is not None and x.op == "getelementptr" and x.path:
            c = strip(f, x.path[-1][1]) if x.path[-1][0] == "x" else None
            k = c[1] if c is not None and c[0] == "c" and fixed(f, x.o[0]) else "?"
        elif x is None or x.op in ("alloca", "call", "load"):
            k = 0
        for b in base(f, o if o[0] != "out" else addr):
            out.add((b, k))
    return out


def fixed(f, v):
    v = strip(f, v)
    x = f.get(v)
    return v[0] == "a" or v[0] == "g" or (x is not None and x.op in ("alloca", "call", "load"))


def overlap(p, q):
    return any(a == b and (i == j or "?" in (i, j)) for a, i in p for b, j in q)


class Site:
    """one creation of an entity and what names it"""

    def __init__(s, f, x):
        s.f, s.x, s.k = f, x, NEW.match(x.callee).group(1)
        s.me = ("i", x.i)
        s.bases, s.lists, s.out = set(), set(), False
        for y in f.instrs():
            if y.op == "store" and s.me in org(f, y.o[0]):
                s.bases |= elem(f, y.o[1])
            elif y.op == "call" and y.callee in ("List_Add", "List_ChknAdd") and s.me in org(f, y.o[1]):
                s.lists.add(canon(f, y.o[0]))
            elif y.op == "ret" and y.o and s.me in org(f, y.o[0]):
                s.out = True
        s.bases = {(b, k) for b, k in s.bases if b[0] not in ("null", "undef")}

    def direct(s, v):
        return s.me in org(s.f, v)

    def refers(s, v):
        f = s.f
        for o in org(f, v):
            if o == s.me:
                return True
            y = f.get(o)
            if y is None:
                continue
            if y.op == "load" and overlap(elem(f, y.o[0]), s.bases):
                return True
            if y.op == "call" and y.callee in FETCH and canon(f, y.o[0]) in s.lists:
                return True
            if y.op == "call" and y.callee in ("MESH_Vertex", "MESH_Edge", "MESH_Face", "MESH_Region") and y.callee[5] == s.k \
                    and canon(f, y.o[0]) == canon(f, s.x.o[0]):
                return True
        return False


class Sums:
    """what a routine always does to the entities its arguments name: {(argument, property, source argument or None)}"""

    def __init__(s, P):
        s.P, s.memo = P, {}

    def of(s, n, depth=0):
        if n in s.memo:
            return s.memo[n]
        s.memo[n] = frozenset()
        f = s.P.funcs.get(n)
        if f is None or depth > 4 or "ptr" not in [f.argt(i) for i in range(len(f.args))]:
            return s.memo[n]
        rets = [r.b for r in f.rets()]
        out = set()
        for x in f.calls():
            for a, p, src in effects(s, f, x, depth + 1):
                v = canon(f, a)
                w = ident(f, src) if src is not None else None
                if v[0] == "a" and rets and all(x.b == b or x.b in f.dom[b] for b in rets):
                    out.add((v[1], p, w[1] if w is not None and w[0] == "a" else None))
        s.memo[n] = frozenset(out)
        return s.memo[n]


def effects(S, f, x, depth=0):
    """(entity, property, source entity or None) for every property that call x sets"""
    n = x.callee or ""
    m = SET.match(n)
    if m and len(x.o) > 1:
        y = single(f, x.o[1])
        g = GET.match(y.callee) if y is not None and y.op == "call" and y.callee else None
        return [(x.o[0], m.group(2), y.o[0] if g and g.group(2) == m.group(2) else None)]
    if n == "MV_Set_Coords":
        src = None
        b = base(f, x.o[1])
        for y in f.calls("MV_Coords"):
            if base(f, y.o[1]) & b and (f.dominates(y, x)):
                src = y.o[0]
        return [(x.o[0], "Coords", src)]
    if re.match(r"^M([VEFR]|Ent)_Flag_OnParBoundary$", n):
        src = None
        for k, val in own.dominating_facts(f, x.b).items():
            y = f.get(k[0]) if len(k) == 3 else None
            if y is not None and y.op == "call" and re.match(r"^M([VEFR]|Ent)_OnParBoundary$", y.callee or "") and k[1] == "eq" and k[2] == ("c", 0) and not val:
                src = y.o[0]
        return [(x.o[0], "OnParBoundary", src)]
    if re.match(r"^M[VEFR]_Set_GInfo_Auto$", n):
        return [(x.o[0], "GEntDim", None), (x.o[0], "GEntID", None)]
    g = S.P.funcs.get(n)
    if g is not None and not SET.match(n) and not NEW.match(n):
        return [(x.o[i], p, x.o[j] if j is not None else None) for i, p, j in S.of(n, depth) if i < len(x.o)]
    return []


def run(P, R):
    S = Sums(P)
    sites = []
    for n, f in sorted(P.funcs.items()):
        for x in f.calls():
            if NEW.match(x.callee or "") and not NEW.match(n) and x.o and strip(f, x.o[0]) != ("null",):
                sites.append(Site(f, x))
    byf = {}
    for s in sites:
        byf.setdefault(s.f.name, []).append(s)
    pair(P, R)
    copies = {}
    for n, ss in sorted(byf.items()):
        f = ss[0].f
        eff = [(x, e) for x in f.calls() for e in effects(S, f, x)]
        for s in ss:
            s.set = [(x, p, src) for x, (a, p, src) in eff if s.direct(a)]
            srcs = {ident(f, src) for x, p, src in s.set if src is not None}
            s.copied = {p for x, p, src in s.set if src is not None}
            if len(s.copied & {"GEntDim", "GEntID", "GlobalID", "MasterParID"}) >= 2:
                copies.setdefault(f.file, []).append(s)
                key = "%s:%s" % (n, NAME[s.k])
                R.ob("same", "%s in %s" % (NAME[s.k], n), 1)
                names = Counter(ident(f, src) for x, p, src in s.set if src is not None)
                s.orig = names.most_common(1)[0][0]
                if len(srcs) > 1:
                    odd = [(x, p) for x, p, src in s.set if src is not None and ident(f, src) != s.orig]
                    for x, p in odd:
                        R.bad("same", key + ":" + p, "%s:%s" % (f.file, x.line),
                              "%s takes %s of the new %s from another entity than the rest" % (n, p, NAME[s.k]))
            else:
                s.orig = None
            s.partial = len(s.copied) > 0
        created(P, R, f, ss, eff)
    for fn, ss in sorted(copies.items()):
        complete(P, R, S, fn, ss)
    for n, ss in sorted(byf.items()):
        cs = [s for s in ss if s.orig is not None]
        if cs:
            linked(P, R, cs[0].f, cs)
            reached(P, R, cs[0].f, cs)
            ends(P, R, cs[0].f, cs)
    index(P, R)
    arms(P, R)


def pair(P, R):
    for n, f in sorted(P.funcs.items()):
        if SET.match(n):
            continue
        for x in f.calls():
            m = SET.match(x.callee or "")
            if not m or len(x.o) < 2:
                continue
            y = single(f, x.o[1])
            g = GET.match(y.callee) if y is not None and y.op == "call" and y.callee else None
            if not g:
                continue
            R.ob("pair", "%s in %s" % (x.callee, n), 1)
            if g.group(2) != m.group(2):
                R.bad("pair", "%s:%s:%s" % (n, x.callee, y.callee), "%s:%s" % (f.file, x.line),
                      "%s sets %s of an entity to %s of another" % (n, m.group(2), g.group(2)))
            elif ident(f, x.o[0]) == ident(f, y.o[0]):
                R.bad("pair", "%s:%s:self" % (n, x.callee), "%s:%s" % (f.file, x.line),
                      "%s sets %s of an entity to the value it already has: original and copy are the same entity here" % (n, m.group(2)))


def created(P, R, f, ss, eff):
    """defined, classified"""
    n = f.name
    direct_calls = {k: [x for x in f.calls() if x.callee in v] for k, v in DEF.items()}
    for s in ss:
        key = "%s:%s" % (n, NAME[s.k])
        where = "%s:%s" % (f.file, s.x.line)
        # a routine whose business is to hand out a new, empty entity
        hands_out = s.out and not {"GEntDim", "GEntID"} & {p for _, p, _ in s.set} and not any(s.refers(x.o[0]) for x in direct_calls.get(s.k, ()))
        if hands_out:
            continue
        if s.k != "V":
            R.ob("defined", "%s in %s" % (NAME[s.k], n), 1)
            calls = [x for x in direct_calls[s.k] if s.refers(x.o[0])]
            via = [x for x in f.calls() if x.callee not in DEF[s.k] and helper_defines(P, x, s)]
            if not calls and not via:
                R.bad("defined", key, where, "%s creates a %s and never gives it its %s" %
                      (n, NAME[s.k], {"E": "vertices", "F": "edges or vertices", "R": "faces or vertices"}[s.k]))
            elif s.k == "E" and calls and not via:
                ks = set()
                for x in calls:
                    v = strip(f, x.o[1])
                    ks.add(v[1] if v[0] == "c" else "any")
                if "any" not in ks and not {0, 1} <= ks:
                    R.bad("defined", key + ":end", where, "%s gives the new edge only one of its two vertices" % n)
        if re.search(r"/(io)/", f.file) or n == "MESH_InitFromGenDesc":
            continue
        R.ob("classified", "%s in %s" % (NAME[s.k], n), 1)
        got = {p for x, (a, p, src) in eff if s.refers(a)}
        need = {"GEntID"} if s.k == "R" else {"GEntID", "GEntDim"}
        for p in sorted(need - got):
            R.bad("classified", key + ":" + p, where, "%s creates a %s and never sets its %s" % (n, NAME[s.k], p))


def helper_defines(P, x, s):
    g = P.funcs.get(x.callee or "")
    if g is None or NEW.match(x.callee) or not x.callee.startswith("M"):
        return False
    for i, a in enumerate(x.o):
        if i < len(g.args) and s.direct(a):
            for y in g.calls():
                if y.callee in DEF[s.k] and canon(g, y.o[0]) == ("a", i):
                    return True
    return False


def complete(P, R, S, fn, ss):
    """every copy gets every property its sister copies get"""
    short = fn.split("/")[-1]
    union = set()
    for s in ss:
        union |= s.copied
    for p in PROPS.split("|"):
        if sum(any(q == p for _, q, _ in s.set) for s in ss) * 2 > len(ss):
            union.add(p)
    if not union & {"GlobalID", "ID"}:
        return
    basis = {"GEntDim", "GEntID"}
    if "GlobalID" in union:
        basis |= {"MasterParID"}
    for s in ss:
        f, n = s.f, s.f.name
        need = (union | basis) - {"Coords", "OnParBoundary"}
        if s.k == "V":
            need.add("Coords")
        if s.k == "R":
            need.discard("GEntDim") if "GEntDim" not in s.copied and "GEntDim" not in union else None
        if "OnParBoundary" in union and s.k != "R":
            need.add("OnParBoundary")
        key = "%s:%s" % (n, NAME[s.k])
        where = "%s:%s" % (f.file, s.x.line)
        R.ob("complete", "%s copied in %s: %s" % (NAME[s.k], n, ", ".join(sorted(need))), 1)
        cond = {p for x, p, src in s.set} & {"OnParBoundary"}
        may = {p for x, p, src in s.set}
        miss = need - may
        for p in sorted(miss):
            R.bad("complete", key + ":" + p, where, "%s copies a %s without its %s" % (n, NAME[s.k], p))
        at = {}
        for x, p, src in s.set:
            at.setdefault(x.i, set()).add(p)
        must = frozenset(need - miss - cond)
        bad = []

        def end(st):
            if must - st:
                bad.append(must - st)
        loops = f.loops()
        inner = None
        for h, bl in loops.items():
            if s.x.b in bl and (inner is None or len(bl) < len(loops[inner])):
                inner = h

        def step(x, st):
            if x.op == "call" and x is s.x:
                end(st)
                return STOP
            if x.op == "ret":
                end(st)
                return STOP
            if x.i in at:
                return st | frozenset(at[x.i])
            return st

        def enter(b, prev, st):
            if b == inner:
                end(st)
                return STOP
            return st
        try:
            walk(f, (s.x.b, s.x.pos + 1), frozenset(), step, enter=enter, facts=False)
        except Undecided:
            R.undec("complete", "%s in %s: too many paths" % (NAME[s.k], n))
        for m in {p for b in bad for p in b}:
            R.bad("complete", key + ":" + m, where, "%s can go on to the next entity without having set %s of the copied %s" % (n, m, NAME[s.k]))


def linked(P, R, f, ss):
    noted = [s for s in ss if any(len(x.o) > 4 and s.direct(x.o[4]) for x in f.calls("MEnt_Set_AttVal"))]
    top = max(("VEFR".index(s.k) for s in ss), default=0)
    for s in ss:
        if noted and s not in noted and "VEFR".index(s.k) < top:
            R.bad("linked", "%s:%s:missing" % (f.name, NAME[s.k]), "%s:%s" % (f.file, s.x.line),
                  "%s notes the copies of other kinds of entities, but not that of the %s" % (f.name, NAME[s.k]))
    for x in f.calls("MEnt_Set_AttVal"):
        for s in ss:
            if len(x.o) > 4 and s.direct(x.o[4]) and org(f, x.o[4]) == {s.me}:
                R.ob("linked", "copy of a %s in %s" % (NAME[s.k], f.name), 1)
                if ident(f, x.o[0]) != s.orig:
                    R.bad("linked", "%s:%s" % (f.name, NAME[s.k]), "%s:%s" % (f.file, x.line),
                          "%s notes the new %s as the copy of another entity than the one it was copied from" % (f.name, NAME[s.k]))


def feeds(f, v, depth=0, seen=None):
    """calls that a value is computed from, through phis, selects, arithmetic and comparisons"""
    seen = set() if seen is None else seen
    out = []
    v = strip(f, v)
    if v in seen or depth > 10:
        return out
    seen.add(v)
    x = f.get(v)
    if x is None:
        return out
    if x.op == "call":
        return [x]
    ops = [a for a, _ in x.o] if x.op == "phi" else x.o
    if x.op in ("load", "getelementptr"):
        return out
    for a in ops:
        out += feeds(f, a, depth + 1, seen)
    return out


def idx(f, addr):
    """last index of an address"""
    x = f.get(strip(f, addr))
    if x is None or x.op != "getelementptr" or not x.path:
        return ("c", 0) if fixed(f, addr) else None
    if not fixed(f, x.o[0]):
        return None
    p = x.path[-1]
    return ir.expr(f, p[1]) if p[0] == "x" else None


def pol(f, v, depth=0):
    """+1 if an integer is the direction query it is computed from, -1 if it is its opposite, None otherwise"""
    v = strip(f, v)
    x = f.get(v)
    if x is None or depth > 8:
        return None
    if x.op == "call":
        return 1 if DIRS.match(x.callee or "") else None
    if x.op in ("zext", "sext", "trunc"):
        return pol(f, x.o[0], depth + 1)
    if x.op == "icmp":
        for a, b in ((x.o[0], x.o[1]), (x.o[1], x.o[0])):
            c = strip(f, b)
            if c[0] == "c" and x.p in ("eq", "ne"):
                p = pol(f, a, depth + 1)
                if p is None or c[1] not in (0, 1):
                    return None
                same = (c[1] == 1) == (x.p == "eq")
                return p if same else -p
        return None
    if x.op == "sub":
        c = strip(f, x.o[0])
        p = pol(f, x.o[1], depth + 1)
        return -p if c == ("c", 1) and p is not None else None
    if x.op == "xor":
        c = strip(f, x.o[1])
        p = pol(f, x.o[0], depth + 1)
        return -p if c[0] == "c" and c[1] in (1, -1, True) and p is not None else None
    if x.op == "select":
        a, b = strip(f, x.o[1]), strip(f, x.o[2])
        if a == ("c", 1) and b == ("c", 0):
            return pol(f, x.o[0], depth + 1)
        if a == ("c", 0) and b == ("c", 1):
            p = pol(f, x.o[0], depth + 1)
            return -p if p is not None else None
    return None


ADJ = re.compile(r"^M[EFR]_(Vertex|Edges|Vertices|Faces)$")


def ends(P, R, f, ss):
    n = f.name
    for s in ss:
        key = "%s:%s" % (n, NAME[s.k])
        o = s.orig
        adj = [x for x in f.calls() if ADJ.match(x.callee or "") and ident(f, x.o[0]) == o]
        lists = {("i", x.i) for x in adj if x.t == "ptr" and x.callee != "ME_Vertex"}

        def of_orig(v):
            """value is one of the original's own adjacent entities"""
            r = []
            for q in org(f, v):
                y = f.get(q)
                if y is None or y.op != "call":
                    continue
                if y.callee == "ME_Vertex" and ident(f, y.o[0]) == o:
                    r.append((y, ir.expr(f, y.o[1])))
                elif y.callee in FETCH and org(f, y.o[0]) & lists:
                    r.append((y, ir.expr(f, y.o[1]) if y.callee == "List_Entry" else None))
            return r
        if s.k == "E":
            for x in f.calls("ME_Set_Vertex"):
                if not s.direct(x.o[0]):
                    continue
                R.ob("ends", "vertex of a copied edge in %s" % n, 1)
                if of_orig(x.o[2]):
                    R.bad("ends", key + ":own", "%s:%s" % (f.file, x.line), "%s gives the new edge a vertex of the original edge" % n)
                k = ir.expr(f, x.o[1])
                for e in looked_up(f, x.o[2], x):
                    for y, j in of_orig(e):
                        if j is not None and j != k:
                            R.bad("ends", key + ":place", "%s:%s" % (f.file, x.line),
                                  "%s puts the copy of vertex %s of the original edge at end %s" % (n, ir.show(f, j), ir.show(f, k)))
        elif s.k in "FR":
            for x in f.calls():
                if x.callee not in DEF[s.k] or not s.direct(x.o[0]):
                    continue
                arr = base(f, x.o[2])
                for y in f.instrs():
                    if y.op == "store" and base(f, y.o[1]) & arr and not any(b[0] == "null" for b in arr):
                        R.ob("ends", "part of a copied %s in %s" % (NAME[s.k], n), 1)
                        if of_orig(y.o[0]):
                            R.bad("ends", key + ":own", "%s:%s" % (f.file, y.line), "%s builds the new %s from the parts of the original" % (n, NAME[s.k]))
                    if y.op == "call" and y.callee == "MEnt_Get_AttVal" and base(f, y.o[4]) & arr:
                        R.ob("ends", "part of a copied %s in %s" % (NAME[s.k], n), 1)
                        k = idx(f, y.o[4])
                        for z, j in of_orig(y.o[0]):
                            if j is not None and k is not None and j != k:
                                R.bad("ends", key + ":place", "%s:%s" % (f.file, y.line),
                                      "%s puts the copy of part %s of the original %s in place %s" % (n, ir.show(f, j), NAME[s.k], ir.show(f, k)))
                if x.callee in ("MF_Set_Edges", "MR_Set_Faces") and len(x.o) > 3:
                    dirs = base(f, x.o[3])
                    for y in f.instrs():
                        if y.op != "store" or not base(f, y.o[1]) & dirs:
                            continue
                        cs = [c for c in feeds(f, y.o[0]) if DIRS.match(c.callee or "") and ident(f, c.o[0]) == o]
                        if not cs:
                            continue
                        R.ob("ends", "direction of a part of a copied %s in %s" % (NAME[s.k], n), 1)
                        if cs[0].callee.endswith("_i"):
                            j, k = ir.expr(f, cs[0].o[1]), idx(f, y.o[1])
                            if k is not None and j != k:
                                R.bad("ends", key + ":dirplace", "%s:%s" % (f.file, y.line),
                                      "%s takes direction %s of the original %s for place %s of the copy" % (n, ir.show(f, j), NAME[s.k], ir.show(f, k)))
                        if pol(f, y.o[0]) == -1 and not compares_ends(f, y):
                            R.bad("ends", key + ":dir", "%s:%s" % (f.file, y.line), "%s gives the part of the copied %s the opposite of the original's direction" % (n, NAME[s.k]))


def compares_ends(f, y):
    """the instruction runs under a comparison of two pointers or IDs (the part was found the other way round)"""
    for k in own.dominating_facts(f, y.b):
        if len(k) == 3 and k[1] == "eq" and k[2][0] not in ("c", "null"):
            return True
    return False


def looked_up(f, v, at):
    """entities whose copy v is: v read back from a variable that MEnt_Get_AttVal filled"""
    out = []
    for q in org(f, v):
        if q[0] == "out":
            y = f.get(("i", q[1]))
            if y.callee == "MEnt_Get_AttVal":
                out.append(y.o[0])
    return out


IDK = re.compile(r"^M([VEFR])_ID$")


def index(P, R):
    """tables indexed by entity IDs"""
    for n, f in sorted(P.funcs.items()):
        use = {}
        for x in f.instrs():
            if x.op != "getelementptr" or not x.path or x.path[-1][0] != "x":
                continue
            cs = {IDK.match(c.callee).group(1) for c in feeds(f, x.path[-1][1]) if IDK.match(c.callee or "")}
            if len(cs) != 1:
                continue
            bs = [b for b in base(f, x.o[0]) if b[0] not in ("null", "undef", "c")]
            if len(bs) != 1:
                continue
            use.setdefault(bs[0], []).append((next(iter(cs)), x))
        for b, us in use.items():
            if len(us) < 2:
                continue
            c = Counter(k for k, _ in us)
            R.ob("index", "table of %s in %s" % (NAME[c.most_common(1)[0][0]], n), len(us))
            wr = {k for k, x in us if any(y.op == "store" and strip(f, y.o[1]) == ("i", x.i) for y in f.uses.get(("i", x.i), ()))}
            if len(c) > 1 and wr:
                main = c.most_common(1)[0][0]
                for k, x in us:
                    if k not in wr:
                        R.bad("index", "%s:%s:%s" % (n, NAME[main], NAME[k]), "%s:%s" % (f.file, x.line),
                              "%s reads by the ID of a %s a table that is kept by the ID of a %s" % (n, NAME[k], NAME[main]))


REPS = frozenset(range(6))              # F1, F4, R1, R2, R4, unknown
CMP = {"eq": lambda a, c: a == c, "slt": lambda a, c: a < c, "ult": lambda a, c: a < c, "sgt": lambda a, c: a > c, "ugt": lambda a, c: a > c,
       "sle": lambda a, c: a <= c, "ule": lambda a, c: a <= c, "sge": lambda a, c: a >= c, "uge": lambda a, c: a >= c}


def rep_of(f, v):
    """the mesh whose representation a value is"""
    x = f.get(v)
    if x is not None and x.op == "call" and x.callee == "MESH_RepType":
        return canon(f, x.o[0])
    if x is not None and x.op == "load" and "reptype" in str(x.path):
        return ("field",)
    return None


def rep_tests(f):
    """{mesh: {block: branch on its representation}}"""
    tests = {}
    for x in f.instrs():
        if x.op == "br" and x.o and len(set(x.succ)) == 2:
            k, _ = ir.cond_key(f, x.o[0])
            if len(k) == 3 and k[2][0] == "c" and k[1] in CMP and rep_of(f, k[0]) is not None:
                tests.setdefault(rep_of(f, k[0]), {})[x.b] = x
        elif x.op == "switch" and rep_of(f, canon(f, x.o[0])) is not None:
            tests.setdefault(rep_of(f, canon(f, x.o[0])), {})[x.b] = x
    return tests


def rep_states(f, ts):
    """representations possible at each block, given the branches ts"""
    def outs(b, cur):
        t = ts.get(b)
        if t is None:
            return [(s, cur) for s in f.succ[b]]
        if t.op == "switch":
            return [(s, cur & {c}) for c, s in t.cases] + [(t.default, cur - {c for c, _ in t.cases})]
        k, pol = ir.cond_key(f, t.o[0])
        yes = frozenset(a for a in cur if CMP[k[1]](a, k[2][1]))
        return [(t.succ[0], yes if pol else cur - yes), (t.succ[1], cur - yes if pol else yes)]
    st, work = {0: REPS}, [0]
    while work:
        b = work.pop()
        for s, new in outs(b, st[b]):
            j = st.get(s, frozenset()) | new
            if new and j != st.get(s):
                st[s] = j
                work.append(s)
    return st, outs


def arms(P, R):
    for n, f in sorted(P.funcs.items()):
        for m, ts in rep_tests(f).items():
            st, outs = rep_states(f, ts)
            for b, t in sorted(ts.items()):
                R.ob("arms", "choice in %s" % n, 1)
                if b not in st or t.op == "switch":
                    continue
                for s, new in outs(b, st[b]):
                    if not new:
                        R.bad("arms", n, "%s:%s" % (f.file, t.line), "no representation takes one arm of this choice in %s (line %s)" % (n, f.blocks[s][0].line))


NAMES = ["F1", "F4", "R1", "R2", "R4", "unknown"]


def kind_of(f, v):
    """kind of an entity, from the query it comes from"""
    ks = set()
    for o in org(f, v):
        y = f.get(o) if o[0] == "i" else None
        if y is None or y.op != "call":
            return None
        if y.callee in FETCH:
            for l in org(f, y.o[0]):
                z = f.get(l) if l[0] == "i" else None
                m = re.match(r"^M[VEFR]_(Vertices|Edges|Faces|Regions)$", z.callee or "") if z is not None and z.op == "call" else None
                ks.add({"Ve": "V", "Ed": "E", "Fa": "F", "Re": "R"}[m.group(1)[:2]] if m else None)
        elif y.callee == "ME_Vertex":
            ks.add("V")
        else:
            ks.add(None)
    return ks.pop() if len(ks) == 1 else None


def reached(P, R, f, ss):
    """the copy of a part is looked up only in the representations in which parts of that kind were copied"""
    done = {}
    for m, ts in rep_tests(f).items():
        st, _ = rep_states(f, ts)
        for s in ss:
            for x in f.calls("MEnt_Set_AttVal"):
                if len(x.o) > 4 and s.direct(x.o[4]):
                    done.setdefault((m, ident(f, x.o[1]), s.k), set()).update(st.get(x.b, ()))
        for x in f.calls("MEnt_Get_AttVal"):
            k = kind_of(f, x.o[0])
            have = done.get((m, ident(f, x.o[1]), k))
            if k is None or have is None or not any(base(f, x.o[4]) & base(f, y.o[2]) for s in ss for y in f.calls() if y.callee in DEF.get(s.k, ())
                                                   and s.direct(y.o[0]) and s.k != "E"):
                continue
            R.ob("linked", "copies of the %s looked up in %s" % (NAME[k], f.name), 1)
            miss = set(st.get(x.b, ())) - have - {5}
            if miss:
                R.bad("linked", "%s:%s:rep" % (f.name, NAME[k]), "%s:%s" % (f.file, x.line),
                      "%s looks up copies of the %s for representation %s, in which none were made" % (f.name, NAME[k] + "s", ", ".join(NAMES[i] for i in sorted(miss))))
