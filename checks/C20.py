"""C20: an entity, set or attribute that is deleted is gone from the mesh, is reported if it was to be, and is not used again."""
import re
import core, own, summ, ir
from ir import canon, strip
from walk import walk, STOP, Undecided

RULES = {
    "euler": "a split, join or swap without a loop changes the numbers of vertices, edges, faces and regions so that V - E + F - R stays the same, on every path on which it reports success",
    "dead": "after an entity, set, attribute or mesh was deleted for good, its handle is neither read through, handed to a routine that reads through it or keeps it, "
            "stored nor returned on any path",
    "register": "a routine that creates a set or attribute of a mesh enters it in the mesh, and one that deletes a vertex, edge, face, region, set or attribute takes it out, on every path",
    "retire": "a merge, join, split, swap or collapse that changed the mesh and reports success has deleted the entity it replaces",
    "replace": "a merge of two entities goes through the sets of the mesh and puts the kept entity in the place of the deleted one, or takes the deleted one out where the kept one already is",
    "report": "an operation that returns the list of the entities it deleted enters every entity it deletes into that list, and deletes every entity it enters",
}
EXPLAIN = ("Summaries of which routines delete which argument, for good or keeping the object, are computed bottom-up from the calls of free and the conditions on the keep flag; every "
           "path behind each deletion is then followed with the SSA values and array elements that still name the object.")
ASSUME = ["two handles obtained from different list accesses are different objects",
          "mesh modification works on explicit edges and faces: the deletion performed by the implementations for representations F1 and F4 is the one that counts",
          "allocation does not fail"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "serial"]
MIN = {"dead": 60, "register": 8, "retire": 12, "euler": 3, "replace": 3, "report": 9}
ENT = "VEFR"
NAME = {"V": "Vertex", "E": "Edge", "F": "Face", "R": "Region"}
DEL = ["M%s_Delete" % c for c in ENT] + ["MEnt_Delete", "MSet_Delete", "MAttrib_Delete", "MESH_Delete"]
RED = ("_R1", "_R2", "_R1R2", "_RN", "_R4", "_R3R4", "_FNR3R4")


class Sums:
    """what a routine does with the object an argument names"""

    def __init__(s, P):
        s.P, s._del, s._use = P, {}, {}

    def targets(s, x):
        ts = s.P.targets(x)
        full = [t for t in ts if t and not re.search(r"_(R\d|R\dR\d|RN)$", t)]
        return full or [t for t in ts if t]

    # --- deletion: {arg: set of ("always",) / ("zero", j) / ("nonzero", j) ; kind "free" or "mark"}
    def deletes(s, n):
        if n in s._del:
            return s._del[n]
        f = s.P.funcs.get(n)
        if f is None:
            return {}
        s._del[n] = {}
        r = {}
        for x in f.calls():
            for t in s.targets(x) or [x.callee]:
                if t == n or not t:
                    continue
                for ai, effs in ({0: {("free", None)}} if t == "free" and n in DEL else s.deletes(t)).items():
                    if ai >= len(x.o):
                        continue
                    a = val(f, x.o[ai])
                    if a[0] != "a":
                        continue
                    for kind, c in effs:
                        c2 = s.cond(f, x, c)
                        if c2 == "no":
                            continue
                        if c2 is None:
                            c2 = s.local(f, x)
                        r.setdefault(a[1], set()).add((kind, c2))
            if x.callee == "MEnt_Set_DelFlag" and n in DEL:
                a = val(f, x.o[0])
                if a[0] == "a":
                    r.setdefault(a[1], set()).add(("mark", None))
        s._del[n] = r
        return r

    @staticmethod
    def cond(f, x, c):
        if c is None:
            return None
        j, zero = c
        v = strip(f, x.o[j]) if j < len(x.o) else None
        if v is None:
            return None
        if v[0] == "c":
            return None if (v[1] == 0) == zero else "no"
        if v[0] == "a":
            return (v[1], zero)
        return None

    @staticmethod
    def local(f, x):
        for k, val in own.dominating_facts(f, x.b).items():
            if len(k) == 3 and k[0][0] == "a" and k[1] == "eq" and k[2] == ("c", 0) and f.argt(k[0][1]) != "ptr":
                return (k[0][1], bool(val))
        return None

    def at(s, f, x, final):
        """argument positions whose object call x deletes (final: for good; else: marks it deleted, kept or not)"""
        out = set()
        for t in s.targets(x):
            for ai, effs in s.deletes(t).items():
                for kind, c in effs:
                    if s.cond(f, x, c) != "no" and (kind == "free" if final else True):
                        out.add(ai)
        return {a for a in out if a < len(x.o)}

    # --- use: "read" / "keep" / None
    def use(s, n, i):
        k = (n, i)
        if k in s._use:
            return s._use[k]
        s._use[k] = None
        f = s.P.funcs.get(n)
        if f is None:
            return "read" if n in ("free", "memcpy", "memset", "realloc", "strcpy", "strlen", "strcmp") else None
        r = s.flow(f, ("a", i))
        s._use[k] = r
        return r

    def flow(s, f, v0):
        work, seen, r = [v0], {v0}, None
        while work:
            v = work.pop()
            for x in f.uses.get(v, ()):
                u = None
                if x.op in ir.CAST or x.op in ("phi", "select"):
                    y = ("i", x.i)
                    if y not in seen:
                        seen.add(y); work.append(y)
                elif x.op == "getelementptr":
                    if strip(f, x.o[0]) == strip(f, v):
                        u = "read"
                elif x.op == "load":
                    u = "read"
                elif x.op == "store" and x.o[0] == v and f.get(strip(f, x.o[1])) is not None and f.get(strip(f, x.o[1])).op == "alloca":
                    a = strip(f, x.o[1])
                    for y in f.uses.get(a, ()):
                        if y.op == "load" and val(f, ("i", y.i)) == strip(f, v) and ("i", y.i) not in seen:
                            seen.add(("i", y.i)); work.append(("i", y.i))
                elif x.op == "store":
                    u = "keep" if (x.o[0] == v and not s.local_slot(f, x.o[1])) else ("read" if x.o[1] == v else None)
                elif x.op == "ret":
                    u = None        # the caller decides
                elif x.op == "call":
                    for ai, a in enumerate(x.o):
                        if a == v:
                            for t in s.P.targets(x) or [x.callee]:
                                q = s.use(t, ai) if t else None
                                if q and u != "read":
                                    u = q
                if u == "read":
                    return "read"
                r = r or u
        return r

    def use2(s, n, i):
        """are elements of the array passed as argument i read through?"""
        k = (n, i, 2)
        if k in s._use:
            return s._use[k]
        s._use[k] = False
        f = s.P.funcs.get(n)
        r = False
        if f is not None:
            for x in f.instrs():
                if x.op == "load" and root(f, x.o[0]) == ("a", i) and x.t == "ptr" and s.flow(f, ("i", x.i)) == "read":
                    r = True
                elif x.op == "call":
                    for ai, a in enumerate(x.o):
                        if root(f, a) == ("a", i) and any(t and s.use2(t, ai) for t in s.P.targets(x)):
                            r = True
        s._use[k] = r
        return r

    @staticmethod
    def local_slot(f, a):
        e = root(f, a)
        x = f.get(e)
        return x is not None and x.op == "alloca"


def val(f, v):
    """the value v stands for, through casts and through a local that is given a value only once (and may have its address passed)"""
    v = strip(f, v)
    x = f.get(v)
    if x is not None and x.op == "load":
        a = f.get(strip(f, x.o[0]))
        if a is not None and a.op == "alloca":
            st = [y for y in f.uses.get(("i", a.i), ()) if y.op == "store" and strip(f, y.o[1]) == ("i", a.i)]
            if len(st) == 1 and not any(y.op == "getelementptr" for y in f.uses.get(("i", a.i), ())):
                return strip(f, st[0].o[0])
    return v


def root(f, a):
    a = strip(f, a)
    for _ in range(12):
        x = f.get(a)
        if x is not None and x.op == "getelementptr":
            a = strip(f, x.o[0])
        else:
            break
    return a


def run(P, R):
    S = Sums(P)
    ownfiles = {}                     # the routines that implement deletion: their own handling of the object is C15's
    for d in DEL:
        f = P.funcs.get(d)
        if f is not None:
            ownfiles[d] = f.file
    sites = []
    for n, f in sorted(P.funcs.items()):
        for x in f.calls():
            for ai in sorted(S.at(f, x, True)):
                if x.o[ai][0] in ("i", "a"):
                    sites.append((n, x.i, ai))

    def one(it):
        n, i, ai = it
        f = P.funcs[n]; x = f.ins[i]
        v0 = val(f, x.o[ai])
        init = {v0}
        y = f.get(strip(f, x.o[ai]))
        if y is not None and y.op == "load" and Sums.local_slot(f, y.o[0]):
            init.add(("m", ir.expr(f, y.o[0]), root(f, y.o[0])))
        hits = []

        def hit(z, how):
            hits.append((z.i, how))

        def step(z, st):
            me = ("i", z.i)
            if z.op in ("load",):
                a = root(f, z.o[0])
                if a in st:
                    hit(z, "reads through it")
                    return STOP
                if any(m[0] == "m" and m[1] == ir.expr(f, z.o[0]) for m in st):
                    return st | {me}
            elif z.op == "store":
                if root(f, z.o[1]) in st:
                    hit(z, "writes through it")
                    return STOP
                if val(f, z.o[0]) in st and not Sums.local_slot(f, z.o[1]):
                    hit(z, "stores it")
                    return STOP
                a = root(f, z.o[1])
                kill = {m for m in st if m[0] == "m" and m[2] == a}
                if kill:
                    st = st - kill
            elif z.op == "ret":
                if z.o and val(f, z.o[0]) in st:
                    hit(z, "returns it")
                    return STOP
            elif z.op == "call":
                for bi, a in enumerate(z.o):
                    if a[0] == "i" and any(m[0] == "m" and m[2] == root(f, a) and (m[1] == ir.expr(f, a) or root(f, a) == strip(f, a)) for m in st):
                        for t in P.targets(z) or [z.callee]:
                            if t and S.use2(t, bi):
                                hit(z, "hands it in an array to %s, which reads through it" % t)
                                return STOP
                    if val(f, a) in st or root(f, a) in st:
                        for t in P.targets(z) or [z.callee]:
                            u = S.use(t, bi) if t else None
                            if u:
                                hit(z, "hands it to %s, which %s" % (t, "reads through it" if u == "read" else "keeps it"))
                                return STOP
            if me in st:
                st = st - {me}
            return st

        def enter(b, prev, st):
            add, rem = set(), set()
            for z in f.blocks[b]:
                if z.op != "phi":
                    break
                me = ("i", z.i)
                vals = [v for v, p in z.o if p == prev]
                if vals and val(f, vals[0]) in st:
                    add.add(me)
                elif me in st:
                    rem.add(me)
            return (st - rem) | add if add or rem else st
        try:
            walk(f, (x.b, x.pos + 1), frozenset(init), step, enter=enter)
        except Undecided:
            return None
        return hits
    for (n, i, ai), res in zip(sites, core.parallel(sites, one)):
        f = P.funcs[n]; x = f.ins[i]
        R.ob("dead", f.file, sample="%s: object deleted by %s at line %d" % (n, x.callee or P.table_of(x), x.line))
        if res is None:
            R.undec("dead", "%s line %d" % (n, x.line))
            continue
        for zi, how in sorted(set(res)):
            z = f.ins[zi]
            R.bad("dead", "%s:%s:%s" % (n, x.callee or P.table_of(x), how), z.loc, "%s deletes %s at line %d and then %s" % (n, ir.show(f, ir.expr(f, x.o[ai])), x.line, how))

    registers(P, R, S)
    retires(P, R, S)
    replaces(P, R, S)
    reports(P, R, S)


NULLS = (("null",), ("c", 0))


def isnull(v):
    return v == ("c", 0) or v[0] == "null"


def retvals(f):
    """phis the returned value comes through"""
    out = set()
    work = [strip(f, r.o[0]) for r in f.rets() if r.o]
    while work:
        v = work.pop()
        x = f.get(v)
        if v not in out and x is not None and x.op == "phi":
            out.add(v)
            work += [strip(f, a) for a, _ in x.o]
    return out


def paths(f, start, state, step, edge=None):
    """walk with the null-ness of the returned value on the path; yields through step(ret) with st containing ("ret", null?)"""
    rv = retvals(f)

    def enter(b, prev, st):
        for z in f.blocks[b]:
            if z.op != "phi":
                break
            if ("i", z.i) in rv:
                vals = [v for v, p in z.o if p == prev]
                if vals:
                    v = strip(f, vals[0])
                    if f.get(v) is not None and ("i", f.get(v).i) in rv and f.get(v).b == b:
                        continue
                    st = frozenset(m for m in st if not (isinstance(m, tuple) and m[0] == "ret" and m[1] == z.i))
                    src = f.get(v)
                    if isnull(v) or (src is not None and ("ret", src.i, True) in st):
                        st = st | {("ret", z.i, True)}
        return st

    def st2(x, st):
        return step(x, st)
    walk(f, start, state, st2, edge=edge, enter=enter)


def fails(f, r, st):
    """the return r reports failure on this path"""
    if not r.o:
        return False
    v = strip(f, r.o[0])
    x = f.get(v)
    return isnull(v) or (x is not None and ("ret", x.i, True) in st)


def registers(P, R, S):
    # creation and deletion of sets and attributes; deletion of entities
    jobs = []
    for k in ("MSet", "Attrib"):
        new = {"MSet": "MSet_New", "Attrib": "MAttrib_New"}[k]
        jobs.append((new, "add", {"MESH_Add_" + k}, None))
        jobs.append((new.replace("New", "Delete"), "rem", {"MESH_Rem_" + k}, None))
    for c in ENT:
        jobs.append(("M%s_New" % c, "add", {"MESH_Add_%s%s" % (g, NAME[c]) for g in ("", "Ghost")}, None))
        jobs.append(("M%s_Delete" % c, "rem", {"MESH_Rem_%s%s" % (g, NAME[c]) for g in ("", "Ghost")}, None))
        if P.funcs.get("M%s_GhostNew" % c):
            jobs.append(("M%s_GhostNew" % c, "add", {"MESH_Add_%s%s" % (g, NAME[c]) for g in ("", "Ghost")}, None))
    for n, how, regs, _ in jobs:
        f = P.funcs.get(n)
        if f is None:
            continue
        objs = [("a", 0)] if how == "rem" else [("i", x.i) for x in f.calls() if x.callee in ("malloc", "calloc", "MSTK_malloc") and any(
            strip(f, v) == ("i", x.i) or ("i", x.i) in summ.origins(f, v) for r in f.rets() if r.o for v in r.o)]
        if how == "rem":
            starts = [(0, 0)]
        else:
            starts = [(f.get(o).b, f.get(o).pos + 1) for o in objs]
        for o, stt in zip(objs, starts):
            R.ob("register", f.file, sample="%s: %s" % (n, "/".join(sorted(regs))))
            bad = []

            def own_(v):
                v = val(f, v)
                return v == o or o in summ.origins(f, v)

            def step(x, st):
                if x.op == "call" and x.callee in regs and len(x.o) > 1 and own_(x.o[1]):
                    return st | {"done"}
                if x.op == "call" and x.callee == "free" and own_(x.o[0]):
                    if "done" not in st and how == "rem":
                        bad.append((x.loc, "frees it")); return STOP
                if x.op == "ret":
                    if "done" not in st and not fails(f, x, st) and (how == "rem" or own_(x.o[0])):
                        bad.append((x.loc, "returns"))
                    return STOP
                return st

            def edge(k, v, st):
                if len(k) == 3 and k[1] == "eq" and v:
                    x = f.get(k[0])
                    if x is not None and x.op == "call" and x.callee in ("MEnt_Dim", "MEnt_OrigDim") and k[2] == ("c", -1):
                        return st | {"done"}
                    if isnull(k[2]) and k[0] == ("a", 0) and how == "add":
                        return st | {"done"}
                    if isnull(k[2]) and x is not None and (x.op == "call" and x.callee == "MEnt_Mesh" or x.op == "load"):
                        return st | {"done"}      # an object of no mesh
                return st
            try:
                paths(f, stt, frozenset(), step, edge)
            except Undecided:
                R.undec("register", n)
                continue
            for loc, w in sorted(set(bad)):
                R.bad("register", "%s:%s" % (n, w), loc, "%s %s on a path on which %s was not called for the object" % (n, w, " or ".join(sorted(regs))))


# which argument each operation replaces (and so deletes)
RETIRE = [(r"MVs_Merge(_.*)?$", (1,)), (r"MEs_Merge(_.*)?$", (1,)), (r"MFs_Merge(_.*)?$", (1,)), (r"MFs_Join$", (0, 1, 2)), (r"MRs_Join$", (1,)), (r"ME_Collapse$", (0,)),
          (r"ME_Split$", (0,)), (r"ME_MultiSplit$", (0,)), (r"ME_Split_SimplexMesh$", (0,)), (r"ME_Swap2D$", (0,)), (r"MF_Split$", (0,)), (r"MF_Split_SimplexMesh$", (0,)),
          (r"MF_Split_with_Edge$", (0,)), (r"MR_Split_with_EdgeLoop$", (0,))]
NEWS = {"M%s_New" % c: c for c in ENT}


def retires(P, R, S):
    for n, f in sorted(P.funcs.items()):
        if f.internal and not re.search(r"_(F\d|R\d|FN|RN|R\dR\d)$", n):
            continue
        want = next((a for p, a in RETIRE if re.match(p, n)), None)
        if want is None:
            continue
        for a in want:
            R.ob("retire", f.file, sample="%s: argument %d is deleted" % (n, a + 1))
        bad = []

        def step(x, st):
            if x.op == "call":
                if any(re.match(r"M([VEFR]|Ent|Set)s?_(New|Set_|Replace|Delete|Rem|Add|Merge|Join|Split|MultiSplit|Collapse|Swap)", t or "") for t in P.targets(x) or [x.callee]):
                    st = st | {"mut"}
                for ai in S.at(f, x, False):
                    v = val(f, x.o[ai])
                    if v[0] == "a":
                        st = st | {("del", v[1])}
            if x.op == "ret":
                if not fails(f, x, st) and "mut" in st:
                    for a in want:
                        if ("del", a) not in st:
                            bad.append((x.loc, a))
                return STOP
            return st

        def edge(k, v, st):
            if len(k) == 3 and k[1] == "eq" and v and isnull(k[2]):
                x = f.get(k[0])
                if x is not None and ("i", x.i) in {strip(f, r.o[0]) for r in f.rets() if r.o}:
                    return st | {("ret", x.i, True)}
            return st
        try:
            paths(f, (0, 0), frozenset(), step, edge)
        except Undecided:
            R.undec("retire", n)
            continue
        for loc, a in sorted(set(bad)):
            R.bad("retire", "%s:%d" % (n, a), loc, "%s reports success on a path on which argument %d was not deleted" % (n, a + 1))
        if re.match(r"(MFs_Join|MRs_Join|ME_Swap2D|MF_Split_with_Edge|MR_Split_with_EdgeLoop)$", n):
            euler(P, R, S, n, f)


def kind_of(x):
    t = x.callee or ""
    m = re.match(r"M([VEFR])_(New|Delete)$", t)
    return (m.group(1), 1 if m.group(2) == "New" else -1) if m else None


def euler(P, R, S, n, f):
    R.ob("euler", f.file, sample="%s" % n)
    inloop = set()
    for h, bl in f.loops().items():
        inloop |= bl
    if any(kind_of(x) and x.b in inloop for x in f.calls()):
        R.undec("euler", n)
        return
    bad = []

    def step(x, st):
        k = kind_of(x) if x.op == "call" else None
        if k:
            c = dict(m[1] for m in st if m[0] == "cnt")
            c[k[0]] = c.get(k[0], 0) + k[1]
            st = frozenset(m for m in st if m[0] != "cnt") | {("cnt", q) for q in c.items()}
        if x.op == "ret":
            c = dict(m[1] for m in st if m[0] == "cnt")
            if not fails(f, x, st):
                e = c.get("V", 0) - c.get("E", 0) + c.get("F", 0) - c.get("R", 0)
                if e:
                    bad.append((x.loc, tuple(sorted(c.items()))))
            return STOP
        return st
    try:
        paths(f, (0, 0), frozenset(), step)
    except Undecided:
        R.undec("euler", n)
        return
    for loc, c in sorted(set(bad)):
        R.bad("euler", "%s:%s" % (n, c), loc, "%s succeeds with these changes in the numbers of entities: %s" % (n, ", ".join("%s %+d" % q for q in c)))


def replaces(P, R, S):
    for n, f in sorted(P.funcs.items()):
        if not re.match(r"M[VEF]s_Merge_(FN|F\d|R3R4|R1R2|R4)$", n) or n == "MFs_Merge_R1R2":
            continue
        kept, gone = ("a", 0), ("a", 1)
        R.ob("replace", f.file, sample="%s goes through the sets" % n)
        its = [x for x in f.calls("MESH_Next_MSet")] + [x for x in f.calls("MESH_MSet")]
        dels = [x for x in f.calls() if any(val(f, x.o[a]) == gone for a in S.at(f, x, False))]
        nums = {("i", x.i) for x in f.calls("MESH_Num_MSets")}
        if not its:
            R.bad("replace", "%s:none" % n, "%s:%d" % (f.file, f.line), "%s deletes an entity and does not go through the sets of the mesh" % n)
            continue
        bad = []

        def step(x, st):
            if x.op == "call" and x.callee in ("MESH_Next_MSet", "MESH_MSet"):
                if "in" in st:
                    bad.append((x.loc, "a set that contains the deleted entity is left as it is")); return STOP
                return frozenset({"seen"})
            if x.op == "call" and x.callee == "MSet_Rem" and val(f, x.o[1]) == gone and "in" in st:
                if "kin" not in st and "knot" in st:
                    bad.append((x.loc, "the deleted entity is taken out of a set that does not contain the kept one")); return STOP
                if "kin" not in st:
                    st = st | {"needadd"}
                return st - {"in"}
            if x.op == "call" and x.callee in ("MSet_Add", "MSet_ChknAdd") and val(f, x.o[1]) == kept:
                return st - {"needadd"}
            if x.op == "call" and x.callee == "MSet_Replace" and val(f, x.o[1]) == gone:
                if val(f, x.o[2]) != kept:
                    bad.append((x.loc, "the deleted entity is replaced by something other than the kept one")); return STOP
                if "kin" in st:
                    bad.append((x.loc, "the kept entity is put a second time into a set that contains it")); return STOP
                return st - {"in"}
            if x in dels:
                if "seen" not in st:
                    bad.append((x.loc, "the entity is deleted on a path that did not go through the sets"))
                elif "in" in st:
                    bad.append((x.loc, "a set that contains the deleted entity is left as it is"))
                return STOP
            return st

        def edge(k, v, st):
            x = f.get(k[0]) if k and len(k) == 3 else None
            if x is None or k[1] != "eq" or not isnull(k[2]):
                if x is not None and ("i", x.i) in nums and k[1] == "sgt" and k[2] == ("c", 0) and not v:
                    return st | {"seen"}
                return st
            if ("i", x.i) in nums and v:
                return st | {"seen"}
            if x.op == "call" and x.callee in ("MSet_Contains", "MSet_Locate"):
                w = val(f, x.o[1])
                if w == gone:
                    return (st | {"in"}) if not v else st - {"in"}
                if w == kept:
                    return st | ({"knot"} if v else {"kin"})
            return st
        try:
            paths(f, (0, 0), frozenset(), step, edge)
        except Undecided:
            R.undec("replace", n)
            continue
        if not any(x.callee == "MSet_Replace" for x in f.calls()) and not any(x.callee in ("MSet_Add", "MSet_ChknAdd") for x in f.calls()):
            bad.append(("%s:%d" % (f.file, f.line), "the kept entity is not put into the sets of the deleted one"))
        for loc, w in sorted(set(bad)):
            R.bad("replace", "%s:%s" % (n, w), loc, "%s: %s" % (n, w))


def reports(P, R, S):
    for n, f in sorted(P.funcs.items()):
        if "/mod/" not in f.file or f.internal:
            continue

        def out(x):
            """the out-parameter whose list call x adds to"""
            if x.op == "call" and x.callee in ("List_Add", "List_ChknAdd"):
                y = f.get(strip(f, x.o[0]))
                if y is not None and y.op == "load" and strip(f, y.o[0])[0] == "a":
                    return strip(f, y.o[0])[1]
            return None
        adds = [(x, out(x), val(f, x.o[1])) for x in f.calls() if out(x) is not None]
        if not adds:
            continue
        dels = [(x, val(f, x.o[a])) for x in f.calls() for a in sorted(S.at(f, x, False))]
        score = {}
        for _, o, v in adds:
            score.setdefault(o, [0, 0])
            score[o][0 if any(v == w for _, w in dels) else 1] += 1
        for o, (hit, miss) in score.items():
            if hit <= miss:
                continue              # not the list of deleted entities
            A = [(x, v) for x, p, v in adds if p == o]
            for what, xs, ys in (("deletes", dels, A), ("enters", A, dels)):
                for x, v in xs:
                    R.ob("report", f.file, sample="%s line %d" % (n, x.line))
                    if any(w == v and f.dominates(y, x) for y, w in ys):
                        continue
                    bad = []

                    def step(z, st):
                        if any(z is y and w == v for y, w in ys):
                            return STOP
                        if z.op == "ret" or v == ("i", z.i):
                            bad.append(z.loc)
                            return STOP
                        return st

                    def enter(b, prev, st):
                        if any(z.op == "phi" and ("i", z.i) == v for z in f.blocks[b]):
                            bad.append(f.blocks[b][-1].loc)
                            return STOP
                        return st
                    try:
                        walk(f, (x.b, x.pos + 1), frozenset(), step, enter=enter)
                    except Undecided:
                        R.undec("report", n)
                        continue
                    if bad:
                        R.bad("report", "%s:%s:%s" % (n, what, ir.show(f, ir.expr(f, v))), x.loc, "%s %s %s%s" % (
                            n, what, ir.show(f, ir.expr(f, v)), " without entering it into the list of deleted entities" if what == "deletes"
                            else " into the list of deleted entities without deleting it"))
