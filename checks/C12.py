"""What is stored in an entity, mesh or attribute comes back unchanged, and storing one thing changes no other."""
import re
import ir
from ir import strip, canon
from bits import Bits, State, Ptr, known, signed, const
RULES = {
    "roundtrip": "after a set operation the matching query returns the value set, for every value that fits the field, and the field is wide enough for the values it must hold",
    "preserve": "a set operation changes the result of no other query on the same object",
    "flag": "a flag operation makes the matching query give its answer and changes no other query",
    "kind": "the operation named for one kind of entity and the one for any entity work on the same stored bits",
    "layout": "the fields particular to a kind of entity lie behind the header that all kinds share, in every build configuration",
    "initial": "a new entity is alive, permanent, interior, unmarked and has no ID, global ID or attributes",
    "attribute": "an attribute instance returns the value set for each attribute type, and the typed set and get operations pass the value in the place for that type",
    "constructor": "an attribute or set reports the type, dimension and mesh it was made with",
    "partition": "what is flagged or counted for one partition and entity type is reported for that partition and entity type and no other",
}
EXPLAIN = ("Bit-provenance dataflow over the IR (lib/bits.py): for each pair of operations the bits the second one returns are traced through memory to the bits of the argument of the first one or "
           "to bits of memory that the first one left alone.")
ASSUME = ["Objects reached through different pointers do not overlap.", "Values set lie within the range of the field (IDs below 2^26, partition numbers below 2^29)."]
CONFIGS = ["default", "serial", "markers"]
CONFIGS_THOROUGH = ["default", "serial", "markers"]
MIN = {"roundtrip": 10, "preserve": 60, "kind": 40, "flag": 150, "layout": 12, "initial": 6, "attribute": 12, "constructor": 3, "partition": 70}
KINDS = ["MV", "ME", "MF", "MR"]
FULL = {"MV": "MVertex", "ME": "MEdge", "MF": "MFace", "MR": "MRegion"}
DIMS = {"MV": 0, "ME": 1, "MF": 2, "MR": 3}
# bits a field must hold, by property name
NEED = {"ID": 26, "GEntID": 26, "GlobalID": 31, "MasterParID": 20, "GEntDim": 3, "Dim": 3, "PType": 2, "RepType": 3}
SIMPLE = ["Dim", "ID", "GEntDim", "GEntID", "PType", "GlobalID", "MasterParID", "Mesh"]
OBS = ["MEnt_Dim", "MEnt_OrigDim", "MEnt_ID", "MEnt_GEntDim", "MEnt_GEntID", "MEnt_PType", "MEnt_OnParBoundary", "MEnt_MasterParID", "MEnt_GlobalID", "MEnt_Mesh", "MEnt_RepType", "MEnt_IsVolatile"]
E = Ptr(("a", 0))
MESHPTR = Ptr(("mesh", 0))


def alive(P, B):
    """an entity that is not deleted"""
    s = State()
    off = dict((n, o) for o, n in P.structs.get("MEntity_Data", ())).get("deleted")
    if off is not None:
        s.mem[(E.root, off)] = 0
    return s


def get(P, B, s, n, args=(E,)):
    f = P.funcs.get(n)
    if f is None:
        return None
    a = B.args(f)
    for i, v in enumerate(args):
        a[i] = v
    r = B.run(f, a, s)
    return r[1] if r is not None else None


def do(P, B, s, n, args=(E,), pre="s"):
    f = P.funcs.get(n)
    if f is None:
        return None
    a = B.args(f, pre)
    for i, v in enumerate(args):
        if v is not None:
            a[i] = v
    r = B.run(f, a, s)
    return (r[0], a) if r is not None else None


def unknown(v):
    return v is None or isinstance(v, tuple) and any(b is None for b in v)


def vname(v):
    if isinstance(v, Ptr):
        return str(v)
    c = known(v)
    if c is not None:
        return str(signed(c, len(v)))
    return "some other bits"


def holds(got, want):
    """number of low bits of want that got delivers; None when got is something else"""
    if isinstance(want, Ptr) or isinstance(got, Ptr):
        return 64 if got == want else None
    if not isinstance(got, tuple):
        return None
    k = 0
    while k < len(got) and k < len(want) and got[k] == want[k]:
        k += 1
    rest = got[k:]
    if all(b == 0 for b in rest) or k and all(b == want[k - 1] for b in rest):
        return k
    return None


def where(P, n):
    f = P.funcs[n]
    return "%s:%d" % (f.file, f.line)


def run(P, R):
    B = Bits(P)
    entity(P, R, B)
    kinds(P, R, B)
    flags(P, R, B)
    layout(P, R)
    initial(P, R, B)
    meshpairs(P, R, B)
    attins(P, R, B)
    typed(P, R)
    constructors(P, R, B)
    partitions(P, R, B)


def compare(P, R, B, rule, op, s0, s1, obs, skip=()):
    for g in obs:
        if g in skip or g not in P.funcs:
            continue
        a, b = get(P, B, s0, g), get(P, B, s1, g)
        R.ob(rule, "%s,%s" % (op, g))
        if unknown(a) or unknown(b) and not touched(s1, a):
            if a != b or a is None:
                R.undec(rule, "%s,%s" % (op, g))
                continue
        if a != b:
            R.bad(rule, "%s|%s" % (op, g), where(P, op), "%s changes what %s returns" % (op, g))


def touched(s, a):
    """the object was written by an understood store (not by a call that may change anything) and its contents differ now"""
    return not s.lost and isinstance(a, tuple) and all(b in (0, 1) or b[0] == "m" and not s.hit(b[1]) for b in a)


def entity(P, R, B):
    for p in SIMPLE + ["RepType"]:
        st = "MEnt_Set_" + p if p != "RepType" else "MEnt_Set_RepType_Data"
        if st not in P.funcs:
            continue
        s0 = alive(P, B)
        r = do(P, B, s0, st)
        g = "MEnt_" + p
        R.ob("roundtrip", st)
        if r is None:
            R.undec("roundtrip", st)
            continue
        s1, a = r
        # a dimension of MDELETED deletes: set a real one
        if p == "Dim":
            v = tuple(a[1][:3]) + (0,) * (len(a[1]) - 3)
            s1, a = do(P, B, s0, st, (E, v))
        got = get(P, B, s1, g)
        k = holds(got, a[1])
        if k is None and unknown(got):
            R.undec("roundtrip", st)
        elif k is None or p in NEED and k < NEED[p]:
            R.bad("roundtrip", st, where(P, st), "%s does not return what %s stores%s" % (g, st, "" if k is None else ": only %d bits are kept" % k))
        # keep only the bits that fit, for the comparison with the other queries
        same = {o for o in OBS if get(P, B, s0, o) == get(P, B, s0, g)}   # other names for the same query
        compare(P, R, B, "preserve", st, s0, s1, OBS, skip={g} | same | ({"MEnt_OrigDim"} if p == "Dim" else set()))


def kinds(P, R, B):
    for k in KINDS:
        for p in SIMPLE:
            st, gt, ms, mg = "%s_Set_%s" % (k, p), "%s_%s" % (k, p), "MEnt_Set_" + p, "MEnt_" + p
            s0 = alive(P, B)
            if gt in P.funcs and mg in P.funcs:
                a, b = get(P, B, s0, gt), get(P, B, s0, mg)
                R.ob("kind", gt)
                if unknown(a) and unknown(b):
                    R.undec("kind", gt)
                elif a != b:
                    R.bad("kind", gt, where(P, gt), "%s and %s do not return the same" % (gt, mg))
            if st in P.funcs and ms in P.funcs:
                r, q = do(P, B, s0, st), do(P, B, s0, ms)
                R.ob("kind", st)
                if r is None or q is None:
                    R.undec("kind", st)
                    continue
                for g in OBS:
                    a, b = get(P, B, r[0], g), get(P, B, q[0], g)
                    if a != b:
                        R.bad("kind", st, where(P, st), "%s and %s do not store the same (%s)" % (st, ms, g))
                        break


def flags(P, R, B):
    T = [("MEnt_Set_Volatile", "MEnt_IsVolatile", 1, ()), ("MEnt_Rem_Volatile", "MEnt_IsVolatile", 0, ()),
         ("MEnt_Flag_OnParBoundary", "MEnt_OnParBoundary", 1, ()), ("MEnt_Unflag_OnParBoundary", "MEnt_OnParBoundary", 0, ()),
         ("MEnt_Set_DelFlag", "MEnt_Dim", -1, ()), ("MEnt_Rem_DelFlag", "MEnt_Dim", "MEnt_OrigDim", ())]
    for st, want in (("MEnt_Mark", True), ("MEnt_Unmark", False)):
        for m in (1, 7, 32):
            if st not in P.funcs or "MEnt_IsMarked" not in P.funcs:
                continue
            s0 = alive(P, B)
            r = do(P, B, s0, st, (E, const(m, 32)))
            for q in (1, 2, 7, 31, 32):
                R.ob("flag", "%s,%d,%d" % (st, m, q))
                if r is None:
                    R.undec("flag", st)
                    continue
                a, b = (get(P, B, z, "MEnt_IsMarked", (E, const(q, 32))) for z in (s0, r[0]))
                if q == m and (known(b) not in (None, 0)) != want or q == m and b is not None and known(b) is None or q != m and a != b:
                    R.bad("flag", "%s|%d" % (st, int(q == m)), where(P, st), "after %s with marker %d, MEnt_IsMarked for marker %d %s" % (st, m, q, "gives the wrong answer" if q == m else "has changed"))
            if r is not None:
                compare(P, R, B, "flag", st, s0, r[0], OBS)
    for k in KINDS:
        for n, o in (("Flag_OnParBoundary", 1), ("Unflag_OnParBoundary", 0)):
            T.append(("%s_%s" % (k, n), "%s_OnParBoundary" % k, o, ()))
    for st, g, v, skip in T:
        if st not in P.funcs or g not in P.funcs:
            continue
        s0 = State() if "DelFlag" in st else alive(P, B)
        r = do(P, B, s0, st)
        R.ob("flag", st)
        if r is None:
            R.undec("flag", st)
            continue
        got = get(P, B, r[0], g)
        want = get(P, B, r[0], v) if isinstance(v, str) else const(v, len(got) if isinstance(got, tuple) else 32)
        if got != want:
            if unknown(got):
                R.undec("flag", st)
            else:
                R.bad("flag", st, where(P, st), "after %s, %s returns %s" % (st, g, vname(got)))
        compare(P, R, B, "flag", st, s0, r[0], OBS, skip={g, "MEnt_OnParBoundary" if "OnParBoundary" in st else g, "MEnt_Dim" if "DelFlag" in st else g})


def layout(P, R):
    h = P.structs.get("MEntity_Data")
    if not h:
        R.undec("layout", "MEntity_Data")
        return
    last = max(o for o, _ in h)
    for k in KINDS:
        s = P.structs.get(FULL[k])
        R.ob("layout", FULL[k])
        if not s:
            R.undec("layout", FULL[k])
            continue
        off = {n: o for o, n in s}
        own = [n for n in off if n in ("adj", "vertex", "xyz")]
        for n in own:
            if off[n] < last + 32:
                R.bad("layout", "%s|%s" % (FULL[k], n), "include/%s.h:1" % FULL[k], "%s.%s overlaps the header common to all entities" % (FULL[k], n))
        for n in ("mesh", "AttInsList", "marker", "globalid"):
            a, b = off.get(n), {m: o for o, m in h}.get(n)
            R.ob("layout", "%s.%s" % (FULL[k], n))
            if a is not None and b is not None and a != b:
                R.bad("layout", "%s|%s" % (FULL[k], n), "include/%s.h:1" % FULL[k], "%s.%s is not where the common header has it" % (FULL[k], n))


def initial(P, R, B):
    st = "MEnt_Init_CmnData"
    if st not in P.funcs:
        R.undec("initial", st)
        return
    r = do(P, B, State(), st)
    if r is None:
        R.undec("initial", st)
        return
    want = {"MEnt_ID": 0, "MEnt_PType": 0, "MEnt_OnParBoundary": 0, "MEnt_GlobalID": 0, "MEnt_IsVolatile": 0}
    for g, v in want.items():
        if g in P.funcs:
            got = get(P, B, r[0], g)
            R.ob("initial", g)
            if known(got) != v:
                R.bad("initial", g, where(P, st), "a new entity does not start with %s = %d" % (g, v))
    off = {n: o for o, n in P.structs["MEntity_Data"]}
    for n, w in (("deleted", 1), ("marker", 32), ("AttInsList", 64)):
        if n in off:
            R.ob("initial", n)
            if any(r[0].get(E.root, off[n] + i) != 0 for i in range(w)):
                R.bad("initial", n, where(P, st), "a new entity does not start with %s clear" % n)


def meshpairs(P, R, B):
    """the other pairs of operations that store and return one value"""
    pairs = []
    for n in sorted(P.funcs):
        m = re.match(r"^(MESH|MSet|MAttrib|GEnt|Hash)_Set_?(\w+)$", n)
        if m:
            for g in ("%s_%s" % m.groups(), "%s_Get_%s" % m.groups(), "%s_Is%s" % m.groups()):
                f, h = P.funcs[n], P.funcs.get(g)
                if h is not None and len(h.dargs) < len(f.dargs) and len(h.dargs) == len(f.dargs) - 1:
                    pairs.append((n, g, len(h.dargs)))
    for st, g, k in pairs:
        r = do(P, B, State(), st, (E,) + tuple(None for _ in range(k - 1)))
        if r is None or k != 1:
            continue
        R.ob("roundtrip", st)
        got = get(P, B, r[0], g)
        h = holds(got, r[1][1])
        if h is None and unknown(got) or got is None:
            R.undec("roundtrip", st)
        elif h is None:
            R.bad("roundtrip", st, where(P, st), "%s does not return what %s stores" % (g, st))
    # coordinates
    st, g = "MV_Set_Coords", "MV_Coords"
    if st in P.funcs and g in P.funcs:
        src, dst = Ptr(("in", 0)), Ptr(("out", 0))
        r = do(P, B, State(), st, (E, src))
        R.ob("roundtrip", st)
        if r is not None:
            f = P.funcs[g]
            o = B.run(f, [E, dst], r[0])
            if o is None:
                R.undec("roundtrip", st)
            else:
                for i in range(3):
                    if any(o[0].get(dst.root, 64 * i + j) != ("m", src.root, 64 * i + j) for j in range(64)):
                        R.bad("roundtrip", "%s|%d" % (st, i), where(P, st), "MV_Coords does not return coordinate %d that MV_Set_Coords stores" % i)
            compare(P, R, B, "preserve", st, alive(P, B), do(P, B, alive(P, B), st, (E, src))[0], OBS)
        else:
            R.undec("roundtrip", st)
    # end vertices of an edge are checked by C10


TYPES = {0: "INT", 1: "DOUBLE", 2: "POINTER", 3: "VECTOR", 4: "TENSOR"}


def attins(P, R, B):
    st, g = "MAttIns_Set_Value", "MAttIns_Get_Value"
    if st not in P.funcs or g not in P.funcs:
        R.undec("attribute", st)
        return
    off = {n: o for o, n in P.structs.get("MAttrib", ())}
    ai = {n: o for o, n in P.structs.get("MAttIns", ())}
    att = Ptr(("att", 0))
    for t, slot in ((0, 1), (1, 2), (2, 3), (3, 3), (4, 3)):
        s = State()
        for i in range(32):
            s.mem[(att.root, off["type"] + i)] = (t >> i) & 1
        for i in range(64):
            s.mem[(E.root, ai["attrib"] + i)] = ("p", att, i)
        f = P.funcs[st]
        a = B.args(f, "s")
        a[0] = E
        a[3] = Ptr(("data", 0))
        r = B.run(f, a, s)
        R.ob("attribute", TYPES[t])
        if r is None:
            R.undec("attribute", TYPES[t])
            continue
        outs = [Ptr(("out", i)) for i in range(3)]
        q = B.run(P.funcs[g], [E] + outs, r[0])
        if q is None:
            R.undec("attribute", TYPES[t])
            continue
        w = 32 if slot == 1 else 64
        got = tuple(q[0].get(outs[slot - 1].root, i) for i in range(w))
        want = B.asbits(a[slot])[:w]
        if t in (3, 4):
            # a copy of the values
            p = B.aspointer(got)
            if p is not None and p.root[0] == "new":
                continue
            if all(b is None for b in got):
                R.undec("attribute", TYPES[t])
                continue
            R.bad("attribute", TYPES[t], where(P, st), "MAttIns_Get_Value does not return a copy of the values set for an attribute of type %s" % TYPES[t])
        elif got != want:
            R.bad("attribute", TYPES[t], where(P, st), "MAttIns_Get_Value does not return what MAttIns_Set_Value stores for an attribute of type %s" % TYPES[t])


def typed(P, R):
    slot = {"Int": 2, "Dbl": 3, "Ptr": 4, "Vec": 4, "Tnsr": 4}
    for t, i in slot.items():
        f = P.funcs.get("MEnt_Set_%sAttVal" % t)
        if f is not None:
            R.ob("attribute", f.name)
            cs = [x for x in f.instrs() if x.op == "call" and x.callee == "MEnt_Set_AttVal"]
            if not cs:
                R.undec("attribute", f.name)
            for x in cs:
                if strip(f, x.o[0]) != ("a", 0) or strip(f, x.o[1]) != ("a", 1) or strip(f, x.o[i]) != ("a", 2):
                    R.bad("attribute", f.name, "%s:%d" % (f.file, x.line), "%s does not set the value it is given on the entity and attribute it is given" % f.name)
        f = P.funcs.get("MEnt_Get_%sAttVal" % t)
        if f is not None:
            R.ob("attribute", f.name)
            cs = [x for x in f.instrs() if x.op == "call" and x.callee == "MEnt_Get_AttVal"]
            if not cs:
                R.undec("attribute", f.name)
            for x in cs:
                if strip(f, x.o[0]) != ("a", 0) or strip(f, x.o[1]) != ("a", 1):
                    R.bad("attribute", f.name, "%s:%d" % (f.file, x.line), "%s does not ask for the attribute of the entity it is given" % f.name)
                for r in f.rets():
                    v = f.get(strip(f, r.o[0])) if r.o else None
                    if v is None or v.op != "load" or canon(f, v.o[0]) != canon(f, x.o[i]):
                        R.bad("attribute", f.name + "|result", "%s:%d" % (f.file, x.line), "%s does not return the value that was read" % f.name)
    for n in ("MEnt_Set_AttVal",):
        f = P.funcs.get(n)
        if f is None:
            continue
        cs = [x for x in f.instrs() if x.op == "call" and x.callee == "MAttIns_Set_Value"]
        R.ob("attribute", n)
        if not cs:
            R.undec("attribute", n)
        for x in cs:
            if [strip(f, o) for o in x.o[1:4]] != [("a", 2), ("a", 3), ("a", 4)]:
                R.bad("attribute", n, "%s:%d" % (f.file, x.line), "%s does not store the values it is given" % n)
        blocked = {x.b for x in cs}
        for r in f.rets():
            if cs and r.b not in blocked and 0 not in blocked and r.b in f.reachable_from(0, without=blocked):
                R.bad("attribute", n + "|path", "%s:%d" % (f.file, f.line), "%s returns on some path without storing the value" % n)


def constructors(P, R, B):
    for n, args, obs in (("MAttrib_New", (None, None, None, None), [("MAttrib_Get_Type", 2), ("MAttrib_Get_EntDim", 3)]),
                         ("MSet_New", (None, None, None), [("MSet_EntDim", 2), ("MSet_Mesh", 0)])):
        f = P.funcs.get(n)
        if f is None:
            continue
        a = B.args(f, "s")
        r = B.run(f, a, State())
        for g, i in obs:
            h = P.funcs.get(g)
            if h is None:
                continue
            R.ob("constructor", "%s,%s" % (n, g))
            if r is None or not isinstance(r[1], Ptr):
                R.undec("constructor", "%s,%s" % (n, g))
                continue
            q = B.run(h, [r[1]] + B.args(h)[1:], r[0])
            if q is None or q[1] is None or unknown(q[1]):
                R.undec("constructor", "%s,%s" % (n, g))
            elif q[1] != a[i]:
                R.bad("constructor", "%s|%s" % (n, g), where(P, n), "%s does not return what %s was given" % (g, n))


def partitions(P, R, B):
    off = {n: o for o, n in P.structs.get("Mesh", ())}
    pairs = [("MESH_Flag_Has_Ghosts_From_Prtn", "MESH_Has_Ghosts_From_Prtn"), ("MESH_Flag_Has_Overlaps_On_Prtn", "MESH_Has_Overlaps_On_Prtn")]
    pairs = [p for p in pairs if p[0] in P.funcs and p[1] in P.funcs]
    for st, g in pairs:
        f = P.funcs[st]
        for t in range(4):
            # a partition other than one's own
            s0 = State()
            for i in range(32):
                s0.mem[(E.root, off["mypartn"] + i)] = (3 >> i) & 1
            for i in range(64):
                s0.mem[(E.root, off["par_adj_flags"] + i)] = ("p", Ptr(("data", 0)), i)
            a = B.args(f, "s")
            a[0] = E
            a[1] = const(5, len(a[1]))
            a[2] = const(t, len(a[2]))
            r = B.run(f, a, s0)
            R.ob("partition", "%s,%d" % (st, t))
            if r is None:
                R.undec("partition", st)
                continue
            for st2, g2 in pairs:
                for u in range(4):
                    h = P.funcs[g2]
                    b = list(a)
                    b[2] = const(u, len(a[2]))
                    q, q0 = B.run(h, b[:len(h.dargs)], r[0]), B.run(h, b[:len(h.dargs)], s0)
                    R.ob("partition", "%s,%d,%s,%d" % (st, t, g2, u))
                    if q is None or q[1] is None or isinstance(q[1], tuple) and all(x is None for x in q[1]):
                        R.undec("partition", "%s,%s" % (st, g2))
                        continue
                    if u == t and g2 == g:
                        ok = isinstance(q[1], tuple) and any(x == 1 for x in q[1])
                    else:
                        ok = q[1] == q0[1]
                    if not ok:
                        R.bad("partition", "%s|%s|%d,%d" % (st, g2, t, u), where(P, st), "after %s for entities of dimension %d, %s for dimension %d %s" % (st, t, g2, u, "does not say so" if u == t and g2 == g else "has changed"))
    # questions about all types and any type, from a table without flags
    def bits(x):
        return isinstance(x, tuple) and all(isinstance(y, int) for y in x)

    for st, g in pairs:
        f = P.funcs[st]
        for ts in [(t,) for t in range(4)] + [(5,)] + [tuple(x for x in range(4) if x != m) for m in range(4)] + [(0, 1, 2, 3)]:
            s = State()
            for i in range(32):
                s.mem[(E.root, off["mypartn"] + i)] = (3 >> i) & 1
            for i in range(64):
                s.mem[(E.root, off["par_adj_flags"] + i)] = ("p", Ptr(("data", 0)), i)
            for i in range(32 * 16):
                s.mem[(("data", 0), i)] = 0
            a = B.args(f, "s")
            a[0] = E
            a[1] = const(5, len(a[1]))
            for t in ts:
                a[2] = const(t, len(a[2]))
                r = B.run(f, a, s) if s is not None else None
                s = r[0] if r is not None else None
            if s is None:
                R.undec("partition", st)
                continue
            has = set(range(4)) if ts == (5,) else set(ts)
            for st2, g2 in pairs:
                for u in (0, 1, 2, 3, 5, 6):
                    b = list(a)
                    b[2] = const(u, len(a[2]))
                    h = P.funcs[g2]
                    q = B.run(h, b[:len(h.dargs)], s)
                    R.ob("partition", "%s,%s,%s,%d" % (st, ts, g2, u))
                    if q is None or not bits(q[1]):
                        R.undec("partition", "%s,%s" % (st, g2))
                        continue
                    want = g2 == g and (u in has if u < 4 else has == set(range(4)) if u == 5 else True)
                    if (1 in q[1]) != want:
                        R.bad("partition", "%s|%s|%s,%d" % (st, g2, "".join(map(str, ts)), u), where(P, g2),
                              "after %s for entities of dimension %s only, %s for %s says %s" % (
                                  st, ",".join(map(str, sorted(has))), g2, u if u < 4 else "all types" if u == 5 else "any type", "yes" if not want else "no"))
