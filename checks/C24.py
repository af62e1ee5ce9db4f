"""C24: what is gathered from several places is gathered once; sets combine as sets."""
import core, ir, own, summ
from ir import canon, strip, cond_key
from C17 import symbol, innermost

ADD = {"List_Add": (0, 1), "MSet_Add": (0, 1), "List_ChknAdd": (0, 1), "MSet_ChknAdd": (0, 1)}
HAS = {"List_Contains": (0, 1), "MSet_Contains": (0, 1)}
MARKED, MARK = "MEnt_IsMarked", "MEnt_Mark"
MARKALL = {"List_Mark": (0, 1), "MSet_Mark": (0, 1)}
UNMARKALL = {"List_Unmark": (0, 1), "MSet_Unmark": (0, 1)}
STEP = {"List_Next_Entry", "List_Entry", "MSet_Next_Entry", "MSet_Entry", "MF_Region", "ME_Vertex", "MF_Vertex"}
SETS = {"MSets_Union": lambda a, b: a or b, "MSets_Intersect": lambda a, b: a and b, "MSets_Subtract": lambda a, b: a and not b}
MALLTYPE = 5

RULES = {
    "once": "a query that lists neighbours over several entities adds one only if it is not in the list yet",
    "absent": "what is added to a list after asking whether it is there is added if it is not there",
    "same": "the entity that is marked, or added, is the one that was asked about",
    "marked": "an entity that is added because it is not marked is marked then, and one that is marked then is added",
    "again": "marks that tell what one list holds are taken off before the next list is gathered, in the builds with and without marker bits alike",
    "table": "union, intersection and difference of sets have the members that these have",
    "kind": "a combined set is of the kind of the two sets, or of all kinds if they differ",
    "empty": "a combined set is deleted only if it has no members",
}
EXPLAIN = ("Membership tests are List_Contains, MEnt_IsMarked and values of attributes that serve as marks. For each list entry added, the tests that the addition is control dependent on are found; entity, list, "
           "marker and branch are compared. Additions to a list that a query returns, inside two nested steps over entities, need such a test, a search of the list, or an entity that was just made. For the set "
           "operations the condition under which a member is added is read off as a formula over membership in the first and second set (marks resolved to the set that was marked), and tabulated.")
ASSUME = ["a list or set that is handed in has each member once", "within one iteration, an entity's marks are changed only by the calls that name it"]
CONFIGS = ["default", "markers"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"same": 30, "again": 25, "marked": 20, "absent": 20, "once": 7, "table": 12, "kind": 3, "empty": 1}


def lists(f):
    """union-find of list handles over phis and the result of List_Add"""
    if hasattr(f, "_l24"):
        return f._l24
    up = {}

    def find(v):
        while up.get(v, v) != v:
            v = up[v]
        return v
    for x in f.instrs():
        v = ("i", x.i)
        if x.op == "phi" and x.t == "ptr":
            for o, _ in x.o:
                o = canon(f, o)
                if o[0] not in ("c", "null", "u"):
                    up[find(o)] = find(v)
        elif x.op == "call" and x.callee in ADD:
            up[find(v)] = find(canon(f, x.o[0]))
    f._l24 = find
    return find


def same_list(f, a, b):
    find = lists(f)
    return symbol(f, a) == symbol(f, b) or find(canon(f, a)) == find(canon(f, b))


def tests(f):
    """value -> (kind, call, entity, container) of membership tests"""
    if hasattr(f, "_t24"):
        return f._t24
    out = {}
    for x in f.instrs():
        if x.op != "call":
            continue
        if x.callee in HAS:
            out[("i", x.i)] = ("in", x, x.o[1], x.o[0])
        elif x.callee == MARKED:
            out[("i", x.i)] = ("mark", x, x.o[0], x.o[1])
        elif x.callee == "MEnt_Get_AttVal":
            for k in (2, 4):
                a = strip(f, x.o[k])
                if a[0] == "i" and f.get(a).op == "alloca":
                    out[("m", a[1], x.i)] = ("val", x, x.o[0], x.o[1])
    f._t24 = out
    return out


def literals(f, b):
    """membership literals that control block b: list of (test, True=present / False=absent, direct?)"""
    out = []
    T = tests(f)
    direct = f.control_deps().get(b, ())
    for (a, s) in f.all_control_deps(b):
        br = f.blocks[a][-1]
        if br.op != "br" or not br.o:
            continue
        k, pol = cond_key(f, br.o[0])
        if isinstance(k, tuple) and len(k) == 3 and k[0] in T and k[2] in (("c", 0), ("null",), ("c", 1)) and k[1] == "eq":
            zero = pol if k[2] != ("c", 1) else not pol
            v = k[0]
        elif isinstance(k, tuple) and len(k) == 3 and k[0] in T and (k[1], k[2]) in (("sgt", ("c", 0)), ("slt", ("c", 1))):
            zero, v = (pol if k[1] == "slt" else not pol), k[0]
        elif k in T:
            zero, v = not pol, k
        else:
            continue
        if s == br.succ[0] and s == br.succ[1]:
            continue
        absent = zero if s == br.succ[0] else not zero
        out.append((T[v], not absent, (a, s) in direct, a))
    return out


def cont(f, t, v):
    return symbol(f, v)


def marks(f):
    """calls that mark one entity: list of (call, kind, entity, container)"""
    out = []
    for x in f.instrs():
        if x.op != "call":
            continue
        if x.callee == MARK:
            out.append((x, "mark", x.o[0], x.o[1]))
        elif x.callee == "MEnt_Set_AttVal":
            if x.o[2] in (("c", 0),) and canon(f, x.o[4])[0] == "null":
                continue
            out.append((x, "val", x.o[0], x.o[1]))
    return out


def equiv(f, x, y, within=None):
    """x and y happen together: one block, or one dominates and the other post-dominates"""
    if x.b == y.b:
        return True
    for a, b in ((x, y), (y, x)):
        if a.b in f.dom[b.b] and b.b in f.pdom[a.b]:
            # no way from b round to b without a
            return innermost(f, a.b) == innermost(f, b.b)
    cd = f.control_deps()
    return cd.get(x.b) == cd.get(y.b) and cd.get(x.b) is not None and innermost(f, x.b) == innermost(f, y.b) and \
        (y.b in f.reachable_from(x.b) or x.b in f.reachable_from(y.b))


def entity(f, v):
    return symbol(f, v)


def run(P, R):
    fns = [f for f in P.funcs.values()]
    for f in fns:
        if f.file.endswith(("List.c",)):
            continue
        membership(P, R, f)
        if f.name in SETS:
            combine(P, R, f)
    once(P, R)
    if P.cfg in ("default", "markers"):
        again(P, R)


def taken(f, A, kind, c):
    """the marks are taken off in a loop around A"""
    loops = [bl for h, bl in f.loops().items() if A.b in bl]
    for x in f.instrs():
        if x.op != "call" or not any(x.b in bl for bl in loops):
            continue
        if kind == "mark" and (x.callee in UNMARKALL or x.callee == "MEnt_Unmark") and symbol(f, x.o[1]) == c:
            return True
        if kind == "val" and x.callee == "MEnt_Set_AttVal" and symbol(f, x.o[1]) == c and x.o[2] == ("c", 0) and canon(f, x.o[4])[0] == "null":
            return True
        if kind == "val" and x.callee in ("MAttrib_Clear", "MEnt_Rem_AttVal") and symbol(f, x.o[-1 if x.callee == "MEnt_Rem_AttVal" else 0]) == c:
            return True
    return False


def gathers(f):
    """(line of the addition) -> (call, kind of mark, marks are taken off in the loop)"""
    out = {}
    mk = marks(f)
    for A in f.instrs():
        if A.op != "call" or A.callee not in ADD:
            continue
        for y in mk:
            if entity(f, y[2]) == entity(f, A.o[1]) and equiv(f, A, y[0]):
                if any(t[0] == y[1] and symbol(f, t[3]) == symbol(f, y[3]) and f.dominates(t[1], A) for t in tests(f).values()):
                    out[(A.line, y[1])] = (A, taken(f, A, y[1], symbol(f, y[3])))
    return out


def again(P, R):
    """the marks are taken off again at the same places in the builds with and without marker bits"""
    other = "default" if P.cfg == "markers" else "markers"
    Q = ir.program(other)
    for f in P.funcs.values():
        g = Q.funcs.get(f.name)
        if g is None or f.name in ADD:
            continue
        a = gathers(f)
        mykind = "mark" if P.cfg == "markers" else "val"
        have = {l for (l, k) in a}
        for (l, k), (A, t) in sorted(gathers(g).items()):
            if k == mykind or l in have:
                continue
            for B in f.instrs():
                if B.op == "call" and B.callee in ADD and B.line == l and any(
                        t_[0] == mykind and entity(f, t_[2]) == entity(f, B.o[1]) and not p for t_, p, d, a_ in literals(f, B.b)):
                    R.ob("marked", f.name, 1)
                    R.bad("marked", "%s|%s" % (f.name, P.cfg), B.loc, "%s adds an entity because it is not marked and does not mark it, in the build %s marker bits only" % (f.name, "with" if P.cfg == "markers" else "without"))
                    break
        if not a:
            continue
        b = {l: v for (l, k), v in gathers(g).items() if k != ("val" if P.cfg != "markers" else "mark")}
        for (l, k), (A, t) in sorted(a.items()):
            if k != ("mark" if P.cfg == "markers" else "val") or l not in b:
                continue
            R.ob("again", f.name, 1, sample="%s:%d" % (f.name, l))
            if not t and b[l][1]:
                R.bad("again", f.name, A.loc, "%s leaves the marks of one list on when it gathers the next, in the build %s marker bits only" % (f.name, "with" if P.cfg == "markers" else "without"))


def membership(P, R, f):
    adds = [x for x in f.instrs() if x.op == "call" and x.callee in ADD]
    if not adds or f.name in ADD:
        return
    mk = marks(f)
    n = 0
    for A in adds:
        L, e = A.o[0], A.o[1]
        e_ = entity(f, e)
        lits = literals(f, A.b)
        # an entity is tested for being in the list that is then added to
        own_ = [(t, present, d) for t, present, d, a in lits if t[0] == "in" and same_list(f, t[3], L)]
        mine = [(t, p) for t, p, d in own_ if entity(f, t[2]) == e_]
        if mine:
            R.ob("absent", f.name, 1, sample="%s:%d" % (f.name, A.line))
            if all(p for t, p in mine):
                R.bad("absent", "%s|%s" % (f.name, A.callee), A.loc, "%s adds an entity to a list if it is in it already" % f.name)
        elif own_:
            near = [t for t, p, d in own_ if d and not p]
            if near:
                R.ob("same", f.name, 1)
                R.bad("same", "%s|%s" % (f.name, A.callee), A.loc, "%s asks whether one entity is in the list and adds another to it" % f.name)
        # asked, marked, and added all the same
        for v, t in tests(f).items():
            if t[0] == "in" or entity(f, t[2]) != e_ or any(l[0][1] is t[1] for l in lits):
                continue
            if innermost(f, t[1].b) is None or innermost(f, t[1].b) != innermost(f, A.b) or not f.dominates(t[1], A):
                continue
            m = symbol(f, t[3])
            if any(y[1] == t[0] and symbol(f, y[3]) == m and entity(f, y[2]) == e_ and equiv(f, A, y[0]) for y in mk):
                R.ob("absent", f.name, 1)
                R.bad("absent", "%s|regardless" % f.name, A.loc, "%s asks whether an entity is marked, and adds and marks it whether or not" % f.name)
        # marks
        for t, p, d, a in lits:
            if t[0] == "in" or entity(f, t[2]) != e_:
                continue
            m = cont(f, t, t[3])
            with_ = [y for y in mk if y[1] == t[0] and cont(f, t, y[3]) == m]
            if not with_:
                others = [x for x in f.instrs() if x.op == "call" and x.callee in MARKALL and cont(f, t, x.o[1]) == m]
                if t[0] == "mark" and not others and not p and own_marker(f, t[3]):
                    R.ob("marked", f.name, 1)
                    R.bad("marked", "%s|never" % f.name, A.loc, "%s adds entities that are not marked and never marks any" % f.name)
                continue
            inloop = [y for y in with_ if entity(f, y[2]) == e_]
            if p or not inloop:
                # the marks of other entities say something else (set up before)
                if p and any(equiv(f, A, y[0]) for y in inloop):
                    R.ob("absent", f.name, 1)
                    R.bad("absent", "%s|%s" % (f.name, A.callee), A.loc, "%s adds and marks an entity if it is marked already" % f.name)
                elif not p and innermost(f, A.b) is not None and any(innermost(f, y[0].b) == innermost(f, A.b) and y[0].b in f.reachable_from(a) for y in with_):
                    R.ob("same", f.name, 1)
                    R.bad("same", "%s|mark" % f.name, A.loc, "%s asks whether one entity is marked and marks another" % f.name)
                continue
            R.ob("marked", f.name, 1, sample="%s:%d" % (f.name, A.line))
            if not any(equiv(f, A, y[0]) for y in inloop):
                R.bad("marked", "%s|%s" % (f.name, A.callee), A.loc, "%s adds an entity that is not marked without marking it, or marks it without adding it" % f.name)
    # marks under a test of the same marker
    for (x, kind, e, c) in mk:
        lits = [(t, p, d) for t, p, d, a in literals(f, x.b) if t[0] == kind and cont(f, t, t[3]) == symbol(f, c) and d]
        lits = [(t, p) for t, p, d in lits if not p]
        if not lits:
            continue
        R.ob("same", f.name, 1, sample="%s:%d" % (f.name, x.line))
        if not any(entity(f, t[2]) == entity(f, e) for t, p in lits):
            R.bad("same", "%s|%s" % (f.name, x.callee), x.loc, "%s asks whether one entity is marked and marks another" % f.name)


def own_marker(f, v):
    x = f.get(canon(f, v))
    return x is not None and x.op == "call" and x.callee == "MSTK_GetMarker"


# ------------------------------------------------------------------- queries
def fresh(P, f, v, seen=None):
    """v may be something made here"""
    seen = set() if seen is None else seen
    v = canon(f, v)
    if v in seen:
        return False
    seen.add(v)
    x = f.get(v)
    if x is None:
        return False
    if x.op == "phi":
        return any(fresh(P, f, o, seen) for o, _ in x.o)
    if x.op == "select":
        return any(fresh(P, f, o, seen) for o in x.o[1:])
    return x.op == "call" and (x.callee or "").endswith("_New")


def once(P, R):
    for f in sorted(P.funcs.values(), key=lambda f: f.name):
        if "/base/" not in f.file or f.ret != "ptr" and f.dret != "List_ptr":
            continue
        find = lists(f)
        made = {}
        for x in f.instrs():
            if x.op == "call" and x.callee in ("List_New", "List_Copy"):
                made[find(("i", x.i))] = x
        if not made:
            continue
        given = set()
        for r in f.rets():
            if r.o:
                given.add(find(canon(f, r.o[0])))
        for A in f.instrs():
            if A.op != "call" or A.callee not in ("List_Add", "List_Insert", "List_Inserti"):
                continue
            l = find(canon(f, A.o[0]))
            if l not in given or l not in made:
                continue
            N = made[l]
            nest = [bl for h, bl in f.loops().items() if A.b in bl and N.b not in bl]
            if len(nest) < 2:
                continue
            v = canon(f, A.o[1])
            x = f.get(v)
            if fresh(P, f, v) or x is None:
                continue
            src = sources(f, v)
            if not src or not all(s.callee in STEP for s in src):
                continue
            inner = min(nest, key=len)
            outer = max(nest, key=len)
            if not any(s.b in inner for s in src):
                continue
            R.ob("once", f.name, 1, sample="%s:%d" % (f.name, A.line))
            if guarded(f, A, v, inner):
                continue
            R.bad("once", f.name, A.loc, "%s adds neighbours of several entities to its list without asking whether they are in it" % f.name)


def sources(f, v, seen=None):
    seen = set() if seen is None else seen
    v = canon(f, v)
    if v in seen:
        return []
    seen.add(v)
    x = f.get(v)
    if x is None:
        return []
    if x.op == "phi":
        return [s for o, _ in x.o for s in sources(f, o, seen)]
    if x.op == "call":
        return [x]
    return []


def guarded(f, A, v, inner):
    e = entity(f, v)
    for t, p, d, a in literals(f, A.b):
        if entity(f, t[2]) == e and not p and (t[0] != "in" or same_list(f, t[3], A.o[0])):
            return True
    # a search of the list: a step over the same list in a loop of its own, compared with the entity
    for x in f.instrs():
        if x.op != "call" or x.callee not in ("List_Next_Entry", "List_Entry") or not same_list(f, x.o[0], A.o[0]):
            continue
        lv = ("i", x.i)
        hit = None
        for u in f.instrs():
            if u.op == "call" and (u.callee or "").endswith("AreSame") or u.op == "icmp":
                os = [canon(f, o) for o in u.o[:2]]
                if lv in os and any(symbol(f, o) == e for o in os):
                    hit = u
        if hit is not None and x.b in inner and searched(f, A, hit):
            return True
    return False


def searched(f, A, hit):
    """the addition depends on how the comparison came out"""
    deps = {a for a, s in f.all_control_deps(A.b)}
    seen, todo = set(), []
    blk = set()
    for u in f.uses.get(("i", hit.i), ()):
        todo.append(u)
    while todo:
        u = todo.pop()
        if u.i in seen:
            continue
        seen.add(u.i)
        if u.op == "br" or u.op == "switch":
            blk.add(u.b)
        for w in f.uses.get(("i", u.i), ()):
            todo.append(w)
    if blk & deps:
        return True
    # through a flag: a phi that takes another value where the comparison held
    for a in deps:
        br = f.blocks[a][-1]
        if br.op != "br" or not br.o:
            continue
        k, pol = cond_key(f, br.o[0])
        v = k[0] if isinstance(k, tuple) and len(k) == 3 else k
        x = f.get(v)
        st, sn = [x], set()
        while st:
            y = st.pop()
            if y is None or y.i in sn:
                continue
            sn.add(y.i)
            if y.op == "phi":
                for o, pb in y.o:
                    if pb in blk or {c for c, s in f.all_control_deps(pb)} & blk:
                        if o[0] == "c" and len({q for q, _ in y.o}) > 1:
                            return True
                    st.append(f.get(o))
            elif y.op in ("icmp", "zext", "xor", "select"):
                st.extend(f.get(o) for o in y.o)
    return False


# ---------------------------------------------------------------------- sets
def combine(P, R, f):
    want = SETS[f.name]
    new = [x for x in f.instrs() if x.op == "call" and x.callee == "MSet_New"]
    if not new:
        R.undec("table", f.name)
        return
    news = {("i", x.i) for x in new}

    def who(v, depth=0):
        """set of 'a','b','new' that v may be"""
        v = canon(f, v)
        if v in news:
            return {"new"}
        if v[0] == "a":
            return {"ab"[v[1]]} if v[1] < 2 else {"?"}
        x = f.get(v)
        if x is not None and x.op in ("phi", "select") and depth < 5:
            os = [o for o, _ in x.o] if x.op == "phi" else x.o[1:]
            out = set()
            for o in os:
                out |= who(o, depth + 1)
            return out
        if x is not None and x.op == "load":
            p = f.get(strip(f, x.o[0]))
            if p is not None and p.op == "getelementptr":
                return who(p.o[0], depth + 1)
        return {"?"}
    # what the new set starts with: a copy put in its list field
    init = set()
    for x in f.instrs():
        if x.op == "store":
            p = f.get(strip(f, x.o[1]))
            c = f.get(canon(f, x.o[0]))
            if p is not None and p.op == "getelementptr" and who(p.o[0]) == {"new"} and c is not None and c.op == "call" and c.callee == "List_Copy":
                init |= who(c.o[0])
    marker = {}
    for x in f.instrs():
        if x.op == "call" and x.callee in MARKALL:
            marker.setdefault(symbol(f, x.o[1]), []).append((x, who(x.o[0])))
    steps = {("i", x.i): x for x in f.instrs() if x.op == "call" and x.callee in ("MSet_Next_Entry", "List_Next_Entry", "MSet_Entry", "List_Entry")}
    for a in (False, True):
        for b in (False, True):
            val = {"a": a, "b": b}
            if "?" in init or "new" in init:
                R.undec("table", f.name)
                return
            start = any(val[i] for i in init)
            val["new"] = start
            got = {start}
            for A in f.instrs():
                if A.op != "call" or A.callee not in ADD or who(A.o[0]) != {"new"}:
                    continue
                v = canon(f, A.o[1])
                if v not in steps:
                    R.undec("table", f.name)
                    return
                cond = {True}
                for t, p, d, blk in literals(f, A.b):
                    if canon(f, t[2]) != v:
                        continue
                    if t[0] == "in":
                        ws = who(t[3])
                    elif t[0] == "mark":
                        ms = [(x, w) for x, w in marker.get(symbol(f, t[3]), ()) if f.dominates(x, t[1]) or x.b in f.dom[t[1].b]]
                        ws = set()
                        for x, w in ms:
                            ws |= w
                        if not ms:
                            R.ob("table", f.name, 1)
                            R.bad("table", "%s|mark" % f.name, t[1].loc, "%s asks for a mark that no set was given" % f.name)
                            return
                        if len(ms) > 1:
                            # marks of several sets: union
                            lit = any(val.get(w, False) for w in ws)
                            cond = {c and (lit == p) for c in cond}
                            continue
                    else:
                        continue
                    if "?" in ws:
                        R.undec("table", f.name)
                        return
                    cond = {c and (val[w] == p) for c in cond for w in ws}
                src = who(steps[v].o[0])
                if "?" in src:
                    R.undec("table", f.name)
                    return
                # the set stepped through may be one or the other: both must do
                alt = {c and val[s] for s in src for c in cond}
                got = {g or x for g in got for x in alt}
            R.ob("table", "%s(%d,%d)" % (f.name, a, b), 1, sample=f.name)
            if got != {bool(want(a, b))}:
                R.bad("table", "%s|%d%d" % (f.name, a, b), "%s:%d" % (f.file, f.line),
                      "%s: an entity that is %sin the first and %sin the second set is %sin the result" % (f.name, "" if a else "not ", "" if b else "not ", "not " if want(a, b) else ""))
    # kind
    for x in new:
        k = canon(f, x.o[2])
        y = f.get(k)
        R.ob("kind", f.name, 1)
        lits = differ(f, x.b, who)
        if k == ("c", MALLTYPE):
            ok = lits is not False
        elif y is not None and y.op == "phi":
            ok = True
            for o, pb in y.o:
                o = canon(f, o)
                z = f.get(o)
                if o == ("c", MALLTYPE):
                    ok = ok and True
                else:
                    ok = ok and z is not None and kindof(f, z, who) is not None
        else:
            w = kindof(f, y, who) if y is not None else None
            ok = w is not None and (lits is not True if f.name != "MSets_Subtract" else w == {"a"})
        if not ok:
            R.bad("kind", f.name, x.loc, "%s makes a set of the wrong kind" % f.name)
    # empty
    for x in f.instrs():
        if x.op == "call" and x.callee == "MSet_Delete" and who(x.o[0]) == {"new"}:
            R.ob("empty", f.name, 1)
            ok = False
            for (a, s) in f.all_control_deps(x.b):
                br = f.blocks[a][-1]
                if br.op != "br" or not br.o:
                    continue
                k, pol = cond_key(f, br.o[0])
                if isinstance(k, tuple) and len(k) == 3 and k[1] == "eq" and k[2] == ("c", 0):
                    y = f.get(k[0])
                    if y is not None and y.op == "call" and y.callee in ("MSet_Num_Entries", "List_Num_Entries") and who(y.o[0]) == {"new"}:
                        if pol == (s == br.succ[0]):
                            ok = True
                elif isinstance(k, tuple) and len(k) == 3 and (k[1], k[2]) in (("sgt", ("c", 0)), ("slt", ("c", 1))):
                    y = f.get(k[0])
                    if y is not None and y.op == "call" and y.callee in ("MSet_Num_Entries", "List_Num_Entries") and who(y.o[0]) == {"new"}:
                        if (pol if k[1] == "slt" else not pol) == (s == br.succ[0]):
                            ok = True
            if not ok:
                R.bad("empty", f.name, x.loc, "%s deletes the combined set though it has members" % f.name)


def kindof(f, z, who):
    if z.op == "call" and z.callee == "MSet_EntDim":
        return who(z.o[0])
    if z.op == "load":
        p = f.get(strip(f, z.o[0]))
        if p is not None and p.op == "getelementptr":
            return who(p.o[0])
    return None


def differ(f, b, who):
    """True: the two kinds differ here; False: they are equal; None: nothing known"""
    for (a, s) in f.all_control_deps(b):
        br = f.blocks[a][-1]
        if br.op != "br" or not br.o:
            continue
        k, pol = cond_key(f, br.o[0])
        if isinstance(k, tuple) and len(k) == 3 and k[1] == "eq":
            x, y = f.get(k[0]), f.get(k[2])
            if x is not None and y is not None and kindof(f, x, who) and kindof(f, y, who):
                if {frozenset(kindof(f, x, who)), frozenset(kindof(f, y, who))} == {frozenset("a"), frozenset("b")} and k[0] != k[2] and is_kind(x) and is_kind(y):
                    eq = pol == (s == br.succ[0])
                    return not eq
    return None


def is_kind(x):
    return x.op == "call" and x.callee == "MSet_EntDim"
