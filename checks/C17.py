"""C17: iterations over meshes, sets and lists visit every entry."""
import core, own, ir
from ir import canon, strip, cond_key

NUM = {"List_Entry": "List_Num_Entries", "MSet_Entry": "MSet_Num_Entries"}
for a, b in (("Vertex", "Vertices"), ("Edge", "Edges"), ("Face", "Faces"), ("Region", "Regions")):
    for p in ("", "Ghost", "Overlap", "Interior"):
        NUM["MESH_%s%s" % (p, a)] = "MESH_Num_%s%s" % (p, b)
NUM["MESH_Attrib"] = "MESH_Num_Attribs"
NUM["MESH_MSet"] = "MESH_Num_MSets"
REMOVE = {"List_Rem", "List_Remi", "List_RemSorted", "MSet_Rem"}
DELETE = {"MV_Delete": "Vertex", "ME_Delete": "Edge", "MF_Delete": "Face", "MR_Delete": "Region", "MSet_Delete": "MSet", "MAttrib_Delete": "Attrib"}

RULES = {
    "start": "an iteration with MESH_Next_*, MSet_Next_Entry or List_Next_Entry starts with its index at 0 on every path that leads to it",
    "index": "while an iteration is under way its index is changed by nothing else",
    "container": "while an iteration is under way it stays with the same mesh, set or list",
    "past": "a loop that steps through a mesh, set or list by position stops before the number of entries",
    "removal": "a loop that steps through a mesh, set or list by position does not go to the next position after it removed an entry",
    "kept": "what a loop puts at a place of an array on every turn is not put over that of the turn before, with nothing reading it in between",
}
EXPLAIN = ("Every call of the Next operations is a site. Its index variable is followed backwards from the loop that contains the site along all paths, to a store of 0 or to "
           "another use; within the loop, to every store and call that gets its address. Positional loops are taken from the loop counters that index List_Entry, MSet_Entry and MESH_Vertex etc.")
ASSUME = ["a positional loop need not start at 0 or cover all entries (many loops are over pairs or parts)"]
CONFIGS = ["default", "markers"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"start": 300, "index": 250, "container": 250, "past": 100, "kept": 80}


def symbol(f, v, depth=0):
    """value or what it was loaded from, for comparing containers"""
    v = canon(f, v)
    x = f.get(v)
    if x is not None and x.op == "load" and depth < 6:
        return ("ld", symbol(f, x.o[0], depth + 1))
    if x is not None and x.op == "getelementptr" and depth < 6:
        return ("gep", symbol(f, x.o[0], depth + 1), tuple((p[0], symbol(f, p[1], depth + 1)) + tuple(p[2:]) if p[0] == "x" else tuple(p) for p in x.path or ()))
    if x is not None and x.op in ("sext", "zext", "trunc") and depth < 8:
        return symbol(f, x.o[0], depth + 1)
    return v


def innermost(f, b):
    ls = [(len(bl), h) for h, bl in f.loops().items() if b in bl]
    return min(ls)[1] if ls else None


def iteration(f, x):
    """header of the loop that x steps, or None: first step before a loop, or a single step"""
    loops = f.loops()
    seen, todo, conds = set(), [("i", x.i)], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            if u.op == "phi":
                todo.append(("i", u.i))
            elif u.op == "icmp":
                # whether there is another one, not which one it is
                if any(o == ("null",) or o == ("c", 0) for o in u.o):
                    todo.append(("i", u.i))
            elif u.op in ("and", "or", "xor", "select", "zext"):
                todo.append(("i", u.i))
            elif u.op == "br":
                conds.add(u.b)
    best = None
    for h, bl in loops.items():
        if x.b in bl and any(c in bl and any(s not in bl for s in f.succ[c]) for c in conds):
            if best is None or len(bl) < len(loops[best]):
                best = h
    return best


def kept(f):
    """stores in a loop, at one place, of what differs from turn to turn, that nothing in the loop reads"""
    out = []
    loops = f.loops()
    for x in f.instrs():
        if x.op != "store":
            continue
        h = innermost(f, x.b)
        if h is None:
            continue
        bl = loops[h]
        latches = [p for p in f.pred[h] if p in bl]
        if not all(x.b == l or x.b in f.dom[l] for l in latches):
            continue
        v = canon(f, x.o[0])
        a = strip(f, x.o[1])
        g = f.get(a)
        root = a
        while g is not None and g.op == "getelementptr":
            if any(p[0] == "x" and not inv(f, p[1], bl) for p in g.path or ()):
                root = None
                break
            root = strip(f, g.o[0])
            g = f.get(root)
        if root is None or not inv(f, root, bl):
            continue
        rx = f.get(canon(f, root))
        if not (root[0] == "a" or rx is not None and (rx.op == "alloca" or rx.op == "call" and rx.callee in ("malloc", "calloc"))):
            continue
        if inv(f, x.o[0], bl):
            continue
        cr = canon(f, root)
        used = False
        for y in f.instrs():
            if y.b not in bl or y is x:
                continue
            if y.op == "load" and rootof(f, y.o[0]) == cr:
                used = True
            elif y.op == "call" and any(rootof(f, o) == cr for o in y.o):
                used = True
            elif y.op == "store" and rootof(f, y.o[0]) == cr:
                used = True
        if used and root[0] != "a" and lone(f, cr):
            used = False
        out.append((x, h, used))
    return out


def lone(f, root):
    """only one entry of an array is ever written, yet others are read"""
    places, other = set(), False
    for y in f.instrs():
        if y.op == "call" and y.callee != "free" and any(rootof(f, o) == root for o in y.o) or y.op == "store" and rootof(f, y.o[0]) == root:
            return False
        if y.op in ("load", "store"):
            a = canon(f, y.o[0] if y.op == "load" else y.o[1])
            if rootof(f, a) != root:
                continue
            idx = []
            g = f.get(a)
            while g is not None and g.op == "getelementptr":
                idx += [canon(f, p[1]) if p[0] == "x" else p for p in g.path or ()]
                g = f.get(canon(f, g.o[0]))
            idx = tuple(i for i in idx if i != ("c", 0))
            if y.op == "store":
                if any(i[0] not in ("c", "f") for i in idx):
                    return False
                places.add(idx)
            elif any(i[0] not in ("c", "f") for i in idx):
                other = True
    return other and len(places) == 1


def rootof(f, v):
    v = canon(f, v)
    for _ in range(6):
        g = f.get(v)
        if g is None or g.op != "getelementptr":
            break
        v = canon(f, g.o[0])
    return v


def inv(f, v, bl, d=0):
    v = strip(f, v)
    x = f.get(v)
    if x is None:
        return v[0] in ("c", "a", "g", "s", "null")
    if x.b not in bl:
        return True
    if d < 6 and x.op in ("add","sub","mul","sext","zext","trunc","getelementptr"):
        return all(inv(f, o, bl, d + 1) for o in x.o) and (x.op != "getelementptr" or all(p[0] != "x" or inv(f, p[1], bl, d+1) for p in x.path or ()))
    return False


def run(P, R):
    NEXT = {n for n in P.funcs if n.startswith("MESH_Next_") or n in ("List_Next_Entry", "MSet_Next_Entry")}

    def one(name):
        f = P.funcs[name]
        out = []

        def ob(rule):
            out.append((rule, None, None, None))

        def bad(rule, key, x, msg):
            out.append((rule, key, x.line, msg))
        sites = [x for x in f.calls() if x.callee in NEXT]
        loops = f.loops()
        for x in sites:
            a = strip(f, x.o[-1])
            g = f.get(a)
            if g is None or g.op != "alloca":
                continue
            h = iteration(f, x)
            L = loops[h] if h is not None else None
            # -- start
            ob("start")
            seen = set()
            if L is None:
                st = [(x.b, x.pos - 1)]
            else:
                st = [(p, len(f.blocks[p]) - 1) for p in f.pred[h] if p not in L]
            wrong = None
            while st and wrong is None:
                b, pos = st.pop()
                stop = False
                for y in reversed(f.blocks[b][:pos + 1]):
                    if y.op == "store" and strip(f, y.o[1]) == a:
                        if y.o[0] != ("c", 0):
                            wrong = ("is not set to 0 (line %s)" % y.line)
                        stop = True
                        break
                    if y.op == "call" and any(strip(f, o) == a for o in y.o) and not (y.callee or "").startswith(("llvm.", "__undef")):
                        same = y.callee == x.callee and symbol(f, y.o[0]) == symbol(f, x.o[0]) and not any(y.b in bl and x.b not in bl for bl in loops.values())
                        if not same:
                            wrong = "still holds what %s left in it" % (y.callee or "another call")
                        stop = True
                        break
                if stop:
                    continue
                if b == 0:
                    wrong = "was never set"
                    break
                for p in f.pred[b]:
                    if p not in seen:
                        seen.add(p)
                        st.append((p, len(f.blocks[p]) - 1))
            if wrong:
                bad("start", "%s %s" % (name, x.callee), x, "the index of this iteration (%s) %s" % (x.callee, wrong))
            if L is None:
                continue
            # -- index and container
            ob("index")
            for b in sorted(L):
                for y in f.blocks[b]:
                    if y is x:
                        continue
                    if y.op == "store" and strip(f, y.o[1]) == a or \
                            y.op == "call" and not (y.callee or "").startswith(("llvm.", "__undef")) and any(strip(f, o) == a for o in y.o):
                        same = y.op == "call" and y.callee == x.callee and symbol(f, y.o[0]) == symbol(f, x.o[0]) and iteration(f, y) == h
                        if not same:
                            bad("index", "%s %s" % (name, x.callee), y, "the index of the iteration with %s (line %s) is changed here while the iteration is under way" % (x.callee, x.line))
            ob("container")
            c = canon(f, x.o[0])
            d = f.get(c)
            if d is not None and d.b in L and d.op != "load":
                src = None
                if d.op == "phi" and d.b == h:
                    src = [w for w, pb in d.o if pb in L and canon(f, w) != c]
                    src = [w for w in src if not (f.get(w) is not None and f.get(w).op == "call" and f.get(w).callee in ("List_Add", "List_ChknAdd", "List_Cat"))]
                elif d.op == "phi" or d.op == "call":
                    src = [c]
                if src:
                    bad("container", "%s %s" % (name, x.callee), x, "the container of this iteration changes from one step to the next")
        # -- positional loops
        for x in f.calls():
            if x.callee not in NUM or len(x.o) < 2:
                continue
            i = canon(f, x.o[1])
            ph = f.get(i)
            if ph is None or ph.op != "phi" or ph.b not in loops or x.b not in loops[ph.b]:
                continue
            L = loops[ph.b]
            cont = symbol(f, x.o[0])
            ob("past")
            df = own.dominating_facts(f, x.b)
            le, lt = None, False
            for k, val in df.items():
                if len(k) != 3 or i not in (k[0], k[2]) or k[1] not in ("slt", "sgt"):
                    continue
                o = k[2] if k[0] == i else k[0]
                d = f.get(o)
                less = (k[1] == "slt") == (k[0] == i)      # i < o
                strict = less == val if val else False
                if val and less:
                    lt = True
                elif not val and not less:
                    # not (i > o)
                    if d is not None and d.op == "call" and d.callee == NUM[x.callee] and symbol(f, d.o[0]) == cont:
                        le = d
            if le is not None and not lt:
                bad("past", "%s %s" % (name, x.callee), x, "position goes up to and including the number of entries (%s, line %s)" % (le.callee, le.line))
            # -- removal
            step = [w for w, pb in ph.o if pb in L]
            if not step or not all(f.get(w) is not None and f.get(w).op == "add" and f.get(w).o == [i, ("c", 1)] for w in step):
                continue
            ob("removal")
            latch = {pb for w, pb in ph.o if pb in L}
            for b in sorted(L):
                for y in f.blocks[b]:
                    if y.op != "call":
                        continue
                    hit = False
                    if y.callee in REMOVE and y.o and symbol(f, y.o[0]) == cont and x.callee in ("List_Entry", "MSet_Entry"):
                        hit = True
                    if y.callee in DELETE and x.callee == "MESH_" + DELETE[y.callee] and canon(f, y.o[0]) == ("i", x.i):
                        hit = True
                    if not hit:
                        continue
                    # a search for one given entry
                    if any(val and len(k) == 3 and k[1] == "eq" and ("i", x.i) in (k[0], k[2]) and k[2][0] != "c" for k, val in own.dominating_facts(f, b).items()):
                        continue
                    # does the loop go on to the next position?
                    out_ = {z for z in range(len(f.blocks)) if z not in L}
                    if b in latch or latch & set(f.reachable_from(b, out_ | {ph.b})):
                        bad("removal", "%s %s" % (name, y.callee), y, "an entry is removed here and the loop goes on to the next position: the entry that moves up is left out")
        if f.file.startswith("src/"):
            for x, h, used in kept(f):
                ob("kept")
                if not used:
                    bad("kept", name, x, "what is put here on one turn of the loop is put over that of the turn before, which nothing has read")
        return name, out
    for name, out in core.parallel(sorted(P.funcs), one):
        f = P.funcs[name]
        for rule, key, line, msg in out:
            if key is None:
                R.ob(rule, f.file)
            else:
                R.bad(rule, key, "%s:%s %s" % (f.file, line, name), msg)
